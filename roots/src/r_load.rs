//! Entry points: calibration data obtained from the camera.
use crate::bus::*;
use crate::r_eep0::{sx, EE, LEN};
use crate::r_ham::encode;
use crate::r_image::{any_dev, chk_err};
use crate::sa::*;
use mlx9064x::common::{FlaggedPixels, FromI2C};
use mlx9064x::mlx90640::Mlx90640Calibration;
use mlx9064x::mlx90641::Mlx90641Calibration;
use mlx9064x::*;

const GAIN: u16 = 1;
const LAST: u16 = 2;
const EMIS: u16 = 3;

/// Some live bits: of the gain, of the last pixel, of the emissivity.
fn live(k: u16, n: usize) -> u16 {
    sa_bits("live", k as usize, n) as u16
}
fn put(b: &mut [u8; LEN], a: u16, w: u16) {
    let k = (a - EE) as usize * 2;
    b[k] = (w >> 8) as u8;
    b[k + 1] = w as u8;
}
fn dump(small: bool) -> [u8; LEN] {
    let mut b = [0u8; LEN];
    if small {
        put(&mut b, 0x2424, encode(live(GAIN, 11)));
        put(&mut b, 0x2423, encode(live(EMIS, 11)));
        put(&mut b, 0x273F, encode(live(LAST, 11)));
        // the last pixel works
        put(&mut b, 0x25BF, encode(1));
    } else {
        put(&mut b, 0x2430, live(GAIN, 16));
        put(&mut b, 0x273F, live(LAST, 6) << 10);
    }
    b
}
/// Only reads, only of the calibration memory, and as often as told of the control register.
fn traffic(log: &Log, control: usize) {
    let mut seen = 0;
    let mut k = 0;
    while k < log.n {
        let o = &log.ops[k];
        let r = o.reg();
        if r == CONTROL {
            seen += 1;
            sa_check(!o.write && o.rlen == 2, "B08 construction reads the control register", k);
        } else {
            sa_check(
                !o.write && r >= EE && r < 0x2740 && o.rlen <= (0x2740 - r) as usize * 2,
                "B08 construction otherwise reads the calibration memory only",
                k,
            );
        }
        k += 1;
    }
    if log.n > 0 && !log.ops[log.n - 1].failed {
        sa_check(seen == control, "B08 construction reads the control register once", 0);
    }
    sa_check(seen <= control, "B08 construction reads the control register once", 1);
}
fn values<'a, C: CalibrationData<'a>>(c: &'a C, small: bool) {
    let (g, l) = if small {
        (((live(GAIN, 11) << 5) as i32) as f32, sx(live(LAST, 11), 11))
    } else {
        (sx(live(GAIN, 16), 16) as f32, sx(live(LAST, 6), 6))
    };
    sa_feq(c.gain(), g, "E08 the gain loaded is the one stored", 0);
    let n = if small { 192 } else { 768 };
    match c.offset_reference_pixels(Subpage::One).nth(n - 1) {
        Some(x) => sa_check(*x as i32 == l, "E08 the last word is loaded too", 0),
        None => sa_check(false, "E08 an offset for each pixel", 0),
    }
}
macro_rules! loads {
    ($($load:ident, $new:ident, $cal:ty, $drv:ty, $small:expr;)*) => { $(
        pub fn $load() {
            let b = dump($small);
            let mut log_ = Log::new();
            let log = &mut log_ as *mut Log;
            unsafe {
                (*log).fallible = true;
                (*log).eeprom = b.as_ptr();
            }
            let dev = any_dev();
            let mut bus = Bus { log };
            let r = <$cal as FromI2C<Bus>>::from_i2c(&mut bus, dev);
            let log = unsafe { &*log };
            chk_dev(log, dev);
            traffic(log, 0);
            chk_err(log, 0, &r);
            match r {
                Ok(c) => {
                    values(&c, $small);
                    sa_cover(true, "E08 loading can succeed", 0);
                }
                Err(_) => sa_cover(true, "E08 loading can fail", 0),
            }
            sa_done();
        }
        pub fn $new() {
            let b = dump($small);
            let mut log_ = Log::new();
            let log = &mut log_ as *mut Log;
            unsafe {
                (*log).fallible = true;
                (*log).eeprom = b.as_ptr();
            }
            let dev = any_dev();
            let r = <$drv>::new(Bus { log }, dev);
            let log = unsafe { &*log };
            chk_dev(log, dev);
            traffic(log, 1);
            chk_err(log, 0, &r);
            match r {
                Ok(d) => {
                    let e = if $small { sx(live(EMIS, 11), 11) as f32 / 512.0 } else { 1.0 };
                    sa_feq(d.effective_emissivity(), e, "B08 initial emissivity is the camera's, or 1", 1);
                    sa_check(d.ambient_temperature().is_none(), "B08 no ambient temperature before the first image", 1);
                    sa_check(d.reflected_temperature().is_none(), "B08 no reflected temperature initially", 1);
                    sa_cover(true, "B08 construction can succeed", 1);
                }
                Err(_) => sa_cover(true, "B08 construction can fail", 1),
            }
            sa_done();
        }
    )* };
}
loads! {
    r_load_640, r_new_640, Mlx90640Calibration, mlx9064x::Mlx90640Driver<Bus>, false;
    r_load_641, r_new_641, Mlx90641Calibration, mlx9064x::Mlx90641Driver<Bus>, true;
}

/// Listing the flagged pixels.
fn listed<F: FlaggedPixels>(f: F, at: &[usize], on: &[bool], k: usize) {
    let mut it = f.iter_flagged();
    let mut some = false;
    let mut i = 0;
    while i < at.len() {
        if on[i] {
            some = true;
            sa_check(it.next() == Some(at[i]), "E03 flagged pixels are listed in order", 100 * k + i);
        }
        i += 1;
    }
    sa_check(it.next().is_none(), "E03 only flagged pixels are listed", k);
    sa_check(f.any() == some, "E03 whether any pixel is flagged", k);
}
pub fn r_flags_640() {
    let mut b = [0u8; LEN];
    let mut a = 0x2440;
    while a < 0x2740 {
        put(&mut b, a, 2);
        a += 1;
    }
    let at = [0, 64, 767];
    let mut dead = [false; 3];
    let mut odd = [false; 3];
    let mut i = 0;
    while i < 3 {
        if sa_split(sa_bool("odd", i)) {
            odd[i] = true;
            put(&mut b, 0x2440 + at[i] as u16, 3);
        } else if sa_split(sa_bool("dead", i)) {
            dead[i] = true;
            put(&mut b, 0x2440 + at[i] as u16, 0);
        }
        i += 1;
    }
    match Mlx90640Calibration::from_data(&b) {
        Ok(c) => {
            listed(c.failed_pixels(), &at, &dead, 0);
            listed(c.outlier_pixels(), &at, &odd, 1);
        }
        Err(_) => sa_check(false, "E03 flagged pixels do not prevent loading", 0),
    }
    sa_done();
}
pub fn r_flags_641() {
    let mut b = [0u8; LEN];
    let mut a = 0x2500;
    while a < 0x25C0 {
        put(&mut b, a, encode(1));
        a += 1;
    }
    let at = [0, 63, 64, 191];
    let mut dead = [false; 4];
    let mut i = 0;
    while i < 4 {
        if sa_split(sa_bool("dead", i)) {
            dead[i] = true;
            put(&mut b, 0x2500 + at[i] as u16, 0);
        }
        i += 1;
    }
    match Mlx90641Calibration::from_data(&b) {
        Ok(c) => {
            listed(c.failed_pixels(), &at, &dead, 0);
            listed(c.outlier_pixels(), &at, &dead, 1);
        }
        Err(_) => sa_check(false, "E03 flagged pixels do not prevent loading", 1),
    }
    sa_done();
}
