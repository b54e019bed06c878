//! Entry points: MLX90640 calibration data.
use crate::bus::*;
use crate::sa::*;
use mlx9064x::common::FlaggedPixels;
use mlx9064x::mlx90640::Mlx90640Calibration;
use mlx9064x::*;

pub const EE: u16 = 0x2400;
pub const LEN: usize = 1664;

/// The word at an EEPROM address.
fn w(a: u16) -> u16 {
    mem16(0, a)
}
/// Sign-extend the low `n` bits.
pub fn sx(v: u16, n: u32) -> i32 {
    let v = (v as i32) & ((1 << n) - 1);
    if v >> (n - 1) & 1 != 0 {
        v - (1 << n)
    } else {
        v
    }
}
fn hi(a: u16) -> i32 {
    sx(w(a) >> 8, 8)
}
fn lo(a: u16) -> i32 {
    sx(w(a) & 0xff, 8)
}
/// Nibble `n` of a word, from the least significant.
fn nib(a: u16, n: u32) -> u16 {
    w(a) >> (4 * n) & 15
}
fn p2(e: f32) -> f32 {
    e.exp2()
}
const SUBS: [Subpage; 2] = [Subpage::Zero, Subpage::One];

fn any_dump() -> [u8; LEN] {
    let mut b = [0u8; LEN];
    sa_fill(b.as_mut_ptr(), LEN, "mem", EE as usize * 2);
    b
}
/// Offset (or sensitivity) of a pixel before scaling: average, row, column and own part.
fn bulk(base: u16, own: i32, r: usize, c: usize) -> i32 {
    sx(w(base + 1), 16)
        + (sx(nib(base + 2 + r as u16 / 4, r as u32 % 4), 4) << nib(base, 2))
        + (sx(nib(base + 8 + c as u16 / 4, c as u32 % 4), 4) << nib(base, 1))
        + (own << nib(base, 0))
}
fn px(i: usize) -> u16 {
    w(0x2440 + i as u16)
}
fn offset(i: usize) -> i32 {
    bulk(0x2410, sx(px(i) >> 10, 6), i / 32, i % 32)
}
fn fits(v: i32) -> bool {
    v >= -32768 && v <= 32767
}
/// A dump followed by `extra` unknown bytes.
pub struct Longer {
    bytes: [u8; LEN + 64],
    len: usize,
}
impl Longer {
    pub fn new(b: &[u8; LEN], extra: usize) -> Longer {
        let mut r = Longer { bytes: [0; LEN + 64], len: LEN + extra };
        r.bytes[..LEN].copy_from_slice(b);
        sa_fill(r.bytes[LEN..].as_mut_ptr(), 64, "trailing", 0);
        r
    }
    /// With valid words of the other camera's code.
    pub fn words(b: &[u8; LEN], extra: usize) -> Longer {
        let mut r = Longer::new(b, extra);
        let mut k = 0;
        while k < 32 {
            let x = crate::r_ham::encode(0x2a0 + 37 * k as u16);
            r.bytes[LEN + 2 * k] = (x >> 8) as u8;
            r.bytes[LEN + 2 * k + 1] = x as u8;
            k += 1;
        }
        r
    }
    pub fn get(&self) -> &[u8] {
        &self.bytes[..self.len]
    }
}
fn load(b: &[u8; LEN], extra: usize) -> Result<Mlx90640Calibration, LibraryError> {
    if extra == 0 {
        Mlx90640Calibration::from_data(b)
    } else {
        Mlx90640Calibration::from_data(Longer::new(b, extra).get())
    }
}

/// Everything that is not per pixel.
pub fn r_e0_scalars() {
    scalars(0)
}
fn scalars(extra: usize) {
    // keep the pixels out of the way
    let mut b = [0u8; LEN];
    sa_fill(b.as_mut_ptr(), 128, "mem", EE as usize * 2);
    let mut k = 0x10;
    while k < 0x30 {
        b[2 * k] = 0;
        b[2 * k + 1] = 0;
        k += 1;
    }
    let al = w(0x2420);
    b[0x40] = (al >> 8) as u8;
    let pt = w(0x2410);
    b[0x20] = (pt >> 8) as u8;
    let c = match load(&b, extra) {
        Ok(c) => c,
        Err(_) => {
            sa_check(false, "E01 a full dump is accepted", 0);
            return;
        }
    };
    sa_check(c.k_v_dd() as i32 == hi(0x2433) * 32, "E01 supply voltage slope", 0);
    sa_check(c.v_dd_25() as i32 == ((w(0x2433) & 0xff) as i32 - 256) * 32 - 8192, "E01 supply voltage at 25 degrees", 0);
    let r: u8 = c.resolution().into();
    sa_check(r as u16 == 16 + (w(0x2438) >> 12 & 3), "E01 calibration resolution", 0);
    sa_feq(c.v_dd_0(), 3.3, "E01 nominal supply voltage", 0);
    sa_feq(c.k_v_ptat(), sx(w(0x2432) >> 10, 6) as f32 / 4096.0, "E01 PTAT voltage slope", 0);
    sa_feq(c.k_t_ptat(), sx(w(0x2432), 10) as f32 / 8.0, "E01 PTAT temperature slope", 0);
    sa_feq(c.v_ptat_25(), sx(w(0x2431), 16) as f32, "E01 PTAT voltage at 25 degrees", 0);
    sa_feq(c.alpha_ptat(), (nib(0x2410, 3) / 4) as f32 + 8.0, "E01 PTAT alpha", 0);
    sa_feq(c.gain(), sx(w(0x2430), 16) as f32, "E01 gain", 0);
    sa_feq(c.k_s_ta(), hi(0x243C) as f32 / 8192.0, "E01 ambient sensitivity", 0);
    match c.emissivity() {
        None => {}
        Some(_) => sa_check(false, "E01 no emissivity is stored", 0),
    }
    let t = lo(0x243C);
    match c.temperature_gradient_coefficient() {
        None => sa_check(t == 0, "E01 gradient compensation is absent exactly when its coefficient is zero", 0),
        Some(x) => {
            sa_check(t != 0, "E01 gradient compensation is absent exactly when its coefficient is zero", 1);
            sa_feq(x, t as f32 / 32.0, "E01 gradient coefficient", 0);
        }
    }
    // compensation pixel
    let sc = p2(nib(0x2420, 3) as f32 + 27.0);
    let a0 = (w(0x2439) & 0x3ff) as f32 / sc;
    sa_feq(c.alpha_cp(Subpage::Zero), a0, "E01 compensation pixel sensitivity", 0);
    sa_feq(c.alpha_cp(Subpage::One), a0 * (1.0 + sx(w(0x2439) >> 10, 6) as f32 / 128.0), "E01 compensation pixel sensitivity", 1);
    let o0 = sx(w(0x243A), 10);
    sa_check(c.offset_reference_cp(Subpage::Zero) as i32 == o0, "E01 compensation pixel offset", 0);
    sa_check(c.offset_reference_cp(Subpage::One) as i32 == o0 + sx(w(0x243A) >> 10, 6), "E01 compensation pixel offset", 1);
    let kvs = p2(nib(0x2438, 2) as f32);
    let kts = p2(nib(0x2438, 1) as f32 + 8.0);
    for s in 0..2 {
        sa_feq(c.k_v_cp(SUBS[s]), hi(0x243B) as f32 / kvs, "E01 compensation pixel voltage slope", s);
        sa_feq(c.k_ta_cp(SUBS[s]), lo(0x243B) as f32 / kts, "E01 compensation pixel temperature slope", s);
        sa_check(c.access_pattern_compensation_cp(SUBS[s], AccessPattern::Chess).is_none(), "E01 no pattern compensation in chess mode", s);
        match c.access_pattern_compensation_cp(SUBS[s], AccessPattern::Interleave) {
            None => sa_check(s == 0, "E01 pattern compensation of the second compensation pixel", 0),
            Some(x) => {
                sa_check(s == 1, "E01 pattern compensation of the second compensation pixel", 1);
                sa_feq(x, sx(w(0x2435), 6) as f32 / 16.0, "E01 pattern compensation of the second compensation pixel", 2);
            }
        }
    }
    // temperature ranges
    let step = (w(0x243F) >> 12 & 3) as i32 * 10;
    let ct2 = nib(0x243F, 1) as i32 * step;
    let ct3 = ct2 + nib(0x243F, 2) as i32 * step;
    let ct = c.corner_temperatures();
    sa_check(ct.len() == 4, "E01 four temperature ranges", 0);
    sa_check(ct[0] == -40 && ct[1] == 0, "E01 fixed corner temperatures", 0);
    sa_check(ct[2] as i32 == ct2, "E01 corner temperatures", 2);
    sa_check(ct[3] as i32 == ct3, "E01 corner temperatures", 3);
    let kss = p2(nib(0x243F, 0) as f32 + 8.0);
    let ks = c.k_s_to();
    sa_check(ks.len() == 4, "E01 four temperature ranges", 1);
    let want = [lo(0x243D) as f32 / kss, hi(0x243D) as f32 / kss, lo(0x243E) as f32 / kss, hi(0x243E) as f32 / kss];
    let mut i = 0;
    while i < 4 {
        sa_feq(ks[i], want[i], "E01 object temperature sensitivity slopes", i);
        i += 1;
    }
    let ac = c.alpha_correction();
    sa_check(ac.len() == 4, "E09 one sensitivity correction per range", 0);
    sa_feq(ac[0], 1.0 / (1.0 + want[0] * 40.0), "E09 sensitivity correction below the basic range", 0);
    sa_feq(ac[1], 1.0, "E09 sensitivity correction of the basic range", 0);
    let a2 = 1.0 + want[1] * ct2 as f32;
    sa_feq(ac[2], a2, "E09 sensitivity correction above the basic range", 0);
    sa_feq(ac[3], a2 * (1.0 + want[2] * (ct3 - ct2) as f32), "E09 sensitivity correction above the basic range", 1);
    sa_done();
}

/// A dump in which each pixel's word has a given bit set: bit `(i + k) % 16` for pixel `i`. The
/// sixteen choices of `k` cover every nonzero word of every pixel.
fn dump(k: usize) -> [u8; LEN] {
    let mut b = any_dump();
    let mut i = 0;
    while i < 768 {
        let x = word(k, i);
        b[2 * (0x40 + i)] = (x >> 8) as u8;
        b[2 * (0x40 + i) + 1] = x as u8;
        i += 1;
    }
    b
}
fn word(k: usize, i: usize) -> u16 {
    px(i) | 1 << (i + k) % 16
}
fn offset_k(k: usize, i: usize) -> i32 {
    bulk(0x2410, sx(word(k, i) >> 10, 6), i / 32, i % 32)
}

/// Loading succeeds when every pixel's offset fits, with the documented values.
fn offsets(k: usize, extra: usize) {
    let b = dump(k);
    let mut i = 0;
    while i < 768 {
        sa_assume(fits(offset_k(k, i)));
        i += 1;
    }
    match load(&b, extra) {
        Err(_) => sa_check(false, "E02 a dump whose offsets fit is accepted", 0),
        Ok(c) => {
            for s in 0..2 {
                let mut it = c.offset_reference_pixels(SUBS[s]);
                for i in 0..768 {
                    match it.next() {
                        Some(x) => sa_check(*x as i32 == offset_k(k, i), "E02 offset of each pixel", i),
                        None => sa_check(false, "E02 an offset for each pixel", i),
                    }
                }
                sa_check(it.next().is_none(), "E02 no offsets beyond the last pixel", s);
            }
        }
    }
    sa_done();
}
pub fn r_e0_offset() {
    offsets(0, 0)
}
fn set(b: &mut [u8; LEN], a: u16, x: u16) {
    let i = 2 * (a - EE) as usize;
    b[i] = (x >> 8) as u8;
    b[i + 1] = x as u8;
}
/// With one row or column coefficient and one pixel's own part arbitrary: a dump is accepted
/// exactly when the offsets fit.
fn refuse(row: Option<usize>, col: Option<usize>, i: usize) {
    let mut b = any_dump();
    let mut a = 0x2412;
    while a < 0x2420 {
        set(&mut b, a, 0);
        a += 1;
    }
    let mut j = 0;
    while j < 768 {
        set(&mut b, 0x2440 + j as u16, if j == i { px(j) | 0x20 } else { 0x20 });
        j += 1;
    }
    set(&mut b, 0x243C, 1);
    let (mut rc, mut cc) = (0, 0);
    if let Some(r) = row {
        let a = 0x2412 + r as u16 / 4;
        set(&mut b, a, w(a) & 15 << 4 * (r % 4));
        rc = sx(nib(a, r as u32 % 4), 4) << nib(0x2410, 2);
    }
    if let Some(c) = col {
        let a = 0x2418 + c as u16 / 4;
        set(&mut b, a, w(a) & 15 << 4 * (c % 4));
        cc = sx(nib(a, c as u32 % 4), 4) << nib(0x2410, 1);
    }
    let own = sx(px(i) >> 10, 6) << nib(0x2410, 0);
    let base = sx(w(0x2411), 16);
    let ro = if row == Some(i / 32) { rc } else { 0 };
    let co = if col == Some(i % 32) { cc } else { 0 };
    let fit = (row.is_none() || fits(base + rc)) & (col.is_none() || fits(base + cc)) & fits(base + ro + co + own);
    match Mlx90640Calibration::from_data(&b) {
        Err(_) => sa_check(!fit, "E02 a dump is refused only if an offset does not fit", i),
        Ok(_) => sa_check(fit, "E02 a dump with an offset that does not fit is refused", i),
    }
    sa_done();
}
pub fn r_e0_refuse_own() {
    refuse(None, None, 100)
}
pub fn r_e0_refuse_row() {
    refuse(Some(5), None, 170)
}
pub fn r_e0_refuse_col() {
    refuse(None, Some(9), 767)
}
/// A dump whose offsets are just the pixels' own parts, so they always fit.
fn plain(b: &mut [u8; LEN]) {
    let mut a = 0x2410;
    while a < 0x2420 {
        set(b, a, 0);
        a += 1;
    }
    set(b, 0x243C, 1);
}
/// Sensitivity, temperature and voltage slopes, flags and pattern compensation of every pixel.
fn pixels(k: usize, extra: usize) {
    let mut b = dump(k);
    plain(&mut b);
    // (the average's sign is not specified)
    let avg = w(0x2421) & 0x7fff;
    set(&mut b, 0x2421, avg);
    let c = match load(&b, extra) {
        Ok(c) => c,
        Err(_) => {
            sa_check(false, "E02 a dump whose offsets fit is accepted", 1);
            return;
        }
    };
    let asc = p2(nib(0x2420, 3) as f32 + 30.0);
    let ts1 = p2(nib(0x2438, 1) as f32 + 8.0);
    let vs = p2(nib(0x2438, 2) as f32);
    let rc = [hi(0x2436), lo(0x2436), hi(0x2437), lo(0x2437)];
    for s in 0..2 {
        let mut al = c.alpha_pixels(SUBS[s]);
        let mut kt = c.k_ta_pixels(SUBS[s]);
        let mut kv = c.k_v_pixels(SUBS[s]);
        for i in 0..768 {
            let x = word(k, i);
            let (r, col) = (i / 32, i % 32);
            let q = (r % 2) + 2 * (col % 2);
            let a = avg as i32
                + (sx(nib(0x2422 + r as u16 / 4, r as u32 % 4), 4) << nib(0x2420, 2))
                + (sx(nib(0x2428 + col as u16 / 4, col as u32 % 4), 4) << nib(0x2420, 1))
                + (sx(x >> 4, 6) << nib(0x2420, 0));
            let t = (rc[q] + (sx(x >> 1, 3) << nib(0x2438, 0))) as f32;
            match al.next() {
                Some(v) => sa_feq(*v, a as f32 / asc, "E02 sensitivity of each pixel", i),
                None => sa_check(false, "E02 a sensitivity for each pixel", i),
            }
            match kt.next() {
                Some(v) => sa_feq(*v, t / ts1, "E02 temperature slope of each pixel", i),
                None => sa_check(false, "E02 a temperature slope for each pixel", i),
            }
            match kv.next() {
                Some(v) => sa_feq(*v, sx(nib(0x2434, 3 - q as u32), 4) as f32 / vs, "E02 voltage slope of each pixel", i),
                None => sa_check(false, "E02 a voltage slope for each pixel", i),
            }
        }
        sa_check(al.next().is_none(), "E02 no sensitivities beyond the last pixel", s);
        sa_check(kt.next().is_none(), "E02 no temperature slopes beyond the last pixel", s);
        sa_check(kv.next().is_none(), "E02 no voltage slopes beyond the last pixel", s);
    }
    for i in 0..768 {
        let (f, o) = flags(&c, i);
        sa_check(!f, "E03 pixels with data have not failed", i);
        sa_check(o == (word(k, i) & 1 != 0), "E03 outliers are marked by the lowest bit", i);
    }
    sa_done();
}
fn flags(c: &Mlx90640Calibration, i: usize) -> (bool, bool) {
    (c.failed_pixels()[i], c.outlier_pixels()[i])
}
pub fn r_e0_pixels() {
    pixels(0, 0)
}
/// Pixels whose word is zero have failed, any other value has not.
fn failed(k: usize) {
    let mut b = any_dump();
    plain(&mut b);
    let mut i = 0;
    while i < 768 {
        set(&mut b, 0x2440 + i as u16, (sa_bool("working", i) as u16) << (i + k) % 16);
        i += 1;
    }
    let c = match Mlx90640Calibration::from_data(&b) {
        Ok(c) => c,
        Err(_) => {
            sa_check(false, "E02 a dump whose offsets fit is accepted", 2);
            return;
        }
    };
    for i in 0..768 {
        let (f, o) = flags(&c, i);
        sa_check(f == !sa_bool("working", i), "E03 failed pixels have an all-zero word", i);
        sa_check(o == (sa_bool("working", i) & ((i + k) % 16 == 0)), "E03 outliers are marked by the lowest bit", i);
    }
    sa_done();
}
pub fn r_e0_failed() {
    failed(0)
}
/// Pattern compensation of every pixel.
pub fn r_e0_pattern() {
    pattern(0)
}
fn pattern(extra: usize) {
    let mut b = [0u8; LEN];
    sa_fill(b[0x6a..].as_mut_ptr(), 2, "mem", 2 * 0x2435);
    let c = match load(&b, extra) {
        Ok(c) => c,
        Err(_) => {
            sa_check(false, "E02 a dump whose offsets fit is accepted", 3);
            return;
        }
    };
    let c2 = sx(w(0x2435) >> 6, 5) as f32 / 2.0;
    let c3 = sx(w(0x2435) >> 11, 5) as f32 / 8.0;
    let p = [-c3, c2 - c3, -c3, -(c2 + c3)];
    let mut it = c.access_pattern_compensation_pixels(AccessPattern::Interleave);
    let mut ch = c.access_pattern_compensation_pixels(AccessPattern::Chess);
    for i in 0..768 {
        let v = p[i % 4];
        match it.next() {
            Some(Some(x)) => sa_feq(*x, if i / 32 % 2 == 0 { v } else { -v }, "E02 interleaved pattern compensation of each pixel", i),
            _ => sa_check(false, "E02 an interleaved pattern compensation for each pixel", i),
        }
        match ch.next() {
            Some(None) => {}
            _ => sa_check(false, "E02 no pattern compensation in chess mode", i),
        }
    }
    sa_check(it.next().is_none(), "E02 no pattern compensation beyond the last pixel", 0);
    sa_check(ch.next().is_none(), "E02 no pattern compensation beyond the last pixel", 1);
    sa_done();
}
/// A buffer of any length: refused exactly when it is too short.
pub fn r_e0_length() {
    let b = [0u8; LEN + 8];
    let n = sa_int("length", 0, 0, LEN as i64 + 8) as usize;
    match Mlx90640Calibration::from_data(&b[..n]) {
        Ok(_) => sa_check(n >= LEN, "E08 a short dump is refused", 0),
        Err(LibraryError::Other(_)) => sa_check(n < LEN, "E08 only short dumps are refused", 0),
        Err(_) => sa_check(false, "E08 a short dump is reported as such", 0),
    }
    sa_done();
}

macro_rules! entries {
    ($($n:ident => $e:expr;)*) => { $(pub fn $n() { $e })* };
}
entries! {
    r_e0_offset_1 => offsets(1, 0); r_e0_pixels_1 => pixels(1, 0); r_e0_failed_1 => failed(1);
    r_e0_offset_2 => offsets(2, 0); r_e0_pixels_2 => pixels(2, 0); r_e0_failed_2 => failed(2);
    r_e0_offset_3 => offsets(3, 0); r_e0_pixels_3 => pixels(3, 0); r_e0_failed_3 => failed(3);
    r_e0_offset_4 => offsets(4, 0); r_e0_pixels_4 => pixels(4, 0); r_e0_failed_4 => failed(4);
    r_e0_offset_5 => offsets(5, 0); r_e0_pixels_5 => pixels(5, 0); r_e0_failed_5 => failed(5);
    r_e0_offset_6 => offsets(6, 0); r_e0_pixels_6 => pixels(6, 0); r_e0_failed_6 => failed(6);
    r_e0_offset_7 => offsets(7, 0); r_e0_pixels_7 => pixels(7, 0); r_e0_failed_7 => failed(7);
    r_e0_offset_8 => offsets(8, 0); r_e0_pixels_8 => pixels(8, 0); r_e0_failed_8 => failed(8);
    r_e0_offset_9 => offsets(9, 0); r_e0_pixels_9 => pixels(9, 0); r_e0_failed_9 => failed(9);
    r_e0_offset_10 => offsets(10, 0); r_e0_pixels_10 => pixels(10, 0); r_e0_failed_10 => failed(10);
    r_e0_offset_11 => offsets(11, 0); r_e0_pixels_11 => pixels(11, 0); r_e0_failed_11 => failed(11);
    r_e0_offset_12 => offsets(12, 0); r_e0_pixels_12 => pixels(12, 0); r_e0_failed_12 => failed(12);
    r_e0_offset_13 => offsets(13, 0); r_e0_pixels_13 => pixels(13, 0); r_e0_failed_13 => failed(13);
    r_e0_offset_14 => offsets(14, 0); r_e0_pixels_14 => pixels(14, 0); r_e0_failed_14 => failed(14);
    r_e0_offset_15 => offsets(15, 0); r_e0_pixels_15 => pixels(15, 0); r_e0_failed_15 => failed(15);
    r_e0_longer_a => scalars(7); r_e0_longer_b => offsets(3, 2); r_e0_longer_c => pixels(5, 64); r_e0_longer_d => pattern(1);
    r_e0_refuse_own_1 => refuse(None, None, 0); r_e0_refuse_own_2 => refuse(None, None, 767);
    r_e0_refuse_row_1 => refuse(Some(0), None, 0); r_e0_refuse_row_2 => refuse(Some(23), None, 740);
    r_e0_refuse_col_1 => refuse(None, Some(0), 32); r_e0_refuse_col_2 => refuse(None, Some(31), 31);
}
