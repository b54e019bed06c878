//! Entry points: MLX90641 calibration data.
use crate::r_eep0::{sx, Longer, EE, LEN};
use crate::r_ham::encode;
use crate::sa::*;
use mlx9064x::common::FlaggedPixels;
use mlx9064x::mlx90641::Mlx90641Calibration;
use mlx9064x::*;

const SUBS: [Subpage; 2] = [Subpage::Zero, Subpage::One];
/// The offset average and the words holding it, and other things that are never read.
fn unused(a: u16) -> bool {
    a < 0x2410 || a == 0x2413 || a == 0x2414
}
/// Which of a pixel's data bits is forced: bit `.1` of field `.0` (offset 0, offset 1,
/// sensitivity, slopes).
fn force(k: usize, i: usize) -> (usize, usize) {
    let x = (i + k) % 44;
    (x / 11, x % 11)
}
/// What the data words hold: arbitrary, but every pixel has data, and the offsets are limited.
#[derive(Clone, Copy)]
struct Plan {
    k: usize,
    /// all words arbitrary, or only those before the pixels, or only the pixels and what they need
    head: bool,
    pixels: bool,
    /// the offset scale is below sixteen
    scale: u16,
}
impl Plan {
    /// The eleven data bits at an address.
    fn d(&self, a: u16) -> u16 {
        let x = sa_bits("data", a as usize, 11) as u16;
        if a >= 0x2440 {
            let i = (a - 0x2440) as usize;
            let (fld, bit) = force(self.k, i % 192);
            let f = [0, 2, 3, 1][i / 192];
            let set = if fld == f { 1 << bit } else { 0 };
            if self.pixels {
                x | set
            } else {
                set * (f >= 2) as u16
            }
        } else if a == 0x2410 {
            x & self.scale
        } else if a < 0x2422 || self.head {
            // the low word of a split value has five bits
            match a {
                0x2412 | 0x2425 | 0x2429 | 0x2430 => x & 0x1f,
                _ => x,
            }
        } else {
            0
        }
    }
    fn s(&self, a: u16) -> i32 {
        sx(self.d(a), 11)
    }
    /// A dump of valid words, or if a rotation is given, with one wrong bit in each of them.
    fn dump(&self, flip: Option<usize>) -> [u8; LEN] {
        let mut b = [0u8; LEN];
        let mut k = 0;
        while k < LEN / 2 {
            let a = EE + k as u16;
            let x = if unused(a) { sa_bits("unused", k, 16) as u16 } else { encode(self.d(a)) ^ wrong(flip, k) };
            b[2 * k] = (x >> 8) as u8;
            b[2 * k + 1] = x as u8;
            k += 1;
        }
        b
    }
    fn offset(&self, sp: usize, i: usize) -> i32 {
        let avg = sx(self.d(0x2411) << 5 | self.d(0x2412), 16);
        avg + (self.s(if sp == 0 { 0x2440 } else { 0x2680 } + i as u16) << (self.d(0x2410) >> 5))
    }
}
fn wrong(flip: Option<usize>, k: usize) -> u16 {
    match flip {
        None => 0,
        Some(b) => 1 << (k + b) % 16,
    }
}
fn fits(v: i32) -> bool {
    v >= -32768 && v <= 32767
}
fn p2(e: f32) -> f32 {
    e.exp2()
}
fn u(v: u16) -> f32 {
    v as f32
}
fn f(v: i32) -> f32 {
    v as f32
}

fn load(b: &[u8; LEN], extra: usize) -> Result<Mlx90641Calibration, LibraryError> {
    if extra == 0 {
        Mlx90641Calibration::from_data(b)
    } else {
        Mlx90641Calibration::from_data(Longer::words(b, extra).get())
    }
}

/// Everything that is not per pixel.
fn scalars(flip: Option<usize>, extra: usize) {
    let p = Plan { k: 22, head: true, pixels: false, scale: 0 };
    let b = p.dump(flip);
    let c = match load(&b, extra) {
        Ok(c) => c,
        Err(_) => {
            sa_check(false, "E04 a dump of valid words is accepted", 0);
            return;
        }
    };
    let s = |a| f(p.s(a));
    let d = |a| u(p.d(a));
    sa_feq(c.k_s_ta(), s(0x2422) / 32768.0, "E04 ambient sensitivity", 0);
    match c.emissivity() {
        Some(e) => sa_feq(e, s(0x2423) / 512.0, "E04 stored emissivity", 0),
        None => sa_check(false, "E04 an emissivity is stored", 0),
    }
    let two = |a| p.d(a) << 5 | p.d(a + 1);
    sa_feq(c.gain(), u(two(0x2424)), "E04 gain", 0);
    sa_check(c.v_dd_25() as i32 == p.s(0x2426) * 32, "E04 supply voltage at 25 degrees", 0);
    sa_check(c.k_v_dd() as i32 == p.s(0x2427) * 32, "E04 supply voltage slope", 0);
    sa_feq(c.v_dd_0(), 3.3, "E04 nominal supply voltage", 0);
    sa_feq(c.v_ptat_25(), u(two(0x2428)), "E04 PTAT voltage at 25 degrees", 0);
    sa_feq(c.k_t_ptat(), s(0x242A) / 8.0, "E04 PTAT temperature slope", 0);
    sa_feq(c.k_v_ptat(), s(0x242B) / 4096.0, "E04 PTAT voltage slope", 0);
    sa_feq(c.alpha_ptat(), d(0x242C) / 128.0, "E04 PTAT alpha", 0);
    let r: u8 = c.resolution().into();
    sa_check(r as u16 == 16 + (p.d(0x2433) >> 9), "E04 calibration resolution", 0);
    match c.temperature_gradient_coefficient() {
        Some(x) => sa_feq(x, f(sx(p.d(0x2433), 9)) / 64.0, "E04 gradient coefficient", 0),
        None => sa_check(false, "E04 a gradient coefficient is stored", 0),
    }
    let cp = |a| f(sx(p.d(a), 6)) / p2(u(p.d(a) >> 6));
    for k in 0..2 {
        sa_feq(c.alpha_cp(SUBS[k]), d(0x242D) / p2(d(0x242E)), "E04 compensation pixel sensitivity", k);
        sa_check(c.offset_reference_cp(SUBS[k]) as i32 == sx(two(0x242F), 16), "E04 compensation pixel offset", k);
        sa_feq(c.k_ta_cp(SUBS[k]), cp(0x2431), "E04 compensation pixel temperature slope", k);
        sa_feq(c.k_v_cp(SUBS[k]), cp(0x2432), "E04 compensation pixel voltage slope", k);
        sa_check(
            c.access_pattern_compensation_cp(SUBS[k], AccessPattern::Chess).is_none() && c.access_pattern_compensation_cp(SUBS[k], AccessPattern::Interleave).is_none(),
            "E04 there is no pattern compensation",
            k,
        );
    }
    let mut pc = c.access_pattern_compensation_pixels(AccessPattern::Chess);
    let mut pi = c.access_pattern_compensation_pixels(AccessPattern::Interleave);
    for i in 0..192 {
        let ok = match (pc.next(), pi.next()) {
            (Some(None), Some(None)) => true,
            _ => false,
        };
        sa_check(ok, "E04 there is no pattern compensation", 2 + i);
    }
    sa_check(pc.next().is_none() && pi.next().is_none(), "E04 there is no pattern compensation", 999);
    let sc = p2(d(0x2434));
    let ct = c.corner_temperatures();
    let ks = c.k_s_to();
    let ac = c.alpha_correction();
    sa_check(ct.len() == 8 && ks.len() == 8 && ac.len() == 8, "E04 eight temperature ranges", 0);
    let ka = [0x2435u16, 0x2436, 0x2437, 0x2438, 0x2439, 0x243B, 0x243D, 0x243F];
    let t = [-40, -20, 0, 80, 120, p.d(0x243A) as i32, p.d(0x243C) as i32, p.d(0x243E) as i32];
    let mut w = [0f32; 8];
    let mut i = 0;
    while i < 8 {
        w[i] = s(ka[i]) / sc;
        sa_feq(ks[i], w[i], "E04 object temperature sensitivity slopes", i);
        sa_check(ct[i] as i32 == t[i], "E04 corner temperatures", i);
        i += 1;
    }
    let a1 = 1.0 / (1.0 + w[1] * 20.0);
    sa_feq(ac[0], a1 / (1.0 + w[0] * 20.0), "E09 sensitivity correction below the basic range", 0);
    sa_feq(ac[1], a1, "E09 sensitivity correction below the basic range", 1);
    sa_feq(ac[2], 1.0, "E09 sensitivity correction of the basic range", 0);
    let mut x = 1.0;
    let mut i = 3;
    while i < 8 {
        x *= 1.0 + w[i - 1] * f(t[i] - t[i - 1]);
        sa_feq(ac[i], x, "E09 sensitivity correction above the basic range", i);
        i += 1;
    }
    sa_done();
}
pub fn r_e1_scalars() {
    scalars(None, 0)
}

/// Per pixel data.
fn pixels(k: usize, flip: Option<usize>, extra: usize) {
    let p = Plan { k, head: false, pixels: true, scale: 0x1ff };
    let mut i = 0;
    while i < 192 {
        sa_assume(fits(p.offset(0, i)));
        sa_assume(fits(p.offset(1, i)));
        i += 1;
    }
    let b = p.dump(flip);
    let c = match load(&b, extra) {
        Ok(c) => c,
        Err(_) => {
            sa_check(false, "E05 a dump whose offsets fit is accepted", 0);
            return;
        }
    };
    let d = |a| u(p.d(a));
    let s = |a| f(p.s(a));
    let hi = |a| u(p.d(a) >> 5);
    let lo = |a| u(p.d(a) & 31);
    for sp in 0..2 {
        let mut of = c.offset_reference_pixels(SUBS[sp]);
        let mut al = c.alpha_pixels(SUBS[sp]);
        let mut kt = c.k_ta_pixels(SUBS[sp]);
        let mut kv = c.k_v_pixels(SUBS[sp]);
        for i in 0..192 {
            let n = i as u16;
            match of.next() {
                Some(x) => sa_check(*x as i32 == p.offset(sp, i), "E05 offset of each pixel", i),
                None => sa_check(false, "E05 an offset for each pixel", i),
            }
            let g = i as u16 / 32;
            let sc = 20.0 + if g % 2 == 0 { hi(0x2419 + g / 2) } else { lo(0x2419 + g / 2) };
            match al.next() {
                Some(x) => sa_feq(*x, d(0x2500 + n) / 2047.0 * (d(0x241C + g) / p2(sc)), "E05 sensitivity of each pixel", i),
                None => sa_check(false, "E05 a sensitivity for each pixel", i),
            }
            let w = p.d(0x25C0 + n);
            match kt.next() {
                Some(x) => sa_feq(*x, (f(sx(w >> 5, 6)) * p2(lo(0x2416)) + s(0x2415)) / p2(hi(0x2416)), "E05 temperature slope of each pixel", i),
                None => sa_check(false, "E05 a temperature slope for each pixel", i),
            }
            match kv.next() {
                Some(x) => sa_feq(*x, (f(sx(w, 5)) * p2(lo(0x2418)) + s(0x2417)) / p2(hi(0x2418)), "E05 voltage slope of each pixel", i),
                None => sa_check(false, "E05 a voltage slope for each pixel", i),
            }
        }
        sa_check(of.next().is_none() && al.next().is_none() && kt.next().is_none() && kv.next().is_none(), "E05 no data beyond the last pixel", sp);
    }
    for i in 0..192 {
        sa_check(!c.failed_pixels()[i] && !c.outlier_pixels()[i], "E05 pixels with data have not failed", i);
    }
    sa_done();
}
pub fn r_e1_pixels() {
    pixels(0, None, 0)
}

macro_rules! entries {
    ($($n:ident => $e:expr;)*) => { $(pub fn $n() { $e })* };
}
entries! {
    r_e1_longer_a => scalars(None, 7); r_e1_longer_b => pixels(20, None, 6);
    r_e1_flip_a0 => scalars(Some(0), 0); r_e1_flip_a1 => scalars(Some(1), 0); r_e1_flip_a2 => scalars(Some(2), 0); r_e1_flip_a3 => scalars(Some(3), 0);
    r_e1_flip_a4 => scalars(Some(4), 0); r_e1_flip_a5 => scalars(Some(5), 0); r_e1_flip_a6 => scalars(Some(6), 0); r_e1_flip_a7 => scalars(Some(7), 0);
    r_e1_flip_a8 => scalars(Some(8), 0); r_e1_flip_a9 => scalars(Some(9), 0); r_e1_flip_a10 => scalars(Some(10), 0); r_e1_flip_a11 => scalars(Some(11), 0);
    r_e1_flip_a12 => scalars(Some(12), 0); r_e1_flip_a13 => scalars(Some(13), 0); r_e1_flip_a14 => scalars(Some(14), 0); r_e1_flip_a15 => scalars(Some(15), 0);
    r_e1_flip_b0 => pixels(1, Some(0), 0); r_e1_flip_b1 => pixels(2, Some(1), 0); r_e1_flip_b2 => pixels(3, Some(2), 0); r_e1_flip_b3 => pixels(4, Some(3), 0);
    r_e1_flip_b4 => pixels(5, Some(4), 0); r_e1_flip_b5 => pixels(6, Some(5), 0); r_e1_flip_b6 => pixels(7, Some(6), 0); r_e1_flip_b7 => pixels(8, Some(7), 0);
    r_e1_flip_b8 => pixels(9, Some(8), 0); r_e1_flip_b9 => pixels(10, Some(9), 0); r_e1_flip_b10 => pixels(11, Some(10), 0); r_e1_flip_b11 => pixels(12, Some(11), 0);
    r_e1_flip_b12 => pixels(13, Some(12), 0); r_e1_flip_b13 => pixels(14, Some(13), 0); r_e1_flip_b14 => pixels(15, Some(14), 0); r_e1_flip_b15 => pixels(16, Some(15), 0);
}

/// Pixels of which all data is zero but perhaps one bit.
fn failed(k: usize) {
    let mut b = [0u8; LEN];
    let mut i = 0;
    while i < 192 {
        let (fld, bit) = force(k, i);
        let a = [0x2440, 0x2680, 0x2500, 0x25C0][fld] + i - EE as usize;
        let w = if sa_bool("live", i) { encode(1 << bit) } else { 0 };
        b[2 * a] = (w >> 8) as u8;
        b[2 * a + 1] = w as u8;
        i += 1;
    }
    match Mlx90641Calibration::from_data(&b) {
        Ok(c) => {
            let mut i = 0;
            while i < 192 {
                let dead = !sa_bool("live", i);
                sa_check(c.failed_pixels()[i] == dead, "E05 a pixel has failed iff all its data is zero", i);
                sa_check(c.outlier_pixels()[i] == dead, "E05 outliers are the failed pixels", i);
                i += 1;
            }
            sa_check(c.failed_pixels().len() == 192 && c.outlier_pixels().len() == 192, "E05 a flag for every pixel", 0);
        }
        Err(_) => sa_check(false, "E05 failed pixels do not prevent loading", 0),
    }
    sa_done();
}
entries! {
    r_e1_failed_0 => failed(0); r_e1_failed_1 => failed(1); r_e1_failed_2 => failed(2); r_e1_failed_3 => failed(3);
    r_e1_failed_4 => failed(4); r_e1_failed_5 => failed(5); r_e1_failed_6 => failed(6); r_e1_failed_7 => failed(7);
    r_e1_failed_8 => failed(8); r_e1_failed_9 => failed(9); r_e1_failed_10 => failed(10); r_e1_failed_11 => failed(11);
    r_e1_failed_12 => failed(12); r_e1_failed_13 => failed(13); r_e1_failed_14 => failed(14); r_e1_failed_15 => failed(15);
    r_e1_failed_16 => failed(16); r_e1_failed_17 => failed(17); r_e1_failed_18 => failed(18); r_e1_failed_19 => failed(19);
    r_e1_failed_20 => failed(20); r_e1_failed_21 => failed(21); r_e1_failed_22 => failed(22); r_e1_failed_23 => failed(23);
    r_e1_failed_24 => failed(24); r_e1_failed_25 => failed(25); r_e1_failed_26 => failed(26); r_e1_failed_27 => failed(27);
    r_e1_failed_28 => failed(28); r_e1_failed_29 => failed(29); r_e1_failed_30 => failed(30); r_e1_failed_31 => failed(31);
    r_e1_failed_32 => failed(32); r_e1_failed_33 => failed(33); r_e1_failed_34 => failed(34); r_e1_failed_35 => failed(35);
    r_e1_failed_36 => failed(36); r_e1_failed_37 => failed(37); r_e1_failed_38 => failed(38); r_e1_failed_39 => failed(39);
    r_e1_failed_40 => failed(40); r_e1_failed_41 => failed(41); r_e1_failed_42 => failed(42); r_e1_failed_43 => failed(43);
}

/// Is a dump refused iff one of a pixel's offsets does not fit?
fn refuse(i: usize, sp: usize) {
    let mut b = [0u8; LEN];
    let mut put = |a: u16, d: u16| {
        let w = encode(d);
        let k = (a - EE) as usize;
        b[2 * k] = (w >> 8) as u8;
        b[2 * k + 1] = w as u8;
    };
    let hi = sa_bits("average high", 0, 11) as u16;
    let lo = sa_bits("average low", 0, 5) as u16;
    let sc = sa_bits("scale", 0, 11) as u16;
    // three cases: less than sixteen, and two of sixteen or more
    if !sa_split(sc & 0x200 != 0) {
        sa_split(sc & 0x400 != 0);
    }
    let x = sa_bits("offset", 0, 11) as u16;
    put(0x2410, sc);
    put(0x2411, hi);
    put(0x2412, lo);
    put(if sp == 0 { 0x2440 } else { 0x2680 } + i as u16, x);
    // the pixel is not a failed one
    put(0x2500 + i as u16, 1);
    let avg = sx(hi << 5 | lo, 16);
    // shifting by more makes no difference to what fits
    let n = (sc >> 5).min(16);
    let v = avg.wrapping_add(sx(x, 11) << n);
    match Mlx90641Calibration::from_data(&b) {
        Ok(c) => {
            sa_check(fits(v), "E05 a dump is accepted only if the offsets fit", sp);
            match c.offset_reference_pixels(SUBS[sp]).nth(i) {
                // so large a shift leaves only zero
                Some(o) => sa_check(*o as i32 == if n == 16 { avg } else { v }, "E05 offset of the pixel", sp),
                None => sa_check(false, "E05 an offset for each pixel", sp),
            }
        }
        Err(LibraryError::InvalidData(_)) => sa_check(!fits(v), "E05 a dump is refused only if an offset does not fit", sp),
        Err(_) => sa_check(false, "E05 offsets that do not fit are reported as invalid data", sp),
    }
    sa_done();
}
entries! {
    r_e1_refuse_0 => refuse(0, 0); r_e1_refuse_1 => refuse(0, 1); r_e1_refuse_2 => refuse(191, 0); r_e1_refuse_3 => refuse(100, 1);
}

/// Buffers of any length.
pub fn r_e1_length() {
    let b = [0u8; LEN + 9];
    let n = sa_int("length", 0, 0, LEN as i64 - 1) as usize;
    let r = Mlx90641Calibration::from_data(&b[..n]);
    sa_check(matches!(r, Err(LibraryError::Other(_))), "E08 a short dump is refused", 0);
    let mut n = LEN;
    while n < LEN + 10 {
        let r = Mlx90641Calibration::from_data(&b[..n]);
        sa_check(r.is_ok(), "E08 only short dumps are refused", n);
        n += 3;
    }
    sa_done();
}

/// Two wrong bits in one word of an otherwise intact dump.
fn doubles(first: usize, step: usize) {
    let mut b = [0u8; LEN];
    let mut k = first;
    while k < LEN / 2 {
        if !unused(EE + k as u16) {
            let one = k % 16;
            let two = (one + 1 + k / 16 % 15) % 16;
            let w = encode(sa_bits("data", k, 11) as u16) ^ 1 << one ^ 1 << two;
            b[2 * k] = (w >> 8) as u8;
            b[2 * k + 1] = w as u8;
            let r = match Mlx90641Calibration::from_data(&b) {
                Err(LibraryError::Checksum(x)) => x == w,
                _ => false,
            };
            sa_check(r, "E06 a word with two wrong bits is reported", k);
            b[2 * k] = 0;
            b[2 * k + 1] = 0;
        }
        k += step;
    }
    sa_done();
}
entries! {
    r_e1_doubles_q0 => doubles(16, 64);
    r_e1_doubles_0 => doubles(0, 8); r_e1_doubles_1 => doubles(1, 8); r_e1_doubles_2 => doubles(2, 8); r_e1_doubles_3 => doubles(3, 8);
    r_e1_doubles_4 => doubles(4, 8); r_e1_doubles_5 => doubles(5, 8); r_e1_doubles_6 => doubles(6, 8); r_e1_doubles_7 => doubles(7, 8);
}
