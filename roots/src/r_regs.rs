//! Entry points: register contents, their fields, and the types they decode to.
use crate::bus::*;
use crate::sa::*;
use core::convert::TryFrom;
use core::time::Duration;
use mlx9064x::common::{FromI2C, ToI2C};
use mlx9064x::register::*;
use mlx9064x::LibraryError;

fn word(name: &str) -> u16 {
    sa_bits(name, 0, 16) as u16
}
fn enc<R: Into<[u8; 2]>>(r: R) -> u16 {
    let b: [u8; 2] = r.into();
    (b[0] as u16) << 8 | b[1] as u16
}
fn dec<R: for<'a> From<&'a [u8]>>(w: u16) -> R {
    // longer buffers are allowed; only the first word counts
    let b = [(w >> 8) as u8, w as u8, sa_bits("trailing", 0, 8) as u8];
    if sa_split(sa_bool("longer buffer", 0)) {
        R::from(&b[..])
    } else {
        R::from(&b[..2])
    }
}
/// The field at `mask`.
fn f(w: u16, mask: u16) -> u16 {
    (w & mask) >> mask.trailing_zeros()
}
fn put(w: u16, mask: u16, v: u16) -> u16 {
    w & !mask | v << mask.trailing_zeros()
}
fn rate_no(r: FrameRate) -> u16 {
    match r {
        FrameRate::Half => 0,
        FrameRate::One => 1,
        FrameRate::Two => 2,
        FrameRate::Four => 3,
        FrameRate::Eight => 4,
        FrameRate::Sixteen => 5,
        FrameRate::ThirtyTwo => 6,
        FrameRate::SixtyFour => 7,
    }
}
fn res_no(r: Resolution) -> u16 {
    match r {
        Resolution::Sixteen => 0,
        Resolution::Seventeen => 1,
        Resolution::Eighteen => 2,
        Resolution::Nineteen => 3,
    }
}
fn sub_no(s: Subpage) -> u16 {
    match s {
        Subpage::Zero => 0,
        Subpage::One => 1,
    }
}
fn pat_no(p: AccessPattern) -> u16 {
    match p {
        AccessPattern::Interleave => 0,
        AccessPattern::Chess => 1,
    }
}
const RATES: [FrameRate; 8] = [
    FrameRate::Half,
    FrameRate::One,
    FrameRate::Two,
    FrameRate::Four,
    FrameRate::Eight,
    FrameRate::Sixteen,
    FrameRate::ThirtyTwo,
    FrameRate::SixtyFour,
];
const RESS: [Resolution; 4] = [Resolution::Sixteen, Resolution::Seventeen, Resolution::Eighteen, Resolution::Nineteen];
const SUBS: [Subpage; 2] = [Subpage::Zero, Subpage::One];
const PATS: [AccessPattern; 2] = [AccessPattern::Interleave, AccessPattern::Chess];

pub fn r_reg_status() {
    let w = word("status");
    let r: StatusRegister = dec(w);
    sa_check(enc(r) == w, "R01 decoding then encoding a register gives back the same word", 0);
    sa_check(sub_no(r.last_updated_subpage()) == f(w, 1), "R01 a field accessor reads its own bits", 0);
    sa_check(r.new_data() as u16 == f(w, 8), "R01 a field accessor reads its own bits", 1);
    sa_check(r.overwrite_enabled() as u16 == f(w, 0x10), "R01 a field accessor reads its own bits", 2);
    sa_check(r.start_measurement() as u16 == f(w, 0x20), "R01 a field accessor reads its own bits", 3);
    let mut a = r;
    a.reset_new_data();
    sa_check(enc(a) == put(w, 8, 0), "R01 a field setter changes its own bits only", 0);
    let mut a = r;
    let b = sa_bool("value", 0);
    a.set_overwrite_enabled(b);
    sa_check(enc(a) == put(w, 0x10, b as u16), "R01 a field setter changes its own bits only", 1);
    let mut a = r;
    a.set_start_measurement();
    sa_check(enc(a) == put(w, 0x20, 1), "R01 a field setter changes its own bits only", 2);
    sa_done();
}

pub fn r_reg_control() {
    let w = word("control");
    let r: ControlRegister = dec(w);
    sa_check(enc(r) == w, "R01 decoding then encoding a register gives back the same word", 0);
    sa_check(r.use_subpages() as u16 == f(w, 1), "R01 a field accessor reads its own bits", 0);
    sa_check(r.step_mode() as u16 == f(w, 2), "R01 a field accessor reads its own bits", 1);
    sa_check(r.data_hold() as u16 == f(w, 4), "R01 a field accessor reads its own bits", 2);
    sa_check(r.subpage_repeat() as u16 == f(w, 8), "R01 a field accessor reads its own bits", 3);
    sa_check(sub_no(r.subpage()) == f(w, 0x10), "R01 a field accessor reads its own bits", 4);
    sa_check(rate_no(r.frame_rate()) == f(w, 0x380), "R01 a field accessor reads its own bits", 5);
    sa_check(res_no(r.resolution()) == f(w, 0xC00), "R01 a field accessor reads its own bits", 6);
    sa_check(pat_no(r.access_pattern()) == f(w, 0x1000), "R01 a field accessor reads its own bits", 7);
    let b = sa_bool("value", 0);
    let mut a = r;
    a.set_use_subpages(b);
    sa_check(enc(a) == put(w, 1, b as u16), "R01 a field setter changes its own bits only", 0);
    let mut a = r;
    a.set_step_mode(b);
    sa_check(enc(a) == put(w, 2, b as u16), "R01 a field setter changes its own bits only", 1);
    let mut a = r;
    a.set_data_hold(b);
    sa_check(enc(a) == put(w, 4, b as u16), "R01 a field setter changes its own bits only", 2);
    let mut a = r;
    a.set_subpage_repeat(b);
    sa_check(enc(a) == put(w, 8, b as u16), "R01 a field setter changes its own bits only", 3);
    for s in SUBS {
        let mut a = r;
        a.set_subpage(s);
        sa_check(enc(a) == put(w, 0x10, sub_no(s)), "R01 a field setter changes its own bits only", 4);
    }
    for s in RATES {
        let mut a = r;
        a.set_frame_rate(s);
        sa_check(enc(a) == put(w, 0x380, rate_no(s)), "R01 a field setter changes its own bits only", 5);
    }
    for s in RESS {
        let mut a = r;
        a.set_resolution(s);
        sa_check(enc(a) == put(w, 0xC00, res_no(s)), "R01 a field setter changes its own bits only", 6);
    }
    for s in PATS {
        let mut a = r;
        a.set_access_pattern(s);
        sa_check(enc(a) == put(w, 0x1000, pat_no(s)), "R01 a field setter changes its own bits only", 7);
    }
    sa_done();
}

pub fn r_reg_i2c() {
    let w = word("i2c");
    let r: I2cRegister = dec(w);
    sa_check(enc(r) == w, "R01 decoding then encoding a register gives back the same word", 0);
    sa_check(r.fast_mode_plus() == (f(w, 1) == 0), "R01 a field accessor reads its own bits", 0);
    sa_check(r.i2c_threshold_halved() == (f(w, 2) == 1), "R01 a field accessor reads its own bits", 1);
    sa_check(r.sda_current_limiter() == (f(w, 4) == 0), "R01 a field accessor reads its own bits", 2);
    let b = sa_bool("value", 0);
    let mut a = r;
    a.set_fast_mode_plus(b);
    sa_check(enc(a) == put(w, 1, !b as u16), "R01 a field setter changes its own bits only", 0);
    let mut a = r;
    a.set_i2c_threshold_halved(b);
    sa_check(enc(a) == put(w, 2, b as u16), "R01 a field setter changes its own bits only", 1);
    let mut a = r;
    a.set_sda_current_limiter(b);
    sa_check(enc(a) == put(w, 4, !b as u16), "R01 a field setter changes its own bits only", 2);
    sa_done();
}

/// Registers are equal exactly when their documented fields are.
fn reg_eq<R: for<'a> From<&'a [u8]> + PartialEq>(mask: u16, n: usize) {
    let d = |w: u16| R::from(&[(w >> 8) as u8, w as u8][..]);
    let (a, b) = (word("a"), word("b"));
    let same = (a & mask) | (b & !mask);
    sa_check(d(a) == d(same) && !(d(a) != d(same)), "R03 registers that agree in all documented fields are equal", n);
    for k in 0..16 {
        if mask & 1 << k != 0 {
            let other = (b & !(1 << k)) | (!a & 1 << k);
            sa_check(d(a) != d(other) && !(d(a) == d(other)), "R03 registers that differ in a documented field are unequal", n + k);
        }
    }
    sa_done();
}
pub fn r_reg_eq_status() {
    reg_eq::<StatusRegister>(0x39, 0)
}
pub fn r_reg_eq_control() {
    reg_eq::<ControlRegister>(0x1F9F, 100)
}
pub fn r_reg_eq_i2c() {
    reg_eq::<I2cRegister>(7, 200)
}

/// Values after reset, as documented.
pub fn r_reg_default() {
    let a = ControlRegister::default_mlx90640();
    let b = ControlRegister::default_mlx90641();
    sa_check(enc(a) == 0x1901, "R04 documented reset values", 0);
    sa_check(enc(b) == 0x0901, "R04 documented reset values", 1);
    let c = [a, b];
    for (i, r) in c.iter().enumerate() {
        sa_check(r.use_subpages() && !r.step_mode() && !r.data_hold() && !r.subpage_repeat(), "R04 documented defaults of each field", i);
        sa_check(r.subpage() == Subpage::Zero && r.frame_rate() == FrameRate::Two && r.resolution() == Resolution::Eighteen, "R04 documented defaults of each field", i);
    }
    sa_check(a.access_pattern() == AccessPattern::Chess, "R04 documented defaults of each field", 2);
    sa_check(b.access_pattern() == AccessPattern::Interleave, "R04 documented defaults of each field", 3);
    let d = I2cRegister::default();
    sa_check(d.fast_mode_plus() && !d.i2c_threshold_halved() && d.sda_current_limiter(), "R04 documented defaults of each field", 4);
    sa_check(enc(d) == 0, "R04 documented reset values", 2);
    sa_check(FrameRate::default() == FrameRate::Two, "R04 documented defaults of each field", 5);
    sa_check(Resolution::default() == Resolution::Eighteen, "R04 documented defaults of each field", 6);
    sa_done();
}

fn invalid<T>(r: Result<T, LibraryError>) -> bool {
    match r {
        Err(LibraryError::InvalidData(_)) => true,
        _ => false,
    }
}

/// Conversions between settings and numbers, for every number.
pub fn r_enum_u8() {
    // the valid numbers are checked one by one in r_enum_back; these are all the others
    let mut v = 0u8;
    for k in 0..8 {
        if sa_split(sa_bool("number", k)) {
            v |= 1 << k;
        }
    }
    if !matches!(v, 1 | 2 | 4 | 8 | 16 | 32 | 64) {
        sa_check(invalid(FrameRate::try_from(v)), "R02 other numbers are rejected as invalid data", 0);
    }
    if !matches!(v, 16..=19) {
        sa_check(invalid(Resolution::try_from(v)), "R02 other numbers are rejected as invalid data", 1);
    }
    if v > 1 {
        sa_check(AccessPattern::try_from(v).is_err(), "R02 other numbers are no access pattern", 0);
    }
    let v = sa_int("number", 3, 2, i64::MAX) as usize;
    sa_check(Subpage::try_from(v).is_err(), "R02 other numbers are no subpage", 0);
    sa_done();
}
pub fn r_enum_f32() {
    // the eight valid rates are checked one by one in r_enum_back; this is every other number
    let v = sa_f32("number", 0);
    let hz = [0.5f32, 1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0];
    for h in hz {
        sa_assume(v != h);
    }
    sa_check(invalid(FrameRate::try_from(v)), "R02 other numbers are rejected as invalid data", 2);
    sa_done();
}
pub fn r_enum_back() {
    let hz = [0.5f32, 1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0];
    let nanos = [2_000_000_000u64, 1_000_000_000, 500_000_000, 250_000_000, 125_000_000, 62_500_000, 31_250_000, 15_625_000];
    let mut i = 0;
    while i < 8 {
        let r = RATES[i];
        sa_feq(f32::from(r), hz[i], "R02 a frame rate as a number", i);
        sa_check(FrameRate::try_from(hz[i]) == Ok(r), "R02 a frame rate survives conversion to a number and back", i);
        if i > 0 {
            sa_check(FrameRate::try_from(1u8 << (i - 1)) == Ok(r), "R02 a frame rate from an integer is that many frames per second", i);
        }
        let d: Duration = r.into();
        sa_check(d.as_secs() == nanos[i] / 1_000_000_000 && d.subsec_nanos() as u64 == nanos[i] % 1_000_000_000, "R02 a frame rate as a duration", i);
        i += 1;
    }
    let mut i = 0;
    while i < 4 {
        let n: u8 = RESS[i].into();
        sa_check(n as usize == 16 + i, "R02 a resolution as a number", i);
        sa_check(Resolution::try_from(n) == Ok(RESS[i]), "R02 a resolution survives conversion to a number and back", i);
        i += 1;
    }
    let mut i = 0;
    while i < 2 {
        let n: u8 = PATS[i].into();
        sa_check(n as usize == i, "R02 an access pattern as a number", i);
        sa_check(AccessPattern::try_from(n).ok() == Some(PATS[i]), "R02 an access pattern survives conversion to a number and back", i);
        let n: usize = SUBS[i].into();
        sa_check(n == i, "R02 a subpage as a number", i);
        sa_check(Subpage::try_from(n).ok() == Some(SUBS[i]), "R02 a subpage survives conversion to a number and back", i);
        i += 1;
    }
    sa_done();
}

fn access<R>(reg: u16)
where
    R: FromI2C<Bus, Ok = R, Error = mlx9064x::Error<Bus>> + ToI2C<Bus, Error = mlx9064x::Error<Bus>> + Into<[u8; 2]> + Copy + for<'a> From<&'a [u8]>,
{
    let mut log_ = Log::new();
    let log = &mut log_ as *mut Log;
    let mut bus = Bus { log };
    let dev = sa_bits("device", 0, 8) as u8;
    unsafe { (*log).fallible = true };
    let r = R::from_i2c(&mut bus, dev);
    let l = unsafe { &*log };
    let o = &l.ops[0];
    sa_check(l.n == 1 && !o.write && o.dev == dev && o.wlen == 2 && o.reg() == reg && o.rlen == 2, "R05 loading a register is one two-byte read at its address", 0);
    match r {
        Ok(v) => {
            sa_check(!o.failed, "R05 a failed load is an error", 0);
            sa_check(enc(v) == reg16(0), "R05 a loaded register is the word read", 0);
        }
        Err(mlx9064x::Error::I2cWriteReadError(BusErr(k))) => sa_check(o.failed && k == 0, "R05 a load reports the bus error", 0),
        Err(_) => sa_check(false, "R05 a load reports the bus error", 1),
    }
    let w = word("stored");
    let v: R = dec(w);
    let r = v.to_i2c(&mut bus, dev);
    let l = unsafe { &*log };
    let o = &l.ops[1];
    sa_check(l.n == 2 && o.write && o.dev == dev && o.wlen == 4 && o.reg() == reg && o.data() == w, "R05 storing a register is one write of its word at its address", 0);
    match r {
        Ok(()) => sa_check(!o.failed, "R05 a failed store is an error", 0),
        Err(mlx9064x::Error::I2cWriteError(BusErr(k))) => sa_check(o.failed && k == 1, "R05 a store reports the bus error", 0),
        Err(_) => sa_check(false, "R05 a store reports the bus error", 1),
    }
    sa_done();
}
pub fn r_bus_status() {
    access::<StatusRegister>(0x8000)
}
pub fn r_bus_control() {
    access::<ControlRegister>(0x800D)
}
pub fn r_bus_i2c() {
    access::<I2cRegister>(0x800F)
}
