//! Entry points: register access through the driver, cached settings, synchronisation,
//! construction.
use crate::bus::*;
use crate::r_image::*;
use crate::r_past::*;
use crate::sa::*;
use crate::spec::*;
use crate::stub::*;
use mlx9064x::mlx90641::Mlx90641;
use mlx9064x::*;

type D41 = Drv<Mlx90641, 192, 12, 384>;

pub fn fr(raw: u16) -> FrameRate {
    match raw {
        0 => FrameRate::Half,
        1 => FrameRate::One,
        2 => FrameRate::Two,
        3 => FrameRate::Four,
        4 => FrameRate::Eight,
        5 => FrameRate::Sixteen,
        6 => FrameRate::ThirtyTwo,
        _ => FrameRate::SixtyFour,
    }
}
pub fn res(raw: u16) -> Resolution {
    match raw {
        0 => Resolution::Sixteen,
        1 => Resolution::Seventeen,
        2 => Resolution::Eighteen,
        _ => Resolution::Nineteen,
    }
}
pub fn sub(raw: u16) -> Subpage {
    if raw == 0 {
        Subpage::Zero
    } else {
        Subpage::One
    }
}
pub fn pat(raw: u16) -> AccessPattern {
    if raw == 0 {
        AccessPattern::Interleave
    } else {
        AccessPattern::Chess
    }
}
pub fn flag(raw: u16) -> bool {
    raw != 0
}

/// A driver whose past is unknown: its cached settings come from an arbitrary control word, and an
/// arbitrary earlier operation had an arbitrary outcome.
fn some_driver(log: *mut Log, dev: u8) -> D41 {
    let mut d = mk::<Mlx90641, 192, 12, 384>(log, dev, false, true);
    past(&mut d, log, any_past());
    unsafe { (*log).fallible = true };
    d
}

fn getter<T: PartialEq>(reg: u16, call: fn(&mut D41) -> Result<T, Error<Bus>>, want: fn(u16) -> T) {
    let mut log_ = Log::new();
    let log = &mut log_ as *mut Log;
    let dev = any_dev();
    let mut d = some_driver(log, dev);
    let r = call(&mut d);
    let log = unsafe { &*log };
    chk_dev(log, dev);
    chk_err(log, 1, &r);
    sa_check(log.n == 2, "B05 a getter performs exactly one transfer", 0);
    sa_check(!log.ops[1].write && log.ops[1].reg() == reg && log.ops[1].rlen == 2, "B05 a getter reads its register", 0);
    match r {
        Ok(v) => sa_check(v == want(reg16(1)), "B05 a getter decodes the register it read", 0),
        _ => {}
    }
    sa_done();
}
macro_rules! getters {
    ($($name:ident, $reg:expr, $call:expr, $want:expr;)*) => { $(
        pub fn $name() {
            getter($reg, $call, $want)
        }
    )* }
}
getters! {
    r_get_last_measured, STATUS, |d| d.last_measured_subpage(), |v| sub(v & 1);
    r_get_available, STATUS, |d| d.data_available(), |v| if v & 8 != 0 { Some(sub(v & 1)) } else { None };
    r_get_overwrite, STATUS, |d| d.overwrite_enabled(), |v| flag(v & 0x10);
    r_get_subpages, CONTROL, |d| d.subpages_enabled(), |v| flag(v & 1);
    r_get_hold, CONTROL, |d| d.data_hold_enabled(), |v| flag(v & 4);
    r_get_repeat, CONTROL, |d| d.subpage_repeat(), |v| flag(v & 8);
    r_get_selected, CONTROL, |d| d.selected_subpage(), |v| sub(v & 0x10);
    r_get_rate, CONTROL, |d| d.frame_rate(), |v| fr(v >> 7 & 7);
    r_get_resolution, CONTROL, |d| d.resolution(), |v| res(v >> 10 & 3);
    r_get_pattern, CONTROL, |d| d.access_pattern(), |v| pat(v >> 12 & 1);
}

/// A setter reads the register once, writes it at most once, changes only its own field, and
/// writes exactly when the field differs.
fn setter(reg: u16, mask: u16, n: u64, call: fn(&mut D41, u16) -> Result<(), Error<Bus>>) {
    let mut log_ = Log::new();
    let log = &mut log_ as *mut Log;
    let dev = any_dev();
    let mut d = some_driver(log, dev);
    // every value of the field
    let mut v = 0u16;
    let mut k = 0;
    while k < n {
        if sa_split(sa_bool("value", k as usize)) {
            v |= 1 << k;
        }
        k += 1;
    }
    let r = call(&mut d, v);
    let log = unsafe { &*log };
    chk_dev(log, dev);
    let ok = chk_err(log, 1, &r);
    let want = v << mask.trailing_zeros();
    sa_check(log.n == 2 || log.n == 3, "B04 a setter performs one read and at most one write", 0);
    sa_check(!log.ops[1].write && log.ops[1].reg() == reg && log.ops[1].rlen == 2, "B04 a setter first reads its register", 0);
    if !log.ops[1].failed {
        let old = reg16(1);
        sa_check((log.n == 3) == (old & mask != want), "B04 a setter writes exactly when the value changes", 0);
        if log.n == 3 {
            sa_check(log.ops[2].write && log.ops[2].reg() == reg, "B04 a setter writes its own register", 0);
            sa_check(log.ops[2].data() & mask == want, "B04 a setter stores the requested value", 0);
            sa_check(log.ops[2].data() & !mask == old & !mask, "B04 a setter keeps every other bit", 0);
        }
        sa_cover(log.n == 3, "B04 the register can be written", 0);
        sa_cover(log.n == 2, "B04 the register can be left alone", 0);
    }
    let _ = ok;
    sa_done();
}
macro_rules! setters {
    ($($name:ident, $reg:expr, $mask:expr, $n:expr, $call:expr;)*) => { $(
        pub fn $name() {
            setter($reg, $mask, $n, $call)
        }
    )* }
}
setters! {
    r_set_overwrite, STATUS, 0x10, 1, |d, v| d.set_overwrite_enabled(flag(v));
    r_set_subpages, CONTROL, 1, 1, |d, v| d.set_use_subpages(flag(v));
    r_set_hold, CONTROL, 4, 1, |d, v| d.set_data_hold(flag(v));
    r_set_repeat, CONTROL, 8, 1, |d, v| d.set_subpage_repeat(flag(v));
    r_set_selected, CONTROL, 0x10, 1, |d, v| d.set_subpage(sub(v));
    r_set_rate, CONTROL, 0x380, 3, |d, v| d.set_frame_rate(fr(v));
    r_set_resolution, CONTROL, 0xC00, 2, |d, v| d.set_resolution(res(v));
    r_set_pattern, CONTROL, 0x1000, 1, |d, v| d.set_access_pattern(pat(v));
}

/// Clearing the new-data flag by hand.
pub fn r_reset_available() {
    let mut log_ = Log::new();
    let log = &mut log_ as *mut Log;
    let dev = any_dev();
    let mut d = some_driver(log, dev);
    let r = d.reset_data_available();
    let log = unsafe { &*log };
    chk_dev(log, dev);
    chk_err(log, 1, &r);
    sa_check(log.n <= 3 && !log.ops[1].write && log.ops[1].reg() == STATUS, "B04 the status register is read first", 0);
    if !log.ops[1].failed {
        sa_check(log.n == 3 || reg16(1) & 8 == 0, "B04 the flag is cleared with one write", 0);
        if log.n == 3 {
            let o = &log.ops[2];
            sa_check(o.write && o.reg() == STATUS && o.data() == reg16(1) & !8, "B04 exactly the new data flag is cleared", 0);
        }
    }
    sa_done();
}

/// The next image is that of a camera with the control word `known`.
pub fn image_with<C: Cam, const N: usize, const H: usize, const NB: usize>(d: &mut Drv<C, N, H, NB>, gen: usize, known: u16, em: f32, uses: &'static str, covers: &'static str) {
    let cal = Stub::<C, N>::new(false, false);
    let sp = sa_split(sa_bool("subpage", 0)) as usize;
    let mut dest = [0f32; N];
    sa_fillf(dest.as_mut_ptr(), N, "old", 0);
    let r = d.generate_raw_image_subpage_to(sub(sp as u16), &mut dest);
    sa_check(r.is_ok(), "B02 no error without a fault", 0);
    let s = Set { em, tr: None, chess: sa_split(known & 0x1000 != 0), sp };
    let f = frame(&cal, rescorr(cal.res, known), &ram_of::<C>(gen, sp));
    let p = pre::<C, N>(&cal, &s, f, 0);
    let mut i = 0;
    while i < N {
        if C::member(s.chess, sp, i) {
            let x = pixel::<C, N>(&cal, &s, &p, i, mem16(gen, C::pixel(sp, i)) as i16);
            sa_feq(dest[i], x.ir, uses, i);
        } else {
            sa_feq(dest[i], sa_f32("old", i), covers, i);
        }
        i += 1;
    }
}

/// The first image of a driver, for every control word.
fn first<C: Cam, const N: usize, const H: usize, const NB: usize>() {
    let mut log_ = Log::new();
    let log = &mut log_ as *mut Log;
    let dev = any_dev();
    let mut d = mk::<C, N, H, NB>(log, dev, false, false);
    sa_check(d.height() == C::H && d.width() == N / C::H, "B08 dimensions", 0);
    image_with(
        &mut d,
        0,
        reg16(0),
        1.0,
        "B08 the first image uses the access pattern and resolution of the control word",
        "B08 the first image covers the pixels of the access pattern in the control word",
    );
    let log = unsafe { &*log };
    let mut k = 1;
    while k < log.n {
        sa_check(!log.ops[k].write && log.ops[k].reg() < 0x8000, "B08 the control register is read once", k);
        k += 1;
    }
    sa_done();
}
pub fn r_first_640() {
    first::<mlx9064x::mlx90640::Mlx90640, 768, 24, 1536>()
}
pub fn r_first_641() {
    first::<Mlx90641, 192, 12, 384>()
}

/// One step of the cached-settings invariant: from any cached state, after any single control
/// register call with any outcome, the next image uses the settings of the control word that was
/// last successfully read or written.
fn coherent<C: Cam, const N: usize, const H: usize, const NB: usize>(which: usize, before: u64) {
    let mut log_ = Log::new();
    let log = &mut log_ as *mut Log;
    let dev = any_dev();
    unsafe { (*log).part = Some(sa_part()) };
    let mut d = mk::<C, N, H, NB>(log, dev, false, false);
    past(&mut d, log, before);
    if before != NO_PAST {
        d.use_default_emissivity();
    }
    let (n0, gen, mut known) = unsafe { ((*log).n, (*log).gen, (*log).known) };
    unsafe { (*log).fallible = true };
    let b = sa_split(sa_bool("value", 0));
    let c = (which == 3 || which == 2) && sa_split(sa_bool("value", 1));
    let e = which == 2 && sa_split(sa_bool("value", 2));
    let v = b as u16 | (c as u16) << 1 | (e as u16) << 2;
    let _ = match which {
        0 => d.set_access_pattern(pat(v)).is_ok(),
        1 => d.set_use_subpages(b).is_ok(),
        2 => d.set_frame_rate(fr(v)).is_ok(),
        3 => d.set_resolution(res(v)).is_ok(),
        4 => d.set_data_hold(b).is_ok(),
        5 => d.set_subpage(sub(v)).is_ok(),
        6 => d.set_subpage_repeat(b).is_ok(),
        7 => d.access_pattern().is_ok(),
        8 => d.resolution().is_ok(),
        9 => d.frame_rate().is_ok(),
        10 => d.subpages_enabled().is_ok(),
        11 => d.data_hold_enabled().is_ok(),
        12 => d.subpage_repeat().is_ok(),
        13 => d.selected_subpage().is_ok(),
        14 => d.set_overwrite_enabled(b).is_ok(),
        15 => d.overwrite_enabled().is_ok(),
        _ => d.reset_data_available().is_ok(),
    };
    // the control word the camera is known to hold
    let n1;
    unsafe {
        let mut k = n0;
        while k < (*log).n {
            let o = &(*log).ops[k];
            if !o.failed && o.reg() == CONTROL {
                known = if o.write { o.data() } else { reg16(k) };
            }
            k += 1;
        }
        (*log).fallible = false;
        n1 = (*log).n;
    }
    image_with(
        &mut d,
        gen,
        known,
        1.0,
        "B06 an image uses the access pattern and resolution the camera was last known to have",
        "B06 an image covers the pixels of the access pattern the camera was last known to have",
    );
    let log = unsafe { &*log };
    let mut k = n1;
    while k < log.n {
        sa_check(!log.ops[k].write && log.ops[k].reg() < 0x8000, "B06 taking the image needs no register access", k);
        k += 1;
    }
    sa_done();
}
macro_rules! coherence {
    ($($a:ident $b:ident $c:ident $d:ident $k:expr;)*) => { $(
        pub fn $a() {
            coherent::<mlx9064x::mlx90640::Mlx90640, 768, 24, 1536>($k, NO_PAST)
        }
        pub fn $b() {
            coherent::<Mlx90641, 192, 12, 384>($k, NO_PAST)
        }
        pub fn $c() {
            coherent::<mlx9064x::mlx90640::Mlx90640, 768, 24, 1536>($k, MIXED)
        }
        pub fn $d() {
            coherent::<Mlx90641, 192, 12, 384>($k, MIXED)
        }
    )* }
}
coherence! {
    r_coh_640_0 r_coh_641_0 r_mixcoh_640_0 r_mixcoh_641_0 0;
    r_coh_640_1 r_coh_641_1 r_mixcoh_640_1 r_mixcoh_641_1 1;
    r_coh_640_2 r_coh_641_2 r_mixcoh_640_2 r_mixcoh_641_2 2;
    r_coh_640_3 r_coh_641_3 r_mixcoh_640_3 r_mixcoh_641_3 3;
    r_coh_640_4 r_coh_641_4 r_mixcoh_640_4 r_mixcoh_641_4 4;
    r_coh_640_5 r_coh_641_5 r_mixcoh_640_5 r_mixcoh_641_5 5;
    r_coh_640_6 r_coh_641_6 r_mixcoh_640_6 r_mixcoh_641_6 6;
    r_coh_640_7 r_coh_641_7 r_mixcoh_640_7 r_mixcoh_641_7 7;
    r_coh_640_8 r_coh_641_8 r_mixcoh_640_8 r_mixcoh_641_8 8;
    r_coh_640_9 r_coh_641_9 r_mixcoh_640_9 r_mixcoh_641_9 9;
    r_coh_640_10 r_coh_641_10 r_mixcoh_640_10 r_mixcoh_641_10 10;
    r_coh_640_11 r_coh_641_11 r_mixcoh_640_11 r_mixcoh_641_11 11;
    r_coh_640_12 r_coh_641_12 r_mixcoh_640_12 r_mixcoh_641_12 12;
    r_coh_640_13 r_coh_641_13 r_mixcoh_640_13 r_mixcoh_641_13 13;
    r_coh_640_14 r_coh_641_14 r_mixcoh_640_14 r_mixcoh_641_14 14;
    r_coh_640_15 r_coh_641_15 r_mixcoh_640_15 r_mixcoh_641_15 15;
    r_coh_640_16 r_coh_641_16 r_mixcoh_640_16 r_mixcoh_641_16 16;
}

/// Frame synchronisation, with faults anywhere; after `POLLS` status reads by induction.
pub fn r_sync() {
    const POLLS: usize = 3;
    let mut log_ = Log::new();
    let log = &mut log_ as *mut Log;
    let dev = any_dev();
    let mut d = some_driver(log, dev);
    unsafe {
        (*log).max_polls = POLLS;
        (*log).polling = true;
        (*log).by_subpage = false;
    }
    let r = d.synchronize();
    let log = unsafe { &*log };
    chk_dev(log, dev);
    let ok = chk_err(log, 1, &r);
    let n = log.n;
    sa_check(n >= 2 && !log.ops[1].write && log.ops[1].reg() == STATUS, "B07 the status register is read first", 0);
    if n >= 3 {
        let o = &log.ops[2];
        sa_check(o.write && o.reg() == STATUS, "B07 a measurement is requested through the status register", 0);
        sa_check(o.data() == (reg16(1) & !8) | 0x30, "B07 the request clears stale data, enables overwriting, starts a measurement, and changes nothing else", 0);
    }
    let mut k = 3;
    while k < n {
        let o = &log.ops[k];
        sa_check(!o.write && o.reg() == STATUS && o.rlen == 2, "B07 afterwards the status register is polled", k);
        if !o.failed {
            sa_check((reg16(k) & 8 != 0) == (k + 1 == n), "B07 polling stops exactly when new data is flagged", k);
        }
        k += 1;
    }
    if ok {
        sa_check(n >= 4, "B07 success needs a measurement requested here", 0);
    }
    sa_cover(ok && n == 4, "B07 first poll", 0);
    sa_done();
}

/// Construction with known calibration data.
fn ctor<const E: bool>() {
    let mut log_ = Log::new();
    let log = &mut log_ as *mut Log;
    unsafe { (*log).fallible = true };
    let dev = any_dev();
    let r: Result<D41, _> = CameraDriver::new_with_calibration(Bus { log }, dev, Stub::new(true, E));
    let log = unsafe { &*log };
    sa_check(log.n == 1 && !log.ops[0].write && log.ops[0].reg() == CONTROL && log.ops[0].rlen == 2, "B08 construction reads the control register once", 0);
    chk_dev(log, dev);
    chk_err(log, 0, &r);
    match r {
        Ok(d) => {
            sa_feq(
                d.effective_emissivity(),
                if E { sa_f32("cal_emissivity", 0) } else { 1.0 },
                "B08 the initial emissivity is the camera's, or one",
                0,
            );
            sa_check(d.ambient_temperature().is_none(), "B08 no ambient temperature before the first image", 0);
            sa_check(d.reflected_temperature().is_none(), "B08 no reflected temperature initially", 0);
            sa_check(d.height() == 12 && d.width() == 16, "B08 dimensions", 0);
        }
        _ => {}
    }
    sa_done();
}
pub fn r_ctor_emis() {
    ctor::<true>()
}
pub fn r_ctor() {
    ctor::<false>()
}

/// Emissivity and reflected temperature are plain settings, independent of everything else.
pub fn r_settings() {
    settings(NO_PAST)
}
/// The same after any number of operations of any kind.
pub fn r_mix_settings() {
    settings(MIXED)
}
fn settings(history: u64) {
    let mut log_ = Log::new();
    let log = &mut log_ as *mut Log;
    let dev = any_dev();
    let emis = sa_split(sa_bool("has emissivity", 0));
    let mut d = mk::<Mlx90641, 192, 12, 384>(log, dev, true, emis);
    let dflt = if emis { sa_f32("cal_emissivity", 0) } else { 1.0 };
    let mut em = dflt;
    let mut tr: Option<f32> = None;
    if history == NO_PAST && sa_split(sa_bool("earlier image", 0)) {
        let mut scratch = [0f32; 192];
        let r = d.generate_image_subpage_to(Subpage::Zero, &mut scratch);
        sa_check(r.is_ok(), "B02 no error without a fault", 0);
    }
    past(&mut d, log, history);
    if history != NO_PAST {
        d.use_default_emissivity();
        d.set_reflected_temperature(None);
    }
    let ambient = d.ambient_temperature();
    let transfers = unsafe { (*log).n };
    let mut i = 0;
    while i < if history == NO_PAST { 4 } else { 2 } {
        if sa_split(sa_bool("which a", i)) {
            if sa_split(sa_bool("which b", i)) {
                em = sa_f32("new emissivity", i);
                d.override_emissivity(em);
            } else {
                em = dflt;
                d.use_default_emissivity();
            }
        } else if sa_split(sa_bool("which b", i)) {
            tr = Some(sa_f32("new reflected", i));
            d.set_reflected_temperature(tr);
        } else {
            tr = None;
            d.set_reflected_temperature(tr);
        }
        sa_feq(d.effective_emissivity(), em, "B09 the effective emissivity is the last override, or the default", i);
        match (tr, d.reflected_temperature()) {
            (None, None) => {}
            (Some(a), Some(b)) => sa_feq(b, a, "B09 the reflected temperature is the last one set", i),
            _ => sa_check(false, "B09 the reflected temperature is the last one set", i),
        }
        same_ambient(ambient, d.ambient_temperature(), "B09 settings leave the ambient temperature alone");
        i += 1;
    }
    let log = unsafe { &*log };
    sa_check(log.n == transfers, "B09 settings cause no transfers", 0);
    sa_done();
}
