//! Operations after an arbitrary earlier operation with an arbitrary outcome.
use crate::bus::*;
use crate::r_driver::*;
use crate::r_image::*;
use crate::sa::*;
use crate::spec::*;
use mlx9064x::mlx90641::Mlx90641;
use mlx9064x::*;

pub const PAST: u64 = 26;
/// Any number of operations of any kind, and then a successful reading of the access pattern.
pub const MIXED: u64 = 25;
pub const NO_PAST: u64 = 24;
/// Operations from this one on take images.
const FIRST_IMAGE: u64 = 20;
/// With changes of the settings kept in the driver, and replacement by a clone.
const ALL_KINDS: u64 = 29;

/// One operation of the driver, or any number of repetitions of it by induction, unrecorded; the
/// outcome is unknown, but the same each time. True if it took an image.
pub fn past<C: Cam, const N: usize, const H: usize, const NB: usize>(d: &mut Drv<C, N, H, NB>, log: *mut Log, which: u64) -> bool {
    if which == NO_PAST {
        return false;
    }
    if which == MIXED {
        mixed(d, log, ALL_KINDS);
        unsafe { (*log).quiet = true };
        let r = d.access_pattern();
        unsafe { (*log).quiet = false };
        sa_assume(r.is_ok());
        return true;
    }
    let mut taken = past_once(d, log, which);
    if sa_split(sa_bool("past repeated", 0)) {
        loop {
            taken = past_once(d, log, which);
            let p = d as *const Drv<C, N, H, NB>;
            if sa_widen_in(p as *const u8, core::mem::size_of_val(d)) {
                sa_cover(true, "B11 repeated any number of times", 0);
                break;
            }
        }
    }
    taken
}
/// Any number of operations in any order, each with an outcome of its own; by induction.
pub fn mixed<C: Cam, const N: usize, const H: usize, const NB: usize>(d: &mut Drv<C, N, H, NB>, log: *mut Log, kinds: u64) {
    let p = d as *const Drv<C, N, H, NB> as *const u8;
    let size = core::mem::size_of_val(d);
    let part = match unsafe { (*log).part } {
        Some(k) => {
            sa_rejoin(k, p, size);
            k
        }
        None => sa_part(),
    };
    let mut round = 1;
    loop {
        let stable = sa_widen_in(p, size);
        sa_split_in(p, size);
        if stable {
            break;
        }
        unsafe { (*log).round = round * 0x100000 };
        let w = one_of(kinds, round * 8);
        let x = sa_f32("past setting", round);
        match w {
            24 => d.override_emissivity(x),
            25 => d.use_default_emissivity(),
            26 => d.set_reflected_temperature(Some(x)),
            27 => d.set_reflected_temperature(None),
            28 => *d = d.clone(),
            _ => {
                past_once(d, log, w);
            }
        }
        sa_rejoin(part, p, size);
        round += 1;
    }
    sa_rejoin(part, p, size);
    sa_cover(true, "S01 any number of earlier operations of any kind", 0);
    unsafe {
        (*log).round = 0;
        (*log).gen = 1;
        (*log).unwritten = false;
    }
}
fn past_once<C: Cam, const N: usize, const H: usize, const NB: usize>(d: &mut Drv<C, N, H, NB>, log: *mut Log, which: u64) -> bool {
    unsafe {
        (*log).quiet = true;
        (*log).past = 0;
        (*log).past_regs = 0;
    }
    let round = unsafe { (*log).round };
    let v = sa_bits("past value", round, 3) as u16;
    let b = v & 1 != 0;
    let mut scratch = [0f32; N];
    let ok = match which {
        0 => d.set_access_pattern(pat(v & 1)).is_ok(),
        1 => d.set_use_subpages(b).is_ok(),
        2 => d.set_frame_rate(fr(v)).is_ok(),
        3 => d.set_resolution(res(v & 3)).is_ok(),
        4 => d.set_data_hold(b).is_ok(),
        5 => d.set_subpage(sub(v & 1)).is_ok(),
        6 => d.set_subpage_repeat(b).is_ok(),
        7 => d.set_overwrite_enabled(b).is_ok(),
        8 => d.access_pattern().is_ok(),
        9 => d.resolution().is_ok(),
        10 => d.frame_rate().is_ok(),
        11 => d.subpages_enabled().is_ok(),
        12 => d.data_hold_enabled().is_ok(),
        13 => d.subpage_repeat().is_ok(),
        14 => d.selected_subpage().is_ok(),
        15 => d.overwrite_enabled().is_ok(),
        16 => d.last_measured_subpage().is_ok(),
        17 => d.data_available().is_ok(),
        18 => d.reset_data_available().is_ok(),
        19 => d.synchronize().is_ok(),
        20 => match d.generate_image_if_ready(&mut scratch) {
            Ok(b) => b,
            Err(_) => false,
        },
        21 => d.generate_image_to(&mut scratch).is_ok(),
        22 => d.generate_image_subpage_to(sub(sa_split(b) as u16), &mut scratch).is_ok(),
        23 => d.generate_raw_image_subpage_to(sub(sa_split(b) as u16), &mut scratch).is_ok(),
        _ => true,
    };
    unsafe {
        (*log).quiet = false;
        (*log).past = 0;
        (*log).gen = 1;
    }
    // an image is taken even if the flag cannot be cleared afterwards
    which >= 20 && (ok || unsafe { (*log).unwritten })
}

/// An unknown member of `0..n`, partitioned.
fn one_of(n: u64, base: usize) -> u64 {
    let mut w = 0;
    let mut k = 0;
    while k < 5 {
        if sa_split(sa_bool("past", base + k)) {
            w |= 1 << k;
        }
        k += 1;
    }
    sa_assume(w < n);
    w
}
/// One of the operations, or none.
pub fn any_past() -> u64 {
    one_of(PAST, 0)
}

/// Emissivity, reflected temperature and ambient temperature after any other operation.
fn keep(which: u64) {
    let mut log_ = Log::new();
    let log = &mut log_ as *mut Log;
    let dev = any_dev();
    let emis = sa_split(sa_bool("has emissivity", 0));
    let mut d = mk::<Mlx90641, 192, 12, 384>(log, dev, false, emis);
    let mut em = if emis { sa_f32("cal_emissivity", 0) } else { 1.0 };
    if sa_split(sa_bool("overridden", 0)) {
        em = sa_f32("emissivity", 0);
        d.override_emissivity(em);
    }
    let mut tr = None;
    if sa_split(sa_bool("has reflected", 0)) {
        tr = Some(sa_f32("reflected", 0));
        d.set_reflected_temperature(tr);
    }
    if sa_split(sa_bool("earlier image", 0)) {
        let mut scratch = [0f32; 192];
        let r = d.generate_image_subpage_to(Subpage::Zero, &mut scratch);
        sa_check(r.is_ok(), "B02 no error without a fault", 0);
    }
    let before = d.ambient_temperature();
    let taken = past(&mut d, log, which);
    sa_feq(d.effective_emissivity(), em, "B11 the emissivity in effect survives other operations", 0);
    match (tr, d.reflected_temperature()) {
        (None, None) => {}
        (Some(a), Some(b)) => sa_feq(b, a, "B11 the reflected temperature survives other operations", 0),
        _ => sa_check(false, "B11 the reflected temperature survives other operations", 1),
    }
    let now = d.ambient_temperature();
    if taken {
        sa_check(now.is_some(), "B11 an image leaves an ambient temperature", 0);
    } else {
        same_ambient(before, now, "B11 the ambient temperature stays that of the last image");
    }
    sa_done();
}

/// The settings that belong to the caller, after any number of operations of any kind.
fn mix_keep(kinds: u64) {
    let mut log_ = Log::new();
    let log = &mut log_ as *mut Log;
    let dev = any_dev();
    let emis = kinds <= FIRST_IMAGE && sa_split(sa_bool("has emissivity", 0));
    let mut d = mk::<Mlx90641, 192, 12, 384>(log, dev, false, emis);
    let mut em = if emis { sa_f32("cal_emissivity", 0) } else { 1.0 };
    // with images: all of them set, or none
    let images = kinds > FIRST_IMAGE;
    let set = sa_split(sa_bool("overridden", 0));
    if set {
        em = sa_f32("emissivity", 0);
        d.override_emissivity(em);
    }
    let mut tr = None;
    if if images { set } else { sa_split(sa_bool("has reflected", 0)) } {
        tr = Some(sa_f32("reflected", 0));
        d.set_reflected_temperature(tr);
    }
    if !images && sa_split(sa_bool("earlier image", 0)) {
        let mut scratch = [0f32; 192];
        let r = d.generate_image_subpage_to(Subpage::Zero, &mut scratch);
        sa_check(r.is_ok(), "B02 no error without a fault", 0);
    }
    let before = d.ambient_temperature();
    mixed(&mut d, log, kinds);
    sa_feq(d.effective_emissivity(), em, "B11 the emissivity in effect survives other operations", 0);
    match (tr, d.reflected_temperature()) {
        (None, None) => {}
        (Some(a), Some(b)) => sa_feq(b, a, "B11 the reflected temperature survives other operations", 0),
        _ => sa_check(false, "B11 the reflected temperature survives other operations", 1),
    }
    if kinds <= FIRST_IMAGE {
        same_ambient(before, d.ambient_temperature(), "B11 the ambient temperature stays that of the last image");
    }
    sa_done();
}
pub fn r_mix_keep() {
    mix_keep(FIRST_IMAGE)
}
pub fn r_mix_keep_img() {
    mix_keep(NO_PAST)
}
pub fn r_mix_ready_640() {
    ready::<mlx9064x::mlx90640::Mlx90640, 768, 24, 1536>(false, false, true, MIXED)
}
pub fn r_mix_ready_641() {
    ready::<Mlx90641, 192, 12, 384>(true, true, true, MIXED)
}

/// A clone has what the original had, and neither affects the other.
fn cloned<C: Cam, const N: usize, const H: usize, const NB: usize>(history: u64) {
    let mut log_ = Log::new();
    let log = &mut log_ as *mut Log;
    let dev = any_dev();
    let mut d = mk::<C, N, H, NB>(log, dev, false, false);
    let mut em = 1.0;
    past(&mut d, log, history);
    if history != NO_PAST {
        d.use_default_emissivity();
        d.set_reflected_temperature(None);
    }
    if sa_split(sa_bool("overridden", 0)) {
        em = sa_f32("emissivity", 0);
        sa_assume(em != 1.0);
        d.override_emissivity(em);
    }
    let mut tr = None;
    if sa_split(sa_bool("has reflected", 0)) {
        tr = Some(sa_f32("reflected", 0));
        d.set_reflected_temperature(tr);
    }
    let mut scratch = [0f32; N];
    if history == NO_PAST && sa_split(sa_bool("earlier image", 0)) {
        let r = d.generate_image_subpage_to(Subpage::Zero, &mut scratch);
        sa_check(r.is_ok(), "B02 no error without a fault", 0);
    }
    let before = d.ambient_temperature();
    let mut c = d.clone();
    if sa_split(sa_bool("swap", 0)) {
        core::mem::swap(&mut c, &mut d);
    }
    let (gen, known) = unsafe { ((*log).gen, (*log).known) };
    // the other one goes its own way
    c.override_emissivity(sa_f32("other emissivity", 0));
    c.set_reflected_temperature(Some(sa_f32("other reflected", 0)));
    let r = c.generate_image_subpage_to(Subpage::One, &mut scratch);
    sa_check(r.is_ok(), "B02 no error without a fault", 0);
    unsafe { (*log).quiet = true };
    let _ = c.set_access_pattern(pat(!known >> 12 & 1));
    unsafe { (*log).quiet = false };
    sa_feq(d.effective_emissivity(), em, "B12 a clone keeps its own emissivity", 0);
    match (tr, d.reflected_temperature()) {
        (None, None) => {}
        (Some(a), Some(b)) => sa_feq(b, a, "B12 a clone keeps its own reflected temperature", 0),
        _ => sa_check(false, "B12 a clone keeps its own reflected temperature", 1),
    }
    same_ambient(before, d.ambient_temperature(), "B12 a clone has, and keeps its own ambient temperature");
    let n = unsafe { (*log).n };
    image_with(
        &mut d,
        gen,
        known,
        em,
        "B12 an image uses the settings of the driver that takes it",
        "B12 an image covers the pixels of the access pattern of the driver that takes it",
    );
    chk_dev(unsafe { &*log }, dev);
    sa_check(unsafe { (*log).n } > n, "B12 a clone uses the same bus", 0);
    sa_done();
}
pub fn r_clone_640() {
    cloned::<mlx9064x::mlx90640::Mlx90640, 768, 24, 1536>(NO_PAST)
}
pub fn r_clone_641() {
    cloned::<Mlx90641, 192, 12, 384>(NO_PAST)
}

pub fn r_mix_clone_640() {
    cloned::<mlx9064x::mlx90640::Mlx90640, 768, 24, 1536>(MIXED)
}
pub fn r_mix_clone_641() {
    cloned::<Mlx90641, 192, 12, 384>(MIXED)
}

macro_rules! aged {
    ($($k:expr, $a:ident $b:ident $c:ident;)*) => { $(
        pub fn $c() {
            keep($k)
        }
        pub fn $a() {
            ready::<mlx9064x::mlx90640::Mlx90640, 768, 24, 1536>(false, false, true, $k)
        }
        pub fn $b() {
            ready::<Mlx90641, 192, 12, 384>(true, true, true, $k)
        }
    )* }
}
aged! {
    0, r_aged_640_0 r_aged_641_0 r_keep_0;
    1, r_aged_640_1 r_aged_641_1 r_keep_1;
    2, r_aged_640_2 r_aged_641_2 r_keep_2;
    3, r_aged_640_3 r_aged_641_3 r_keep_3;
    4, r_aged_640_4 r_aged_641_4 r_keep_4;
    5, r_aged_640_5 r_aged_641_5 r_keep_5;
    6, r_aged_640_6 r_aged_641_6 r_keep_6;
    7, r_aged_640_7 r_aged_641_7 r_keep_7;
    8, r_aged_640_8 r_aged_641_8 r_keep_8;
    9, r_aged_640_9 r_aged_641_9 r_keep_9;
    10, r_aged_640_10 r_aged_641_10 r_keep_10;
    11, r_aged_640_11 r_aged_641_11 r_keep_11;
    12, r_aged_640_12 r_aged_641_12 r_keep_12;
    13, r_aged_640_13 r_aged_641_13 r_keep_13;
    14, r_aged_640_14 r_aged_641_14 r_keep_14;
    15, r_aged_640_15 r_aged_641_15 r_keep_15;
    16, r_aged_640_16 r_aged_641_16 r_keep_16;
    17, r_aged_640_17 r_aged_641_17 r_keep_17;
    18, r_aged_640_18 r_aged_641_18 r_keep_18;
    19, r_aged_640_19 r_aged_641_19 r_keep_19;
    20, r_aged_640_20 r_aged_641_20 r_keep_20;
    21, r_aged_640_21 r_aged_641_21 r_keep_21;
    22, r_aged_640_22 r_aged_641_22 r_keep_22;
    23, r_aged_640_23 r_aged_641_23 r_keep_23;
}
