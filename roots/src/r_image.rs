//! Entry points: taking an image through the driver.
use crate::bus::*;
use crate::r_past::*;
use crate::sa::*;
use crate::spec::*;
use crate::stub::*;
use mlx9064x::mlx90640::Mlx90640;
use mlx9064x::mlx90641::Mlx90641;
use mlx9064x::*;

pub type Drv<C, const N: usize, const H: usize, const NB: usize> = CameraDriver<Stub<C, N>, Bus, H, NB>;

/// A driver around the recording bus, created without faults. The control word it saw is
/// `reg16(0)`.
pub fn mk<C: Cam, const N: usize, const H: usize, const NB: usize>(
    log: *mut Log,
    dev: u8,
    tgc: bool,
    emis: bool,
) -> Drv<C, N, H, NB> {
    match CameraDriver::new_with_calibration(Bus { log }, dev, Stub::<C, N>::new(tgc, emis)) {
        Ok(d) => d,
        Err(_) => {
            sa_check(false, "B08 creating a driver succeeds when the bus does", 0);
            loop {}
        }
    }
}
pub fn any_dev() -> u8 {
    sa_bits("device", 0, 8) as u8
}

/// The outcome of an operation under faults: an error names the transfer that failed, and is of
/// the kind matching its direction; without a fault there is no error.
pub fn chk_err<T>(log: &Log, from: usize, r: &Result<T, Error<Bus>>) -> bool {
    chk_fault_last(log);
    let last = log.n - 1;
    let faulted = log.n > from && log.ops[last].failed;
    match r {
        Ok(_) => {
            sa_check(!faulted, "B02 a failed transfer makes the call fail", last);
            true
        }
        Err(Error::I2cWriteReadError(BusErr(k))) => {
            sa_check(faulted && *k == last && !log.ops[last].write, "B02 a failed read is reported as a read error with the bus's own error", last);
            false
        }
        Err(Error::I2cWriteError(BusErr(k))) => {
            sa_check(faulted && *k == last && log.ops[last].write, "B02 a failed write is reported as a write error with the bus's own error", last);
            false
        }
        Err(Error::LibraryError(_)) => {
            sa_check(false, "B02 no library error without invalid data", last);
            false
        }
    }
}

/// Operations `from..to` are reads of camera RAM.
fn chk_ram_reads(log: &Log, from: usize, to: usize) {
    let mut k = from;
    while k < to {
        let o = &log.ops[k];
        let a = o.reg();
        sa_check(
            !o.write && a >= 0x400 && a as usize + o.rlen / 2 <= 0x800,
            "B01 an image is taken by reading RAM only",
            k,
        );
        k += 1;
    }
}

fn chk_pixels<C: Cam, const N: usize>(cal: &Stub<C, N>, s: &Set, gen: usize, rc: f32, dest: &[f32; N], temps: bool, amb: Option<f32>) {
    let r = ram_of::<C>(gen, s.sp);
    let f = frame(cal, rc, &r);
    let p = pre::<C, N>(cal, s, f, r.cp);
    match amb {
        Some(a) => sa_feq(a, f.ta, "T06 the reported ambient temperature is the frame's", 0),
        None => sa_check(false, "T06 an ambient temperature is reported after an image", 0),
    }
    let mut i = 0;
    while i < N {
        if C::member(s.chess, s.sp, i) {
            let x = pixel::<C, N>(cal, s, &p, i, mem16(gen, C::pixel(s.sp, i)) as i16);
            sa_feq(dest[i], if temps { x.t } else { x.ir }, "T06 image pixel equals the specified calculation", i);
        } else {
            sa_feq(dest[i], sa_f32("old", i), "T05 pixels of the other subpage keep their value", i);
        }
        i += 1;
    }
}

/// `generate_image_if_ready` with faults at any transfer, after an arbitrary earlier operation.
pub fn ready<C: Cam, const N: usize, const H: usize, const NB: usize>(tgc: bool, emis: bool, tr: bool, which: u64) {
    let mut log_ = Log::new();
    let log = &mut log_ as *mut Log;
    let dev = any_dev();
    unsafe { (*log).part = Some(sa_part()) };
    let mut d = mk::<C, N, H, NB>(log, dev, tgc, emis);
    let em = if emis { sa_f32("emissivity", 0) } else { 1.0 };
    let trv = if tr { Some(sa_f32("reflected", 0)) } else { None };
    if which == MIXED {
        past(&mut d, log, which);
        d.use_default_emissivity();
    }
    if emis {
        sa_assume(em != 1.0);
        d.override_emissivity(em);
    }
    d.set_reflected_temperature(trv);
    let cal = Stub::<C, N>::new(tgc, emis);
    let mut dest = [0f32; N];
    sa_fillf(dest.as_mut_ptr(), N, "old", 0);
    if which != MIXED {
        past(&mut d, log, which);
    }
    let before = d.ambient_temperature();
    let (gen, known) = unsafe { ((*log).gen, (*log).known) };
    let chess = sa_split(known & 0x1000 != 0);
    unsafe { (*log).fallible = true };
    let r = d.generate_image_if_ready(&mut dest);
    let amb = d.ambient_temperature();
    let log = unsafe { &*log };
    let n = log.n;
    chk_dev(log, dev);
    let ok = chk_err(log, 1, &r);
    sa_check(n >= 2 && !log.ops[1].write && log.ops[1].reg() == STATUS && log.ops[1].rlen == 2, "B01 the status register is read first", 0);
    let st = reg16(1);
    if log.ops[1].failed {
        sa_check(n == 2, "B01 nothing follows a failed status read", 0);
    } else if st & 8 == 0 {
        sa_check(n == 2, "B01 without new data only the status register is read", 0);
        match r {
            Ok(b) => sa_check(!b, "B01 without new data the answer is false", 0),
            _ => {}
        }
        same_ambient(before, amb, "B01 without new data the ambient temperature stays as it was");
    } else {
        let last = &log.ops[n - 1];
        let reads = if last.write { n - 1 } else { n };
        chk_ram_reads(log, 2, reads);
        if last.write {
            sa_check(last.reg() == STATUS, "B01 the only write goes to the status register", n);
            sa_check(last.data() == st & !8, "B01 the write clears exactly the new data flag", n);
        }
        match r {
            Ok(b) => {
                sa_check(b, "B01 with new data the answer is true", 0);
                sa_check(last.write && n > 3, "B01 the new data flag is cleared after the frame was read", 0);
                let s = Set { em, tr: trv, chess, sp: (st & 1) as usize };
                chk_pixels::<C, N>(&cal, &s, gen, rescorr(cal.res, known), &dest, true, amb);
            }
            _ => {}
        }
        if !ok && !last.write {
            same_ambient(before, amb, "B02 a failed frame leaves the ambient temperature alone");
        }
    }
    if n < 3 || (!log.ops[n - 1].write) {
        let mut i = 0;
        while i < N {
            sa_feq(dest[i], sa_f32("old", i), "B01 the image is untouched unless a whole frame was read", i);
            i += 1;
        }
    }
    sa_done();
}
pub fn r_ready_640() {
    ready::<Mlx90640, 768, 24, 1536>(true, true, true, NO_PAST)
}
pub fn r_ready_641() {
    ready::<Mlx90641, 192, 12, 384>(true, true, true, NO_PAST)
}
pub fn same_ambient(before: Option<f32>, after: Option<f32>, what: &'static str) {
    match (before, after) {
        (Some(a), Some(b)) => sa_feq(b, a, what, 0),
        (None, None) => sa_check(true, what, 2),
        _ => sa_check(false, what, 1),
    }
}

/// The four ways of taking an image, without faults, for every combination of settings.
fn pipe<C: Cam, const N: usize, const H: usize, const NB: usize>(how: usize) {
    let tgc = sa_split(sa_bool("has tgc", 0));
    let emis = sa_split(sa_bool("has emissivity", 0));
    let over = sa_split(sa_bool("emissivity overridden", 0));
    let tr = sa_split(sa_bool("has reflected", 0));
    let mut log_ = Log::new();
    let log = &mut log_ as *mut Log;
    let dev = any_dev();
    let mut d = mk::<C, N, H, NB>(log, dev, tgc, emis);
    let cal = Stub::<C, N>::new(tgc, emis);
    let em = if over {
        let e = sa_f32("emissivity", 0);
        d.override_emissivity(e);
        e
    } else if emis {
        sa_f32("cal_emissivity", 0)
    } else {
        1.0
    };
    if over || emis {
        sa_assume(em != 1.0);
    }
    let trv = if tr { Some(sa_f32("reflected", 0)) } else { None };
    if tr {
        d.set_reflected_temperature(trv);
    }
    let mut dest = [0f32; N];
    sa_fillf(dest.as_mut_ptr(), N, "old", 0);
    let mut sp = (how >= 2 && sa_split(sa_bool("subpage", 0))) as usize;
    let arg = if sp == 0 { Subpage::Zero } else { Subpage::One };
    let ok = match how {
        0 => {
            sp = (reg16(1) & 1) as usize;
            match d.generate_image_if_ready(&mut dest) {
                Ok(b) => {
                    sa_assume(b);
                    true
                }
                Err(_) => false,
            }
        }
        1 => {
            sp = (reg16(1) & 1) as usize;
            d.generate_image_to(&mut dest).is_ok()
        }
        2 => d.generate_image_subpage_to(arg, &mut dest).is_ok(),
        _ => d.generate_raw_image_subpage_to(arg, &mut dest).is_ok(),
    };
    sa_check(ok, "B02 no error without a fault", 0);
    let amb = d.ambient_temperature();
    let s = Set { em, tr: trv, chess: reg16(0) & 0x1000 != 0, sp };
    chk_pixels::<C, N>(&cal, &s, 0, rescorr(cal.res, reg16(0)), &dest, how != 3, amb);
    let log = unsafe { &*log };
    chk_dev(log, dev);
    if how >= 2 {
        chk_ram_reads(log, 1, log.n);
    } else if how == 1 {
        sa_check(!log.ops[1].write && log.ops[1].reg() == STATUS, "B01 the subpage comes from the status register", 0);
        chk_ram_reads(log, 2, log.n);
    }
    sa_done();
}
pub fn r_pipe_ready_640() {
    pipe::<Mlx90640, 768, 24, 1536>(0)
}
pub fn r_pipe_to_640() {
    pipe::<Mlx90640, 768, 24, 1536>(1)
}
pub fn r_pipe_sub_640() {
    pipe::<Mlx90640, 768, 24, 1536>(2)
}
pub fn r_pipe_raw_640() {
    pipe::<Mlx90640, 768, 24, 1536>(3)
}
pub fn r_pipe_ready_641() {
    pipe::<Mlx90641, 192, 12, 384>(0)
}
pub fn r_pipe_to_641() {
    pipe::<Mlx90641, 192, 12, 384>(1)
}
pub fn r_pipe_sub_641() {
    pipe::<Mlx90641, 192, 12, 384>(2)
}
pub fn r_pipe_raw_641() {
    pipe::<Mlx90641, 192, 12, 384>(3)
}

/// The ways of taking an image that do not ask whether there is one, with faults at any transfer,
/// after any number of operations of any kind.
fn mixed_image<C: Cam, const N: usize, const H: usize, const NB: usize>(how: usize) {
    let mut log_ = Log::new();
    let log = &mut log_ as *mut Log;
    let dev = any_dev();
    unsafe { (*log).part = Some(sa_part()) };
    let mut d = mk::<C, N, H, NB>(log, dev, true, true);
    past(&mut d, log, MIXED);
    let em = sa_f32("emissivity", 0);
    sa_assume(em != 1.0);
    d.override_emissivity(em);
    let trv = Some(sa_f32("reflected", 0));
    d.set_reflected_temperature(trv);
    let cal = Stub::<C, N>::new(true, true);
    let mut dest = [0f32; N];
    sa_fillf(dest.as_mut_ptr(), N, "old", 0);
    let before = d.ambient_temperature();
    let (gen, known) = unsafe { ((*log).gen, (*log).known) };
    let chess = sa_split(known & 0x1000 != 0);
    unsafe { (*log).fallible = true };
    let mut sp = (how >= 2 && sa_split(sa_bool("subpage", 0))) as usize;
    let arg = if sp == 0 { Subpage::Zero } else { Subpage::One };
    let r = match how {
        1 => d.generate_image_to(&mut dest),
        2 => d.generate_image_subpage_to(arg, &mut dest),
        _ => d.generate_raw_image_subpage_to(arg, &mut dest),
    };
    let amb = d.ambient_temperature();
    let log = unsafe { &*log };
    chk_dev(log, dev);
    let ok = chk_err(log, 1, &r);
    let mut from = 1;
    if how == 1 {
        sa_check(!log.ops[1].write && log.ops[1].reg() == STATUS && log.ops[1].rlen == 2, "B01 the subpage comes from the status register", 0);
        from = 2;
        sp = (reg16(1) & 1) as usize;
    }
    chk_ram_reads(log, from, log.n);
    if ok {
        let s = Set { em, tr: trv, chess, sp };
        chk_pixels::<C, N>(&cal, &s, gen, rescorr(cal.res, known), &dest, how != 3, amb);
    } else {
        same_ambient(before, amb, "B02 a failed read leaves the ambient temperature alone");
        let mut i = 0;
        while i < N {
            sa_feq(dest[i], sa_f32("old", i), "B02 a failed read leaves the image untouched", i);
            i += 1;
        }
    }
    sa_cover(true, "B02 both outcomes", ok as usize);
    sa_done();
}
pub fn r_mix_to_640() {
    mixed_image::<Mlx90640, 768, 24, 1536>(1)
}
pub fn r_mix_sub_640() {
    mixed_image::<Mlx90640, 768, 24, 1536>(2)
}
pub fn r_mix_raw_640() {
    mixed_image::<Mlx90640, 768, 24, 1536>(3)
}
pub fn r_mix_to_641() {
    mixed_image::<Mlx90641, 192, 12, 384>(1)
}
pub fn r_mix_sub_641() {
    mixed_image::<Mlx90641, 192, 12, 384>(2)
}
pub fn r_mix_raw_641() {
    mixed_image::<Mlx90641, 192, 12, 384>(3)
}

/// Faults in the calls that do not wait for new data; an earlier frame's results survive.
fn faults<C: Cam, const N: usize, const H: usize, const NB: usize>(how: usize) {
    let mut log_ = Log::new();
    let log = &mut log_ as *mut Log;
    let dev = any_dev();
    let mut d = mk::<C, N, H, NB>(log, dev, false, false);
    let mut dest = [0f32; N];
    sa_fillf(dest.as_mut_ptr(), N, "old", 0);
    let arg = if sa_split(sa_bool("subpage", 0)) { Subpage::One } else { Subpage::Zero };
    // a first frame, so that there is an ambient temperature
    let first = sa_split(sa_bool("earlier frame", 0));
    if first {
        let mut scratch = [0f32; N];
        let r = d.generate_image_subpage_to(arg, &mut scratch);
        sa_check(r.is_ok(), "B02 no error without a fault", 1);
    }
    let before = d.ambient_temperature();
    let from = unsafe { (*log).n };
    unsafe {
        (*log).fallible = true;
        (*log).gen = 1;
    }
    let r = match how {
        0 => d.generate_image_if_ready(&mut dest).map(|_| ()),
        1 => d.generate_image_to(&mut dest),
        2 => d.generate_image_subpage_to(arg, &mut dest),
        _ => d.generate_raw_image_subpage_to(arg, &mut dest),
    };
    let after = d.ambient_temperature();
    let log = unsafe { &*log };
    chk_dev(log, dev);
    let ok = chk_err(log, from, &r);
    if !ok && !log.ops[log.n - 1].write {
        let mut i = 0;
        while i < N {
            sa_feq(dest[i], sa_f32("old", i), "B02 a failed read leaves the image untouched", i);
            i += 1;
        }
        match (before, after) {
            (Some(a), Some(b)) => sa_feq(a, b, "B02 a failed read leaves the ambient temperature alone", 0),
            (None, None) => {}
            _ => sa_check(false, "B02 a failed read leaves the ambient temperature alone", 1),
        }
    }
    sa_cover(true, "B02 both outcomes", ok as usize);
    sa_done();
}
pub fn r_faults_ready_640() {
    faults::<Mlx90640, 768, 24, 1536>(0)
}
pub fn r_faults_to_640() {
    faults::<Mlx90640, 768, 24, 1536>(1)
}
pub fn r_faults_sub_640() {
    faults::<Mlx90640, 768, 24, 1536>(2)
}
pub fn r_faults_raw_640() {
    faults::<Mlx90640, 768, 24, 1536>(3)
}
pub fn r_faults_ready_641() {
    faults::<Mlx90641, 192, 12, 384>(0)
}
pub fn r_faults_to_641() {
    faults::<Mlx90641, 192, 12, 384>(1)
}
pub fn r_faults_sub_641() {
    faults::<Mlx90641, 192, 12, 384>(2)
}
pub fn r_faults_raw_641() {
    faults::<Mlx90641, 192, 12, 384>(3)
}

/// Destinations shorter or longer than the image.
fn lens<C: Cam, const N: usize, const H: usize, const NB: usize>(how: usize, lens: &[usize]) {
    let given = how >= 2 && sa_split(sa_bool("subpage", 0));
    let mut log_ = Log::new();
    let log = &mut log_ as *mut Log;
    let dev = any_dev();
    let mut d = mk::<C, N, H, NB>(log, dev, false, false);
    let cal = Stub::<C, N>::new(false, false);
    let chess = sa_split(reg16(0) & 0x1000 != 0);
    let mut k = 0;
    while k < lens.len() {
        let mut dest = [0f32; 800];
        sa_fillf(dest.as_mut_ptr(), 800, "old", 0);
        let to = &mut dest[..lens[k]];
        let at = unsafe { (*log).n };
        let arg = if given { Subpage::One } else { Subpage::Zero };
        let ok = match how {
            0 => match d.generate_image_if_ready(to) {
                Ok(b) => {
                    sa_assume(b);
                    true
                }
                Err(_) => false,
            },
            1 => d.generate_image_to(to).is_ok(),
            2 => d.generate_image_subpage_to(arg, to).is_ok(),
            _ => d.generate_raw_image_subpage_to(arg, to).is_ok(),
        };
        sa_check(ok, "T05 a destination of any length is accepted", k);
        let sp = if how >= 2 { given } else { sa_split(reg16(at) & 1 != 0) } as usize;
        let s = Set { em: 1.0, tr: None, chess, sp };
        let r = ram_of::<C>(0, sp);
        let f = frame(&cal, rescorr(cal.res, reg16(0)), &r);
        let p = pre::<C, N>(&cal, &s, f, r.cp);
        match d.ambient_temperature() {
            Some(a) => sa_feq(a, f.ta, "T06 the reported ambient temperature is the frame's", k),
            None => sa_check(false, "T06 an ambient temperature is reported after an image", k),
        }
        let mut i = 0;
        while i < 800 {
            if i < lens[k] && i < N && C::member(chess, sp, i) {
                let x = pixel::<C, N>(&cal, &s, &p, i, mem16(0, C::pixel(sp, i)) as i16);
                sa_feq(dest[i], if how == 3 { x.ir } else { x.t }, "T06 pixels that fit into the destination are as specified", i);
            } else {
                sa_feq(dest[i], sa_f32("old", i), "T05 elements beyond the image or the destination keep their value", i);
            }
            i += 1;
        }
        k += 1;
    }
    sa_done();
}
pub fn r_lens_ready_640() {
    lens::<Mlx90640, 768, 24, 1536>(0, &[333])
}
pub fn r_lens_img_640() {
    lens::<Mlx90640, 768, 24, 1536>(1, &[334])
}
pub fn r_lens_to_640() {
    lens::<Mlx90640, 768, 24, 1536>(2, &[0, 1, 333, 768, 800])
}
pub fn r_lens_raw_640() {
    lens::<Mlx90640, 768, 24, 1536>(3, &[5, 767, 799])
}
pub fn r_lens_ready_641() {
    lens::<Mlx90641, 192, 12, 384>(0, &[77, 0, 200])
}
pub fn r_lens_img_641() {
    lens::<Mlx90641, 192, 12, 384>(1, &[78, 200])
}
pub fn r_lens_to_641() {
    lens::<Mlx90641, 192, 12, 384>(2, &[0, 1, 77, 192, 200])
}
pub fn r_lens_raw_641() {
    lens::<Mlx90641, 192, 12, 384>(3, &[5, 191, 199])
}
