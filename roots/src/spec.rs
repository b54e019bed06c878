//! Reference formulas and memory maps, written from the datasheet and the crate's documentation.
use crate::bus::*;
use crate::sa::*;
use crate::stub::*;
use mlx9064x::mlx90640::Mlx90640;
use mlx9064x::mlx90641::Mlx90641;
use mlx9064x::*;

pub const CHESS: bool = true;

pub trait Cam: MelexisCamera + 'static {
    const H: usize;
    const W: usize;
    const VBE: u16;
    const PTAT: u16;
    const VDD: u16;
    const RGAIN: u16;
    const CP: [u16; 2];
    const BASIC: usize;
    const HEAT: f32;
    /// RAM address of pixel `i` of a subpage.
    fn pixel(sp: usize, i: usize) -> u16;
    /// Does pixel `i` belong to the subpage?
    fn member(chess: bool, sp: usize, i: usize) -> bool;
}
impl Cam for Mlx90640 {
    const H: usize = 24;
    const W: usize = 32;
    const VBE: u16 = 0x0700;
    const PTAT: u16 = 0x0720;
    const VDD: u16 = 0x072A;
    const RGAIN: u16 = 0x070A;
    const CP: [u16; 2] = [0x0708, 0x0728];
    const BASIC: usize = 1;
    const HEAT: f32 = 8.0;
    fn pixel(_sp: usize, i: usize) -> u16 {
        0x400 + i as u16
    }
    fn member(chess: bool, sp: usize, i: usize) -> bool {
        let r = i / 32;
        let c = i % 32;
        if chess {
            (r + c) % 2 == sp
        } else {
            r % 2 == sp
        }
    }
}
impl Cam for Mlx90641 {
    const H: usize = 12;
    const W: usize = 16;
    const VBE: u16 = 0x0580;
    const PTAT: u16 = 0x05A0;
    const VDD: u16 = 0x05AA;
    const RGAIN: u16 = 0x058A;
    const CP: [u16; 2] = [0x0588, 0x05A8];
    const BASIC: usize = 2;
    const HEAT: f32 = 5.0;
    fn pixel(sp: usize, i: usize) -> u16 {
        0x400 + (i / 32 * 64 + sp * 32 + i % 32) as u16
    }
    fn member(_chess: bool, _sp: usize, _i: usize) -> bool {
        true
    }
}

pub fn p4(x: f32) -> f32 {
    x * x * x * x
}
pub fn root4(x: f32) -> f32 {
    x.powf(0.25)
}

/// Per-frame quantities.
#[derive(Clone, Copy)]
pub struct Frame {
    pub gain: f32,
    pub vdd: f32,
    pub ta: f32,
}
#[derive(Clone, Copy)]
pub struct Ram {
    pub vbe: i16,
    pub ptat: i16,
    pub vdd: i16,
    pub gain: i16,
    pub cp: i16,
}
pub fn ram_of<C: Cam>(gen: usize, sp: usize) -> Ram {
    Ram {
        vbe: mem16(gen, C::VBE) as i16,
        ptat: mem16(gen, C::PTAT) as i16,
        vdd: mem16(gen, C::VDD) as i16,
        gain: mem16(gen, C::RGAIN) as i16,
        cp: mem16(gen, C::CP[sp]) as i16,
    }
}
pub fn frame<C, const N: usize>(cal: &Stub<C, N>, rescorr: f32, r: &Ram) -> Frame {
    let dv = (r.vdd as f32 - cal.vdd25 as f32) / cal.kvdd as f32;
    let vdd = rescorr * dv + cal.vdd0;
    let art = r.ptat as f32 / (r.ptat as f32 * cal.f[3] + r.vbe as f32) * 262144.0;
    let ta = (art / (1.0 + cal.f[0] * dv) - cal.f[2]) / cal.f[1] + 25.0;
    Frame { gain: cal.f[4] / r.gain as f32, vdd, ta }
}
pub fn v_ir(pix: i16, f: &Frame, em: f32, off: i16, kv: f32, kta: f32, comp: f32) -> f32 {
    (pix as f32 * f.gain + comp - off as f32 * (1.0 + kta * (f.ta - 25.0)) * (1.0 + kv * (f.vdd - 3.3))) / em
}
pub fn t_o(v: f32, a: f32, tar: f32, ks: f32) -> f32 {
    let sx = ks * root4(a * a * a * v + p4(a) * tar);
    root4(v / (a * (1.0 - ks * 273.15) + sx) + tar) - 273.15
}
pub fn t_ar(ta: f32, tr: f32, em: f32) -> f32 {
    let k = 273.15;
    p4(tr + k) - (p4(tr + k) - p4(ta + k)) / em
}
/// `2^(calibrated - current)` for the raw two-bit resolutions.
pub fn rescorr(cal: Resolution, ctl: u16) -> f32 {
    let c: u8 = cal.into();
    (c as f32 - 16.0 - ((ctl >> 10) & 3) as f32).exp2()
}

/// Values of one pixel: infrared value and temperature.
pub struct Px {
    pub ir: f32,
    pub t: f32,
}
pub struct Set {
    pub em: f32,
    pub tr: Option<f32>,
    pub chess: bool,
    pub sp: usize,
}
/// Everything common to a frame.
pub struct Pre {
    pub f: Frame,
    pub cp_ir: f32,
    pub a_cp: f32,
    pub tar: f32,
    pub ks: f32,
    pub ac: f32,
}
pub fn pre<C: Cam, const N: usize>(cal: &Stub<C, N>, s: &Set, f: Frame, cp: i16) -> Pre {
    let sp = s.sp;
    let (cp_ir, a_cp) = match cal.tgc {
        Some(tgc) => {
            let comp = if s.chess { 0.0 } else { cal.comp_cp[sp] };
            (
                tgc * v_ir(cp, &f, s.em, cal.off_cp[sp], cal.kv_cp[sp], cal.kta_cp[sp], comp),
                tgc * cal.alpha_cp[sp],
            )
        }
        None => (0.0, 0.0),
    };
    let tr = match s.tr {
        Some(t) => t,
        None => f.ta - C::HEAT,
    };
    Pre { f, cp_ir, a_cp, tar: t_ar(f.ta, tr, s.em), ks: cal.ksto[C::BASIC], ac: 1.0 + cal.f[5] * (f.ta - 25.0) }
}
pub fn pixel<C: Cam, const N: usize>(cal: &Stub<C, N>, s: &Set, p: &Pre, i: usize, raw: i16) -> Px {
    let sp = s.sp;
    let comp = if s.chess { 0.0 } else { cal.comp[i] };
    let ir = v_ir(raw, &p.f, s.em, cal.off[sp][i], cal.kv[sp][i], cal.kta[sp][i], comp) - p.cp_ir;
    let a = (cal.alpha[sp][i] - p.a_cp) * p.ac;
    Px { ir, t: t_o(ir, a, p.tar, p.ks) }
}
