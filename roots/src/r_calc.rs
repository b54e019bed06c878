//! Entry points: the calculations, called directly.
use crate::bus::*;
use crate::r_driver::{pat, sub};
use crate::sa::*;
use crate::spec::*;
use crate::stub::*;
use mlx9064x::calculations as calc;
use mlx9064x::calculations::{CommonIrData, RamData};
use mlx9064x::mlx90640::Mlx90640;
use mlx9064x::mlx90641::Mlx90641;
use mlx9064x::*;

fn any_ram() -> RamData {
    RamData {
        t_a_v_be: any_i16("vbe", 0),
        t_a_ptat: any_i16("ptat", 0),
        v_dd_pixel: any_i16("vddpix", 0),
        gain: any_i16("rgain", 0),
        compensation_pixel: any_i16("cpix", 0),
    }
}
fn spec_ram(r: &RamData) -> Ram {
    Ram { vbe: r.t_a_v_be, ptat: r.t_a_ptat, vdd: r.v_dd_pixel, gain: r.gain, cp: r.compensation_pixel }
}

/// Per-frame quantities.
pub fn r_calc_frame() {
    let mut cal = Stub::<Mlx90640, 4>::new(true, true);
    cal.vdd0 = sa_f32("vdd0", 0);
    let ram = any_ram();
    let dv = calc::delta_v(&cal, ram.v_dd_pixel);
    sa_feq(dv, (ram.v_dd_pixel as f32 - cal.vdd25 as f32) / cal.kvdd as f32, "T01 supply voltage change", 0);
    let rc = sa_f32("rescorr", 0);
    let x = sa_f32("arg", 0);
    let y = sa_f32("arg", 1);
    sa_feq(calc::v_dd(&cal, rc, x), rc * x + cal.vdd0, "T01 supply voltage", 0);
    let p = ram.t_a_ptat as f32;
    sa_feq(
        calc::v_ptat_art(&cal, ram.t_a_ptat, ram.t_a_v_be),
        p / (p * cal.f[3] + ram.t_a_v_be as f32) * 262144.0,
        "T01 PTAT voltage",
        0,
    );
    sa_feq(
        calc::ambient_temperature(&cal, x, y),
        (x / (1.0 + cal.f[0] * y) - cal.f[2]) / cal.f[1] + 25.0,
        "T01 ambient temperature",
        0,
    );
    let em = sa_f32("emissivity", 0);
    let c = CommonIrData::new(rc, em, &cal, &ram);
    let f = frame(&cal, rc, &spec_ram(&ram));
    sa_feq(c.gain, f.gain, "T01 gain of the frame", 0);
    sa_feq(c.v_dd, f.vdd, "T01 supply voltage of the frame", 0);
    sa_feq(c.t_a, f.ta, "T01 ambient temperature of the frame", 0);
    sa_feq(c.emissivity, em, "T01 emissivity of the frame", 0);
    sa_feq(
        calc::sensitivity_correction_coefficient(&cal, x),
        1.0 + cal.f[5] * (x - 25.0),
        "T03 sensitivity correction",
        0,
    );
    sa_done();
}

/// Infrared value of one pixel.
pub fn r_calc_ir() {
    let c = CommonIrData { gain: sa_f32("c", 0), v_dd: sa_f32("c", 1), emissivity: sa_f32("c", 2), t_a: sa_f32("c", 3) };
    let f = Frame { gain: c.gain, vdd: c.v_dd, ta: c.t_a };
    let raw = any_i16("raw", 0);
    let off = any_i16("offset", 0);
    let kv = sa_f32("kv", 0);
    let kta = sa_f32("kta", 0);
    let comp = sa_f32("comp", 0);
    sa_feq(calc::per_pixel_v_ir(raw, &c, off, kv, kta, None), v_ir(raw, &f, c.emissivity, off, kv, kta, 0.0), "T02 infrared value without pattern compensation", 0);
    sa_feq(calc::per_pixel_v_ir(raw, &c, off, kv, kta, Some(comp)), v_ir(raw, &f, c.emissivity, off, kv, kta, comp), "T02 infrared value with pattern compensation", 0);
    sa_done();
}

/// Temperature of one pixel.
pub fn r_calc_to() {
    let ta = sa_f32("ta", 0);
    let tr = sa_f32("tr", 0);
    let k = 273.15;
    sa_feq(calc::t_ar(ta, tr, 1.0), p4(ta + k), "T03 nothing is reflected at an emissivity of one", 0);
    let em = sa_f32("em", 0);
    sa_assume(em != 1.0);
    sa_feq(calc::t_ar(ta, tr, em), t_ar(ta, tr, em), "T03 reflected radiation", 0);
    let v = sa_f32("v", 0);
    let a = sa_f32("a", 0);
    let t = sa_f32("t", 0);
    let ks = sa_f32("ks", 0);
    sa_feq(calc::per_pixel_temperature(v, a, t, ks), t_o(v, a, t, ks), "T03 object temperature", 0);
    sa_done();
}

struct Mask {
    i: usize,
    n: usize,
}
impl Iterator for Mask {
    type Item = bool;
    fn next(&mut self) -> Option<bool> {
        if self.i < self.n {
            let b = sa_bool("mask", self.i);
            self.i += 1;
            Some(b)
        } else {
            None
        }
    }
}

/// The two-step calculation equals the one-step one, for any selection of pixels and buffers of
/// any length.
fn steps<C: Cam>(short: bool) {
    const N: usize = 6;
    let tgc = sa_split(sa_bool("has tgc", 0));
    let one = sa_split(sa_bool("emissivity is one", 0));
    let trg = sa_split(sa_bool("has reflected", 0));
    let sp = sa_split(sa_bool("subpage", 0)) as u16;
    let p = sa_split(sa_bool("pattern", 0)) as u16;
    let cal = Stub::<C, N>::new(tgc, false);
    let em = if one { 1.0 } else { sa_f32("emissivity", 0) };
    if !one {
        sa_assume(em != 1.0);
    }
    let tr = if trg { Some(sa_f32("reflected", 0)) } else { None };
    let rc = sa_f32("rescorr", 0);
    let ram = any_ram();
    let mut px = [0u8; 2 * N + 4];
    sa_fill(px.as_mut_ptr(), 2 * N + 4, "px", 0);
    let mut old = [0f32; N + 2];
    sa_fillf(old.as_mut_ptr(), N + 2, "old", 0);
    let f = frame(&cal, rc, &spec_ram(&ram));
    let s = Set { em, tr, chess: p == 1, sp: sp as usize };
    let pr = pre::<C, N>(&cal, &s, f, ram.compensation_pixel);
    let cases: &[(usize, usize, usize)] = if short {
        &[(0, 12, 6), (3, 12, 6), (6, 7, 6), (6, 0, 6), (6, 12, 4), (6, 12, 0), (2, 9, 5)]
    } else {
        &[(6, 12, 6), (8, 16, 8), (8, 12, 9)]
    };
    let mut k = 0;
    while k < cases.len() {
        let (nd, np, nm) = cases[k];
        sa_mark(1000 + k as u64);
        let mut a = old;
        let ta = calc::raw_pixels_to_ir_data(&cal, em, rc, &px[..np], ram, sub(sp), pat(p), &mut Mask { i: 0, n: nm }, &mut a[..nd]);
        sa_feq(ta, f.ta, "T04 the first step answers the ambient temperature", k);
        let ir = a;
        calc::raw_ir_to_temperatures(&cal, em, ta, tr, sub(sp), &mut Mask { i: 0, n: nm }, &mut a[..nd]);
        let mut b = old;
        let tb = calc::raw_pixels_to_temperatures(&cal, em, tr, rc, &px[..np], ram, sub(sp), pat(p), &mut Mask { i: 0, n: nm }, &mut b[..nd]);
        sa_feq(tb, f.ta, "T04 the combined calculation answers the ambient temperature", k);
        let mut i = 0;
        while i < N + 2 {
            let sel = i < nd && i < N && 2 * i + 1 < np && i < nm;
            let m = sa_bool("mask", i);
            let raw = if sel { i16::from_be_bytes([px[2 * i], px[2 * i + 1]]) } else { 0 };
            if sel && m {
                let x = pixel::<C, N>(&cal, &s, &pr, i, raw);
                sa_feq(ir[i], x.ir, "T04 infrared values of the selected pixels", i);
                sa_feq(b[i], x.t, "T04 temperatures of the selected pixels", i);
                sa_feq(a[i], x.t, "T04 two steps give the same temperatures as one", i);
            } else {
                sa_feq(ir[i], old[i], "T04 pixels not selected keep their value", i);
                sa_feq(b[i], old[i], "T04 pixels not selected keep their value", i + 100);
                if !(np < 2 * nd && 2 * i + 1 >= np) {
                    sa_feq(a[i], old[i], "T04 pixels not selected keep their value", i + 200);
                }
            }
            i += 1;
        }
        k += 1;
    }
    sa_done();
}
pub fn r_steps_640() {
    steps::<Mlx90640>(false)
}
pub fn r_steps_641() {
    steps::<Mlx90641>(false)
}
pub fn r_steps_short_640() {
    steps::<Mlx90640>(true)
}
pub fn r_steps_short_641() {
    steps::<Mlx90641>(true)
}
