//! Calibration data with every value unknown.
use crate::sa::*;
use core::marker::PhantomData;
use mlx9064x::*;

impl<C, const N: usize> Clone for Stub<C, N> {
    fn clone(&self) -> Self {
        unsafe { core::ptr::read(self) }
    }
}

pub struct Stub<C, const N: usize> {
    pub kvdd: i16,
    pub vdd25: i16,
    pub res: Resolution,
    pub vdd0: f32,
    pub f: [f32; 6], // k_v_ptat k_t_ptat v_ptat_25 alpha_ptat gain k_s_ta
    pub ct: [i16; 8],
    pub ksto: [f32; 8],
    pub acor: [f32; 8],
    pub emis: Option<f32>,
    pub off: [[i16; N]; 2],
    pub alpha: [[f32; N]; 2],
    pub kv: [[f32; N]; 2],
    pub kta: [[f32; N]; 2],
    pub comp: [f32; N],
    pub off_cp: [i16; 2],
    pub alpha_cp: [f32; 2],
    pub kv_cp: [f32; 2],
    pub kta_cp: [f32; 2],
    pub comp_cp: [f32; 2],
    pub tgc: Option<f32>,
    pub pd: PhantomData<C>,
}

pub fn any_i16(name: &str, i: usize) -> i16 {
    sa_bits(name, i, 16) as u16 as i16
}
pub fn any_resolution(name: &str) -> Resolution {
    let r = sa_bits(name, 0, 2);
    match r {
        0 => Resolution::Sixteen,
        1 => Resolution::Seventeen,
        2 => Resolution::Eighteen,
        _ => Resolution::Nineteen,
    }
}

impl<C, const N: usize> Stub<C, N> {
    /// `tgc` chooses whether the temperature gradient coefficient is supported.
    pub fn new(tgc: bool, emis: bool) -> Self {
        let mut s = Stub {
            kvdd: any_i16("kvdd", 0),
            vdd25: any_i16("vdd25", 0),
            res: any_resolution("calres"),
            vdd0: 3.3,
            f: [0.0; 6],
            ct: [0; 8],
            ksto: [0.0; 8],
            acor: [0.0; 8],
            emis: if emis { Some(sa_f32("cal_emissivity", 0)) } else { None },
            off: [[0; N]; 2],
            alpha: [[0.0; N]; 2],
            kv: [[0.0; N]; 2],
            kta: [[0.0; N]; 2],
            comp: [0.0; N],
            off_cp: [any_i16("off_cp", 0), any_i16("off_cp", 1)],
            alpha_cp: [sa_f32("alpha_cp", 0), sa_f32("alpha_cp", 1)],
            kv_cp: [sa_f32("kv_cp", 0), sa_f32("kv_cp", 1)],
            kta_cp: [sa_f32("kta_cp", 0), sa_f32("kta_cp", 1)],
            comp_cp: [sa_f32("comp_cp", 0), sa_f32("comp_cp", 1)],
            tgc: if tgc { Some(sa_f32("tgc", 0)) } else { None },
            pd: PhantomData,
        };
        sa_fillf(s.f.as_mut_ptr(), 6, "cal", 0);
        sa_fill(s.ct.as_mut_ptr() as *mut u8, 16, "ct", 0);
        sa_fillf(s.ksto.as_mut_ptr(), 8, "ksto", 0);
        sa_fillf(s.acor.as_mut_ptr(), 8, "acor", 0);
        let mut p = 0;
        while p < 2 {
            sa_fill(s.off[p].as_mut_ptr() as *mut u8, 2 * N, "off", p * 4096);
            sa_fillf(s.alpha[p].as_mut_ptr(), N, "alpha", p * 4096);
            sa_fillf(s.kv[p].as_mut_ptr(), N, "kv", p * 4096);
            sa_fillf(s.kta[p].as_mut_ptr(), N, "kta", p * 4096);
            p += 1;
        }
        sa_fillf(s.comp.as_mut_ptr(), N, "comp", 0);
        s
    }
}

pub struct Comp<'a> {
    pub it: core::slice::Iter<'a, f32>,
    pub on: bool,
}
impl<'a> Iterator for Comp<'a> {
    type Item = Option<&'a f32>;
    fn next(&mut self) -> Option<Self::Item> {
        match self.it.next() {
            Some(x) => Some(if self.on { Some(x) } else { None }),
            None => None,
        }
    }
}
pub struct NoFlags;
impl common::FlaggedPixels for NoFlags {
    fn any(&self) -> bool {
        false
    }
    type FlaggedIterator = core::iter::Empty<usize>;
    fn iter_flagged(&self) -> Self::FlaggedIterator {
        core::iter::empty()
    }
}

impl<'a, C: MelexisCamera, const N: usize> CalibrationData<'a> for Stub<C, N>
where
    C: 'a,
{
    type Camera = C;
    fn k_v_dd(&self) -> i16 {
        self.kvdd
    }
    fn v_dd_25(&self) -> i16 {
        self.vdd25
    }
    fn resolution(&self) -> Resolution {
        self.res
    }
    fn v_dd_0(&self) -> f32 {
        self.vdd0
    }
    fn k_v_ptat(&self) -> f32 {
        self.f[0]
    }
    fn k_t_ptat(&self) -> f32 {
        self.f[1]
    }
    fn v_ptat_25(&self) -> f32 {
        self.f[2]
    }
    fn alpha_ptat(&self) -> f32 {
        self.f[3]
    }
    fn gain(&self) -> f32 {
        self.f[4]
    }
    fn k_s_ta(&self) -> f32 {
        self.f[5]
    }
    fn corner_temperatures(&self) -> &[i16] {
        &self.ct
    }
    fn k_s_to(&self) -> &[f32] {
        &self.ksto
    }
    fn alpha_correction(&self) -> &[f32] {
        &self.acor
    }
    fn emissivity(&self) -> Option<f32> {
        self.emis
    }
    type OffsetReferenceIterator = core::slice::Iter<'a, i16>;
    fn offset_reference_pixels(&'a self, subpage: Subpage) -> Self::OffsetReferenceIterator {
        self.off[subpage as usize].iter()
    }
    fn offset_reference_cp(&self, subpage: Subpage) -> i16 {
        self.off_cp[subpage as usize]
    }
    type AlphaIterator = core::slice::Iter<'a, f32>;
    fn alpha_pixels(&'a self, subpage: Subpage) -> Self::AlphaIterator {
        self.alpha[subpage as usize].iter()
    }
    fn alpha_cp(&self, subpage: Subpage) -> f32 {
        self.alpha_cp[subpage as usize]
    }
    type KvIterator = core::slice::Iter<'a, f32>;
    fn k_v_pixels(&'a self, subpage: Subpage) -> Self::KvIterator {
        self.kv[subpage as usize].iter()
    }
    fn k_v_cp(&self, subpage: Subpage) -> f32 {
        self.kv_cp[subpage as usize]
    }
    type KtaIterator = core::slice::Iter<'a, f32>;
    fn k_ta_pixels(&'a self, subpage: Subpage) -> Self::KtaIterator {
        self.kta[subpage as usize].iter()
    }
    fn k_ta_cp(&self, subpage: Subpage) -> f32 {
        self.kta_cp[subpage as usize]
    }
    fn temperature_gradient_coefficient(&self) -> Option<f32> {
        self.tgc
    }
    type AccessPatternCompensation = Comp<'a>;
    fn access_pattern_compensation_pixels(&'a self, access_pattern: AccessPattern) -> Comp<'a> {
        Comp { it: self.comp.iter(), on: access_pattern == AccessPattern::Interleave }
    }
    fn access_pattern_compensation_cp(&self, subpage: Subpage, access_pattern: AccessPattern) -> Option<f32> {
        match access_pattern {
            AccessPattern::Chess => None,
            AccessPattern::Interleave => Some(self.comp_cp[subpage as usize]),
        }
    }
    type FailedPixels = NoFlags;
    fn failed_pixels(&'a self) -> NoFlags {
        NoFlags
    }
    type OutlierPixels = NoFlags;
    fn outlier_pixels(&'a self) -> NoFlags {
        NoFlags
    }
}
