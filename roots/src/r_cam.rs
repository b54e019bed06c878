//! Entry points: camera geometry, memory maps, and reading a frame.
use crate::bus::*;
use crate::r_driver::{pat, sub};
use crate::r_image::{any_dev, chk_err};
use crate::sa::*;
use crate::spec::*;
use mlx9064x::calculations::RamData;
use mlx9064x::common::read_ram;
use mlx9064x::mlx90640::Mlx90640;
use mlx9064x::mlx90641::Mlx90641;
use mlx9064x::*;

/// Which pixels belong to a subpage.
fn members<C: Cam, const N: usize>() {
    let mut got = [[[false; N]; 2]; 2];
    for sp in 0..2 {
        for p in 0..2 {
            let mut it = C::pixels_in_subpage(sub(sp), pat(p)).into_iter();
            for i in 0..N {
                match it.next() {
                    Some(b) => {
                        sa_check(b == C::member(p == 1, sp as usize, i), "C01 a pixel is in a subpage exactly when the access pattern says so", i);
                        got[p as usize][sp as usize][i] = b;
                    }
                    None => sa_check(false, "C01 there is a decision for every pixel", i),
                }
            }
            sa_check(it.next().is_none(), "C01 there are no decisions beyond the last pixel", 0);
            sa_check(it.next().is_none(), "C01 there are no decisions beyond the last pixel", 1);
        }
    }
    for p in 0..2 {
        for i in 0..N {
            sa_check(got[p][0][i] || got[p][1][i], "C01 every pixel is in a subpage", i);
            if N == 768 {
                sa_check(got[p][0][i] != got[p][1][i], "C01 the subpages of the larger camera do not overlap", i);
            }
        }
    }
    sa_done();
}
pub fn r_members_640() {
    members::<Mlx90640, 768>()
}
pub fn r_members_641() {
    members::<Mlx90641, 192>()
}

/// Reading a frame fills the buffer with the right pixels, then the auxiliary words.
fn frame_read<C: Cam, const N: usize, const H: usize, const NB: usize>(fallible: bool) {
    let mut log_ = Log::new();
    let log = &mut log_ as *mut Log;
    let dev = any_dev();
    let sp = sa_split(sa_bool("subpage", 0)) as u16;
    let p = sa_split(sa_bool("pattern", 0)) as u16;
    let mut bus = Bus { log };
    unsafe { (*log).fallible = fallible };
    // room for more than the frame
    let mut buf = [0u8; NB];
    sa_fill(buf.as_mut_ptr(), NB, "stale", 0);
    let r = read_ram::<C, Bus, H>(&mut bus, dev, pat(p), sub(sp), &mut buf);
    let log = unsafe { &*log };
    chk_dev(log, dev);
    chk_err(log, 0, &r);
    let mut k = 0;
    while k < log.n {
        let o = &log.ops[k];
        sa_check(!o.write && o.reg() >= 0x400 && o.reg() as usize + o.rlen / 2 <= 0x800, "C02 reading a frame only reads camera RAM", k);
        k += 1;
    }
    match r {
        Ok(ram) => {
            let want = ram_of::<C>(0, sp as usize);
            sa_check(ram.t_a_v_be == want.vbe, "C03 the auxiliary words come from their addresses", 0);
            sa_check(ram.t_a_ptat == want.ptat, "C03 the auxiliary words come from their addresses", 1);
            sa_check(ram.v_dd_pixel == want.vdd, "C03 the auxiliary words come from their addresses", 2);
            sa_check(ram.gain == want.gain, "C03 the auxiliary words come from their addresses", 3);
            sa_check(ram.compensation_pixel == want.cp, "C03 the compensation pixel is the subpage's own", 0);
            let mut i = 0;
            while i < N {
                if C::member(p == 1, sp as usize, i) {
                    let w = (buf[2 * i] as u16) << 8 | buf[2 * i + 1] as u16;
                    sa_check(w == mem16(0, C::pixel(sp as usize, i)), "C02 each pixel of the subpage lands at its own place in the frame buffer", i);
                }
                i += 1;
            }
        }
        Err(_) => {}
    }
    sa_done();
}
pub fn r_frame_640() {
    frame_read::<Mlx90640, 768, 24, 1536>(false)
}
pub fn r_frame_641() {
    frame_read::<Mlx90641, 192, 12, 384>(false)
}
pub fn r_frame_fault_640() {
    frame_read::<Mlx90640, 768, 24, 1536>(true)
}
pub fn r_frame_fault_641() {
    frame_read::<Mlx90641, 192, 12, 384>(true)
}

/// The auxiliary words alone.
fn aux<C: Cam>() {
    let mut log_ = Log::new();
    let log = &mut log_ as *mut Log;
    let dev = any_dev();
    let sp = sa_split(sa_bool("subpage", 0)) as u16;
    let mut bus = Bus { log };
    unsafe { (*log).fallible = true };
    let r = RamData::from_i2c::<Bus, C>(&mut bus, dev, sub(sp));
    let log = unsafe { &*log };
    chk_dev(log, dev);
    chk_fault_last(log);
    match r {
        Ok(ram) => {
            let want = ram_of::<C>(0, sp as usize);
            sa_check(!log.ops[log.n - 1].failed, "C03 a failed read is an error", 0);
            sa_check(ram.t_a_v_be == want.vbe && ram.t_a_ptat == want.ptat && ram.v_dd_pixel == want.vdd && ram.gain == want.gain, "C03 the auxiliary words come from their addresses", 4);
            sa_check(ram.compensation_pixel == want.cp, "C03 the compensation pixel is the subpage's own", 1);
        }
        Err(BusErr(k)) => sa_check(k == log.n - 1 && log.ops[k].failed, "C03 a failed read is reported with the bus's own error", 0),
    }
    sa_done();
}
pub fn r_aux_640() {
    aux::<Mlx90640>()
}
pub fn r_aux_641() {
    aux::<Mlx90641>()
}

/// Constants of the camera models.
fn consts<C: Cam>(n: usize) {
    sa_check(C::HEIGHT == C::H && C::WIDTH == C::W && C::NUM_PIXELS == n, "C04 image dimensions", 0);
    sa_check(u16::from(C::T_A_V_BE) == C::VBE, "C04 memory map", 0);
    sa_check(u16::from(C::T_A_PTAT) == C::PTAT, "C04 memory map", 1);
    sa_check(u16::from(C::V_DD_PIXEL) == C::VDD, "C04 memory map", 2);
    sa_check(u16::from(C::GAIN) == C::RGAIN, "C04 memory map", 3);
    sa_check(u16::from(C::compensation_pixel(Subpage::Zero)) == C::CP[0], "C04 memory map", 4);
    sa_check(u16::from(C::compensation_pixel(Subpage::One)) == C::CP[1], "C04 memory map", 5);
    sa_check(C::BASIC_TEMPERATURE_RANGE == C::BASIC, "C04 the basic temperature range", 0);
    sa_feq(C::SELF_HEATING, C::HEAT, "C04 the self-heating allowance", 0);
    let rs = [Resolution::Sixteen, Resolution::Seventeen, Resolution::Eighteen, Resolution::Nineteen];
    let pow = [0.125f32, 0.25, 0.5, 1.0, 2.0, 4.0, 8.0];
    for a in 0..4 {
        for b in 0..4 {
            sa_feq(C::resolution_correction(rs[a], rs[b]), pow[3 + a - b], "C04 the resolution correction is a power of two of the difference", 4 * a + b);
        }
    }
    sa_done();
}
pub fn r_consts_640() {
    consts::<Mlx90640>(768)
}
pub fn r_consts_641() {
    consts::<Mlx90641>(192)
}

/// Addresses are plain 16-bit numbers.
pub fn r_address() {
    let w = sa_bits("address", 0, 16) as u16;
    let a = Address::new(w);
    sa_check(u16::from(a) == w && usize::from(a) == w as usize && a == Address::from(w), "C04 an address is its number", 0);
    let v = sa_bits("address", 1, 16) as u16;
    sa_check((Address::new(v) == a) == (v == w), "C04 addresses are equal exactly when their numbers are", 0);
    sa_done();
}

/// The named RAM addresses.
macro_rules! ram {
    ($($n:ident, $t:ty, $l:expr;)*) => { $(
        pub fn $n() {
            type R = $t;
            use core::convert::TryFrom;
            let v = [R::Base, R::AmbientTemperatureVoltageBe, R::CompensationPixelZero, R::Gain, R::AmbientTemperatureVoltage, R::CompensationPixelOne, R::PixelSupplyVoltage, R::End];
            let l: [u16; 8] = $l;
            let w = sa_int("address", 0, 0, 65535) as u16;
            let mut known = false;
            let mut i = 0;
            while i < 8 {
                sa_check(u16::from(v[i]) == l[i] && u16::from(Address::from(v[i])) == l[i], "C04 named RAM addresses", i);
                sa_check(R::try_from(l[i]).ok() == Some(v[i]), "C04 a named address is recognised", i);
                sa_check(R::try_from(Address::from(l[i])).ok() == Some(v[i]), "C04 a named address is recognised", 8 + i);
                sa_check(v[i] - R::Base == l[i] - 0x400 && v[i] + R::Base == l[i] + 0x400, "C04 address arithmetic", i);
                known |= w == l[i];
                i += 1;
            }
            sa_check(R::try_from(w).is_ok() == known, "C04 only named addresses are recognised", 0);
            sa_done();
        }
    )* };
}
ram! {
    r_ram_640, mlx9064x::mlx90640::RamAddress, [0x400, 0x700, 0x708, 0x70A, 0x720, 0x728, 0x72A, 0x73F];
    r_ram_641, mlx9064x::mlx90641::RamAddress, [0x400, 0x580, 0x588, 0x58A, 0x5A0, 0x5A8, 0x5AA, 0x5BF];
}
