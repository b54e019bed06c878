//! Witnesses for S04. Without a witness feature every line must be accepted by the type checker;
//! with one, the program it adds must be refused, for the reason given there.
#![allow(dead_code, unused)]
use embedded_hal::blocking::i2c;
use mlx9064x::common::{Address, CalibrationData, FromI2C, MelexisCamera, ToI2C};
use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration};
use mlx9064x::mlx90641::{Mlx90641, Mlx90641Calibration};
use mlx9064x::*;
use std::fmt::{Debug, Display};

/// A bus that can do nothing but transfer: no `Debug`, no `Clone`.
pub struct Bus(u8);
/// An error that can do nothing but be an error.
#[derive(Debug)]
pub struct Fault;
impl i2c::WriteRead for Bus {
    type Error = Fault;
    fn write_read(&mut self, _: u8, _: &[u8], _: &mut [u8]) -> Result<(), Fault> {
        Ok(())
    }
}
impl i2c::Write for Bus {
    type Error = Fault;
    fn write(&mut self, _: u8, _: &[u8]) -> Result<(), Fault> {
        Ok(())
    }
}
/// A bus that is confined to its thread.
pub struct Local(*mut u8);

type D0 = Mlx90640Driver<Bus>;
type D1 = Mlx90641Driver<Bus>;

fn shared<T: Send + Sync + 'static>() {}
fn copied<T: Copy + Debug + PartialEq>() {}
fn cloned<T: Clone + Debug + PartialEq>() {}
fn shown<T: Display + Debug>() {}

/// A driver can be moved to and shared with another thread whenever its bus can.
fn threads() {
    shared::<D0>();
    shared::<D1>();
    shared::<Mlx90640Calibration>();
    shared::<Mlx90641Calibration>();
    shared::<StatusRegister>();
    shared::<ControlRegister>();
    shared::<I2cRegister>();
    shared::<Error<Bus>>();
    shared::<LibraryError>();
}
/// Settings, registers and addresses are plain values.
fn values() {
    copied::<StatusRegister>();
    copied::<ControlRegister>();
    copied::<I2cRegister>();
    copied::<FrameRate>();
    copied::<Resolution>();
    copied::<Subpage>();
    copied::<AccessPattern>();
    copied::<Address>();
    cloned::<Mlx90640Calibration>();
    cloned::<Mlx90641Calibration>();
    cloned::<LibraryError>();
}
/// Errors can be shown even if the bus cannot.
fn errors() {
    shown::<Error<Bus>>();
    shown::<LibraryError>();
}
/// A driver owns its bus and calibration, and needs nothing else of them than their traits.
fn owns<'a, C, B>(bus: B, calibration: C) -> Result<CameraDriver<C, B, 24, 1536>, Error<B>>
where
    C: CalibrationData<'a>,
    B: i2c::WriteRead + i2c::Write,
{
    CameraDriver::new_with_calibration(bus, 0x33, calibration)
}
/// Registers can be read and written without a driver.
fn registers<B: i2c::WriteRead + i2c::Write>(bus: &mut B) -> Result<(), Error<B>> {
    StatusRegister::from_i2c(bus, 0x33)?.to_i2c(bus, 0x33)?;
    ControlRegister::from_i2c(bus, 0x33)?.to_i2c(bus, 0x33)?;
    I2cRegister::from_i2c(bus, 0x33)?.to_i2c(bus, 0x33)
}
/// Settings that are only looked at need no exclusive access.
fn looked_at(d: &D0) -> (f32, Option<f32>, Option<f32>, usize, usize) {
    (d.effective_emissivity(), d.reflected_temperature(), d.ambient_temperature(), d.height(), d.width())
}

/// E0277: only the library's own cameras exist.
#[cfg(feature = "seal")]
mod seal {
    use super::*;
    pub struct Third;
    fn camera<C: MelexisCamera>() {}
    impl MelexisCamera for Third {
        type PixelRangeIterator = <Mlx90640 as MelexisCamera>::PixelRangeIterator;
        type PixelsInSubpageIterator = <Mlx90640 as MelexisCamera>::PixelsInSubpageIterator;
        fn pixel_ranges(s: Subpage, a: AccessPattern) -> Self::PixelRangeIterator {
            Mlx90640::pixel_ranges(s, a)
        }
        fn pixels_in_subpage(s: Subpage, a: AccessPattern) -> Self::PixelsInSubpageIterator {
            Mlx90640::pixels_in_subpage(s, a)
        }
        const T_A_V_BE: Address = Mlx90640::T_A_V_BE;
        const T_A_PTAT: Address = Mlx90640::T_A_PTAT;
        fn compensation_pixel(s: Subpage) -> Address {
            Mlx90640::compensation_pixel(s)
        }
        const GAIN: Address = Mlx90640::GAIN;
        const V_DD_PIXEL: Address = Mlx90640::V_DD_PIXEL;
        fn resolution_correction(a: Resolution, b: Resolution) -> f32 {
            Mlx90640::resolution_correction(a, b)
        }
        const BASIC_TEMPERATURE_RANGE: usize = Mlx90640::BASIC_TEMPERATURE_RANGE;
        const SELF_HEATING: f32 = Mlx90640::SELF_HEATING;
        const HEIGHT: usize = Mlx90640::HEIGHT;
        const WIDTH: usize = Mlx90640::WIDTH;
        const NUM_PIXELS: usize = Mlx90640::NUM_PIXELS;
    }
}
/// E0596: an image cannot be taken through a shared reference.
#[cfg(feature = "shared_image")]
fn shared_image(d: &D0, image: &mut [f32]) {
    let _ = d.generate_image_if_ready(image);
}
/// E0596: a camera setting cannot be changed through a shared reference.
#[cfg(feature = "shared_setting")]
fn shared_setting(d: &D0) {
    let _ = d.set_frame_rate(FrameRate::Two);
}
/// Register words only come from the camera, the defaults and the setters.
#[cfg(feature = "literal_status")]
fn literal_status() -> StatusRegister {
    StatusRegister(0)
}
#[cfg(feature = "literal_control")]
fn literal_control() -> ControlRegister {
    ControlRegister(0)
}
#[cfg(feature = "literal_i2c")]
fn literal_i2c(r: I2cRegister) -> I2cRegister {
    I2cRegister { fast_mode_plus: true, ..r }
}
#[cfg(feature = "literal_address")]
fn literal_address() -> Address {
    Address(0)
}
/// E0382: the bus belongs to the driver once it is given away.
#[cfg(feature = "bus_kept")]
fn bus_kept(mut bus: Bus, calibration: Mlx90640Calibration) {
    let d: Result<D0, _> = CameraDriver::new_with_calibration(bus, 0x33, calibration);
    let _ = StatusRegister::from_i2c(&mut bus, 0x33);
}
/// E0308: a camera's calibration cannot be used for the other camera.
#[cfg(feature = "mixed_camera")]
fn mixed_camera(bus: Bus, calibration: Mlx90641Calibration) {
    let d: Result<D0, _> = D0::new_with_calibration(bus, 0x33, calibration);
}
/// E0308: images are temperatures, not raw bytes.
#[cfg(feature = "wrong_size")]
fn wrong_size(d: &mut D0, image: &mut [u16]) {
    let _ = d.generate_image_if_ready(image);
}
/// E0277: a driver whose bus is confined to its thread is confined too.
#[cfg(feature = "calibration_borrowed")]
fn calibration_borrowed() {
    fn send<T: Send>() {}
    send::<Mlx90640Driver<Local>>();
}
