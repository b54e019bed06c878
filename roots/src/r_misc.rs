//! Entry points: ordering of settings and registers, and what errors tell.
use crate::bus::*;
use crate::sa::*;
use core::cmp::Ordering;
use mlx9064x::common::Address;
use mlx9064x::register::*;
use mlx9064x::{Error, LibraryError};

fn ordered<T: Ord + Copy>(vals: &[T], n: usize) {
    let mut i = 0;
    while i < vals.len() {
        let mut j = 0;
        while j < vals.len() {
            let (a, b) = (vals[i], vals[j]);
            let want = if i < j {
                Ordering::Less
            } else if i > j {
                Ordering::Greater
            } else {
                Ordering::Equal
            };
            sa_check(a.cmp(&b) == want && a.partial_cmp(&b) == Some(want), "R06 settings are ordered by their documented numbers", n + i * 8 + j);
            sa_check((a < b) == (i < j) && (a <= b) == (i <= j) && (a > b) == (i > j) && (a >= b) == (i >= j), "R06 comparison operators agree with the order", n + i * 8 + j);
            sa_check((a == b) == (i == j) && (a != b) == (i != j), "R06 values are equal exactly when they are the same", n + i * 8 + j);
            j += 1;
        }
        i += 1;
    }
}
pub fn r_order() {
    use FrameRate as F;
    ordered(&[F::Half, F::One, F::Two, F::Four, F::Eight, F::Sixteen, F::ThirtyTwo, F::SixtyFour], 0);
    use Resolution as R;
    ordered(&[R::Sixteen, R::Seventeen, R::Eighteen, R::Nineteen], 100);
    ordered(&[Subpage::Zero, Subpage::One], 200);
    ordered(&[AccessPattern::Interleave, AccessPattern::Chess], 300);
    sa_done();
}
pub fn r_order_i2c() {
    let d = |n: &str| {
        let low = sa_bits(n, 8, 8) as u8;
        let mut k = 0;
        while k < 3 {
            sa_split(low & 1 << k != 0);
            k += 1;
        }
        I2cRegister::from(&[sa_bits(n, 0, 8) as u8, low][..])
    };
    let (a, b, c) = (d("a"), d("b"), d("c"));
    let ab = a.cmp(&b);
    sa_check(ab == b.cmp(&a).reverse(), "R06 the order of registers is the same from both sides", 0);
    sa_check((ab == Ordering::Equal) == (a == b), "R06 registers are ordered equal exactly when they are equal", 0);
    sa_check(a.partial_cmp(&b) == Some(ab), "R06 the partial order of registers is their order", 0);
    sa_check((a < b) == (ab == Ordering::Less) && (a <= b) == (ab != Ordering::Greater), "R06 comparison operators agree with the order", 900);
    if ab != Ordering::Greater && b.cmp(&c) != Ordering::Greater {
        sa_check(a.cmp(&c) != Ordering::Greater, "R06 the order of registers is transitive", 0);
    }
    sa_done();
}
pub fn r_order_address() {
    let (x, y) = (sa_bits("a", 0, 16) as u16, sa_bits("b", 0, 16) as u16);
    let (a, b) = (Address::from(x), Address::from(y));
    sa_check((a < b) == (x < y) && (a == b) == (x == y) && (a > b) == (x > y), "R06 addresses are ordered as their numbers", 0);
    sa_done();
}

#[cfg(feature = "std")]
impl std::fmt::Display for BusErr {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
#[cfg(feature = "std")]
impl std::error::Error for BusErr {}

#[cfg(feature = "std")]
pub fn r_err_source() {
    use std::error::Error as _;
    let e: [Error<Bus>; 3] = [Error::I2cWriteReadError(BusErr(1)), Error::I2cWriteError(BusErr(2)), Error::LibraryError(LibraryError::Checksum(3))];
    let mut i = 0;
    while i < 3 {
        let p = match &e[i] {
            Error::I2cWriteReadError(x) | Error::I2cWriteError(x) => x as *const BusErr as *const u8,
            Error::LibraryError(x) => x as *const LibraryError as *const u8,
        };
        match e[i].source() {
            Some(s) => sa_check(s as *const dyn std::error::Error as *const u8 == p, "B10 the source of an error is its cause", i),
            None => sa_check(false, "B10 an error has a source", i),
        }
        i += 1;
    }
    sa_done();
}
pub fn r_err_from() {
    let w = sa_bits("word", 0, 16) as u16;
    let e: Error<Bus> = LibraryError::Checksum(w).into();
    sa_check(matches!(e, Error::LibraryError(LibraryError::Checksum(x)) if x == w), "B10 a library error is kept as the cause", 0);
    let m = "message";
    let e: Error<Bus> = LibraryError::InvalidData(m).into();
    sa_check(matches!(e, Error::LibraryError(LibraryError::InvalidData(x)) if x.as_ptr() == m.as_ptr() && x.len() == m.len()), "B10 a library error is kept as the cause", 1);
    let e: Error<Bus> = LibraryError::Other(m).into();
    sa_check(matches!(e, Error::LibraryError(LibraryError::Other(x)) if x.as_ptr() == m.as_ptr() && x.len() == m.len()), "B10 a library error is kept as the cause", 2);
    sa_done();
}
