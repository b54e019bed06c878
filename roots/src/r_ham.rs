//! Entry points: the MLX90641 EEPROM's error correcting code.
use crate::sa::*;
use mlx9064x::mlx90641::hamming::{add_checksum, validate_checksum};
use mlx9064x::*;

/// Parity of the bits selected by a mask.
fn par(w: u16, mask: u16) -> u16 {
    let mut p = 0;
    let mut i = 0;
    while i < 16 {
        if mask >> i & 1 != 0 {
            p ^= w >> i & 1;
        }
        i += 1;
    }
    p
}
/// The code word of eleven data bits, as tabulated in the datasheet.
pub fn encode(d: u16) -> u16 {
    let bits = |l: &[u16]| {
        let mut m = 0;
        for b in l {
            m |= 1u16 << b;
        }
        m
    };
    let mut w = d;
    w |= par(w, bits(&[0, 1, 3, 4, 6, 8, 10])) << 11;
    w |= par(w, bits(&[0, 2, 3, 5, 6, 9, 10])) << 12;
    w |= par(w, bits(&[1, 2, 3, 7, 8, 9, 10])) << 13;
    w |= par(w, bits(&[4, 5, 6, 7, 8, 9, 10])) << 14;
    w |= par(w, 0x7fff) << 15;
    w
}

/// Encoding.
pub fn r_ham_add() {
    let w = sa_bits("word", 0, 16) as u16;
    if w >> 11 == 0 {
        match add_checksum(w) {
            Ok(x) => sa_check(x == encode(w), "E07 encoding adds the five parity bits and keeps the data", 0),
            Err(_) => sa_check(false, "E07 eleven bit values can be encoded", 0),
        }
    } else {
        match add_checksum(w) {
            Err(LibraryError::Other(_)) => {}
            _ => sa_check(false, "E07 values that already carry parity bits are refused", 0),
        }
    }
    sa_done();
}
/// Decoding: no error, and each single error.
pub fn r_ham_one() {
    let d = sa_bits("data", 0, 11) as u16;
    let w = encode(d);
    match validate_checksum(w) {
        Ok(x) => sa_check(x == d, "E07 intact words decode to their data", 0),
        Err(_) => sa_check(false, "E07 intact words are accepted", 0),
    }
    let mut i = 0;
    while i < 16 {
        match validate_checksum(w ^ 1 << i) {
            Ok(x) => sa_check(x == d, "E07 a single wrong bit is corrected", i),
            Err(_) => sa_check(false, "E07 a single wrong bit is accepted", i),
        }
        i += 1;
    }
    sa_done();
}
/// Decoding: every pair of errors.
pub fn r_ham_two() {
    let d = sa_bits("data", 0, 11) as u16;
    let w = encode(d);
    let mut i = 0;
    while i < 16 {
        let mut j = 0;
        while j < i {
            let bad = w ^ 1 << i ^ 1 << j;
            match validate_checksum(bad) {
                Err(LibraryError::Checksum(x)) => sa_check(x == bad, "E07 the reported word is the one read", i * 16 + j),
                _ => sa_check(false, "E07 two wrong bits are detected", i * 16 + j),
            }
            j += 1;
        }
        i += 1;
    }
    sa_done();
}
/// Decoding: any word at all, as a code word whose five parity bits are altered in some way.
pub fn r_ham_any() {
    let d = sa_bits("data", 0, 11) as u16;
    let mut e = 0u16;
    while e < 32 {
        let w = encode(d) ^ e << 11;
        // the one wrong bit that leaves this trace, if there is one
        let mut fix = 16;
        let mut i = 0;
        while i < 11 {
            if encode(1 << i) >> 11 == e {
                fix = i;
            }
            i += 1;
        }
        let r = validate_checksum(w);
        let n = e as usize;
        if fix < 11 {
            sa_check(r == Ok(d ^ 1 << fix), "E07 a word one bit from a code word decodes to that", n);
        } else if e.count_ones() <= 1 {
            sa_check(r == Ok(d), "E07 a word one bit from a code word decodes to that", n);
        } else {
            sa_check(r == Err(LibraryError::Checksum(w)), "E07 any other word is refused and reported", n);
        }
        e += 1;
    }
    sa_done();
}
