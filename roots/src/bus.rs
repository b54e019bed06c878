//! A recording I²C bus with unknown contents and (optionally) unknown faults.
//!
//! Memory below 0x8000 (RAM, EEPROM) holds one unknown byte per address and generation, named
//! `mem[..]`; a register read returns a fresh unknown word named after the operation, `reg[op]`.
//! A specification can therefore refer to "the word at RAM address A" or "the value operation k
//! returned" without looking at how the driver obtained or used it. With `fallible` set each
//! operation independently either succeeds or returns an error carrying its ordinal.
use crate::sa::*;
use embedded_hal::blocking::i2c;

pub const MAX_OPS: usize = 900;
/// More register accesses or failed transfers than this by one entry point count as waiting.
const MAX_REGS: usize = 12;
const MAX_FAULTS: usize = 6;
const BOUNDED: &str = "S03 an operation ends after a bounded number of transfers";
pub const STATUS: u16 = 0x8000;
pub const CONTROL: u16 = 0x800D;
pub const I2CCFG: u16 = 0x800F;

#[derive(Clone, Copy)]
pub struct Op {
    pub write: bool,
    pub dev: u8,
    pub wlen: usize,
    pub w: [u8; 4],
    pub rlen: usize,
    pub failed: bool,
}

pub struct Log {
    pub n: usize,
    pub fallible: bool,
    /// Number of status polls answered "not ready" at most.
    pub max_polls: usize,
    /// Memory contents change between generations.
    pub gen: usize,
    pub status_reads: usize,
    pub regs: usize,
    pub faults: usize,
    /// Register accesses of an unrecorded operation.
    pub past_regs: usize,
    /// Beyond `max_polls`, analyse polling by induction.
    pub polling: bool,
    /// Unrecorded operation: the earlier history of the driver.
    pub quiet: bool,
    /// Partition by the subpage a status word names.
    pub by_subpage: bool,
    /// Status reads of an unrecorded operation.
    pub past: usize,
    /// Offset of the unknowns of an unrecorded operation.
    pub round: usize,
    /// The partition to return to before an unrecorded history, if any.
    pub part: Option<u64>,
    /// A write of an unrecorded operation failed.
    pub unwritten: bool,
    /// The control word the camera was last known to hold.
    pub known: u16,
    /// The calibration memory, if its contents matter.
    pub eeprom: *const u8,
    pub ops: [Op; MAX_OPS],
}

impl Log {
    pub fn new() -> Log {
        Log {
            n: 0,
            fallible: false,
            max_polls: 1000,
            gen: 0,
            status_reads: 0,
            regs: 0,
            faults: 0,
            past_regs: 0,
            polling: false,
            quiet: false,
            by_subpage: true,
            past: 0,
            round: 0,
            part: None,
            unwritten: false,
            known: 0,
            eeprom: core::ptr::null(),
            ops: [Op { write: false, dev: 0, wlen: 0, w: [0; 4], rlen: 0, failed: false }; MAX_OPS],
        }
    }
    fn push(&mut self, write: bool, dev: u8, bytes: &[u8], rlen: usize) -> usize {
        let k = self.n;
        if k >= MAX_OPS || self.regs >= MAX_REGS || self.faults >= MAX_FAULTS {
            sa_check(false, BOUNDED, k);
            sa_assume(false);
        }
        sa_mark(k as u64 + 1);
        let mut w = [0u8; 4];
        let mut i = 0;
        while i < bytes.len() && i < 4 {
            w[i] = bytes[i];
            i += 1;
        }
        self.ops[k] = Op { write, dev, wlen: bytes.len(), w, rlen, failed: false };
        self.n = k + 1;
        if self.ops[k].reg() >= 0x8000 {
            self.regs += 1;
        }
        k
    }
}

impl Log {
    /// A transfer of the past: nothing is recorded, nothing is partitioned.
    fn past_read(&mut self, bytes: &[u8], buffer: &mut [u8]) -> Result<(), BusErr> {
        let reg = (bytes[0] as usize) << 8 | bytes[1] as usize;
        if reg < 0x8000 {
            // the last or an early read of a frame
            if reg % 0x100 != 0 && sa_split(sa_bool("past fault", self.round + reg)) {
                sa_fill(buffer.as_mut_ptr(), buffer.len(), "past junk", self.round + reg * 2);
                return Err(BusErr(reg));
            }
            sa_fill(buffer.as_mut_ptr(), buffer.len(), "past mem", self.round + reg * 2);
            return Ok(());
        }
        self.past_access();
        let k = if reg == STATUS as usize { self.past } else { 9 };
        if reg == STATUS as usize {
            self.past += 1;
        }
        if sa_split(sa_bool("past fault", self.round + reg + k)) {
            return Err(BusErr(reg));
        }
        sa_fill(buffer.as_mut_ptr(), buffer.len(), "past reg", self.round + k * 2);
        let v = (sa_bits("past reg", self.round + k * 2, 8) as u16) << 8 | sa_bits("past reg", self.round + k * 2 + 1, 8) as u16;
        if reg == CONTROL as usize {
            self.known = v;
            sa_split(v & 0x1000 != 0);
        } else if k > 0 {
            // the past ended: polling did, too
            sa_assume(v & 8 != 0);
            sa_split(v & 8 != 0);
        } else {
            sa_split(v & 8 != 0);
            sa_split(v & 1 != 0);
        }
        Ok(())
    }
    fn past_access(&mut self) {
        if self.past_regs >= MAX_REGS {
            sa_check(false, BOUNDED, 0);
            sa_assume(false);
        }
        self.past_regs += 1;
    }
    fn past_write(&mut self, bytes: &[u8]) -> Result<(), BusErr> {
        self.past_access();
        let reg = (bytes[0] as usize) << 8 | bytes[1] as usize;
        if sa_split(sa_bool("past write fault", self.round + reg)) {
            self.unwritten = true;
            return Err(BusErr(reg));
        }
        if reg == CONTROL as usize {
            self.known = (bytes[2] as u16) << 8 | bytes[3] as u16;
            sa_split(self.known & 0x1000 != 0);
        }
        Ok(())
    }
}

/// The error a faulted operation returns: its ordinal.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct BusErr(pub usize);

#[derive(Clone)]
pub struct Bus {
    pub log: *mut Log,
}

impl Op {
    pub fn reg(&self) -> u16 {
        (self.w[0] as u16) << 8 | self.w[1] as u16
    }
    pub fn data(&self) -> u16 {
        (self.w[2] as u16) << 8 | self.w[3] as u16
    }
}

/// The word at a memory address.
pub fn mem16(gen: usize, addr: u16) -> u16 {
    let i = gen * 0x10000 + addr as usize * 2;
    (sa_bits("mem", i, 8) as u16) << 8 | sa_bits("mem", i + 1, 8) as u16
}
/// The word a register read returned.
pub fn reg16(op: usize) -> u16 {
    (sa_bits("reg", op * 2, 8) as u16) << 8 | sa_bits("reg", op * 2 + 1, 8) as u16
}

impl i2c::WriteRead for Bus {
    type Error = BusErr;
    fn write_read(&mut self, address: u8, bytes: &[u8], buffer: &mut [u8]) -> Result<(), BusErr> {
        let log = unsafe { &mut *self.log };
        if log.quiet {
            return log.past_read(bytes, buffer);
        }
        if log.polling && log.status_reads >= log.max_polls && bytes[0] == 0x80 && bytes[1] == 0 {
            if sa_widen(self.log as *const u8, core::mem::size_of::<Log>()) {
                sa_cover(true, "B07 polling can go on for any number of polls", 0);
                sa_assume(false);
            }
        }
        let k = log.push(false, address, bytes, buffer.len());
        let reg = log.ops[k].reg();
        if log.fallible && sa_split(sa_bool("fault", k)) {
            log.ops[k].failed = true;
            log.faults += 1;
            // a failed transfer may have scribbled anything into the buffer
            sa_fill(buffer.as_mut_ptr(), buffer.len(), "junk", k * 4096);
            return Err(BusErr(k));
        }
        if reg >= 0x2400 && reg < 0x2740 && !log.eeprom.is_null() {
            let mut i = 0;
            while i < buffer.len() {
                let a = (reg - 0x2400) as usize * 2 + i;
                buffer[i] = if a < 1664 { unsafe { *log.eeprom.add(a) } } else { 0xff };
                i += 1;
            }
            return Ok(());
        }
        if reg < 0x8000 {
            sa_fill(buffer.as_mut_ptr(), buffer.len(), "mem", log.gen * 0x10000 + reg as usize * 2);
            return Ok(());
        }
        sa_fill(buffer.as_mut_ptr(), buffer.len(), "reg", k * 2);
        let v = reg16(k);
        // partition, so that later bus traffic is concrete
        if reg == STATUS {
            log.status_reads += 1;
            if log.status_reads > log.max_polls && !log.polling {
                sa_assume(v & 8 != 0);
            }
            sa_split(v & 8 != 0);
            if log.by_subpage {
                sa_split(v & 1 != 0);
            }
        } else if reg == CONTROL {
            sa_split(v & 0x1000 != 0);
            log.known = v;
        }
        Ok(())
    }
}

impl i2c::Write for Bus {
    type Error = BusErr;
    fn write(&mut self, address: u8, bytes: &[u8]) -> Result<(), BusErr> {
        let log = unsafe { &mut *self.log };
        if log.quiet {
            return log.past_write(bytes);
        }
        let k = log.push(true, address, bytes, 0);
        if log.ops[k].reg() == CONTROL {
            sa_split(log.ops[k].data() & 0x1000 != 0);
        }
        if log.fallible && sa_split(sa_bool("fault", k)) {
            log.ops[k].failed = true;
            log.faults += 1;
            return Err(BusErr(k));
        }
        if log.ops[k].reg() == CONTROL {
            log.known = log.ops[k].data();
        }
        Ok(())
    }
}

/// Every recorded operation went to the given device address; a write carries register + value.
pub fn chk_dev(log: &Log, dev: u8) {
    sa_check(log.n <= MAX_OPS && log.regs <= MAX_REGS, BOUNDED, 0);
    let mut k = 0;
    while k < log.n {
        let o = &log.ops[k];
        sa_check(o.dev == dev, "B03 every transfer addresses the configured device", k);
        sa_check(
            o.wlen == if o.write { 4 } else { 2 },
            "B03 reads send a two byte address, writes an address and one word",
            k,
        );
        k += 1;
    }
}
/// Only the last operation may have failed: nothing follows a bus fault.
pub fn chk_fault_last(log: &Log) {
    let mut k = 0;
    while k + 1 < log.n {
        sa_check(!log.ops[k].failed, "B02 nothing is sent after a failed transfer", k);
        k += 1;
    }
}
