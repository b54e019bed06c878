//! Transfer functions of compiler intrinsics, math library functions and analysis primitives
//! (`sa_*`, called by the specification crate).
use std::rc::Rc;
use crate::interp::*;
use crate::machine::*;
use crate::merge::*;
use crate::state::*;
use crate::val::*;
use rustc_middle::mir::BinOp;
use rustc_middle::ty::{self, Instance, Ty};

/// Outcomes of one obligation site.
#[derive(Clone, Debug, Default)]
pub struct Obl {
    pub total: u64,
    pub bad: u64,
    pub first: Vec<(i128, String)>,
}

impl<'tcx> Machine<'tcx> {
    fn arg_scalar(&mut self, a: &Arg<'tcx>) -> R<(V, SK)> {
        let sk = self.ty_sk(a.ty)?;
        let c = a.cells.clone();
        Ok((self.cells_scalar(&c, sk)?, sk))
    }
    fn arg_k(&mut self, st: &State, a: &Arg<'tcx>) -> R<i128> {
        let (v, _) = self.arg_scalar(a)?;
        let v = st.resolve(&mut self.vs, v);
        self.vs.konst(v).ok_or_else(|| format!("constant expected, got {}", self.vs.show(v)))
    }
    fn arg_str(&mut self, st: &State, a: &Arg<'tcx>) -> R<String> {
        let p = self.cells_scalar(&a.cells[..8], USZ)?;
        let n = self.cells_scalar(&a.cells[8..16], USZ)?;
        let (p, n) = (self.vs.konst(p).ok_or("str ptr")?, self.vs.konst(n).ok_or("str len")?);
        let c = self.read_cells(st, p as u64, n as u64)?;
        let mut s = vec![];
        for x in c {
            let b = byte_val(&mut self.vs, x);
            s.push(self.vs.konst(b).ok_or("str byte")? as u8);
        }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }
    fn put(&mut self, st: &mut State, dest: Option<(Addr, Ty<'tcx>)>, c: &[Cell]) -> R<()> {
        if let Some((a, _)) = dest {
            self.write_at(st, a, c)?;
        }
        Ok(())
    }
    fn put_v(&mut self, st: &mut State, dest: Option<(Addr, Ty<'tcx>)>, v: V) -> R<()> {
        if let Some((a, t)) = dest {
            let sk = self.ty_sk(t)?;
            let sg = if sk.float { 0 } else { 1 + sk.signed as u8 };
            let c: Vec<Cell> = cells_of(v, sk.size).map(|c| Cell { sg, ..c }).collect();
            self.write_at(st, a, &c)?;
        }
        Ok(())
    }
    fn here(&self) -> String {
        for (f, bb) in self.stack.iter().rev() {
            if f.krate == "roots" {
                return self.tcx.sess.source_map().span_to_diagnostic_string(f.bbs[*bb as usize].span);
            }
        }
        String::new()
    }
    fn obl(&mut self, what: String, idx: i128, ok: bool, detail: String) {
        let span = self.here();
        let o = self.obls.entry((what, span)).or_default();
        o.total += 1;
        if !ok {
            o.bad += 1;
            if o.first.len() < 4 {
                o.first.push((idx, detail));
            }
        }
    }
    /// An obligation that is not settled by the facts of the state alone: consider the cases left
    /// open by the state's conditions one by one (cases the conditions exclude do not count).
    fn by_cases(&mut self, st: &State, holds: &dyn Fn(&mut Self, &State) -> bool) -> bool {
        if self.case_fails > 24 {
            return false;
        }
        let mut budget = 600;
        let ok = self.by_cases_in(st, holds, 10, &mut budget);
        if !ok {
            if std::env::var_os("MLXSA_LONG").is_some() { st.debug_dump(&self.vs); }
            self.case_fails += 1;
        }
        ok
    }
    fn by_cases_in(&mut self, st: &State, holds: &dyn Fn(&mut Self, &State) -> bool, depth: u32, budget: &mut u32) -> bool {
        if holds(self, st) {
            return true;
        }
        if depth == 0 || *budget == 0 {
            return false;
        }
        *budget -= 1;
        // the open condition over the fewest unknowns
        let mut best: Option<Vec<Atom>> = None;
        for c in st.cons.clone().iter() {
            let r = st.reduce_bit(&mut self.vs, *c);
            if r.konst() == Some(false) {
                return true;
            }
            let s = self.vs.bit_support(r);
            if !s.is_empty() && best.as_ref().map_or(true, |b| s.len() < b.len()) {
                best = Some(s);
            }
        }
        let Some(b) = best else { return false };
        let a = self.vs.atom_bit(b[0]);
        for v in [a, a.not()] {
            let mut s = st.clone();
            if s.assume(&mut self.vs, v) && !self.by_cases_in(&s, holds, depth - 1, budget) {
                return false;
            }
        }
        true
    }
    fn mark(&mut self, st: &mut State, k: u64) {
        let h = H::app("log", &[H::int(st.log_id as i128), H::int(k as i128)]);
        st.log_id = h.0 ^ h.1.rotate_left(32);
    }
    fn stub(&mut self, st: State, name: &str, args: &[Arg<'tcx>], dest: Option<(Addr, Ty<'tcx>)>) -> R<Vec<State>> {
        let mut st = st;
        match name {
            "sa_bits" => {
                // (name, idx, nbits) -> u64
                let n = self.arg_str(&st, &args[0])?;
                let i = self.arg_k(&st, &args[1])?;
                let w = self.arg_k(&st, &args[2])? as usize;
                let bs: Vec<Bit> = (0..w).map(|b| self.vs.named_bit(&format!("{n}[{i}].{b}"))).collect();
                let v = self.vs.from_bits(&bs, false);
                self.put_v(&mut st, dest, v)?;
            }
            "sa_bool" => {
                let n = self.arg_str(&st, &args[0])?;
                let i = self.arg_k(&st, &args[1])?;
                let b = self.vs.named_bit(&format!("{n}[{i}]"));
                let v = self.vs.bit_int(b);
                self.put_v(&mut st, dest, v)?;
            }
            "sa_int" => {
                // (name, idx, lo, hi) -> i64
                let n = self.arg_str(&st, &args[0])?;
                let i = self.arg_k(&st, &args[1])?;
                let lo = self.arg_k(&st, &args[2])?;
                let hi = self.arg_k(&st, &args[3])?;
                let v = self.vs.named_int(&format!("{n}[{i}]"), lo, hi);
                self.put_v(&mut st, dest, v)?;
            }
            "sa_f32" => {
                let n = self.arg_str(&st, &args[0])?;
                let i = self.arg_k(&st, &args[1])?;
                let v = self.vs.named_float(&format!("{n}[{i}]"));
                self.put_v(&mut st, dest, v)?;
            }
            "sa_fill" => {
                // (ptr, len, name, base): every byte gets its own eight named bits
                let (p, _) = self.arg_scalar(&args[0])?;
                let p = self.vs.konst(p).ok_or("sa_fill pointer")? as u64;
                let k = self.arg_k(&st, &args[1])? as u64;
                let n = self.arg_str(&st, &args[2])?;
                let base = self.arg_k(&st, &args[3])? as u64;
                for i in 0..k {
                    let bs: Vec<Bit> = (0..8).map(|b| self.vs.named_bit(&format!("{n}[{}].{b}", base + i))).collect();
                    let v = self.vs.from_bits(&bs, false);
                    self.write_cells(&mut st, p + i, &[Cell { val: v, idx: 0, size: 1, sg: 1 }])?;
                }
            }
            "sa_fillf" => {
                // (ptr, len, name, base): named floats
                let (p, _) = self.arg_scalar(&args[0])?;
                let p = self.vs.konst(p).ok_or("sa_fillf pointer")? as u64;
                let k = self.arg_k(&st, &args[1])? as u64;
                let n = self.arg_str(&st, &args[2])?;
                let base = self.arg_k(&st, &args[3])? as u64;
                for i in 0..k {
                    let v = self.vs.named_float(&format!("{n}[{}]", base + i));
                    self.store(&mut st, p + i * 4, v, 4)?;
                }
            }
            "sa_mark" => {
                let k = self.arg_k(&st, &args[0])?;
                self.mark(&mut st, k as u64);
            }
            "sa_split" => {
                let (v, _) = self.arg_scalar(&args[0])?;
                let b = self.vs.to_bit(v);
                let (t, f) = self.fork(st, b);
                let mut out = vec![];
                for (s, k) in [(t, 1i128), (f, 0)] {
                    if let Some(mut s) = s {
                        self.mark(&mut s, 0x5a5a00 + k as u64);
                        let v = self.vs.int(k);
                        self.put_v(&mut s, dest, v)?;
                        out.push(s);
                    }
                }
                return Ok(out);
            }
            "sa_assume" => {
                let (v, _) = self.arg_scalar(&args[0])?;
                let b = self.vs.to_bit(v);
                if !st.assume(&mut self.vs, b) {
                    return Ok(vec![]);
                }
                // an assumption is a restriction of the inputs, not a lost path
            }
            "sa_check" | "sa_cover" => {
                let (v, _) = self.arg_scalar(&args[0])?;
                let m = self.arg_str(&st, &args[1])?;
                let i = self.arg_k(&st, &args[2])?;
                let b = self.vs.to_bit(v);
                let b = st.resolve_bit(&mut self.vs, b);
                if name == "sa_cover" {
                    *self.covers.entry((m, i)).or_insert(false) |= b != FALSE;
                    return Ok(vec![st]);
                }
                let ok = b == TRUE || self.by_cases(&st, &|m, s| s.resolve_bit(&mut m.vs, b) == TRUE);
                let d = if ok { String::new() } else { self.vs.show_bit(b) };
                self.obl(m, i, ok, d);
                if !ok {
                    // report once, then continue as if it held
                    if !st.assume(&mut self.vs, b) {
                        return Ok(vec![]);
                    }
                }
            }
            "sa_feq" => {
                let (x, _) = self.arg_scalar(&args[0])?;
                let (y, _) = self.arg_scalar(&args[1])?;
                let m = self.arg_str(&st, &args[2])?;
                let i = self.arg_k(&st, &args[3])?;
                let x = st.resolve(&mut self.vs, x);
                let y = st.resolve(&mut self.vs, y);
                let ok = self.vs.h(x) == self.vs.h(y)
                    || self.by_cases(&st, &|m, s| {
                        let x = s.resolve(&mut m.vs, x);
                        let y = s.resolve(&mut m.vs, y);
                        m.vs.h(x) == m.vs.h(y)
                    });
                let d = if ok { String::new() } else { {
                    let (dx, dy) = self.vs.diff(x, y);
                    let at = if (dx, dy) == (x, y) { String::new() } else { format!("{} instead of {} ; in all, ", self.vs.show(dx), self.vs.show(dy)) };
                    format!("{at}code computes {} ; specified {}", self.vs.show(x), self.vs.show(y))
                } };
                self.obl(m, i, ok, d);
            }
            "sa_uninit" => {
                // (ptr, len): is every byte never written?
                let (p, _) = self.arg_scalar(&args[0])?;
                let p = self.vs.konst(p).ok_or("pointer")? as u64;
                let k = self.arg_k(&st, &args[1])? as u64;
                for i in 0..k {
                    self.write_cells(&mut st, p + i, &[Cell::default()])?;
                }
            }
            "sa_show" => {
                let m = self.arg_str(&st, &args[0])?;
                let (x, _) = self.arg_scalar(&args[1])?;
                let x = st.resolve(&mut self.vs, x);
                eprintln!("SHOW {m}: {} [{:?}]", self.vs.show(x), self.vs.h(x));
                if std::env::var_os("MLXSA_LONG").is_some() { st.debug_dump(&self.vs); }
            }
            "sa_widen" | "sa_widen_in" => {
                // (pointer, length): the memory that is not part of the loop's state, or all of it
                let only = name == "sa_widen_in";
                let (p, _) = self.arg_scalar(&args[0])?;
                let p = self.vs.konst(p).ok_or("pointer")? as u64;
                let k = self.arg_k(&st, &args[1])? as u64;
                let r = self.widen(&mut st, p, p + k, only)?;
                let v = self.vs.int(r as i128);
                self.put_v(&mut st, dest, v)?;
            }
            "sa_split_in" => {
                // partition by the two-valued scalars in a region
                let (p, _) = self.arg_scalar(&args[0])?;
                let p = self.vs.konst(p).ok_or("pointer")? as u64;
                let k = self.arg_k(&st, &args[1])? as u64;
                let mut out = vec![st];
                for a in p..p + k {
                    let mut next = vec![];
                    for s in out {
                        let c = s.mem.get(a as usize);
                        if c.val == 0 || c.size != 1 || !self.vs.is_int(c.val) || !self.within(&s, c.val, 1) {
                            next.push(s);
                            continue;
                        }
                        let b = self.vs.to_bit(c.val);
                        let (t, f) = self.fork(s, b);
                        if let (Some(_), Some(_)) = (&t, &f) {
                            let marks = [1u64, 0];
                            for (s, m) in [t, f].into_iter().flatten().zip(marks) {
                                let mut s = s;
                                self.mark(&mut s, 0x5a5b00 + m + 2 * (a - p));
                                next.push(s);
                            }
                        } else {
                            next.extend(t.into_iter().chain(f));
                        }
                    }
                    out = next;
                }
                return Ok(out);
            }
            "sa_part" => {
                let v = self.vs.int(st.log_id as i128);
                self.put_v(&mut st, dest, v)?;
            }
            "sa_rejoin" => {
                st.log_id = self.arg_k(&st, &args[0])? as u64;
                st.tag = 0;
                let (p, _) = self.arg_scalar(&args[1])?;
                let p = self.vs.konst(p).ok_or("pointer")? as u64;
                let k = self.arg_k(&st, &args[2])? as u64;
                // contents that will be arbitrary anyway need not be joined
                if let Some(w) = st.wide.clone() {
                    for a in p..p + k {
                        let c = st.mem.get(a as usize);
                        if c == w.mem.get(a as usize) || c.val == 0 || c.size != 1 || !self.vs.is_int(c.val) || self.within(&st, c.val, 7) {
                            continue;
                        }
                        let (lo, hi) = ty_range(1, false);
                        let v = self.vs.named_int(&format!("some {a:#x} {}", w.rounds), lo, hi);
                        self.write_cells(&mut st, a, &[Cell { val: v, idx: 0, size: 1, sg: 1 }])?;
                    }
                }
            }
            "sa_done" => {
                self.done += 1;
            }
            _ => return Err(format!("unknown primitive {name}")),
        }
        Ok(vec![st])
    }
    fn within(&mut self, st: &State, v: V, max: i128) -> bool {
        if !self.vs.is_int(v) {
            return false;
        }
        let (lo, hi) = st.range(&self.vs, v);
        if lo >= 0 && hi <= max {
            return true;
        }
        let b = self.vs.bits(v, 8);
        b.iter().enumerate().all(|(i, b)| max >> i & 1 == 1 || b.konst() == Some(false))
    }
    /// One visit of a loop of the analysed library, entered through a call it makes: whatever
    /// changed since the last visit becomes arbitrary. True if nothing else changed: then the
    /// iteration just analysed stands for all later ones.
    fn widen(&mut self, st: &mut State, skip: u64, skip_end: u64, only: bool) -> R<bool> {
        // memory of the functions called by the library is not part of the loop's state
        let mut fp = STACK_BASE;
        let (mut top, mut lib) = (fp, false);
        for (f, _) in &self.stack {
            if f.krate == "mlx9064x" {
                lib = true;
            } else if lib {
                top = fp;
                lib = false;
            }
            fp += f.frame;
        }
        if only {
            top = skip_end;
        }
        let at: Vec<(usize, u32)> = self.stack.iter().map(|(f, bb)| (Rc::as_ptr(f) as *const u8 as usize, *bb)).collect();
        let w = match st.wide.take() {
            Some(w) if w.at == at => w,
            // the first visit of this loop
            _ => {
                st.wide = Some(Rc::new(Wide { at, mem: st.mem.clone(), any: Default::default(), rounds: 0 }));
                return Ok(false);
            }
        };
        let mut todo = vec![];
        for p in st.mem.diff_pages(&w.mem, top as usize) {
            for i in p * PG..(p + 1) * PG {
                let a = i as u64;
                let inside = a >= skip && a < skip_end;
                if a >= top || (only && a >= STACK_BASE) != inside {
                    continue;
                }
                if let Some(max) = w.any.get(&a) {
                    // arbitrary, but within the bound assumed?
                    let (c, o) = (st.mem.get(i), w.mem.get(i));
                    if *max >= 0 && c != o && (c.val == 0 || c.size != o.size || c.idx != o.idx || !self.within(st, c.val, *max)) {
                        todo.push(a);
                    }
                    continue;
                }
                // constants come into being when they are first used
                if a < STACK_BASE && w.mem.get(i) == Cell::default() {
                    continue;
                }
                if st.mem.get(i) != w.mem.get(i) {
                    todo.push(a);
                }
            }
        }
        if todo.is_empty() {
            st.wide = Some(w);
            return Ok(true);
        }
        if w.rounds >= 12 {
            return Err("no loop invariant found".into());
        }
        let mut any = w.any.clone();
        for a in todo {
            if any.get(&a).map_or(false, |m| *m < 0) {
                continue;
            }
            let c = st.mem.get(a as usize);
            any.insert(a, -1);
            if c.val == 0 {
                continue;
            }
            let b = a - c.idx as u64;
            let cells: Vec<Cell> = (0..c.size as u64).map(|j| st.mem.get((b + j) as usize)).collect();
            let (b, c) = match whole(&cells, 0) {
                Some(c) => (b, c),
                None => (a, Cell { val: 0, idx: 0, size: 1, sg: 1 }),
            };
            any.insert(b, -1);
            let v = if c.val != 0 && !self.vs.is_int(c.val) {
                self.vs.named_float(&format!("any {b:#x} {}", w.rounds))
            } else {
                // a truth value or another setting with few values
                let old = w.mem.get(b as usize);
                let mut few = None;
                if c.size == old.size && old.idx == 0 && old.val != 0 && self.vs.is_int(old.val) {
                    few = (1..=if c.size == 1 { 3 } else { 1 }).find(|k| {
                        let max = (1 << k) - 1;
                        self.within(st, c.val, max) && self.within(st, old.val, max)
                    });
                }
                match few {
                    Some(k) => {
                        any.insert(b, (1 << k) - 1);
                        let bits: Vec<Bit> = (0..k).map(|_| self.vs.fresh_bit("any")).collect();
                        self.vs.from_bits(&bits, false)
                    }
                    None => {
                        let (lo, hi) = ty_range(c.size, c.sg == 2);
                        self.vs.fresh_int("any", lo, hi)
                    }
                }
            };
            if self.trace_forks {
                eprintln!("widen round {} {b:#x} size {} max {:?}", w.rounds, c.size, any.get(&b));
            }
            let n = c.size as u64;
            self.write_cells(st, b, &(0..n).map(|j| Cell { val: v, idx: j as u8, size: n as u8, sg: c.sg }).collect::<Vec<_>>())?;
            let max = any.get(&b).copied().unwrap_or(-1);
            any.extend((b..b + n).map(|i| (i, max)));
        }
        st.wide = Some(Rc::new(Wide { at, mem: st.mem.clone(), any, rounds: w.rounds + 1 }));
        Ok(false)
    }
    fn math(&mut self, name: &str, args: &[Arg<'tcx>]) -> R<Option<V>> {
        let n = name.strip_suffix('f').filter(|n| matches!(*n, "pow" | "exp2" | "sqrt" | "fabs" | "floor" | "ceil" | "trunc" | "round" | "exp" | "log" | "log2" | "sin" | "cos" | "cbrt" | "fmod" | "fma")).unwrap_or(name);
        let n = n.strip_suffix("f32").unwrap_or(n);
        let un: &'static str = match n {
            "exp2" => "exp2",
            "sqrt" => "sqrt",
            "fabs" => "fabs",
            "floor" => "floor",
            "ceil" => "ceil",
            "trunc" => "trunc",
            "round" => "round",
            "round_ties_even" => "round_ties_even",
            "exp" => "exp",
            "log" => "log",
            "log2" => "log2",
            "log10" => "log10",
            "sin" => "sin",
            "cos" => "cos",
            "cbrt" => "cbrt",
            _ => "",
        };
        if un == "cbrt" {
            return Err("cbrt".into());
        }
        if !un.is_empty() {
            let (x, sk) = self.arg_scalar(&args[0])?;
            if !sk.float {
                return Ok(None);
            }
            return Ok(Some(self.vs.fun(un, x)));
        }
        Ok(match n {
            "powf" | "pow" => {
                let (x, sk) = self.arg_scalar(&args[0])?;
                if !sk.float {
                    return Ok(None);
                }
                let (y, _) = self.arg_scalar(&args[1])?;
                Some(self.vs.fbin("powf", x, y))
            }
            "powi" | "__powisf2" => {
                let (x, _) = self.arg_scalar(&args[0])?;
                let (y, _) = self.arg_scalar(&args[1])?;
                match self.vs.konst(y) {
                    Some(k) if k.abs() <= 64 => Some(self.vs.fpowi(x, k as i64)),
                    _ => {
                        let yf = self.vs.int_to_float(y);
                        Some(self.vs.fbin("powf", x, yf))
                    }
                }
            }
            "fma" | "fmuladd" => {
                let (x, _) = self.arg_scalar(&args[0])?;
                let (y, _) = self.arg_scalar(&args[1])?;
                let (z, _) = self.arg_scalar(&args[2])?;
                let p = self.vs.fbin("*", x, y);
                Some(self.vs.fbin("+", p, z))
            }
            "fmod" => {
                let (x, _) = self.arg_scalar(&args[0])?;
                let (y, _) = self.arg_scalar(&args[1])?;
                Some(self.vs.fbin("fmod", x, y))
            }
            _ => None,
        })
    }
    pub fn special(&mut self, st: State, inst: Instance<'tcx>, args: &[Arg<'tcx>], dest: Option<(Addr, Ty<'tcx>)>) -> R<Sp<'tcx>> {
        let did = inst.def_id();
        match inst.def {
            ty::InstanceKind::Item(_) => {
                let kr = self.tcx.crate_name(did.krate);
                let kr = kr.as_str();
                if kr == "roots" {
                    if let Some(n) = self.tcx.opt_item_name(did) {
                        if n.as_str().starts_with("sa_") {
                            return Ok(Sp::Done(self.stub(st, n.as_str(), args, dest)?));
                        }
                    }
                }
                if kr == "libm" {
                    if let Some(n) = self.tcx.opt_item_name(did) {
                        if let Some(v) = self.math(n.as_str(), args)? {
                            let mut st = st;
                            self.put_v(&mut st, dest, v)?;
                            return Ok(Sp::Done(vec![st]));
                        }
                        return Err(format!("math library function {n}"));
                    }
                }
                return Ok(Sp::Normal(st));
            }
            ty::InstanceKind::Intrinsic(_) => {}
            ty::InstanceKind::LlvmIntrinsic(d) => {
                // spin-loop hint
                if self.tcx.opt_item_name(d).map_or(false, |n| n.as_str() == "pause") {
                    return Ok(Sp::Done(vec![st]));
                }
                return Err("llvm intrinsic".into());
            }
            _ => return Ok(Sp::Normal(st)),
        }
        let name = self.tcx.item_name(did);
        let name = name.as_str();
        let mut st = st;
        if let Some(v) = self.math(name, args)? {
            self.put_v(&mut st, dest, v)?;
            return Ok(Sp::Done(vec![st]));
        }
        let targ = inst.args.types().next();
        let tsize = |m: &Self, t: Option<Ty<'tcx>>| -> R<u64> {
            let t = t.ok_or("type argument")?;
            Ok(m.layout(t).size.bytes())
        };
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                self.put_v(&mut st, dest, v)?;
                return Ok(Sp::Done(vec![st]));
            }};
        }
        match name {
            "size_of" => ret!({
                let s = tsize(self, targ)?;
                self.vs.int(s as i128)
            }),
            "align_of" => ret!({
                let l = self.layout(targ.ok_or("type")?);
                self.vs.int(l.align.abi.bytes() as i128)
            }),
            "needs_drop" => ret!({
                let b = targ.ok_or("type")?.needs_drop(self.tcx, self.env);
                self.vs.int(b as i128)
            }),
            "size_of_val" => {
                let t = targ.ok_or("type")?;
                if self.is_sized(t) {
                    let s = tsize(self, targ)?;
                    ret!(self.vs.int(s as i128))
                }
                let es = match t.kind() {
                    ty::Slice(e) => self.layout(*e).size.bytes(),
                    ty::Str => 1,
                    _ => return Err("size_of_val".into()),
                };
                let n = self.cells_scalar(&args[0].cells[8..16].to_vec(), USZ)?;
                ret!(self.vs.mulc(n, es as i128))
            }
            "align_of_val" => {
                let t = targ.ok_or("type")?;
                let a = match t.kind() {
                    ty::Slice(e) => self.layout(*e).align.abi.bytes(),
                    ty::Str => 1,
                    _ if self.is_sized(t) => self.layout(t).align.abi.bytes(),
                    _ => return Err("align_of_val".into()),
                };
                ret!(self.vs.int(a as i128))
            }
            "type_id" => {
                let t = targ.ok_or("type")?;
                let h = H::name(format!("{t:?}").as_bytes());
                let (a, b) = (self.vs.int(h.0 as i128), self.vs.int(h.1 as i128));
                let mut c: Vec<Cell> = cells_of(a, 8).collect();
                c.extend(cells_of(b, 8));
                self.put(&mut st, dest, &c)?;
            }
            "ub_checks" | "overflow_checks" | "contract_checks" | "is_val_statically_known" => ret!(self.vs.int(0)),
            "likely" | "unlikely" | "black_box" | "transmute" | "transmute_unchecked" => {
                let c = args[0].cells.clone();
                self.put(&mut st, dest, &c)?;
            }
            "cold_path" | "forget" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "breakpoint" => {}
            "assume" => {
                let (v, _) = self.arg_scalar(&args[0])?;
                let b = self.vs.to_bit(v);
                if !st.assume(&mut self.vs, b) {
                    return Ok(Sp::Done(vec![]));
                }
            }
            "caller_location" => ret!(self.vs.int(GLOBAL_BASE as i128 + 16)),
            "select_unpredictable" => {
                let (v, _) = self.arg_scalar(&args[0])?;
                let b = self.vs.to_bit(v);
                let c = merge_cells(&mut self.vs, b, &args[1].cells, &args[2].cells);
                self.put(&mut st, dest, &c)?;
            }
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
                let n = tsize(self, targ)?;
                let (p, _) = self.arg_scalar(&args[0])?;
                let a = self.to_addr(&st, p);
                let c = self.read_at(&st, a, n)?;
                self.put(&mut st, dest, &c)?;
            }
            "write_via_move" | "volatile_store" | "unaligned_volatile_store" => {
                let (p, _) = self.arg_scalar(&args[0])?;
                let a = self.to_addr(&st, p);
                let c = args[1].cells.clone();
                self.write_at(&mut st, a, &c)?;
            }
            "copy" | "copy_nonoverlapping" => {
                let es = tsize(self, targ)?;
                let (s, _) = self.arg_scalar(&args[0])?;
                let (d, _) = self.arg_scalar(&args[1])?;
                let (n, _) = self.arg_scalar(&args[2])?;
                self.mem_copy(&mut st, s, d, n, es)?;
            }
            "write_bytes" => {
                let es = tsize(self, targ)?;
                let (d, _) = self.arg_scalar(&args[0])?;
                let (v, _) = self.arg_scalar(&args[1])?;
                let n = self.arg_k(&st, &args[2])? as u64 * es;
                let a = self.to_addr(&st, d);
                let c = vec![Cell { val: v, idx: 0, size: 1, sg: 1 }; n as usize];
                if n > 0 {
                    self.write_at(&mut st, a, &c)?;
                }
            }
            "typed_swap_nonoverlapping" => {
                let n = tsize(self, targ)?;
                let (p, _) = self.arg_scalar(&args[0])?;
                let (q, _) = self.arg_scalar(&args[1])?;
                let (a, b) = (self.to_addr(&st, p), self.to_addr(&st, q));
                let (x, y) = (self.read_at(&st, a, n)?, self.read_at(&st, b, n)?);
                self.write_at(&mut st, a, &y)?;
                self.write_at(&mut st, b, &x)?;
            }
            "ptr_metadata" => {
                let c = args[0].cells.clone();
                if c.len() > 8 {
                    self.put(&mut st, dest, &c[8..])?;
                }
            }
            "aggregate_raw_ptr" => {
                let mut c = args[0].cells.clone();
                c.extend(args[1].cells.iter().copied());
                self.put(&mut st, dest, &c)?;
            }
            "offset" | "arith_offset" => {
                let es = if name == "offset" {
                    let t = args[0].ty.builtin_deref(true).ok_or("offset type")?;
                    self.layout(t).size.bytes()
                } else {
                    tsize(self, targ)?
                };
                let (p, _) = self.arg_scalar(&args[0])?;
                let (n, _) = self.arg_scalar(&args[1])?;
                let n = if self.vs.konst(n).is_some() { n } else { st.resolve(&mut self.vs, n) };
                ret!(self.vs.lincomb(p, 1, n, es as i128, 0))
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let es = tsize(self, targ)?.max(1);
                let (p, _) = self.arg_scalar(&args[0])?;
                let (q, _) = self.arg_scalar(&args[1])?;
                let d = self.vs.sub(p, q);
                ret!(self.vs.floor_div(d, es as i128))
            }
            "slice_get_unchecked" => {
                let t = args[0].ty.builtin_deref(true).ok_or("slice type")?;
                let ty::Slice(e) = t.kind() else { return Err("slice_get_unchecked".into()) };
                let es = self.layout(*e).size.bytes();
                let p = self.cells_scalar(&args[0].cells[..8].to_vec(), USZ)?;
                let (n, _) = self.arg_scalar(&args[1])?;
                ret!(self.vs.lincomb(p, 1, n, es as i128, 0))
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "disjoint_bitor" | "unchecked_shl" | "unchecked_shr" | "unchecked_div" | "unchecked_rem" | "exact_div" => {
                let (x, sk) = self.arg_scalar(&args[0])?;
                let (y, sky) = self.arg_scalar(&args[1])?;
                let op = match name {
                    "wrapping_add" | "unchecked_add" => BinOp::Add,
                    "wrapping_sub" | "unchecked_sub" => BinOp::Sub,
                    "wrapping_mul" | "unchecked_mul" => BinOp::Mul,
                    "disjoint_bitor" => BinOp::BitOr,
                    "unchecked_shl" => BinOp::ShlUnchecked,
                    "unchecked_shr" => BinOp::ShrUnchecked,
                    "unchecked_rem" => BinOp::Rem,
                    _ => BinOp::Div,
                };
                ret!(self.int_bin(&st, op, x, y, sk, sky)?)
            }
            "saturating_add" | "saturating_sub" => {
                let (x, sk) = self.arg_scalar(&args[0])?;
                let (y, _) = self.arg_scalar(&args[1])?;
                let v = if name == "saturating_add" { self.vs.add(x, y) } else { self.vs.sub(x, y) };
                let v = st.resolve(&mut self.vs, v);
                let (tl, th) = ty_range(sk.size, sk.signed);
                let (lo, hi) = st.range(&self.vs, v);
                let (tv, hv) = (self.vs.int(tl), self.vs.int(th));
                let mut r = v;
                if lo < tl {
                    let u = self.vs.lt(v, tv);
                    r = self.vs.phi(u, tv, r);
                }
                if hi > th {
                    let o = self.vs.lt(hv, v);
                    r = self.vs.phi(o, hv, r);
                }
                ret!(r)
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let (x, sk) = self.arg_scalar(&args[0])?;
                let (y, _) = self.arg_scalar(&args[1])?;
                let op = match name {
                    "add_with_overflow" => BinOp::AddWithOverflow,
                    "sub_with_overflow" => BinOp::SubWithOverflow,
                    _ => BinOp::MulWithOverflow,
                };
                self.exact_ovf = false;
                let (v, o) = self.with_overflow(&st, op, x, y, sk);
                let ov = self.vs.bit_int(o);
                let mut c: Vec<Cell> = cells_of(v, sk.size).map(|c| Cell { sg: 1 + sk.signed as u8, ..c }).collect();
                c.push(Cell { val: ov, idx: 0, size: 1, sg: 0 });
                if let Some((_, t)) = dest {
                    let n = self.layout(t).size.bytes() as usize;
                    c.resize(n, Cell::default());
                }
                self.put(&mut st, dest, &c)?;
            }
            "three_way_compare" => {
                let (x, sk) = self.arg_scalar(&args[0])?;
                let (y, sky) = self.arg_scalar(&args[1])?;
                ret!(self.int_bin(&st, BinOp::Cmp, x, y, sk, sky)?)
            }
            "rotate_left" | "rotate_right" => {
                let (x, sk) = self.arg_scalar(&args[0])?;
                let n = sk.size as usize * 8;
                let k = self.arg_k(&st, &args[1])? as usize % n;
                let b = self.vs.bits(x, n);
                let r: Vec<Bit> = (0..n).map(|i| if name == "rotate_left" { b[(i + n - k) % n] } else { b[(i + k) % n] }).collect();
                ret!(self.vs.from_bits(&r, sk.signed))
            }
            "bswap" | "bitreverse" => {
                let (x, sk) = self.arg_scalar(&args[0])?;
                let n = sk.size as usize * 8;
                let b = self.vs.bits(x, n);
                let r: Vec<Bit> = (0..n).map(|i| if name == "bswap" { b[(n / 8 - 1 - i / 8) * 8 + i % 8] } else { b[n - 1 - i] }).collect();
                ret!(self.vs.from_bits(&r, sk.signed))
            }
            "ctpop" => {
                let (x, sk) = self.arg_scalar(&args[0])?;
                let b = self.vs.bits(x, sk.size as usize * 8);
                let mut r = self.vs.int(0);
                for b in b {
                    let i = self.vs.bit_int(b);
                    r = self.vs.add(r, i);
                }
                ret!(r)
            }
            "cttz" | "ctlz" | "cttz_nonzero" | "ctlz_nonzero" => {
                let (x, sk) = self.arg_scalar(&args[0])?;
                let n = sk.size as usize * 8;
                let mut b = self.vs.bits(x, n);
                if name.starts_with("ctlz") {
                    b.reverse();
                }
                let mut r = self.vs.int(n as i128);
                for i in (0..n).rev() {
                    let k = self.vs.int(i as i128);
                    r = self.vs.phi(b[i], k, r);
                }
                ret!(r)
            }
            "discriminant_value" => {
                let t = targ.ok_or("type")?;
                let (p, _) = self.arg_scalar(&args[0])?;
                let a = self.to_addr(&st, p);
                let l = self.layout(t);
                let d = self.discr(&st, a, &l)?;
                let d = if let Some((_, dt)) = dest {
                    let k = self.ty_sk(dt)?;
                    self.vs.wrap(d, k.size, k.signed)
                } else {
                    d
                };
                ret!(d)
            }
            "raw_eq" => {
                let n = tsize(self, targ)?;
                let (p, _) = self.arg_scalar(&args[0])?;
                let (q, _) = self.arg_scalar(&args[1])?;
                let (a, b) = (self.to_addr(&st, p), self.to_addr(&st, q));
                let (x, y) = (self.read_at(&st, a, n)?, self.read_at(&st, b, n)?);
                let mut r = TRUE;
                for (c, d) in x.into_iter().zip(y) {
                    let (c, d) = (byte_val(&mut self.vs, c), byte_val(&mut self.vs, d));
                    let e = self.vs.eq(c, d);
                    r = self.vs.and(r, e);
                }
                ret!(self.vs.bit_int(r))
            }
            "compare_bytes" => {
                let (p, _) = self.arg_scalar(&args[0])?;
                let (q, _) = self.arg_scalar(&args[1])?;
                let n = self.arg_k(&st, &args[2])? as u64;
                let (a, b) = (self.to_addr(&st, p), self.to_addr(&st, q));
                let (x, y) = if n > 0 { (self.read_at(&st, a, n)?, self.read_at(&st, b, n)?) } else { (vec![], vec![]) };
                let mut r = self.vs.int(0);
                for (c, d) in x.into_iter().zip(y).rev() {
                    let (c, d) = (byte_val(&mut self.vs, c), byte_val(&mut self.vs, d));
                    let e = self.vs.eq(c, d);
                    let l = self.vs.lt(c, d);
                    let (m, o) = (self.vs.int(-1), self.vs.int(1));
                    let w = self.vs.phi(l, m, o);
                    r = self.vs.phi(e, r, w);
                }
                ret!(r)
            }
            "vtable_size" | "vtable_align" => {
                let (p, _) = self.arg_scalar(&args[0])?;
                let p = self.vs.konst(p).ok_or("vtable")? as u64;
                let v = self.load(&st, p + if name == "vtable_size" { 8 } else { 16 }, USZ)?;
                ret!(v)
            }
            "const_eval_select" => {
                let g = args[2].ty;
                let i = match *g.kind() {
                    ty::FnDef(d, a) => Instance::try_resolve(self.tcx, self.env, d, a.no_bound_vars().ok_or("bound vars")?)
                        .ok()
                        .flatten()
                        .ok_or("const_eval_select callee")?,
                    _ => return Err("const_eval_select callee".into()),
                };
                let ty::Tuple(ts) = args[0].ty.kind() else { return Err("const_eval_select args".into()) };
                let l = self.layout(args[0].ty);
                let mut v = vec![];
                for (k, t) in ts.iter().enumerate() {
                    let o = l.fields.offset(k).bytes() as usize;
                    let n = self.layout(t).size.bytes() as usize;
                    v.push(Arg { cells: args[0].cells[o..o + n].to_vec(), ty: t });
                }
                return Ok(Sp::Redirect(st, i, v));
            }
            "float_to_int_unchecked" => {
                let (x, _) = self.arg_scalar(&args[0])?;
                let (_, t) = dest.ok_or("dest")?;
                let k = self.ty_sk(t)?;
                ret!(self.vs.float_to_int(x, k.size, k.signed))
            }
            "minimumf32" | "maximumf32" | "minimum_number_nsz_f32" | "maximum_number_nsz_f32" => {
                let (x, _) = self.arg_scalar(&args[0])?;
                let (y, _) = self.arg_scalar(&args[1])?;
                let l = self.vs.fcmp("lt", x, y);
                ret!(if name.starts_with("min") { self.vs.phi(l, x, y) } else { self.vs.phi(l, y, x) })
            }
            "copysignf32" => {
                let (x, _) = self.arg_scalar(&args[0])?;
                let (y, _) = self.arg_scalar(&args[1])?;
                ret!(self.vs.fbin("copysign", x, y))
            }
            _ => {
                let over = self.tcx.intrinsic(did).map(|i| i.must_be_overridden).unwrap_or(true);
                if over {
                    return Err(format!("intrinsic {name}"));
                }
                return Ok(Sp::Redirect(st, Instance::new_raw(did, inst.args), args.to_vec()));
            }
        }
        Ok(Sp::Done(vec![st]))
    }
}
