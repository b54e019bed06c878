//! The abstract interpreter: transfer functions, calls, forks and joins.
use crate::machine::*;
use crate::merge::*;
use crate::state::*;
use crate::val::*;
use rustc_middle::mir::{BinOp, UnOp};
use rustc_middle::ty::layout::TyAndLayout;
use rustc_middle::ty::{self, Instance, Ty};
use rustc_abi::VariantIdx;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
pub enum Addr {
    C(u64),
    S(V),
}
#[derive(Clone)]
pub struct Arg<'tcx> {
    pub cells: Vec<Cell>,
    pub ty: Ty<'tcx>,
}
type Key = Vec<u32>;

impl<'tcx> Machine<'tcx> {
    // ------------------------------------------------------------------ memory
    #[inline]
    pub fn cell(&self, st: &State, a: u64) -> Cell {
        if a >= GLOBAL_BASE {
            self.globals.get((a - GLOBAL_BASE) as usize)
        } else {
            st.mem.get(a as usize)
        }
    }
    pub fn check_addr(&self, a: u64, n: u64, write: bool) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let ok = if a >= GLOBAL_BASE { !write && a + n <= self.gtop } else { a >= OBS_BASE && a + n < GLOBAL_BASE };
        if ok {
            Ok(())
        } else {
            Err(format!("{} of {n} bytes at {a:#x}", if write { "write" } else { "read" }))
        }
    }
    pub fn read_cells(&self, st: &State, a: u64, n: u64) -> R<Vec<Cell>> {
        self.check_addr(a, n, false)?;
        Ok((0..n).map(|i| self.cell(st, a + i)).collect())
    }
    pub fn write_cells(&mut self, st: &mut State, a: u64, c: &[Cell]) -> R<()> {
        self.check_addr(a, c.len() as u64, true)?;
        for (i, c) in c.iter().enumerate() {
            st.mem.set(a as usize + i, *c);
        }
        // a scalar that was partly overwritten keeps consistent cells: (val, idx) pairs stay valid
        Ok(())
    }
    pub fn adapt(&mut self, v: V, sk: SK, sg: u8) -> V {
        if v == 0 || (!sk.float && sg == 1 + sk.signed as u8) {
            return v;
        }
        if sk.float {
            if self.vs.is_int(v) {
                if let Some(k) = self.vs.konst(v) {
                    return if sk.size == 4 { self.vs.fconst(f32::from_bits(k as u32) as f64) } else { self.vs.fconst(f64::from_bits(k as u64)) };
                }
                let h = H::app("rawfloat", &[self.vs.h(v)]);
                return self.vs.mk_float(h, None, None, FDesc::Raw);
            }
            v
        } else {
            if !self.vs.is_int(v) {
                let b = self.vs.bits(v, sk.size as usize * 8);
                return self.vs.from_bits(&b, sk.signed);
            }
            self.vs.wrap(v, sk.size, sk.signed)
        }
    }
    pub fn cells_scalar(&mut self, c: &[Cell], sk: SK) -> R<V> {
        if c.len() < sk.size as usize {
            return Err(format!("scalar of {} bytes from {} cells", sk.size, c.len()));
        }
        if let Some(x) = whole(c, 0) {
            if x.size == sk.size {
                return Ok(self.adapt(x.val, sk, x.sg));
            }
        }
        let mut bits = vec![];
        let mut i = 0;
        while i < sk.size as usize {
            let x = c[i];
            if x.val == 0 {
                return Err("use of an uninitialised value".into());
            }
            let all = self.vs.bits(x.val, x.size as usize * 8);
            let mut k = x.idx as usize;
            loop {
                bits.extend_from_slice(&all[k * 8..k * 8 + 8]);
                i += 1;
                k += 1;
                if i >= sk.size as usize || k >= x.size as usize || c[i].val != x.val || c[i].idx as usize != k || c[i].size != x.size {
                    break;
                }
            }
        }
        let v = self.vs.from_bits(&bits, sk.signed && !sk.float);
        Ok(self.adapt(v, sk, 0))
    }
    pub fn load(&mut self, st: &State, a: u64, sk: SK) -> R<V> {
        let n = sk.size as u64;
        self.check_addr(a, n, false)?;
        let c0 = self.cell(st, a);
        if c0.idx == 0 && c0.size == sk.size && c0.val != 0 {
            let mut ok = true;
            for i in 1..n {
                let c = self.cell(st, a + i);
                if c.val != c0.val || c.idx as u64 != i {
                    ok = false;
                    break;
                }
            }
            if ok {
                return Ok(self.adapt(c0.val, sk, c0.sg));
            }
        }
        let c: Vec<Cell> = (0..n).map(|i| self.cell(st, a + i)).collect();
        self.cells_scalar(&c, sk)
    }
    pub fn store(&mut self, st: &mut State, a: u64, v: V, size: u8) -> R<()> {
        self.check_addr(a, size as u64, true)?;
        for i in 0..size {
            st.mem.set(a as usize + i as usize, Cell { val: v, idx: i, size, sg: 0 });
        }
        Ok(())
    }
    /// Concrete alternatives of a symbolic address (or any small integer).
    pub fn cases(&mut self, st: &State, v: V, what: &str) -> R<Vec<(Bit, i128)>> {
        let v = st.resolve(&mut self.vs, v);
        let mut out = vec![];
        self.cases_rec(st, v, TRUE, 0, &mut out, what)?;
        Ok(out)
    }
    fn cases_rec(&mut self, st: &State, v: V, g: Bit, d: usize, out: &mut Vec<(Bit, i128)>, what: &str) -> R<()> {
        if let Some(k) = self.vs.konst(v) {
            out.push((g, k));
            return Ok(());
        }
        if out.len() > 4096 || d > 24 {
            return Err(format!("{what}: too many alternatives for {}", self.vs.show(v)));
        }
        let sup = self.vs.support(v);
        if let Some(a) = sup.first().copied() {
            let ab = self.vs.atom_bit(a);
            let rb = st.resolve_bit(&mut self.vs, ab);
            for val in [true, false] {
                if rb.konst() == Some(!val) {
                    continue;
                }
                let lit = if val { ab } else { ab.not() };
                let g2 = self.vs.and(g, lit);
                if g2 == FALSE || st.resolve_bit(&mut self.vs, g2) == FALSE {
                    continue;
                }
                let w = self.vs.subst1(v, a, val);
                if w == v {
                    return Err(format!("{what}: cannot case-split {}", self.vs.show(v)));
                }
                self.cases_rec(st, w, g2, d + 1, out, what)?;
            }
            return Ok(());
        }
        // opaque integer with a small range
        let (lo, hi) = st.range(&self.vs, v);
        if hi.saturating_sub(lo) <= 64 {
            for k in lo..=hi {
                let kv = self.vs.int(k);
                let e = self.vs.eq(v, kv);
                let e = st.resolve_bit(&mut self.vs, e);
                if e == FALSE {
                    continue;
                }
                let g2 = self.vs.and(g, e);
                out.push((g2, k));
            }
            return Ok(());
        }
        Err(format!("{what}: unbounded value {}", self.vs.show(v)))
    }
    pub fn read_at(&mut self, st: &State, a: Addr, n: u64) -> R<Vec<Cell>> {
        match a {
            Addr::C(a) => self.read_cells(st, a, n),
            Addr::S(v) => {
                let cs = self.cases(st, v, "address")?;
                let mut r: Option<Vec<Cell>> = None;
                for (g, k) in cs.into_iter().rev() {
                    let c = self.read_cells(st, k as u64, n)?;
                    r = Some(match r {
                        None => c,
                        Some(o) => merge_cells(&mut self.vs, g, &c, &o),
                    });
                }
                r.ok_or("infeasible address".into())
            }
        }
    }
    pub fn load_at(&mut self, st: &State, a: Addr, sk: SK) -> R<V> {
        match a {
            Addr::C(a) => self.load(st, a, sk),
            _ => {
                let c = self.read_at(st, a, sk.size as u64)?;
                self.cells_scalar(&c, sk)
            }
        }
    }
    pub fn write_at(&mut self, st: &mut State, a: Addr, c: &[Cell]) -> R<()> {
        match a {
            Addr::C(a) => self.write_cells(st, a, c),
            Addr::S(v) => {
                let cs = self.cases(st, v, "address")?;
                if cs.len() == 1 {
                    return self.write_cells(st, cs[0].1 as u64, c);
                }
                for (g, k) in cs {
                    let o = self.read_cells(st, k as u64, c.len() as u64)?;
                    let m = merge_cells(&mut self.vs, g, c, &o);
                    self.write_cells(st, k as u64, &m)?;
                }
                Ok(())
            }
        }
    }
    fn add_addr(&mut self, a: Addr, o: i128) -> Addr {
        match a {
            Addr::C(a) => Addr::C((a as i128 + o) as u64),
            Addr::S(v) => Addr::S(self.vs.addc(v, o)),
        }
    }
    pub fn to_addr(&mut self, st: &State, v: V) -> Addr {
        if let Some(k) = self.vs.konst(v) {
            return Addr::C(k as u64);
        }
        let r = st.resolve(&mut self.vs, v);
        match self.vs.konst(r) {
            Some(k) => Addr::C(k as u64),
            None => Addr::S(r),
        }
    }
    pub fn addr_v(&mut self, a: Addr) -> V {
        match a {
            Addr::C(a) => self.vs.int(a as i128),
            Addr::S(v) => v,
        }
    }
    /// Address (and metadata) of a place in the frame at `fp`.
    pub fn place_addr(&mut self, st: &State, fp: u64, p: &Pl<'tcx>) -> R<(Addr, Option<V>)> {
        let mut a = Addr::C(fp + p.base);
        let mut meta: Option<V> = None;
        for e in &p.pj {
            match e {
                Pj::Off(o) => a = self.add_addr(a, *o as i128),
                Pj::Deref { fat } => {
                    let v = self.load_at(st, a, USZ)?;
                    if *fat {
                        let m = self.add_addr(a, 8);
                        meta = Some(self.load_at(st, m, USZ)?);
                    } else {
                        meta = None
                    }
                    a = self.to_addr(st, v);
                }
                Pj::Idx { local, es } => {
                    let i = self.load(st, fp + local, USZ)?;
                    match (a, self.vs.konst(i)) {
                        (Addr::C(b), Some(k)) => a = Addr::C(b + k as u64 * es),
                        _ => {
                            let b = self.addr_v(a);
                            let s = self.vs.lincomb(b, 1, i, *es as i128, 0);
                            a = self.to_addr(st, s);
                        }
                    }
                    meta = None;
                }
                Pj::FromEnd { off, es } => {
                    let m = meta.ok_or("from-end index without length")?;
                    let b = self.addr_v(a);
                    let s = self.vs.lincomb(b, 1, m, *es as i128, -((off * es) as i128));
                    a = self.to_addr(st, s);
                    meta = None;
                }
                Pj::Sub { from, to, from_end, es, arr } => {
                    a = self.add_addr(a, (from * es) as i128);
                    if *from_end {
                        meta = match arr {
                            Some(_) => None,
                            None => Some(self.vs.addc(meta.ok_or("subslice without length")?, -((from + to) as i128))),
                        };
                    } else {
                        meta = if arr.is_some() { None } else { Some(self.vs.int((to - from) as i128)) };
                    }
                }
            }
        }
        Ok((a, meta))
    }
    pub fn op_cells(&mut self, st: &State, fp: u64, o: &Op<'tcx>) -> R<Vec<Cell>> {
        match o {
            Op::K(c, _, _) => Ok(c.clone()),
            Op::Pl(p) => {
                if p.size == 0 {
                    return Ok(vec![]);
                }
                let (a, _) = self.place_addr(st, fp, p)?;
                self.read_at(st, a, p.size)
            }
        }
    }
    pub fn op_scalar(&mut self, st: &State, fp: u64, o: &Op<'tcx>, sk: SK) -> R<V> {
        match o {
            Op::K(c, _, _) => {
                let c = c.clone();
                self.cells_scalar(&c, sk)
            }
            Op::Pl(p) => {
                if p.pj.is_empty() {
                    return self.load(st, fp + p.base, sk);
                }
                let (a, _) = self.place_addr(st, fp, p)?;
                self.load_at(st, a, sk)
            }
        }
    }

    // ------------------------------------------------------------------ arithmetic
    /// Exact result `v` of an operation, reduced into the type: (value, overflow bit).
    pub fn reduce(&mut self, st: &State, v: V, sk: SK) -> (V, Bit) {
        let (tl, th) = ty_range(sk.size, sk.signed);
        let (lo, hi) = self.vs.range(v);
        if lo >= tl && hi <= th {
            return (v, FALSE);
        }
        let (lo, hi) = st.range(&self.vs, v);
        if lo >= tl && hi <= th {
            return (v, FALSE);
        }
        let rv = st.resolve(&mut self.vs, v);
        let (lo, hi) = st.range(&self.vs, rv);
        if lo >= tl && hi <= th {
            return (rv, FALSE);
        }
        let tv = self.vs.int(tl);
        let hv = self.vs.int(th);
        let under = if lo < tl { self.vs.lt(rv, tv) } else { FALSE };
        let over = if hi > th { self.vs.lt(hv, rv) } else { FALSE };
        let under = st.resolve_bit(&mut self.vs, under);
        let over = st.resolve_bit(&mut self.vs, over);
        let ovf = self.vs.or(under, over);
        if ovf == FALSE {
            return (rv, FALSE);
        }
        let w = self.vs.wrap(rv, sk.size, sk.signed);
        (w, ovf)
    }
    pub fn int_bin(&mut self, st: &State, op: BinOp, x: V, y: V, sk: SK, sky: SK) -> R<V> {
        use BinOp::*;
        let vs = &mut self.vs;
        let kx = vs.konst(x);
        let ky = vs.konst(y);
        Ok(match op {
            Add | AddUnchecked => {
                let v = vs.add(x, y);
                self.reduce(st, v, sk).0
            }
            Sub | SubUnchecked => {
                let v = vs.sub(x, y);
                self.reduce(st, v, sk).0
            }
            Mul | MulUnchecked => {
                let v = vs.mul(x, y);
                self.reduce(st, v, sk).0
            }
            Offset => unreachable!(),
            Eq | Ne | Lt | Le | Gt | Ge if !st.refine.is_empty() && st.decides(vs, op, x, y).is_some() => {
                let k = st.decides(vs, op, x, y).unwrap();
                vs.int(k as i128)
            }
            Eq => {
                let b = vs.eq(x, y);
                vs.bit_int(b)
            }
            Ne => {
                let b = vs.eq(x, y);
                vs.bit_int(b.not())
            }
            Lt => {
                let b = vs.lt(x, y);
                vs.bit_int(b)
            }
            Le => {
                let b = vs.le(x, y);
                vs.bit_int(b)
            }
            Gt => {
                let b = vs.lt(y, x);
                vs.bit_int(b)
            }
            Ge => {
                let b = vs.le(y, x);
                vs.bit_int(b)
            }
            Cmp => {
                let l = vs.lt(x, y);
                let g = vs.lt(y, x);
                let l = st.resolve_bit(vs, l);
                let g = st.resolve_bit(vs, g);
                let (li, gi) = (vs.bit_int(l), vs.bit_int(g));
                let r = vs.sub(gi, li);
                // at most one of the two holds
                vs.mk_int(vs.as_int(r).unwrap().t.to_vec(), vs.as_int(r).unwrap().c, Some((-1, 1)))
            }
            BitAnd | BitOr | BitXor => {
                if let (Some(a), Some(b)) = (kx, ky) {
                    return Ok(vs.int(match op {
                        BitAnd => a & b,
                        BitOr => a | b,
                        _ => a ^ b,
                    }));
                }
                let n = sk.size as usize * 8;
                let (p, q) = (vs.bits(x, n), vs.bits(y, n));
                let mut r = Vec::with_capacity(n);
                for i in 0..n {
                    r.push(match op {
                        BitAnd => vs.and(p[i], q[i]),
                        BitOr => vs.or(p[i], q[i]),
                        _ => vs.xor(p[i], q[i]),
                    });
                }
                let signed = sk.signed && sk.size > 0;
                if n == 8 && r[1..].iter().all(|b| *b == FALSE) {
                    return Ok(vs.bit_int(r[0]));
                }
                vs.from_bits(&r, signed)
            }
            Shl | ShlUnchecked | Shr | ShrUnchecked => {
                let n = sk.size as i128 * 8;
                let left = matches!(op, Shl | ShlUnchecked);
                let y = if matches!(op, ShlUnchecked | ShrUnchecked) {
                    y
                } else {
                    let ry = st.range(vs, y);
                    if ry.0 >= 0 && ry.1 < n {
                        y
                    } else {
                        let b = vs.bits(y, n.trailing_zeros() as usize);
                        vs.from_bits(&b, false)
                    }
                };
                let _ = sky;
                if let Some(k) = vs.konst(y) {
                    return if left {
                        let v = vs.mulc(x, 1i128 << k.clamp(0, 100));
                        Ok(self.reduce(st, v, sk).0)
                    } else {
                        Ok(vs.floor_div(x, 1i128 << k.clamp(0, 100)))
                    };
                }
                if left {
                    let p = vs.pow2(y);
                    let v = vs.mul(x, p);
                    self.reduce(st, v, sk).0
                } else {
                    let cs = self.cases(st, y, "shift amount")?;
                    let mut r: Option<V> = None;
                    for (g, k) in cs.into_iter().rev() {
                        let v = self.vs.floor_div(x, 1i128 << k.clamp(0, 100));
                        r = Some(match r {
                            None => v,
                            Some(o) => self.vs.phi(g, v, o),
                        });
                    }
                    r.ok_or("shift")?
                }
            }
            Div | Rem => {
                if let (Some(a), Some(b)) = (kx, ky) {
                    if b == 0 {
                        return Err("division by zero".into());
                    }
                    return Ok(vs.int(if op == Div { a / b } else { a % b }));
                }
                let cs = if ky.is_some() { vec![(TRUE, ky.unwrap())] } else { self.cases(st, y, "divisor")? };
                let mut r: Option<V> = None;
                for (g, k) in cs.into_iter().rev() {
                    if k == 0 {
                        continue;
                    }
                    let v = self.div_const(st, op == Div, x, k);
                    r = Some(match r {
                        None => v,
                        Some(o) => self.vs.phi(g, v, o),
                    });
                }
                let v = r.ok_or("division by zero")?;
                self.reduce(st, v, sk).0
            }
            _ => return Err(format!("integer operation {op:?}")),
        })
    }
    fn div_const(&mut self, st: &State, div: bool, x: V, k: i128) -> V {
        let (lo, _) = st.range(&self.vs, x);
        let ak = k.abs();
        let vs = &mut self.vs;
        let q = if lo >= 0 {
            vs.floor_div(x, ak)
        } else {
            let neg = vs.is_neg(x);
            let p = vs.floor_div(x, ak);
            let m = vs.mulc(x, -1);
            let m = vs.floor_div(m, ak);
            let m = vs.mulc(m, -1);
            vs.phi(neg, m, p)
        };
        if div {
            if k < 0 {
                vs.mulc(q, -1)
            } else {
                q
            }
        } else if lo >= 0 {
            vs.floor_rem(x, ak)
        } else {
            vs.lincomb(x, 1, q, -ak, 0)
        }
    }
    pub fn bin(&mut self, st: &State, op: BinOp, x: V, y: V, sk: SK, sky: SK, es: u64) -> R<V> {
        use BinOp::*;
        if sk.float {
            let vs = &mut self.vs;
            return Ok(match op {
                Add => vs.fbin("+", x, y),
                Sub => vs.fbin("-", x, y),
                Mul => vs.fbin("*", x, y),
                Div => vs.fbin("/", x, y),
                Rem => vs.fbin("fmod", x, y),
                Eq => {
                    let b = vs.fcmp("eq", x, y);
                    vs.bit_int(b)
                }
                Ne => {
                    let b = vs.fcmp("eq", x, y);
                    vs.bit_int(b.not())
                }
                Lt => {
                    let b = vs.fcmp("lt", x, y);
                    vs.bit_int(b)
                }
                Le => {
                    let b = vs.fcmp("le", x, y);
                    vs.bit_int(b)
                }
                Gt => {
                    let b = vs.fcmp("lt", y, x);
                    vs.bit_int(b)
                }
                Ge => {
                    let b = vs.fcmp("le", y, x);
                    vs.bit_int(b)
                }
                _ => return Err(format!("float operation {op:?}")),
            });
        }
        if let Offset = op {
            return Ok(self.vs.lincomb(x, 1, y, es as i128, 0));
        }
        self.int_bin(st, op, x, y, sk, sky)
    }
    pub fn with_overflow(&mut self, st: &State, op: BinOp, x: V, y: V, sk: SK) -> (V, Bit) {
        use BinOp::*;
        let v = match op {
            AddWithOverflow => self.vs.add(x, y),
            SubWithOverflow => self.vs.sub(x, y),
            _ => {
                // products of choices: resolve first, it may become linear
                self.vs.mul(x, y)
            }
        };
        let (w, o) = self.reduce(st, v, sk);
        if self.exact_ovf && o != TRUE {
            // asserted not to overflow right after: the exact value is the only one that survives
            return (if o == FALSE { w } else { v }, o);
        }
        if o == FALSE {
            return (w, o);
        }
        // in the non-overflowing case the exact value; the assertion on `o` follows
        if o == TRUE {
            return (w, o);
        }
        let r = self.vs.phi(o, w, v);
        (r, o)
    }

    // ------------------------------------------------------------------ enums
    pub fn discr(&mut self, st: &State, a: Addr, l: &TyAndLayout<'tcx>) -> R<V> {
        match self.tag_info(l)? {
            TagInfo::None(d) => Ok(self.vs.int(d as i128)),
            TagInfo::Direct { off, sk } => {
                let p = self.add_addr(a, off as i128);
                self.load_at(st, p, sk)
            }
            TagInfo::Niche { off, sk, untagged, start, first, count } => {
                let p = self.add_addr(a, off as i128);
                let t = self.load_at(st, p, sk)?;
                let m = if sk.size >= 16 { u128::MAX } else { (1u128 << (sk.size * 8)) - 1 };
                let mut r = self.vs.int(untagged as i128);
                for i in 0..count {
                    let n = start.wrapping_add(i) & m;
                    let nv = self.vs.int(n as i128);
                    let e = self.vs.eq(t, nv);
                    let dv = self.vs.int((first + i) as i128);
                    r = self.vs.phi(e, dv, r);
                }
                Ok(r)
            }
        }
    }
    pub fn set_discr(&mut self, st: &mut State, a: Addr, l: &TyAndLayout<'tcx>, vi: VariantIdx) -> R<()> {
        match self.tag_info(l)? {
            TagInfo::None(_) => Ok(()),
            TagInfo::Direct { off, sk } => {
                let d = l.ty.discriminant_for_variant(self.tcx, vi).map(|d| d.val).unwrap_or(vi.as_u32() as u128);
                let n = sk.size as u32 * 8;
                let d = if sk.signed { ((d << (128 - n)) as i128) >> (128 - n) } else { (d & (u128::MAX >> (128 - n))) as i128 };
                let v = self.vs.int(d);
                let p = self.add_addr(a, off as i128);
                let c: Vec<Cell> = cells_of(v, sk.size).collect();
                self.write_at(st, p, &c)
            }
            TagInfo::Niche { off, sk, untagged, start, first, .. } => {
                if vi.as_u32() as u128 == untagged {
                    return Ok(());
                }
                let m = if sk.size >= 16 { u128::MAX } else { (1u128 << (sk.size * 8)) - 1 };
                let n = start.wrapping_add(vi.as_u32() as u128 - first) & m;
                let v = self.vs.int(n as i128);
                let p = self.add_addr(a, off as i128);
                let c: Vec<Cell> = cells_of(v, sk.size).collect();
                self.write_at(st, p, &c)
            }
        }
    }

    // ------------------------------------------------------------------ statements
    fn assign(&mut self, st: &mut State, fp: u64, pl: &Pl<'tcx>, rv: &Rv<'tcx>, sz: u64) -> R<()> {
        let dst = if pl.pj.is_empty() { Addr::C(fp + pl.base) } else { self.place_addr(st, fp, pl)?.0 };
        let dsk = pl.sk;
        let scalar = |m: &mut Self, st: &mut State, v: V| -> R<()> {
            let sg = match dsk {
                Some(k) if !k.float => 1 + k.signed as u8,
                _ => 0,
            };
            let c: Vec<Cell> = cells_of(v, sz as u8).map(|c| Cell { sg, ..c }).collect();
            m.write_at(st, dst, &c)
        };
        match rv {
            Rv::Use(o) => {
                if sz == 0 {
                    return Ok(());
                }
                let c = self.op_cells(st, fp, o)?;
                self.write_at(st, dst, &c)
            }
            Rv::Repeat(o, n) => {
                if sz == 0 {
                    return Ok(());
                }
                let c = self.op_cells(st, fp, o)?;
                let mut all = Vec::with_capacity(c.len() * *n as usize);
                for _ in 0..*n {
                    all.extend_from_slice(&c);
                }
                self.write_at(st, dst, &all)
            }
            Rv::Addr(p) => {
                let (a, m) = self.place_addr(st, fp, p)?;
                let v = self.addr_v(a);
                let mut c: Vec<Cell> = cells_of(v, 8).collect();
                if sz == 16 {
                    let m = m.ok_or("fat reference without metadata")?;
                    c.extend(usize_cells(m));
                }
                self.write_at(st, dst, &c)
            }
            Rv::Bin(op, x, y, kx, ky, es) => {
                let a = self.op_scalar(st, fp, x, *kx)?;
                let b = self.op_scalar(st, fp, y, *ky)?;
                match op {
                    BinOp::AddWithOverflow | BinOp::SubWithOverflow | BinOp::MulWithOverflow => {
                        let (v, o) = self.with_overflow(st, *op, a, b, *kx);
                        let ov = self.vs.bit_int(o);
                        let sg = 1 + kx.signed as u8;
                        let mut c: Vec<Cell> = cells_of(v, kx.size).map(|c| Cell { sg, ..c }).collect();
                        c.push(Cell { val: ov, idx: 0, size: 1, sg: 0 });
                        self.write_at(st, dst, &c)
                    }
                    _ => {
                        let v = self.bin(st, *op, a, b, *kx, *ky, *es)?;
                        scalar(self, st, v)
                    }
                }
            }
            Rv::FatCmp(op, x, y) => {
                let (a, b) = (self.op_cells(st, fp, x)?, self.op_cells(st, fp, y)?);
                let a0 = self.cells_scalar(&a[..8], USZ)?;
                let b0 = self.cells_scalar(&b[..8], USZ)?;
                let a1 = self.cells_scalar(&a[8..], USZ)?;
                let b1 = self.cells_scalar(&b[8..], USZ)?;
                let (p, q) = (self.vs.eq(a0, b0), self.vs.eq(a1, b1));
                let e = self.vs.and(p, q);
                let r = match op {
                    BinOp::Eq => e,
                    BinOp::Ne => e.not(),
                    _ => return Err("fat pointer comparison".into()),
                };
                let v = self.vs.bit_int(r);
                scalar(self, st, v)
            }
            Rv::Un(op, x, k) => {
                let a = self.op_scalar(st, fp, x, *k)?;
                let v = match op {
                    UnOp::Not => {
                        if matches!(self.op_ty(x).kind(), ty::Bool) {
                            let b = self.vs.to_bit(a);
                            self.vs.bit_int(b.not())
                        } else if k.signed {
                            let m = self.vs.mulc(a, -1);
                            self.vs.addc(m, -1)
                        } else {
                            let m = self.vs.mulc(a, -1);
                            self.vs.addc(m, ty_range(k.size, false).1)
                        }
                    }
                    UnOp::Neg => {
                        if k.float {
                            self.vs.fun("neg", a)
                        } else {
                            let m = self.vs.mulc(a, -1);
                            self.reduce(st, m, *k).0
                        }
                    }
                    _ => return Err("unary operation".into()),
                };
                scalar(self, st, v)
            }
            Rv::Meta(x) => {
                let c = self.op_cells(st, fp, x)?;
                if sz == 0 {
                    return Ok(());
                }
                if c.len() != 16 {
                    return Err("pointer metadata".into());
                }
                self.write_at(st, dst, &c[8..])
            }
            Rv::Cast(k, x, size) => match k {
                Cst::Int { from, to } => {
                    let a = self.op_scalar(st, fp, x, *from)?;
                    let (lo, hi) = st.range(&self.vs, a);
                    let (tl, th) = ty_range(to.size, to.signed);
                    let v = if lo >= tl && hi <= th { a } else { self.vs.wrap(a, to.size, to.signed) };
                    scalar(self, st, v)
                }
                Cst::IntToFloat { from } => {
                    let a = self.op_scalar(st, fp, x, *from)?;
                    let v = self.vs.int_to_float(a);
                    scalar(self, st, v)
                }
                Cst::FloatToInt { from, to } => {
                    let a = self.op_scalar(st, fp, x, *from)?;
                    let v = self.vs.float_to_int(a, to.size, to.signed);
                    scalar(self, st, v)
                }
                Cst::FloatToFloat => {
                    let from = self.ty_sk(self.op_ty(x))?;
                    let a = self.op_scalar(st, fp, x, from)?;
                    scalar(self, st, a)
                }
                Cst::Bits => {
                    let c = self.op_cells(st, fp, x)?;
                    self.write_at(st, dst, &c)
                }
                Cst::Unsize(m) => {
                    let mut c = self.op_cells(st, fp, x)?;
                    c.truncate(8);
                    c.extend(usize_cells(*m));
                    self.write_at(st, dst, &c)
                }
                Cst::Truncate(n) => {
                    let c = self.op_cells(st, fp, x)?;
                    self.write_at(st, dst, &c[..*n as usize])
                }
                Cst::Const(v) => {
                    let _ = size;
                    scalar(self, st, *v)
                }
            },
            Rv::Discr(p, l, k) => {
                let (a, _) = self.place_addr(st, fp, p)?;
                let d = self.discr(st, a, l)?;
                let d = self.vs.wrap(d, k.size, k.signed);
                scalar(self, st, d)
            }
            Rv::Agg(v, en) => {
                let mut parts = vec![];
                for (o, x) in v {
                    parts.push((*o, self.op_cells(st, fp, x)?));
                }
                // a fresh value: padding and inactive variants are uninitialised
                let mut all = vec![Cell::default(); sz as usize];
                for (o, c) in parts {
                    all[o as usize..o as usize + c.len()].copy_from_slice(&c);
                }
                self.write_at(st, dst, &all)?;
                if let Some((l, vi)) = en {
                    self.set_discr(st, dst, l, *vi)?;
                }
                Ok(())
            }
            Rv::Bad(s) => Err(s.clone()),
        }
    }
    fn exec_stmt(&mut self, st: &mut State, fp: u64, s: &St<'tcx>) -> R<bool> {
        match s {
            St::Assign(p, r, sz) => self.assign(st, fp, p, r, *sz)?,
            St::SetDiscr(p, l, v) => {
                let (a, _) = self.place_addr(st, fp, p)?;
                self.set_discr(st, a, l, *v)?
            }
            St::Dead(o, n) => st.mem.clear((fp + o) as usize, (fp + o + n) as usize),
            St::Assume(o) => {
                let v = self.op_scalar(st, fp, o, U8K)?;
                let b = self.vs.to_bit(v);
                return Ok(st.assume(&mut self.vs, b));
            }
            St::CopyNon(a, b, n, es) => {
                let a = self.op_scalar(st, fp, a, USZ)?;
                let b = self.op_scalar(st, fp, b, USZ)?;
                let n = self.op_scalar(st, fp, n, USZ)?;
                self.mem_copy(st, a, b, n, *es)?;
            }
        }
        Ok(true)
    }
    pub fn mem_copy(&mut self, st: &mut State, src: V, dst: V, n: V, es: u64) -> R<()> {
        let n = st.resolve(&mut self.vs, n);
        let (s, d) = (self.to_addr(st, src), self.to_addr(st, dst));
        let Some(k) = self.vs.konst(n) else {
            // symbolic count with a known bound: element i is copied when i < n
            let (_, hi) = st.range(&self.vs, n);
            if hi < 0 || hi.saturating_mul(es as i128) > 1 << 14 {
                return Err(format!("copy of symbolic length {}", self.vs.show(n)));
            }
            let all = self.read_at(st, s, hi as u64 * es)?;
            for i in 0..hi as u64 {
                let iv = self.vs.int(i as i128);
                let g = self.vs.lt(iv, n);
                let g = st.resolve_bit(&mut self.vs, g);
                if g == FALSE {
                    continue;
                }
                let a = self.add_addr(d, (i * es) as i128);
                let new = &all[(i * es) as usize..((i + 1) * es) as usize];
                let m = if g == TRUE {
                    new.to_vec()
                } else {
                    let o = self.read_at(st, a, es)?;
                    merge_cells(&mut self.vs, g, new, &o)
                };
                self.write_at(st, a, &m)?;
            }
            return Ok(());
        };
        if k == 0 || es == 0 {
            return Ok(());
        }
        let c = self.read_at(st, s, k as u64 * es)?;
        self.write_at(st, d, &c)
    }

    // ------------------------------------------------------------------ forks
    /// Split on a bit. Infeasible sides are dropped; a decided bit does not fork.
    pub fn fork(&mut self, st: State, b: Bit) -> (Option<State>, Option<State>) {
        let b = st.resolve_bit(&mut self.vs, b);
        match b.konst() {
            Some(true) => return (Some(st), None),
            Some(false) => return (None, Some(st)),
            None => {}
        }
        let mut t = st.clone();
        let mut f = st;
        let ot = t.assume(&mut self.vs, b);
        let of = f.assume(&mut self.vs, b.not());
        match (ot, of) {
            (true, true) => {
                self.fork_id += 1;
                self.stats.forks += 1;
                if self.trace_forks {
                    let (f, bb) = self.stack.last().unwrap();
                    eprintln!("fork {} bb{} {}", f.name, bb, self.vs.show_bit(b));
                }
                let depth = t.hist.as_ref().map(|h| h.depth).unwrap_or(0) + 1;
                let mk = |arm| Rc::new(Hist { parent: f.hist.clone(), fork: self.fork_id, cond: b, arm, exact: f.full, depth });
                let (ht, hf) = (mk(true), mk(false));
                t.hist = Some(ht);
                f.hist = Some(hf);
                t.full = true;
                f.full = true;
                (Some(t), Some(f))
            }
            (true, false) => (Some(t), None),
            (false, true) => (None, Some(f)),
            (false, false) => (None, None),
        }
    }
    fn record_panic(&mut self, what: String, span: rustc_span::Span) {
        let mut at = String::new();
        let mut stack = vec![];
        for (f, _) in self.stack.iter() {
            stack.push(f.name.clone());
            if f.krate == "mlx9064x" {
                at = f.name.clone();
            }
        }
        let loc = self.tcx.sess.source_map().span_to_diagnostic_string(span);
        // innermost library span
        let mut lspan = loc;
        for (f, bb) in self.stack.iter().rev() {
            if f.krate == "mlx9064x" {
                lspan = self.tcx.sess.source_map().span_to_diagnostic_string(f.bbs[*bb as usize].span);
                break;
            }
        }
        let r = PanicRec { what, at, stack, span: lspan };
        *self.panics.entry(r).or_insert(0) += 1;
    }
    fn switch(&mut self, st: State, f: &Func<'tcx>, v: V, targets: &[(i128, u32)], other: u32, span: rustc_span::Span) -> R<Vec<(State, u32)>> {
        let mut st = st;
        let mut out = vec![];
        let mut rest: Option<State> = None;
        let v = if self.vs.konst(v).is_some() { v } else { st.resolve(&mut self.vs, v) };
        if let Some(k) = self.vs.konst(v) {
            let t = targets.iter().find(|t| t.0 == k).map(|t| t.1).unwrap_or(other);
            return self.goto(st, f, t, span).map(|o| o.into_iter().collect());
        }
        if self.trace_forks {
            eprintln!("undecided {} {}", f.name, self.vs.show(v));
        }
        // arms that can only end in a panic are recorded and excluded without forking
        for (k, t) in targets.iter() {
            if f.diverges[*t as usize] {
                let kv = self.vs.int(*k);
                let e = self.vs.eq(v, kv);
                let e = st.resolve_bit(&mut self.vs, e);
                if e == FALSE {
                    continue;
                }
                let mut p = st.clone();
                if p.assume(&mut self.vs, e) {
                    self.diverge(&p, f, *t)?;
                }
                if !st.assume(&mut self.vs, e.not()) {
                    return Ok(out);
                }
            }
        }
        if f.diverges[other as usize] {
            // the value must be one of the listed cases
            let mut any = FALSE;
            for (k, _) in targets.iter() {
                let kv = self.vs.int(*k);
                let e = self.vs.eq(v, kv);
                any = self.vs.or(any, e);
            }
            let any = st.resolve_bit(&mut self.vs, any);
            if any != TRUE {
                let mut p = st.clone();
                if p.assume(&mut self.vs, any.not()) {
                    self.diverge(&p, f, other)?;
                }
                if !st.assume(&mut self.vs, any) {
                    return Ok(out);
                }
            }
        }
        let live: Vec<(i128, u32)> = targets.iter().copied().filter(|t| !f.diverges[t.1 as usize]).collect();
        // few undecided bits: split on them directly (keeps conditions simple)
        let v = st.resolve(&mut self.vs, v);
        if let Some(n) = self.vs.as_int(v).cloned() {
            if let Some(bs) = self.vs.bitlike(&n) {
                let mut und: Vec<Bit> = bs.iter().rev().filter(|b| b.konst().is_none()).map(|b| b.pos()).collect();
                und.dedup();
                und.sort();
                und.dedup();
                if und.len() <= 5 {
                    let mut work = vec![(st, 0)];
                    while let Some((s, d)) = work.pop() {
                        let r = s.resolve(&mut self.vs, v);
                        if let Some(k) = self.vs.konst(r) {
                            let t = live.iter().find(|t| t.0 == k).map(|t| t.1).unwrap_or(other);
                            if !f.diverges[t as usize] {
                                out.push((s, t));
                            }
                            continue;
                        }
                        let n = self.vs.as_int(r).cloned().ok_or("switch value")?;
                        let bs = self.vs.bitlike(&n);
                        let Some(b) = bs.and_then(|bs| bs.iter().rev().find(|b| b.konst().is_none()).copied()) else {
                            return Err(format!("undecided switch on {}", self.vs.show(r)));
                        };
                        if d > 16 {
                            return Err(format!("undecided switch on {}", self.vs.show(r)));
                        }
                        let (t, e) = self.fork(s, b);
                        // depth first, zero bits last: keep the order of discovery deterministic
                        work.extend(e.map(|s| (s, d + 1)));
                        work.extend(t.map(|s| (s, d + 1)));
                    }
                    return Ok(out);
                }
            }
        }
        rest = rest.or(Some(st));
        for (i, (k, t)) in live.iter().enumerate() {
            let Some(s) = rest.take() else { break };
            let kv = self.vs.int(*k);
            let e = self.vs.eq(v, kv);
            let last = i + 1 == live.len() && f.diverges[other as usize];
            if last {
                let mut s = s;
                if s.assume(&mut self.vs, e) {
                    out.push((s, *t));
                }
                break;
            }
            let (a, b) = self.fork(s, e);
            if let Some(a) = a {
                out.push((a, *t));
            }
            rest = b;
        }
        if let Some(s) = rest {
            if !f.diverges[other as usize] {
                out.push((s, other));
            }
        }
        Ok(out)
    }
    /// Control reaches a block from which only a panic (or unreachable code) follows.
    fn diverge(&mut self, _st: &State, f: &Func<'tcx>, t: u32) -> R<()> {
        let (mut b, mut n) = (t, 0);
        loop {
            match &f.bbs[b as usize].tm {
                Tm::Unreach => return Ok(()),
                Tm::Call { f: c, target: None, .. } => {
                    let name = match c {
                        Callee::Fn(i) => self.tcx.def_path_str(i.def_id()),
                        _ => "indirect call".into(),
                    };
                    let sp = f.bbs[b as usize].span;
                    self.record_panic(format!("reaches {name}"), sp);
                    return Ok(());
                }
                t => {
                    let s = succs(t);
                    if s.is_empty() || n > 64 {
                        let sp = f.bbs[b as usize].span;
                        self.record_panic("does not return".into(), sp);
                        return Ok(());
                    }
                    b = s[0];
                    n += 1;
                }
            }
        }
    }
    fn goto(&mut self, st: State, f: &Func<'tcx>, t: u32, _span: rustc_span::Span) -> R<Option<(State, u32)>> {
        if f.diverges[t as usize] {
            self.diverge(&st, f, t)?;
            return Ok(None);
        }
        Ok(Some((st, t)))
    }

    // ------------------------------------------------------------------ functions
    /// Run a function whose arguments are already in the frame at st.sp. On return the frame of
    /// every resulting state is still in place (so that the caller can copy the result out).
    fn run_body(&mut self, f: &Rc<Func<'tcx>>, st: State) -> R<Vec<State>> {
        let fp = st.sp as u64;
        let mut st = st;
        st.sp += f.frame as usize;
        if st.sp as u64 > 1 << 36 {
            return Err("stack overflow".into());
        }
        let mut pend: BTreeMap<(Key, u64, u64), Vec<(State, u32, Vec<u32>)>> = BTreeMap::new();
        let mut done: Vec<State> = vec![];
        let mut cur: Option<(State, u32, Vec<u32>)> = Some((st, 0, vec![0; f.comps[0].len()]));
        let me = self.stack.len() - 1;
        loop {
            let (mut st, bb, iters) = match cur.take() {
                Some(x) => x,
                None => {
                    let Some(k) = pend.keys().next().cloned() else { break };
                    let v = pend.remove(&k).unwrap();
                    let (bb, iters) = (v[0].1, v[0].2.clone());
                    let sts: Vec<State> = v.into_iter().map(|x| x.0).collect();
                    let s = join_all(&mut self.vs, sts, &mut self.stats.joins);
                    (s, bb, iters)
                }
            };
            self.stack[me].1 = bb;
            f.visited.borrow_mut()[bb as usize] = true;
            let b = &f.bbs[bb as usize];
            let mut dead = false;
            let exact = matches!(b.tm, Tm::Assert { .. });
            for s in &b.st {
                self.exact_ovf = exact;
                self.stats.stmts += 1;
                if self.trace {
                    eprintln!("{}{} bb{} {:?}", " ".repeat(me), f.name, bb, s);
                }
                if !self.exec_stmt(&mut st, fp, s)? {
                    dead = true;
                    break;
                }
            }
            if self.stats.stmts > self.budget {
                return Err("analysis budget exhausted".into());
            }
            if dead {
                continue;
            }
            let outs: Vec<(State, u32)> = match &b.tm {
                Tm::Goto(t) => self.goto(st, f, *t, b.span)?.into_iter().collect(),
                Tm::Ret => {
                    done.push(st);
                    vec![]
                }
                Tm::Unreach => vec![],
                Tm::Switch(o, sk, ts, other) => {
                    let v = self.op_scalar(&st, fp, o, *sk)?;
                    st.tag = 0;
                    self.switch(st, f, v, ts, *other, b.span)?
                }
                Tm::Assert { cond, expected, msg, target } => {
                    self.stats.asserts += 1;
                    let v = self.op_scalar(&st, fp, cond, U8K)?;
                    let c = self.vs.to_bit(v);
                    let c = if *expected { c } else { c.not() };
                    let c = st.resolve_bit(&mut self.vs, c);
                    match c.konst() {
                        Some(true) => vec![(st, *target)],
                        Some(false) => {
                            self.record_panic(msg.clone(), b.span);
                            vec![]
                        }
                        None => {
                            let mut p = st.clone();
                            if p.assume(&mut self.vs, c.not()) {
                                if std::env::var("MLXSA_DEBUG").is_ok() {
                                    let s = self.vs.show_bit(c);
                                    eprintln!("unproved: {msg}: {s}");
                                }
                                self.record_panic(msg.clone(), b.span);
                            }
                            if st.assume(&mut self.vs, c) {
                                vec![(st, *target)]
                            } else {
                                vec![]
                            }
                        }
                    }
                }
                Tm::Drop { pl, inst, target } => {
                    let (a, m) = self.place_addr(&st, fp, pl)?;
                    let v = self.addr_v(a);
                    let mut c: Vec<Cell> = cells_of(v, 8).collect();
                    if let Some(m) = m {
                        c.extend(usize_cells(m));
                    }
                    let ty = Ty::new_mut_ptr(self.tcx, pl.ty);
                    let r = self.call_inst(st, *inst, vec![Arg { cells: c, ty }], None)?;
                    r.into_iter().map(|s| (s, *target)).collect()
                }
                Tm::Call { f: cal, args, dest, target } => {
                    self.stats.calls.insert((f.id, bb));
                    let mut av = vec![];
                    for a in args {
                        let ty = self.op_ty(a);
                        av.push(Arg { cells: self.op_cells(&st, fp, a)?, ty });
                    }
                    let inst = match cal {
                        Callee::Fn(i) => *i,
                        Callee::Ptr(o) => {
                            let v = self.op_scalar(&st, fp, o, USZ)?;
                            let v = st.resolve(&mut self.vs, v);
                            let k = self.vs.konst(v).ok_or("symbolic function pointer")? as u64;
                            let i = self.fn_at(k)?;
                            let clos = match i.def {
                                ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => true,
                                ty::InstanceKind::Item(d) => self.tcx.is_closure_like(d),
                                _ => false,
                            };
                            if clos {
                                // a non-capturing closure: its zero-sized receiver is not passed
                                av.insert(0, Arg { cells: vec![], ty: self.tcx.types.unit });
                            }
                            i
                        }
                    };
                    match target {
                        None => {
                            let name = self.tcx.def_path_str(inst.def_id());
                            self.record_panic(format!("reaches {name}"), b.span);
                            vec![]
                        }
                        Some(t) => {
                            let d = if dest.pj.is_empty() { Addr::C(fp + dest.base) } else { self.place_addr(&st, fp, dest)?.0 };
                            let rs = self.call_inst(st, inst, av, Some((d, dest.ty)))?;
                            let mut o = vec![];
                            for s in rs {
                                o.extend(self.goto(s, f, *t, b.span)?);
                            }
                            o
                        }
                    }
                }
                Tm::Bad(s) => return Err(s.clone()),
            };
            let single = outs.len() == 1 && pend.is_empty();
            for (s, t) in outs {
                let ca = &f.comps[bb as usize];
                let cb = &f.comps[t as usize];
                let mut n = 0;
                while n < ca.len() && n < cb.len() && ca[n] == cb[n] {
                    n += 1;
                }
                let mut it: Vec<u32> = iters[..n].to_vec();
                if f.head[t as usize] && n == cb.len() {
                    it[n - 1] += 1;
                    if it[n - 1] > self.max_iter {
                        return Err(format!("loop in {} exceeds {} iterations", f.name, self.max_iter));
                    }
                }
                it.resize(cb.len(), 0);
                if single {
                    cur = Some((s, t, it));
                } else {
                    let mut key = Vec::with_capacity(it.len() * 2 + 1);
                    for (i, h) in cb.iter().enumerate() {
                        key.push(f.pos[*h as usize]);
                        key.push(it[i]);
                    }
                    key.push(f.pos[t as usize]);
                    let (lg, tg) = (s.log_id, s.tag);
                    pend.entry((key, lg, tg)).or_default().push((s, t, it));
                }
            }
        }
        // partition results by log and by the (constant) discriminant of an enum result
        let mut groups: BTreeMap<(u64, u64), Vec<State>> = BTreeMap::new();
        for mut s in done {
            let tag = if f.ret.ty.is_enum() && !f.ret.is_zst() {
                match self.discr(&s, Addr::C(fp + f.locals[0].0), &f.ret) {
                    Ok(d) => {
                        let d = s.resolve(&mut self.vs, d);
                        self.vs.konst(d).map(|k| (k as u64 & 0xffff_ffff) + 1).unwrap_or(0)
                    }
                    Err(_) => 0,
                }
            } else {
                0
            };
            s.tag = tag;
            groups.entry((s.log_id, tag)).or_default().push(s);
        }
        let mut out = vec![];
        for (_, g) in groups {
            out.push(join_all(&mut self.vs, g, &mut self.stats.joins));
        }
        Ok(out)
    }
    pub fn fn_at(&self, k: u64) -> R<Instance<'tcx>> {
        if k < FN_BASE || (k - FN_BASE) % 16 != 0 {
            return Err(format!("call of {k:#x}"));
        }
        self.fns.get(((k - FN_BASE) / 16) as usize).copied().ok_or("function pointer".into())
    }
    /// Call an instance: arguments are given as cells, the result is stored at `dest`.
    pub fn call_inst(&mut self, st: State, inst: Instance<'tcx>, mut args: Vec<Arg<'tcx>>, dest: Option<(Addr, Ty<'tcx>)>) -> R<Vec<State>> {
        let mut inst = inst;
        if let ty::InstanceKind::Virtual(_, idx) = inst.def {
            if args[0].cells.len() < 16 {
                return Err("virtual call receiver".into());
            }
            let vt = self.cells_scalar(&args[0].cells[8..16], USZ)?;
            let vt = st.resolve(&mut self.vs, vt);
            let vt = self.vs.konst(vt).ok_or("symbolic vtable")? as u64;
            let fp = self.load(&st, vt + idx as u64 * 8, USZ)?;
            let k = self.vs.konst(fp).ok_or("vtable entry")? as u64;
            inst = self.fn_at(k)?;
            args[0].cells.truncate(8);
        }
        match self.special(st, inst, &args, dest)? {
            Sp::Done(r) => Ok(r),
            Sp::Redirect(s, i, a) => self.call_inst(s, i, a, dest),
            Sp::Normal(st) => self.call_mir(st, inst, args, dest),
        }
    }
    fn call_mir(&mut self, st: State, inst: Instance<'tcx>, args: Vec<Arg<'tcx>>, dest: Option<(Addr, Ty<'tcx>)>) -> R<Vec<State>> {
        let mut st = st;
        if let ty::InstanceKind::Shim(ty::ShimKind::DropGlue(_, None)) = inst.def {
            return Ok(vec![st]);
        }
        let f = self.func(inst)?;
        let mut args = args;
        // "rust-call": the last argument is a tuple that is spread
        if args.len() != f.nargs || f.spread.is_some() {
            if let Some(last) = args.last() {
                if let ty::Tuple(ts) = last.ty.kind() {
                    let spread_arg = f.spread;
                    let n_before = args.len() - 1;
                    if spread_arg.is_some() && args.len() == f.nargs {
                        // callee takes the tuple itself
                    } else if n_before + ts.len() == f.nargs && spread_arg.is_none() {
                        let last = args.pop().unwrap();
                        let l = self.layout(last.ty);
                        for (i, t) in ts.iter().enumerate() {
                            let o = l.fields.offset(i).bytes() as usize;
                            let n = self.layout(t).size.bytes() as usize;
                            args.push(Arg { cells: last.cells[o..o + n].to_vec(), ty: t });
                        }
                    }
                }
            }
        }
        if args.len() != f.nargs {
            // callee with spread arg called with already spread arguments
            if let Some(sp) = f.spread {
                let first = sp - 1;
                let l = self.layout(f.arg_tys[first]);
                let mut cells = vec![Cell::default(); l.size.bytes() as usize];
                for (i, a) in args[first..].iter().enumerate() {
                    let o = l.fields.offset(i).bytes() as usize;
                    cells[o..o + a.cells.len()].copy_from_slice(&a.cells);
                }
                args.truncate(first);
                args.push(Arg { cells, ty: f.arg_tys[first] });
            }
            if args.len() != f.nargs {
                return Err(format!("{}: {} arguments for {} parameters", f.name, args.len(), f.nargs));
            }
        }
        if self.stack.len() > 400 {
            return Err(format!("call depth exceeded in {}", f.name));
        }
        let fp = st.sp as u64;
        for (i, a) in args.iter().enumerate() {
            let (o, n) = f.locals[i + 1];
            if n as usize != a.cells.len() {
                return Err(format!("{}: argument {} has {} bytes, expected {}", f.name, i, a.cells.len(), n));
            }
            if n > 0 {
                self.write_cells(&mut st, fp + o, &a.cells)?;
            }
        }
        let old = st.sp;
        st.tag = 0;
        self.stack.push((f.clone(), 0));
        let r = self.run_body(&f, st);
        if r.is_err() && !self.notes.iter().any(|n| n.starts_with("at ")) {
            let t: Vec<String> = self
                .stack
                .iter()
                .rev()
                .take(12)
                .map(|(f, b)| format!("{} ({})", f.name, self.tcx.sess.source_map().span_to_diagnostic_string(f.bbs[*b as usize].span)))
                .collect();
            self.notes.insert(format!("at {}", t.join(" <- ")));
        }
        self.stack.pop();
        let states = r?;
        let mut out = vec![];
        let (ro, rn) = f.locals[0];
        for mut s in states {
            if let Some((d, _)) = dest {
                if rn > 0 {
                    let c = self.read_cells(&s, fp + ro, rn)?;
                    s.mem.clear(old, s.sp);
                    s.sp = old;
                    self.write_at(&mut s, d, &c)?;
                } else {
                    s.mem.clear(old, s.sp);
                    s.sp = old;
                }
            } else {
                s.mem.clear(old, s.sp);
                s.sp = old;
            }
            out.push(s);
        }
        Ok(out)
    }
}
pub enum Sp<'tcx> {
    Done(Vec<State>),
    Redirect(State, Instance<'tcx>, Vec<Arg<'tcx>>),
    Normal(State),
}
