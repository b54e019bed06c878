//! Abstract machine states: byte-addressed memory, known facts, event log, branch history.
use crate::val::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PG: usize = 128;
pub const MID: usize = 64;
/// observation slots live below the stack so that they merge like any other memory
pub const OBS_BASE: u64 = 0x1000;
pub const STACK_BASE: u64 = 0x10_0000;
pub const GLOBAL_BASE: u64 = 1 << 40;
pub const FN_BASE: u64 = 1 << 44;

/// Persistent (copy-on-write) array.
#[derive(Clone)]
pub struct Paged<T: Copy + Default + PartialEq> {
    top: Rc<Vec<Option<Rc<Vec<Option<Rc<[T; PG]>>>>>>>,
}
impl<T: Copy + Default + PartialEq> Paged<T> {
    pub fn new() -> Self {
        Paged { top: Rc::new(vec![]) }
    }
    #[inline]
    pub fn get(&self, i: usize) -> T {
        let p = i / PG;
        match self.top.get(p / MID) {
            Some(Some(m)) => match &m[p % MID] {
                Some(pg) => pg[i % PG],
                None => T::default(),
            },
            _ => T::default(),
        }
    }
    fn page_mut(&mut self, p: usize) -> &mut [T; PG] {
        let top = Rc::make_mut(&mut self.top);
        let ti = p / MID;
        if ti >= top.len() {
            top.resize(ti + 1, None);
        }
        let m = top[ti].get_or_insert_with(|| Rc::new(vec![None; MID]));
        let m = Rc::make_mut(m);
        let pg = m[p % MID].get_or_insert_with(|| Rc::new([T::default(); PG]));
        Rc::make_mut(pg)
    }
    #[inline]
    pub fn set(&mut self, i: usize, v: T) {
        self.page_mut(i / PG)[i % PG] = v;
    }
    fn page(&self, p: usize) -> Option<&Rc<[T; PG]>> {
        match self.top.get(p / MID) {
            Some(Some(m)) => m[p % MID].as_ref(),
            _ => None,
        }
    }
    pub fn clear(&mut self, from: usize, to: usize) {
        let mut i = from;
        while i < to {
            let p = i / PG;
            let end = ((p + 1) * PG).min(to);
            if self.page(p).is_some() {
                if i % PG == 0 && end == (p + 1) * PG {
                    let top = Rc::make_mut(&mut self.top);
                    if let Some(m) = &mut top[p / MID] {
                        Rc::make_mut(m)[p % MID] = None;
                    }
                } else {
                    let pg = self.page_mut(p);
                    for j in i..end {
                        pg[j % PG] = T::default();
                    }
                }
            }
            i = end;
        }
    }
    /// Indices of pages < limit that are not shared between the two arrays.
    pub fn diff_pages(&self, o: &Self, limit: usize) -> Vec<usize> {
        let mut r = vec![];
        if Rc::ptr_eq(&self.top, &o.top) {
            return r;
        }
        let n = self.top.len().max(o.top.len());
        for t in 0..n {
            let (a, b) = (self.top.get(t).and_then(|x| x.as_ref()), o.top.get(t).and_then(|x| x.as_ref()));
            match (a, b) {
                (None, None) => continue,
                (Some(x), Some(y)) if Rc::ptr_eq(x, y) => continue,
                _ => {}
            }
            for m in 0..MID {
                let p = t * MID + m;
                if p * PG >= limit {
                    return r;
                }
                let (x, y) = (a.and_then(|a| a[m].as_ref()), b.and_then(|b| b[m].as_ref()));
                match (x, y) {
                    (None, None) => continue,
                    (Some(x), Some(y)) if Rc::ptr_eq(x, y) => continue,
                    _ => r.push(p),
                }
            }
        }
        r
    }
}

/// One byte of abstract memory: byte `idx` of the `size`-byte scalar `val`.
#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
pub struct Cell {
    pub val: V,
    pub idx: u8,
    pub size: u8,
    /// 0: raw bytes; 1/2: known to be a value of the unsigned/signed type of this size
    pub sg: u8,
}

pub struct Hist {
    pub parent: Option<Rc<Hist>>,
    pub fork: u64,
    pub cond: Bit,
    pub arm: bool,
    pub exact: bool,
    pub depth: u32,
}

#[derive(Clone)]
pub struct State {
    pub mem: Paged<Cell>,
    /// atom -> 1 + replacement bit (0 = none)
    pub facts: Paged<u32>,
    pub nfacts: usize,
    /// polynomial index -> 0 none, 1 false, 2 true
    pub known: Paged<u8>,
    pub refine: Rc<BTreeMap<(u64, u64), (i128, i128)>>,
    pub sp: usize,
    /// partition: states with different values are never joined
    pub log_id: u64,
    pub hist: Option<Rc<Hist>>,
    /// this state covers every execution that satisfies the conditions on `hist`
    pub full: bool,
    /// assumed conditions that are not captured by facts about single atoms
    pub cons: Rc<Vec<Bit>>,
    pub busy: bool,
    pub tag: u64,
    pub steps: u64,
    /// a loop being closed by induction
    pub wide: Option<Rc<Wide>>,
}

/// The loop invariant under construction: memory as it was at the last visit, and the cells that
/// hold arbitrary values.
pub struct Wide {
    /// where the loop is: functions and blocks of the call stack
    pub at: Vec<(usize, u32)>,
    pub mem: Paged<Cell>,
    /// address, and the largest value it may have if that is less than its type allows
    pub any: std::collections::BTreeMap<u64, i128>,
    pub rounds: u32,
}

impl State {
    pub fn new() -> State {
        State {
            mem: Paged::new(),
            facts: Paged::new(),
            nfacts: 0,
            known: Paged::new(),
            refine: Rc::new(BTreeMap::new()),
            sp: STACK_BASE as usize,
            log_id: 0,
            hist: None,
            full: true,
            cons: Rc::new(vec![]),
            busy: false,
            tag: 0,
            steps: 0,
            wide: None,
        }
    }
    #[inline]
    pub fn fact(&self, a: Atom) -> Option<Bit> {
        let f = self.facts.get(a as usize);
        if f == 0 {
            None
        } else {
            Some(Bit(f - 1))
        }
    }
    pub fn resolve_bit(&self, vs: &mut Vals, b: Bit) -> Bit {
        if b.idx() == 0 {
            return b;
        }
        match self.known.get(b.idx()) {
            1 => return Bit::c(b.neg()),
            2 => return Bit::c(!b.neg()),
            _ => {}
        }
        let mut cur = b;
        for _ in 0..64 {
            let n = vs.subst_bit(cur, &|a| self.fact(a));
            if n == cur {
                break;
            }
            cur = n;
            if cur.idx() == 0 {
                return cur;
            }
        }
        match self.known.get(cur.idx()) {
            1 => Bit::c(cur.neg()),
            2 => Bit::c(!cur.neg()),
            _ => cur,
        }
    }
    /// Simplify by the facts about atoms only (not by what is known of whole polynomials).
    pub fn reduce_bit(&self, vs: &mut Vals, b: Bit) -> Bit {
        let mut cur = b;
        for _ in 0..64 {
            let n = vs.subst_bit(cur, &|a| self.fact(a));
            if n == cur {
                break;
            }
            cur = n;
        }
        cur
    }
    pub fn resolve(&self, vs: &mut Vals, v: V) -> V {
        let mut cur = v;
        for _ in 0..64 {
            let n = vs.subst(cur, &|a| self.fact(a));
            // exact polynomials known as a whole
            if n == cur {
                break;
            }
            cur = n;
        }
        // top-level choices guarded by a polynomial that is known as a whole
        if let N::Float(f) = &vs.nodes[cur as usize].0 {
            if let FDesc::Phi(c, x, y) = f.desc {
                match self.resolve_bit(vs, c).konst() {
                    Some(true) => return self.resolve(vs, x),
                    Some(false) => return self.resolve(vs, y),
                    None => {}
                }
            }
        }
        if let Some(n) = vs.as_int(cur) {
            let n = n.clone();
            let mut acc: Option<V> = None;
            for (t, k) in n.t.iter() {
                if let Term::B(b) = t {
                    let r = self.resolve_bit(vs, *b);
                    if r != *b {
                        let d0 = vs.bit_int(r);
                        let d1 = vs.bit_int(*b);
                        let base = acc.unwrap_or(cur);
                        let t1 = vs.lincomb(d0, *k, d1, -*k, 0);
                        acc = Some(vs.add(base, t1));
                    }
                }
                if let Term::O(o) = t {
                    if let OpDesc::Guard(b, x) = vs.ops[*o as usize].desc {
                        if let Some(kb) = self.resolve_bit(vs, b).konst() {
                            let base = acc.unwrap_or(cur);
                            let d1 = vs.mk_int(vec![(*t, 1)], 0, None);
                            let d0 = if kb { self.resolve(vs, x) } else { vs.int(0) };
                            let t1 = vs.lincomb(d0, *k, d1, -*k, 0);
                            acc = Some(vs.add(base, t1));
                        }
                    }
                }
            }
            if let Some(a) = acc {
                return a;
            }
        }
        cur
    }
    pub fn range(&self, vs: &Vals, v: V) -> (i128, i128) {
        let (mut lo, mut hi) = vs.range(v);
        if lo == hi || self.refine.is_empty() {
            return (lo, hi);
        }
        if let Some(n) = vs.as_int(v) {
            let (p, q) = self.refined(&n.t, n.c);
            lo = lo.max(p);
            hi = hi.min(q);
            if n.t.len() <= 12 && n.t.iter().any(|t| matches!(t.0, Term::O(_))) {
                // sum of terms whose operands are refined
                let (mut l2, mut h2) = (n.c, n.c);
                for (t, k) in n.t.iter() {
                    let (a, b) = match t {
                        Term::B(_) => (0, 1),
                        Term::O(o) => self.op_range(vs, *o),
                    };
                    let (p, q) = (a.saturating_mul(*k), b.saturating_mul(*k));
                    l2 = l2.saturating_add(p.min(q));
                    h2 = h2.saturating_add(p.max(q));
                }
                lo = lo.max(l2);
                hi = hi.min(h2);
            }
        }
        (lo, hi)
    }
    /// Range of an opaque term, from the ranges of its operands.
    fn op_range(&self, vs: &Vals, o: u32) -> (i128, i128) {
        let i = &vs.ops[o as usize];
        let (x, y) = self.refined(&[(Term::O(o), 1)], 0);
        let (lo, hi) = (i.lo.max(x), i.hi.min(y));
        let hull = |c: [i128; 4]| (*c.iter().min().unwrap(), *c.iter().max().unwrap());
        let (a, b) = match &i.desc {
            OpDesc::Div(x, k) if *k > 0 => {
                let (a, b) = self.range(vs, *x);
                (a.div_euclid(*k), b.div_euclid(*k))
            }
            OpDesc::Mul(x, y) => {
                let (a, b) = self.range(vs, *x);
                let (c, d) = self.range(vs, *y);
                hull([a.saturating_mul(c), a.saturating_mul(d), b.saturating_mul(c), b.saturating_mul(d)])
            }
            OpDesc::Pow2(x) => {
                let (a, b) = self.range(vs, *x);
                (1 << a.clamp(0, 120), 1 << b.clamp(0, 120))
            }
            OpDesc::Guard(_, x) => {
                let (a, b) = self.range(vs, *x);
                (a.min(0), b.max(0))
            }
            _ => return (lo, hi),
        };
        (lo.max(a), hi.min(b))
    }
    /// A comparison settled by what is known about the difference of its operands.
    pub fn decides(&self, vs: &mut Vals, op: rustc_middle::mir::BinOp, x: V, y: V) -> Option<bool> {
        use rustc_middle::mir::BinOp::*;
        if !vs.is_int(x) || !vs.is_int(y) {
            return None;
        }
        let d = vs.sub(x, y);
        let (lo, hi) = self.range(vs, d);
        let (neg, pos) = (hi < 0, lo > 0);
        let (neg0, pos0) = (hi <= 0, lo >= 0);
        let pick = |t: bool, f: bool| if t { Some(true) } else if f { Some(false) } else { None };
        match op {
            Eq => pick(neg0 && pos0, neg || pos),
            Ne => pick(neg || pos, neg0 && pos0),
            Lt => pick(neg, pos0),
            Le => pick(neg0, pos),
            Gt => pick(pos, neg0),
            Ge => pick(pos0, neg),
            _ => None,
        }
    }
    /// What is recorded about a linear form, whatever its scale and constant.
    fn refined(&self, t: &[(Term, i128)], c: i128) -> (i128, i128) {
        if t.is_empty() {
            return (c, c);
        }
        let (key, k) = lin_key(t);
        match self.refine.get(&key) {
            None => (i128::MIN / 4, i128::MAX / 4),
            Some((a, b)) => {
                let (p, q) = (a.saturating_mul(k), b.saturating_mul(k));
                (p.min(q).saturating_add(c), p.max(q).saturating_add(c))
            }
        }
    }
    fn refine_to(&mut self, t: &[(Term, i128)], c: i128, lo: i128, hi: i128) {
        if t.is_empty() {
            return;
        }
        let (key, k) = lin_key(t);
        let inf = i128::MAX / 8;
        let (mut p, mut q) = ((lo - c).max(-inf), (hi - c).min(inf));
        if k < 0 {
            (p, q) = (-q, -p);
        }
        let kk = k.abs();
        let (p, q) = (-((-p).div_euclid(kk)), q.div_euclid(kk));
        let m = Rc::make_mut(&mut self.refine);
        let e = m.entry(key).or_insert((-inf, inf));
        e.0 = e.0.max(p);
        e.1 = e.1.min(q);
    }
    /// Record that `b` holds. Returns false when this contradicts what is known.
    pub fn assume(&mut self, vs: &mut Vals, b: Bit) -> bool {
        let n0 = self.nfacts;
        if !self.assume1(vs, b) {
            return false;
        }
        // constraints not yet reduced to atoms are simplified whenever new facts arrive
        if self.nfacts != n0 && !self.cons.is_empty() && !self.busy {
            self.busy = true;
            let mut again = true;
            let mut rounds = 0;
            while again && rounds < 8 {
                again = false;
                rounds += 1;
                let cs = self.cons.clone();
                let mut keep = vec![];
                for c in cs.iter() {
                    let mut r = *c;
                    for _ in 0..16 {
                        let n = vs.subst_bit(r, &|a| self.fact(a));
                        if n == r {
                            break;
                        }
                        r = n;
                    }
                    match r.konst() {
                        Some(true) => continue,
                        Some(false) => {
                            self.busy = false;
                            return false;
                        }
                        None => {}
                    }
                    if r != *c {
                        self.known.set(r.idx(), if r.neg() { 1 } else { 2 });
                        let n1 = self.nfacts;
                        if !self.propagate(vs, r) {
                            self.busy = false;
                            return false;
                        }
                        again |= self.nfacts != n1;
                    }
                    keep.push(r);
                }
                self.cons = Rc::new(keep);
            }
            self.busy = false;
        }
        true
    }
    fn assume1(&mut self, vs: &mut Vals, b: Bit) -> bool {
        let b = self.resolve_bit(vs, b);
        if let Some(k) = b.konst() {
            return k;
        }
        self.known.set(b.idx(), if b.neg() { 1 } else { 2 });
        if vs.single_atom(b).is_none() {
            let c = Rc::make_mut(&mut self.cons);
            if c.len() < 64 {
                c.push(b);
            }
        }
        self.propagate(vs, b)
    }
    fn propagate(&mut self, vs: &mut Vals, b: Bit) -> bool {
        let ms = vs.bit_monos(b);
        let want = !b.neg();
        if ms.len() == 1 && (want || ms[0].len() == 1) {
            for a in ms[0].iter() {
                if !self.set_atom(vs, *a, want) {
                    return false;
                }
            }
            return true;
        }
        // affine: pivot on the newest atom
        if ms.iter().all(|m| m.len() == 1) {
            let piv = ms.iter().map(|m| m[0]).filter(|a| !matches!(vs.atoms[*a as usize].kind, AtomKind::And(..))).max();
            if let Some(piv) = piv {
                let pb = vs.atom_bit(piv);
                let rest = vs.xor(b, pb); // b = pb ^ rest ; b==1 -> pb = !rest
                self.facts.set(piv as usize, rest.not().0 + 1);
                self.nfacts += 1;
                return true;
            }
        }
        // small support: atoms constant in every satisfying assignment
        let sup = vs.bit_support(b);
        if sup.len() <= 8 {
            let mut seen: Vec<(bool, bool)> = vec![(false, false); sup.len()];
            let mut any = false;
            for asg in 0u32..(1 << sup.len()) {
                let mut val = b.neg();
                for m in ms.iter() {
                    val ^= m.iter().all(|a| asg >> sup.iter().position(|x| x == a).unwrap() & 1 == 1);
                }
                if val {
                    any = true;
                    for (i, s) in seen.iter_mut().enumerate() {
                        if asg >> i & 1 == 1 {
                            s.1 = true
                        } else {
                            s.0 = true
                        }
                    }
                }
            }
            if !any {
                return false;
            }
            for (i, s) in seen.iter().enumerate() {
                if s.0 != s.1 && !self.set_atom(vs, sup[i], s.1) {
                    return false;
                }
            }
        }
        true
    }
    fn set_atom(&mut self, vs: &mut Vals, a: Atom, val: bool) -> bool {
        if let Some(f) = self.fact(a) {
            let f = self.resolve_bit(vs, f);
            match f.konst() {
                Some(k) => return k == val,
                None => {
                    let g = if val { f } else { f.not() };
                    return self.assume(vs, g);
                }
            }
        }
        self.facts.set(a as usize, Bit::c(val).0 + 1);
        self.nfacts += 1;
        match vs.atoms[a as usize].kind {
            AtomKind::Neg(v) => {
                if val {
                    self.refine_rel(vs, v, i128::MIN / 4, -1)
                } else {
                    self.refine_rel(vs, v, 0, i128::MAX / 4)
                }
            }
            AtomKind::Zero(v) => {
                if val {
                    self.refine_rel(vs, v, 0, 0)
                } else {
                    let (lo, hi) = self.range(vs, v);
                    if lo == 0 {
                        self.refine_rel(vs, v, 1, i128::MAX / 4)
                    } else if hi == 0 {
                        self.refine_rel(vs, v, i128::MIN / 4, -1)
                    } else {
                        true
                    }
                }
            }
            AtomKind::And(x, y) => {
                if val {
                    self.assume(vs, x) && self.assume(vs, y)
                } else {
                    true
                }
            }
            _ => true,
        }
    }
    /// lo <= v <= hi
    pub fn refine_rel(&mut self, vs: &mut Vals, v: V, lo: i128, hi: i128) -> bool {
        let (a, b) = self.range(vs, v);
        let (lo, hi) = (lo.max(a), hi.min(b));
        if lo > hi {
            return false;
        }
        if let Some(n) = vs.as_int(v) {
            self.refine_to(&n.t, n.c, lo, hi);
        }
        true
    }
}

/// Identity of a linear form up to scale and constant, and the scale.
fn lin_key(t: &[(Term, i128)]) -> ((u64, u64), i128) {
    use std::hash::{Hash, Hasher};
    fn gcd(a: i128, b: i128) -> i128 {
        if b == 0 {
            a
        } else {
            gcd(b, a % b)
        }
    }
    let mut g = 0;
    for (_, k) in t {
        g = gcd(g, k.abs());
        if g == 1 {
            break;
        }
    }
    if t[0].1 < 0 {
        g = -g;
    }
    let mut h = [std::collections::hash_map::DefaultHasher::new(), std::collections::hash_map::DefaultHasher::new()];
    1u8.hash(&mut h[1]);
    for (x, k) in t {
        for h in h.iter_mut() {
            x.hash(h);
            (k / g).hash(h);
        }
    }
    ((h[0].finish(), h[1].finish()), g)
}
impl State {
    pub fn debug_dump(&self, vs: &Vals) {
        for c in self.cons.iter() {
            eprintln!("cons {}", vs.show_bit(*c));
        }
        for a in 0..vs.atoms.len() {
            if let Some(f) = self.fact(a as Atom) {
                eprintln!("fact {} := {}", vs.show_atom(a as Atom), vs.show_bit(f));
            }
        }
        let mut h = self.hist.clone();
        while let Some(x) = h {
            eprintln!("hist {} {} arm {} exact {}", x.depth, vs.show_bit(x.cond), x.arm, x.exact);
            h = x.parent.clone();
        }
        eprintln!("full {}", self.full);
        for (k, v) in self.refine.iter() {
            eprintln!("refine {:?} {:?}", k, v);
        }
    }
}
