//! The abstract value domain.
//!
//! * booleans: Zhegalkin polynomials (XOR of monomials) over boolean atoms; the degree-one
//!   fragment is the GF(2)-affine bit-provenance domain.
//! * integers: exact linear forms over boolean terms and opaque integer terms, with intervals.
//! * floats: real-valued expressions, value-numbered by evaluation at a fixed random point of
//!   two prime fields (Gulwani/Necula random interpretation), so that algebraically equal
//!   expressions get the same number no matter how they are written.
//! * pointers: integers in one flat abstract address space.
use std::collections::HashMap;
use std::rc::Rc;

pub const P: u64 = (1 << 61) - 1;

fn mulp(a: u64, b: u64) -> u64 {
    let t = (a as u128) * (b as u128);
    let lo = (t as u64) & P;
    let hi = (t >> 61) as u64;
    let mut r = lo + hi;
    if r >= P {
        r -= P
    }
    r
}
fn addp(a: u64, b: u64) -> u64 {
    let mut r = a + b;
    if r >= P {
        r -= P
    }
    r
}
fn powp(mut b: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mulp(r, b)
        }
        b = mulp(b, b);
        e >>= 1;
    }
    r
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct H(pub u64, pub u64);
impl H {
    pub const ZERO: H = H(0, 0);
    pub const ONE: H = H(1, 1);
    pub fn int(i: i128) -> H {
        let m = i.rem_euclid(P as i128) as u64;
        H(m, m)
    }
    pub fn add(self, o: H) -> H {
        H(addp(self.0, o.0), addp(self.1, o.1))
    }
    pub fn neg(self) -> H {
        H((P - self.0) % P, (P - self.1) % P)
    }
    pub fn sub(self, o: H) -> H {
        self.add(o.neg())
    }
    pub fn mul(self, o: H) -> H {
        H(mulp(self.0, o.0), mulp(self.1, o.1))
    }
    pub fn inv(self) -> H {
        H(powp(self.0, P - 2), powp(self.1, P - 2))
    }
    pub fn pow2(e: i64) -> H {
        let b = powp(2, e.unsigned_abs());
        let b = if e < 0 { powp(b, P - 2) } else { b };
        H(b, b)
    }
    pub fn f64(x: f64) -> H {
        if x == 0.0 {
            return H::ZERO;
        }
        let bits = x.to_bits();
        let neg = bits >> 63 == 1;
        let e = ((bits >> 52) & 0x7ff) as i64;
        let m = bits & ((1 << 52) - 1);
        let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
        let h = H::int(m as i128).mul(H::pow2(e));
        if neg {
            h.neg()
        } else {
            h
        }
    }
    /// Pseudo-random field element determined by a name.
    pub fn name(s: &[u8]) -> H {
        let mut a: u64 = 0xcbf29ce484222325;
        let mut b: u64 = 0x9E3779B97F4A7C15;
        for &c in s {
            a = (a ^ c as u64).wrapping_mul(0x100000001b3);
            b = mix(b ^ c as u64);
        }
        H(mix(a ^ b.rotate_left(17)) % P, mix(b ^ a.rotate_left(31) ^ 0x1234567) % P)
    }
    pub fn app(name: &str, args: &[H]) -> H {
        let mut v = name.as_bytes().to_vec();
        v.push(b'(');
        for a in args {
            v.extend_from_slice(&a.0.to_le_bytes());
            v.extend_from_slice(&a.1.to_le_bytes());
        }
        H::name(&v)
    }
}
fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub type Atom = u32;
/// Polynomial index * 2 + negation. 0 = false, 1 = true.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Bit(pub u32);
pub const FALSE: Bit = Bit(0);
pub const TRUE: Bit = Bit(1);
impl Bit {
    pub fn c(b: bool) -> Bit {
        Bit(b as u32)
    }
    pub fn konst(self) -> Option<bool> {
        if self.0 < 2 {
            Some(self.0 == 1)
        } else {
            None
        }
    }
    pub fn not(self) -> Bit {
        Bit(self.0 ^ 1)
    }
    pub fn neg(self) -> bool {
        self.0 & 1 == 1
    }
    pub fn pos(self) -> Bit {
        Bit(self.0 & !1)
    }
    pub fn idx(self) -> usize {
        (self.0 >> 1) as usize
    }
}

pub type Mono = u32;
pub type V = u32;

#[derive(Clone, Debug)]
pub enum AtomKind {
    Named(String),
    BitOf(V, u8),
    /// v < 0
    Neg(V),
    /// v == 0
    Zero(V),
    /// float comparison
    FCmp(&'static str, V, V),
    And(Bit, Bit),
    Other(String),
}

pub struct AtomInfo {
    pub kind: AtomKind,
    pub h: H,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Term {
    B(Bit), // positive polarity, nonconstant
    O(u32),
}

#[derive(Clone, Debug)]
pub struct OpInfo {
    pub h: H,
    pub lo: i128,
    pub hi: i128,
    pub desc: OpDesc,
}
#[derive(Clone, Debug)]
pub enum OpDesc {
    Named(String),
    Mul(V, V),
    Pow2(V),
    Div(V, i128),
    Rem(V, i128),
    FloatToInt(V),
    FloatBits(V),
    Guard(Bit, V),
    Other(String),
}

#[derive(Clone, Debug)]
pub struct IntN {
    pub t: Rc<Vec<(Term, i128)>>,
    pub c: i128,
    pub lo: i128,
    pub hi: i128,
}
#[derive(Clone, Debug)]
pub enum FDesc {
    Konst(f64),
    Named(String),
    Int(V),
    Phi(Bit, V, V),
    Bin(&'static str, V, V),
    Un(&'static str, V),
    Raw,
}
#[derive(Clone, Debug)]
pub struct FloatN {
    pub k: Option<f64>,
    pub int: Option<V>,
    pub desc: FDesc,
    /// the value is `e.0 * 2^e.1`
    pub e: Option<(H, V)>,
}
#[derive(Clone, Debug)]
pub enum N {
    Int(IntN),
    Float(FloatN),
}

pub struct Vals {
    pub atoms: Vec<AtomInfo>,
    atom_by_name: HashMap<H, Atom>,
    monos: Vec<Rc<Vec<Atom>>>,
    mono_ix: HashMap<Rc<Vec<Atom>>, Mono>,
    polys: Vec<(Rc<Vec<Mono>>, H)>,
    poly_ix: HashMap<Rc<Vec<Mono>>, u32>,
    pub ops: Vec<OpInfo>,
    op_ix: HashMap<H, u32>,
    pub nodes: Vec<(N, H)>,
    int_ix: HashMap<(Rc<Vec<(Term, i128)>>, i128), V>,
    float_ix: HashMap<H, V>,
    fresh: u64,
    phi_cache: HashMap<(Bit, V, V), V>,
    and_cache: HashMap<(Bit, Bit), Bit>,
    pub smalls: Vec<V>,
}

pub fn ty_range(size: u8, signed: bool) -> (i128, i128) {
    let n = size as u32 * 8;
    if signed {
        (-(1i128 << (n - 1)), (1i128 << (n - 1)) - 1)
    } else if n >= 127 {
        (0, i128::MAX)
    } else {
        (0, (1i128 << n) - 1)
    }
}

impl Vals {
    pub fn new() -> Vals {
        let mut s = Vals {
            atoms: vec![],
            atom_by_name: HashMap::new(),
            monos: vec![],
            mono_ix: HashMap::new(),
            polys: vec![],
            poly_ix: HashMap::new(),
            ops: vec![],
            op_ix: HashMap::new(),
            nodes: vec![],
            int_ix: HashMap::new(),
            float_ix: HashMap::new(),
            fresh: 0,
            phi_cache: HashMap::new(),
            and_cache: HashMap::new(),
            smalls: vec![],
        };
        let e = Rc::new(vec![]);
        s.polys.push((e.clone(), H::ZERO));
        s.poly_ix.insert(e, 0);
        // value id 0 is reserved as "uninitialised"
        s.nodes.push((
            N::Float(FloatN { k: None, int: None, desc: FDesc::Named("<uninit>".into()), e: None }),
            H::name(b"<uninit>"),
        ));
        for i in 0..256 {
            let v = s.int(i);
            s.smalls.push(v);
        }
        s
    }

    // ---------------------------------------------------------------- atoms and bits
    pub fn atom(&mut self, kind: AtomKind, h: H) -> Atom {
        if let Some(a) = self.atom_by_name.get(&h) {
            return *a;
        }
        let a = self.atoms.len() as Atom;
        self.atoms.push(AtomInfo { kind, h });
        self.atom_by_name.insert(h, a);
        a
    }
    pub fn named_bit(&mut self, name: &str) -> Bit {
        let h = H::name(format!("atom:{name}").as_bytes());
        let a = self.atom(AtomKind::Named(name.to_string()), h);
        self.atom_bit(a)
    }
    pub fn fresh_bit(&mut self, why: &str) -> Bit {
        self.fresh += 1;
        let n = format!("fresh{}:{}", self.fresh, why);
        let h = H::name(n.as_bytes());
        let a = self.atom(AtomKind::Other(n), h);
        self.atom_bit(a)
    }
    pub fn atom_bit(&mut self, a: Atom) -> Bit {
        let m = self.mono(vec![a]);
        self.poly(vec![m])
    }
    fn mono(&mut self, v: Vec<Atom>) -> Mono {
        let r = Rc::new(v);
        if let Some(i) = self.mono_ix.get(&r) {
            return *i;
        }
        let i = self.monos.len() as Mono;
        self.monos.push(r.clone());
        self.mono_ix.insert(r, i);
        i
    }
    fn poly(&mut self, v: Vec<Mono>) -> Bit {
        if v.is_empty() {
            return FALSE;
        }
        let r = Rc::new(v);
        if let Some(i) = self.poly_ix.get(&r) {
            return Bit(*i * 2);
        }
        // hash: multilinear extension
        let mut disjoint = true;
        {
            let mut seen: Vec<Atom> = vec![];
            'o: for m in r.iter() {
                for a in self.monos[*m as usize].iter() {
                    if seen.contains(a) {
                        disjoint = false;
                        break 'o;
                    }
                    seen.push(*a);
                }
            }
        }
        let h = if disjoint {
            let two = H::int(2);
            let mut prod = H::ONE;
            for m in r.iter() {
                let mut hm = H::ONE;
                for a in self.monos[*m as usize].iter() {
                    hm = hm.mul(self.atoms[*a as usize].h);
                }
                prod = prod.mul(H::ONE.sub(two.mul(hm)));
            }
            H::ONE.sub(prod).mul(two.inv())
        } else {
            let sup = self.mono_support(&r);
            if sup.len() <= 10 {
                let mut tot = H::ZERO;
                for asg in 0u32..(1 << sup.len()) {
                    let mut val = false;
                    for m in r.iter() {
                        let all = self.monos[*m as usize].iter().all(|a| {
                            let i = sup.iter().position(|x| x == a).unwrap();
                            asg >> i & 1 == 1
                        });
                        val ^= all;
                    }
                    if val {
                        let mut w = H::ONE;
                        for (i, a) in sup.iter().enumerate() {
                            let ha = self.atoms[*a as usize].h;
                            w = w.mul(if asg >> i & 1 == 1 { ha } else { H::ONE.sub(ha) });
                        }
                        tot = tot.add(w);
                    }
                }
                tot
            } else {
                let mut parts = vec![];
                for m in r.iter() {
                    let mut hm = H::ONE;
                    for a in self.monos[*m as usize].iter() {
                        hm = hm.mul(self.atoms[*a as usize].h);
                    }
                    parts.push(hm);
                }
                parts.sort();
                H::app("poly", &parts)
            }
        };
        let i = self.polys.len() as u32;
        self.polys.push((r.clone(), h));
        self.poly_ix.insert(r, i);
        Bit(i * 2)
    }
    fn mono_support(&self, ms: &[Mono]) -> Vec<Atom> {
        let mut v: Vec<Atom> = ms.iter().flat_map(|m| self.monos[*m as usize].iter().copied()).collect();
        v.sort();
        v.dedup();
        v
    }
    pub fn bit_support(&self, b: Bit) -> Vec<Atom> {
        self.mono_support(&self.polys[b.idx()].0)
    }
    pub fn bit_hash(&self, b: Bit) -> H {
        let h = self.polys[b.idx()].1;
        if b.neg() {
            H::ONE.sub(h)
        } else {
            h
        }
    }
    pub fn single_atom(&self, b: Bit) -> Option<Atom> {
        let p = &self.polys[b.idx()].0;
        if p.len() == 1 && self.monos[p[0] as usize].len() == 1 {
            Some(self.monos[p[0] as usize][0])
        } else {
            None
        }
    }
    /// The polynomial as monomials (each a list of atoms).
    pub fn bit_monos(&self, b: Bit) -> Vec<Rc<Vec<Atom>>> {
        self.polys[b.idx()].0.iter().map(|m| self.monos[*m as usize].clone()).collect()
    }
    pub fn xor(&mut self, a: Bit, b: Bit) -> Bit {
        let neg = a.neg() ^ b.neg();
        if a.idx() == 0 {
            return Bit(b.pos().0 | neg as u32);
        }
        if b.idx() == 0 {
            return Bit(a.pos().0 | neg as u32);
        }
        if a.idx() == b.idx() {
            return Bit(neg as u32);
        }
        let (x, y) = (self.polys[a.idx()].0.clone(), self.polys[b.idx()].0.clone());
        let mut r = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j == y.len() || (i < x.len() && x[i] < y[j]) {
                r.push(x[i]);
                i += 1
            } else if i == x.len() || y[j] < x[i] {
                r.push(y[j]);
                j += 1
            } else {
                i += 1;
                j += 1
            }
        }
        let p = self.poly(r);
        Bit(p.0 ^ neg as u32)
    }
    pub fn and(&mut self, a: Bit, b: Bit) -> Bit {
        if a == b || b == TRUE {
            return a;
        }
        if a == TRUE {
            return b;
        }
        if a == FALSE || b == FALSE || a == b.not() {
            return FALSE;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.and_cache.get(&(a, b)) {
            return *r;
        }
        let (x, y) = (self.polys[a.idx()].0.clone(), self.polys[b.idx()].0.clone());
        let r = if (x.len() + 1) * (y.len() + 1) > 600 {
            let mut hs = [self.bit_hash(a), self.bit_hash(b)];
            hs.sort();
            let h = H::app("and", &hs);
            let at = self.atom(AtomKind::And(a, b), h);
            self.atom_bit(at)
        } else {
            let mut cnt: HashMap<Mono, bool> = HashMap::new();
            for m in x.iter() {
                for n in y.iter() {
                    let mut v: Vec<Atom> = self.monos[*m as usize].iter().copied().collect();
                    v.extend(self.monos[*n as usize].iter().copied());
                    v.sort();
                    v.dedup();
                    let k = self.mono(v);
                    *cnt.entry(k).or_insert(false) ^= true;
                }
            }
            if a.neg() {
                for n in y.iter() {
                    *cnt.entry(*n).or_insert(false) ^= true;
                }
            }
            if b.neg() {
                for n in x.iter() {
                    *cnt.entry(*n).or_insert(false) ^= true;
                }
            }
            let mut v: Vec<Mono> = cnt.into_iter().filter(|(_, k)| *k).map(|(m, _)| m).collect();
            v.sort();
            if v.len() > 400 {
                let mut hs = [self.bit_hash(a), self.bit_hash(b)];
                hs.sort();
                let h = H::app("and", &hs);
                let at = self.atom(AtomKind::And(a, b), h);
                self.atom_bit(at)
            } else {
                let p = self.poly(v);
                Bit(p.0 ^ (a.neg() && b.neg()) as u32)
            }
        };
        self.and_cache.insert((a, b), r);
        r
    }
    pub fn or(&mut self, a: Bit, b: Bit) -> Bit {
        self.and(a.not(), b.not()).not()
    }
    pub fn ite_bit(&mut self, c: Bit, x: Bit, y: Bit) -> Bit {
        if x == y {
            return x;
        }
        let d = self.xor(x, y);
        let e = self.and(c, d);
        self.xor(y, e)
    }
    /// Substitute atoms; `f` gives the replacement of an atom, if any.
    pub fn subst_bit(&mut self, b: Bit, f: &dyn Fn(Atom) -> Option<Bit>) -> Bit {
        self.subst_bit_m(b, f, &mut HashMap::new())
    }
    fn subst_bit_m(&mut self, b: Bit, f: &dyn Fn(Atom) -> Option<Bit>, memo: &mut HashMap<Atom, Bit>) -> Bit {
        if b.idx() == 0 {
            return b;
        }
        let ms = self.polys[b.idx()].0.clone();
        let mut hit = false;
        for m in ms.iter() {
            for a in self.monos[*m as usize].iter() {
                if f(*a).is_some() || matches!(self.atoms[*a as usize].kind, AtomKind::And(..)) {
                    hit = true
                }
            }
        }
        if !hit {
            return b;
        }
        // constants only: drop and shorten monomials, no intermediate polynomials
        let simple = ms.iter().all(|m| {
            self.monos[*m as usize].iter().all(|a| match f(*a) {
                Some(x) => x.idx() == 0,
                None => !matches!(self.atoms[*a as usize].kind, AtomKind::And(..)),
            })
        });
        if simple {
            let mut neg = b.neg();
            let mut out: Vec<Mono> = Vec::with_capacity(ms.len());
            for m in ms.iter() {
                let atoms = self.monos[*m as usize].clone();
                if atoms.iter().any(|a| f(*a) == Some(FALSE)) {
                    continue;
                }
                if !atoms.iter().any(|a| f(*a).is_some()) {
                    out.push(*m);
                    continue;
                }
                let left: Vec<Atom> = atoms.iter().copied().filter(|a| f(*a).is_none()).collect();
                if left.is_empty() {
                    neg = !neg;
                } else {
                    let k = self.mono(left);
                    out.push(k);
                }
            }
            out.sort();
            let mut r: Vec<Mono> = Vec::with_capacity(out.len());
            for m in out {
                if r.last() == Some(&m) {
                    r.pop();
                } else {
                    r.push(m);
                }
            }
            let p = self.poly(r);
            return Bit(p.0 ^ neg as u32);
        }
        let mut r = Bit(b.neg() as u32);
        for m in ms.iter() {
            let mut p = TRUE;
            let atoms = self.monos[*m as usize].clone();
            for a in atoms.iter() {
                let x = match f(*a) {
                    Some(x) => x,
                    None => {
                        if let Some(x) = memo.get(a) {
                            *x
                        } else if let AtomKind::And(u, w) = self.atoms[*a as usize].kind {
                            let u2 = self.subst_bit_m(u, f, memo);
                            let w2 = self.subst_bit_m(w, f, memo);
                            let r = if u2 == u && w2 == w { self.atom_bit(*a) } else { self.and(u2, w2) };
                            memo.insert(*a, r);
                            r
                        } else {
                            self.atom_bit(*a)
                        }
                    }
                };
                p = self.and(p, x);
                if p == FALSE {
                    break;
                }
            }
            r = self.xor(r, p);
        }
        r
    }

    // ---------------------------------------------------------------- integers
    pub fn int(&mut self, c: i128) -> V {
        if (0..self.smalls.len() as i128).contains(&c) {
            return self.smalls[c as usize];
        }
        self.mk_int(vec![], c, None)
    }
    pub fn mk_int(&mut self, mut t: Vec<(Term, i128)>, c: i128, rng: Option<(i128, i128)>) -> V {
        t.retain(|x| x.1 != 0);
        let t = Rc::new(t);
        let key = (t.clone(), c);
        if let Some(v) = self.int_ix.get(&key) {
            let v = *v;
            if let Some((l, h)) = rng {
                if let N::Int(n) = &mut self.nodes[v as usize].0 {
                    if l > n.lo {
                        n.lo = l
                    }
                    if h < n.hi {
                        n.hi = h
                    }
                }
            }
            return v;
        }
        let (mut lo, mut hi) = (c, c);
        let mut h = H::int(c);
        for (term, k) in t.iter() {
            let (tl, th, hh) = match term {
                Term::B(b) => (0, 1, self.bit_hash(*b)),
                Term::O(o) => {
                    let o = &self.ops[*o as usize];
                    (o.lo, o.hi, o.h)
                }
            };
            let (a, b) = (tl.saturating_mul(*k), th.saturating_mul(*k));
            lo = lo.saturating_add(a.min(b));
            hi = hi.saturating_add(a.max(b));
            h = h.add(H::int(*k).mul(hh));
        }
        if let Some((l, u)) = rng {
            lo = lo.max(l);
            hi = hi.min(u);
        }
        let v = self.nodes.len() as V;
        self.nodes.push((N::Int(IntN { t: t.clone(), c, lo, hi }), h));
        self.int_ix.insert(key, v);
        v
    }
    pub fn h(&self, v: V) -> H {
        self.nodes[v as usize].1
    }
    pub fn is_int(&self, v: V) -> bool {
        matches!(self.nodes[v as usize].0, N::Int(_))
    }
    pub fn as_int(&self, v: V) -> Option<&IntN> {
        match &self.nodes[v as usize].0 {
            N::Int(n) => Some(n),
            _ => None,
        }
    }
    pub fn as_float(&self, v: V) -> Option<&FloatN> {
        match &self.nodes[v as usize].0 {
            N::Float(n) => Some(n),
            _ => None,
        }
    }
    #[inline]
    pub fn konst(&self, v: V) -> Option<i128> {
        match &self.nodes[v as usize].0 {
            N::Int(n) if n.t.is_empty() => Some(n.c),
            _ => None,
        }
    }
    pub fn bit_int(&mut self, b: Bit) -> V {
        match b.konst() {
            Some(k) => self.int(k as i128),
            None => {
                if b.neg() {
                    self.mk_int(vec![(Term::B(b.pos()), -1)], 1, None)
                } else {
                    self.mk_int(vec![(Term::B(b), 1)], 0, None)
                }
            }
        }
    }
    pub fn op(&mut self, desc: OpDesc, h: H, lo: i128, hi: i128) -> V {
        if lo == hi {
            return self.int(lo);
        }
        let o = match self.op_ix.get(&h) {
            Some(o) => {
                let o = *o;
                let i = &mut self.ops[o as usize];
                i.lo = i.lo.max(lo);
                i.hi = i.hi.min(hi);
                o
            }
            None => {
                let o = self.ops.len() as u32;
                self.ops.push(OpInfo { h, lo, hi, desc });
                self.op_ix.insert(h, o);
                o
            }
        };
        self.mk_int(vec![(Term::O(o), 1)], 0, Some((lo, hi)))
    }
    pub fn named_int(&mut self, name: &str, lo: i128, hi: i128) -> V {
        self.op(OpDesc::Named(name.into()), H::name(format!("int:{name}").as_bytes()), lo, hi)
    }
    pub fn fresh_int(&mut self, why: &str, lo: i128, hi: i128) -> V {
        self.fresh += 1;
        let n = format!("fresh{}:{}", self.fresh, why);
        self.named_int(&n, lo, hi)
    }
    pub fn lincomb(&mut self, a: V, ka: i128, b: V, kb: i128, c: i128) -> V {
        let (x, y) = (self.as_int(a).unwrap().clone(), self.as_int(b).unwrap().clone());
        let mut t = Vec::with_capacity(x.t.len() + y.t.len());
        let (mut i, mut j) = (0, 0);
        while i < x.t.len() || j < y.t.len() {
            if j == y.t.len() || (i < x.t.len() && x.t[i].0 < y.t[j].0) {
                t.push((x.t[i].0, x.t[i].1 * ka));
                i += 1
            } else if i == x.t.len() || y.t[j].0 < x.t[i].0 {
                t.push((y.t[j].0, y.t[j].1 * kb));
                j += 1
            } else {
                let k = x.t[i].1 * ka + y.t[j].1 * kb;
                if k != 0 {
                    t.push((x.t[i].0, k));
                }
                i += 1;
                j += 1
            }
        }
        let f = |lo: i128, hi: i128, k: i128| {
            let (p, q) = (lo.saturating_mul(k), hi.saturating_mul(k));
            (p.min(q), p.max(q))
        };
        let (al, ah) = f(x.lo, x.hi, ka);
        let (bl, bh) = f(y.lo, y.hi, kb);
        let r = (al.saturating_add(bl).saturating_add(c), ah.saturating_add(bh).saturating_add(c));
        self.mk_int(t, x.c * ka + y.c * kb + c, Some(r))
    }
    pub fn add(&mut self, a: V, b: V) -> V {
        self.lincomb(a, 1, b, 1, 0)
    }
    pub fn sub(&mut self, a: V, b: V) -> V {
        self.lincomb(a, 1, b, -1, 0)
    }
    pub fn addc(&mut self, a: V, c: i128) -> V {
        if c == 0 {
            return a;
        }
        if let Some(k) = self.konst(a) {
            return self.int(k + c);
        }
        let z = self.int(0);
        self.lincomb(a, 1, z, 0, c)
    }
    pub fn mulc(&mut self, a: V, c: i128) -> V {
        let z = self.int(0);
        self.lincomb(a, c, z, 0, 0)
    }
    pub fn range(&self, v: V) -> (i128, i128) {
        match &self.nodes[v as usize].0 {
            N::Int(n) => (n.lo, n.hi),
            _ => (i128::MIN / 4, i128::MAX / 4),
        }
    }
    pub fn mul(&mut self, a: V, b: V) -> V {
        if let Some(k) = self.konst(a) {
            return self.mulc(b, k);
        }
        if let Some(k) = self.konst(b) {
            return self.mulc(a, k);
        }
        let (x, y) = (self.as_int(a).unwrap().clone(), self.as_int(b).unwrap().clone());
        // small products of bit forms are expanded so that they stay canonical
        let allb = |n: &IntN| n.t.iter().all(|t| matches!(t.0, Term::B(_)));
        let c = [
            x.lo.saturating_mul(y.lo),
            x.lo.saturating_mul(y.hi),
            x.hi.saturating_mul(y.lo),
            x.hi.saturating_mul(y.hi),
        ];
        let (lo, hi) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
        if allb(&x) && allb(&y) && (x.t.len() + 1) * (y.t.len() + 1) <= 300 {
            let mut acc: HashMap<Term, i128> = HashMap::new();
            let mut cc = x.c * y.c;
            for (t, k) in x.t.iter() {
                if y.c != 0 {
                    *acc.entry(*t).or_insert(0) += k * y.c;
                }
                for (u, l) in y.t.iter() {
                    if let (Term::B(p), Term::B(q)) = (t, u) {
                        let r = self.and(*p, *q);
                        if r.konst() == Some(true) {
                            cc += k * l;
                        } else if r.konst().is_none() {
                            if r.neg() {
                                cc += k * l;
                                *acc.entry(Term::B(r.pos())).or_insert(0) -= k * l;
                            } else {
                                *acc.entry(Term::B(r)).or_insert(0) += k * l;
                            }
                        }
                    }
                }
            }
            if x.c != 0 {
                for (u, l) in y.t.iter() {
                    *acc.entry(*u).or_insert(0) += l * x.c;
                }
            }
            let mut t: Vec<_> = acc.into_iter().filter(|x| x.1 != 0).collect();
            t.sort();
            return self.mk_int(t, cc, Some((lo, hi)));
        }
        let h = self.h(a).mul(self.h(b));
        self.op(OpDesc::Mul(a, b), h, lo, hi)
    }
    /// 2^v for an integer v >= 0 (as an integer)
    pub fn pow2(&mut self, v: V) -> V {
        if let Some(k) = self.konst(v) {
            return self.int(1i128 << k.clamp(0, 120));
        }
        let (lo, hi) = self.range(v);
        let h = self.pow2_hash(v);
        let lo = lo.clamp(0, 120);
        let hi = hi.clamp(0, 120);
        let n = self.as_int(v).unwrap().clone();
        if n.t.len() == 1 && n.c >= 0 {
            if let (Term::B(b), k) = n.t[0] {
                let base = 1i128 << n.c;
                if k > 0 {
                    return self.mk_int(vec![(Term::B(b), base * ((1i128 << k) - 1))], base, None);
                }
            }
        }
        self.op(OpDesc::Pow2(v), h, 1i128 << lo, 1i128 << hi)
    }
    pub fn pow2_hash(&self, v: V) -> H {
        let n = self.as_int(v).unwrap();
        // a choice between a few exponents: the unique multilinear polynomial of the power
        if n.t.len() <= 32
            && n.t.iter().any(|(t, _)| matches!(t, Term::B(b) if self.single_atom(*b).is_none()))
            && n.t.iter().all(|(t, _)| matches!(t, Term::B(_)))
        {
            let sup = self.support(v);
            if sup.len() <= 6 {
                let m = 1usize << sup.len();
                let mut c: Vec<H> = (0..m)
                    .map(|asg| {
                        let mut k = n.c;
                        for (t, w) in n.t.iter() {
                            let Term::B(b) = t else { unreachable!() };
                            let mut val = b.neg();
                            for mono in self.bit_monos(*b) {
                                val ^= mono.iter().all(|a| asg >> sup.iter().position(|x| x == a).unwrap() & 1 == 1);
                            }
                            if val {
                                k += w;
                            }
                        }
                        H::pow2(k as i64)
                    })
                    .collect();
                for i in 0..sup.len() {
                    for s in 0..m {
                        if s >> i & 1 == 1 {
                            c[s] = c[s].sub(c[s ^ (1 << i)]);
                        }
                    }
                }
                let ah: Vec<H> = sup.iter().map(|a| self.atoms[*a as usize].h).collect();
                let mut r = H::ZERO;
                for (s, k) in c.iter().enumerate() {
                    let p = (0..sup.len()).filter(|i| s >> i & 1 == 1).fold(H::ONE, |p, i| p.mul(ah[i]));
                    r = r.add(p.mul(*k));
                }
                return r;
            }
        }
        let mut h = H::pow2(n.c as i64);
        for (t, k) in n.t.iter() {
            match t {
                Term::B(b) => {
                    let f = H::ONE.add(H::pow2(*k as i64).sub(H::ONE).mul(self.bit_hash(*b)));
                    h = h.mul(f);
                }
                Term::O(o) => {
                    let oh = self.ops[*o as usize].h;
                    let base = H::app("pow2", &[oh]);
                    let p = H(powp(base.0, k.unsigned_abs() as u64), powp(base.1, k.unsigned_abs() as u64));
                    h = h.mul(if *k < 0 { p.inv() } else { p });
                }
            }
        }
        h
    }

    /// Two's complement bits of `v` truncated to `n` bits.
    pub fn bits(&mut self, v: V, n: usize) -> Vec<Bit> {
        if let N::Float(f) = &self.nodes[v as usize].0 {
            if let Some(k) = f.k {
                let c = if n == 64 { k.to_bits() as i128 } else { (k as f32).to_bits() as i128 };
                return (0..n).map(|i| Bit::c(c >> i & 1 == 1)).collect();
            }
            return (0..n).map(|i| self.bitof(v, i as u8)).collect();
        }
        let node = self.as_int(v).unwrap().clone();
        if node.t.is_empty() {
            return (0..n).map(|i| Bit::c(i < 127 && node.c >> i & 1 == 1 || i >= 127 && node.c < 0)).collect();
        }
        // bit-like: distinct power of two coefficients, sign only at the top
        if let Some(bs) = self.bitlike(&node) {
            // bs: bits little endian, last one is the sign bit (replicated)
            return (0..n).map(|i| if i < bs.len() { bs[i] } else { *bs.last().unwrap() }).collect();
        }
        // generic ripple-carry for few terms of bits with constant (keeps precision for c + bits)
        if node.t.len() <= 12 && node.t.iter().all(|t| matches!(t.0, Term::B(_))) && n <= 16 {
            if let Some(b) = self.by_cases(v, n) {
                return b;
            }
        }
        // a plain word modulo some power of two
        for j in (1..=n.min(64)).rev() {
            if let Some(m) = modulo(&node, j) {
                let bs = match self.bitlike(&m) {
                    Some(bs) => bs,
                    None if m.t.is_empty() => (0..j).map(|i| Bit::c(m.c >> i & 1 == 1)).collect(),
                    None => continue,
                };
                return (0..n)
                    .map(|i| if i < j { bs.get(i).copied().unwrap_or(FALSE) } else { self.bitof(v, i as u8) })
                    .collect();
            }
        }
        let low = self.parity(&node);
        (0..n)
            .map(|i| match (i, low) {
                (0, Some(b)) => b,
                _ => self.bitof(v, i as u8),
            })
            .collect()
    }
    /// The lowest bit of a sum whose odd terms are bits.
    fn parity(&mut self, n: &IntN) -> Option<Bit> {
        if n.t.iter().any(|t| t.1 % 2 != 0 && !matches!(t.0, Term::B(_))) {
            return None;
        }
        let mut r = Bit::c(n.c.rem_euclid(2) == 1);
        for t in n.t.iter() {
            if let (Term::B(b), true) = (t.0, t.1 % 2 != 0) {
                r = self.xor(r, b);
            }
        }
        Some(r)
    }
    /// Exact bits by case analysis over a small boolean support.
    fn by_cases(&mut self, v: V, n: usize) -> Option<Vec<Bit>> {
        let sup = self.support(v);
        if sup.len() > 7 {
            return None;
        }
        let mut out = vec![];
        for i in 0..n {
            let b = self.table_bit(v, &sup, 0, &mut |k| (k >> i) & 1 == 1)?;
            out.push(b);
        }
        Some(out)
    }
    /// Build the boolean function f(v) as a decision over the atoms in `sup`.
    pub fn table_bit(&mut self, v: V, sup: &[Atom], d: usize, f: &mut dyn FnMut(i128) -> bool) -> Option<Bit> {
        if let Some(k) = self.konst(v) {
            return Some(Bit::c(f(k)));
        }
        if d == sup.len() {
            return None;
        }
        let a = sup[d];
        let v1 = self.subst1(v, a, true);
        let v0 = self.subst1(v, a, false);
        let x = self.table_bit(v1, sup, d + 1, f)?;
        let y = self.table_bit(v0, sup, d + 1, f)?;
        let c = self.atom_bit(a);
        Some(self.ite_bit(c, x, y))
    }
    /// Build the integer function f(v) as a decision over the atoms in `sup`.
    pub fn table_int(&mut self, v: V, sup: &[Atom], d: usize, f: &mut dyn FnMut(&mut Vals, i128) -> V) -> Option<V> {
        if let Some(k) = self.konst(v) {
            return Some(f(self, k));
        }
        if d == sup.len() {
            return None;
        }
        let a = sup[d];
        let v1 = self.subst1(v, a, true);
        let v0 = self.subst1(v, a, false);
        let x = self.table_int(v1, sup, d + 1, f)?;
        let y = self.table_int(v0, sup, d + 1, f)?;
        let c = self.atom_bit(a);
        Some(self.phi(c, x, y))
    }
    pub fn subst1(&mut self, v: V, a: Atom, b: bool) -> V {
        self.subst(v, &|x| if x == a { Some(Bit::c(b)) } else { None })
    }
    /// Substitute boolean atoms in an integer (or a top-level float choice).
    pub fn subst(&mut self, v: V, f: &dyn Fn(Atom) -> Option<Bit>) -> V {
        match self.nodes[v as usize].0.clone() {
            N::Int(n) => {
                let mut changed = false;
                let mut memo = HashMap::new();
                for (t, _) in n.t.iter() {
                    match t {
                        Term::B(b) => {
                            if self.subst_bit_m(*b, f, &mut memo) != *b {
                                changed = true;
                                break;
                            }
                        }
                        Term::O(o) => {
                            if self.subst_op(*o, f).is_some() {
                                changed = true;
                                break;
                            }
                        }
                    }
                }
                if !changed {
                    return v;
                }
                let mut acc = self.int(n.c);
                for (t, k) in n.t.iter() {
                    let x = match t {
                        Term::B(b) => {
                            let nb = self.subst_bit_m(*b, f, &mut memo);
                            self.bit_int(nb)
                        }
                        Term::O(o) => match self.subst_op(*o, f) {
                            Some(x) => x,
                            None => self.mk_int(vec![(*t, 1)], 0, None),
                        },
                    };
                    acc = self.lincomb(acc, 1, x, *k, 0);
                }
                acc
            }
            N::Float(n) => match n.desc {
                FDesc::Phi(c, x, y) => {
                    let c2 = self.subst_bit(c, f);
                    match c2.konst() {
                        Some(true) => self.subst(x, f),
                        Some(false) => self.subst(y, f),
                        None => {
                            let x2 = self.subst(x, f);
                            let y2 = self.subst(y, f);
                            if c2 == c && x2 == x && y2 == y {
                                v
                            } else {
                                self.phi(c2, x2, y2)
                            }
                        }
                    }
                }
                FDesc::Bin(op, x, y) => {
                    let x2 = self.subst(x, f);
                    let y2 = self.subst(y, f);
                    if x2 == x && y2 == y {
                        v
                    } else {
                        self.fbin(op, x2, y2)
                    }
                }
                FDesc::Un(op, x) => {
                    let x2 = self.subst(x, f);
                    if x2 == x {
                        v
                    } else {
                        self.fun(op, x2)
                    }
                }
                FDesc::Int(i) => {
                    let i2 = self.subst(i, f);
                    if i2 == i {
                        v
                    } else {
                        self.int_to_float(i2)
                    }
                }
                _ => v,
            },
        }
    }
    fn subst_op(&mut self, o: u32, f: &dyn Fn(Atom) -> Option<Bit>) -> Option<V> {
        match self.ops[o as usize].desc.clone() {
            OpDesc::Guard(b, x) => {
                let b2 = self.subst_bit(b, f);
                let x2 = self.subst(x, f);
                if b2 == b && x2 == x {
                    None
                } else {
                    let z = self.int(0);
                    Some(self.phi(b2, x2, z))
                }
            }
            OpDesc::Mul(x, y) => {
                let x2 = self.subst(x, f);
                let y2 = self.subst(y, f);
                if x2 == x && y2 == y {
                    None
                } else {
                    Some(self.mul(x2, y2))
                }
            }
            OpDesc::Pow2(x) => {
                let x2 = self.subst(x, f);
                if x2 == x {
                    None
                } else {
                    Some(self.pow2(x2))
                }
            }
            OpDesc::Div(x, k) => {
                let x2 = self.subst(x, f);
                if x2 == x {
                    None
                } else {
                    Some(self.floor_div(x2, k))
                }
            }
            OpDesc::Rem(x, k) => {
                let x2 = self.subst(x, f);
                if x2 == x {
                    None
                } else {
                    Some(self.floor_rem(x2, k))
                }
            }
            _ => None,
        }
    }
    pub fn support(&self, v: V) -> Vec<Atom> {
        let mut s = vec![];
        if let N::Int(n) = &self.nodes[v as usize].0 {
            for (t, _) in n.t.iter() {
                match t {
                    Term::B(b) => s.extend(self.bit_support(*b)),
                    Term::O(o) => match &self.ops[*o as usize].desc {
                        OpDesc::Guard(b, x) => {
                            s.extend(self.bit_support(*b));
                            s.extend(self.support(*x));
                        }
                        OpDesc::Mul(x, y) => {
                            s.extend(self.support(*x));
                            s.extend(self.support(*y));
                        }
                        OpDesc::Pow2(x) | OpDesc::Div(x, _) | OpDesc::Rem(x, _) => s.extend(self.support(*x)),
                        _ => {}
                    },
                }
            }
        }
        s.sort();
        s.dedup();
        s
    }
    pub fn bitof(&mut self, v: V, i: u8) -> Bit {
        let mut v = v;
        if let N::Int(n) = &self.nodes[v as usize].0 {
            let m = 1i128 << (i + 1).min(100);
            if n.t.iter().any(|t| t.1 % m == 0) {
                let t = n.t.iter().filter(|t| t.1 % m != 0).copied().collect();
                let c = n.c.rem_euclid(m);
                v = self.mk_int(t, c, None);
            }
        }
        let h = H::app(&format!("bitof{i}"), &[self.h(v)]);
        let a = self.atom(AtomKind::BitOf(v, i), h);
        self.atom_bit(a)
    }
    /// If the linear form is a plain two's complement word, its bits (last = sign).
    pub fn bitlike(&self, n: &IntN) -> Option<Vec<Bit>> {
        if n.t.is_empty() || n.c.unsigned_abs() >> 118 != 0 {
            return None;
        }
        // Setting a bit adds its coefficient, which flips some digits of the constant. Terms that
        // flip different digits do not interact, whatever their signs.
        let mut seen = 0i128;
        let mut terms: Vec<(i128, Bit)> = Vec::with_capacity(n.t.len());
        for (t, k) in n.t.iter() {
            let Term::B(b) = t else { return None };
            if k.unsigned_abs() >> 118 != 0 {
                return None;
            }
            let m = n.c ^ (n.c + *k);
            if seen & m != 0 {
                return None;
            }
            seen |= m;
            terms.push((m, *b));
        }
        // digits from `width` on are all alike: the sign
        let len = |x: i128| 128 - if x < 0 { (!x).leading_zeros() } else { x.leading_zeros() };
        let width = terms.iter().map(|t| len(t.0)).chain([len(n.c)]).max().unwrap();
        let mut r: Vec<Bit> = (0..=width).map(|i| Bit::c(n.c >> i & 1 == 1)).collect();
        for (m, b) in terms {
            for (i, x) in r.iter_mut().enumerate() {
                if m >> i & 1 == 1 {
                    *x = if *x == TRUE { b.not() } else { b };
                }
            }
        }
        Some(r)
    }
    pub fn from_bits(&mut self, bs: &[Bit], signed: bool) -> V {
        let n = bs.len();
        // complete BitOf sequence -> original
        if n > 0 {
            if let Some(a0) = self.single_atom(bs[0]) {
                if !bs[0].neg() {
                    if let AtomKind::BitOf(v, 0) = self.atoms[a0 as usize].kind {
                        let mut m = 1;
                        while m < n {
                            let Some(a) = self.single_atom(bs[m]) else { break };
                            if bs[m].neg() {
                                break;
                            }
                            match self.atoms[a as usize].kind {
                                AtomKind::BitOf(w, i) if w == v && i as usize == m => m += 1,
                                _ => break,
                            }
                        }
                        if m == n {
                            match &self.nodes[v as usize].0 {
                                N::Int(_) => {
                                    let (lo, hi) = self.range(v);
                                    let (tl, th) = ty_range((n / 8).max(1) as u8, signed);
                                    if n % 8 == 0 && lo >= tl && hi <= th {
                                        return v;
                                    }
                                }
                                N::Float(_) => {
                                    if n == 32 {
                                        return v;
                                    }
                                }
                            }
                        } else {
                            // zero-extended low part of a non-negative value that fits
                            let (lo, hi) = self.range(v);
                            if self.is_int(v) && lo >= 0 && m < 127 && hi < (1i128 << m) && bs[m..].iter().all(|b| *b == FALSE) {
                                return v;
                            }
                        }
                    }
                }
            }
        }
        let mut t: HashMap<Term, i128> = HashMap::new();
        let mut c = 0i128;
        for (i, b) in bs.iter().enumerate() {
            let mut k = 1i128 << i;
            if signed && i == n - 1 {
                k = -k
            }
            match b.konst() {
                Some(true) => c += k,
                Some(false) => {}
                None => {
                    if b.neg() {
                        c += k;
                        *t.entry(Term::B(b.pos())).or_insert(0) -= k;
                    } else {
                        *t.entry(Term::B(*b)).or_insert(0) += k;
                    }
                }
            }
        }
        let mut tv: Vec<_> = t.into_iter().filter(|x| x.1 != 0).collect();
        tv.sort();
        self.mk_int(tv, c, None)
    }
    /// Reduce `v` into the given integer type (two's complement wrap).
    pub fn wrap(&mut self, v: V, size: u8, signed: bool) -> V {
        let (lo, hi) = self.range(v);
        let (tl, th) = ty_range(size, signed);
        if lo >= tl && hi <= th {
            return v;
        }
        if size == 16 {
            return v;
        }
        // linear forms over multiples: drop terms whose coefficient is 0 mod 2^n
        let b = self.bits(v, size as usize * 8);
        self.from_bits(&b, signed)
    }
    pub fn floor_div(&mut self, a: V, k: i128) -> V {
        if let Some(x) = self.konst(a) {
            return self.int(x.div_euclid(k));
        }
        if k == 1 {
            return a;
        }
        let (lo, hi) = self.range(a);
        let (l, h) = (lo.div_euclid(k), hi.div_euclid(k));
        if l == h {
            return self.int(l);
        }
        let n = self.as_int(a).unwrap().clone();
        if k > 0 && n.t.iter().all(|t| t.1 % k == 0) {
            let t = n.t.iter().map(|t| (t.0, t.1 / k)).collect();
            return self.mk_int(t, n.c.div_euclid(k), Some((l, h)));
        }
        if k > 0 && (k as u128).is_power_of_two() {
            let s = k.trailing_zeros() as usize;
            if let Some(b) = self.bitlike(&n) {
                if s >= b.len() {
                    let sb = *b.last().unwrap();
                    return self.from_bits(&[sb], true);
                }
                return self.from_bits(&b[s..], true);
            }
        }
        let hh = H::app(&format!("div{k}"), &[self.h(a)]);
        self.op(OpDesc::Div(a, k), hh, l, h)
    }
    pub fn floor_rem(&mut self, a: V, k: i128) -> V {
        if let Some(x) = self.konst(a) {
            return self.int(x.rem_euclid(k));
        }
        let (lo, hi) = self.range(a);
        if lo >= 0 && hi < k {
            return a;
        }
        let n = self.as_int(a).unwrap().clone();
        if k > 0 && n.t.iter().all(|t| t.1 % k == 0) {
            return self.int(n.c.rem_euclid(k));
        }
        if k > 0 && (k as u128).is_power_of_two() {
            let s = k.trailing_zeros() as usize;
            if self.bitlike(&n).is_some() {
                let b = self.bits(a, s);
                return self.from_bits(&b, false);
            }
            if s == 1 {
                if let Some(b) = self.parity(&n) {
                    return self.from_bits(&[b], false);
                }
            }
        }
        let hh = H::app(&format!("rem{k}"), &[self.h(a)]);
        self.op(OpDesc::Rem(a, k), hh, 0, k - 1)
    }

    // ---------------------------------------------------------------- comparisons
    pub fn is_zero(&mut self, d: V) -> Bit {
        if let Some(k) = self.konst(d) {
            return Bit::c(k == 0);
        }
        let (lo, hi) = self.range(d);
        if lo > 0 || hi < 0 {
            return FALSE;
        }
        let n = self.as_int(d).unwrap().clone();
        // single term: k*t + c == 0
        if n.t.len() == 1 {
            if let (Term::B(b), k) = n.t[0] {
                return if n.c == 0 {
                    b.not()
                } else if n.c == -k {
                    b
                } else {
                    FALSE
                };
            }
        }
        if let Some(bs) = self.bitlike(&n) {
            let mut r = TRUE;
            for b in bs {
                r = self.and(r, b.not());
                if r == FALSE {
                    break;
                }
            }
            return r;
        }
        if n.t.len() <= 8 {
            let sup = self.support(d);
            if sup.len() <= 8 && n.t.iter().all(|t| matches!(t.0, Term::B(_))) {
                if let Some(b) = self.table_bit(d, &sup, 0, &mut |k| k == 0) {
                    return b;
                }
            }
        }
        // canonical sign
        let hd = self.h(d);
        let hn = hd.neg();
        let (dd, hh) = if hd <= hn {
            (d, hd)
        } else {
            (self.mulc(d, -1), hn)
        };
        let h = H::app("zero", &[hh]);
        let a = self.atom(AtomKind::Zero(dd), h);
        self.atom_bit(a)
    }
    pub fn eq(&mut self, a: V, b: V) -> Bit {
        if a == b {
            return TRUE;
        }
        // compare bitlike words bit by bit
        let (x, y) = (self.as_int(a).cloned(), self.as_int(b).cloned());
        if let (Some(x), Some(y)) = (x, y) {
            let bx = if x.t.is_empty() { None } else { self.bitlike(&x) };
            let by = if y.t.is_empty() { None } else { self.bitlike(&y) };
            let w = bx.as_ref().map(|b| b.len()).unwrap_or(0).max(by.as_ref().map(|b| b.len()).unwrap_or(0));
            if (bx.is_some() || x.t.is_empty()) && (by.is_some() || y.t.is_empty()) && w > 0 {
                let fits = |n: &IntN| !n.t.is_empty() || (n.c >= -(1i128 << (w - 1)) && n.c < (1i128 << (w - 1)));
                if !fits(&x) || !fits(&y) {
                    return FALSE;
                }
                let (p, q) = (self.bits(a, w), self.bits(b, w));
                let mut r = TRUE;
                for i in 0..w {
                    let e = self.xor(p[i], q[i]).not();
                    r = self.and(r, e);
                    if r == FALSE {
                        break;
                    }
                }
                return r;
            }
        }
        let d = self.sub(a, b);
        self.is_zero(d)
    }
    /// v < 0
    pub fn is_neg(&mut self, d: V) -> Bit {
        let (lo, hi) = self.range(d);
        if hi < 0 {
            return TRUE;
        }
        if lo >= 0 {
            return FALSE;
        }
        let n = self.as_int(d).unwrap().clone();
        if let Some(bs) = self.bitlike(&n) {
            return *bs.last().unwrap();
        }
        // c - word  or  word - c : lexicographic comparison
        let mut cst = n.clone();
        cst.c = 0;
        if n.t.iter().all(|t| matches!(t.0, Term::B(_))) {
            if let Some(bs) = self.bitlike(&cst) {
                if *bs.last().unwrap() == FALSE {
                    // word + c < 0  <=> word < -c
                    return self.word_lt(&bs, -n.c);
                }
            }
            let neg = IntN { t: Rc::new(n.t.iter().map(|t| (t.0, -t.1)).collect()), c: 0, lo: -n.hi, hi: -n.lo };
            if let Some(bs) = self.bitlike(&neg) {
                if *bs.last().unwrap() == FALSE {
                    // c - word < 0 <=> not (word < c+1)
                    return self.word_lt(&bs, n.c + 1).not();
                }
            }
            let sup = self.support(d);
            if sup.len() <= 8 {
                if let Some(b) = self.table_bit(d, &sup, 0, &mut |k| k < 0) {
                    return b;
                }
            }
        }
        // canonical orientation: d<0 or !( -d-1 < 0 )
        let nd = self.mulc(d, -1);
        let nd = self.addc(nd, -1);
        let (hd, hn) = (self.h(d), self.h(nd));
        if hd <= hn {
            let h = H::app("neg", &[hd]);
            let a = self.atom(AtomKind::Neg(d), h);
            self.atom_bit(a)
        } else {
            let h = H::app("neg", &[hn]);
            let a = self.atom(AtomKind::Neg(nd), h);
            self.atom_bit(a).not()
        }
    }
    fn word_lt(&mut self, bs: &[Bit], k: i128) -> Bit {
        if k <= 0 {
            return FALSE;
        }
        let w = bs.len();
        if w < 126 && k > (1i128 << w) {
            return TRUE;
        }
        let mut r = FALSE; // equal -> not less
        for i in 0..w {
            let kb = k >> i & 1 == 1;
            r = if kb {
                self.or(bs[i].not(), r)
            } else {
                self.and(bs[i].not(), r)
            };
        }
        if k >> w != 0 {
            return TRUE;
        }
        r
    }
    pub fn lt(&mut self, a: V, b: V) -> Bit {
        let d = self.sub(a, b);
        self.is_neg(d)
    }
    pub fn le(&mut self, a: V, b: V) -> Bit {
        self.lt(b, a).not()
    }
    pub fn to_bit(&mut self, v: V) -> Bit {
        if let Some(k) = self.konst(v) {
            return Bit::c(k != 0);
        }
        self.is_zero(v).not()
    }

    // ---------------------------------------------------------------- choice
    pub fn phi(&mut self, c: Bit, x: V, y: V) -> V {
        match c.konst() {
            Some(true) => return x,
            Some(false) => return y,
            None => {}
        }
        if x == y || y == 0 {
            return x;
        }
        if x == 0 {
            return y;
        }
        if let Some(r) = self.phi_cache.get(&(c, x, y)) {
            return *r;
        }
        let r = match (self.is_int(x), self.is_int(y)) {
            (true, true) => {
                let d = self.sub(x, y);
                let dn = self.as_int(d).unwrap().clone();
                let hull = {
                    let (a, b) = (self.range(x), self.range(y));
                    (a.0.min(b.0), a.1.max(b.1))
                };
                // when both are words, choose bit by bit (keeps provenance exact)
                let wx = self.as_int(x).unwrap().clone();
                let wy = self.as_int(y).unwrap().clone();
                let bx = if wx.t.is_empty() { None } else { self.bitlike(&wx) };
                let by = if wy.t.is_empty() { None } else { self.bitlike(&wy) };
                let kw = |k: i128| -> usize {
                    let mut w = 1;
                    while !(k >= -(1i128 << (w - 1)) && k < (1i128 << (w - 1))) {
                        w += 1
                    }
                    w
                };
                let small = dn.t.iter().all(|t| matches!(t.0, Term::B(_))) && dn.t.len() <= 40;
                if (bx.is_some() || wx.t.is_empty()) && (by.is_some() || wy.t.is_empty()) && !(dn.t.is_empty() && false) {
                    let w = bx
                        .map(|b| b.len())
                        .unwrap_or_else(|| kw(wx.c))
                        .max(by.map(|b| b.len()).unwrap_or_else(|| kw(wy.c)));
                    let (p, q) = (self.bits(x, w), self.bits(y, w));
                    let r: Vec<Bit> = (0..w).map(|i| self.ite_bit(c, p[i], q[i])).collect();
                    let v = self.from_bits(&r, true);
                    self.tighten(v, hull);
                    v
                } else if small || dn.t.len() <= 8 {
                    let mut acc = y;
                    let cb = self.bit_int(c);
                    acc = self.lincomb(acc, 1, cb, dn.c, 0);
                    for (t, k) in dn.t.iter() {
                        let p = match t {
                            Term::B(b) => {
                                let e = self.and(c, *b);
                                self.bit_int(e)
                            }
                            Term::O(o) => {
                                let info = self.ops[*o as usize].clone();
                                let ov = self.mk_int(vec![(*t, 1)], 0, None);
                                let h = self.bit_hash(c).mul(info.h);
                                self.op(OpDesc::Guard(c, ov), h, info.lo.min(0), info.hi.max(0))
                            }
                        };
                        acc = self.lincomb(acc, 1, p, *k, 0);
                    }
                    self.tighten(acc, hull);
                    acc
                } else {
                    let h = self.bit_hash(c).mul(self.h(d));
                    let (dl, dh) = self.range(d);
                    let g = self.op(OpDesc::Guard(c, d), h, dl.min(0), dh.max(0));
                    let v = self.add(y, g);
                    self.tighten(v, hull);
                    v
                }
            }
            (false, false) => {
                let ix = self.as_float(x).unwrap().int;
                let iy = self.as_float(y).unwrap().int;
                let ((rx, ex), (ry, ey)) = (self.parts(x), self.parts(y));
                if let (Some(a), Some(b), false) = (ix, iy, rx == ry) {
                    let i = self.phi(c, a, b);
                    self.int_to_float(i)
                } else {
                    if rx == ry {
                        let e = self.phi(c, ex, ey);
                        let h = rx.mul(self.pow2_hash(e));
                        let int = match (ix, iy) {
                            (Some(a), Some(b)) => Some(self.phi(c, a, b)),
                            _ => None,
                        };
                        let r = self.mk_float(h, None, int, FDesc::Phi(c, x, y));
                        let r = self.with_exp(r, Some((rx, e)));
                        self.phi_cache.insert((c, x, y), r);
                        return r;
                    }
                    let hc = self.bit_hash(c);
                    let h = hc.mul(self.h(x)).add(H::ONE.sub(hc).mul(self.h(y)));
                    self.mk_float(h, None, None, FDesc::Phi(c, x, y))
                }
            }
            _ => {
                // mixed representation of raw bits: go through the bits of the float
                let (bx, by) = (self.bits(x, 32), self.bits(y, 32));
                let r: Vec<Bit> = (0..32).map(|i| self.ite_bit(c, bx[i], by[i])).collect();
                self.from_bits(&r, false)
            }
        };
        self.phi_cache.insert((c, x, y), r);
        r
    }
    fn tighten(&mut self, v: V, r: (i128, i128)) {
        if let N::Int(n) = &mut self.nodes[v as usize].0 {
            n.lo = n.lo.max(r.0);
            n.hi = n.hi.min(r.1);
        }
    }

    // ---------------------------------------------------------------- floats
    pub fn mk_float(&mut self, h: H, k: Option<f64>, int: Option<V>, desc: FDesc) -> V {
        if let Some(v) = self.float_ix.get(&h) {
            let v = *v;
            if let N::Float(f) = &mut self.nodes[v as usize].0 {
                if f.k.is_none() {
                    f.k = k
                }
                if f.int.is_none() {
                    f.int = int
                }
            }
            return v;
        }
        let v = self.nodes.len() as V;
        self.nodes.push((N::Float(FloatN { k, int, desc, e: None }), h));
        self.float_ix.insert(h, v);
        v
    }
    pub fn fconst(&mut self, x: f64) -> V {
        if !x.is_finite() {
            let h = H::name(format!("special:{x}").as_bytes());
            return self.mk_float(h, Some(x), None, FDesc::Konst(x));
        }
        let h = H::f64(x);
        let int = if x.fract() == 0.0 && x.abs() < 1e15 { Some(self.int(x as i128)) } else { None };
        self.mk_float(h, Some(x), int, FDesc::Konst(x))
    }
    pub fn named_float(&mut self, name: &str) -> V {
        let h = H::name(format!("float:{name}").as_bytes());
        self.mk_float(h, None, None, FDesc::Named(name.into()))
    }
    pub fn int_to_float(&mut self, v: V) -> V {
        let k = self.konst(v).map(|k| k as f64);
        let h = self.h(v);
        let x = self.mk_float(h, k, Some(v), FDesc::Int(v));
        if k.is_none() {
            if let Some(e) = self.log2_of(v) {
                self.with_exp(x, Some((H::ONE, e)));
            }
        }
        x
    }
    /// The exponent of an integer that can only be a power of two.
    fn log2_of(&mut self, v: V) -> Option<V> {
        let n = self.as_int(v)?.clone();
        if n.t.len() == 1 && n.c == 0 {
            if let (Term::O(o), k) = n.t[0] {
                if let OpDesc::Pow2(e) = self.ops[o as usize].desc {
                    if k > 0 && k & (k - 1) == 0 {
                        return Some(self.addc(e, k.trailing_zeros() as i128));
                    }
                }
                return None;
            }
        }
        if n.t.is_empty() || n.t.len() > 15 || n.t.iter().any(|t| matches!(t.0, Term::O(_))) {
            return None;
        }
        let sup = self.support(v);
        if sup.len() > 4 {
            return None;
        }
        let mut ok = true;
        let r = self.table_int(v, &sup, 0, &mut |m, k| {
            ok &= k > 0 && k & (k - 1) == 0;
            m.int(if k > 0 { k.trailing_zeros() as i128 } else { 0 })
        });
        if ok {
            r
        } else {
            None
        }
    }
    fn with_exp(&mut self, x: V, e: Option<(H, V)>) -> V {
        if let N::Float(f) = &mut self.nodes[x as usize].0 {
            if f.e.is_none() {
                f.e = e
            }
        }
        x
    }
    /// Mantissa and exponent of a float (of any float: itself and zero).
    fn parts(&mut self, x: V) -> (H, V) {
        let f = self.as_float(x).unwrap();
        match (f.e, f.k) {
            (Some(e), _) => e,
            (None, Some(k)) if k > 0.0 && k.is_finite() && k.to_bits() & ((1 << 52) - 1) == 0 => {
                let e = (k.to_bits() >> 52) as i128 - 1023;
                (H::ONE, self.int(e))
            }
            _ => (self.h(x), self.int(0)),
        }
    }
    pub fn fbin(&mut self, op: &'static str, x: V, y: V) -> V {
        let (hx, hy) = (self.h(x), self.h(y));
        let (fx, fy) = (self.as_float(x).unwrap().clone(), self.as_float(y).unwrap().clone());
        if let (Some(a), Some(b)) = (fx.k, fy.k) {
            if !a.is_finite() || !b.is_finite() || (op == "/" && b == 0.0) {
                let r = match op {
                    "+" => a + b,
                    "-" => a - b,
                    "*" => a * b,
                    "/" => a / b,
                    _ => f64::NAN,
                };
                return self.fconst(r);
            }
        }
        let k = match (fx.k, fy.k) {
            (Some(a), Some(b)) => Some(match op {
                "+" => (a as f32 + b as f32) as f64,
                "-" => (a as f32 - b as f32) as f64,
                "*" => (a as f32 * b as f32) as f64,
                "/" => (a as f32 / b as f32) as f64,
                _ => f64::NAN,
            }),
            _ => None,
        };
        let ints = match (fx.int, fy.int) {
            (Some(a), Some(b)) => Some((a, b)),
            _ => None,
        };
        match op {
            "+" => {
                let int = ints.map(|(a, b)| self.add(a, b));
                self.mk_float(hx.add(hy), k, int, FDesc::Bin("+", x, y))
            }
            "-" => {
                let int = ints.map(|(a, b)| self.sub(a, b));
                self.mk_float(hx.sub(hy), k, int, FDesc::Bin("-", x, y))
            }
            "*" => {
                let int = match ints {
                    Some((a, b)) if self.konst(a).is_some() || self.konst(b).is_some() => Some(self.mul(a, b)),
                    _ => None,
                };
                let r = self.mk_float(hx.mul(hy), k, int, FDesc::Bin("*", x, y));
                if fx.e.is_some() || fy.e.is_some() {
                    let ((rx, ex), (ry, ey)) = (self.parts(x), self.parts(y));
                    let e = self.add(ex, ey);
                    self.with_exp(r, Some((rx.mul(ry), e)));
                }
                r
            }
            "/" => {
                if hy == H::ZERO {
                    let h = H::app("div0", &[hx]);
                    return self.mk_float(h, None, None, FDesc::Bin("/", x, y));
                }
                if fx.e.is_some() || fy.e.is_some() {
                    // a power of two divides by subtracting its exponent
                    let ((rx, ex), (ry, ey)) = (self.parts(x), self.parts(y));
                    if ry == H::ZERO {
                        let h = H::app("div0", &[hx]);
                        return self.mk_float(h, None, None, FDesc::Bin("/", x, y));
                    }
                    let e = self.sub(ex, ey);
                    let m = rx.mul(ry.inv());
                    let h = m.mul(self.pow2_hash(e));
                    let r = self.mk_float(h, k, None, FDesc::Bin("/", x, y));
                    return self.with_exp(r, Some((m, e)));
                }
                self.mk_float(hx.mul(hy.inv()), k, None, FDesc::Bin("/", x, y))
            }
            "powf" => {
                if let Some(e) = fy.k {
                    if e == 1.0 {
                        return x;
                    }
                    if e.fract() == 0.0 && e.abs() <= 32.0 {
                        return self.fpowi(x, e as i64);
                    }
                    if let FDesc::Bin("powf", z, e2) = fx.desc {
                        if let Some(e2k) = self.as_float(e2).unwrap().k {
                            let ee = self.fconst(e * e2k);
                            return self.fbin("powf", z, ee);
                        }
                    }
                }
                if fx.k == Some(2.0) {
                    return self.fun("exp2", y);
                }
                let h = H::app("powf", &[hx, hy]);
                let k = match (fx.k, fy.k) {
                    (Some(a), Some(b)) => Some((a as f32).powf(b as f32) as f64),
                    _ => None,
                };
                self.mk_float(h, k, None, FDesc::Bin("powf", x, y))
            }
            _ => {
                let h = H::app(op, &[hx, hy]);
                self.mk_float(h, None, None, FDesc::Bin(op, x, y))
            }
        }
    }
    pub fn fpowi(&mut self, x: V, n: i64) -> V {
        let one = self.fconst(1.0);
        let mut r = one;
        for _ in 0..n.abs() {
            r = self.fbin("*", r, x);
        }
        if n < 0 {
            r = self.fbin("/", one, r);
        }
        r
    }
    pub fn fun(&mut self, op: &'static str, x: V) -> V {
        let hx = self.h(x);
        let fx = self.as_float(x).unwrap().clone();
        match op {
            "neg" => {
                let int = fx.int.map(|a| self.mulc(a, -1));
                let r = self.mk_float(hx.neg(), fx.k.map(|k| -k), int, FDesc::Un("neg", x));
                self.with_exp(r, fx.e.map(|(m, e)| (m.neg(), e)))
            }
            "exp2" => {
                if let Some(i) = fx.int {
                    let h = self.pow2_hash(i);
                    let k = self.konst(i).map(|k| (k as f64).exp2());
                    let int = k.filter(|k| k.fract() == 0.0 && k.abs() < 1e15).map(|k| self.int(k as i128));
                    let int = match int {
                        Some(i) => Some(i),
                        None => {
                            let (lo, hi) = self.range(i);
                            if lo >= 0 && hi <= 64 {
                                Some(self.pow2(i))
                            } else {
                                None
                            }
                        }
                    };
                    let r = self.mk_float(h, k, int, FDesc::Un("exp2", x));
                    return if k.is_none() { self.with_exp(r, Some((H::ONE, i))) } else { r };
                }
                let h = H::app("exp2", &[hx]);
                self.mk_float(h, None, None, FDesc::Un("exp2", x))
            }
            "sqrt" => {
                let half = self.fconst(0.5);
                self.fbin("powf", x, half)
            }
            "fabs" => {
                if let Some(k) = fx.k {
                    return self.fconst(k.abs());
                }
                if let Some(i) = fx.int {
                    if self.range(i).0 >= 0 {
                        return x;
                    }
                }
                let h = H::app("fabs", &[hx]);
                self.mk_float(h, None, None, FDesc::Un("fabs", x))
            }
            _ => {
                if let Some(k) = fx.k {
                    let r = match op {
                        "floor" => Some(k.floor()),
                        "ceil" => Some(k.ceil()),
                        "trunc" => Some(k.trunc()),
                        "round" => Some(k.round()),
                        _ => None,
                    };
                    if let Some(r) = r {
                        return self.fconst(r);
                    }
                }
                if fx.int.is_some() && matches!(op, "floor" | "ceil" | "trunc" | "round") {
                    return x;
                }
                let h = H::app(op, &[hx]);
                self.mk_float(h, None, None, FDesc::Un(op, x))
            }
        }
    }
    pub fn fcmp(&mut self, op: &'static str, x: V, y: V) -> Bit {
        // op in eq, lt, le
        let (fx, fy) = (self.as_float(x).unwrap().clone(), self.as_float(y).unwrap().clone());
        if let (Some(a), Some(b)) = (fx.k, fy.k) {
            return Bit::c(match op {
                "eq" => a == b,
                "lt" => a < b,
                _ => a <= b,
            });
        }
        if let (Some(a), Some(b)) = (fx.int, fy.int) {
            return match op {
                "eq" => self.eq(a, b),
                "lt" => self.lt(a, b),
                _ => self.le(a, b),
            };
        }
        // fold a choice between two values
        for (v, first) in [(x, true), (y, false)] {
            if let FDesc::Phi(c, p, q) = self.as_float(v).unwrap().desc {
                let (bp, bq) = if first {
                    (self.fcmp(op, p, y), self.fcmp(op, q, y))
                } else {
                    (self.fcmp(op, x, p), self.fcmp(op, x, q))
                };
                return self.ite_bit(c, bp, bq);
            }
        }
        let (hx, hy) = (self.h(x), self.h(y));
        if op == "eq" {
            let d = hx.sub(hy);
            let d = d.min(d.neg());
            let h = H::app("feq", &[d]);
            let a = self.atom(AtomKind::FCmp(op, x, y), h);
            return self.atom_bit(a);
        }
        let h = H::app(if op == "lt" { "flt" } else { "fle" }, &[hx.sub(hy)]);
        let a = self.atom(AtomKind::FCmp(op, x, y), h);
        self.atom_bit(a)
    }
    pub fn float_to_int(&mut self, x: V, size: u8, signed: bool) -> V {
        let f = self.as_float(x).unwrap().clone();
        let (tl, th) = ty_range(size, signed);
        if let Some(k) = f.k {
            let k = if k.is_nan() { 0.0 } else { k };
            let r = if k <= tl as f64 {
                tl
            } else if k >= th as f64 {
                th
            } else {
                k as i128
            };
            return self.int(r);
        }
        if let Some(i) = f.int {
            let (lo, hi) = self.range(i);
            if lo >= tl && hi <= th {
                return i;
            }
        }
        let h = H::app(&format!("ftoi{size}{signed}"), &[self.h(x)]);
        self.op(OpDesc::FloatToInt(x), h, tl, th)
    }

    // ---------------------------------------------------------------- display
    pub fn show_bit(&self, b: Bit) -> String {
        if let Some(k) = b.konst() {
            return (k as u8).to_string();
        }
        let ms = self.bit_monos(b);
        let mut s: Vec<String> = ms
            .iter()
            .take(show_limit())
            .map(|m| m.iter().map(|a| self.show_atom(*a)).collect::<Vec<_>>().join("&"))
            .collect();
        if ms.len() > show_limit() {
            s.push("…".into())
        }
        format!("{}{}", if b.neg() { "!" } else { "" }, if s.len() > 1 { format!("({})", s.join("^")) } else { s.join("^") })
    }
    pub fn show_atom(&self, a: Atom) -> String {
        let level = SHOWN.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        let s = if level > 3 { "…".into() } else { self.show_atom_in(a) };
        SHOWN.with(|c| c.set(c.get() - 1));
        s
    }
    fn show_atom_in(&self, a: Atom) -> String {
        match &self.atoms[a as usize].kind {
            AtomKind::Named(s) => s.clone(),
            AtomKind::BitOf(v, i) => format!("bit{}[{}]", i, self.show_d(*v, 2)),
            AtomKind::Neg(v) => format!("({}<0)", self.show_d(*v, 2)),
            AtomKind::Zero(v) => format!("({}==0)", self.show_d(*v, 2)),
            AtomKind::FCmp(o, x, y) => format!("({} {} {})", self.show_d(*x, 2), o, self.show_d(*y, 2)),
            AtomKind::And(x, y) => format!("({}&{})", self.show_bit(*x), self.show_bit(*y)),
            AtomKind::Other(s) => s.clone(),
        }
    }
    /// The innermost place where two expressions of the same shape differ.
    pub fn diff(&self, x: V, y: V) -> (V, V) {
        let same = |a: V, b: V| self.h(a) == self.h(b);
        if let (N::Float(f), N::Float(g)) = (&self.nodes[x as usize].0, &self.nodes[y as usize].0) {
            match (&f.desc, &g.desc) {
                (FDesc::Int(a), FDesc::Int(b)) => return (*a, *b),
                (FDesc::Un(o, a), FDesc::Un(p, b)) if o == p => return self.diff(*a, *b),
                (FDesc::Bin(o, a, b), FDesc::Bin(p, c, d)) if o == p => {
                    let pairs = [(a, c, b, d), (b, d, a, c), (a, d, b, c), (b, c, a, d)];
                    for (s, t, u, v) in pairs {
                        if same(*s, *t) {
                            return self.diff(*u, *v);
                        }
                    }
                }
                _ => {}
            }
        }
        (x, y)
    }
    pub fn show(&self, v: V) -> String {
        self.show_d(v, 5)
    }
    fn show_d(&self, v: V, d: usize) -> String {
        if v == 0 {
            return "<uninit>".into();
        }
        if d == 0 {
            return "…".into();
        }
        match &self.nodes[v as usize].0 {
            N::Int(n) => {
                let mut s: Vec<String> = vec![];
                for (i, (t, k)) in n.t.iter().enumerate() {
                    if i > show_limit() {
                        s.push("…".into());
                        break;
                    }
                    let x = match t {
                        Term::B(b) => self.show_bit(*b),
                        Term::O(o) => match &self.ops[*o as usize].desc {
                            OpDesc::Named(n) => n.clone(),
                            OpDesc::Mul(a, b) => format!("({})*({})", self.show_d(*a, d - 1), self.show_d(*b, d - 1)),
                            OpDesc::Pow2(a) => format!("2^({})", self.show_d(*a, d - 1)),
                            OpDesc::Div(a, k) => format!("({})/{}", self.show_d(*a, d - 1), k),
                            OpDesc::Rem(a, k) => format!("({})%{}", self.show_d(*a, d - 1), k),
                            OpDesc::FloatToInt(a) => format!("int({})", self.show_d(*a, d - 1)),
                            OpDesc::FloatBits(a) => format!("bits({})", self.show_d(*a, d - 1)),
                            OpDesc::Guard(b, a) => format!("[{}]*({})", self.show_bit(*b), self.show_d(*a, d - 1)),
                            OpDesc::Other(n) => n.clone(),
                        },
                    };
                    s.push(if *k == 1 { x } else { format!("{k}*{x}") });
                }
                if n.c != 0 || s.is_empty() {
                    s.push(n.c.to_string());
                }
                s.join(" + ")
            }
            N::Float(f) => {
                if let Some(k) = f.k {
                    return format!("{k}f");
                }
                match &f.desc {
                    FDesc::Konst(k) => format!("{k}f"),
                    FDesc::Named(s) => s.clone(),
                    FDesc::Int(i) => format!("f({})", self.show_d(*i, d - 1)),
                    FDesc::Phi(c, x, y) => {
                        format!("if {} then {} else {}", self.show_bit(*c), self.show_d(*x, d - 1), self.show_d(*y, d - 1))
                    }
                    FDesc::Bin(o, x, y) => format!("({} {} {})", self.show_d(*x, d - 1), o, self.show_d(*y, d - 1)),
                    FDesc::Un(o, x) => format!("{}({})", o, self.show_d(*x, d - 1)),
                    FDesc::Raw => "raw".into(),
                }
            }
        }
    }
}

/// A form with all coefficients reduced modulo 2^j, if only bits remain.
fn modulo(n: &IntN, j: usize) -> Option<IntN> {
    let m = 1i128 << j;
    let mut t = vec![];
    for (x, k) in n.t.iter() {
        let k = k.rem_euclid(m);
        if k != 0 {
            if !matches!(x, Term::B(_)) {
                return None;
            }
            t.push((*x, k));
        }
    }
    Some(IntN { t: Rc::new(t), c: n.c.rem_euclid(m), lo: 0, hi: 0 })
}
thread_local! {
    /// How deeply the atom being displayed is nested in others.
    static SHOWN: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// How many summands a displayed value lists (MLXSA_LONG: all).
fn show_limit() -> usize {
    if std::env::var_os("MLXSA_LONG").is_some() {
        1000
    } else {
        8
    }
}
