//! Joining abstract states. Two states meeting at the same program point are joined cell by
//! cell with a choice gated by the branch condition on which they diverged (gated phi), so no
//! path is enumerated and no information about which arm produced a value is lost.
use crate::state::*;
use crate::val::*;
use std::collections::HashMap;
use std::rc::Rc;

pub fn byte_val(vs: &mut Vals, c: Cell) -> V {
    if c.size == 1 {
        return vs.wrap(c.val, 1, false);
    }
    let b = vs.bits(c.val, c.size as usize * 8);
    let i = c.idx as usize * 8;
    vs.from_bits(&b[i..i + 8], false)
}
pub fn cells_of(v: V, size: u8) -> impl Iterator<Item = Cell> {
    (0..size).map(move |i| Cell { val: v, idx: i, size, sg: 0 })
}
/// Cells of a value known to be a `usize`.
pub fn usize_cells(v: V) -> impl Iterator<Item = Cell> {
    cells_of(v, 8).map(|c| Cell { sg: 1, ..c })
}
/// Does a whole scalar start at s[i]?
pub fn whole(s: &[Cell], i: usize) -> Option<Cell> {
    let c = s[i];
    if c.val == 0 || c.idx != 0 || i + c.size as usize > s.len() {
        return None;
    }
    for k in 1..c.size as usize {
        let d = s[i + k];
        if d.val != c.val || d.idx as usize != k || d.size != c.size {
            return None;
        }
    }
    Some(c)
}
pub fn merge_cells(vs: &mut Vals, g: Bit, a: &[Cell], b: &[Cell]) -> Vec<Cell> {
    merge_noting(vs, g, a, b, &mut vec![])
}
fn merge_noting(vs: &mut Vals, g: Bit, a: &[Cell], b: &[Cell], joined: &mut Vec<(V, V, V)>) -> Vec<Cell> {
    let mut r = a.to_vec();
    let mut i = 0;
    while i < a.len() {
        if a[i] == b[i] {
            i += 1;
            continue;
        }
        if a[i].val == 0 {
            r[i] = b[i];
            i += 1;
            continue;
        }
        if b[i].val == 0 {
            i += 1;
            continue;
        }
        if let (Some(x), Some(y)) = (whole(a, i), whole(b, i)) {
            if x.size == y.size {
                let v = vs.phi(g, x.val, y.val);
                if vs.is_int(v) {
                    joined.push((v, x.val, y.val));
                }
                let sg = if x.sg == y.sg { x.sg } else { 0 };
                for c in cells_of(v, x.size) {
                    r[i] = Cell { sg, ..c };
                    i += 1;
                }
                continue;
            }
        }
        let (x, y) = (byte_val(vs, a[i]), byte_val(vs, b[i]));
        let v = vs.phi(g, x, y);
        r[i] = Cell { val: v, idx: 0, size: 1, sg: 0 };
        i += 1;
    }
    r
}

/// Join two states with gate `g` (true: `a`).
pub fn join2(vs: &mut Vals, g: Bit, a: State, b: State) -> State {
    debug_assert_eq!(a.sp, b.sp);
    let mut joined = vec![];
    // what each side knows about the values it contributes
    let (ra, rb) = (a.refine.clone(), b.refine.clone());
    let mut r = a;
    let pages = r.mem.diff_pages(&b.mem, r.sp);
    for p in pages {
        let base = p * PG;
        // scalars never straddle a page unless they are unaligned: widen to be safe
        let ca: Vec<Cell> = (0..PG).map(|i| r.mem.get(base + i)).collect();
        let cb: Vec<Cell> = (0..PG).map(|i| b.mem.get(base + i)).collect();
        if ca == cb {
            continue;
        }
        let m = merge_noting(vs, g, &ca, &cb, &mut joined);
        for (i, c) in m.into_iter().enumerate() {
            if c != ca[i] {
                r.mem.set(base + i, c);
            }
        }
    }
    for p in r.facts.diff_pages(&b.facts, usize::MAX) {
        for i in p * PG..(p + 1) * PG {
            let (x, y) = (r.facts.get(i), b.facts.get(i));
            if x != y && x != 0 {
                r.facts.set(i, 0);
            }
        }
    }
    for p in r.known.diff_pages(&b.known, usize::MAX) {
        for i in p * PG..(p + 1) * PG {
            let (x, y) = (r.known.get(i), b.known.get(i));
            if x != y && x != 0 {
                r.known.set(i, 0);
            }
        }
    }
    if !Rc::ptr_eq(&r.refine, &b.refine) && r.refine != b.refine {
        let mut m = std::collections::BTreeMap::new();
        for (k, (l, h)) in r.refine.iter() {
            if let Some((l2, h2)) = b.refine.get(k) {
                m.insert(*k, (*l.min(l2), *h.max(h2)));
            }
        }
        r.refine = Rc::new(m);
    }
    if !Rc::ptr_eq(&ra, &rb) {
        joined.sort();
        joined.dedup();
        for (v, x, y) in joined {
            let both = std::mem::replace(&mut r.refine, ra.clone());
            let p = r.range(vs, x);
            r.refine = rb.clone();
            let q = r.range(vs, y);
            r.refine = both;
            let (lo, hi) = (p.0.min(q.0), p.1.max(q.1));
            let now = r.range(vs, v);
            if lo > now.0 || hi < now.1 {
                r.refine_rel(vs, v, lo, hi);
            }
        }
    }
    if r.cons != b.cons {
        let c: Vec<Bit> = r.cons.iter().filter(|c| b.cons.contains(c)).copied().collect();
        r.cons = Rc::new(c);
    }
    r.steps = r.steps.max(b.steps);
    r.wide = match (r.wide.take(), &b.wide) {
        (Some(x), Some(y)) if Rc::ptr_eq(&x, y) => Some(x),
        _ => None,
    };
    r
}

struct Ent {
    st: State,
    /// virtual position in the branch history
    pos: Option<Rc<Hist>>,
    /// literals between the virtual position and the real one
    lits: Vec<Bit>,
    /// the literals characterise this state exactly, relative to `pos`
    exact: bool,
    /// covers all of `pos`
    full: bool,
    /// last fork lifted through: id, arm, condition, "covered its whole arm"
    last: Option<(u64, bool, Bit, bool, bool)>,
    seq: usize,
}
fn depth(p: &Option<Rc<Hist>>) -> u32 {
    p.as_ref().map(|h| h.depth).unwrap_or(0)
}
fn key(p: &Option<Rc<Hist>>) -> usize {
    p.as_ref().map(|h| Rc::as_ptr(h) as usize).unwrap_or(0)
}

/// Join all states (same program point, same log, same tag).
pub fn join_all(vs: &mut Vals, states: Vec<State>, stats: &mut u64) -> State {
    if states.len() == 1 {
        return states.into_iter().next().unwrap();
    }
    let mut levels: std::collections::BTreeMap<u32, Vec<Ent>> = Default::default();
    let n = states.len();
    let mut live = n;
    let mut seq = 0;
    for st in states {
        let (pos, full) = (st.hist.clone(), st.full);
        levels.entry(depth(&pos)).or_default().push(Ent { st, pos, lits: vec![], exact: full, full, last: None, seq });
        seq += 1;
    }
    loop {
        let d = *levels.keys().next_back().unwrap();
        let ents = levels.remove(&d).unwrap();
        // join entries at the same virtual position
        let mut by: HashMap<usize, Vec<Ent>> = HashMap::new();
        let mut order: Vec<usize> = vec![];
        for e in ents {
            let k = key(&e.pos);
            if !by.contains_key(&k) {
                order.push(k)
            }
            by.entry(k).or_default().push(e);
        }
        let mut out: Vec<Ent> = vec![];
        for k in order {
            let mut es = by.remove(&k).unwrap();
            // newest forks first, siblings of one fork adjacent
            es.sort_by_key(|e| (std::cmp::Reverse(e.last.map(|l| l.0).unwrap_or(0)), e.seq));
            let mut cur: Option<Ent> = None;
            for e in es {
                cur = Some(match cur {
                    None => e,
                    Some(c) => {
                        live -= 1;
                        *stats += 1;
                        join_ent(vs, c, e)
                    }
                });
            }
            out.push(cur.unwrap());
        }
        if live == 1 {
            let e = out.pop().unwrap();
            let mut st = e.st;
            st.hist = e.pos;
            st.full = e.full;
            restore(vs, &mut st);
            return st;
        }
        for mut e in out {
            let h = e.pos.clone().expect("distinct states at the root");
            e.lits.push(if h.arm { h.cond } else { h.cond.not() });
            e.last = Some((h.fork, h.arm, h.cond, e.full, h.exact));
            e.exact = e.exact && h.exact;
            e.full = false;
            e.pos = h.parent.clone();
            levels.entry(d - 1).or_default().push(e);
        }
    }
}
/// Branch conditions of the joined state that every side had already reduced to (different)
/// facts are conditions of the join itself.
fn restore(vs: &mut Vals, st: &mut State) {
    let mut h = st.hist.clone();
    while let Some(x) = h {
        let c = if x.arm { x.cond } else { x.cond.not() };
        if vs.single_atom(c).is_none() && st.cons.len() < 64 {
            let r = st.reduce_bit(vs, c);
            if r.konst().is_none() && !st.cons.contains(&r) && !st.cons.contains(&c) {
                std::rc::Rc::make_mut(&mut st.cons).push(r);
            }
        }
        h = x.parent.clone();
    }
}
fn conj(vs: &mut Vals, l: &[Bit]) -> Bit {
    let mut r = TRUE;
    for b in l.iter().rev() {
        r = vs.and(r, *b);
    }
    r
}
fn join_ent(vs: &mut Vals, a: Ent, b: Ent) -> Ent {
    if let (Some(x), Some(y)) = (a.last, b.last) {
        if x.0 == y.0 && x.1 != y.1 {
            let g = if x.1 { x.2 } else { x.2.not() };
            let both = x.3 && y.3;
            let full = both && x.4;
            let st = join2(vs, g, a.st, b.st);
            return Ent { st, pos: a.pos, lits: vec![], exact: full, full, last: None, seq: a.seq.min(b.seq) };
        }
    }
    let g = if a.exact && !a.lits.is_empty() {
        conj(vs, &a.lits)
    } else if b.exact && !b.lits.is_empty() {
        conj(vs, &b.lits).not()
    } else {
        vs.fresh_bit("join")
    };
    let st = join2(vs, g, a.st, b.st);
    Ent { st, pos: a.pos, lits: vec![], exact: false, full: false, last: None, seq: a.seq.min(b.seq) }
}
