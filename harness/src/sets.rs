//! OrdinalSet, OrdinalSet64 and OrdinalArraySet against a BTreeSet of ordinals.
use crate::case::{bulk, Case, Ctx, Info, Res};
use crate::drive::{d0, d1, exact_adapters, fmt_eq, Hooks};
use crate::key::{pick, Key, Loose};
use crate::{ensure, same, tr};
use ordinal_map::set::{ordinal_array_set_s, Iter, Iter64, OrdinalArraySet, OrdinalSet, OrdinalSet64};
use std::collections::{BTreeSet, VecDeque};
use std::fmt::Debug;

pub type Model = BTreeSet<usize>;

pub trait Set<K: Key>: Clone + Debug + Default + FromIterator<K> {
    fn new() -> Self;
    fn insert(&mut self, k: K) -> bool;
    fn contains(&self, k: &K) -> bool;
    /// `None` when the set type has no iterator.
    fn list(&self, _limit: usize) -> Option<Vec<usize>> {
        None
    }
}
impl<K: Key> Set<K> for OrdinalSet<K> {
    fn new() -> Self {
        Self::new()
    }
    fn insert(&mut self, k: K) -> bool {
        self.insert(k)
    }
    fn contains(&self, k: &K) -> bool {
        self.contains(k)
    }
    fn list(&self, limit: usize) -> Option<Vec<usize>> {
        Some(self.iter().take(limit).map(|k| k.ix()).collect())
    }
}
impl<K: Key> Set<K> for OrdinalSet64<K> {
    fn new() -> Self {
        Self::new()
    }
    fn insert(&mut self, k: K) -> bool {
        self.insert(k)
    }
    fn contains(&self, k: &K) -> bool {
        self.contains(k)
    }
    fn list(&self, limit: usize) -> Option<Vec<usize>> {
        Some(self.iter().take(limit).map(|k| k.ix()).collect())
    }
}
impl<K: Key, const S: usize> Set<K> for OrdinalArraySet<K, S> {
    fn new() -> Self {
        Self::new()
    }
    fn insert(&mut self, k: K) -> bool {
        self.insert(k)
    }
    fn contains(&self, k: &K) -> bool {
        self.contains(k)
    }
}

struct AsSet<K>(Vec<K>);
impl<K: Debug> Debug for AsSet<K> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_set().entries(self.0.iter()).finish()
    }
}

fn full<K: Key, S: Set<K>>(s: &S, model: &Model, deep: bool, ctx: &Ctx) -> Result<(), String> {
    let probe = |i: usize| -> Result<(), String> {
        let k = K::mk(i);
        same!(s.contains(&k), model.contains(&i), "contains({k:?})");
        Ok(())
    };
    if K::N <= 400 {
        for i in 0..K::N {
            probe(i)?;
        }
    } else {
        for &i in model {
            for j in [i, i.wrapping_sub(1), i + 1, i ^ 64, i ^ 1, i + 64] {
                if j < K::N {
                    probe(j)?;
                }
            }
        }
        probe(0)?;
        probe(K::N - 1)?;
    }
    if deep && K::N < 2_000_000 {
        if let Some(l) = s.list(model.len() + 3) {
            same!(l, model.iter().copied().collect::<Vec<_>>(), "iter()");
        }
        if ctx.fmt {
            fmt_eq(s, &AsSet(model.iter().map(|&i| K::mk(i)).collect()), "set")?;
        }
    }
    Ok(())
}

/// C16, C22, C25.
pub fn hist<K: Key, S: Set<K>>(c: &Case, ctx: &Ctx) -> Res {
    let n = K::N;
    let first = match c.h >> 4 & 3 {
        0 => S::default(),
        1 => Loose(std::iter::empty(), c.h as u32 >> 6).collect(),
        _ => S::new(),
    };
    same!(ordinal_array_set_s::<K>(), n.div_ceil(64), "ordinal_array_set_s");
    let mut ss: Vec<(S, Model)> = vec![(first, Model::new())];
    full(&ss[0].0, &ss[0].1, true, ctx).map_err(|e| format!("new set: {e}"))?;
    let run = bulk(c.h, n);
    if !run.is_empty() {
        tr!(ctx, "insert all of {run:?}");
        for i in run {
            same!(ss[0].0.insert(K::mk(i)), ss[0].1.insert(i), "insert of {i}");
        }
        full(&ss[0].0, &ss[0].1, true, ctx).map_err(|e| format!("filled set: {e}"))?;
    }
    let (mut again, mut forks) = (0, 0);
    let mut words = BTreeSet::new();
    for (step, op) in c.ops.iter().enumerate() {
        let t = (op.b >> 28) as usize % ss.len();
        let (s, model) = &mut ss[t];
        match op.k % 16 {
            0..=8 if n > 0 => {
                let i = pick(op.a, n, c.h);
                let k = K::mk(i);
                let g = s.insert(k.clone());
                tr!(ctx, "set{t}.insert({k:?}) -> {g}");
                let w = model.insert(i);
                same!(g, w, "insert({k:?})");
                again += !w as usize;
                words.insert(i / 64);
            }
            9 | 10 if n > 0 => {
                let i = pick(op.a, n, c.h);
                let g = s.contains(&K::mk(i));
                tr!(ctx, "set{t}.contains({i}) -> {g}");
                same!(g, model.contains(&i), "contains({:?})", K::mk(i));
            }
            11 => {
                // Collect the members plus some, with repeats, in a scrambled order.
                let mut v: Vec<usize> = model.iter().copied().collect();
                if n > 0 {
                    for j in 0..op.b % 4 {
                        let i = pick(op.a.rotate_left(3 * j), n, c.h);
                        v.push(i);
                        v.push(i);
                        model.insert(i);
                    }
                }
                if !v.is_empty() {
                    let r = op.a as usize % v.len();
                    v.rotate_left(r);
                }
                if op.b & 16 == 0 {
                    v.reverse();
                }
                *s = Loose(v.iter().map(|&i| K::mk(i)), op.b >> 8).collect();
                tr!(ctx, "set{t} = collect({v:?}), size hint {}", op.b >> 8 & 7);
            }
            12..=14 if ctx.clone => {
                forks += 1;
                let many = ss.len() > 1;
                if op.b & 7 == 7 && many {
                    let o = (t + 1) % 2;
                    let (a, m) = (ss[o].0.clone(), ss[o].1.clone());
                    ss[t].0.clone_from(&a);
                    ss[t].1 = m;
                    tr!(ctx, "set{t}.clone_from(&set{o})");
                } else if many && op.b & 8 == 8 {
                    ss.remove(t);
                    tr!(ctx, "drop set{t}");
                } else if ss.len() < 3 {
                    let x = (ss[t].0.clone(), ss[t].1.clone());
                    tr!(ctx, "set{} = set{t}.clone()", ss.len());
                    ss.push(x);
                }
            }
            _ => {}
        }
        if n <= 70 || step % 8 == 0 {
            for (j, (s, m)) in ss.iter().enumerate() {
                full(s, m, n <= 400 || step % 32 == 0, ctx).map_err(|e| format!("set{j} after step {step}: {e}"))?;
            }
        }
    }
    for (j, (s, m)) in ss.iter().enumerate() {
        full(s, m, n < 100_000, ctx).map_err(|e| format!("set{j} at end: {e}"))?;
    }
    let mut tags = vec![];
    if words.len() > 1 {
        tags.push("several words");
    }
    if forks > 0 {
        tags.push("cloned");
    }
    let nontrivial = if ctx.clone { forks > 0 } else { again > 0 } || n == 0;
    Ok(Info { nontrivial, tags })
}

fn contents<K: Key>(c: &Case) -> (Model, usize) {
    let n = K::N;
    let used = (c.h >> 8) as usize % (c.ops.len() + 1);
    let mut m = Model::new();
    if n == 0 {
        return (m, 0);
    }
    if n <= 400 {
        match (c.h >> 40) & 7 {
            0 => m.extend(0..n),
            1 => m.extend((0..n).step_by(2)),
            2 => m.extend([0, n - 1, n / 2, (n - 1) / 64 * 64, 63 % n, 64 % n]),
            3 => m.extend((0..n).filter(|i| (c.h >> (i % 63)) & 1 == 1)),
            _ => {}
        }
    }
    m.extend(bulk(c.h, n));
    for op in &c.ops[..used] {
        m.insert(pick(op.a, n, c.h >> 48));
    }
    (m, used)
}

/// C17, C22, C25 for OrdinalSet.
pub fn iters<K: Key>(c: &Case, ctx: &Ctx) -> Res {
    let (m, used) = contents::<K>(c);
    let s: OrdinalSet<K> = m.iter().map(|&i| K::mk(i)).collect();
    let fm = |i: &Iter<'_, K>, q: &VecDeque<usize>| fmt_eq(i, &q.iter().map(|&k| K::mk(k)).collect::<Vec<_>>(), "set::Iter");
    let h = Hooks { clone: Some(|i: &Iter<'_, K>| i.clone()), fmt: Some(&fm), ..Hooks::default() };
    tr!(ctx, "OrdinalSet {m:?}");
    let st = d0::drive(s.iter(), m.iter().copied().collect(), &c.ops[used..], c.h >> 20, &mut |k: K| k.ix(), &h, ctx)?.1;
    full(&s, &m, true, ctx).map_err(|e| format!("set after iteration: {e}"))?;
    info::<K>(&m, st, ctx)
}
/// The same for OrdinalSet64, whose iterator has an exact length.
pub fn iters64<K: Key>(c: &Case, ctx: &Ctx) -> Res {
    let (m, used) = contents::<K>(c);
    let s: OrdinalSet64<K> = m.iter().map(|&i| K::mk(i)).collect();
    let fm = |i: &Iter64<K>, q: &VecDeque<usize>| fmt_eq(i, &q.iter().map(|&k| K::mk(k)).collect::<Vec<_>>(), "Iter64");
    let h = Hooks { len: Some(|i: &Iter64<K>| i.len()), adapters: Some(exact_adapters), clone: Some(|i: &Iter64<K>| i.clone()), fmt: Some(&fm) };
    tr!(ctx, "OrdinalSet64 {m:?}");
    let st = d1::drive(s.iter(), m.iter().copied().collect(), &c.ops[used..], c.h >> 20, &mut |k: K| k.ix(), &h, ctx)?.1;
    full(&s, &m, true, ctx).map_err(|e| format!("set after iteration: {e}"))?;
    info::<K>(&m, st, ctx)
}
fn info<K: Key>(m: &Model, st: crate::drive::Stats, ctx: &Ctx) -> Res {
    let mut tags = vec![];
    if st.mixed {
        tags.push("both ends");
    }
    if st.jumped {
        tags.push("jumps");
    }
    if st.exhausted {
        tags.push("operated after exhaustion");
    }
    if ctx.fmt && st.fmts > 0 {
        tags.push("formatted");
    }
    if st.clones > 0 {
        tags.push("cloned");
    }
    let active = if ctx.clone { st.clones > 0 } else { st.mixed || st.jumped };
    Ok(Info { nontrivial: K::N == 0 || (m.len() >= 2 || K::N < 2) && (active || ctx.fmt), tags })
}

fn build64<K: Key>(want: &Model, how: u64, ops: &[crate::case::Op], h: u64) -> OrdinalSet64<K> {
    let order: Vec<usize> = {
        let mut v: Vec<usize> = want.iter().copied().collect();
        if how & 1 == 1 {
            v.reverse();
        }
        if !v.is_empty() {
            let r = (h >> 3) as usize % v.len();
            v.rotate_left(r);
        }
        // Repeats.
        for op in ops.iter().take(3) {
            if !v.is_empty() {
                let x = v[op.a as usize % v.len()];
                v.push(x);
            }
        }
        v
    };
    match how >> 1 & 3 {
        0 => Loose(order.iter().map(|&i| K::mk(i)), how as u32 >> 3).collect(),
        1 => {
            let mut s = OrdinalSet64::default();
            order.iter().for_each(|&i| {
                s.insert(K::mk(i));
            });
            s
        }
        2 if want.len() == K::N => OrdinalSet64::all(),
        _ => {
            let mut s = OrdinalSet64::new();
            order.iter().for_each(|&i| {
                s.insert(K::mk(i));
            });
            s.clone()
        }
    }
}

/// C18: all() and equality.
pub fn all_eq<K: Key>(c: &Case, ctx: &Ctx) -> Res {
    let n = K::N;
    let all = OrdinalSet64::<K>::all();
    let everything: Model = (0..n).collect();
    full(&all, &everything, true, ctx).map_err(|e| format!("all(): {e}"))?;
    same!(all.iter().len(), n, "all().iter().len()");
    ensure!(all == build64::<K>(&everything, c.h >> 1 & 5, &c.ops, c.h), "all() differs from the set with every value inserted");
    ensure!((all == OrdinalSet64::new()) == (n == 0), "all() == new()");
    // The same object reached by inserting into `all`.
    let mut more = OrdinalSet64::<K>::all();
    for i in 0..n {
        ensure!(!more.insert(K::mk(i)), "all() lacks {i}");
    }
    ensure!(more == all, "inserting into all() changed it");
    // Two sets built in different ways: equal exactly when they have the same members.
    let (mut a, mut b) = (Model::new(), Model::new());
    if n > 0 {
        for op in &c.ops {
            let i = pick(op.a, n, c.h);
            match op.k % 8 {
                0..=4 => {
                    a.insert(i);
                    b.insert(i);
                }
                5 => {
                    a.insert(i);
                }
                6 => {
                    b.insert(i);
                }
                _ => {
                    a.remove(&i);
                    b.remove(&i);
                }
            }
        }
        match c.h >> 50 & 7 {
            0 | 1 | 2 => b = a.clone(),
            // Differ in exactly one element.
            3 => {
                b = a.clone();
                let i = (c.h >> 10) as usize % n;
                if !b.remove(&i) {
                    b.insert(i);
                }
            }
            4 => a = everything.clone(),
            _ => {}
        }
    }
    let x = build64::<K>(&a, c.h >> 30, &c.ops, c.h);
    let y = build64::<K>(&b, c.h >> 33, &c.ops, c.h >> 7);
    tr!(ctx, "{a:?} built as {} vs {b:?} built as {}", c.h >> 30 & 7, c.h >> 33 & 7);
    ensure!((x == y) == (a == b), "equality of {a:?} and {b:?} is {}", x == y);
    ensure!((y == x) == (a == b), "equality is not symmetric");
    ensure!((x != y) != (x == y), "== and != agree");
    ensure!(x == x.clone(), "clone is not equal");
    full(&x, &a, true, ctx)?;
    full(&y, &b, true, ctx)?;
    let tag = if a == b { "equal pair" } else { "unequal pair" };
    Ok(Info { nontrivial: n < 2 || !a.is_empty(), tags: vec![tag] })
}
