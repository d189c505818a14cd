//! OrdinalMap and OrdinalArrayMap against a BTreeMap keyed by ordinal.
use crate::case::{bulk, Case, Ctx, Info, Op, Res};
use crate::drive::{d0, d1, d2, d3, d4, d5, d6, fmt_eq, Hooks};
use crate::key::{pick, Key, Loose, Val};
use crate::{ensure, same, tr};
use ordinal_map::map::{Drain, Entry, Iter, IterMut, Keys, OrdinalArrayMap, OrdinalMap, Values};
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Debug;

pub trait Sparse<K: Key, V: Val>:
    Clone + Debug + Default + FromIterator<(K, V)> + IntoIterator<Item = (K, V), IntoIter = Self::Own>
{
    type Own: DoubleEndedIterator<Item = (K, V)> + Clone + Debug;
    const HEAP: bool;
    fn new() -> Self;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn get(&self, k: &K) -> Option<&V>;
    fn get_mut(&mut self, k: &K) -> Option<&mut V>;
    fn contains_key(&self, k: &K) -> bool;
    fn insert(&mut self, k: K, v: V) -> Option<V>;
    fn entry(&mut self, k: K) -> Entry<'_, K, V>;
    fn remove(&mut self, k: &K) -> Option<V>;
    fn iter(&self) -> Iter<'_, K, V>;
    fn ref_iter(&self) -> Iter<'_, K, V>;
    fn iter_mut(&mut self) -> IterMut<'_, K, V>;
    fn keys(&self) -> Keys<'_, K, V>;
    fn values(&self) -> Values<'_, K, V>;
    fn values_mut(&mut self) -> impl DoubleEndedIterator<Item = &mut V> + Debug;
    fn drain(&mut self) -> Drain<'_, K, V>;
    fn clear(&mut self);
    /// False when the map type has no `retain`.
    fn retain(&mut self, f: impl FnMut(K, &mut V) -> bool) -> bool;
}

macro_rules! fwd {
    () => {
        fn new() -> Self { Self::new() }
        fn len(&self) -> usize { self.len() }
        fn is_empty(&self) -> bool { self.is_empty() }
        fn get(&self, k: &K) -> Option<&V> { self.get(k) }
        fn get_mut(&mut self, k: &K) -> Option<&mut V> { self.get_mut(k) }
        fn contains_key(&self, k: &K) -> bool { self.contains_key(k) }
        fn insert(&mut self, k: K, v: V) -> Option<V> { self.insert(k, v) }
        fn entry(&mut self, k: K) -> Entry<'_, K, V> { self.entry(k) }
        fn remove(&mut self, k: &K) -> Option<V> { self.remove(k) }
        fn iter(&self) -> Iter<'_, K, V> { self.iter() }
        fn ref_iter(&self) -> Iter<'_, K, V> { self.into_iter() }
        fn iter_mut(&mut self) -> IterMut<'_, K, V> { self.iter_mut() }
        fn keys(&self) -> Keys<'_, K, V> { self.keys() }
        fn values(&self) -> Values<'_, K, V> { self.values() }
        fn values_mut(&mut self) -> impl DoubleEndedIterator<Item = &mut V> + Debug { self.values_mut() }
        fn drain(&mut self) -> Drain<'_, K, V> { self.drain() }
        fn clear(&mut self) { self.clear() }
    };
}

impl<K: Key, V: Val> Sparse<K, V> for OrdinalMap<K, V> {
    type Own = ordinal_map::map::IntoIter<K, V>;
    const HEAP: bool = true;
    fwd!();
    fn retain(&mut self, _: impl FnMut(K, &mut V) -> bool) -> bool {
        false
    }
}
impl<K: Key, V: Val, const S: usize> Sparse<K, V> for OrdinalArrayMap<K, V, S> {
    type Own = ordinal_map::map::IntoIterArray<K, V, S>;
    const HEAP: bool = false;
    fwd!();
    fn retain(&mut self, f: impl FnMut(K, &mut V) -> bool) -> bool {
        self.retain(f);
        true
    }
}

pub type Model = BTreeMap<usize, u32>;

pub struct AsMap<K, V>(pub Vec<(K, V)>);
impl<K: Debug, V: Debug> Debug for AsMap<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_map().entries(self.0.iter().map(|(k, v)| (k, v))).finish()
    }
}

fn pairs<K: Key, V: Val>(m: &VecDeque<(usize, u32)>) -> Vec<(K, V)> {
    m.iter().map(|&(i, v)| (K::mk(i), V::mk(v))).collect()
}

/// Everything observable without changing the map.
fn full<K: Key, V: Val, M: Sparse<K, V>>(m: &M, model: &Model, ctx: &Ctx) -> Result<(), String> {
    same!(m.len(), model.len(), "len()");
    same!(m.is_empty(), model.is_empty(), "is_empty()");
    let probe = |i: usize| -> Result<(), String> {
        let k = K::mk(i);
        same!(m.get(&k).map(|v| v.rd()), model.get(&i).copied(), "get({k:?})");
        same!(m.contains_key(&k), model.contains_key(&i), "contains_key({k:?})");
        Ok(())
    };
    if K::N <= 320 {
        for i in 0..K::N {
            probe(i)?;
        }
    } else {
        for &i in model.keys() {
            for j in [i, i.wrapping_sub(1), i + 1, i ^ 64, i ^ 256] {
                if j < K::N {
                    probe(j)?;
                }
            }
        }
        probe(0)?;
        probe(K::N - 1)?;
    }
    let got: Vec<(usize, u32)> = m.iter().take(model.len() + 3).map(|(k, v)| (k.ix(), v.rd())).collect();
    let want: Vec<(usize, u32)> = model.iter().map(|(&k, &v)| (k, v)).collect();
    same!(got, want, "iter()");
    if ctx.fmt {
        let p = AsMap(model.iter().map(|(&i, &v)| (K::mk(i), V::mk(v))).collect());
        fmt_eq(m, &p, "map")?;
    }
    Ok(())
}

/// C08, C22, C25: any history.
pub fn hist<K: Key, V: Val, M: Sparse<K, V>>(c: &Case, ctx: &Ctx) -> Res {
    let n = K::N;
    let mut ms: Vec<(M, Model)> = vec![(if c.h & 16 == 0 { M::new() } else { M::default() }, Model::new())];
    let (mut hit, mut miss, mut many, mut forks, mut cleared) = (0, 0, false, 0, 0);
    full(&ms[0].0, &ms[0].1, ctx)?;
    let run = bulk(c.h, n);
    if !run.is_empty() {
        tr!(ctx, "insert all of {run:?}");
        for i in run {
            same!(ms[0].0.insert(K::mk(i), V::mk(V::norm(i as u32))).map(|v| v.rd()), ms[0].1.insert(i, V::norm(i as u32)), "insert of {i}");
        }
        full(&ms[0].0, &ms[0].1, ctx)?;
    }
    for (step, op) in c.ops.iter().enumerate() {
        let t = (op.b >> 28) as usize % ms.len();
        let forked = ms.len() > 1;
        let (m, model) = &mut ms[t];
        let who = if forked { format!("map{t}.") } else { String::new() };
        let v = V::norm(op.b & 0xffff);
        let mut changed = true;
        if n == 0 {
            match op.k % 8 {
                0 => m.clear(),
                1 => same!(m.drain().count(), 0, "drain of empty"),
                2 => *m = Loose(std::mem::replace(m, M::new()).into_iter(), op.a as u32).collect(),
                3 => {
                    m.retain(|_, _| panic!("retain on empty map"));
                }
                4 => same!(m.iter_mut().count() + m.values_mut().count() + m.keys().count() + m.values().count(), 0, "iterators of empty"),
                5 if ctx.clone => {
                    let x = m.clone();
                    *m = x;
                    forks += 1;
                }
                _ => {}
            }
            tr!(ctx, "op {} on a map over an empty type", op.k % 8);
            full(m, model, ctx)?;
            continue;
        }
        let i = pick(op.a, n, c.h);
        let k = K::mk(i);
        if model.contains_key(&i) {
            hit += 1;
        } else {
            miss += 1;
        }
        match op.k % 40 {
            0..=9 => {
                let g = m.insert(k.clone(), V::mk(v)).map(|v| v.rd());
                tr!(ctx, "{who}insert({k:?}, {v}) -> {g:?}");
                same!(g, model.insert(i, v), "insert({k:?}, {v})");
            }
            10..=14 => {
                let g = m.remove(&k).map(|v| v.rd());
                tr!(ctx, "{who}remove({k:?}) -> {g:?}");
                same!(g, model.remove(&i), "remove({k:?})");
            }
            15 | 16 => {
                let g = m.get(&k).map(|v| v.rd());
                tr!(ctx, "{who}get({k:?}) -> {g:?}");
                same!(g, model.get(&i).copied(), "get({k:?})");
                changed = false;
            }
            17 | 18 => {
                let g = m.get_mut(&k).map(|x| std::mem::replace(x, V::mk(v)).rd());
                tr!(ctx, "{who}get_mut({k:?}) := {v} (was {g:?})");
                same!(g, model.get_mut(&i).map(|x| std::mem::replace(x, v)), "get_mut({k:?})");
            }
            19 => {
                let g = m.contains_key(&k);
                tr!(ctx, "{who}contains_key({k:?}) -> {g}");
                same!(g, model.contains_key(&i), "contains_key({k:?})");
                changed = false;
            }
            20..=22 => {
                let g = m.entry(k.clone()).or_insert(V::mk(v)).rd();
                tr!(ctx, "{who}entry({k:?}).or_insert({v}) -> {g}");
                same!(g, *model.entry(i).or_insert(v), "entry({k:?}).or_insert({v})");
            }
            23 => {
                match m.entry(k.clone()) {
                    Entry::Occupied(mut e) => {
                        same!(Some(e.get().rd()), model.get(&i).copied(), "occupied entry {k:?}");
                        *e.get_mut() = V::mk(v);
                    }
                    Entry::Vacant(e) => {
                        same!(None, model.get(&i), "vacant entry {k:?}");
                        e.insert(V::mk(v));
                    }
                }
                tr!(ctx, "{who}entry({k:?}) written {v}");
                model.insert(i, v);
            }
            24 => {
                let occ = matches!(m.entry(k.clone()), Entry::Occupied(_));
                tr!(ctx, "{who}entry({k:?}) looked at");
                same!(occ, model.contains_key(&i), "entry({k:?}) occupied");
            }
            25 | 26 => {
                for (kk, x) in m.iter_mut() {
                    *x = V::mk(V::norm(x.rd().wrapping_add(kk.ix() as u32)));
                }
                tr!(ctx, "{who}iter_mut: += key");
                for (kk, x) in model.iter_mut() {
                    *x = V::norm(x.wrapping_add(*kk as u32));
                }
            }
            27 => {
                for x in m.values_mut() {
                    *x = V::mk(V::norm(x.rd() ^ 5));
                }
                tr!(ctx, "{who}values_mut: ^= 5");
                for x in model.values_mut() {
                    *x = V::norm(*x ^ 5);
                }
            }
            28 if op.b & 3 == 0 => {
                m.clear();
                model.clear();
                cleared += 1;
                tr!(ctx, "{who}clear()");
            }
            29 if op.b & 3 == 0 => {
                let mut d = m.drain();
                let mut mm = model.iter();
                for j in 0..op.a % 4 {
                    let back = op.b >> (4 + j) & 1 == 1;
                    let g = if back { d.next_back() } else { d.next() }.map(|(k, v)| (k.ix(), v.rd()));
                    let w = if back { mm.next_back() } else { mm.next() }.map(|(k, v)| (*k, *v));
                    same!(g, w, "drain item {j}");
                }
                drop(d);
                tr!(ctx, "{who}drain, {} steps", op.a % 4);
                model.clear();
                cleared += 1;
            }
            30 => {
                // Collect: present pairs, then pairs with repeated keys; the last one wins.
                let j = pick(op.a.rotate_left(5), n, c.h);
                let extra = [(i, v), (j, V::norm(v ^ 1)), (i, V::norm(v.wrapping_add(7)))];
                let old = std::mem::take(m);
                *m = Loose(old.into_iter().chain(extra.iter().map(|&(i, v)| (K::mk(i), V::mk(v)))), op.a as u32 >> 2).collect();
                model.extend(extra);
                tr!(ctx, "{who}collect with {extra:?} appended");
            }
            31 => {
                let keep = |i: usize, v: u32| (i as u32 ^ v ^ op.b) & 1 == 0;
                if m.retain(|k, v| keep(k.ix(), v.rd())) {
                    model.retain(|k, v| keep(*k, *v));
                    tr!(ctx, "{who}retain");
                }
            }
            32 | 33 => {
                let g: Vec<usize> = m.keys().take(model.len() + 2).map(|k| k.ix()).collect();
                let w: Vec<usize> = model.keys().copied().collect();
                same!(g, w, "keys()");
                let g: Vec<u32> = m.values().take(model.len() + 2).map(|v| v.rd()).collect();
                let w: Vec<u32> = model.values().copied().collect();
                same!(g, w, "values()");
                changed = false;
            }
            34..=37 if ctx.clone => {
                forks += 1;
                if op.b & 7 == 7 && forked {
                    let (src, sm) = (ms[(t + 1) % 2].0.clone(), ms[(t + 1) % 2].1.clone());
                    tr!(ctx, "map{t}.clone_from(&map{})", (t + 1) % 2);
                    ms[t].0.clone_from(&src);
                    ms[t].1 = sm;
                } else if forked && op.b & 8 == 8 {
                    tr!(ctx, "drop map{t}");
                    ms.remove(t);
                } else if ms.len() < 3 {
                    let x = (ms[t].0.clone(), ms[t].1.clone());
                    tr!(ctx, "map{} = map{t}.clone()", ms.len());
                    ms.push(x);
                }
            }
            _ => {
                same!(m.len(), model.len(), "len()");
                same!(m.is_empty(), model.is_empty(), "is_empty()");
                changed = false;
            }
        }
        if ms.iter().any(|x| x.1.len() >= 2) {
            many = true;
        }
        if changed || step + 1 == c.ops.len() || ctx.fmt {
            if n <= 70 || step % 8 == 0 || step + 1 == c.ops.len() || ms.len() > 1 && n <= 320 {
                for (j, (m, model)) in ms.iter().enumerate() {
                    full(m, model, ctx).map_err(|e| format!("map{j} after step {step}: {e}"))?;
                }
            }
        }
    }
    for (j, (m, model)) in ms.into_iter().enumerate() {
        full(&m, &model, ctx).map_err(|e| format!("map{j} at end: {e}"))?;
        let got: Vec<(usize, u32)> = m.into_iter().map(|(k, v)| (k.ix(), v.rd())).collect();
        same!(got, model.into_iter().collect::<Vec<_>>(), "map{j} into_iter");
    }
    let mut tags = vec![];
    if forks > 0 {
        tags.push("cloned");
    }
    if cleared > 0 {
        tags.push("cleared");
    }
    if n == 0 {
        tags.push("empty key type");
    }
    Ok(Info { nontrivial: n == 0 || hit > 0 && miss > 0 && (many || n < 2), tags })
}

/// C09: entry operations interleaved with plain ones.
pub fn entry<K: Key, V: Val, M: Sparse<K, V>>(c: &Case, ctx: &Ctx) -> Res {
    let n = K::N;
    assert!(n > 0);
    let mut m = M::new();
    let mut model = Model::new();
    let (mut occ, mut vac) = (0, 0);
    for op in &c.ops {
        let i = pick(op.a, n, c.h);
        let k = K::mk(i);
        let v = V::norm(op.b & 0xffff);
        let present = model.contains_key(&i);
        match op.k % 24 {
            0..=2 => {
                same!(m.insert(k.clone(), V::mk(v)).map(|v| v.rd()), model.insert(i, v), "insert({k:?}, {v})");
                tr!(ctx, "insert({k:?}, {v})");
            }
            3..=5 => {
                same!(m.remove(&k).map(|v| v.rd()), model.remove(&i), "remove({k:?})");
                tr!(ctx, "remove({k:?})");
            }
            6 if op.b & 7 == 0 => {
                m.clear();
                model.clear();
                tr!(ctx, "clear");
            }
            kk => {
                let e = m.entry(k.clone());
                same!(*e.key(), k, "Entry::key");
                same!(matches!(e, Entry::Occupied(_)), present, "entry({k:?}) is occupied");
                if present {
                    occ += 1;
                } else {
                    vac += 1;
                }
                match (kk, e) {
                    (0..=9, Entry::Occupied(e)) => {
                        same!(*e.key(), k, "OccupiedEntry::key");
                        same!(e.get().rd(), model[&i], "OccupiedEntry::get");
                        tr!(ctx, "entry({k:?}) occupied, read");
                    }
                    (10..=13, Entry::Occupied(mut e)) => {
                        same!(e.get_mut().rd(), model[&i], "OccupiedEntry::get_mut");
                        *e.get_mut() = V::mk(v);
                        same!(e.get().rd(), v, "OccupiedEntry::get after write");
                        same!(*e.key(), k, "OccupiedEntry::key after write");
                        model.insert(i, v);
                        tr!(ctx, "entry({k:?}) occupied, written {v}");
                    }
                    (0..=9, Entry::Vacant(e)) => {
                        same!(*e.key(), k, "VacantEntry::key");
                        tr!(ctx, "entry({k:?}) vacant, dropped");
                    }
                    (10..=13, Entry::Vacant(e)) => {
                        same!(*e.key(), k, "VacantEntry::key");
                        e.insert(V::mk(v));
                        model.insert(i, v);
                        tr!(ctx, "entry({k:?}) vacant, inserted {v}");
                    }
                    (14..=18, e) => {
                        let r = e.or_insert(V::mk(v));
                        same!(r.rd(), *model.entry(i).or_insert(v), "or_insert({v})");
                        tr!(ctx, "entry({k:?}).or_insert({v})");
                    }
                    (19..=21, e) => {
                        let w = V::norm(v.wrapping_add(1));
                        let r = e.or_insert(V::mk(v));
                        same!(r.rd(), *model.entry(i).or_insert(v), "or_insert({v})");
                        *r = V::mk(w);
                        model.insert(i, w);
                        tr!(ctx, "*entry({k:?}).or_insert({v}) = {w}");
                    }
                    (_, e) => {
                        drop(e);
                        tr!(ctx, "entry({k:?}) dropped");
                    }
                }
            }
        }
        full(&m, &model, ctx)?;
    }
    Ok(Info { nontrivial: vac > 0 && (occ > 0), tags: vec![] })
}

/// Fills a map from the case header and the first operations; values are unique per key.
fn fill<K: Key, V: Val, M: Sparse<K, V>>(c: &Case) -> (M, Model, usize) {
    let n = K::N;
    let mut m = M::new();
    let mut model = Model::new();
    if n == 0 {
        return (m, model, 0);
    }
    let uniq = |i: usize, b: u32| V::norm((i as u32).wrapping_mul(1000) + b % 1000);
    let used = (c.h >> 8) as usize % (c.ops.len() + 1);
    let dense = (c.h >> 40) & 15;
    if n <= 320 {
        for i in 0..n {
            let put = match dense {
                0 => true,
                1 => i % 2 == 0,
                2 => i % 2 == 1,
                3 => i < 3 || i + 3 >= n,
                4 => (c.h >> (i % 64)) & 1 == 1,
                _ => false,
            };
            if put {
                m.insert(K::mk(i), V::mk(uniq(i, c.h as u32 >> 9)));
                model.insert(i, uniq(i, c.h as u32 >> 9));
            }
        }
    }
    for i in bulk(c.h, n) {
        m.insert(K::mk(i), V::mk(uniq(i, 0)));
        model.insert(i, uniq(i, 0));
    }
    for op in &c.ops[..used] {
        let i = pick(op.a, n, c.h >> 48);
        if op.k % 4 == 3 {
            m.remove(&K::mk(i));
            model.remove(&i);
        } else {
            m.insert(K::mk(i), V::mk(uniq(i, op.b)));
            model.insert(i, uniq(i, op.b));
        }
    }
    (m, model, used)
}

fn check_written<K: Key, V: Val, M: Sparse<K, V>>(m: &M, model: &Model, ctx: &Ctx) -> Result<(), String> {
    full(m, model, ctx).map_err(|e| format!("map after writes through the iterator: {e}"))
}

/// C10, C22, C25: every iterator kind, any sequence of operations on it.
pub fn iters<K: Key, V: Val, M: Sparse<K, V>>(c: &Case, ctx: &Ctx) -> Res {
    let (mut m, mut model, used) = fill::<K, V, M>(c);
    let ops = &c.ops[used..];
    let fin = c.h >> 20;
    let mut q: VecDeque<(usize, u32)> = model.iter().map(|(&k, &v)| (k, v)).collect();
    let n0 = q.len();
    let before: Model = model.clone();
    let bump = |v: u32| V::norm(v.wrapping_add(500_000_000));
    let kind = c.h % 7;
    // Whether values identify keys (see `fill`).
    let unique = V::norm(123_456) == 123_456;
    tr!(ctx, "map {:?}, iterator kind {kind}", model);
    let st;
    let fm = |it: &dyn Debug, q: &VecDeque<(usize, u32)>| fmt_eq(it, &pairs::<K, V>(q), "iterator");
    match kind {
        0 | 1 => {
            let it = if kind == 0 { m.iter() } else { m.ref_iter() };
            let h = Hooks { clone: Some(|i: &Iter<'_, K, V>| i.clone()), fmt: Some(&|i, q| fm(i, q)), ..Hooks::default() };
            st = d0::drive(it, q, ops, fin, &mut |(k, v): (K, &V)| (k.ix(), v.rd()), &h, ctx)?.1;
        }
        2 => {
            let h = Hooks { fmt: Some(&|i: &IterMut<'_, K, V>, q: &_| fm(i, q)), ..Hooks::default() };
            let mut wrote = Vec::new();
            st = d1::drive(
                m.iter_mut(),
                std::mem::take(&mut q),
                ops,
                fin,
                &mut |(k, v): (K, &mut V)| {
                    let r = (k.ix(), v.rd());
                    *v = V::mk(bump(r.1));
                    wrote.push(r);
                    r
                },
                &h,
                ctx,
            )?
            .1;
            for (k, v) in wrote {
                model.insert(k, bump(v));
            }
        }
        3 => {
            let h = Hooks { clone: Some(|i: &Keys<'_, K, V>| i.clone()), ..Hooks::default() };
            let q = q.iter().map(|x| x.0).collect();
            st = d2::drive(m.keys(), q, ops, fin, &mut |k: K| k.ix(), &h, ctx)?.1;
        }
        4 => {
            let f = |i: &Values<'_, K, V>, q: &VecDeque<u32>| {
                fmt_eq(i, &q.iter().map(|&v| V::mk(v)).collect::<Vec<_>>(), "Values")
            };
            let h = Hooks { clone: Some(|i: &Values<'_, K, V>| i.clone()), fmt: Some(&f), ..Hooks::default() };
            let q = q.iter().map(|x| x.1).collect();
            st = d3::drive(m.values(), q, ops, fin, &mut |v: &V| v.rd(), &h, ctx)?.1;
        }
        5 => {
            let q: VecDeque<u32> = q.iter().map(|x| x.1).collect();
            let mut wrote = Vec::new();
            let it = m.values_mut();
            let f = |i: &dyn Debug, q: &VecDeque<u32>| fmt_eq(i, &q.iter().map(|&v| V::mk(v)).collect::<Vec<_>>(), "ValuesMut");
            st = vm(it, q, ops, fin, &mut |v: &mut V| {
                let r = v.rd();
                *v = V::mk(bump(r));
                wrote.push(r);
                r
            }, &f, ctx)?;
            if unique {
                for v in wrote {
                    let k = *model.iter().find(|x| *x.1 == v).ok_or("written value not in map")?.0;
                    model.insert(k, bump(v));
                }
            } else {
                return Ok(Info { nontrivial: n0 > 0, tags: vec!["values_mut of indistinct values"] });
            }
        }
        _ => {
            let old = std::mem::take(&mut m);
            let h = Hooks { clone: Some(|i: &M::Own| i.clone()), fmt: Some(&|i, q| fm(i, q)), ..Hooks::default() };
            st = d5::drive(old.into_iter(), q, ops, fin, &mut |(k, v): (K, V)| (k.ix(), v.rd()), &h, ctx)?.1;
            model.clear();
        }
    }
    check_written(&m, &model, ctx)?;
    if kind != 2 && kind != 5 && kind != 6 {
        ensure!(model == before, "harness");
    }
    let mut tags = vec![];
    if st.mixed {
        tags.push("both ends");
    }
    if st.jumped {
        tags.push("jumps");
    }
    if st.exhausted {
        tags.push("operated after exhaustion");
    }
    if kind == 2 || kind == 5 {
        tags.push("mutable");
    }
    if ctx.fmt && st.fmts > 0 {
        tags.push("formatted");
    }
    if st.clones > 0 {
        tags.push("cloned");
    }
    let active = if ctx.clone { st.clones > 0 } else { st.mixed || st.jumped };
    Ok(Info { nontrivial: K::N == 0 || n0 >= 1 && (active || ctx.fmt && n0 >= 2) && (n0 >= 2 || K::N < 2), tags })
}

#[allow(clippy::too_many_arguments)]
fn vm<'a, V: Val, I: DoubleEndedIterator<Item = &'a mut V> + Debug>(
    it: I,
    q: VecDeque<u32>,
    ops: &[Op],
    fin: u64,
    conv: &mut dyn FnMut(&'a mut V) -> u32,
    f: &dyn Fn(&dyn Debug, &VecDeque<u32>) -> Result<(), String>,
    ctx: &Ctx,
) -> Result<crate::drive::Stats, String> {
    let g = |i: &I, q: &VecDeque<u32>| f(i, q);
    let h = Hooks { fmt: Some(&g), ..Hooks::default() };
    Ok(d4::drive(it, q, ops, fin, conv, &h, ctx)?.1)
}

/// C25: Keys has Debug only for maps to unit.
pub fn keys_fmt<K: Key, M: Sparse<K, ()>>(c: &Case, ctx: &Ctx) -> Res {
    let (m, model, used) = fill::<K, (), M>(c);
    let f = |i: &Keys<'_, K, ()>, q: &VecDeque<usize>| {
        fmt_eq(i, &q.iter().map(|&k| K::mk(k)).collect::<Vec<_>>(), "Keys")
    };
    let h = Hooks { clone: Some(|i: &Keys<'_, K, ()>| i.clone()), fmt: Some(&f), ..Hooks::default() };
    let q: VecDeque<usize> = model.keys().copied().collect();
    let n0 = q.len();
    let st = d2::drive(m.keys(), q, &c.ops[used..], c.h >> 20, &mut |k: K| k.ix(), &h, ctx)?.1;
    Ok(Info { nontrivial: n0 >= 2 || K::N < 2, tags: if st.fmts > 0 { vec!["Keys formatted"] } else { vec![] } })
}

/// C11: drain with any driving, clear, retain; then the map must still work.
pub fn removal<K: Key, V: Val, M: Sparse<K, V>>(c: &Case, ctx: &Ctx) -> Res {
    let n = K::N;
    let (mut m, mut model, used) = fill::<K, V, M>(c);
    let rest = &c.ops[used..];
    let (mid, tail) = rest.split_at(rest.len() / 2);
    let q: VecDeque<(usize, u32)> = model.iter().map(|(&k, &v)| (k, v)).collect();
    let n0 = q.len();
    tr!(ctx, "map {:?}", model);
    let what;
    let mut partial = false;
    match c.h % 8 {
        0..=2 => {
            what = "drain driven";
            tr!(ctx, "drain:");
            d6::drive(m.drain(), q, mid, c.h >> 20, &mut |(k, v): (K, V)| (k.ix(), v.rd()), &Hooks::default(), ctx)?;
            model.clear();
        }
        3 => {
            what = "drain partly consumed";
            let mut d = m.drain();
            let mut q = q;
            for op in mid.iter().take((c.h >> 30) as usize % (n0 + 2)) {
                let (g, w) = if op.k & 1 == 0 { (d.next(), q.pop_front()) } else { (d.next_back(), q.pop_back()) };
                let g = g.map(|(k, v)| (k.ix(), v.rd()));
                tr!(ctx, "drain {} -> {g:?}", if op.k & 1 == 0 { "next" } else { "next_back" });
                same!(g, w, "drain");
                let (lo, hi) = d.size_hint();
                ensure!(lo <= q.len() && hi.is_none_or(|h| h >= q.len()), "drain size_hint {:?}, {} remain", (lo, hi), q.len());
            }
            partial = !q.is_empty();
            drop(d);
            model.clear();
        }
        4 => {
            what = "clear";
            tr!(ctx, "clear");
            m.clear();
            m.clear();
            model.clear();
        }
        _ => {
            what = "retain";
            let salt = (c.h >> 32) as u32;
            let mode = (c.h >> 16) % 5;
            let keep = |i: usize, v: u32, nth: usize| match mode {
                0 => (i as u32 ^ v ^ salt) % 2 == 0,
                1 => true,
                2 => false,
                3 => nth == (salt as usize % n0.max(1)),
                _ => nth != (salt as usize % n0.max(1)),
            };
            let change = |i: usize, v: u32| V::norm(v.wrapping_add(1 + i as u32 % 3 * 500_000_000));
            let mut seen = Vec::new();
            let has = m.retain(|k, v| {
                let (i, old) = (k.ix(), v.rd());
                assert!(seen.len() < n0 + 2, "retain calls the predicate too often");
                let r = keep(i, old, seen.len());
                seen.push((i, old));
                if salt & 4 == 0 {
                    *v = V::mk(change(i, old));
                }
                r
            });
            if has {
                let want: Vec<(usize, u32)> = q.iter().copied().collect();
                same!(seen, want, "retain predicate calls");
                let mut nm = Model::new();
                for (nth, &(i, v)) in want.iter().enumerate() {
                    if keep(i, v, nth) {
                        nm.insert(i, if salt & 4 == 0 { change(i, v) } else { v });
                    }
                }
                tr!(ctx, "retain mode {mode}: {} of {n0} kept", nm.len());
                partial = !nm.is_empty() && nm.len() < n0;
                model = nm;
            } else {
                // The heap map has no retain: drain from the back only.
                let g: Vec<_> = m.drain().rev().take(n0 + 2).map(|(k, v)| (k.ix(), v.rd())).collect();
                let mut w: Vec<_> = q.into_iter().collect();
                w.reverse();
                same!(g, w, "drain().rev()");
                model.clear();
            }
        }
    }
    full(&m, &model, ctx).map_err(|e| format!("after {what}: {e}"))?;
    if n > 0 {
        for op in tail {
            let i = pick(op.a, n, c.h);
            let k = K::mk(i);
            let v = V::norm(op.b & 0xffff);
            match op.k % 4 {
                0 => same!(m.remove(&k).map(|v| v.rd()), model.remove(&i), "after {what}: remove({k:?})"),
                1 => same!(m.entry(k.clone()).or_insert(V::mk(v)).rd(), *model.entry(i).or_insert(v), "after {what}: or_insert({k:?})"),
                _ => same!(m.insert(k.clone(), V::mk(v)).map(|v| v.rd()), model.insert(i, v), "after {what}: insert({k:?})"),
            }
            tr!(ctx, "then op {} on {k:?}", op.k % 4);
        }
        full(&m, &model, ctx).map_err(|e| format!("after {what} and reuse: {e}"))?;
    }
    let mut tags = vec![what];
    if partial {
        tags.push("partial");
    }
    Ok(Info { nontrivial: n0 >= 2 || n < 2, tags })
}
