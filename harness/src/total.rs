//! OrdinalTotalMap and OrdinalTotalArrayMap against a vector indexed by ordinal.
use crate::case::{Case, Ctx, Info, Res};
use crate::drive::{d0, d1, d2, d3, d4, d5, d6, exact_adapters, fmt_eq, Hooks};
use crate::key::{pick, Key, Val};
use crate::sparse::AsMap;
use crate::{ensure, same, tr};
use ordinal_map::map::total::{IntoIter, IntoIterArray, Iter, IterMut, OrdinalTotalArrayMap, OrdinalTotalMap};
use ordinal_map::OrdinalValues;
use std::collections::VecDeque;
use std::fmt::Debug;
use std::ops::{Index, IndexMut};

pub trait Total<K: Key, V: Val>:
    Clone + Debug + Default + IntoIterator<Item = (K, V), IntoIter = Self::Own> + for<'a> Index<&'a K, Output = V> + for<'a> IndexMut<&'a K>
{
    type Own: DoubleEndedIterator<Item = (K, V)> + ExactSizeIterator + Clone + Debug;
    fn new(f: impl FnMut(K) -> V) -> Self;
    fn try_new<E>(f: impl FnMut(K) -> Result<V, E>) -> Result<Self, E>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn get(&self, k: &K) -> &V;
    fn get_mut(&mut self, k: &K) -> &mut V;
    fn keys(&self) -> OrdinalValues<K>;
    fn into_keys(self) -> OrdinalValues<K>;
    fn values(&self) -> std::slice::Iter<'_, V>;
    fn values_mut(&mut self) -> std::slice::IterMut<'_, V>;
    fn into_values(self) -> Vec<V>;
    fn iter(&self) -> Iter<'_, K, V>;
    fn ref_iter(&self) -> Iter<'_, K, V>;
    fn iter_mut(&mut self) -> IterMut<'_, K, V>;
    fn insert(&mut self, k: K, v: V) -> V;
    /// Array map only.
    fn from_vec(_: Vec<V>) -> Option<Self> {
        None
    }
    fn array(&self) -> Option<&[V]> {
        None
    }
    fn array_mut(&mut self) -> Option<&mut [V]> {
        None
    }
}

macro_rules! fwd {
    () => {
        fn new(f: impl FnMut(K) -> V) -> Self { Self::new(f) }
        fn try_new<E>(f: impl FnMut(K) -> Result<V, E>) -> Result<Self, E> { Self::try_new(f) }
        fn len(&self) -> usize { self.len() }
        fn is_empty(&self) -> bool { self.is_empty() }
        fn get(&self, k: &K) -> &V { self.get(k) }
        fn get_mut(&mut self, k: &K) -> &mut V { self.get_mut(k) }
        fn keys(&self) -> OrdinalValues<K> { self.keys() }
        fn into_keys(self) -> OrdinalValues<K> { self.into_keys() }
        fn values(&self) -> std::slice::Iter<'_, V> { self.values() }
        fn values_mut(&mut self) -> std::slice::IterMut<'_, V> { self.values_mut() }
        fn iter(&self) -> Iter<'_, K, V> { self.iter() }
        fn ref_iter(&self) -> Iter<'_, K, V> { self.into_iter() }
        fn iter_mut(&mut self) -> IterMut<'_, K, V> { self.iter_mut() }
        fn insert(&mut self, k: K, v: V) -> V { self.insert(k, v) }
    };
}

impl<K: Key, V: Val> Total<K, V> for OrdinalTotalMap<K, V> {
    type Own = IntoIter<K, V>;
    fwd!();
    fn into_values(self) -> Vec<V> {
        self.into_values().into_vec()
    }
}
impl<K: Key, V: Val, const S: usize> Total<K, V> for OrdinalTotalArrayMap<K, V, S> {
    type Own = IntoIterArray<K, V, S>;
    fwd!();
    fn into_values(self) -> Vec<V> {
        self.into_values().into()
    }
    fn from_vec(v: Vec<V>) -> Option<Self> {
        Some(Self::from_array(v.try_into().ok().expect("length")))
    }
    fn array(&self) -> Option<&[V]> {
        Some(self.values_array())
    }
    fn array_mut(&mut self) -> Option<&mut [V]> {
        Some(self.values_array_mut())
    }
}

fn rd<'a, V: Val>(it: impl IntoIterator<Item = &'a V>) -> Vec<u32> {
    it.into_iter().map(|v| v.rd()).collect()
}

fn full<K: Key, V: Val, M: Total<K, V>>(m: &M, model: &[u32], ctx: &Ctx) -> Result<(), String> {
    same!(m.len(), K::N, "len()");
    same!(m.is_empty(), K::N == 0, "is_empty()");
    let probe = |i: usize| -> Result<(), String> {
        let k = K::mk(i);
        same!(m.get(&k).rd(), model[i], "get({k:?})");
        same!(m[&k].rd(), model[i], "[{k:?}]");
        Ok(())
    };
    let step = (K::N / 320).max(1);
    for i in (0..K::N).step_by(step) {
        probe(i)?;
    }
    same!(rd(m.values()), model, "values()");
    if let Some(a) = m.array() {
        same!(rd(a), model, "values_array()");
    }
    let got: Vec<(usize, u32)> = m.iter().take(K::N + 3).map(|(k, v)| (k.ix(), v.rd())).collect();
    let want: Vec<(usize, u32)> = model.iter().copied().enumerate().collect();
    same!(got, want, "iter()");
    if ctx.fmt {
        let p = AsMap(want.iter().map(|&(i, v)| (K::mk(i), V::mk(v))).collect());
        fmt_eq(m, &p, "map")?;
    }
    Ok(())
}

/// C12, C22, C25.
pub fn hist<K: Key, V: Val, M: Total<K, V>>(c: &Case, ctx: &Ctx) -> Res {
    let n = K::N;
    let start = |i: usize| V::norm((c.h as u32 >> 3).wrapping_mul(i as u32 + 1) % 100_000);
    let first = match c.h >> 60 & 3 {
        0 => (M::default(), vec![V::norm(0); n]),
        1 => match M::from_vec((0..n).map(|i| V::mk(start(i))).collect()) {
            Some(m) => (m, (0..n).map(start).collect()),
            None => (M::new(|k| V::mk(start(k.ix()))), (0..n).map(start).collect()),
        },
        _ => (M::new(|k| V::mk(start(k.ix()))), (0..n).map(start).collect()),
    };
    // A value type whose default is not what mk(0) gives would be a harness mistake.
    assert_eq!(V::default(), V::mk(V::norm(0)));
    let mut ms: Vec<(M, Vec<u32>)> = vec![first];
    full(&ms[0].0, &ms[0].1, ctx).map_err(|e| format!("fresh map: {e}"))?;
    let (mut forks, mut stores, mut over) = (0, 0, 0);
    let mut last: Option<usize> = None;
    for (step, op) in c.ops.iter().enumerate() {
        let t = (op.b >> 28) as usize % ms.len();
        let forked = ms.len() > 1;
        let (m, model) = &mut ms[t];
        let who = if forked { format!("map{t}.") } else { String::new() };
        let v = V::norm(op.b & 0xffff);
        let mut changed = true;
        if op.k % 32 < 18 && n > 0 {
            let i = pick(op.a, n, c.h);
            let k = K::mk(i);
            let old = model[i];
            match op.k % 32 {
                0..=4 => {
                    let g = m.insert(k.clone(), V::mk(v)).rd();
                    tr!(ctx, "{who}insert({k:?}, {v}) -> {g}");
                    same!(g, old, "insert({k:?}, {v})");
                    model[i] = v;
                    stores += 1;
                }
                5..=7 => {
                    let r = m.get_mut(&k);
                    same!(r.rd(), old, "get_mut({k:?})");
                    *r = V::mk(v);
                    tr!(ctx, "{who}*get_mut({k:?}) = {v}");
                    model[i] = v;
                    stores += 1;
                }
                8..=10 => {
                    let r = &mut m[&k];
                    same!(r.rd(), old, "[{k:?}]");
                    *r = V::mk(v);
                    tr!(ctx, "{who}[{k:?}] = {v}");
                    model[i] = v;
                    stores += 1;
                }
                11 => {
                    same!(m[&k].rd(), old, "[{k:?}]");
                    changed = false;
                }
                12 => {
                    same!(m.get(&k).rd(), old, "get({k:?})");
                    changed = false;
                }
                13..=15 => {
                    if let Some(a) = m.array_mut() {
                        same!(rd(a.iter()), *model, "values_array_mut()");
                        a[i] = V::mk(v);
                        tr!(ctx, "{who}values_array_mut()[{i}] = {v}");
                    } else {
                        let r = m.values_mut().nth(i).ok_or("values_mut() too short")?;
                        *r = V::mk(v);
                        tr!(ctx, "{who}values_mut().nth({i}) = {v}");
                    }
                    model[i] = v;
                    stores += 1;
                }
                _ => {
                    let (kk, r) = m.iter_mut().nth(i).ok_or("iter_mut() too short")?;
                    same!(kk, k, "key of iter_mut().nth({i})");
                    *r = V::mk(v);
                    tr!(ctx, "{who}iter_mut().nth({i}) = {v}");
                    model[i] = v;
                    stores += 1;
                }
            }
            if last == Some(i) {
                over += 1;
            }
            last = Some(i);
        } else {
            match op.k % 32 {
                18 => {
                    for (k, x) in m.iter_mut() {
                        *x = V::mk(V::norm(x.rd().wrapping_add(k.ix() as u32)));
                    }
                    for (i, x) in model.iter_mut().enumerate() {
                        *x = V::norm(x.wrapping_add(i as u32));
                    }
                    tr!(ctx, "{who}iter_mut: += key");
                }
                19 => {
                    for (j, x) in m.values_mut().enumerate() {
                        *x = V::mk(V::norm(x.rd() ^ j as u32));
                    }
                    for (j, x) in model.iter_mut().enumerate() {
                        *x = V::norm(*x ^ j as u32);
                    }
                    tr!(ctx, "{who}values_mut: ^= position");
                }
                20 | 21 => {
                    let old = std::mem::replace(m, M::new(|_| V::mk(0)));
                    let vals = old.into_values();
                    same!(rd(vals.iter()), *model, "into_values()");
                    tr!(ctx, "{who}rebuilt from into_values()");
                    *m = match M::from_vec(vals.clone()) {
                        Some(m) => m,
                        None => {
                            let mut it = vals.into_iter();
                            M::new(|_| it.next().unwrap())
                        }
                    };
                }
                22 => {
                    let old = std::mem::replace(m, M::new(|_| V::mk(0)));
                    let got: Vec<(K, V)> = old.into_iter().collect();
                    let g: Vec<(usize, u32)> = got.iter().map(|(k, v)| (k.ix(), v.rd())).collect();
                    same!(g, model.iter().copied().enumerate().collect::<Vec<_>>(), "into_iter()");
                    for (k, v) in got.into_iter().rev() {
                        m[&k] = v;
                    }
                    tr!(ctx, "{who}rebuilt from into_iter()");
                }
                23 => {
                    let g: Vec<usize> = m.keys().take(n + 2).map(|k| k.ix()).collect();
                    same!(g, (0..n).collect::<Vec<_>>(), "keys()");
                    let g: Vec<usize> = m.clone().into_keys().take(n + 2).map(|k| k.ix()).collect();
                    same!(g, (0..n).collect::<Vec<_>>(), "into_keys()");
                    changed = false;
                }
                24..=29 if ctx.clone => {
                    forks += 1;
                    if op.b & 7 == 7 && forked {
                        let o = (t + 1) % 2;
                        let (src, sm) = (ms[o].0.clone(), ms[o].1.clone());
                        tr!(ctx, "map{t}.clone_from(&map{o})");
                        ms[t].0.clone_from(&src);
                        ms[t].1 = sm;
                    } else if forked && op.b & 8 == 8 {
                        tr!(ctx, "drop map{t}");
                        ms.remove(t);
                    } else if ms.len() < 3 {
                        let x = (ms[t].0.clone(), ms[t].1.clone());
                        tr!(ctx, "map{} = map{t}.clone()", ms.len());
                        ms.push(x);
                    }
                }
                _ => {
                    same!(m.len(), n, "len()");
                    same!(m.is_empty(), n == 0, "is_empty()");
                    changed = false;
                }
            }
        }
        if (changed || ctx.fmt) && (n <= 70 || step % 8 == 0) {
            for (j, (m, model)) in ms.iter().enumerate() {
                full(m, model, ctx).map_err(|e| format!("map{j} after step {step}: {e}"))?;
            }
        }
    }
    for (j, (m, model)) in ms.into_iter().enumerate() {
        full(&m, &model, ctx).map_err(|e| format!("map{j} at end: {e}"))?;
        same!(rd(&m.into_values()), model, "map{j} into_values");
    }
    let mut tags = vec![];
    if forks > 0 {
        tags.push("cloned");
    }
    if over > 0 {
        tags.push("overwrote");
    }
    if n == 0 {
        tags.push("empty key type");
    }
    Ok(Info { nontrivial: n == 0 || stores >= 2, tags })
}

/// C13.
pub fn construct<K: Key, V: Val, M: Total<K, V>>(c: &Case, ctx: &Ctx) -> Res {
    let n = K::N;
    let val = |i: usize| V::norm((c.h as u32 ^ 0x5a5a).wrapping_mul(2 * i as u32 + 1) >> 3);
    // Where the initialiser fails: often never, often anywhere.
    let sel = c.ops.first().map_or(0, |o| o.a as usize);
    let at = match c.h % 4 {
        0 => usize::MAX,
        1 => sel % (n + 1),
        2 => [0, 1, n.wrapping_sub(1), n / 2][sel % 4],
        _ => sel % 4,
    };
    // More failures after the first: must not be reached.
    let later = c.h >> 8 & 1 == 1;
    let mut calls: Vec<usize> = Vec::new();
    let err = |i: usize| (i, c.h ^ i as u64);
    let r = M::try_new(|k: K| {
        let i = calls.len();
        assert!(i < n, "initialiser called more than ORDINAL_SIZE times");
        calls.push(k.ix());
        if i == at || later && i > at { Err(err(i)) } else { Ok(V::mk(val(k.ix()))) }
    });
    let expect_calls: Vec<usize> = (0..n.min(at.saturating_add(1))).collect();
    tr!(ctx, "try_new failing at call {} of {n}: {} calls", if at == usize::MAX { -1 } else { at as isize }, calls.len());
    same!(calls, expect_calls, "keys the initialiser was called with");
    let model: Vec<u32> = (0..n).map(val).collect();
    match r {
        Ok(m) => {
            ensure!(at >= n, "try_new succeeded although the initialiser failed at call {at}");
            full(&m, &model, ctx)?;
        }
        Err(e) => {
            ensure!(at < n, "try_new failed although the initialiser did not");
            same!(e, err(at), "error");
        }
    }
    // Infallible constructor.
    let mut calls = Vec::new();
    let m = M::new(|k| {
        calls.push(k.ix());
        V::mk(val(k.ix()))
    });
    same!(calls, (0..n).collect::<Vec<_>>(), "keys new() was called with");
    full(&m, &model, ctx)?;
    let d = M::default();
    full(&d, &vec![V::norm(0); n], ctx).map_err(|e| format!("default: {e}"))?;
    same!(d.values().all(|v| *v == V::default()), true, "default values");
    Ok(Info {
        nontrivial: n == 0 || at < n,
        tags: vec![if at >= n { "no failure" } else if at == 0 { "first call fails" } else if at + 1 == n { "last call fails" } else { "middle call fails" }],
    })
}

/// C14.
pub fn transform<K: Key, const S: usize>(c: &Case, ctx: &Ctx) -> Res {
    let n = K::N;
    assert_eq!(n, S);
    type M<K, V, const S: usize> = OrdinalTotalArrayMap<K, V, S>;
    let mut model: Vec<u64> = (0..n).map(|i| c.h.rotate_left(i as u32) ^ i as u64).collect();
    let mut m: M<K, u64, S> = M::new(|k: K| model[k.ix()]);
    let all: Vec<usize> = (0..n).collect();
    let mut did = 0u32;
    for op in &c.ops {
        let b = op.b as u64;
        let i = if n > 0 { pick(op.a, n, c.h) } else { 0 };
        let f = |k: usize, v: u64| v.wrapping_mul(b | 1).wrapping_add(k as u64 * 7 + b);
        match op.k % 12 {
            0 => {
                let mut calls = Vec::new();
                m = m.map(|k, v| {
                    calls.push((k.ix(), v));
                    f(k.ix(), v)
                });
                same!(calls, model.iter().copied().enumerate().collect::<Vec<_>>(), "calls made by map()");
                model.iter_mut().enumerate().for_each(|(k, v)| *v = f(k, *v));
                tr!(ctx, "map(k, v)");
                did |= 1;
            }
            1 => {
                let mut calls = Vec::new();
                m = m.map_values(|v| {
                    calls.push(v);
                    v ^ b
                });
                same!(calls, model, "calls made by map_values()");
                model.iter_mut().for_each(|v| *v ^= b);
                tr!(ctx, "map_values(v)");
                did |= 2;
            }
            2 => {
                // Through a heap-owning type.
                let s: M<K, String, S> = m.map(|k, v| format!("{}:{v}", k.ix()));
                for k in 0..n {
                    same!(s[&K::mk(k)], format!("{k}:{}", model[k]), "map to String");
                }
                m = s.map_values(|s| s.split(':').nth(1).unwrap().parse().unwrap());
                tr!(ctx, "map to String and back");
                did |= 1;
            }
            3 | 4 => {
                let o: Vec<u32> = (0..n).map(|k| op.b.wrapping_mul(k as u32 + 1)).collect();
                let other: M<K, u32, S> = M::new(|k: K| o[k.ix()]);
                let z: M<K, (u64, u32), S> = m.zip(other);
                for k in 0..n {
                    same!(z[&K::mk(k)], (model[k], o[k]), "zip: value of key {k}");
                }
                m = z.map(|_, (a, b)| a.wrapping_mul(3) ^ b as u64);
                model.iter_mut().zip(&o).for_each(|(a, &b)| *a = a.wrapping_mul(3) ^ b as u64);
                tr!(ctx, "zip with u32 map");
                did |= 4;
            }
            5 => {
                let z = m.clone().zip(m.as_ref()).map_values(|(a, b)| (a, *b));
                for k in 0..n {
                    same!(z[&K::mk(k)], (model[k], model[k]), "zip with own view: key {k}");
                }
                tr!(ctx, "zip with as_ref view");
                did |= 4 | 8;
            }
            6 => {
                let r = m.as_ref();
                for k in 0..n {
                    let key = K::mk(k);
                    same!(*r[&key], model[k], "as_ref: key {k}");
                    ensure!(std::ptr::eq(r[&key], m.get(&key)), "as_ref: key {k} refers to another place");
                }
                let rr = r.as_ref();
                for k in 0..n {
                    same!(**rr[&K::mk(k)], model[k], "as_ref of as_ref: key {k}");
                }
                tr!(ctx, "as_ref");
                did |= 8;
            }
            7 | 8 => {
                let mut r = m.as_mut();
                for k in 0..n {
                    same!(*r[&K::mk(k)], model[k], "as_mut: key {k}");
                }
                if n > 0 {
                    **r.get_mut(&K::mk(i)) = b;
                    model[i] = b;
                    let j = n - 1 - i;
                    *r[&K::mk(j)] ^= 0xff;
                    model[j] ^= 0xff;
                }
                tr!(ctx, "as_mut, write key {i}");
                did |= 16;
            }
            9 => {
                let mut calls = Vec::new();
                let r = m.as_mut().map(|k, v| {
                    calls.push(k.ix());
                    *v = f(k.ix(), *v);
                    k.ix()
                });
                same!(calls, all, "calls made by as_mut().map()");
                same!(r.into_values().to_vec(), all, "result of as_mut().map()");
                model.iter_mut().enumerate().for_each(|(k, v)| *v = f(k, *v));
                tr!(ctx, "as_mut().map(write)");
                did |= 16;
            }
            10 => {
                let a = m.clone().into_values();
                same!(a.to_vec(), model, "into_values()");
                m = M::from_array(a);
                tr!(ctx, "from_array(into_values())");
                did |= 32;
            }
            _ => {
                // Views of two maps zipped together: swap values of the same key.
                let mut other: M<K, u64, S> = M::new(|k: K| b ^ k.ix() as u64);
                m.as_mut().zip(other.as_mut()).map_values(|(x, y)| std::mem::swap(x, y));
                for k in 0..n {
                    same!(other[&K::mk(k)], model[k], "swapped-out value of key {k}");
                    model[k] = b ^ k as u64;
                }
                tr!(ctx, "swap with another map through zipped as_mut views");
                did |= 16 | 4;
            }
        }
        for k in 0..n {
            same!(m[&K::mk(k)], model[k], "value of key {k}");
        }
        same!(m.values_array().to_vec(), model, "values_array");
    }
    Ok(Info { nontrivial: did.count_ones() >= 2, tags: vec![] })
}

/// C15, C22, C25.
pub fn iters<K: Key, V: Val, M: Total<K, V>>(c: &Case, ctx: &Ctx) -> Res {
    let n = K::N;
    let mut model: Vec<u32> = (0..n).map(|i| V::norm(i as u32 * 1000 + (c.h as u32 >> 16) % 1000)).collect();
    let mut m = M::new(|k| V::mk(model[k.ix()]));
    let ops = &c.ops[..];
    let fin = c.h >> 20;
    let q: VecDeque<(usize, u32)> = model.iter().copied().enumerate().collect();
    let bump = |v: u32| V::norm(v.wrapping_add(500_000_000));
    let fm = |it: &dyn Debug, q: &VecDeque<(usize, u32)>| {
        fmt_eq(it, &q.iter().map(|&(i, v)| (K::mk(i), V::mk(v))).collect::<Vec<_>>(), "iterator")
    };
    let kind = c.h % 9;
    tr!(ctx, "iterator kind {kind}");
    let st;
    match kind {
        0 | 1 => {
            let it = if kind == 0 { m.iter() } else { m.ref_iter() };
            let h = Hooks { len: Some(|i: &Iter<'_, K, V>| i.len()), adapters: Some(exact_adapters), clone: Some(|i: &Iter<'_, K, V>| i.clone()), fmt: Some(&|i, q| fm(i, q)) };
            st = d0::drive(it, q, ops, fin, &mut |(k, v): (K, &V)| (k.ix(), v.rd()), &h, ctx)?.1;
        }
        2 | 3 => {
            let h = Hooks { len: Some(|i: &IterMut<'_, K, V>| i.len()), adapters: Some(exact_adapters), fmt: Some(&|i, q| fm(i, q)), ..Hooks::default() };
            let mut wrote = Vec::new();
            st = d1::drive(m.iter_mut(), q, ops, fin, &mut |(k, v): (K, &mut V)| {
                let r = (k.ix(), v.rd());
                *v = V::mk(bump(r.1));
                wrote.push(r);
                r
            }, &h, ctx)?.1;
            for (k, v) in wrote {
                model[k] = bump(v);
            }
        }
        4 | 5 => {
            let old = std::mem::replace(&mut m, M::new(|k| V::mk(model[k.ix()])));
            let h = Hooks { len: Some(|i: &M::Own| i.len()), adapters: Some(exact_adapters), clone: Some(|i: &M::Own| i.clone()), fmt: Some(&|i, q| fm(i, q)) };
            st = d2::drive(old.into_iter(), q, ops, fin, &mut |(k, v): (K, V)| (k.ix(), v.rd()), &h, ctx)?.1;
        }
        6 => {
            let h = Hooks { len: Some(|i: &OrdinalValues<K>| i.len()), adapters: Some(exact_adapters), clone: Some(|i: &OrdinalValues<K>| i.clone()), ..Hooks::default() };
            let it = if c.h >> 13 & 1 == 0 { m.keys() } else { m.clone().into_keys() };
            st = d3::drive(it, (0..n).collect(), ops, fin, &mut |k: K| k.ix(), &h, ctx)?.1;
        }
        7 => {
            let h = Hooks { len: Some(|i: &std::slice::Iter<'_, V>| i.len()), adapters: Some(exact_adapters), ..Hooks::default() };
            st = d4::drive(m.values(), model.iter().copied().collect(), ops, fin, &mut |v: &V| v.rd(), &h, ctx)?.1;
        }
        _ => {
            let h = Hooks { len: Some(|i: &std::slice::IterMut<'_, V>| i.len()), adapters: Some(exact_adapters), ..Hooks::default() };
            st = d5::drive(m.values_mut(), model.iter().copied().collect(), ops, fin, &mut |v: &mut V| v.rd(), &h, ctx)?.1;
        }
    }
    full(&m, &model, ctx).map_err(|e| format!("map after iteration: {e}"))?;
    let mut tags = vec![];
    if st.mixed {
        tags.push("both ends");
    }
    if st.jumped {
        tags.push("jumps");
    }
    if st.exhausted {
        tags.push("operated after exhaustion");
    }
    if ctx.fmt && st.fmts > 0 {
        tags.push("formatted");
    }
    if st.clones > 0 {
        tags.push("cloned");
    }
    let active = if ctx.clone { st.clones > 0 } else { st.mixed || st.jumped };
    Ok(Info { nontrivial: n < 2 || active || ctx.fmt, tags })
}

/// C07, C22: the iterator over all values, for any key type.
pub fn all_values<K: Key>(c: &Case, ctx: &Ctx) -> Res {
    let n = K::N;
    let it = K::all_values();
    // Big types: look at a window at either end only.
    if n > 400 {
        return big_values::<K>(c, ctx);
    }
    let h = Hooks { len: Some(|i: &OrdinalValues<K>| i.len()), adapters: Some(exact_adapters), clone: Some(|i: &OrdinalValues<K>| i.clone()), ..Hooks::default() };
    let st = d6::drive(it, (0..n).collect(), &c.ops, c.h >> 20, &mut |k: K| k.ix(), &h, ctx)?.1;
    let mut tags = vec![];
    if st.mixed {
        tags.push("both ends");
    }
    if st.exhausted {
        tags.push("operated after exhaustion");
    }
    if st.clones > 0 {
        tags.push("cloned");
    }
    Ok(Info { nontrivial: n < 2 || st.mixed || st.jumped || st.clones > 0, tags })
}

/// The iterator over a type with very many values: the model is a pair of bounds.
fn big_values<K: Key>(c: &Case, ctx: &Ctx) -> Res {
    let mut it = K::all_values();
    let (mut lo, mut hi) = (0usize, K::N);
    let mut moved = (false, false);
    for op in &c.ops {
        let j = match op.b % 4 {
            0 => 0,
            1 => op.a as usize % 5,
            2 => op.a as usize,
            _ => (op.b >> 4) as usize % (hi - lo + 2),
        };
        // Provided nth/nth_back are linear: stay cheap.
        let j = if j > 3000 { j % 3000 } else { j };
        let (got, want, what) = match op.k % 6 {
            0 | 1 => (it.next(), if lo < hi { lo += 1; Some(lo - 1) } else { None }, "next"),
            2 | 3 => (it.next_back(), if lo < hi { hi -= 1; Some(hi) } else { None }, "next_back"),
            4 => (it.nth(j), if j < hi - lo { lo += j + 1; Some(lo - 1) } else { lo = hi; None }, "nth"),
            _ => (it.nth_back(j), if j < hi - lo { hi -= j + 1; Some(hi) } else { hi = lo; None }, "nth_back"),
        };
        if op.k % 2 == 0 { moved.0 = true } else { moved.1 = true }
        let got = got.map(|k| k.ix());
        tr!(ctx, "{what} ({j}) -> {got:?}");
        same!(got, want, "{what} ({j})");
        same!(it.len(), hi - lo, "len()");
        same!(it.size_hint(), (hi - lo, Some(hi - lo)), "size_hint()");
        if op.b >> 30 == 3 {
            let mut a = it.clone();
            same!(a.next().map(|k| k.ix()), (lo < hi).then_some(lo), "clone: next");
            same!(a.last().map(|k| k.ix()), (lo + 1 < hi).then(|| hi - 1), "clone: last");
        }
    }
    if c.h & 1 == 0 {
        same!(it.clone().count(), hi - lo, "count()");
        same!(it.last().map(|k| k.ix()), (lo < hi).then(|| hi - 1), "last()");
    }
    Ok(Info { nontrivial: moved.0 && moved.1, tags: vec!["big type"] })
}

/// C25: Debug of the all-values iterator never consumes, panics or names a value it will not yield.
pub fn values_fmt<K: Key>(c: &Case, ctx: &Ctx) -> Res {
    let n = K::N;
    let mut it = K::all_values();
    let mut q: VecDeque<usize> = (0..n).collect();
    let total = n;
    for op in &c.ops {
        let (g, w) = if op.k & 1 == 0 { (it.next(), q.pop_front()) } else { (it.next_back(), q.pop_back()) };
        same!(g.map(|k| k.ix()), w, "step");
        for pretty in [false, true] {
            let s = if pretty { format!("{it:#?}") } else { format!("{it:?}") };
            let d = |i: usize| {
                if pretty { format!("{:#?}", K::mk(i)) } else { format!("{:?}", K::mk(i)) }
            };
            let p = |i: usize| format!("{:?}", K::mk(i));
            // Documented by the crate's own test: [first..], [first..=last], [only], [].
            let forms = |d: &dyn Fn(usize) -> String| match (q.front(), q.back()) {
                (None, _) | (_, None) => "[]".to_string(),
                (Some(&f), Some(&b)) if b + 1 == total => {
                    let _ = b;
                    format!("[{}..]", d(f))
                }
                (Some(&f), Some(&b)) if f == b => format!("[{}]", d(f)),
                (Some(&f), Some(&b)) => format!("[{}..={}]", d(f), d(b)),
            };
            ensure!(s == forms(&d) || s == forms(&p), "Debug of OrdinalValues: {s}, expected {}", forms(&p));
        }
        same!(it.len(), q.len(), "len after formatting");
    }
    tr!(ctx, "{} steps on OrdinalValues, text {it:?}", c.ops.len());
    Ok(Info { nontrivial: c.ops.len() > 1, tags: vec!["OrdinalValues formatted"] })
}
