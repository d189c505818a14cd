//! C32: what containers hold after user code panicked in the middle of an operation.
use crate::case::{Case, Ctx, Info, Res};
use crate::drops::{faulty, plan, point, reset, take_some, Tracked, CALLBACK, DROP};
use crate::key::{pick, Key, Val};
use crate::sets::Set;
use crate::sparse::Sparse;
use crate::total::Total;
use crate::{ensure, same, tr};
use ordinal_map::map::Entry;
use ordinal_map::AtomicOrdinal;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::sync::atomic::Ordering::SeqCst;

type Model = BTreeMap<usize, u32>;

/// What the container may hold if the operation did not complete.
enum After {
    /// What it held before.
    Before,
    /// That, or what the completed operation leaves.
    Either,
    /// Exactly this.
    This(Model),
    /// These at least, and of the others only what it held before.
    AtLeast(Model),
}

fn judge(before: &Model, done: &Model, now: &Model, hit: bool, after: &After, what: &str) -> Result<(), String> {
    if !hit {
        same!(now, done, "contents after {what}");
        return Ok(());
    }
    match after {
        After::Before => same!(now, before, "contents after a panic during {what}, which changes nothing"),
        After::Either => ensure!(now == before || now == done, "contents after a panic during {what}: got {now:?}, expected {before:?} or {done:?}"),
        After::This(m) => same!(now, m, "contents after a panic during {what}"),
        After::AtLeast(m) => {
            for (k, v) in m {
                same!(now.get(k), Some(v), "entry {k} after a panic during {what}, which had no reason to touch it");
            }
            for (k, v) in now {
                ensure!(m.contains_key(k) || before.get(k) == Some(v), "entry {k} is {v} after a panic during {what}, before it was {:?}", before.get(k));
            }
        }
    }
    Ok(())
}

fn read_sparse<K: Key, M: Sparse<K, Tracked>>(m: &M) -> Result<Model, String> {
    let now: Model = m.iter().map(|(k, v)| (k.ix(), v.rd())).collect();
    for i in 0..K::N {
        same!(m.get(&K::mk(i)).map(|v| v.rd()), now.get(&i).copied(), "get({i})");
        same!(m.contains_key(&K::mk(i)), now.contains_key(&i), "contains_key({i})");
    }
    same!(m.len(), now.len(), "len");
    same!(m.is_empty(), now.is_empty(), "is_empty");
    same!(m.values().rev().map(|v| v.rd()).collect::<Vec<_>>(), now.values().rev().copied().collect::<Vec<_>>(), "values from the back");
    Ok(now)
}

pub fn sparse<K: Key, M: Sparse<K, Tracked>>(c: &Case, ctx: &Ctx) -> Res {
    reset();
    let n = K::N;
    let mut m = M::new();
    let mut model = Model::new();
    let mut hits = 0;
    let mut kinds = BTreeSet::new();
    for (step, op) in c.ops.iter().enumerate() {
        let (mask, at) = plan(op, n);
        let i = pick(op.a, n, c.h);
        // Every value stored is different.
        let v = 1000 * (step as u32 + 1) + (op.b & 511);
        let mut next = model.clone();
        let mut after = After::Before;
        let what: &str;
        let done;
        match op.k % 24 {
            0..=5 => {
                what = "insert";
                next.insert(i, v);
                after = After::Either;
                done = faulty(mask, at, || {
                    m.insert(K::mk(i), Tracked::mk(v));
                    Ok(())
                })?;
            }
            6 | 7 => {
                what = "remove";
                next.remove(&i);
                after = After::Either;
                done = faulty(mask, at, || {
                    m.remove(&K::mk(i));
                    Ok(())
                })?;
            }
            8 | 9 => {
                what = "or_insert";
                next.entry(i).or_insert(v);
                after = After::Either;
                done = faulty(mask, at, || {
                    m.entry(K::mk(i)).or_insert(Tracked::mk(v));
                    point(CALLBACK);
                    Ok(())
                })?;
            }
            10 => {
                what = "entry, looked at";
                done = faulty(mask, at, || {
                    let e = m.entry(K::mk(i));
                    point(CALLBACK);
                    std::hint::black_box(matches!(e, Entry::Vacant(_)));
                    Ok(())
                })?;
            }
            11 => {
                what = "entry, written";
                next.insert(i, v);
                after = After::Either;
                done = faulty(mask, at, || {
                    match m.entry(K::mk(i)) {
                        Entry::Vacant(e) => e.insert(Tracked::mk(v)),
                        Entry::Occupied(mut e) => *e.get_mut() = Tracked::mk(v),
                    }
                    Ok(())
                })?;
            }
            12 => {
                what = "get_mut";
                if let Some(x) = next.get_mut(&i) {
                    *x = v;
                }
                after = After::Either;
                done = faulty(mask, at, || {
                    if let Some(x) = m.get_mut(&K::mk(i)) {
                        *x = Tracked::mk(v);
                    }
                    Ok(())
                })?;
            }
            13 => {
                what = "lookups";
                done = faulty(mask, at, || {
                    std::hint::black_box((m.get(&K::mk(i)).is_some(), m.contains_key(&K::mk(i)), m.len(), m.is_empty()));
                    Ok(())
                })?;
            }
            14 => {
                what = "iteration";
                done = faulty(mask, at, || {
                    take_some(&mut m.iter(), op, n, |_| point(CALLBACK));
                    take_some(&mut m.keys(), op, n, |_| point(CALLBACK));
                    take_some(&mut m.values(), op, n, |_| point(CALLBACK));
                    Ok(())
                })?;
            }
            15 => {
                what = "formatting or cloning";
                done = faulty(mask, at, || {
                    std::hint::black_box(if op.b & 1 == 0 { format!("{m:?}").len() } else { m.clone().into_iter().count() });
                    Ok(())
                })?;
            }
            16 | 17 => {
                what = "changes through iter_mut or values_mut";
                let by_value: BTreeMap<u32, usize> = model.iter().map(|(k, v)| (*v, *k)).collect();
                let seen = RefCell::new(Vec::new());
                done = faulty(mask, at, || {
                    let mut change = |x: &mut Tracked| {
                        let old = x.rd();
                        point(CALLBACK);
                        let new = Tracked::mk(v + 1 + seen.borrow().len() as u32);
                        seen.borrow_mut().push((old, new.rd()));
                        *x = new;
                    };
                    if op.b >> 12 & 1 == 0 {
                        take_some(&mut m.iter_mut(), op, n, |(_, x)| change(x));
                    } else {
                        take_some(&mut m.values_mut(), op, n, change);
                    }
                    Ok(())
                })?;
                for (old, new) in seen.into_inner() {
                    let k = by_value.get(&old).ok_or_else(|| format!("iter_mut showed the value {old}, which the map does not hold"))?;
                    next.insert(*k, new);
                }
                after = After::This(next.clone());
            }
            18 | 19 => {
                what = "retain";
                let verdict = |k: usize| (op.b >> (k % 11) & 1 == 1, op.b >> (k % 7 + 11) & 1 == 1);
                let judged = RefCell::new(BTreeMap::new());
                let mut ran = false;
                done = faulty(mask, at, || {
                    ran = m.retain(|k, x| {
                        let k = k.ix();
                        let (keep, write) = verdict(k);
                        point(CALLBACK);
                        let new = if write { v + k as u32 } else { x.rd() };
                        judged.borrow_mut().insert(k, (keep, new));
                        if write {
                            *x = Tracked::mk(new);
                        }
                        keep
                    });
                    Ok(())
                })?;
                let judged = judged.into_inner();
                if ran || done.is_none() && !judged.is_empty() {
                    let mut least = Model::new();
                    for (k, old) in &model {
                        match judged.get(k) {
                            None => drop(least.insert(*k, *old)),
                            Some((true, new)) => drop(least.insert(*k, *new)),
                            // Rejected entries may be there or not, with either value.
                            Some((false, new)) => {
                                next.remove(k);
                                if done.is_none() && m.get(&K::mk(*k)).is_some_and(|x| x.rd() == *new) {
                                    least.insert(*k, *new);
                                }
                            }
                        }
                    }
                    if done.is_some() {
                        next = least;
                    } else {
                        after = After::AtLeast(least);
                    }
                }
            }
            20 | 21 => {
                what = "drain";
                let mut taken = BTreeSet::new();
                let mut in_body = false;
                next.clear();
                done = faulty(mask, at, || {
                    let mut d = m.drain();
                    take_some(&mut d, op, n, |(k, _x)| {
                        taken.insert(k.ix());
                        in_body = true;
                        point(CALLBACK);
                        in_body = false;
                    });
                    Ok(())
                })?;
                // The drain is dropped on the way out of its user's panic, which empties the map.
                after = if in_body { After::This(Model::new()) } else { After::AtLeast(Model::new()) };
                if done.is_none() {
                    for k in taken {
                        ensure!(!m.contains_key(&K::mk(k)), "key {k} was drained and is still there");
                    }
                }
            }
            22 => {
                what = "clear";
                next.clear();
                after = After::AtLeast(Model::new());
                done = faulty(mask, at, || {
                    m.clear();
                    Ok(())
                })?;
            }
            _ => {
                what = "a collection that fails, of the map's clone";
                done = faulty(mask, at, || {
                    let r = m.clone().into_iter().map(|(k, x)| {
                        point(CALLBACK);
                        (k, x)
                    });
                    std::hint::black_box(r.collect::<M>().len());
                    Ok(())
                })?;
            }
        }
        let hit = done.is_none();
        tr!(ctx, "{what} key {i}{}", if hit { ", struck by a panic" } else { "" });
        let now = read_sparse(&m).map_err(|e| format!("step {step}, after {what}{}: {e}", if hit { " was struck by a panic" } else { "" }))?;
        judge(&model, &next, &now, hit, &after, what).map_err(|e| format!("step {step}: {e}"))?;
        hits += hit as u32;
        if hit {
            kinds.insert(what);
        }
        model = now;
    }
    Ok(info(hits, kinds))
}
fn info(hits: u32, kinds: BTreeSet<&'static str>) -> Info {
    Info { nontrivial: hits > 0, tags: kinds.into_iter().collect() }
}

pub fn total<K: Key, M: Total<K, Tracked>>(c: &Case, ctx: &Ctx) -> Res {
    reset();
    let n = K::N;
    let mut m = M::new(|k| Tracked::mk(k.ix() as u32));
    let mut model: Model = (0..n).map(|i| (i, i as u32)).collect();
    let mut hits = 0;
    let mut kinds = BTreeSet::new();
    for (step, op) in c.ops.iter().enumerate() {
        let (mask, at) = plan(op, n);
        let i = pick(op.a, n, c.h);
        let v = 1000 * (step as u32 + 1) + (op.b & 511);
        let mut next = model.clone();
        let mut after = After::Before;
        let what: &str;
        let done;
        match op.k % 16 {
            0..=3 => {
                what = "insert";
                next.insert(i, v);
                after = After::Either;
                done = faulty(mask, at, || {
                    m.insert(K::mk(i), Tracked::mk(v));
                    Ok(())
                })?;
            }
            4 => {
                what = "index_mut";
                next.insert(i, v);
                after = After::Either;
                done = faulty(mask, at, || {
                    m[&K::mk(i)] = Tracked::mk(v);
                    Ok(())
                })?;
            }
            5 => {
                what = "get_mut";
                next.insert(i, v);
                after = After::Either;
                done = faulty(mask, at, || {
                    *m.get_mut(&K::mk(i)) = Tracked::mk(v);
                    Ok(())
                })?;
            }
            6 => {
                what = "lookups";
                done = faulty(mask, at, || {
                    std::hint::black_box((m.get(&K::mk(i)).rd(), m[&K::mk(i)].rd(), m.len(), m.is_empty()));
                    Ok(())
                })?;
            }
            7 => {
                what = "iteration";
                done = faulty(mask, at, || {
                    take_some(&mut m.iter(), op, n, |_| point(CALLBACK));
                    take_some(&mut m.keys(), op, n, |_| point(CALLBACK));
                    take_some(&mut m.values(), op, n, |_| point(CALLBACK));
                    Ok(())
                })?;
            }
            8 => {
                what = "formatting or cloning";
                done = faulty(mask, at, || {
                    std::hint::black_box(if op.b & 1 == 0 { format!("{m:?}").len() } else { m.clone().into_iter().count() });
                    Ok(())
                })?;
            }
            9..=11 => {
                what = "changes through iter_mut, values_mut or the array";
                let by_value: BTreeMap<u32, usize> = model.iter().map(|(k, v)| (*v, *k)).collect();
                let seen = RefCell::new(Vec::new());
                done = faulty(mask, at, || {
                    let mut change = |x: &mut Tracked| {
                        let old = x.rd();
                        point(CALLBACK);
                        let new = Tracked::mk(v + 1 + seen.borrow().len() as u32);
                        seen.borrow_mut().push((old, new.rd()));
                        *x = new;
                    };
                    match op.b >> 12 & 3 {
                        0 | 1 => take_some(&mut m.iter_mut(), op, n, |(_, x)| change(x)),
                        2 => take_some(&mut m.values_mut(), op, n, change),
                        _ => {
                            if let Some(a) = m.array_mut() {
                                a.iter_mut().rev().for_each(change);
                            }
                        }
                    }
                    Ok(())
                })?;
                for (old, new) in seen.into_inner() {
                    let k = by_value.get(&old).ok_or_else(|| format!("the value {old} was seen, which the map does not hold"))?;
                    next.insert(*k, new);
                }
                after = After::This(next.clone());
            }
            12 => {
                what = "another map's construction";
                done = faulty(mask, at, || {
                    let r = M::try_new(|k| {
                        point(CALLBACK);
                        if k.ix() == op.a as usize { Err(()) } else { Ok(m.get(&k).clone()) }
                    });
                    std::hint::black_box(r.is_ok());
                    Ok(())
                })?;
            }
            13 => {
                what = "construction of its replacement";
                let fresh: Model = (0..n).map(|k| (k, v + k as u32)).collect();
                next = fresh;
                after = After::Either;
                done = faulty(mask & !DROP, at, || {
                    m = M::new(|k| {
                        point(CALLBACK);
                        Tracked::mk(v + k.ix() as u32)
                    });
                    Ok(())
                })?;
            }
            _ => {
                what = "construction from its own entries";
                done = faulty(mask & !DROP, at, || {
                    let mut x = m.clone();
                    m = M::new(|k| std::mem::take(x.get_mut(&k)));
                    Ok(())
                })?;
            }
        }
        let hit = done.is_none();
        tr!(ctx, "{what} key {i}{}", if hit { ", struck by a panic" } else { "" });
        let now: Model = m.iter().map(|(k, v)| (k.ix(), v.rd())).collect();
        same!(now.len(), n, "entries after {what}");
        for i in 0..n {
            same!(m.get(&K::mk(i)).rd(), now[&i], "get({i}) after {what}");
        }
        judge(&model, &next, &now, hit, &after, what).map_err(|e| format!("step {step}: {e}"))?;
        hits += hit as u32;
        if hit {
            kinds.insert(what);
        }
        model = now;
    }
    Ok(info(hits, kinds))
}

/// A set, with what it can list.
pub fn set<K: Key, S: Set<K>>(c: &Case, ctx: &Ctx) -> Res {
    reset();
    let n = K::N;
    let mut s = S::new();
    let mut model = BTreeSet::new();
    let mut hits = 0;
    let mut kinds = BTreeSet::new();
    for (step, op) in c.ops.iter().enumerate() {
        let (mut mask, mut at) = plan(op, n);
        if op.k >> 5 >= 2 {
            mask = 15;
        }
        if op.b >> 29 & 1 == 1 {
            at %= 3;
        }
        let i = pick(op.a, n, c.h);
        let mut next = model.clone();
        let what: &str;
        let done;
        match op.k % 10 {
            0..=5 => {
                what = "insert";
                next.insert(i);
                done = faulty(mask, at, || {
                    s.insert(K::mk(i));
                    Ok(())
                })?;
            }
            6 => {
                what = "contains";
                done = faulty(mask, at, || {
                    std::hint::black_box(s.contains(&K::mk(i)));
                    Ok(())
                })?;
            }
            7 => {
                what = "iteration";
                done = faulty(mask, at, || {
                    std::hint::black_box(s.list(n));
                    Ok(())
                })?;
            }
            8 => {
                what = "formatting or cloning";
                done = faulty(mask, at, || {
                    std::hint::black_box((format!("{s:?}").len(), s.clone().contains(&K::mk(i))));
                    Ok(())
                })?;
            }
            _ => {
                what = "collecting its replacement";
                let fresh: Vec<usize> = (0..op.b as usize % 9).map(|j| pick(op.a.rotate_left(j as u32), n, c.h)).collect();
                next = fresh.iter().copied().collect();
                done = faulty(mask, at, || {
                    s = fresh
                        .iter()
                        .map(|&i| {
                            point(CALLBACK);
                            K::mk(i)
                        })
                        .collect();
                    Ok(())
                })?;
            }
        }
        let hit = done.is_none();
        tr!(ctx, "{what} {i}{}", if hit { ", struck by a panic" } else { "" });
        let now: BTreeSet<usize> = (0..n).filter(|&i| s.contains(&K::mk(i))).collect();
        if let Some(l) = s.list(n + 1) {
            same!(l, now.iter().copied().collect::<Vec<_>>(), "what the set lists after {what}");
        }
        ensure!(now == next || hit && now == model, "step {step}, {what} {i}{}: the set holds {now:?}, before {model:?}", if hit { " struck by a panic" } else { "" });
        hits += hit as u32;
        if hit {
            kinds.insert(what);
        }
        model = now;
    }
    Ok(info(hits, kinds))
}

pub fn cell<K: Key>(c: &Case, ctx: &Ctx) -> Res
where
    K: Debug,
{
    reset();
    let n = K::N;
    let start = pick(c.h as u16, n, c.h);
    let a = AtomicOrdinal::new(K::mk(start));
    let mut model = start;
    let mut hits = 0;
    let mut kinds = BTreeSet::new();
    for (step, op) in c.ops.iter().enumerate() {
        let mask = if op.k >> 5 >= 2 { 15 } else { 0 };
        let at = op.b >> 28 & 3;
        let i = pick(op.a, n, c.h);
        let old = if op.b & 3 == 0 { pick(op.b as u16, n, c.h) } else { model };
        let mut next = model;
        let what: &str;
        let done;
        match op.k % 6 {
            0 | 1 => {
                what = "store";
                next = i;
                done = faulty(mask, at, || {
                    a.store(K::mk(i), SeqCst);
                    Ok(())
                })?;
            }
            2 => {
                what = "load";
                done = faulty(mask, at, || {
                    std::hint::black_box(a.load(SeqCst).ix());
                    Ok(())
                })?;
            }
            3 => {
                what = "formatting";
                done = faulty(mask, at, || {
                    std::hint::black_box(format!("{a:?}").len());
                    Ok(())
                })?;
            }
            _ => {
                what = "compare_exchange";
                if old == model {
                    next = i;
                }
                done = faulty(mask, at, || {
                    std::hint::black_box(a.compare_exchange(K::mk(old), K::mk(i), SeqCst, SeqCst).is_ok());
                    Ok(())
                })?;
            }
        }
        let hit = done.is_none();
        tr!(ctx, "{what} {i}{}", if hit { ", struck by a panic" } else { "" });
        let now = a.load(SeqCst).ix();
        ensure!(now == next || hit && now == model, "step {step}, {what} {i}{}: the cell holds {now}, before {model}", if hit { " struck by a panic" } else { "" });
        hits += hit as u32;
        if hit {
            kinds.insert(what);
        }
        model = now;
    }
    Ok(info(hits, kinds))
}
