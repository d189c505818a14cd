//! C27: histories meant for an executor that detects undefined behaviour (Miri, AddressSanitizer).
//! Keys may lie: an `Ordinal` impl is safe code, so nothing it does may cause undefined behaviour.
use crate::case::{Case, Ctx, Info, Op, Res, Subject};
use crate::drops::{errors, reset, Tracked};
use crate::key::{pick, Key, Kn, Val};
use crate::sets::Set;
use crate::sparse::Sparse;
use crate::total::Total;
use crate::tr;
use ordinal_map::map::total::OrdinalTotalArrayMap;
use ordinal_map::map::Entry;
use ordinal_map::set::{OrdinalArraySet, OrdinalSet, OrdinalSet64};
use ordinal_map::{AtomicOrdinal, Ordinal};
use std::cell::Cell;
use std::fmt::Debug;
use std::hint::black_box;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

thread_local! {
    static DICE: Cell<u64> = const { Cell::new(1) };
    /// Out of 16: how often a key lies.
    static LIES: Cell<u64> = const { Cell::new(0) };
}

fn roll() -> u64 {
    DICE.with(|d| {
        let mut x = d.get();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        d.set(x);
        x >> 8
    })
}

fn lie() -> Option<u64> {
    if std::thread::panicking() {
        // A second panic would end the process, which is well-defined.
        return None;
    }
    let r = roll();
    (r % 16 < LIES.with(|l| l.get())).then_some(r >> 4)
}

/// A key that owns memory and whose conversions may return anything, disagree, or panic.
#[derive(Clone, PartialEq, Eq)]
pub struct Evil<const N: usize>(Box<u32>);
impl<const N: usize> Debug for Evil<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "E{}", self.0)
    }
}
impl<const N: usize> Ordinal for Evil<N> {
    const ORDINAL_SIZE: usize = N;
    fn ordinal(&self) -> usize {
        match lie() {
            None => *self.0 as usize,
            Some(r) => match r % 8 {
                0 => N,
                1 => N + 1,
                2 => usize::MAX,
                3 => usize::MAX - r as usize % 300,
                4 => 64,
                5 => N.wrapping_mul(r as usize % 70),
                6 => panic_any(crate::case::Injected),
                _ => r as usize % (N + 1),
            },
        }
    }
    fn from_ordinal(o: usize) -> Option<Self> {
        match lie() {
            None => (o < N).then(|| Evil(Box::new(o as u32))),
            Some(r) => match r % 4 {
                0 => None,
                1 => panic_any(crate::case::Injected),
                _ => Some(Evil(Box::new((r >> 8) as u32 % (N as u32 * 2 + 1)))),
            },
        }
    }
}
impl<const N: usize> Key for Evil<N> {
    const N: usize = N;
    fn mk(i: usize) -> Self {
        Evil(Box::new(i as u32))
    }
    fn ix(&self) -> usize {
        *self.0 as usize
    }
}

fn setup(c: &Case) {
    reset();
    DICE.with(|d| d.set(c.h | 1));
    LIES.with(|l| l.set(0));
}
/// Construction may panic when keys lie, so lying starts afterwards.
fn lies(c: &Case) {
    LIES.with(|l| l.set([0, 1, 4, 8][(c.h >> 61 & 3) as usize]));
}

/// Any panic is acceptable; undefined behaviour is not.
fn attempt<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// Walks an iterator from both ends holding on to what it yields, with `between` run in the
/// middle; finally touches everything held.
fn walk<I: DoubleEndedIterator>(it: &mut I, op: &Op, limit: usize, between: impl Fn(&I), touch: impl Fn(&mut I::Item)) {
    let mut held: Vec<I::Item> = Vec::new();
    let steps = if op.b >> 28 & 1 == 0 { limit + 1 } else { op.b as usize >> 20 & 7 };
    for j in 0..steps {
        let x = match op.b >> (j % 20) & 7 {
            0..=2 => it.next(),
            3..=5 => it.next_back(),
            6 => it.nth(1),
            _ => it.nth_back(1),
        };
        if j % 3 == 1 {
            between(it);
        }
        match x {
            Some(mut x) => {
                touch(&mut x);
                held.push(x);
            }
            None => break,
        }
        for h in &mut held {
            touch(h);
        }
        if held.len() > limit {
            break;
        }
    }
    between(it);
    for h in held.iter_mut().rev() {
        touch(h);
    }
}

/// An iterator that lies about its length.
struct Liar<I>(I, (usize, Option<usize>));
impl<I: Iterator> Iterator for Liar<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}
fn hints(r: u32) -> (usize, Option<usize>) {
    [(0, Some(0)), (0, None), (3, Some(1)), (1000, Some(1000))][r as usize % 4]
}

pub fn sparse<K: Key, M: Sparse<K, Tracked>>(c: &Case, ctx: &Ctx) -> Res {
    setup(c);
    let n = K::N;
    let mut m = M::new();
    let mut other = M::default();
    let mut parked: Vec<M::Own> = Vec::new();
    lies(c);
    for op in &c.ops {
        let i = if n > 0 { pick(op.a, n, c.h) } else { 0 };
        let j = if n > 0 { pick(op.a.rotate_left(6), n, c.h) } else { 0 };
        let v = op.b & 0xffff;
        let t = |x: &mut (K, &mut Tracked)| {
            black_box(x.1.rd());
            *x.1 = Tracked::mk(v);
        };
        let kind = if n == 0 { 12 + op.k % 17 } else { op.k % 29 };
        tr!(ctx, "operation {kind} key {i}");
        attempt(|| match kind {
            0..=4 => drop(m.insert(K::mk(i), Tracked::mk(v))),
            5 => drop(m.remove(&K::mk(i))),
            6 => drop(m.get(&K::mk(i)).map(|t| t.rd())),
            7 => drop(m.get_mut(&K::mk(i)).map(|t| *t = Tracked::mk(v))),
            8 => {
                let r = m.entry(K::mk(i)).or_insert(Tracked::mk(v));
                *r = Tracked::mk(r.rd() + 1);
            }
            9 => match m.entry(K::mk(i)) {
                Entry::Vacant(e) => {
                    black_box(e.key().ix());
                    e.insert(Tracked::mk(v))
                }
                Entry::Occupied(mut e) => {
                    black_box((e.key().ix(), e.get().rd()));
                    *e.get_mut() = Tracked::mk(v);
                    black_box(e.get().rd());
                }
            },
            10 => {
                black_box(m.contains_key(&K::mk(i)) || m.is_empty() || m.len() > 2);
            }
            11 => {
                m.insert(K::mk(i), Tracked::mk(v));
                m.insert(K::mk(j), Tracked::mk(v));
                let mut r: Vec<_> = m.iter_mut().collect();
                for _ in 0..2 {
                    for (_, x) in r.iter_mut().rev() {
                        **x = Tracked::mk(x.rd() + 1);
                    }
                }
                black_box(format!("{r:?}"));
            }
            12 | 13 => walk(&mut m.iter_mut(), op, n, |it| drop(black_box(format!("{it:?}"))), t),
            14 => walk(&mut m.values_mut(), op, n, |it| drop(black_box(format!("{it:?}"))), |x| **x = Tracked::mk(x.rd())),
            15 => walk(&mut m.iter(), op, n, |it| drop(black_box(format!("{it:?} {:?}", it.clone()))), |x| drop(black_box(x.1.rd()))),
            16 => {
                walk(&mut m.keys(), op, n, |it| drop(black_box(it.clone().count())), |k| drop(black_box(k.ix())));
                walk(&mut m.values(), op, n, |it| drop(black_box(format!("{it:?}"))), |x| drop(black_box(x.rd())));
            }
            17 | 18 => {
                let mut d = m.drain();
                walk(&mut d, op, n, |it| drop(black_box(it.size_hint())), |x| x.1 = Tracked::mk(x.1.rd()));
                if op.b >> 30 == 3 {
                    std::mem::forget(d);
                }
            }
            19 => m.clear(),
            20 => {
                m.retain(|_, x| {
                    *x = Tracked::mk(x.rd() ^ 1);
                    roll() & 1 == 0
                });
            }
            21 => other = m.clone(),
            22 => m.clone_from(&other),
            23 => std::mem::swap(&mut m, &mut other),
            24 | 25 => {
                let mut it = std::mem::replace(&mut m, M::new()).into_iter();
                walk(&mut it, op, n, |it| drop(black_box(format!("{it:?} {:?}", it.clone().size_hint()))), |x| drop(black_box(x.1.rd())));
                parked.push(it);
            }
            26 => {
                if let Some(mut it) = parked.pop() {
                    let c = it.clone();
                    black_box(it.next_back());
                    parked.push(c);
                    black_box(it.count());
                }
            }
            27 => {
                let items = (0..op.a as usize % 6).filter(|_| n > 0).map(|d| (K::mk((i + d) % n), Tracked::mk(v)));
                m = Liar(items, hints(op.b >> 16)).collect();
            }
            _ => drop(black_box(format!("{m:?} {m:#?} {other:?}"))),
        });
        errors()?;
    }
    attempt(|| drop(m));
    attempt(|| drop((other, parked)));
    errors()?;
    Ok(Info { nontrivial: c.ops.len() > 2, tags: vec![] })
}

pub fn total<K: Key, M: Total<K, Tracked>>(c: &Case, ctx: &Ctx) -> Res {
    setup(c);
    let n = K::N;
    let mut m: Option<M> = None;
    let mut other: Option<M> = None;
    let mut parked: Vec<M::Own> = Vec::new();
    lies(c);
    for op in &c.ops {
        let i = if n > 0 { pick(op.a, n, c.h) } else { 0 };
        let v = op.b & 0xffff;
        if m.is_none() {
            m = attempt(|| M::new(|_| Tracked::mk(v)));
            let Some(_) = m else { continue };
        }
        let kind = if n == 0 { 6 + op.k % 14 } else { op.k % 20 };
        tr!(ctx, "operation {kind} key {i}");
        let mm = &mut m;
        attempt(|| {
            let x = mm.as_mut().unwrap();
            match kind {
                0 | 1 => drop(x.insert(K::mk(i), Tracked::mk(v))),
                2 => drop(black_box(x.get(&K::mk(i)).rd())),
                3 => *x.get_mut(&K::mk(i)) = Tracked::mk(v),
                4 => x[&K::mk(i)] = Tracked::mk(v),
                5 => drop(black_box(x[&K::mk(i)].rd())),
                6 | 7 => walk(&mut x.iter_mut(), op, n, |it| drop(black_box(format!("{it:?} {}", it.len()))), |x| *x.1 = Tracked::mk(x.1.rd())),
                8 => walk(&mut x.iter(), op, n, |it| drop(black_box(format!("{it:?} {:?}", it.clone()))), |x| drop(black_box(x.1.rd()))),
                9 => {
                    let mut r: Vec<_> = x.values_mut().collect();
                    for _ in 0..2 {
                        for y in r.iter_mut() {
                            **y = Tracked::mk(y.rd());
                        }
                    }
                    walk(&mut x.keys(), op, n, |it| drop(black_box(it.len())), |k| drop(black_box(k.ix())));
                }
                10 | 11 => {
                    let mut it = mm.take().unwrap().into_iter();
                    walk(&mut it, op, n, |it| drop(black_box(format!("{it:?} {:?}", it.clone()))), |x| drop(black_box(x.1.rd())));
                    parked.push(it);
                }
                12 => {
                    if let Some(mut it) = parked.pop() {
                        let c = it.clone();
                        black_box(it.nth_back(op.a as usize % 3));
                        parked.push(c);
                        if op.b & 1 == 0 {
                            black_box(it.rev().count());
                        } else {
                            std::mem::forget(it);
                        }
                    }
                }
                13 | 14 => {
                    let fail = op.a as usize % (n + 2);
                    let mut calls = 0;
                    let r = M::try_new(|_| {
                        calls += 1;
                        if calls == fail {
                            if op.b & 1 == 0 {
                                panic_any(crate::case::Injected)
                            }
                            return Err(Tracked::mk(v));
                        }
                        Ok(Tracked::mk(v))
                    });
                    if let Ok(r) = r {
                        other = Some(r);
                    }
                }
                15 => other = Some(x.clone()),
                16 => {
                    if let Some(o) = &other {
                        x.clone_from(o);
                    }
                }
                17 => {
                    let vals = mm.take().unwrap().into_values();
                    black_box(vals.iter().map(|t| t.rd()).sum::<u32>());
                    if let Some(r) = M::from_vec(vals) {
                        *mm = Some(r);
                    }
                }
                18 => {
                    if let Some(a) = x.array_mut() {
                        a.reverse();
                    }
                    black_box(x.array().map(|a| a.len()));
                    drop(M::default());
                }
                _ => drop(black_box(format!("{x:?} {x:#?}"))),
            }
        });
        errors()?;
    }
    attempt(|| drop(m));
    attempt(|| drop((other, parked)));
    errors()?;
    Ok(Info { nontrivial: c.ops.len() > 2, tags: vec![] })
}

pub fn transform<K: Key, const S: usize>(c: &Case, ctx: &Ctx) -> Res {
    setup(c);
    type M<K, V, const S: usize> = OrdinalTotalArrayMap<K, V, S>;
    let mut m: Option<M<K, Tracked, S>> = None;
    lies(c);
    for op in &c.ops {
        let v = op.b & 0xffff;
        let blow = || {
            if op.b >> 30 == 3 && roll() % (S as u64 + 1) == 0 {
                panic_any(crate::case::Injected)
            }
        };
        if m.is_none() {
            m = attempt(|| M::new(|_| Tracked::mk(v)));
        }
        let Some(x) = m.take() else { continue };
        tr!(ctx, "operation {}", op.k % 10);
        m = attempt(|| match op.k % 10 {
            0 => x.map(|_, t| {
                blow();
                Tracked::mk(t.rd() + 1)
            }),
            1 => x.map_values(|t| {
                blow();
                t
            }),
            2 => {
                let o = M::new(|_| Tracked::mk(v).rd().to_string());
                x.zip(o).map(|_, (t, s)| {
                    blow();
                    black_box(s);
                    t
                })
            }
            3 => {
                let mut x = x;
                {
                    let mut r = x.as_mut();
                    let mut held: Vec<_> = r.values_mut().collect();
                    for _ in 0..2 {
                        for y in held.iter_mut().rev() {
                            ***y = Tracked::mk(y.rd() + 1);
                        }
                    }
                    let vals = r.into_values();
                    for y in vals {
                        blow();
                        *y = Tracked::mk(y.rd());
                    }
                }
                x
            }
            4 => {
                let r = x.as_ref();
                black_box(r.as_ref().map_values(|t| {
                    blow();
                    t.rd()
                }));
                drop(r);
                x
            }
            5 => {
                let mut x = x;
                let mut o = M::<K, Tracked, S>::new(|_| Tracked::mk(v));
                x.as_mut().zip(o.as_mut()).map_values(|(a, b)| {
                    blow();
                    std::mem::swap(a, b)
                });
                o
            }
            6 => M::from_array(x.into_values()),
            7 => {
                let z = x.clone().zip(x.as_ref());
                let mut it = z.into_iter();
                black_box(it.next_back().map(|(_, (a, b))| a.rd() + b.rd()));
                drop(it);
                x
            }
            8 => {
                // Values that are sensitive to being read uninitialised: booleans and references.
                let b = x.as_ref().map_values(|t| t.rd() % 2 == 0);
                black_box(b.values().filter(|b| **b).count());
                x.zip(b).map_values(|(t, _)| t)
            }
            _ => {
                black_box(format!("{x:?} {:?}", x.values_array()));
                x
            }
        });
        errors()?;
    }
    attempt(|| drop(m));
    errors()?;
    Ok(Info { nontrivial: c.ops.len() > 2, tags: vec![] })
}

pub fn set<K: Key, S: Set<K>>(c: &Case, ctx: &Ctx) -> Res {
    setup(c);
    let n = K::N;
    let mut s = S::new();
    let mut other = S::default();
    lies(c);
    for op in &c.ops {
        let i = if n > 0 { pick(op.a, n, c.h) } else { 0 };
        tr!(ctx, "operation {} element {i}", op.k % 9);
        attempt(|| match op.k % 9 {
            0..=3 if n > 0 => drop(black_box(s.insert(K::mk(i)))),
            4 if n > 0 => drop(black_box(s.contains(&K::mk(i)))),
            5 => drop(black_box(s.list(n + 2))),
            6 => other = s.clone(),
            7 => {
                s = Liar((0..op.a as usize % 5).filter(|_| n > 0).map(|d| K::mk((i + d) % n)), hints(op.b)).collect();
            }
            _ => drop(black_box(format!("{s:?} {other:?}"))),
        });
    }
    Ok(Info { nontrivial: c.ops.len() > 2, tags: vec![] })
}

pub fn set_iter<K: Key + PartialEq>(c: &Case, ctx: &Ctx) -> Res {
    setup(c);
    let n = K::N;
    let mut s = OrdinalSet::<K>::new();
    lies(c);
    for op in &c.ops {
        if n > 0 && op.k & 1 == 0 {
            attempt(|| s.insert(K::mk(pick(op.a, n, c.h))));
        } else {
            attempt(|| walk(&mut s.iter(), op, n, |it| drop(black_box(format!("{it:?} {:?}", it.clone().size_hint()))), |k| drop(black_box(k.ix()))));
        }
    }
    tr!(ctx, "{} operations", c.ops.len());
    Ok(Info { nontrivial: c.ops.len() > 2, tags: vec![] })
}
pub fn set64_iter<K: Key + PartialEq>(c: &Case, ctx: &Ctx) -> Res {
    setup(c);
    let n = K::N;
    let mut s = if c.h & 1 == 0 { OrdinalSet64::<K>::new() } else { OrdinalSet64::all() };
    lies(c);
    for op in &c.ops {
        if n > 0 && op.k & 1 == 0 {
            attempt(|| s.insert(K::mk(pick(op.a, n, c.h))));
        } else {
            attempt(|| walk(&mut s.iter(), op, n, |it| drop(black_box(format!("{it:?} {}", it.clone().len()))), |k| drop(black_box(k.ix()))));
        }
        black_box(s == s.clone());
    }
    tr!(ctx, "{} operations", c.ops.len());
    Ok(Info { nontrivial: c.ops.len() > 2, tags: vec![] })
}

/// Conversions and the all-values iterator of a type.
pub fn convert<T: Ordinal + Debug + Clone>(c: &Case, ctx: &Ctx) -> Res {
    setup(c);
    let n = T::ORDINAL_SIZE;
    let mut vals: Vec<T> = Vec::new();
    lies(c);
    for op in &c.ops {
        let o = match op.b % 4 {
            0 => op.a as usize,
            1 if n > 0 => op.a as usize % n,
            2 => usize::MAX - op.a as usize % 4,
            _ => (op.b as usize) << (op.a % 32),
        };
        tr!(ctx, "operation {} number {o}", op.k % 5);
        attempt(|| match op.k % 5 {
            0 | 1 => vals.extend(T::from_ordinal(o)),
            2 => {
                for v in &vals {
                    black_box(v.ordinal());
                }
            }
            3 => {
                let mut it = T::all_values();
                walk(&mut it, op, 12, |it| drop(black_box(format!("{it:?} {}", it.clone().len()))), |v| drop(black_box(v.ordinal())));
            }
            _ => {
                if let Some(v) = vals.pop() {
                    let a = AtomicOrdinal::new(v.clone());
                    use std::sync::atomic::Ordering::*;
                    black_box(a.load(Acquire));
                    a.store(v.clone(), Release);
                    let r = a.compare_exchange(v.clone(), v.clone(), AcqRel, Acquire);
                    black_box(format!("{a:?} {r:?}"));
                }
            }
        });
        vals.truncate(20);
    }
    black_box(format!("{vals:?}"));
    Ok(Info { nontrivial: c.ops.len() > 2, tags: vec![] })
}

/// A derived type over keys that may lie.
#[derive(Ordinal, Clone, Debug)]
pub enum Mixed {
    A,
    B(Evil<2>, bool),
    C { x: [Evil<2>; 2], y: Option<Box<Evil<3>>> },
}

pub fn subjects() -> Vec<Subject> {
    use ordinal_map::map::total::{OrdinalTotalArrayMap as TA, OrdinalTotalMap as TH};
    use ordinal_map::map::{OrdinalArrayMap as A, OrdinalMap as H};
    macro_rules! s {
        ($n:literal, $f:expr, $m:expr) => {
            Subject { name: $n, f: $f, weight: 100, max_ops: $m }
        };
    }
    let mut v = vec![
        s!("OrdinalMap<Evil<0>>", sparse::<Evil<0>, H<Evil<0>, Tracked>>, 8),
        s!("OrdinalMap<Evil<5>>", sparse::<Evil<5>, H<Evil<5>, Tracked>>, 24),
        s!("OrdinalMap<Evil<66>>", sparse::<Evil<66>, H<Evil<66>, Tracked>>, 12),
        s!("OrdinalArrayMap<Evil<0>>", sparse::<Evil<0>, A<Evil<0>, Tracked, 0>>, 8),
        s!("OrdinalArrayMap<Evil<5>>", sparse::<Evil<5>, A<Evil<5>, Tracked, 5>>, 24),
        s!("OrdinalTotalMap<Evil<0>>", total::<Evil<0>, TH<Evil<0>, Tracked>>, 8),
        s!("OrdinalTotalMap<Evil<5>>", total::<Evil<5>, TH<Evil<5>, Tracked>>, 24),
        s!("OrdinalTotalArrayMap<Evil<0>>", total::<Evil<0>, TA<Evil<0>, Tracked, 0>>, 8),
        s!("OrdinalTotalArrayMap<Evil<5>>", total::<Evil<5>, TA<Evil<5>, Tracked, 5>>, 24),
        s!("OrdinalTotalArrayMap<Evil<1>>/transformations", transform::<Evil<1>, 1>, 10),
        s!("OrdinalTotalArrayMap<Evil<4>>/transformations", transform::<Evil<4>, 4>, 14),
        s!("OrdinalTotalArrayMap<Kn<0>>/transformations", transform::<Kn<0>, 0>, 8),
        s!("OrdinalSet<Evil<5>>", set::<Evil<5>, OrdinalSet<Evil<5>>>, 16),
        s!("OrdinalSet<Evil<64>>", set::<Evil<64>, OrdinalSet<Evil<64>>>, 16),
        s!("OrdinalSet<Evil<130>>", set::<Evil<130>, OrdinalSet<Evil<130>>>, 16),
        s!("OrdinalSet64<Evil<64>>", set::<Evil<64>, OrdinalSet64<Evil<64>>>, 16),
        s!("OrdinalArraySet<Evil<130>>", set::<Evil<130>, OrdinalArraySet<Evil<130>, 3>>, 16),
        s!("OrdinalArraySet<Evil<0>>", set::<Evil<0>, OrdinalArraySet<Evil<0>, 0>>, 8),
        s!("OrdinalSet<Evil<64>>/iter", set_iter::<Evil<64>>, 8),
        s!("OrdinalSet<Evil<130>>/iter", set_iter::<Evil<130>>, 8),
        s!("OrdinalSet64<Evil<7>>/iter", set64_iter::<Evil<7>>, 10),
        s!("OrdinalSet64<Evil<64>>/iter", set64_iter::<Evil<64>>, 8),
        s!("[Evil<3>; 3]", convert::<[Evil<3>; 3]>, 14),
        s!("[Box<Evil<2>>; 0]", convert::<[Box<Evil<2>>; 0]>, 8),
        s!("[[Evil<2>; 2]; 2]", convert::<[[Evil<2>; 2]; 2]>, 14),
        s!("(Evil<2>, Option<Evil<3>>, bool)", convert::<(Evil<2>, Option<Evil<3>>, bool)>, 14),
        s!("Result<Box<Evil<3>>, Evil<2>>", convert::<Result<Box<Evil<3>>, Evil<2>>>, 14),
        s!("Mixed", convert::<Mixed>, 14),
        s!("char", convert::<char>, 14),
        s!("std::num::NonZeroU8", convert::<std::num::NonZeroU8>, 14),
        s!("std::num::NonZeroI32", convert::<std::num::NonZeroI32>, 14),
        #[cfg(target_pointer_width = "64")]
        s!("std::num::NonZeroU64", convert::<std::num::NonZeroU64>, 14),
        s!("std::cmp::Ordering", convert::<std::cmp::Ordering>, 14),
        s!("Option<bool>", convert::<Option<bool>>, 14),
        s!("std::convert::Infallible", convert::<std::convert::Infallible>, 6),
    ];
    // The histories with injected panics of C19, over small keys.
    v.extend(crate::drops_subjects!().into_iter().filter(|s| !s.name.contains("70") && !s.name.contains("65")).map(|s| Subject { weight: 100, max_ops: s.max_ops.min(16), ..s }));
    v
}
