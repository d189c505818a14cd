//! C31: passes over containers of many keys: key conversions, CPU time and stack depth.
use crate::case::{Case, Ctx, Info, Op, Res};
use crate::key::{pick, Key, CALLS, LIMIT};
use crate::resources::cpu_ns;
use crate::sets::Set;
use crate::sparse::Sparse;
use crate::total::Total;
use crate::{ensure, tr};
use ordinal_map::map::total::OrdinalTotalArrayMap;
use ordinal_map::set::{OrdinalArraySet, OrdinalSet, OrdinalSet64};
use std::fmt::Write;

/// Conversions allowed per key of the type, in one pass. The passes need up to three.
const CALLS_PER_KEY: u64 = 24;
/// CPU time allowed per key of the type, in one pass. Unoptimised passes take under 60.
const NS_PER_KEY: u64 = 500;
/// Containers on the heap: frames of constant size fit, arrays of the big types and recursion do not.
const SMALL: usize = 160 << 10;
/// Containers that are arrays.
const LARGE: usize = 256 << 20;

/// The ways to go through an iterator. Every one looks at each remaining position at most a few times.
fn walk<I: DoubleEndedIterator>(mut it: I, op: &Op, n: usize) -> usize {
    let mut seen = 0;
    let stride = [1, 2, 3, 63, 64, 65, 127, 1000][op.b as usize >> 4 & 7];
    let mut drive = |it: &mut I, back: &mut dyn FnMut(usize) -> (bool, usize)| {
        for j in 0..n + 2 {
            let (b, k) = back(j);
            let x = match (b, k) {
                (false, 0) => it.next(),
                (true, 0) => it.next_back(),
                (false, k) => it.nth(k - 1),
                (true, k) => it.nth_back(k - 1),
            };
            if x.is_none() {
                // Asking again at the end is cheap.
                for j in 0..200 {
                    let back = match op.b >> 30 {
                        0 => j % 2 == 1,
                        1 | 2 => j >= 100,
                        _ => j < 100,
                    };
                    let x = if back { it.next_back() } else { it.next() };
                    seen += x.is_some() as usize;
                }
                break;
            }
            seen += 1;
        }
        seen
    };
    match op.b & 15 {
        0 => drive(&mut it, &mut |_| (false, 0)),
        1 => drive(&mut it, &mut |_| (true, 0)),
        2 => drive(&mut it, &mut |j| (j % 2 == 1, 0)),
        3 => drive(&mut it, &mut |j| (j / stride % 2 == 1, 0)),
        4 => drive(&mut it, &mut |_| (false, stride)),
        5 => drive(&mut it, &mut |_| (true, stride)),
        6 => drive(&mut it, &mut |j| (op.b >> (8 + j % 24) & 1 == 1, if j % 5 == 0 { stride } else { 0 })),
        7 => {
            let mut c = 0;
            for _ in &mut it {
                c += 1;
            }
            c
        }
        8 => it.count(),
        9 => it.last().is_some() as usize,
        10 => it.fold(0, |a, _| a + 1),
        11 => it.rfold(0, |a, _| a + 1),
        12 => it.map(|_| 1u8).collect::<Vec<_>>().len(),
        13 => it.rev().map(|_| 1u8).step_by(stride).count(),
        14 => it.by_ref().all(|_| true) as usize + it.count(),
        _ => {
            // From both ends to somewhere in the middle, the rest dropped.
            for _ in 0..(op.b >> 8) as usize % (n + 1) / 2 {
                seen += it.next().is_some() as usize + it.next_back().is_some() as usize;
            }
            seen
        }
    }
}

/// How the positions of a container are filled, in which order.
fn fill(h: u64, n: usize) -> (&'static str, Vec<usize>) {
    let (name, mut v): (_, Vec<usize>) = match h % 8 {
        0 => ("empty", vec![]),
        1 => ("first", vec![0]),
        2 => ("last", vec![n - 1]),
        3 => ("both ends", vec![0, n - 1]),
        4 => ("every 64th", (0..n).step_by(64).collect()),
        5 => ("every 100th from 77", (77.min(n - 1)..n).step_by(100).collect()),
        _ => ("all", (0..n).collect()),
    };
    if h >> 3 & 1 == 1 {
        v.reverse();
    }
    (name, v)
}

/// Length of what is written, without keeping it.
#[derive(Default)]
struct Sink(usize);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

/// Conversions and CPU time since the last reading.
struct Meter {
    n: u64,
    /// What each operation took: conversions, time.
    took: Vec<(String, u64, u64)>,
}
impl Meter {
    fn new(n: usize) -> Meter {
        Meter { n: n as u64, took: vec![] }
    }
    fn at<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> R {
        let (c, t) = (CALLS.with(|c| c.get()), cpu_ns());
        LIMIT.with(|l| l.set(c + 4 * self.allowed().0));
        let r = std::hint::black_box(f());
        LIMIT.with(|l| l.set(u64::MAX));
        self.took.push((what.to_owned(), CALLS.with(|x| x.get()) - c, cpu_ns() - t));
        r
    }
    fn allowed(&self) -> (u64, u64) {
        (CALLS_PER_KEY * self.n + 64, NS_PER_KEY * self.n + 20_000_000)
    }
}

/// Runs the case on a thread of its own, repeatedly while it seems slow; the least times count.
fn judged(c: &Case, ctx: &Ctx, n: usize, stack: usize, run: fn(&Case, &mut Meter)) -> Res {
    let mut best: Vec<(String, u64, u64)> = vec![];
    for round in 0..4 {
        let c2 = c.clone();
        let took = std::thread::Builder::new()
            .stack_size(stack)
            .spawn(move || {
                let mut m = Meter::new(n);
                run(&c2, &mut m);
                m.took
            })
            .unwrap()
            .join()
            .map_err(|e| format!("a pass panicked: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))?;
        if round == 0 {
            best = took;
        } else {
            for (b, t) in best.iter_mut().zip(&took) {
                b.2 = b.2.min(t.2);
            }
        }
        let (calls, ns) = Meter::new(n).allowed();
        for (what, c, _) in &best {
            ensure!(*c <= calls, "{what}: {c} key conversions for {n} keys");
        }
        if best.iter().all(|b| b.2 <= ns) {
            break;
        }
        if round == 3 {
            let (what, _, t) = best.iter().max_by_key(|b| b.2).unwrap();
            return Err(format!("{what}: at least {t} ns of CPU time in 4 runs, {n} keys"));
        }
    }
    if std::env::var("OMV_SHOW").is_ok() {
        for (w, c, t) in &best {
            eprintln!("{} calls/key {} ns/key {w} {n}", c * 100 / n as u64, t / n as u64);
        }
    }
    for (what, c, _) in &best {
        tr!(ctx, "{what}: {c} conversions for {n} keys");
    }
    Ok(Info { nontrivial: best.len() > 1, tags: vec![fill(c.h, n).0] })
}

/// The type of the walk, for messages.
fn way(op: &Op) -> &'static str {
    [
        "from the front", "from the back", "alternating", "in runs from both ends", "nth", "nth_back", "mixed", "for loop", "count", "last", "fold", "rfold", "collect", "rev and step_by", "all",
        "to the middle",
    ][op.b as usize & 15]
}

pub fn sparse<K: Key, M: Sparse<K, u32>>(c: &Case, ctx: &Ctx) -> Res {
    judged(c, ctx, K::N, if M::HEAP { SMALL } else { LARGE }, run_sparse::<K, M>)
}
fn run_sparse<K: Key, M: Sparse<K, u32>>(c: &Case, t: &mut Meter) {
    let n = K::N;
    let (name, keys) = fill(c.h, n);
    // Array maps live on the heap here too, so that moves are not what is measured.
    let mut m = Box::new(M::new());
    let load = |t: &mut Meter, m: &mut M, how: u64| {
        t.at(&format!("filling ({name})"), || {
            for &i in &keys {
                match how % 3 {
                    0 => drop(m.insert(K::mk(i), 1)),
                    1 => *m.entry(K::mk(i)).or_insert(1) += 1,
                    _ => {
                        m.insert(K::mk(i), 1);
                        m.insert(K::mk(i), 2);
                    }
                }
            }
        })
    };
    load(t, &mut m, c.h >> 8);
    for op in &c.ops {
        let w = |s: &str| format!("{s}, {} ({name})", way(op));
        match op.k % 18 {
            0 => drop(t.at(&w("iter"), || walk(m.iter(), op, n))),
            1 => drop(t.at(&w("&map"), || walk(m.ref_iter(), op, n))),
            2 => drop(t.at(&w("keys"), || walk(m.keys(), op, n))),
            3 => drop(t.at(&w("values"), || walk(m.values(), op, n))),
            4 => drop(t.at(&w("iter_mut"), || walk(m.iter_mut(), op, n))),
            5 => drop(t.at(&w("values_mut"), || walk(m.values_mut(), op, n))),
            6 | 7 => {
                t.at(&w("drain"), || walk(m.drain(), op, n));
                load(t, &mut m, c.h >> 10);
            }
            8 => {
                t.at(&w("clear"), || m.clear());
                load(t, &mut m, c.h >> 12);
            }
            9 => {
                t.at(&w("retain"), || m.retain(|k, _| k.ix() as u32 & op.b >> 8 == 0));
                load(t, &mut m, c.h >> 14);
            }
            10 | 11 => {
                let x = t.at(&w("clone"), || (*m).clone());
                t.at(&w("into_iter"), || walk(x.into_iter(), op, n));
            }
            12 => {
                let it = m.iter();
                let mut it2 = it.clone();
                it2.nth(n / 3);
                t.at(&w("cloned iter"), || walk(it2.clone(), op, n));
            }
            13 => {
                t.at(&w("Debug"), || {
                    let mut s = Sink::default();
                    let _ = write!(s, "{m:?}");
                    s.0
                });
            }
            14 => {
                let x = t.at(&w("collect"), || keys.iter().map(|&i| (K::mk(i), 7)).collect::<M>());
                t.at(&w("drop"), || drop(x));
            }
            15 => drop(t.at(&w("len"), || m.len() + m.is_empty() as usize)),
            16 => {
                t.at(&w("removal of every key"), || {
                    for &i in &keys {
                        m.remove(&K::mk(i));
                    }
                });
                load(t, &mut m, c.h >> 16);
            }
            _ => drop(t.at(&w("lookups"), || (0..n).filter(|&i| m.contains_key(&K::mk(i)) && m.get(&K::mk(i)).is_some()).count())),
        }
    }
    t.at("drop", || drop(m));
}

pub fn total<K: Key, M: Total<K, u32> + crate::resources::HeapOrNot>(c: &Case, ctx: &Ctx) -> Res {
    judged(c, ctx, K::N, if M::HEAP { SMALL } else { LARGE }, run_total::<K, M>)
}
fn run_total<K: Key, M: Total<K, u32>>(c: &Case, t: &mut Meter) {
    let n = K::N;
    let fresh = |t: &mut Meter, how: u64| {
        Box::new(match how % 3 {
            0 => t.at("new", || M::new(|k| k.ix() as u32)),
            1 => t.at("try_new", || M::try_new(|k| Ok::<_, ()>(k.ix() as u32))).unwrap_or_else(|_| unreachable!()),
            _ => t.at("default", M::default),
        })
    };
    let mut m = fresh(t, c.h >> 8);
    for op in &c.ops {
        let w = |s: &str| format!("{s}, {}", way(op));
        match op.k % 14 {
            0 => drop(t.at(&w("iter"), || walk(m.iter(), op, n))),
            1 => drop(t.at(&w("&map"), || walk(m.ref_iter(), op, n))),
            2 => drop(t.at(&w("iter_mut"), || walk(m.iter_mut(), op, n))),
            3 => drop(t.at(&w("keys"), || walk(m.keys(), op, n))),
            4 => drop(t.at(&w("values"), || walk(m.values(), op, n))),
            5 => drop(t.at(&w("values_mut"), || walk(m.values_mut(), op, n))),
            6 => {
                let x = t.at(&w("clone"), || (*m).clone());
                t.at(&w("into_iter"), || walk(x.into_iter(), op, n));
            }
            7 => {
                let x = fresh(t, 0);
                t.at(&w("into_keys"), || walk(x.into_keys(), op, n));
            }
            8 => {
                let x = fresh(t, 1);
                t.at(&w("into_values"), || x.into_values().len());
            }
            9 => {
                let fail = (op.b as usize) % n;
                t.at(&w("failing try_new"), || M::try_new(|k| if k.ix() == fail { Err(()) } else { Ok(0) }).is_ok());
            }
            10 => {
                t.at(&w("Debug"), || {
                    let mut s = Sink::default();
                    let _ = write!(s, "{m:?}");
                    s.0
                });
            }
            11 => drop(t.at(&w("lookups"), || (0..n).filter(|&i| *m.get(&K::mk(i)) == m[&K::mk(i)]).count())),
            12 => t.at(&w("updates"), || (0..n).for_each(|i| drop(m.insert(K::mk(i), 1)))),
            _ => {
                let it = m.iter();
                t.at(&w("cloned iter"), || walk(it.clone(), op, n) + it.len());
            }
        }
    }
    t.at("drop", || drop(m));
}

pub fn transform<K: Key, const S: usize>(c: &Case, ctx: &Ctx) -> Res {
    judged(c, ctx, K::N, LARGE, run_transform::<K, S>)
}
fn run_transform<K: Key, const S: usize>(c: &Case, t: &mut Meter) {
    type M<K, V, const S: usize> = OrdinalTotalArrayMap<K, V, S>;
    let mut m = t.at("new", || M::<K, u32, S>::new(|k| k.ix() as u32));
    for op in &c.ops {
        m = match op.k % 6 {
            0 => t.at("map", || m.map(|k, v| v ^ k.ix() as u32)),
            1 => t.at("map_values", || m.map_values(|v| v ^ op.b)),
            2 => t.at("zip", || m.zip(M::<K, u32, S>::new(|_| 1)).map_values(|(a, b)| a ^ b)),
            3 => t.at("as_ref", || m.as_ref().map_values(|v| *v)),
            4 => {
                t.at("as_mut", || drop(m.as_mut().map_values(|v| *v ^= 1)));
                m
            }
            _ => t.at("from_array", || M::from_array(m.into_values())),
        };
    }
}

pub fn set<K: Key, S: Set<K> + Walk<K>>(c: &Case, ctx: &Ctx) -> Res {
    judged(c, ctx, K::N, if S::HEAP { SMALL } else { LARGE }, run_set::<K, S>)
}
pub trait Walk<K> {
    const HEAP: bool = false;
    fn walk(&self, _: &Op, _: usize) -> usize {
        0
    }
    fn text(&self) -> usize {
        0
    }
}
impl<K: Key> Walk<K> for OrdinalSet<K> {
    const HEAP: bool = true;
    fn walk(&self, op: &Op, n: usize) -> usize {
        walk(self.iter(), op, n) + walk(self.iter().clone(), op, n)
    }
    fn text(&self) -> usize {
        let mut s = Sink::default();
        let _ = write!(s, "{self:?}");
        s.0
    }
}
impl<K: Key> Walk<K> for OrdinalSet64<K> {
    const HEAP: bool = true;
    fn walk(&self, op: &Op, n: usize) -> usize {
        walk(self.iter(), op, n) + walk(self.iter().clone(), op, n)
    }
    fn text(&self) -> usize {
        let mut s = Sink::default();
        let _ = write!(s, "{self:?}");
        s.0
    }
}
impl<K: Key, const S: usize> Walk<K> for OrdinalArraySet<K, S> {}
fn run_set<K: Key, S: Set<K> + Walk<K>>(c: &Case, t: &mut Meter) {
    let n = K::N;
    let (name, keys) = fill(c.h, n);
    let mut s = Box::new(S::new());
    t.at(&format!("insertion ({name})"), || keys.iter().filter(|&&i| s.insert(K::mk(i))).count());
    for op in &c.ops {
        let w = |x: &str| format!("{x}, {} ({name})", way(op));
        match op.k % 8 {
            0 | 1 | 2 => drop(t.at(&w("iter"), || s.walk(op, n))),
            3 => *s = t.at(&w("clone"), || (*s).clone()),
            4 => *s = t.at(&w("collect"), || keys.iter().map(|&i| K::mk(i)).collect::<S>()),
            5 => drop(t.at(&w("lookups"), || (0..n).filter(|&i| s.contains(&K::mk(i))).count())),
            6 => drop(t.at(&w("insertion again"), || keys.iter().filter(|&&i| s.insert(K::mk(i))).count())),
            _ => drop(t.at(&w("Debug"), || s.text())),
        }
    }
    t.at("drop", || drop(s));
}

/// All values of a type.
pub fn values<K: Key>(c: &Case, ctx: &Ctx) -> Res {
    judged(c, ctx, K::N, SMALL, run_values::<K>)
}
fn run_values<K: Key>(c: &Case, t: &mut Meter) {
    let n = K::N;
    for op in &c.ops {
        let mut it = K::all_values();
        if c.h >> 20 & 1 == 1 {
            it.nth(pick(op.a, n, c.h));
        }
        match op.k % 6 {
            0..=4 => drop(t.at(&format!("all_values, {}", way(op)), || walk(it, op, n))),
            _ => drop(t.at("len at each step", || {
                let mut sum = 0;
                while it.next().is_some() {
                    sum += it.len() & 1;
                }
                sum
            })),
        }
    }
}
