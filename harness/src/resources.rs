//! C23 (heap allocation) and C24 (work per operation). The binary installs `Counting`.
use crate::case::{Case, Ctx, Info, Op, Res};
use crate::key::{pick, Key, Val, CALLS};
use crate::sets::Set;
use crate::sparse::Sparse;
use crate::total::Total;
use crate::{ensure, same, tr};
use ordinal_map::map::total::OrdinalTotalArrayMap;
use ordinal_map::map::Entry;
use ordinal_map::set::{OrdinalSet, OrdinalSet64};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::Debug;

pub struct Counting;

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn bytes(d: i64) {
    let _ = BYTES.try_with(|b| {
        b.set(b.get() + d);
        let _ = PEAK.try_with(|p| p.set(p.get().max(b.get())));
    });
}

/// Result, bytes kept on the heap, most bytes in use meanwhile.
pub fn held<R>(f: impl FnOnce() -> R) -> (R, i64, i64) {
    let start = BYTES.with(|b| b.get());
    PEAK.with(|p| p.set(start));
    let r = f();
    (r, BYTES.with(|b| b.get()) - start, PEAK.with(|p| p.get()) - start)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        let _ = LIVE.try_with(|c| c.set(c.get() + 1));
        bytes(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        let _ = LIVE.try_with(|c| c.set(c.get() + 1));
        bytes(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        bytes(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - 1));
        bytes(-(l.size() as i64));
        System.dealloc(p, l)
    }
}

/// Result, blocks allocated, change in blocks held.
fn measured<R>(f: impl FnOnce() -> R) -> (R, u64, i64) {
    let (a, l) = (ALLOCS.with(|c| c.get()), LIVE.with(|c| c.get()));
    let r = f();
    (r, ALLOCS.with(|c| c.get()) - a, LIVE.with(|c| c.get()) - l)
}

/// Aborts the check if the binary did not install the allocator.
pub fn self_test() {
    let (b, n, l) = measured(|| std::hint::black_box(Box::new(7u64)));
    assert!(n == 1 && l == 1, "the counting allocator is not installed");
    drop(b);
}

/// Uses both ends of an iterator without allocating; returns how many items came.
fn spin<I: DoubleEndedIterator>(mut it: I, op: &Op, limit: usize) -> usize {
    let mut got = 0;
    let mut j = 0;
    while got <= limit {
        let x = match op.b >> (j % 29) & 7 {
            0 | 1 | 2 => it.next(),
            3 | 4 => it.next_back(),
            5 => it.nth(1),
            6 => it.nth_back(0),
            _ if op.b >> 20 & 7 == 7 => return got + it.count(),
            _ if op.b >> 20 & 7 == 6 => return got + it.fold(0, |n, _| n + 1),
            _ => it.next(),
        };
        if x.is_none() {
            break;
        }
        got += 1;
        j += 1;
        if op.b >> 24 & 3 == 3 && j > 3 {
            break;
        }
    }
    got
}

/// C23, sparse maps.
pub fn alloc_sparse<K: Key, V: Val + Copy, M: Sparse<K, V>>(c: &Case, ctx: &Ctx) -> Res {
    self_test();
    let n = K::N;
    let what_first = c.h & 1;
    let (mut m, a, l) = measured(|| if what_first == 0 { M::new() } else { M::default() });
    same!((a, l), (0, 0), "blocks allocated and held by an empty map");
    // Whether storage was needed yet, and the blocks it may own.
    let mut stored = false;
    let (mut early, mut late) = (0, 0);
    for (step, op) in c.ops.iter().enumerate() {
        let i = if n > 0 { pick(op.a, n, c.h) } else { 0 };
        let v = V::mk(op.b & 0xffff);
        let may = M::HEAP && !stored;
        let mut grows = false;
        let what: &str;
        let (_, a, l) = match if n == 0 { 12 + op.k % 14 } else { op.k % 26 } {
            0..=4 => {
                what = "insert";
                grows = true;
                measured(|| m.insert(K::mk(i), v).is_some())
            }
            5 | 6 => {
                what = "entry().or_insert";
                grows = true;
                measured(|| {
                    *m.entry(K::mk(i)).or_insert(v) = v;
                    true
                })
            }
            7 => {
                what = "entry, looked at";
                grows = true;
                measured(|| matches!(m.entry(K::mk(i)), Entry::Occupied(_)))
            }
            8 => {
                what = "entry, written";
                grows = true;
                measured(|| {
                    match m.entry(K::mk(i)) {
                        Entry::Vacant(e) => e.insert(v),
                        Entry::Occupied(mut e) => *e.get_mut() = v,
                    };
                    true
                })
            }
            9 | 10 => {
                what = "remove";
                measured(|| m.remove(&K::mk(i)).is_some())
            }
            11 => {
                what = "get_mut";
                measured(|| m.get_mut(&K::mk(i)).map(|x| *x = v).is_some())
            }
            12 => {
                what = "get, contains_key, len, is_empty";
                measured(|| (n == 0 || m.get(&K::mk(i)).is_some() == m.contains_key(&K::mk(i))) && (m.len() == 0) == m.is_empty())
            }
            13 | 14 => {
                what = "iter";
                measured(|| spin(m.iter(), op, n) > 0)
            }
            15 => {
                what = "iter cloned";
                measured(|| spin(m.iter().clone(), op, n) + spin(m.keys().clone(), op, n) + spin(m.values().clone(), op, n) > 0)
            }
            16 => {
                what = "keys";
                measured(|| spin(m.keys(), op, n) > 0)
            }
            17 => {
                what = "values";
                measured(|| spin(m.values(), op, n) > 0)
            }
            18 => {
                what = "iter_mut";
                measured(|| spin(m.iter_mut().map(|(_, x)| *x = v), op, n) > 0)
            }
            19 => {
                what = "values_mut";
                measured(|| spin(m.values_mut().map(|x| *x = v), op, n) > 0)
            }
            20 | 21 => {
                what = "drain";
                measured(|| spin(m.drain(), op, n) > 0)
            }
            22 => {
                what = "clear";
                measured(|| {
                    m.clear();
                    true
                })
            }
            23 => {
                what = "retain";
                measured(|| m.retain(|k, _| k.ix() % 2 == (op.b & 1) as usize))
            }
            24 => {
                // A clone, its owned iterator, and a collected map own at most one block each.
                what = "clone and into_iter";
                let (x, _, l) = measured(|| m.clone());
                ensure!(l <= M::HEAP as i64, "step {step}: a clone owns {l} heap blocks");
                let (it, a, _) = measured(|| x.into_iter());
                ensure!(a == 0, "step {step}: into_iter allocated {a} blocks");
                let (_, a, l2) = measured(|| spin(it, op, n) > 0);
                ensure!(a == 0, "step {step}: owned iteration allocated {a} blocks");
                same!(l + l2, 0, "heap blocks left by a dropped clone");
                measured(|| true)
            }
            _ => {
                what = "collect";
                let (x, _, l) = measured(|| (0..op.a as usize % 7).filter(|_| n > 0).map(|j| (K::mk((i + j) % n), v)).collect::<M>());
                ensure!(l <= M::HEAP as i64, "step {step}: a collected map owns {l} heap blocks");
                let (_, _, l2) = measured(|| drop(x));
                same!(l + l2, 0, "heap blocks left by a dropped map");
                measured(|| true)
            }
        };
        tr!(ctx, "{what} key {i}: {a} allocations, {l:+} blocks{}", if stored { "" } else { ", storage not yet needed" });
        if may && grows {
            ensure!(l <= 1, "step {step}: {what} left {l} heap blocks");
            stored = true;
            early += 1;
        } else {
            ensure!(a == 0 && l == 0, "step {step}: {what} allocated {a} blocks ({l:+} held), storage {}", if M::HEAP && !stored { "not yet needed" } else { "already there" });
            if stored || !M::HEAP {
                late += 1;
            } else {
                early += 1;
            }
        }
    }
    let (_, a, l) = measured(|| drop(m));
    ensure!(a == 0 && (-1..=0).contains(&l), "dropping the map: {a} allocations, {l:+} blocks");
    Ok(Info { nontrivial: n == 0 || late > 2 && (early > 0 || !M::HEAP), tags: vec![] })
}

/// C23, total maps.
pub fn alloc_total<K: Key, V: Val + Copy, M: Total<K, V>>(c: &Case, ctx: &Ctx) -> Res
where
    M: HeapOrNot,
{
    self_test();
    let n = K::N;
    let most = M::HEAP as i64;
    let (mut m, a, l) = measured(|| match c.h & 3 {
        0 => M::default(),
        1 => match M::try_new(|k| Ok::<V, ()>(V::mk(k.ix() as u32))) {
            Ok(m) => m,
            Err(()) => unreachable!(),
        },
        _ => M::new(|k| V::mk(k.ix() as u32)),
    });
    ensure!(l <= most && (M::HEAP || a == 0), "a new map: {a} allocations, {l} blocks held");
    let fail = (c.h >> 8) as usize % (n + 1);
    let (_, a, l) = measured(|| M::try_new(|k| if k.ix() == fail { Err(()) } else { Ok(V::mk(0)) }).is_ok());
    ensure!(l == 0 && (M::HEAP || a == 0), "try_new failing at {fail}: {a} allocations, {l} blocks left");
    for (step, op) in c.ops.iter().enumerate() {
        let i = if n > 0 { pick(op.a, n, c.h) } else { 0 };
        let v = V::mk(op.b & 0xffff);
        let what: &str;
        let (_, a, l) = match if n == 0 { 5 + op.k % 9 } else { op.k % 14 } {
            0 | 1 => {
                what = "insert";
                measured(|| m.insert(K::mk(i), v).rd() > 0)
            }
            2 => {
                what = "index";
                measured(|| {
                    m[&K::mk(i)] = v;
                    m[&K::mk(i)].rd() > 0
                })
            }
            3 => {
                what = "get_mut";
                measured(|| {
                    *m.get_mut(&K::mk(i)) = v;
                    true
                })
            }
            4 => {
                what = "get";
                measured(|| m.get(&K::mk(i)).rd() > 0)
            }
            5 => {
                what = "len, is_empty";
                measured(|| m.len() == 0 && m.is_empty())
            }
            6 => {
                what = "iter";
                measured(|| spin(m.iter(), op, n) + spin(m.iter().clone(), op, n) > 0)
            }
            7 => {
                what = "iter_mut";
                measured(|| spin(m.iter_mut().map(|(_, x)| *x = v), op, n) > 0)
            }
            8 => {
                what = "keys";
                measured(|| spin(m.keys(), op, n) > 0)
            }
            9 => {
                what = "values";
                measured(|| spin(m.values(), op, n) + spin(m.values_mut(), op, n) > 0)
            }
            10 => {
                what = "clone and into_keys";
                let (x, a, l) = measured(|| m.clone());
                ensure!(l <= most && (M::HEAP || a == 0), "step {step}: clone: {a} allocations, {l} blocks held");
                let (_, a, l2) = measured(|| spin(x.into_keys(), op, n) > 0);
                ensure!(a == 0, "step {step}: into_keys allocated {a} blocks");
                same!(l + l2, 0, "heap blocks left by into_keys");
                measured(|| true)
            }
            11 => {
                what = "clone and into_iter";
                let (x, _, l) = measured(|| m.clone());
                let (it, a, _) = measured(|| x.into_iter());
                ensure!(M::HEAP || a == 0, "step {step}: into_iter allocated {a} blocks");
                let (_, a, l2) = measured(|| spin(it, op, n) > 0);
                ensure!(M::HEAP || a == 0, "step {step}: owned iteration allocated {a} blocks");
                ensure!(l + l2 <= 0, "step {step}: {} blocks left by a dropped iterator", l + l2);
                measured(|| true)
            }
            12 => {
                what = "exposed array";
                measured(|| m.array_mut().map(|x| x.first_mut().map(|x| *x = v)).is_some() && m.array().is_some())
            }
            _ => {
                what = "moved and dropped";
                let (x, _, l) = measured(|| M::new(|_| v));
                let old = std::mem::replace(&mut m, x);
                let (_, a, l2) = measured(|| drop(old));
                ensure!(a == 0 && l + l2 == 0, "step {step}: dropping a map: {a} allocations, {l2:+} blocks after {l:+}");
                measured(|| true)
            }
        };
        tr!(ctx, "{what} key {i}: {a} allocations, {l:+} blocks");
        // The heap map is promised at most one block, not the absence of allocations.
        ensure!(l <= 0 && (M::HEAP || a == 0 && l == 0), "step {step}: {what} allocated {a} blocks ({l:+} held)");
    }
    Ok(Info { nontrivial: c.ops.len() >= 3, tags: vec![] })
}

pub trait HeapOrNot {
    const HEAP: bool;
}
impl<K, V> HeapOrNot for ordinal_map::map::total::OrdinalTotalMap<K, V> {
    const HEAP: bool = true;
}
impl<K, V, const S: usize> HeapOrNot for OrdinalTotalArrayMap<K, V, S> {
    const HEAP: bool = false;
}

/// C23, transformations of the total array map.
pub fn alloc_transform<K: Key, const S: usize>(c: &Case, ctx: &Ctx) -> Res {
    self_test();
    type M<K, V, const S: usize> = OrdinalTotalArrayMap<K, V, S>;
    let (r, a, l) = measured(|| {
        let mut m = M::<K, u64, S>::new(|k| k.ix() as u64);
        for op in &c.ops {
            match op.k % 8 {
                0 => m = m.map(|k, v| v ^ k.ix() as u64),
                1 => m = m.map_values(|v| v.wrapping_add(op.b as u64)),
                2 => {
                    let o = M::<K, u16, S>::new(|_| op.a);
                    m = m.zip(o).map_values(|(a, b)| a ^ b as u64);
                }
                3 => m = m.as_ref().map_values(|v| *v),
                4 => {
                    m.as_mut().map_values(|v| *v ^= 1);
                }
                5 => m = M::from_array(m.into_values()),
                6 => {
                    let o = m.clone();
                    m = m.zip(o.as_ref()).map(|_, (a, b)| a.wrapping_mul(*b));
                }
                _ => m.values_array_mut().iter_mut().for_each(|v| *v = v.rotate_left(3)),
            }
        }
        m.values_array().iter().fold(0, |a, b| a ^ b)
    });
    std::hint::black_box(r);
    tr!(ctx, "{} transformations: {a} allocations", c.ops.len());
    ensure!(a == 0 && l == 0, "transforming an array map allocated {a} blocks");
    Ok(Info { nontrivial: c.ops.len() >= 2, tags: vec![] })
}

/// Set types: whether they may own a heap block.
pub trait SetHeap {
    const HEAP: bool;
    /// Exercise the iterator, if there is one.
    fn spin(&self, op: &Op, n: usize) -> usize {
        let _ = (op, n);
        0
    }
}
impl<K: Key> SetHeap for OrdinalSet<K> {
    const HEAP: bool = K::N > 64;
    fn spin(&self, op: &Op, n: usize) -> usize {
        spin(self.iter(), op, n) + spin(self.iter().clone(), op, n)
    }
}
impl<K: Key> SetHeap for OrdinalSet64<K> {
    const HEAP: bool = false;
    fn spin(&self, op: &Op, n: usize) -> usize {
        spin(self.iter(), op, n) + spin(self.iter().clone(), op, n)
    }
}
impl<K, const S: usize> SetHeap for ordinal_map::set::OrdinalArraySet<K, S> {
    const HEAP: bool = false;
}

/// C23, sets.
pub fn alloc_set<K: Key, S: Set<K> + SetHeap>(c: &Case, ctx: &Ctx) -> Res {
    self_test();
    let n = K::N;
    let (mut s, a, l) = measured(|| match c.h & 3 {
        0 => S::default(),
        1 => std::iter::empty().collect(),
        _ => S::new(),
    });
    same!((a, l), (0, 0), "blocks allocated and held by an empty set");
    let mut stored = false;
    let mut late = 0;
    for (step, op) in c.ops.iter().enumerate() {
        let i = if n > 0 { pick(op.a, n, c.h) } else { 0 };
        let mut grows = false;
        let what: &str;
        let (_, a, l) = match if n == 0 { 6 + op.k % 4 } else { op.k % 10 } {
            0..=3 => {
                what = "insert";
                grows = true;
                measured(|| s.insert(K::mk(i)))
            }
            4 | 5 => {
                what = "contains";
                measured(|| s.contains(&K::mk(i)))
            }
            6 | 7 => {
                what = "iter";
                measured(|| s.spin(op, n) > 0)
            }
            8 => {
                what = "clone";
                let (x, a, l) = measured(|| s.clone());
                ensure!(l <= S::HEAP as i64 && (S::HEAP && stored || a == 0), "step {step}: clone: {a} allocations, {l} blocks held");
                let (_, a, l2) = measured(|| drop(x));
                ensure!(a == 0 && l + l2 == 0, "step {step}: dropping a clone: {a} allocations, {} blocks left", l + l2);
                measured(|| true)
            }
            _ => {
                what = "collect";
                let (x, a, l) = measured(|| (0..op.a as usize % 5).filter(|_| n > 0).map(|j| K::mk((i + j) % n)).collect::<S>());
                ensure!(l <= S::HEAP as i64 && (S::HEAP || a == 0), "step {step}: collect: {a} allocations, {l} blocks held");
                let (_, a, l2) = measured(|| drop(x));
                ensure!(a == 0 && l + l2 == 0, "step {step}: dropping a set: {a} allocations, {} blocks left", l + l2);
                measured(|| true)
            }
        };
        tr!(ctx, "{what} {i}: {a} allocations, {l:+} blocks");
        if S::HEAP && !stored && grows {
            ensure!(l <= 1, "step {step}: {what} left {l} heap blocks");
            stored = true;
        } else {
            ensure!(a == 0 && l == 0, "step {step}: {what} allocated {a} blocks ({l:+} held)");
            late += 1;
        }
    }
    let (_, a, l) = measured(|| drop(s));
    ensure!(a == 0 && (-1..=0).contains(&l), "dropping the set: {a} allocations, {l:+} blocks");
    Ok(Info { nontrivial: n == 0 || late > 2, tags: vec![] })
}

/// C23: all() and equality of the single-word set.
pub fn alloc_set64<K: Key + PartialEq>(c: &Case, ctx: &Ctx) -> Res {
    self_test();
    let ((), a, _) = measured(|| {
        let all = OrdinalSet64::<K>::all();
        let x: OrdinalSet64<K> = c.ops.iter().filter(|_| K::N > 0).map(|o| K::mk(pick(o.a, K::N, c.h))).collect();
        std::hint::black_box(all == x && x.iter().rev().count() == x.iter().len());
    });
    tr!(ctx, "all, collect, compare: {a} allocations");
    ensure!(a == 0, "single-word set allocated {a} blocks");
    Ok(Info { nontrivial: c.ops.len() > 1, tags: vec![] })
}

// ---------------------------------------------------------------- C24

/// Conversions allowed per operation: far below the number of keys or elements, far above need.
const MAX_CALLS: u64 = 8;
/// CPU time allowed per operation on containers where a linear pass takes at least five times this.
const MAX_NS: u64 = 20_000;

#[repr(C)]
struct Timespec {
    s: std::ffi::c_long,
    ns: std::ffi::c_long,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
/// CPU time of this thread.
pub fn cpu_ns() -> u64 {
    let mut t = Timespec { s: 0, ns: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000_000 + t.ns as u64
}

pub trait Step {
    fn name(&self, op: &Op, i: usize) -> String;
    /// False when the operation was not run, or is exempt (it allocated the storage).
    fn step(&mut self, op: &Op, i: usize) -> bool;
}

pub struct SparseSteps<K: Key, V: Val, M: Sparse<K, V>> {
    m: M,
    stored: bool,
    _p: std::marker::PhantomData<(K, V)>,
}
impl<K: Key, V: Val + Copy, M: Sparse<K, V>> Step for SparseSteps<K, V, M> {
    fn name(&self, op: &Op, i: usize) -> String {
        format!("{}({i})", ["insert", "remove", "get", "get_mut", "contains_key", "entry.or_insert", "entry", "entry written", "insert", "remove"][op.k as usize % 10])
    }
    fn step(&mut self, op: &Op, i: usize) -> bool {
        let (m, k, v) = (&mut self.m, K::mk(i), V::mk(op.b & 0xffff));
        let counted = self.stored || !M::HEAP || matches!(op.k % 10, 1..=4 | 9);
        match op.k % 10 {
            0 | 8 => {
                m.insert(k, v);
                self.stored = true;
            }
            1 | 9 => {
                m.remove(&k);
            }
            2 => {
                std::hint::black_box(m.get(&k).is_some());
            }
            3 => {
                if let Some(x) = m.get_mut(&k) {
                    *x = v;
                }
            }
            4 => {
                std::hint::black_box(m.contains_key(&k));
            }
            5 => {
                *m.entry(k).or_insert(v) = v;
                self.stored = true;
            }
            6 => {
                std::hint::black_box(matches!(m.entry(k), Entry::Occupied(_)));
                self.stored = true;
            }
            _ => {
                match m.entry(k) {
                    Entry::Vacant(e) => e.insert(v),
                    Entry::Occupied(mut e) => *e.get_mut() = v,
                }
                self.stored = true;
            }
        }
        counted
    }
}
pub fn sparse_steps<K: Key, V: Val + Copy, M: Sparse<K, V>>(fill: usize) -> SparseSteps<K, V, M> {
    let mut s = SparseSteps { m: M::new(), stored: false, _p: std::marker::PhantomData };
    match fill {
        0 => {}
        1 => {
            for i in 0..K::N {
                s.m.insert(K::mk(i), V::mk(1));
            }
            s.stored = true;
        }
        _ => {
            for i in [0, K::N / 2, K::N - 1] {
                s.m.insert(K::mk(i), V::mk(1));
            }
            s.stored = true;
        }
    }
    s
}

pub struct TotalSteps<K: Key, V: Val, M: Total<K, V>>(M, std::marker::PhantomData<(K, V)>);
impl<K: Key, V: Val + Copy, M: Total<K, V>> Step for TotalSteps<K, V, M> {
    fn name(&self, op: &Op, i: usize) -> String {
        format!("{}({i})", ["insert", "get", "get_mut", "index", "index_mut"][op.k as usize % 5])
    }
    fn step(&mut self, op: &Op, i: usize) -> bool {
        let (m, k, v) = (&mut self.0, K::mk(i), V::mk(op.b & 0xffff));
        match op.k % 5 {
            0 => {
                m.insert(k, v);
            }
            1 => {
                std::hint::black_box(m.get(&k).rd());
            }
            2 => *m.get_mut(&k) = v,
            3 => {
                std::hint::black_box(m[&k].rd());
            }
            _ => m[&k] = v,
        }
        true
    }
}
pub fn total_steps<K: Key, V: Val + Copy, M: Total<K, V>>(_: usize) -> TotalSteps<K, V, M> {
    TotalSteps(M::new(|_| V::mk(1)), std::marker::PhantomData)
}

pub struct SetSteps<K: Key, S: Set<K>> {
    s: S,
    stored: bool,
    heap: bool,
    _p: std::marker::PhantomData<K>,
}
impl<K: Key, S: Set<K>> Step for SetSteps<K, S> {
    fn name(&self, op: &Op, i: usize) -> String {
        format!("{}({i})", ["insert", "contains"][op.k as usize % 2])
    }
    fn step(&mut self, op: &Op, i: usize) -> bool {
        let counted = self.stored || !self.heap || op.k % 2 == 1;
        if op.k % 2 == 0 {
            self.s.insert(K::mk(i));
            self.stored = true;
        } else {
            std::hint::black_box(self.s.contains(&K::mk(i)));
        }
        counted
    }
}
pub fn set_steps<K: Key, S: Set<K> + SetHeap>(fill: usize) -> SetSteps<K, S> {
    let mut s = S::new();
    let all: Vec<usize> = match fill {
        0 => vec![],
        1 => (0..K::N).collect(),
        _ => vec![0, K::N / 2, K::N - 1],
    };
    for &i in &all {
        s.insert(K::mk(i));
    }
    SetSteps { s, stored: !all.is_empty(), heap: S::HEAP, _p: std::marker::PhantomData }
}

/// Conversions per operation, for keys that count them.
pub fn calls<K: Key, T: Step>(c: &Case, ctx: &Ctx, mk: fn(usize) -> T) -> Res {
    let mut t = mk((c.h >> 50) as usize % 3);
    let calls = || CALLS.with(|c| c.get());
    let mut most = 0;
    for (j, op) in c.ops.iter().enumerate() {
        let i = pick(op.a, K::N, c.h);
        let before = calls();
        t.step(op, i);
        let used = calls() - before;
        tr!(ctx, "{}: {used} conversions", t.name(op, i));
        ensure!(used <= MAX_CALLS, "step {j}: {} made {used} key conversions ({} keys)", t.name(op, i), K::N);
        most = most.max(used);
    }
    Ok(Info { nontrivial: most > 0, tags: vec![] })
}

/// CPU time per operation on a big container; the same history is repeated and each operation's
/// least time counts.
pub fn times<K: Key, T: Step>(c: &Case, ctx: &Ctx, mk: fn(usize) -> T) -> Res {
    let mut best: Vec<u64> = Vec::new();
    let fill = (c.h >> 50) as usize % 3;
    for round in 0..8 {
        let mut t = mk(fill);
        let now: Vec<u64> = c
            .ops
            .iter()
            .map(|op| {
                let i = pick(op.a, K::N, c.h);
                let a = cpu_ns();
                let counted = t.step(op, i);
                let b = cpu_ns();
                if counted { b - a } else { 0 }
            })
            .collect();
        best = if round == 0 { now } else { best.iter().zip(&now).map(|(a, b)| *a.min(b)).collect() };
        if best.iter().all(|t| *t <= MAX_NS) {
            for op in &c.ops {
                tr!(ctx, "{}", t.name(op, pick(op.a, K::N, c.h)));
            }
            return Ok(Info { nontrivial: c.ops.len() > 1, tags: vec![["starting empty", "starting full", "starting with three"][fill]] });
        }
    }
    let (j, ns) = best.iter().enumerate().max_by_key(|x| x.1).unwrap();
    let t = mk(fill);
    Err(format!("step {j}: {} took {ns} ns of CPU time, at least, in 8 runs ({} keys)", t.name(&c.ops[j], pick(c.ops[j].a, K::N, c.h)), K::N))
}

/// C24: the atomic cell converts a constant number of times.
pub fn calls_atomic<K: Key>(c: &Case, _: &Ctx) -> Res {
    use std::sync::atomic::Ordering::SeqCst;
    let a = ordinal_map::AtomicOrdinal::new(K::mk(pick(c.h as u16, K::N, c.h)));
    for op in &c.ops {
        let k = || K::mk(pick(op.a, K::N, c.h));
        let before = CALLS.with(|c| c.get());
        match op.k % 3 {
            0 => a.store(k(), SeqCst),
            1 => drop(a.load(SeqCst)),
            _ => drop(a.compare_exchange(k(), K::mk(pick(op.b as u16, K::N, c.h)), SeqCst, SeqCst).map_err(debug)),
        }
        let used = CALLS.with(|c| c.get()) - before;
        ensure!(used <= MAX_CALLS, "operation {} of the atomic cell made {used} key conversions", op.k % 3);
    }
    Ok(Info { nontrivial: !c.ops.is_empty(), tags: vec![] })
}
fn debug(x: impl Debug) -> String {
    format!("{x:?}")
}
