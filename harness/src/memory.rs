//! C33: how large containers are and how much they hold. The binary installs `resources::Counting`.
use crate::case::{Case, Ctx, Info, Op, Res};
use crate::key::{pick, Key, Val};
use crate::resources::{held, self_test};
use crate::sets::Set;
use crate::sparse::Sparse;
use crate::total::Total;
use crate::{ensure, same, tr};
use ordinal_map::map::Entry;
use ordinal_map::AtomicOrdinal;
use std::mem::size_of;
use std::num::NonZeroU32;

const WORD: usize = size_of::<usize>();

/// An optional one needs no more space than a value.
#[derive(Clone, Debug, PartialEq)]
pub struct Nz(NonZeroU32);
impl Default for Nz {
    fn default() -> Nz {
        Nz::mk(0)
    }
}
impl Val for Nz {
    fn mk(b: u32) -> Nz {
        Nz(NonZeroU32::new(b | 1 << 31).unwrap())
    }
    fn rd(&self) -> u32 {
        self.0.get() & !(1 << 31)
    }
}

/// More aligned than the allocator aligns by itself.
#[derive(Clone, Debug, PartialEq, Default)]
#[repr(align(64))]
pub struct Wide(u32);
impl Val for Wide {
    fn mk(b: u32) -> Wide {
        Wide(b)
    }
    fn rd(&self) -> u32 {
        self.0
    }
}

impl Val for bool {
    fn mk(b: u32) -> bool {
        b & 1 == 1
    }
    fn rd(&self) -> u32 {
        *self as u32
    }
    fn norm(b: u32) -> u32 {
        b & 1
    }
}

impl Val for u8 {
    fn mk(b: u32) -> u8 {
        b as u8
    }
    fn rd(&self) -> u32 {
        *self as u32
    }
    fn norm(b: u32) -> u32 {
        b & 255
    }
}

/// Bytes a step took for good and at its peak, against what `count` containers of `need` bytes may hold.
fn judge(step: usize, what: &str, total: i64, peak: i64, count: usize, need: usize) -> Result<(), String> {
    ensure!(total <= (need * count) as i64, "step {step}: after {what}, {count} containers hold {total} bytes on the heap, each needs {need}");
    ensure!(total >= 0, "step {step}: after {what}, {total} bytes are held");
    // A container being built may take up to three times what it ends with (growing vectors).
    ensure!(peak <= (need * 3 + 256) as i64, "step {step}: {what} took {peak} bytes on the heap while it ran, a container needs {need}");
    Ok(())
}

pub fn sparse<K: Key, V: Val, M: Sparse<K, V>>(c: &Case, ctx: &Ctx) -> Res {
    self_test();
    let n = K::N;
    let slots = n * size_of::<Option<V>>();
    let need = if M::HEAP { slots } else { 0 };
    if M::HEAP {
        ensure!(size_of::<M>() <= 4 * WORD, "the heap map itself takes {} bytes", size_of::<M>());
    } else {
        same!(size_of::<M>(), slots, "size of an array map of {n} optional values of {} bytes", size_of::<Option<V>>());
    }
    let mut total = 0;
    let mut ms: Vec<M> = Vec::with_capacity(4);
    let (m, now, peak) = held(|| if c.h & 1 == 0 { M::new() } else { M::default() });
    ms.push(m);
    total += now;
    judge(0, "creation", total, peak, 0, need)?;
    let mut filled = 0;
    for (step, op) in c.ops.iter().enumerate() {
        let t = op.b as usize >> 28 & 1;
        let t = t % ms.len();
        let i = if n > 0 { pick(op.a, n, c.h) } else { 0 };
        let v = V::mk(op.b & 0xffff);
        let what: &str;
        let mut spare = None;
        let (_, now, peak) = match if n == 0 { 8 + op.k % 8 } else { op.k % 16 } {
            0..=3 => {
                what = "insert";
                filled += 1;
                held(|| ms[t].insert(K::mk(i), v).is_some())
            }
            4 => {
                what = "entry";
                filled += 1;
                held(|| {
                    let w = v.clone();
                    *ms[t].entry(K::mk(i)).or_insert(w) = v;
                    true
                })
            }
            5 => {
                what = "entry, looked at";
                held(|| matches!(ms[t].entry(K::mk(i)), Entry::Occupied(_)))
            }
            6 | 7 => {
                what = "remove";
                held(|| ms[t].remove(&K::mk(i)).is_some())
            }
            8 => {
                what = "iteration";
                held(|| ms[t].iter().count() + ms[t].iter_mut().rev().count() + ms[t].keys().count() + ms[t].values().count() > 0)
            }
            9 => {
                what = "clear or drain";
                held(|| {
                    if op.a & 1 == 0 {
                        ms[t].clear();
                    } else {
                        ms[t].drain().nth(op.a as usize % 5);
                    }
                    true
                })
            }
            10 | 11 if ms.len() < 3 => {
                what = "clone";
                let (x, now, peak) = held(|| ms[t].clone());
                spare = Some(x);
                ((true), now, peak)
            }
            12 => {
                what = "collect";
                let k = op.a as usize % 7;
                held(|| {
                    ms[t] = (0..k).filter(|_| n > 0).map(|j| (K::mk((i + j) % n), V::mk(j as u32))).collect();
                    true
                })
            }
            13 => {
                what = "into_iter";
                held(|| std::mem::take(&mut ms[t]).into_iter().nth(op.a as usize % 5).is_some())
            }
            14 => {
                what = "clone_from";
                held(|| {
                    let x = ms[op.a as usize % ms.len()].clone();
                    ms[t].clone_from(&x);
                    true
                })
            }
            _ => {
                what = "retain";
                held(|| ms[t].retain(|k, _| k.ix() % 3 == op.a as usize % 3))
            }
        };
        ms.extend(spare);
        total += now;
        tr!(ctx, "{what}: {now:+} bytes, at most {peak:+}");
        // Two maps may be on the way in clone_from, collect and into_iter.
        judge(step, what, total, peak, ms.len(), need)?;
    }
    let (_, now, _) = held(|| ms.clear());
    same!(total + now, 0, "bytes held when every map is gone");
    Ok(Info { nontrivial: n == 0 || filled > 1, tags: vec![] })
}

pub fn total<K: Key, V: Val, M: Total<K, V>>(c: &Case, ctx: &Ctx) -> Res {
    self_test();
    let n = K::N;
    let need = n * size_of::<V>();
    // Which of the two it is shows in the operations it has.
    let array = n > 0 && M::new(|_| V::default()).array().is_some() || n == 0 && size_of::<M>() == 0;
    let need = if array {
        same!(size_of::<M>(), need, "size of a total array map of {n} values of {} bytes", size_of::<V>());
        0
    } else {
        ensure!(size_of::<M>() <= 4 * WORD, "the heap map itself takes {} bytes", size_of::<M>());
        need
    };
    let mut total = 0;
    let (mut m, now, peak) = held(|| M::new(|k| V::mk(k.ix() as u32 & 0xffff)));
    total += now;
    judge(0, "new", total, peak, 1, need)?;
    for (step, op) in c.ops.iter().enumerate() {
        let what: &str;
        let v = V::mk(op.b & 0xffff);
        let (_, now, peak) = match op.k % 8 {
            0 | 1 if n > 0 => {
                what = "insert";
                let i = pick(op.a, n, c.h);
                held(|| m.insert(K::mk(i), v) == V::default())
            }
            2 => {
                what = "clone";
                held(|| {
                    m = m.clone();
                    true
                })
            }
            3 => {
                what = "try_new, failing";
                held(|| n > 0 && M::try_new(|k| if k.ix() == op.a as usize % n { Err(()) } else { Ok(V::default()) }).is_err())
            }
            4 => {
                what = "try_new";
                held(|| {
                    if let Ok(x) = M::try_new(|_| Ok::<_, ()>(v.clone())) {
                        m = x;
                    }
                    true
                })
            }
            5 => {
                what = "into_iter";
                held(|| std::mem::replace(&mut m, M::new(|_| V::default())).into_iter().nth(op.a as usize % 5).is_some())
            }
            6 => {
                what = "iteration";
                held(|| m.iter().count() + m.iter_mut().rev().count() + m.keys().count() + m.values().count() > 0)
            }
            _ => {
                what = "default";
                held(|| {
                    m = M::default();
                    true
                })
            }
        };
        total += now;
        tr!(ctx, "{what}: {now:+} bytes, at most {peak:+}");
        judge(step, what, total, peak, 1, need)?;
    }
    let (_, now, _) = held(|| drop(m));
    same!(total + now, 0, "bytes held when the map is gone");
    Ok(Info { nontrivial: n == 0 || c.ops.len() > 1, tags: vec![] })
}

/// The words of a set, and where they are.
pub trait Words {
    /// The size of the set, if it is determined by its words.
    fn inline(n: usize) -> Option<usize>;
}
impl<T> Words for ordinal_map::set::OrdinalSet<T> {
    fn inline(_: usize) -> Option<usize> {
        None
    }
}
impl<T> Words for ordinal_map::set::OrdinalSet64<T> {
    fn inline(_: usize) -> Option<usize> {
        Some(8)
    }
}
impl<T, const S: usize> Words for ordinal_map::set::OrdinalArraySet<T, S> {
    fn inline(n: usize) -> Option<usize> {
        Some(n.div_ceil(64) * 8)
    }
}

pub fn set<K: Key, S: Set<K> + Words>(c: &Case, ctx: &Ctx) -> Res {
    self_test();
    let n = K::N;
    let need = match S::inline(n) {
        Some(w) => {
            same!(size_of::<S>(), w, "size of a set of up to {n} elements");
            0
        }
        None => {
            ensure!(size_of::<S>() <= 4 * WORD, "the set itself takes {} bytes", size_of::<S>());
            if n > 64 { n.div_ceil(64) * 8 } else { 0 }
        }
    };
    let mut total = 0;
    let (mut s, now, peak) = held(|| if c.h & 1 == 0 { S::new() } else { S::default() });
    total += now;
    judge(0, "creation", total, peak, 0, need)?;
    let mut filled = 0;
    for (step, op) in c.ops.iter().enumerate() {
        let i = if n > 0 { pick(op.a, n, c.h) } else { 0 };
        let what: &str;
        let (_, now, peak) = match if n == 0 { 5 + op.k % 3 } else { op.k % 8 } {
            0..=3 => {
                what = "insert";
                filled += 1;
                held(|| s.insert(K::mk(i)))
            }
            4 => {
                what = "contains";
                held(|| s.contains(&K::mk(i)))
            }
            5 => {
                what = "clone";
                held(|| {
                    s = s.clone();
                    true
                })
            }
            6 => {
                what = "clone_from";
                held(|| {
                    let x = s.clone();
                    s.clone_from(&x);
                    true
                })
            }
            _ => {
                what = "collect";
                let k = op.a as usize % 7;
                held(|| {
                    s = (0..k).filter(|_| n > 0).map(|j| K::mk((i + j) % n)).collect();
                    true
                })
            }
        };
        total += now;
        tr!(ctx, "{what}: {now:+} bytes, at most {peak:+}");
        judge(step, what, total, peak, 1, need)?;
    }
    let (_, now, _) = held(|| drop(s));
    same!(total + now, 0, "bytes held when the set is gone");
    Ok(Info { nontrivial: n == 0 || filled > 1, tags: vec![] })
}

pub fn cell<K: Key>(c: &Case, _: &Ctx) -> Res {
    self_test();
    same!(size_of::<AtomicOrdinal<K>>(), WORD, "size of an atomic cell");
    use std::sync::atomic::Ordering::SeqCst;
    let (_, now, peak) = held(|| {
        let a = AtomicOrdinal::new(K::mk(0));
        for Op { k, a: x, .. } in &c.ops {
            match k % 3 {
                0 => a.store(K::mk(pick(*x, K::N, c.h)), SeqCst),
                1 => drop(a.load(SeqCst)),
                _ => drop(a.compare_exchange(K::mk(0), K::mk(pick(*x, K::N, c.h)), SeqCst, SeqCst).is_ok()),
            }
        }
    });
    same!((now, peak), (0, 0), "bytes taken by a cell");
    Ok(Info { nontrivial: c.ops.len() > 1, tags: vec![] })
}
