//! Checks of the `Ordinal` trait itself, for any type that has an oracle.
use crate::case::{Case, Ctx, Info, Op, Res};
use crate::oracle::Oracle;
use crate::{ensure, same, tr};
use std::cmp::Ordering;

const MAX: u128 = usize::MAX as u128;

fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn marks<T: Oracle>() -> Vec<u128> {
    let mut m = Vec::new();
    T::marks(&mut m);
    m.retain(|x| *x > 0);
    m.dedup();
    if m.is_empty() {
        m.push(1);
    }
    m
}

/// A position below `n` (n > 0).
fn below(op: &Op, n: u128, marks: &[u128], h: u64) -> u128 {
    let a = op.a as u128;
    let r = mix(h ^ ((op.a as u64) << 32 | op.b as u64)) as u128;
    let r = if n > MAX { r | (mix(!h ^ ((op.b as u64) << 16 | op.a as u64)) as u128) << 64 } else { r };
    let near = |x: u128| {
        let d = a % 5;
        if d < 3 { x.saturating_add(d) } else { x.saturating_sub(d - 2) }
    };
    let x = match op.k % 10 {
        0 => a,
        1 => n - 1 - a.min(n - 1),
        2 | 3 => near(1 << (op.b % 64)),
        4 => near(n / (2 + op.b as u128 % 7)),
        5 | 6 => {
            let m = marks[op.b as usize % marks.len()];
            near((r % (n / m).max(1)).saturating_mul(m))
        }
        7 => {
            let m = marks[op.b as usize % marks.len()];
            near((op.b as u128 >> 16 & 7).saturating_mul(m))
        }
        _ => r,
    };
    x % n
}

/// A number in n..=usize::MAX, if there is one.
fn above(op: &Op, n: u128, marks: &[u128], h: u64) -> Option<u128> {
    if n > MAX {
        return None;
    }
    let a = op.a as u128;
    let b = op.b as u128;
    let r = mix(h ^ ((op.a as u64) << 32 | op.b as u64)) as u128;
    let small = a % 300;
    let m = marks[op.b as usize % marks.len()];
    let x = match op.k % 14 {
        0 => n + a % 4,
        1 => n + a,
        2 => MAX - a % 4,
        3 => MAX - a,
        // Would alias a small value if truncated to 8, 16, 32 bits.
        4 => (1 + r % 200) * (1 << 8) + small % n.max(1),
        5 => (1 + r % 300) * (1 << 16) + small,
        6 => (1 + r % 300) * (1 << 32) + small,
        7 => ((r >> 32) << 32) + small,
        8 => (1u128 << (b % 64)) + a % 3,
        9 => (1u128 << (b % 64)).saturating_sub(1 + a % 3),
        // Multiples of the size and of component sizes.
        10 => n.saturating_mul(1 + a) + small % n.max(1),
        11 => m.saturating_mul(1 + r % (MAX / m).max(1)).saturating_add(small % 3),
        12 => n + m + a % 3,
        _ => n + r % (MAX - n + 1),
    };
    (x >= n && x <= MAX).then_some(x).or(Some(n + r % (MAX - n + 1)))
}

fn size_ok<T: Oracle>() -> Result<u128, String> {
    let n = T::count();
    same!(T::ORDINAL_SIZE as u128, n, "ORDINAL_SIZE");
    Ok(n)
}

/// The mapping at one position, both ways.
#[inline]
fn point<T: Oracle>(i: u128) -> Result<(), String> {
    let Some(v) = T::from_ordinal(i as usize) else { return Err(format!("from_ordinal({i}) is None")) };
    let r = v.rank();
    if r != i {
        return Err(format!("from_ordinal({i}) is {}, the value at position {r}", v.show()));
    }
    let o = v.ordinal();
    if o as u128 != i {
        return Err(format!("from_ordinal({i}) = {} has ordinal {o}", v.show()));
    }
    let v = T::unrank(i);
    let o = v.ordinal();
    if o as u128 != i {
        return Err(format!("{}.ordinal() is {o}, expected {i}", v.show()));
    }
    Ok(())
}

/// C01, C02, C05.
pub fn bijection<T: Oracle>(c: &Case, ctx: &Ctx) -> Res {
    let n = size_ok::<T>()?;
    tr!(ctx, "ORDINAL_SIZE {n}");
    if n == 0 {
        for op in &c.ops {
            let i = mix(op.b as u64 ^ c.h) as usize >> (op.k as u32 % usize::BITS);
            ensure!(T::from_ordinal(i).is_none(), "empty type: from_ordinal({i}) is Some");
        }
        return Ok(Info { nontrivial: true, tags: vec!["empty type"] });
    }
    let m = marks::<T>();
    let mut far = false;
    for op in &c.ops {
        let i = below(op, n, &m, c.h);
        point::<T>(i)?;
        // Neighbours: no two values share a number.
        if i + 1 < n {
            point::<T>(i + 1)?;
        }
        far |= i > 2;
        tr!(ctx, "{i} <-> {}", T::unrank(i).show());
    }
    Ok(Info { nontrivial: far || n <= 3 && !c.ops.is_empty(), tags: vec![] })
}

/// C03.
pub fn rejection<T: Oracle>(c: &Case, ctx: &Ctx) -> Res {
    let n = T::count();
    let m = marks::<T>();
    let mut any = false;
    for op in &c.ops {
        let Some(i) = above(op, n, &m, c.h) else { continue };
        any = true;
        tr!(ctx, "from_ordinal({i}) of a type with {n} values");
        if let Some(v) = T::from_ordinal(i as usize) {
            return Err(format!("from_ordinal({i}) is Some({}) although the type has {n} values", v.show()));
        }
    }
    Ok(Info { nontrivial: any, tags: vec![] })
}

/// C04.
pub fn order<T: Oracle>(c: &Case, ctx: &Ctx) -> Res {
    order_by::<T>(c, ctx, &|_, _| None)
}
/// C04 with the real `Ord`, where the type has one.
pub fn order_std<T: Oracle + Ord>(c: &Case, ctx: &Ctx) -> Res {
    order_by::<T>(c, ctx, &|a, b| Some(a.cmp(b)))
}
/// C04 with the real `PartialOrd`.
fn order_by<T: Oracle>(c: &Case, ctx: &Ctx, std: &dyn Fn(&T, &T) -> Option<Ordering>) -> Res {
    let n = T::count();
    if n == 0 {
        return Ok(Info { nontrivial: false, tags: vec![] });
    }
    let m = marks::<T>();
    let mut prev = 0u128;
    let mut any = false;
    for op in &c.ops {
        let i = below(op, n, &m, c.h);
        // The other value: unrelated, a neighbour, or one differing in one component.
        let j = match op.b >> 29 {
            0 | 1 => prev,
            2 => (i + 1).min(n - 1),
            3 => i.saturating_sub(1),
            4 | 5 | 6 => {
                let s = m[op.a as usize % m.len()];
                if op.b & 1 == 0 { (i + s) % n } else { (i + n - s % n) % n }
            }
            _ => (i + n / 2) % n,
        };
        let (a, b) = (T::unrank(i), T::unrank(j));
        let want = std(&a, &b).unwrap_or_else(|| a.order(&b));
        let got = a.ordinal().cmp(&b.ordinal());
        tr!(ctx, "{} vs {}: {want:?}", a.show(), b.show());
        ensure!(
            got == want,
            "{} (ordinal {}) vs {} (ordinal {}): ordinals compare {got:?}, values compare {want:?}",
            a.show(),
            a.ordinal(),
            b.show(),
            b.ordinal()
        );
        // The same through the other direction of the mapping.
        if let (Some(x), Some(y)) = (T::from_ordinal(i as usize), T::from_ordinal(j as usize)) {
            let o = std(&x, &y).unwrap_or_else(|| x.order(&y));
            ensure!(o == i.cmp(&j), "from_ordinal({i}) = {} vs from_ordinal({j}) = {} compare {o:?}", x.show(), y.show());
        }
        any |= i != j;
        prev = i;
    }
    Ok(Info { nontrivial: any, tags: vec![] })
}

/// C07: all values of this type, from both ends.
pub fn values<T: Oracle>(c: &Case, ctx: &Ctx) -> Res {
    let n = T::count() as usize;
    let mut it = T::all_values();
    let (mut lo, mut hi) = (0usize, n);
    let mut ends = (false, false);
    same!(it.len(), n, "all_values().len()");
    for op in &c.ops {
        let j = match op.b % 4 {
            0 | 1 => 0,
            2 => op.a as usize % 5,
            _ => (op.b >> 4) as usize % (hi - lo).saturating_add(1).min(200),
        };
        let (got, want, what) = match op.k % 8 {
            0..=2 => (it.next(), if lo < hi { lo += 1; Some(lo - 1) } else { None }, "next"),
            3..=5 => (it.next_back(), if lo < hi { hi -= 1; Some(hi) } else { None }, "next_back"),
            6 => (it.nth(j), if j < hi - lo { lo += j + 1; Some(lo - 1) } else { lo = hi; None }, "nth"),
            _ => (it.nth_back(j), if j < hi - lo { hi -= j + 1; Some(hi) } else { hi = lo; None }, "nth_back"),
        };
        if op.k % 8 < 3 || op.k % 8 == 6 { ends.0 = true } else { ends.1 = true }
        tr!(ctx, "{what} ({j}) -> {:?}", got.as_ref().map(|v| v.show()));
        same!(got.map(|v| v.rank()), want.map(|x| x as u128), "{what} ({j})");
        same!(it.len(), hi - lo, "len()");
        same!(it.size_hint(), (hi - lo, Some(hi - lo)), "size_hint()");
    }
    // A clone listed to the end while the original keeps its place.
    if hi - lo <= 300 {
        let rest: Vec<u128> = it.clone().take(302).map(|v| v.rank()).collect();
        same!(rest, (lo as u128..hi as u128).collect::<Vec<_>>(), "remaining values");
        let rest: Vec<u128> = it.clone().rev().take(302).map(|v| v.rank()).collect();
        same!(rest, (lo as u128..hi as u128).rev().collect::<Vec<_>>(), "remaining values in reverse");
    }
    same!(it.clone().count(), hi - lo, "count()");
    same!(it.clone().last().map(|v| v.rank()), (lo < hi).then(|| hi as u128 - 1), "last()");
    same!(it.next().map(|v| v.rank()), (lo < hi).then_some(lo as u128), "next() after clones were consumed");
    Ok(Info { nontrivial: n < 2 || ends.0 && ends.1, tags: vec![] })
}

/// All positions of a small type; both ends of a large one.
pub fn complete<T: Oracle>(_: &Case, ctx: &Ctx) -> Res {
    let n = size_ok::<T>()?;
    let head = n.min(20_000);
    sweep::<T>(0, head).map_err(|e| e.1)?;
    sweep::<T>(n.saturating_sub(5_000).max(head), n).map_err(|e| e.1)?;
    for i in n..(n + 5_000).min(MAX + 1) {
        ensure!(T::from_ordinal(i as usize).is_none(), "from_ordinal({i}) is Some although the type has {n} values");
    }
    tr!(ctx, "{} of {n} positions", head + 5_000.min(n - head));
    Ok(Info { nontrivial: true, tags: if head == n { vec!["all positions"] } else { vec![] } })
}

/// Complete sweep of positions `lo..hi`; the first failing position.
pub fn sweep<T: Oracle>(lo: u128, hi: u128) -> Result<(), (u128, String)> {
    let mut i = lo;
    while i < hi {
        point::<T>(i).map_err(|e| (i, e))?;
        i += 1;
    }
    Ok(())
}
/// Runs a conversion of a type with too many values: it may panic.
fn attempt<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
fn positions<T: Oracle>(c: &Case) -> Vec<u128> {
    let n = T::count();
    let m = marks::<T>();
    // Around the limit as well.
    let mut p: Vec<u128> = (0..6).map(|d| (MAX + d).saturating_sub(3).min(n - 1)).collect();
    p.extend(c.ops.iter().map(|op| below(op, n, &m, c.h)));
    p
}
/// C06: `ordinal` panics or is exact.
pub fn exact_ordinal<T: Oracle>(c: &Case, ctx: &Ctx) -> Res {
    let mut tags = vec![];
    for i in positions::<T>(c) {
        let v = T::unrank(i);
        let o = attempt(|| v.ordinal());
        tr!(ctx, "value at position {i}: {o:?}");
        match o {
            Some(o) => ensure!(o as u128 == i, "the value at position {i} of {} has ordinal {o}: {}", T::count(), v.show()),
            None => tags = vec!["panicked"],
        }
    }
    Ok(Info { nontrivial: true, tags })
}
/// C06: `from_ordinal` panics or is exact.
pub fn exact_from<T: Oracle>(c: &Case, ctx: &Ctx) -> Res {
    let mut tags = vec![];
    for i in positions::<T>(c) {
        let i = i.min(MAX);
        match attempt(|| T::from_ordinal(i as usize)) {
            Some(Some(v)) => ensure!(v.rank() == i, "from_ordinal({i}) is the value at position {}: {}", v.rank(), v.show()),
            Some(None) => return Err(format!("from_ordinal({i}) is None although the type has {} values", T::count())),
            None => tags = vec!["panicked"],
        }
        tr!(ctx, "from_ordinal({i})");
    }
    Ok(Info { nontrivial: true, tags })
}
/// C06: a value stored in an atomic cell and read back.
pub fn exact_atomic<T: Oracle>(c: &Case, ctx: &Ctx) -> Res {
    let mut tags = vec![];
    for i in positions::<T>(c) {
        let r = attempt(|| ordinal_map::AtomicOrdinal::new(T::unrank(i)).load(std::sync::atomic::Ordering::SeqCst).rank());
        tr!(ctx, "cell with the value at position {i}: {r:?}");
        match r {
            Some(r) => ensure!(r == i, "a cell with the value at position {i} holds the value at position {r}"),
            None => tags = vec!["panicked"],
        }
    }
    Ok(Info { nontrivial: true, tags })
}

/// Replays one failing position of a sweep (`h`).
pub fn single<T: Oracle>(c: &Case, ctx: &Ctx) -> Res {
    tr!(ctx, "position {}", c.h);
    size_ok::<T>()?;
    if (c.h as u128) < T::count() {
        point::<T>(c.h as u128)?;
    }
    Ok(Info { nontrivial: true, tags: vec![] })
}
