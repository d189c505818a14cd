//! Number mapping of the built-in scalar types, with complete sweeps of those of up to 32 bits.
use omv::case::{Ctx, Subject};
use omv::engine::{js, main as run, Prop};
use omv::oracle::Oracle;
use omv::subject_of;
use omv::types::sweep;
use std::cmp::Ordering;
use std::convert::Infallible;
use std::num::*;
use std::sync::atomic::{AtomicU64, Ordering as O};
use std::sync::Mutex;

/// Scalars present everywhere, then those whose values only a 64-bit `usize` can number.
macro_rules! scalars {
    ($w:expr, $m:expr, $f:ident) => {{
        let v = scalars!(@ $w, $m, $f, bool, char, Ordering, (), Infallible, u8, i8, u16, i16, NonZeroU8, NonZeroI8, NonZeroU16,
            NonZeroI16, NonZeroU32, NonZeroI32, NonZeroUsize, NonZeroIsize);
        #[cfg(target_pointer_width = "64")]
        let v = v.into_iter().chain(scalars!(@ $w, $m, $f, u32, i32, NonZeroU64, NonZeroI64)).collect::<Vec<_>>();
        v
    }};
    (@ $w:expr, $m:expr, $f:ident, $($t:ty),*) => { vec![$(subject_of!($w, $m, $f, $t)),*] };
}

/// Sweeps every position of a type; on failure prints the smallest one in its chunk.
fn sweep_all<T: Oracle>(name: &str, fails: &mut Vec<String>) -> u64 {
    let n = T::count();
    const CHUNK: u128 = 1 << 20;
    let next = AtomicU64::new(0);
    let first = Mutex::new(None::<(u128, String)>);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let lo = next.fetch_add(1, O::Relaxed) as u128 * CHUNK;
                if lo >= n {
                    break;
                }
                let r = std::panic::catch_unwind(|| sweep::<T>(lo, (lo + CHUNK).min(n)));
                let bad = match r {
                    Ok(Ok(())) => continue,
                    Ok(Err(e)) => e,
                    // Find the position that panics.
                    Err(_) => (lo..(lo + CHUNK).min(n))
                        .find(|i| std::panic::catch_unwind(|| sweep::<T>(*i, i + 1)).is_err())
                        .map(|i| (i, "panic".to_string()))
                        .unwrap_or((lo, "panic".into())),
                };
                let mut g = first.lock().unwrap();
                if g.as_ref().is_none_or(|f| bad.0 < f.0) {
                    *g = Some(bad);
                }
                break;
            });
        }
    });
    if let Some((i, e)) = first.into_inner().unwrap() {
        fails.push(format!("{{\"subject\":{},\"case\":\"{i:x}\",\"message\":{},\"trace\":[]}}", js(&format!("{name}/single")), js(&e)));
    }
    n as u64
}

/// `sweep <out.json> <type>...`
fn sweeps(a: &[String]) {
    omv::engine::install_hook();
    let mut fails = Vec::new();
    let mut done = Vec::new();
    let mut total = 0;
    macro_rules! go { ($($t:ty),*) => {$(
        if a[1..].iter().any(|x| x == stringify!($t) || x == "small" && <$t as Oracle>::count() <= 1 << 21) {
            let n = sweep_all::<$t>(stringify!($t), &mut fails);
            total += n;
            done.push(format!("{}:{n}", js(stringify!($t))));
        }
    )*} }
    go!(bool, char, Ordering, (), Infallible, u8, i8, u16, i16, NonZeroU8, NonZeroI8, NonZeroU16, NonZeroI16, NonZeroU32, NonZeroI32);
    #[cfg(target_pointer_width = "64")]
    go!(u32, i32);
    std::fs::write(&a[0], format!("{{\"positions\":{total},\"types\":{{{}}},\"failures\":[{}]}}", done.join(","), fails.join(","))).unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).is_some_and(|s| s == "sweep") {
        return sweeps(&args[2..]);
    }
    let with = |mut a: Vec<Subject>, b: Vec<Subject>| {
        a.extend(b);
        a
    };
    run(vec![
        Prop {
            id: "C01",
            rule: "Scalar types: positions at both ends, around powers of two, around fractions and multiples of the size, and uniform ones (and each successor) are converted both ways and compared with the type's own arithmetic. Non-trivial: a position above 2 was converted, or the type has at most three values.",
            subjects: with(with(scalars!(100, 40, bijection), scalars!(0, 1, complete)), scalars!(0, 1, single)),
            ctx: Ctx::default,
            quick: 60_000,
            thorough: 3_000_000,
        },
        Prop {
            id: "C03",
            rule: "Numbers from the size up to usize::MAX: near the size, near usize::MAX, sums of a multiple of 2^8, 2^16, 2^32 and a small number, multiples of the size and of component sizes, powers of two, uniform. Non-trivial: at least one such number was converted.",
            subjects: scalars!(100, 40, rejection),
            ctx: Ctx::default,
            quick: 60_000,
            thorough: 3_000_000,
        },
        Prop {
            id: "C04",
            rule: "Pairs of values (unrelated, neighbours, differing in one component) whose ordinals must compare as the values do, in both directions of the mapping. Non-trivial: two different values were compared.",
            subjects: scalars!(100, 40, order_std),
            ctx: Ctx::default,
            quick: 60_000,
            thorough: 2_000_000,
        },
        Prop {
            id: "C07",
            rule: "Scalar types: random interleavings of next, next_back, nth and nth_back over all values, each compared with the value at that position, with exact lengths after every step; clones listed to the end. Non-trivial: both ends were used, or the type has fewer than two values.",
            subjects: scalars!(100, 30, values),
            ctx: Ctx::default,
            quick: 20_000,
            thorough: 500_000,
        },
    ]);
}
