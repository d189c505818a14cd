use omv::case::{Ctx, Subject};
use omv::engine::{main as run, Prop};
use omv::key::{Dk, Kn, Pn};
use omv::sparse::*;
use ordinal_map::map::{OrdinalArrayMap as A, OrdinalMap as H};

macro_rules! subj {
    ($name:expr, $f:expr, $w:expr, $m:expr) => { Subject { name: $name, f: $f, weight: $w, max_ops: $m } };
}
macro_rules! heap {
    ($f:ident, $($k:ty, $v:ty, $w:expr, $m:expr;)*) => {
        vec![$(subj!(concat!("OrdinalMap<", stringify!($k), ", ", stringify!($v), ">/", stringify!($f)), $f::<$k, $v, H<$k, $v>>, $w, $m)),*]
    };
}
macro_rules! arr {
    ($f:ident, $($k:ty, $v:ty, $n:expr, $w:expr, $m:expr;)*) => {
        vec![$(subj!(concat!("OrdinalArrayMap<", stringify!($k), ", ", stringify!($v), ">/", stringify!($f)), $f::<$k, $v, A<$k, $v, $n>>, $w, $m)),*]
    };
}

fn hists() -> Vec<Subject> {
    let mut s = heap![hist,
        Kn<0>, u32, 5, 8;
        Kn<1>, u32, 20, 30;
        bool, String, 60, 40;
        Kn<3>, Option<bool>, 60, 40;
        Pn<7>, u32, 100, 60;
        Dk, u32, 100, 60;
        Kn<64>, u32, 60, 60;
        Kn<65>, (), 60, 60;
        i8, u32, 60, 60;
        Kn<300>, String, 40, 60;
        Pn<1000>, [u64; 5], 20, 60;
        u16, u32, 2, 24;
        Pn<70001>, u32, 2, 24;
        char, u32, 1, 6;
    ];
    s.extend(arr![hist,
        Kn<0>, u32, 0, 5, 8;
        Kn<1>, u32, 1, 20, 30;
        bool, String, 2, 60, 40;
        Kn<3>, Option<bool>, 3, 60, 40;
        Pn<7>, u32, 7, 100, 60;
        Dk, u32, 9, 100, 60;
        Kn<64>, u32, 64, 60, 60;
        Kn<65>, (), 65, 60, 60;
        u8, u32, 256, 60, 60;
        Kn<300>, String, 300, 40, 60;
        Pn<1000>, [u64; 5], 1000, 20, 60;
        Kn<70001>, u32, 70001, 1, 16;
    ]);
    s
}
fn iterators() -> Vec<Subject> {
    let mut s = heap![iters,
        Kn<0>, u32, 5, 8;
        Kn<1>, u32, 20, 16;
        Kn<3>, Option<bool>, 40, 20;
        Pn<7>, u32, 100, 30;
        Dk, String, 60, 30;
        Kn<65>, u32, 60, 60;
        u8, u32, 40, 80;
        Kn<1000>, (), 20, 60;
        Pn<70001>, u32, 1, 20;
    ];
    s.extend(arr![iters,
        Kn<0>, u32, 0, 5, 8;
        Kn<1>, u32, 1, 20, 16;
        Kn<3>, Option<bool>, 3, 40, 20;
        Pn<7>, u32, 7, 100, 30;
        Dk, String, 9, 60, 30;
        Kn<65>, u32, 65, 60, 60;
        u8, u32, 256, 40, 80;
        Pn<1000>, String, 1000, 20, 60;
    ]);
    s
}

fn main() {
    let c22 = {
        let mut s = hists();
        s.extend(iterators());
        s
    };
    let c25 = {
        let mut s = hists();
        s.extend(iterators());
        s.extend([
            subj!("OrdinalMap<Dk, ()>/keys_fmt", keys_fmt::<Dk, H<Dk, ()>>, 60, 30),
            subj!("OrdinalMap<Kn<0>, ()>/keys_fmt", keys_fmt::<Kn<0>, H<Kn<0>, ()>>, 5, 8),
            subj!("OrdinalArrayMap<Pn<7>, ()>/keys_fmt", keys_fmt::<Pn<7>, A<Pn<7>, (), 7>>, 60, 30),
        ]);
        s
    };
    run(vec![
        Prop {
            id: "C08",
            rule: "Random histories of insert, remove, get, get_mut, contains_key, entry, iter_mut/values_mut writes, clear, drain, collect and retain on heap and array sparse maps over 16 key types of up to 1112064 values, compared with a BTreeMap after every step (every key of small types is probed). Non-trivial: the history operated on both present and absent keys and held at least two keys at once (or the key type has fewer than two values).",
            subjects: hists(),
            ctx: Ctx::default,
            quick: 40_000,
            thorough: 1_500_000,
        },
        Prop {
            id: "C09",
            rule: "Random histories mixing inserts, removals and entry operations (key, occupied read and write, vacant insert, or_insert and write through it, dropping an entry unused); model and whole map compared after every step. Non-trivial: at least one vacant and one occupied entry were obtained.",
            subjects: {
                let mut s = heap![entry,
                    Kn<1>, u32, 20, 30;
                    Kn<3>, Option<bool>, 60, 40;
                    Pn<7>, String, 100, 60;
                    Dk, u32, 100, 60;
                    Kn<65>, u32, 60, 60;
                    u8, (), 30, 60;
                    Pn<1000>, [u64; 5], 10, 60;
                    Pn<70001>, u32, 2, 16;
                ];
                s.extend(arr![entry,
                    Kn<1>, u32, 1, 20, 30;
                    Kn<3>, Option<bool>, 3, 60, 40;
                    Pn<7>, String, 7, 100, 60;
                    Dk, u32, 9, 100, 60;
                    Kn<65>, u32, 65, 60, 60;
                    u8, (), 256, 30, 60;
                    Pn<1000>, [u64; 5], 1000, 10, 60;
                ]);
                s
            },
            ctx: Ctx::default,
            quick: 60_000,
            thorough: 2_500_000,
        },
        Prop {
            id: "C10",
            rule: "Random map contents (sparse, dense, alternating, ends only), one of seven iterator kinds, a random sequence of next/next_back/nth/nth_back/find/rfind/all/position/take/rev/try_rfold and a consuming end (collect, fold, rfold, count, last, skip, step_by, ...), each compared with a deque of the remaining items; size hints checked after every step; writes through mutable iterators checked in the map afterwards. Non-trivial: at least two entries and both ends used or items jumped over.",
            subjects: iterators(),
            ctx: || Ctx { mode: 1, ..Ctx::default() },
            quick: 240_000,
            thorough: 7_000_000,
        },
        Prop {
            id: "C11",
            rule: "Random map contents, then a drain driven by random iterator operations, or consumed a random number of steps from either end and dropped, or clear, or retain with five kinds of predicate that may write to the values; predicate calls, survivors and the map's later behaviour compared with a model. Non-trivial: at least two entries were present.",
            subjects: {
                let mut s = heap![removal,
                    Kn<0>, u32, 5, 8;
                    Kn<1>, u32, 20, 16;
                    Kn<3>, Option<bool>, 40, 20;
                    Pn<7>, u32, 100, 30;
                    Dk, String, 60, 30;
                    Kn<65>, u32, 60, 60;
                    u8, u32, 40, 60;
                    Kn<1000>, (), 10, 60;
                    Pn<70001>, u32, 1, 20;
                ];
                s.extend(arr![removal,
                    Kn<0>, u32, 0, 5, 8;
                    Kn<1>, u32, 1, 20, 16;
                    Kn<3>, Option<bool>, 3, 40, 20;
                    Pn<7>, u32, 7, 100, 30;
                    Dk, String, 9, 60, 30;
                    Kn<65>, u32, 65, 60, 60;
                    u8, u32, 256, 40, 60;
                    Pn<1000>, String, 1000, 10, 60;
                ]);
                s
            },
            ctx: Ctx::default,
            quick: 300_000,
            thorough: 9_000_000,
        },
        Prop {
            id: "C22",
            rule: "Sparse maps: random histories in which maps are cloned (clone and clone_from), dropped and operated on independently, every map compared with its own model after each step; iterators: clones taken at random points, one of the two exhausted, the other continued. Non-trivial: see the tags (cloned).",
            subjects: c22,
            ctx: || Ctx { clone: true, ..Ctx::default() },
            quick: 8_000,
            thorough: 300_000,
        },
        Prop {
            id: "C25",
            rule: "Sparse maps and their iterators: after every step of random histories the {:?} and {:#?} text is compared with that of a reference map or list of the same items.",
            subjects: c25,
            ctx: || Ctx { fmt: true, ..Ctx::default() },
            quick: 8_000,
            thorough: 100_000,
        },
    ]);
}
