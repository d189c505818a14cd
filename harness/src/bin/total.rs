use omv::case::{Ctx, Subject};
use omv::engine::{main as run, Prop};
use omv::key::{Dk, Kn, Pn};
use omv::total::*;
use ordinal_map::map::total::{OrdinalTotalArrayMap as A, OrdinalTotalMap as H};

macro_rules! subj {
    ($name:expr, $f:expr, $w:expr, $m:expr) => { Subject { name: $name, f: $f, weight: $w, max_ops: $m } };
}
macro_rules! heap {
    ($f:ident, $($k:ty, $v:ty, $w:expr, $m:expr;)*) => {
        vec![$(subj!(concat!("OrdinalTotalMap<", stringify!($k), ", ", stringify!($v), ">/", stringify!($f)), $f::<$k, $v, H<$k, $v>>, $w, $m)),*]
    };
}
macro_rules! arr {
    ($f:ident, $($k:ty, $v:ty, $n:expr, $w:expr, $m:expr;)*) => {
        vec![$(subj!(concat!("OrdinalTotalArrayMap<", stringify!($k), ", ", stringify!($v), ">/", stringify!($f)), $f::<$k, $v, A<$k, $v, $n>>, $w, $m)),*]
    };
}
macro_rules! keys {
    ($f:ident, $($k:ty, $w:expr, $m:expr;)*) => {
        vec![$(subj!(concat!(stringify!($k), "/", stringify!($f)), $f::<$k>, $w, $m)),*]
    };
}

fn hists() -> Vec<Subject> {
    let mut s = heap![hist,
        Kn<0>, u32, 5, 8;
        Kn<1>, u32, 20, 30;
        bool, String, 60, 40;
        Kn<3>, Option<bool>, 60, 40;
        Pn<7>, u32, 100, 60;
        Dk, u32, 100, 60;
        Kn<65>, (), 20, 60;
        i8, u32, 40, 60;
        Kn<300>, String, 20, 60;
        Pn<1000>, [u64; 5], 10, 60;
        u16, u32, 1, 24;
        Pn<70001>, u32, 1, 24;
    ];
    s.extend(arr![hist,
        Kn<0>, u32, 0, 5, 8;
        Kn<1>, u32, 1, 20, 30;
        bool, String, 2, 60, 40;
        Kn<3>, Option<bool>, 3, 60, 40;
        Pn<7>, u32, 7, 100, 60;
        Dk, u32, 9, 100, 60;
        Kn<65>, (), 65, 20, 60;
        i8, u32, 256, 40, 60;
        Kn<300>, String, 300, 20, 60;
        Pn<1000>, [u64; 5], 1000, 10, 60;
    ]);
    s
}
fn iterators() -> Vec<Subject> {
    let mut s = heap![iters,
        Kn<0>, u32, 5, 8;
        Kn<1>, u32, 20, 16;
        Pn<7>, u32, 100, 20;
        Dk, String, 60, 24;
        Kn<65>, u32, 60, 70;
        Pn<1000>, (), 10, 60;
        Kn<70001>, u32, 1, 16;
    ];
    s.extend(arr![iters,
        Kn<0>, u32, 0, 5, 8;
        Kn<1>, u32, 1, 20, 16;
        Pn<7>, u32, 7, 100, 20;
        Dk, String, 9, 60, 24;
        Kn<65>, u32, 65, 60, 70;
        Pn<1000>, String, 1000, 10, 60;
    ]);
    s
}
fn values() -> Vec<Subject> {
    keys![all_values,
        Kn<0>, 5, 8;
        Kn<1>, 20, 12;
        bool, 60, 12;
        Pn<7>, 100, 20;
        Dk, 100, 24;
        Kn<65>, 60, 60;
        i8, 60, 100;
        Kn<300>, 40, 100;
        char, 2, 40;
        u16, 8, 40;
    ]
}

fn main() {
    let both = || {
        let mut s = hists();
        s.extend(iterators());
        s
    };
    run(vec![
        Prop {
            id: "C12",
            rule: "Random histories of insert, get_mut, indexing, writes through iter_mut, values_mut and exposed arrays, and rebuilding from the values or pairs taken out, on heap and array total maps over 15 key types of up to 70001 values; every key, the value list, the pair list and the exposed array compared with a vector after each step. Non-trivial: at least two stores (or the key type is empty).",
            subjects: hists(),
            ctx: Ctx::default,
            quick: 70_000,
            thorough: 2_500_000,
        },
        Prop {
            id: "C13",
            rule: "Random value functions and a failure injected at a random call (first, last, middle, none; sometimes every later call would fail too); the keys the initialiser saw, the error returned and the resulting map are compared with the model; new and default likewise. Non-trivial: the initialiser failed (or the key type is empty).",
            subjects: {
                let mut s = heap![construct,
                    Kn<0>, u32, 3, 1;
                    Kn<1>, u32, 30, 1;
                    bool, String, 30, 1;
                    Kn<3>, Option<bool>, 60, 1;
                    Pn<7>, String, 100, 1;
                    Dk, u32, 100, 1;
                    Kn<65>, String, 60, 1;
                    Kn<300>, u32, 30, 1;
                    i8, (), 30, 1;
                    Pn<1000>, [u64; 5], 8, 1;
                    Pn<70001>, u32, 1, 1;
                ];
                s.extend(arr![construct,
                    Kn<0>, u32, 0, 3, 1;
                    Kn<1>, u32, 1, 30, 1;
                    bool, String, 2, 30, 1;
                    Kn<3>, Option<bool>, 3, 60, 1;
                    Pn<7>, String, 7, 100, 1;
                    Dk, u32, 9, 100, 1;
                    Kn<65>, String, 65, 60, 1;
                    Kn<300>, u32, 300, 30, 1;
                    i8, (), 256, 30, 1;
                    Pn<1000>, [u64; 5], 1000, 8, 1;
                ]);
                s
            },
            ctx: Ctx::default,
            quick: 150_000,
            thorough: 5_000_000,
        },
        Prop {
            id: "C14",
            rule: "Random chains of map, map_values, zip, as_ref, as_mut (written through, mapped, zipped with another map's view), from_array/into_values on array total maps over 10 key types; the calls each mapping function receives and every key's value compared with a vector. Non-trivial: at least two different kinds of transformation in the chain.",
            subjects: vec![
                subj!("Kn<0>/transform", transform::<Kn<0>, 0>, 5, 8),
                subj!("Kn<1>/transform", transform::<Kn<1>, 1>, 20, 12),
                subj!("bool/transform", transform::<bool, 2>, 60, 16),
                subj!("Kn<3>/transform", transform::<Kn<3>, 3>, 60, 16),
                subj!("Pn<7>/transform", transform::<Pn<7>, 7>, 100, 20),
                subj!("Dk/transform", transform::<Dk, 9>, 100, 20),
                subj!("Kn<65>/transform", transform::<Kn<65>, 65>, 30, 20),
                subj!("i8/transform", transform::<i8, 256>, 10, 20),
                subj!("Pn<1000>/transform", transform::<Pn<1000>, 1000>, 2, 12),
            ],
            ctx: Ctx::default,
            quick: 300_000,
            thorough: 8_000_000,
        },
        Prop {
            id: "C15",
            rule: "Each iterator kind of both total maps (iter, &map, iter_mut, into_iter, keys, into_keys, values, values_mut) driven by random operation sequences and a random consuming end, against a deque of remaining items; size_hint and len must be exact after every step, and lengths through skip, take, zip, enumerate, rposition, step_by, peekable and rev must be right. Non-trivial: both ends used or items jumped over (or fewer than two keys).",
            subjects: iterators(),
            ctx: || Ctx { mode: 1, ..Ctx::default() },
            quick: 500_000,
            thorough: 12_000_000,
        },
        Prop {
            id: "C07",
            rule: "OrdinalValues of twelve key types driven by random operation sequences (next, next_back, nth, nth_back, find, rfind, all, position, take, rev, try_rfold, clone) and a random consuming end, against a deque of the remaining ordinals; len and size_hint exact after each step; clones and originals continued separately. Non-trivial: both ends used, items jumped over, or cloned.",
            subjects: values(),
            ctx: || Ctx { clone: true, ..Ctx::default() },
            quick: 100_000,
            thorough: 3_000_000,
        },
        Prop {
            id: "C22",
            rule: "Total maps: histories over up to three clones (clone, clone_from, drop), each compared with its own model after every step; iterators: clones taken at random points, one exhausted and the other continued.",
            subjects: both(),
            ctx: || Ctx { clone: true, ..Ctx::default() },
            quick: 8_000,
            thorough: 300_000,
        },
        Prop {
            id: "C25",
            rule: "Total maps, their iterators and OrdinalValues: {:?} and {:#?} text compared with that of a reference map or list after every step of random histories.",
            subjects: {
                let mut s = both();
                s.extend(keys![values_fmt, Kn<0>, 5, 4; Kn<1>, 10, 6; Pn<7>, 60, 12; Dk, 60, 12; Kn<65>, 30, 70;]);
                s
            },
            ctx: || Ctx { fmt: true, ..Ctx::default() },
            quick: 5_000,
            thorough: 60_000,
        },
    ]);
}
