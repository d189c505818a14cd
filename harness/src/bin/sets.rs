use omv::case::{Ctx, Subject};
use omv::engine::{main as run, Prop};
use omv::key::{Dk, Kn, Pn};
use omv::sets::*;
use ordinal_map::set::{OrdinalArraySet, OrdinalSet, OrdinalSet64};

macro_rules! subj {
    ($name:expr, $f:expr, $w:expr, $m:expr) => { Subject { name: $name, f: $f, weight: $w, max_ops: $m } };
}
macro_rules! keys {
    ($f:ident, $($k:ty, $w:expr, $m:expr;)*) => {
        vec![$(subj!(concat!(stringify!($k), "/", stringify!($f)), $f::<$k>, $w, $m)),*]
    };
}
macro_rules! gen {
    ($($k:ty, $w:expr, $m:expr;)*) => {
        vec![$(subj!(concat!("OrdinalSet<", stringify!($k), ">/hist"), hist::<$k, OrdinalSet<$k>>, $w, $m)),*]
    };
}
macro_rules! s64 {
    ($($k:ty, $w:expr, $m:expr;)*) => {
        vec![$(subj!(concat!("OrdinalSet64<", stringify!($k), ">/hist"), hist::<$k, OrdinalSet64<$k>>, $w, $m)),*]
    };
}
macro_rules! arr {
    ($($k:ty, $s:expr, $w:expr, $m:expr;)*) => {
        vec![$(subj!(concat!("OrdinalArraySet<", stringify!($k), ">/hist"), hist::<$k, OrdinalArraySet<$k, $s>>, $w, $m)),*]
    };
}
macro_rules! every {
    ($($n:literal)*) => {
        vec![$(subj!(concat!("Kn<", $n, ">/all_eq"), all_eq::<Kn<$n>>, 20, 24)),*]
    };
}

fn hists() -> Vec<Subject> {
    let mut s = gen![
        Kn<0>, 3, 4; Kn<1>, 10, 10; bool, 20, 20; Pn<7>, 60, 40; Dk, 60, 40; Kn<63>, 60, 60; Pn<64>, 100, 60; Kn<65>, 100, 60;
        Option<[bool; 6]>, 60, 60; Kn<127>, 40, 60; Kn<128>, 60, 80; Pn<129>, 60, 80; Kn<192>, 40, 80; Kn<193>, 40, 80; i8, 30, 80; Kn<1000>, 10, 80; Pn<4160>, 4, 60; u16, 2, 40; char, 1, 16; Kn<8388672>, 1, 16;
    ];
    s.extend(s64![Kn<0>, 3, 4; Kn<1>, 10, 10; bool, 20, 20; Pn<7>, 60, 40; Dk, 60, 40; Kn<32>, 60, 40; Kn<33>, 60, 40; Kn<63>, 60, 60; Pn<64>, 100, 60; [bool; 6], 100, 60;]);
    s.extend(arr![
        Kn<0>, 0, 3, 4; Kn<1>, 1, 10, 10; Pn<7>, 1, 60, 40; Kn<63>, 1, 60, 60; Pn<64>, 1, 100, 60; Kn<65>, 2, 100, 60;
        Kn<128>, 2, 60, 80; Pn<129>, 3, 60, 80; Kn<193>, 4, 40, 80; i8, 4, 30, 80; Kn<1000>, 16, 10, 80; u16, 1024, 2, 40; Pn<70001>, 1094, 1, 16;
    ]);
    s
}
fn iterators() -> Vec<Subject> {
    let mut s = keys![iters, Kn<0>, 5, 6; Kn<1>, 10, 10; Pn<7>, 60, 24; Dk, 60, 24; Kn<64>, 60, 60; Kn<65>, 100, 60; Pn<129>, 100, 60; i8, 30, 60; Kn<1000>, 20, 60; Pn<4160>, 4, 60; Kn<70001>, 1, 20; ];
    s.extend(keys![iters64, Kn<0>, 5, 6; Kn<1>, 10, 10; Pn<7>, 60, 24; Dk, 60, 24; Kn<63>, 60, 60; Pn<64>, 100, 60;]);
    s
}

fn main() {
    let both = || {
        let mut s: Vec<Subject> = hists().into_iter().filter(|s| !s.name.contains("8388672")).collect();
        s.extend(iterators());
        s
    };
    run(vec![
        Prop {
            id: "C16",
            rule: "Random histories of insert, contains and collect on the three set types over element types of 0 to 8388672 values (chosen around multiples of 64, natural and reversed numbering), compared with a BTreeSet; membership of every element checked after each step for small types. Non-trivial: at least one element was inserted again (or the type is empty).",
            subjects: hists(),
            ctx: Ctx::default,
            quick: 30_000,
            thorough: 1_000_000,
        },
        Prop {
            id: "C17",
            rule: "Random set contents (full, alternating, word boundaries, random), iterator driven by random operation sequences and a random consuming end against a deque of remaining members; size hints checked after every step, exact length and length-dependent adapters for the single-word set. Non-trivial: at least two members and both ends used or items jumped over (or an empty element type).",
            subjects: iterators(),
            ctx: || Ctx { mode: 1, ..Ctx::default() },
            quick: 240_000,
            thorough: 6_000_000,
        },
        Prop {
            id: "C18",
            rule: "For element types of every size 0..=64 (and reversed and derived ones): all() against the set of every value; pairs of sets built in different orders and ways (collect, insert, with repeats, all, clone) from equal, one-element-different and random contents, compared with == and !=. Non-trivial: the first set is not empty (or the type has fewer than two values).",
            subjects: {
                let mut s = every!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64);
                s.extend(keys![all_eq, Pn<7>, 100, 24; Dk, 100, 24; bool, 40, 16; Pn<64>, 100, 60; [bool; 6], 100, 60; Pn<33>, 60, 40;]);
                s
            },
            ctx: Ctx::default,
            quick: 80_000,
            thorough: 3_000_000,
        },
        Prop {
            id: "C22",
            rule: "Sets: histories over up to three clones (clone, clone_from, drop), each compared with its own model after every step; iterators: clones taken at random points, one exhausted and the other continued.",
            subjects: both(),
            ctx: || Ctx { clone: true, ..Ctx::default() },
            quick: 6_000,
            thorough: 200_000,
        },
        Prop {
            id: "C25",
            rule: "Sets and their iterators: {:?} and {:#?} text compared with that of a reference set or list after every step of random histories.",
            subjects: both(),
            ctx: || Ctx { fmt: true, ..Ctx::default() },
            quick: 6_000,
            thorough: 50_000,
        },
    ]);
}
