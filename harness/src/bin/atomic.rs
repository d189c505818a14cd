use omv::atomic::*;
use omv::case::{Ctx, Subject};
use omv::engine::{main as run, Prop};
use omv::key::{Dk, Kn, Pn};
#[cfg(target_pointer_width = "64")]
use std::num::{NonZeroI64 as Signed, NonZeroU64 as Unsigned};
#[cfg(target_pointer_width = "32")]
use std::num::{NonZeroI32 as Signed, NonZeroU32 as Unsigned};

#[cfg(target_pointer_width = "64")]
type Pair = (u32, i16);
#[cfg(target_pointer_width = "32")]
type Pair = (i16, [bool; 15]);

macro_rules! keys {
    ($f:ident, $($k:ty, $w:expr, $m:expr;)*) => {
        vec![$(Subject { name: concat!("AtomicOrdinal<", stringify!($k), ">/", stringify!($f)), f: $f::<$k>, weight: $w, max_ops: $m }),*]
    };
}

fn registers() -> Vec<Subject> {
    keys![register,
        Kn<1>, 20, 20;
        (), 20, 20;
        bool, 60, 30;
        std::cmp::Ordering, 60, 30;
        Pn<7>, 100, 40;
        Dk, 100, 40;
        Option<[bool; 6]>, 60, 40;
        i8, 60, 40;
        u16, 60, 40;
        char, 60, 40;
        Pair, 60, 40;
        Unsigned, 60, 40;
        Signed, 60, 40;
        Kn<300>, 60, 40;
    ]
}

fn main() {
    run(vec![
        Prop {
            id: "C20",
            rule: "Random single-threaded histories of load, store and compare_exchange with every valid ordering (all 15 pairs for compare_exchange) on cells of 14 types of 1 to 2^64-1 values; every result and the value after each step compared with a plain variable. Non-trivial: compare_exchange both succeeded and failed (or the type has one value).",
            subjects: registers(),
            ctx: Ctx::default,
            quick: 200_000,
            thorough: 8_000_000,
        },
        Prop {
            id: "C25",
            rule: "Atomic cells: after every step of random histories the {:?}, {:#?} and padded text is compared with that of the current value, and the value with what it was before.",
            subjects: registers(),
            ctx: || Ctx { fmt: true, ..Ctx::default() },
            quick: 2_000,
            thorough: 100_000,
        },
        Prop {
            id: "C21",
            rule: "(native) Random programs of 2 to 4 threads doing loads, stores and compare-exchanges with random valid orderings on 1 to 3 cells, each run many times on real threads; every distinct outcome must be explained by an interleaving per cell, or by one over all cells when all operations are sequentially consistent; plain memory written before a releasing operation must be seen by whoever acquires its value; compare-exchange counters lose nothing. Non-trivial: at least two threads took part and more than one outcome occurred (or a counter).",
            subjects: vec![
                Subject { name: "threads", f: threads, weight: 100, max_ops: 20 },
                Subject { name: "counter", f: counter, weight: 10, max_ops: 1 },
            ],
            ctx: || Ctx { mode: 300, ..Ctx::default() },
            quick: 4_000,
            thorough: 150_000,
        },
    ]);
}
