use omv::case::{Ctx, Subject};
use omv::engine::{main as run, Prop};
use omv::key::{Dk, Kn, Pn};
use omv::{memory, passes};
use omv::resources::*;
use ordinal_map::map::total::{OrdinalTotalArrayMap as TA, OrdinalTotalMap as TH};
use ordinal_map::map::{OrdinalArrayMap as A, OrdinalMap as H};
use ordinal_map::set::{OrdinalArraySet as AS, OrdinalSet as S, OrdinalSet64 as S64};

#[global_allocator]
static COUNTING: Counting = Counting;

macro_rules! s {
    ($n:literal, $f:expr, $w:expr, $m:expr) => { Subject { name: $n, f: $f, weight: $w, max_ops: $m } };
}
macro_rules! st {
    ($n:literal, $f:ident, $k:ty, $mk:expr, $w:expr, $m:expr) => { Subject { name: $n, f: |c, ctx| $f::<$k, _>(c, ctx, $mk), weight: $w, max_ops: $m } };
}

const M: usize = 1 << 20;
const B: usize = 1 << 24;
const Q: usize = 1 << 18;
const P: usize = 1 << 17;
const R: usize = 1 << 16;

fn main() {
    run(vec![
        Prop {
            id: "C23",
            rule: "Random histories on every container type with values and keys that own no memory, under an allocator that counts the calls of the thread. Array containers, single-word and small sets: no allocation in any operation. Heap map and large set: none before the first insertion or entry, none after it, at most one block held. Every container: at most one block held, also by clones and collected containers, none left when dropped. Non-trivial: operations both before and after the storage was needed.",
            subjects: vec![
                s!("OrdinalMap<Kn<0>, u32>", alloc_sparse::<Kn<0>, u32, H<Kn<0>, u32>>, 10, 10),
                s!("OrdinalMap<Kn<1>, u32>", alloc_sparse::<Kn<1>, u32, H<Kn<1>, u32>>, 30, 16),
                s!("OrdinalMap<Dk, u32>", alloc_sparse::<Dk, u32, H<Dk, u32>>, 100, 24),
                s!("OrdinalMap<Pn<7>, ()>", alloc_sparse::<Pn<7>, (), H<Pn<7>, ()>>, 60, 24),
                s!("OrdinalMap<Kn<65>, Option<bool>>", alloc_sparse::<Kn<65>, Option<bool>, H<Kn<65>, Option<bool>>>, 60, 24),
                s!("OrdinalMap<u8, u32>", alloc_sparse::<u8, u32, H<u8, u32>>, 60, 24),
                s!("OrdinalArrayMap<Kn<0>, u32>", alloc_sparse::<Kn<0>, u32, A<Kn<0>, u32, 0>>, 10, 10),
                s!("OrdinalArrayMap<Kn<1>, u32>", alloc_sparse::<Kn<1>, u32, A<Kn<1>, u32, 1>>, 30, 16),
                s!("OrdinalArrayMap<Dk, u32>", alloc_sparse::<Dk, u32, A<Dk, u32, 9>>, 100, 24),
                s!("OrdinalArrayMap<Kn<65>, ()>", alloc_sparse::<Kn<65>, (), A<Kn<65>, (), 65>>, 60, 24),
                s!("OrdinalArrayMap<u8, u32>", alloc_sparse::<u8, u32, A<u8, u32, 256>>, 60, 24),
                s!("OrdinalTotalMap<Kn<0>, u32>", alloc_total::<Kn<0>, u32, TH<Kn<0>, u32>>, 10, 10),
                s!("OrdinalTotalMap<Dk, u32>", alloc_total::<Dk, u32, TH<Dk, u32>>, 60, 20),
                s!("OrdinalTotalMap<Kn<65>, Option<bool>>", alloc_total::<Kn<65>, Option<bool>, TH<Kn<65>, Option<bool>>>, 60, 20),
                s!("OrdinalTotalArrayMap<Kn<0>, u32>", alloc_total::<Kn<0>, u32, TA<Kn<0>, u32, 0>>, 10, 10),
                s!("OrdinalTotalArrayMap<Dk, u32>", alloc_total::<Dk, u32, TA<Dk, u32, 9>>, 60, 20),
                s!("OrdinalTotalArrayMap<u8, u32>", alloc_total::<u8, u32, TA<u8, u32, 256>>, 40, 20),
                s!("OrdinalTotalArrayMap<Dk>/transformations", alloc_transform::<Dk, 9>, 60, 16),
                s!("OrdinalTotalArrayMap<Kn<65>>/transformations", alloc_transform::<Kn<65>, 65>, 40, 16),
                s!("OrdinalSet<Kn<0>>", alloc_set::<Kn<0>, S<Kn<0>>>, 10, 10),
                s!("OrdinalSet<Dk>", alloc_set::<Dk, S<Dk>>, 60, 24),
                s!("OrdinalSet<Kn<63>>", alloc_set::<Kn<63>, S<Kn<63>>>, 60, 24),
                s!("OrdinalSet<Kn<64>>", alloc_set::<Kn<64>, S<Kn<64>>>, 100, 24),
                s!("OrdinalSet<Pn<65>>", alloc_set::<Pn<65>, S<Pn<65>>>, 100, 24),
                s!("OrdinalSet<u8>", alloc_set::<u8, S<u8>>, 60, 24),
                s!("OrdinalSet64<Kn<0>>", alloc_set::<Kn<0>, S64<Kn<0>>>, 10, 10),
                s!("OrdinalSet64<Dk>", alloc_set::<Dk, S64<Dk>>, 60, 24),
                s!("OrdinalSet64<Kn<64>>", alloc_set::<Kn<64>, S64<Kn<64>>>, 60, 24),
                s!("OrdinalSet64<Kn<64>>/all", alloc_set64::<Kn<64>>, 20, 24),
                s!("OrdinalSet64<Dk>/all", alloc_set64::<Dk>, 20, 24),
                s!("OrdinalSet64<Kn<0>>/all", alloc_set64::<Kn<0>>, 5, 24),
                s!("OrdinalArraySet<Kn<0>>", alloc_set::<Kn<0>, AS<Kn<0>, 0>>, 10, 10),
                s!("OrdinalArraySet<Kn<64>>", alloc_set::<Kn<64>, AS<Kn<64>, 1>>, 40, 24),
                s!("OrdinalArraySet<u8>", alloc_set::<u8, AS<u8, 4>>, 60, 24),
            ],
            ctx: Ctx::default,
            quick: 120_000,
            thorough: 4_000_000,
        },
        Prop {
            id: "C24",
            rule: "(calls) Random histories of lookups and updates on containers of 64 to 300 keys, empty, full or with three entries; key conversions counted per operation, at most 8 allowed. (times) The same on containers of 2^18 to 2^24 keys; each operation's least CPU time over repeated runs of the history must stay under 20 us, where one pass over the storage takes over 100 us. Operations that allocate the storage are exempt from timing. Non-trivial: at least one operation converted a key (calls), at least two operations (times).",
            subjects: vec![
                st!("OrdinalMap<Kn<300>>/calls", calls, Kn<300>, sparse_steps::<Kn<300>, u32, H<Kn<300>, u32>>, 100, 40),
                st!("OrdinalArrayMap<Kn<300>>/calls", calls, Kn<300>, sparse_steps::<Kn<300>, u32, A<Kn<300>, u32, 300>>, 100, 40),
                st!("OrdinalTotalMap<Kn<300>>/calls", calls, Kn<300>, total_steps::<Kn<300>, u32, TH<Kn<300>, u32>>, 100, 40),
                st!("OrdinalTotalArrayMap<Kn<300>>/calls", calls, Kn<300>, total_steps::<Kn<300>, u32, TA<Kn<300>, u32, 300>>, 100, 40),
                st!("OrdinalSet<Kn<64>>/calls", calls, Kn<64>, set_steps::<Kn<64>, S<Kn<64>>>, 100, 40),
                st!("OrdinalSet<Kn<300>>/calls", calls, Kn<300>, set_steps::<Kn<300>, S<Kn<300>>>, 100, 40),
                st!("OrdinalSet64<Kn<64>>/calls", calls, Kn<64>, set_steps::<Kn<64>, S64<Kn<64>>>, 100, 40),
                st!("OrdinalArraySet<Kn<300>>/calls", calls, Kn<300>, set_steps::<Kn<300>, AS<Kn<300>, 5>>, 100, 40),
                s!("AtomicOrdinal<Kn<300>>/calls", calls_atomic::<Kn<300>>, 100, 40),
                st!("OrdinalMap<Kn<2^20>>/times", times, Kn<M>, sparse_steps::<Kn<M>, u32, H<Kn<M>, u32>>, 1, 200),
                st!("OrdinalArrayMap<Kn<2^18>>/times", times, Kn<Q>, sparse_steps::<Kn<Q>, u32, A<Kn<Q>, u32, Q>>, 1, 200),
                st!("OrdinalTotalMap<Kn<2^20>>/times", times, Kn<M>, total_steps::<Kn<M>, u32, TH<Kn<M>, u32>>, 1, 200),
                st!("OrdinalTotalArrayMap<Kn<2^20>>/times", times, Kn<M>, total_steps::<Kn<M>, u32, TA<Kn<M>, u32, M>>, 1, 200),
                st!("OrdinalSet<Kn<2^24>>/times", times, Kn<B>, set_steps::<Kn<B>, S<Kn<B>>>, 1, 200),
                st!("OrdinalArraySet<Kn<2^24>>/times", times, Kn<B>, set_steps::<Kn<B>, AS<Kn<B>, { B / 64 }>>, 1, 200),
            ],
            ctx: Ctx::default,
            quick: 5_000,
            thorough: 100_000,
        },
        Prop {
            id: "C31",
            rule: "One to six passes over a container of a type of 300 to 2^20 keys, empty, with one, two or some entries, or full, filled from the front or from the back: every iterator driven in one of 16 ways, clone, drain, clear, retain, collecting, formatting, transforming, all keys looked up, stored or removed in turn. Per pass at most 24 key conversions per key of the type and 500 ns of CPU time (least of up to four runs; plain code takes under 60); heap containers on a stack of 160 KiB. Non-trivial: at least two operations were measured.",
            subjects: vec![
                s!("OrdinalMap<Kn<300>>", passes::sparse::<Kn<300>, H<Kn<300>, u32>>, 100, 6),
                s!("OrdinalMap<Kn<2^17>>", passes::sparse::<Kn<P>, H<Kn<P>, u32>>, 40, 4),
                s!("OrdinalArrayMap<Kn<300>>", passes::sparse::<Kn<300>, A<Kn<300>, u32, 300>>, 100, 6),
                s!("OrdinalArrayMap<Kn<2^16>>", passes::sparse::<Kn<R>, A<Kn<R>, u32, R>>, 40, 4),
                s!("OrdinalTotalMap<Kn<300>>", passes::total::<Kn<300>, TH<Kn<300>, u32>>, 60, 6),
                s!("OrdinalTotalMap<Kn<2^17>>", passes::total::<Kn<P>, TH<Kn<P>, u32>>, 30, 4),
                s!("OrdinalTotalArrayMap<Kn<300>>", passes::total::<Kn<300>, TA<Kn<300>, u32, 300>>, 60, 6),
                s!("OrdinalTotalArrayMap<Kn<2^16>>", passes::total::<Kn<R>, TA<Kn<R>, u32, R>>, 30, 4),
                s!("OrdinalTotalArrayMap<Kn<2^16>>/transformations", passes::transform::<Kn<R>, R>, 20, 6),
                s!("OrdinalSet<Kn<64>>", passes::set::<Kn<64>, S<Kn<64>>>, 60, 6),
                s!("OrdinalSet<Kn<300>>", passes::set::<Kn<300>, S<Kn<300>>>, 60, 6),
                s!("OrdinalSet<Kn<2^17>>", passes::set::<Kn<P>, S<Kn<P>>>, 30, 4),
                s!("OrdinalSet<Kn<2^20>>", passes::set::<Kn<M>, S<Kn<M>>>, 10, 4),
                s!("OrdinalSet64<Kn<64>>", passes::set::<Kn<64>, S64<Kn<64>>>, 60, 6),
                s!("OrdinalArraySet<Kn<2^20>>", passes::set::<Kn<M>, AS<Kn<M>, { M / 64 }>>, 10, 4),
                s!("all_values<Kn<300>>", passes::values::<Kn<300>>, 60, 6),
                s!("all_values<Kn<2^17>>", passes::values::<Kn<P>>, 30, 4),
            ],
            ctx: Ctx::default,
            quick: 4_000,
            thorough: 60_000,
        },
        Prop {
            id: "C33",
            rule: "Random histories on up to three containers of one of many types under an allocator that counts the bytes in use. After every operation the heap bytes held must not exceed one optional value (sparse maps), one value (total maps) or one bit in whole 64-bit words (sets) per key of the type and container, and nothing before anything was stored or when all are gone; while an operation runs, three times that. Array containers and single-word sets hold nothing on the heap and are exactly as large as their slots; heap containers themselves take at most four machine words, a cell one. Non-trivial: more than one storing operation, or an empty key type.",
            subjects: vec![
                s!("OrdinalMap<Kn<0>, u32>", memory::sparse::<Kn<0>, u32, H<Kn<0>, u32>>, 5, 30),
                s!("OrdinalArrayMap<Kn<0>, u32>", memory::sparse::<Kn<0>, u32, A<Kn<0>, u32, 0>>, 5, 30),
                s!("OrdinalTotalMap<Kn<0>, u32>", memory::total::<Kn<0>, u32, TH<Kn<0>, u32>>, 5, 30),
                s!("OrdinalTotalArrayMap<Kn<0>, u32>", memory::total::<Kn<0>, u32, TA<Kn<0>, u32, 0>>, 5, 30),
                s!("OrdinalMap<Kn<1>, u32>", memory::sparse::<Kn<1>, u32, H<Kn<1>, u32>>, 20, 30),
                s!("OrdinalArrayMap<Kn<1>, u32>", memory::sparse::<Kn<1>, u32, A<Kn<1>, u32, 1>>, 20, 30),
                s!("OrdinalTotalMap<Kn<1>, u32>", memory::total::<Kn<1>, u32, TH<Kn<1>, u32>>, 15, 30),
                s!("OrdinalTotalArrayMap<Kn<1>, u32>", memory::total::<Kn<1>, u32, TA<Kn<1>, u32, 1>>, 15, 30),
                s!("OrdinalMap<Kn<1>, Wide>", memory::sparse::<Kn<1>, memory::Wide, H<Kn<1>, memory::Wide>>, 20, 30),
                s!("OrdinalArrayMap<Kn<1>, Wide>", memory::sparse::<Kn<1>, memory::Wide, A<Kn<1>, memory::Wide, 1>>, 20, 30),
                s!("OrdinalTotalMap<Kn<1>, Wide>", memory::total::<Kn<1>, memory::Wide, TH<Kn<1>, memory::Wide>>, 15, 30),
                s!("OrdinalTotalArrayMap<Kn<1>, Wide>", memory::total::<Kn<1>, memory::Wide, TA<Kn<1>, memory::Wide, 1>>, 15, 30),
                s!("OrdinalMap<Dk, u32>", memory::sparse::<Dk, u32, H<Dk, u32>>, 20, 30),
                s!("OrdinalArrayMap<Dk, u32>", memory::sparse::<Dk, u32, A<Dk, u32, 9>>, 20, 30),
                s!("OrdinalTotalMap<Dk, u32>", memory::total::<Dk, u32, TH<Dk, u32>>, 15, 30),
                s!("OrdinalTotalArrayMap<Dk, u32>", memory::total::<Dk, u32, TA<Dk, u32, 9>>, 15, 30),
                s!("OrdinalMap<Dk, bool>", memory::sparse::<Dk, bool, H<Dk, bool>>, 20, 30),
                s!("OrdinalArrayMap<Dk, bool>", memory::sparse::<Dk, bool, A<Dk, bool, 9>>, 20, 30),
                s!("OrdinalTotalMap<Dk, bool>", memory::total::<Dk, bool, TH<Dk, bool>>, 15, 30),
                s!("OrdinalTotalArrayMap<Dk, bool>", memory::total::<Dk, bool, TA<Dk, bool, 9>>, 15, 30),
                s!("OrdinalMap<Dk, Nz>", memory::sparse::<Dk, memory::Nz, H<Dk, memory::Nz>>, 20, 30),
                s!("OrdinalArrayMap<Dk, Nz>", memory::sparse::<Dk, memory::Nz, A<Dk, memory::Nz, 9>>, 20, 30),
                s!("OrdinalTotalMap<Dk, Nz>", memory::total::<Dk, memory::Nz, TH<Dk, memory::Nz>>, 15, 30),
                s!("OrdinalTotalArrayMap<Dk, Nz>", memory::total::<Dk, memory::Nz, TA<Dk, memory::Nz, 9>>, 15, 30),
                s!("OrdinalMap<Dk, ()>", memory::sparse::<Dk, (), H<Dk, ()>>, 20, 30),
                s!("OrdinalArrayMap<Dk, ()>", memory::sparse::<Dk, (), A<Dk, (), 9>>, 20, 30),
                s!("OrdinalTotalMap<Dk, ()>", memory::total::<Dk, (), TH<Dk, ()>>, 15, 30),
                s!("OrdinalTotalArrayMap<Dk, ()>", memory::total::<Dk, (), TA<Dk, (), 9>>, 15, 30),
                s!("OrdinalMap<Pn<65>, [u64; 5]>", memory::sparse::<Pn<65>, [u64; 5], H<Pn<65>, [u64; 5]>>, 20, 30),
                s!("OrdinalArrayMap<Pn<65>, [u64; 5]>", memory::sparse::<Pn<65>, [u64; 5], A<Pn<65>, [u64; 5], 65>>, 20, 30),
                s!("OrdinalTotalMap<Pn<65>, [u64; 5]>", memory::total::<Pn<65>, [u64; 5], TH<Pn<65>, [u64; 5]>>, 15, 30),
                s!("OrdinalTotalArrayMap<Pn<65>, [u64; 5]>", memory::total::<Pn<65>, [u64; 5], TA<Pn<65>, [u64; 5], 65>>, 15, 30),
                s!("OrdinalMap<Pn<65>, Option<bool>>", memory::sparse::<Pn<65>, Option<bool>, H<Pn<65>, Option<bool>>>, 20, 30),
                s!("OrdinalArrayMap<Pn<65>, Option<bool>>", memory::sparse::<Pn<65>, Option<bool>, A<Pn<65>, Option<bool>, 65>>, 20, 30),
                s!("OrdinalTotalMap<Pn<65>, Option<bool>>", memory::total::<Pn<65>, Option<bool>, TH<Pn<65>, Option<bool>>>, 15, 30),
                s!("OrdinalTotalArrayMap<Pn<65>, Option<bool>>", memory::total::<Pn<65>, Option<bool>, TA<Pn<65>, Option<bool>, 65>>, 15, 30),
                s!("OrdinalMap<Pn<65>, u8>", memory::sparse::<Pn<65>, u8, H<Pn<65>, u8>>, 20, 30),
                s!("OrdinalArrayMap<Pn<65>, u8>", memory::sparse::<Pn<65>, u8, A<Pn<65>, u8, 65>>, 20, 30),
                s!("OrdinalTotalMap<Pn<65>, u8>", memory::total::<Pn<65>, u8, TH<Pn<65>, u8>>, 15, 30),
                s!("OrdinalTotalArrayMap<Pn<65>, u8>", memory::total::<Pn<65>, u8, TA<Pn<65>, u8, 65>>, 15, 30),
                s!("OrdinalMap<u8, u32>", memory::sparse::<u8, u32, H<u8, u32>>, 20, 30),
                s!("OrdinalArrayMap<u8, u32>", memory::sparse::<u8, u32, A<u8, u32, 256>>, 20, 30),
                s!("OrdinalTotalMap<u8, u32>", memory::total::<u8, u32, TH<u8, u32>>, 15, 30),
                s!("OrdinalTotalArrayMap<u8, u32>", memory::total::<u8, u32, TA<u8, u32, 256>>, 15, 30),
                s!("OrdinalMap<u8, Nz>", memory::sparse::<u8, memory::Nz, H<u8, memory::Nz>>, 20, 30),
                s!("OrdinalArrayMap<u8, Nz>", memory::sparse::<u8, memory::Nz, A<u8, memory::Nz, 256>>, 20, 30),
                s!("OrdinalTotalMap<u8, Nz>", memory::total::<u8, memory::Nz, TH<u8, memory::Nz>>, 15, 30),
                s!("OrdinalTotalArrayMap<u8, Nz>", memory::total::<u8, memory::Nz, TA<u8, memory::Nz, 256>>, 15, 30),
                s!("OrdinalMap<Kn<1000>, u8>", memory::sparse::<Kn<1000>, u8, H<Kn<1000>, u8>>, 20, 30),
                s!("OrdinalArrayMap<Kn<1000>, u8>", memory::sparse::<Kn<1000>, u8, A<Kn<1000>, u8, 1000>>, 20, 30),
                s!("OrdinalTotalMap<Kn<1000>, u8>", memory::total::<Kn<1000>, u8, TH<Kn<1000>, u8>>, 15, 30),
                s!("OrdinalTotalArrayMap<Kn<1000>, u8>", memory::total::<Kn<1000>, u8, TA<Kn<1000>, u8, 1000>>, 15, 30),
                s!("OrdinalSet<Kn<0>>", memory::set::<Kn<0>, S<Kn<0>>>, 20, 30),
                s!("OrdinalSet64<Kn<0>>", memory::set::<Kn<0>, S64<Kn<0>>>, 8, 30),
                s!("OrdinalArraySet<Kn<0>>", memory::set::<Kn<0>, AS<Kn<0>, 0>>, 12, 30),
                s!("OrdinalSet<Kn<1>>", memory::set::<Kn<1>, S<Kn<1>>>, 20, 30),
                s!("OrdinalSet64<Kn<1>>", memory::set::<Kn<1>, S64<Kn<1>>>, 8, 30),
                s!("OrdinalArraySet<Kn<1>>", memory::set::<Kn<1>, AS<Kn<1>, 1>>, 12, 30),
                s!("OrdinalSet<Dk>", memory::set::<Dk, S<Dk>>, 20, 30),
                s!("OrdinalSet64<Dk>", memory::set::<Dk, S64<Dk>>, 8, 30),
                s!("OrdinalArraySet<Dk>", memory::set::<Dk, AS<Dk, 1>>, 12, 30),
                s!("OrdinalSet<Kn<63>>", memory::set::<Kn<63>, S<Kn<63>>>, 20, 30),
                s!("OrdinalSet64<Kn<63>>", memory::set::<Kn<63>, S64<Kn<63>>>, 8, 30),
                s!("OrdinalArraySet<Kn<63>>", memory::set::<Kn<63>, AS<Kn<63>, 1>>, 12, 30),
                s!("OrdinalSet<Kn<64>>", memory::set::<Kn<64>, S<Kn<64>>>, 20, 30),
                s!("OrdinalSet64<Kn<64>>", memory::set::<Kn<64>, S64<Kn<64>>>, 8, 30),
                s!("OrdinalArraySet<Kn<64>>", memory::set::<Kn<64>, AS<Kn<64>, 1>>, 12, 30),
                s!("OrdinalSet<Pn<65>>", memory::set::<Pn<65>, S<Pn<65>>>, 20, 30),
                s!("OrdinalArraySet<Pn<65>>", memory::set::<Pn<65>, AS<Pn<65>, 2>>, 12, 30),
                s!("OrdinalSet<Kn<128>>", memory::set::<Kn<128>, S<Kn<128>>>, 20, 30),
                s!("OrdinalArraySet<Kn<128>>", memory::set::<Kn<128>, AS<Kn<128>, 2>>, 12, 30),
                s!("OrdinalSet<Kn<193>>", memory::set::<Kn<193>, S<Kn<193>>>, 20, 30),
                s!("OrdinalArraySet<Kn<193>>", memory::set::<Kn<193>, AS<Kn<193>, 4>>, 12, 30),
                s!("OrdinalSet<u8>", memory::set::<u8, S<u8>>, 20, 30),
                s!("OrdinalArraySet<u8>", memory::set::<u8, AS<u8, 4>>, 12, 30),
                s!("OrdinalSet<Kn<4160>>", memory::set::<Kn<4160>, S<Kn<4160>>>, 20, 30),
                s!("OrdinalArraySet<Kn<4160>>", memory::set::<Kn<4160>, AS<Kn<4160>, 65>>, 12, 30),
                s!("AtomicOrdinal<Kn<1>>", memory::cell::<Kn<1>>, 5, 30),
                s!("AtomicOrdinal<u8>", memory::cell::<u8>, 5, 30),
                s!("AtomicOrdinal<Kn<1000>>", memory::cell::<Kn<1000>>, 5, 30),
            ],
            ctx: Ctx::default,
            quick: 40_000,
            thorough: 1_000_000,
        },
    ]);
}
