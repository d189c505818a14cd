use omv::case::{Ctx, Subject};
use omv::drops::*;
use omv::engine::{main as run, Prop};

fn main() {
    run(vec![
    Prop {
        id: "C19",
        rule: "Values carry identities and record creation, clone, observation and drop. (a) Histories with panics injected at a random fault point (user function, Default, Clone, Drop, key conversion) of a random operation on a sparse map, a total map or a chain of transformations, with a second map, a partly consumed owned iterator and values in hand; after every operation the set of live identities must equal the set of identities held, and after a panic the map stays in use. (b) The histories and iterator sequences of C08-C12, C15 and C22 over the same values, with nothing alive at the end. Non-trivial: a fault struck or an iterator was abandoned part way (a), or the rule of the reused check (b).",
        subjects: subjects(),
        ctx: || Ctx { clone: true, ..Ctx::default() },
        quick: 30_000,
        thorough: 1_200_000,
    },
    Prop {
        id: "C32",
        rule: "Histories on sparse maps, total maps, sets and cells with a panic injected at a random point of user code (key conversion, user function or loop body, Clone, Default, Drop) of a random operation, caught, and the container compared with what the statement allows: unchanged or done for operations on one key and constructions of a replacement, unchanged for operations that only read, exactly the visited entries changed for exclusive iteration, at least everything not yet rejected for retain, and nothing new for drain and clear, nothing at all when the user of a drain panics. The history goes on from what is found. Non-trivial: a panic struck.",
        subjects: panicking(),
        ctx: Ctx::default,
        quick: 25_000,
        thorough: 2_000_000,
    },
    ]);
}

fn subjects() -> Vec<Subject> {
    omv::drops_subjects!()
}

fn panicking() -> Vec<Subject> {
    use omv::panics::*;
    use ordinal_map::map::total::{OrdinalTotalArrayMap as TA, OrdinalTotalMap as TH};
    use ordinal_map::map::{OrdinalArrayMap as A, OrdinalMap as H};
    use ordinal_map::set::{OrdinalArraySet as AS, OrdinalSet as S, OrdinalSet64 as S64};
    macro_rules! s {
        ($n:literal, $f:expr, $w:expr) => {
            Subject { name: $n, f: $f, weight: $w, max_ops: 40 }
        };
    }
    vec![
        s!("OrdinalMap<Fk<1>>", sparse::<Fk<1>, H<Fk<1>, Tracked>>, 20),
        s!("OrdinalMap<Fk<5>>", sparse::<Fk<5>, H<Fk<5>, Tracked>>, 150),
        s!("OrdinalMap<Fk<70>>", sparse::<Fk<70>, H<Fk<70>, Tracked>>, 30),
        s!("OrdinalArrayMap<Fk<1>>", sparse::<Fk<1>, A<Fk<1>, Tracked, 1>>, 20),
        s!("OrdinalArrayMap<Fk<5>>", sparse::<Fk<5>, A<Fk<5>, Tracked, 5>>, 150),
        s!("OrdinalArrayMap<Fk<70>>", sparse::<Fk<70>, A<Fk<70>, Tracked, 70>>, 30),
        s!("OrdinalTotalMap<Fk<1>>", total::<Fk<1>, TH<Fk<1>, Tracked>>, 20),
        s!("OrdinalTotalMap<Fk<5>>", total::<Fk<5>, TH<Fk<5>, Tracked>>, 100),
        s!("OrdinalTotalMap<Fk<70>>", total::<Fk<70>, TH<Fk<70>, Tracked>>, 20),
        s!("OrdinalTotalArrayMap<Fk<1>>", total::<Fk<1>, TA<Fk<1>, Tracked, 1>>, 20),
        s!("OrdinalTotalArrayMap<Fk<5>>", total::<Fk<5>, TA<Fk<5>, Tracked, 5>>, 100),
        s!("OrdinalTotalArrayMap<Fk<70>>", total::<Fk<70>, TA<Fk<70>, Tracked, 70>>, 20),
        s!("OrdinalSet<Fk<5>>", set::<Fk<5>, S<Fk<5>>>, 60),
        s!("OrdinalSet<Fk<70>>", set::<Fk<70>, S<Fk<70>>>, 60),
        s!("OrdinalSet<Fk<200>>", set::<Fk<200>, S<Fk<200>>>, 20),
        s!("OrdinalSet64<Fk<5>>", set::<Fk<5>, S64<Fk<5>>>, 60),
        s!("OrdinalSet64<Fk<64>>", set::<Fk<64>, S64<Fk<64>>>, 30),
        s!("OrdinalArraySet<Fk<5>>", set::<Fk<5>, AS<Fk<5>, 1>>, 60),
        s!("OrdinalArraySet<Fk<70>>", set::<Fk<70>, AS<Fk<70>, 2>>, 30),
        s!("AtomicOrdinal<Fk<1>>", cell::<Fk<1>>, 10),
        s!("AtomicOrdinal<Fk<5>>", cell::<Fk<5>>, 60),
        s!("AtomicOrdinal<Fk<70>>", cell::<Fk<70>>, 30),
    ]
}
