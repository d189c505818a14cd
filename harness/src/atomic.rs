//! AtomicOrdinal: a register (C20), its Debug text (C25), and concurrent programs (C21).
use crate::case::{Case, Ctx, Info, Res};
use crate::drive::fmt_eq;
use crate::key::{Key, Kn};
use crate::{ensure, same, tr};
use ordinal_map::AtomicOrdinal;
use std::cell::UnsafeCell;
use std::collections::{BTreeSet, HashMap};
use std::sync::atomic::Ordering::{self, *};
use std::sync::atomic::{AtomicUsize, Ordering as O};

const LOADS: [Ordering; 3] = [Relaxed, Acquire, SeqCst];
const STORES: [Ordering; 3] = [Relaxed, Release, SeqCst];
const SUCCESS: [Ordering; 5] = [Relaxed, Release, Acquire, AcqRel, SeqCst];

/// Like `key::pick`, for types of any size.
fn pick(a: u16, b: u32, n: usize, h: u64) -> usize {
    if n <= 1 << 16 {
        return crate::key::pick(a, n, h);
    }
    match h & 3 {
        0 => ((a as u128 | (b as u128) << 16) * n as u128 >> 48) as usize,
        1 => n - 1 - a as usize % 4,
        2 => a as usize % 6,
        _ => {
            let p = 1usize << (a as u32 % usize::BITS);
            [p, p - 1, p + 1, n / 2][b as usize % 4].min(n - 1)
        }
    }
}

/// C20, C25: one thread.
pub fn register<K: Key>(c: &Case, ctx: &Ctx) -> Res {
    let n = K::N;
    let mut model = pick(c.h as u16, (c.h >> 16) as u32, n, c.h >> 40);
    let a = AtomicOrdinal::new(K::mk(model));
    let (mut hits, mut misses) = (0, 0);
    same!(a.load(SeqCst).ix(), model, "load after new");
    for (step, op) in c.ops.iter().enumerate() {
        let i = pick(op.a, op.b, n, c.h >> 40);
        match op.k % 8 {
            0 | 1 => {
                let o = STORES[(op.k >> 3) as usize % 3];
                a.store(K::mk(i), o);
                tr!(ctx, "store({:?}, {o:?})", K::mk(i));
                model = i;
            }
            2 => {
                let o = LOADS[(op.k >> 3) as usize % 3];
                let g = a.load(o);
                tr!(ctx, "load({o:?}) -> {g:?}");
                same!(g.ix(), model, "step {step}: load({o:?})");
                ensure!(g == K::mk(model), "step {step}: load({o:?}) returned another value");
            }
            k => {
                let (s, f) = (SUCCESS[(op.k >> 3) as usize % 5], LOADS[op.b as usize % 3]);
                // The current value, a neighbour of it, or anything.
                let old = match k {
                    3..=5 => model,
                    6 => if op.b & 4 == 0 { (model + 1) % n } else { model.checked_sub(1).unwrap_or(n - 1) },
                    _ => pick(op.a.rotate_left(7), op.b.rotate_left(9), n, c.h >> 40),
                };
                let r = a.compare_exchange(K::mk(old), K::mk(i), s, f).map(|k| k.ix()).map_err(|k| k.ix());
                tr!(ctx, "compare_exchange({:?}, {:?}, {s:?}, {f:?}) -> {r:?}", K::mk(old), K::mk(i));
                let want = if old == model { Ok(model) } else { Err(model) };
                same!(r, want, "step {step}: compare_exchange({old}, {i}, {s:?}, {f:?})");
                if old == model {
                    model = i;
                    hits += 1;
                } else {
                    misses += 1;
                }
            }
        }
        same!(a.load(SeqCst).ix(), model, "value after step {step}");
        if ctx.fmt {
            fmt_eq(&a, &K::mk(model), "atomic cell")?;
            same!(format!("{a:>9?}|{a:<5?}"), format!("{0:>9?}|{0:<5?}", K::mk(model)), "padded Debug");
            same!(a.load(SeqCst).ix(), model, "value after formatting");
        }
    }
    Ok(Info { nontrivial: n < 2 || hits > 0 && misses > 0, tags: vec![] })
}

// ---------------------------------------------------------------- C21

const CELLS: usize = 3;
const VALUES: usize = 40;
type K = Kn<VALUES>;

#[derive(Clone, Copy, Debug)]
enum What {
    Load(Ordering),
    Store(usize, Ordering),
    /// Expect the value the thread saw last in the cell, or the given one.
    Cas(Option<usize>, usize, Ordering, Ordering),
}

/// One operation of one thread on one cell. Values written are unique in most programs, so a value
/// names its writer and with it a slot of plain memory written just before.
#[derive(Clone, Copy, Debug)]
struct Act {
    cell: usize,
    what: What,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Saw {
    Loaded(usize),
    Stored(usize),
    Swapped(usize, usize),
    Failed(usize, usize),
}

pub struct Program {
    threads: Vec<Vec<Act>>,
    /// Value -> was it written by a releasing operation.
    releasing: Vec<bool>,
    sc: bool,
    /// Values repeat, and no memory is handed over with them.
    repeat: bool,
    cells: usize,
}

fn acquires(o: Ordering) -> bool {
    matches!(o, Acquire | AcqRel | SeqCst)
}
fn releases(o: Ordering) -> bool {
    matches!(o, Release | AcqRel | SeqCst)
}

pub fn program(c: &Case, max_ops: usize) -> Program {
    let mode = c.h % 8;
    let t = 2 + (c.h >> 8) as usize % 3;
    let cells = match mode {
        0..=2 => 1,
        _ => 1 + (c.h >> 16) as usize % CELLS,
    };
    let sc = matches!(mode, 1 | 4 | 5 | 6);
    let mut p = Program { threads: vec![vec![]; t], releasing: vec![false; VALUES], sc, repeat: mode == 6, cells };
    let mut fresh = 1;
    let ord = |b: u32, of: &[Ordering]| if sc { SeqCst } else { of[b as usize % of.len()] };
    if mode == 6 && c.h >> 60 & 1 == 0 {
        // Everyone writes one cell, then writes or reads the others, with values that may be there already.
        let mut r = c.h >> 20;
        let mut bits = |n: u64| {
            r = r.wrapping_mul(0x5851_f42d_4c95_7f2d).wrapping_add(0x1405_7b7e_f767_814f);
            (r >> 40) % n
        };
        let cells = cells.max(2);
        p.cells = cells;
        for th in 0..t {
            for k in 0..cells {
                let v = if k == 0 { 1 } else { bits(3) as usize / 2 };
                let what = match (k, bits(4)) {
                    (0, 0..=2) | (_, 0 | 1) => What::Store(v, SeqCst),
                    (_, 2) => What::Load(SeqCst),
                    _ => What::Cas(Some(bits(2) as usize), v, SeqCst, SeqCst),
                };
                p.threads[th].push(Act { cell: (th + k) % cells, what });
            }
        }
        return p;
    }
    let mut take = |o: Ordering, p: &mut Program| {
        if p.repeat {
            fresh = (fresh + 1) % 3;
            return fresh;
        }
        let v = fresh;
        fresh += 1;
        p.releasing[v] = releases(o);
        v
    };
    if mode == 5 && cells >= 2 {
        // Everyone writes one cell and reads the others.
        for th in 0..t {
            let v = take(SeqCst, &mut p);
            let mine = th % cells;
            let w = if c.h >> (20 + th) & 1 == 0 { What::Store(v, SeqCst) } else { What::Cas(Some(0), v, SeqCst, SeqCst) };
            p.threads[th].push(Act { cell: mine, what: w });
            for k in 1..cells {
                // Reading by a compare-exchange that fails is reading, too.
                let r = if c.h >> (30 + th) & 1 == 0 { What::Load(SeqCst) } else { What::Cas(Some(VALUES - 1), VALUES - 1, SeqCst, SeqCst) };
                p.threads[th].push(Act { cell: (mine + k) % cells, what: r });
            }
        }
        return p;
    }
    for (j, op) in c.ops.iter().enumerate() {
        if j >= max_ops {
            break;
        }
        let th = op.a as usize % t;
        let cell = (op.a >> 8) as usize % cells;
        let what = match op.k % 8 {
            0 | 1 => What::Load(ord(op.b, &LOADS)),
            2 | 3 => {
                let o = ord(op.b, &STORES);
                What::Store(take(o, &mut p), o)
            }
            k => {
                let (s, f) = (ord(op.b, &SUCCESS), ord(op.b >> 8, &LOADS));
                let e = match k {
                    4..=6 => None,
                    _ => Some((op.b >> 16) as usize % (j + 1)),
                };
                What::Cas(e, take(s, &mut p), s, f)
            }
        };
        p.threads[th].push(Act { cell, what });
    }
    p
}

struct Slots(Vec<UnsafeCell<u64>>);
// The program under test decides whether access is ordered; that is what is being checked.
unsafe impl Sync for Slots {}

struct Round {
    cells: Vec<AtomicOrdinal<K>>,
    slots: Slots,
}
impl Round {
    fn new() -> Round {
        Round {
            cells: (0..CELLS).map(|_| AtomicOrdinal::new(Kn(0))).collect(),
            slots: Slots((0..VALUES).map(|_| UnsafeCell::new(0)).collect()),
        }
    }
}

fn stamp(v: usize) -> u64 {
    v as u64 * 0x9e37_79b9 + 1
}

fn exec(p: &Program, th: usize, r: &Round, out: &mut Vec<Saw>) -> Result<(), String> {
    let mut last = [0usize; CELLS];
    for a in &p.threads[th] {
        let cell = &r.cells[a.cell];
        let publish = |v: usize| {
            if !p.repeat {
                unsafe { *r.slots.0[v].get() = stamp(v) }
            }
        };
        let consume = |v: usize, o: Ordering| -> Result<(), String> {
            if !p.repeat && v > 0 && v < VALUES - 1 && p.releasing[v] && acquires(o) {
                let got = unsafe { *r.slots.0[v].get() };
                if got != stamp(v) {
                    return Err(format!("thread {th} acquired value {v} with {o:?} but does not see what its writer wrote before ({got:#x})"));
                }
            }
            Ok(())
        };
        let saw = match a.what {
            What::Load(o) => {
                let v = cell.load(o).ix();
                consume(v, o)?;
                last[a.cell] = v;
                Saw::Loaded(v)
            }
            What::Store(v, o) => {
                publish(v);
                cell.store(Kn(v as u32), o);
                last[a.cell] = v;
                Saw::Stored(v)
            }
            What::Cas(e, v, s, f) => {
                if v < VALUES - 1 {
                    publish(v);
                }
                let e = e.unwrap_or(last[a.cell]);
                match cell.compare_exchange(Kn(e as u32), Kn(v as u32), s, f) {
                    Ok(k) => {
                        let got = k.ix();
                        if got != e {
                            return Err(format!("thread {th}: compare_exchange({e}, {v}) succeeded returning {got}"));
                        }
                        consume(got, s)?;
                        last[a.cell] = v;
                        Saw::Swapped(e, v)
                    }
                    Err(k) => {
                        let got = k.ix();
                        if got == e {
                            return Err(format!("thread {th}: compare_exchange({e}, {v}) failed returning the expected value"));
                        }
                        consume(got, f)?;
                        last[a.cell] = got;
                        Saw::Failed(e, got)
                    }
                }
            }
        };
        out.push(saw);
    }
    Ok(())
}

type Outcome = (Vec<Vec<Saw>>, [usize; CELLS]);

/// Is there an interleaving of the threads' operations that gives these results? With `only`,
/// considers the operations on that cell alone.
fn explained(p: &Program, o: &Outcome, only: Option<usize>) -> bool {
    let seq: Vec<Vec<(usize, Saw)>> = p
        .threads
        .iter()
        .zip(&o.0)
        .map(|(acts, saws)| acts.iter().zip(saws).filter(|(a, _)| only.is_none_or(|c| a.cell == c)).map(|(a, s)| (a.cell, *s)).collect())
        .collect();
    // A state is the threads' positions and the cells' values, in one word (Miri executes this).
    let start = [0u8; 4];
    let key = |pos: &[u8; 4], val: &[u8; CELLS]| pos.iter().chain(val).fold(0u64, |k, b| k << 8 | *b as u64);
    let mut seen = BTreeSet::new();
    let mut work = vec![(start, [0u8; CELLS])];
    while let Some((pos, val)) = work.pop() {
        if !seen.insert(key(&pos, &val)) {
            continue;
        }
        let depth = work.len();
        let mut ended = true;
        for t in 0..seq.len() {
            let Some(&(c, s)) = seq[t].get(pos[t] as usize) else { continue };
            ended = false;
            let mut v = val;
            let ok = match s {
                Saw::Loaded(x) => val[c] as usize == x,
                Saw::Stored(x) => {
                    v[c] = x as u8;
                    true
                }
                Saw::Swapped(e, x) => {
                    let ok = val[c] as usize == e;
                    v[c] = x as u8;
                    ok
                }
                Saw::Failed(e, x) => val[c] as usize == x && x != e,
            };
            if ok {
                let mut q = pos;
                q[t] += 1;
                if matches!(s, Saw::Loaded(_) | Saw::Failed(..)) {
                    // A read that is explained here may as well come first.
                    work.truncate(depth);
                    work.push((q, v));
                    break;
                }
                work.push((q, v));
            }
        }
        if ended && (0..CELLS).all(|c| only.is_some_and(|x| x != c) || val[c] as usize == o.1[c]) {
            return true;
        }
    }
    false
}

fn judge(p: &Program, o: &Outcome) -> Result<(), String> {
    for c in 0..p.cells {
        if !p.sc && !explained(p, o, Some(c)) {
            return Err(format!("cell {c}: no order of the operations explains the results: {}", shown(p, o)));
        }
    }
    if p.sc && !explained(p, o, None) {
        return Err(format!("no single order of the sequentially consistent operations explains the results: {}", shown(p, o)));
    }
    Ok(())
}

fn shown(p: &Program, o: &Outcome) -> String {
    let mut s = String::new();
    for (t, (a, w)) in p.threads.iter().zip(&o.0).enumerate() {
        s += &format!("thread {t}: ");
        for (a, w) in a.iter().zip(w) {
            s += &format!("cell{} {:?} -> {:?}; ", a.cell, a.what, w);
        }
    }
    s + &format!("final {:?}", &o.1[..p.cells])
}

/// A barrier that spins, so that threads leave it at nearly the same time.
struct Gate {
    count: AtomicUsize,
    n: usize,
}
impl Gate {
    fn wait(&self, round: usize) {
        self.count.fetch_add(1, O::AcqRel);
        let mut spins = 0u32;
        while self.count.load(O::Acquire) < (round + 1) * self.n {
            spins += 1;
            if cfg!(miri) || spins > 2000 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    }
}

/// Executes the program `rounds` times on real threads; returns the distinct outcomes.
fn execute(p: &Program, rounds: usize) -> Result<HashMap<Outcome, u32>, String> {
    let n = p.threads.len();
    let all: Vec<Round> = (0..rounds).map(|_| Round::new()).collect();
    let gate = Gate { count: AtomicUsize::new(0), n };
    let per: Vec<Result<Vec<Vec<Saw>>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (all, gate) = (&all, &gate);
                s.spawn(move || {
                    let mut outs = Vec::with_capacity(rounds);
                    let mut bad = None;
                    for (j, r) in all.iter().enumerate() {
                        let mut o = Vec::with_capacity(p.threads[t].len());
                        if rounds > 1 {
                            gate.wait(j);
                        }
                        if bad.is_none() {
                            // A panic must not leave the others waiting.
                            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(p, t, r, &mut o))) {
                                Ok(Ok(())) => {}
                                Ok(Err(e)) => bad = Some(e),
                                Err(_) => bad = Some(format!("thread {t} panicked")),
                            }
                        }
                        outs.push(o);
                    }
                    match bad {
                        Some(e) => Err(e),
                        None => Ok(outs),
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let per: Vec<Vec<Vec<Saw>>> = per.into_iter().collect::<Result<_, _>>()?;
    let mut m = HashMap::new();
    for (j, r) in all.iter().enumerate() {
        let fin = std::array::from_fn(|c| r.cells[c].load(SeqCst).ix());
        *m.entry((per.iter().map(|t| t[j].clone()).collect(), fin)).or_insert(0) += 1;
    }
    Ok(m)
}

/// C21: a random program of up to four threads. `ctx.mode` is the number of rounds.
pub fn threads(c: &Case, ctx: &Ctx) -> Res {
    let p = program(c, if cfg!(miri) { 12 } else { 20 });
    let rounds = if ctx.mode == 0 { 1 } else { ctx.mode as usize };
    let outs = execute(&p, rounds)?;
    for o in outs.keys() {
        judge(&p, o)?;
    }
    if ctx.tracing {
        let mut v: Vec<_> = outs.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1));
        for (o, n) in v.iter().take(4) {
            tr!(ctx, "{n}x: {}", shown(&p, o));
        }
    }
    let busy = p.threads.iter().filter(|t| !t.is_empty()).count();
    let mut tags = vec![];
    if p.sc {
        tags.push("all sequentially consistent");
    }
    if p.repeat {
        tags.push("values repeat");
    }
    if outs.len() > 1 {
        tags.push("several outcomes");
    }
    Ok(Info { nontrivial: busy >= 2 && (outs.len() > 1 || cfg!(miri)), tags })
}

/// C21: every thread adds to a shared counter by compare-exchange; nothing may be lost.
pub fn counter(c: &Case, ctx: &Ctx) -> Res {
    const N: usize = 4096;
    let t = 2 + (c.h >> 8) as usize % 3;
    let each = if cfg!(miri) { 3 + c.h as usize % 4 } else { 200 + c.h as usize % 600 };
    let (s, f) = (SUCCESS[(c.h >> 20) as usize % 5], LOADS[(c.h >> 24) as usize % 3]);
    let first = LOADS[(c.h >> 28) as usize % 3];
    let cell = AtomicOrdinal::new(Kn::<N>(0));
    let gate = Gate { count: AtomicUsize::new(0), n: t };
    let grabbed: Vec<Vec<usize>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..t)
            .map(|_| {
                sc.spawn(|| {
                    gate.wait(0);
                    let mut mine = Vec::new();
                    for _ in 0..each {
                        let mut v = cell.load(first).ix();
                        loop {
                            match cell.compare_exchange(Kn(v as u32), Kn(v as u32 + 1), s, f) {
                                Ok(k) => {
                                    mine.push(k.ix());
                                    break;
                                }
                                Err(k) => v = k.ix(),
                            }
                        }
                    }
                    mine
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    tr!(ctx, "{t} threads x {each} increments, {s:?}/{f:?}: {}", cell.load(SeqCst).ix());
    same!(cell.load(SeqCst).ix(), t * each, "counter after {t} x {each} increments");
    let mut all: Vec<usize> = grabbed.concat();
    all.sort();
    same!(all, (0..t * each).collect::<Vec<_>>(), "values replaced");
    Ok(Info { nontrivial: true, tags: vec!["counter"] })
}

/// Number of operations a case's program has, for shrinking outside.
pub fn describe(c: &Case) -> String {
    let p = program(c, 12);
    p.threads.iter().enumerate().map(|(t, a)| format!("thread {t}: {a:?}")).collect::<Vec<_>>().join("; ")
}

