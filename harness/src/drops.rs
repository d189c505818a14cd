//! C19: values whose creation, clones and drops are recorded, and faults injected into every
//! callback the crate can call: user functions, key conversions, clones and destructors.
use crate::case::{Case, Ctx, Info, Injected, Op, Res, SubjectFn};
use crate::key::{pick, Key, Val};
use crate::sparse::Sparse;
use crate::total::Total;
use crate::{ensure, same, tr};
use ordinal_map::map::total::OrdinalTotalArrayMap;
use ordinal_map::map::Entry;
use ordinal_map::Ordinal;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

pub const CALLBACK: u8 = 1;
pub const CLONE: u8 = 2;
pub const DROP: u8 = 4;
pub const KEY: u8 = 8;

#[derive(Default)]
struct Reg {
    /// One entry per value ever made: alive?
    alive: Vec<bool>,
    /// Alive but abandoned when a destructor panicked: allowed, see `balance`.
    lost: std::collections::HashSet<u32>,
    errors: Vec<String>,
}

thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
    /// Kinds of fault points that count, and how many of them pass before one panics.
    static ARMED: Cell<(u8, u32)> = const { Cell::new((0, 0)) };
    /// The kind of the fault that struck, 0 if none did.
    static FIRED: Cell<u8> = const { Cell::new(0) };
}

pub fn arm(mask: u8, after: u32) {
    ARMED.with(|a| a.set((mask, after)));
    FIRED.with(|f| f.set(0));
}

/// Panics if the armed fault is due. At most once per arming, never while unwinding.
pub fn point(kind: u8) {
    let (mask, left) = ARMED.with(|a| a.get());
    if mask & kind == 0 || std::thread::panicking() {
        return;
    }
    if left > 0 {
        ARMED.with(|a| a.set((mask, left - 1)));
    } else {
        ARMED.with(|a| a.set((0, 0)));
        FIRED.with(|f| f.set(kind));
        panic_any(Injected);
    }
}

const MAGIC: u32 = 0x5eed_a11e;

/// A value with an identity.
pub struct Tracked {
    id: u32,
    val: u32,
    check: u32,
    /// Gives Miri and sanitizers a resource of their own to watch.
    #[cfg(any(miri, omv_boxed))]
    boxed: Box<u32>,
}

impl Tracked {
    fn new(val: u32) -> Tracked {
        let id = REG.with(|r| {
            let r = &mut *r.borrow_mut();
            r.alive.push(true);
            r.alive.len() as u32 - 1
        });
        Tracked {
            id,
            val,
            check: id ^ val.rotate_left(7) ^ MAGIC,
            #[cfg(any(miri, omv_boxed))]
            boxed: Box::new(val),
        }
    }
    fn verify(&self, what: &str) -> bool {
        #[cfg(any(miri, omv_boxed))]
        assert_eq!(*self.boxed, self.val);
        REG.with(|r| {
            let r = &mut *r.borrow_mut();
            let e = if self.check != self.id ^ self.val.rotate_left(7) ^ MAGIC || self.id as usize >= r.alive.len() {
                format!("{what}: memory that does not hold a value")
            } else if !r.alive[self.id as usize] {
                format!("{what}: value #{} was dropped before", self.id)
            } else {
                return true;
            };
            r.errors.push(e);
            false
        })
    }
    pub fn id(&self) -> u32 {
        self.verify("observed");
        self.id
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        if self.verify("dropped") {
            REG.with(|r| r.borrow_mut().alive[self.id as usize] = false);
        }
        point(DROP);
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Tracked {
        self.verify("cloned");
        point(CLONE);
        Tracked::new(self.val)
    }
}
impl PartialEq for Tracked {
    fn eq(&self, o: &Tracked) -> bool {
        self.verify("compared");
        o.verify("compared");
        self.val == o.val
    }
}
impl Default for Tracked {
    fn default() -> Tracked {
        point(CALLBACK);
        Tracked::new(0)
    }
}
impl Debug for Tracked {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.verify("formatted");
        write!(f, "{}", self.val)
    }
}
impl Val for Tracked {
    fn mk(b: u32) -> Tracked {
        Tracked::new(b)
    }
    fn rd(&self) -> u32 {
        self.verify("read");
        self.val
    }
}

/// A key whose conversions are fault points.
#[derive(Clone, PartialEq, Eq)]
pub struct Fk<const N: usize>(pub u16);
impl<const N: usize> Debug for Fk<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "F{}", self.0)
    }
}
impl<const N: usize> Ordinal for Fk<N> {
    const ORDINAL_SIZE: usize = N;
    fn ordinal(&self) -> usize {
        point(KEY);
        self.0 as usize
    }
    fn from_ordinal(o: usize) -> Option<Self> {
        point(KEY);
        if o < N { Some(Fk(o as u16)) } else { None }
    }
}
impl<const N: usize> Key for Fk<N> {
    const N: usize = N;
    fn mk(i: usize) -> Self {
        assert!(i < N);
        Fk(i as u16)
    }
    fn ix(&self) -> usize {
        self.0 as usize
    }
}

pub fn reset() {
    arm(0, 0);
    REG.with(|r| *r.borrow_mut() = Reg::default());
}

pub fn errors() -> Result<(), String> {
    REG.with(|r| match r.borrow().errors.first() {
        Some(e) => Err(e.clone()),
        None => Ok(()),
    })
}

/// Every value alive is held exactly once by something we can see. If a destructor panicked just
/// now, values may have been abandoned (rustc itself abandons a function's return value when a
/// local's destructor panics), but nothing held may have been dropped.
fn balance(held: &[u32], when: &str) -> Result<(), String> {
    errors()?;
    let mut held = held.to_vec();
    held.sort();
    if let Some(w) = held.windows(2).find(|w| w[0] == w[1]) {
        return Err(format!("{when}: value #{} is held twice", w[0]));
    }
    let alive: Vec<u32> = REG.with(|r| {
        let r = &mut *r.borrow_mut();
        let all = r.alive.iter().enumerate().filter(|x| *x.1).map(|x| x.0 as u32);
        if FIRED.with(|f| f.replace(0)) == DROP {
            for x in all.clone() {
                if held.binary_search(&x).is_err() {
                    r.lost.insert(x);
                }
            }
        }
        all.filter(|x| !r.lost.contains(x)).collect()
    });
    if held != alive {
        if let Some(x) = alive.iter().find(|x| !held.contains(x)) {
            return Err(format!("{when}: value #{x} is neither held nor was it dropped ({} alive, {} held)", alive.len(), held.len()));
        }
        let x = held.iter().find(|x| !alive.contains(x)).unwrap();
        return Err(format!("{when}: held value #{x} was dropped"));
    }
    Ok(())
}

/// Runs another subject over tracked values and checks that nothing is left or dropped twice.
pub fn leak_free(f: SubjectFn, c: &Case, ctx: &Ctx) -> Res {
    reset();
    let r = f(c, ctx);
    errors()?;
    let r = r?;
    balance(&[], "at the end of the history")?;
    Ok(r)
}

/// Arms a fault, runs `f`, and tells whether it panicked. A panic of the crate's own is an error.
pub fn faulty<R>(mask: u8, after: u32, f: impl FnOnce() -> Result<R, String>) -> Result<Option<R>, String> {
    arm(mask, after);
    let r = catch_unwind(AssertUnwindSafe(f));
    arm_off();
    match r {
        Ok(r) => r.map(Some),
        Err(p) if p.is::<Injected>() => Ok(None),
        Err(p) => std::panic::resume_unwind(p),
    }
}
fn arm_off() {
    ARMED.with(|a| a.set((0, 0)));
}

/// Which fault this operation gets: none, or one at a random fault point of random kinds.
pub fn plan(op: &Op, n: usize) -> (u8, u32) {
    let mask = match op.k >> 5 {
        0 | 1 => 0,
        2 => CALLBACK,
        3 => CLONE,
        4 => DROP,
        5 => KEY,
        6 => CALLBACK | CLONE | DROP,
        _ => 15,
    };
    let span = match op.b >> 30 {
        0 => 3,
        1 => n as u32 + 1,
        _ => 2 * n as u32 + 2,
    };
    (mask, (op.b >> 16 & 0x3fff) % span)
}

struct Tally {
    faults: u32,
    partial: u32,
}
impl Tally {
    fn info(&self, n: usize) -> Info {
        let mut tags = vec![];
        if self.faults > 0 {
            tags.push("a fault struck");
        }
        if self.partial > 0 {
            tags.push("partly consumed iterator");
        }
        Info { nontrivial: n == 0 || self.faults > 0 || self.partial > 0, tags }
    }
}

pub fn take_some<I: DoubleEndedIterator>(it: &mut I, op: &Op, n: usize, mut got: impl FnMut(I::Item)) {
    let steps = match op.a >> 12 {
        0..=3 => 0,
        4..=9 => op.a as usize % (n + 2),
        _ => op.a as usize % 4,
    };
    for j in 0..steps {
        let x = if op.b >> (j % 16) & 1 == 0 {
            if op.b >> (j % 13 + 3) & 7 == 7 { it.nth(1) } else { it.next() }
        } else if op.b >> (j % 13 + 3) & 7 == 7 {
            it.nth_back(1)
        } else {
            it.next_back()
        };
        match x {
            Some(x) => got(x),
            None => break,
        }
    }
}

/// C19: a sparse map, a second one, an owned iterator and values in hand.
pub fn faults_sparse<K: Key, M: Sparse<K, Tracked>>(c: &Case, ctx: &Ctx) -> Res
where
    M::Own: 'static,
{
    reset();
    let n = K::N;
    let mut m = M::new();
    let mut spare: Option<M> = None;
    let mut owned: Option<M::Own> = None;
    let mut hand: Vec<Tracked> = Vec::new();
    // What the first map holds: key -> identity.
    let mut model: BTreeMap<usize, u32> = BTreeMap::new();
    let mut tally = Tally { faults: 0, partial: 0 };
    for (step, op) in c.ops.iter().enumerate() {
        let (mask, after) = plan(op, n);
        let i = if n > 0 { pick(op.a, n, c.h) } else { 0 };
        let what: &str;
        // Changes to make to the model if the operation completes.
        let mut next = model.clone();
        let v = op.b & 0xffff;
        let before = hand.len();
        let hand_cell = RefCell::new(std::mem::take(&mut hand));
        let keep = |t: Tracked| hand_cell.borrow_mut().push(t);
        let done: Option<()>;
        match if n == 0 { 20 + op.k % 12 } else { op.k % 32 } {
            0..=7 => {
                what = "insert";
                let old = next.remove(&i);
                let t = Tracked::mk(v);
                next.insert(i, t.id());
                done = faulty(mask, after, || {
                    let g = m.insert(K::mk(i), t);
                    same!(g.as_ref().map(|t| t.id()), old, "insert returned");
                    if op.b >> 16 & 1 == 0 {
                        g.map(keep);
                    }
                    Ok(())
                })?;
            }
            8 | 9 => {
                what = "remove";
                let old = next.remove(&i);
                done = faulty(mask, after, || {
                    let g = m.remove(&K::mk(i));
                    same!(g.as_ref().map(|t| t.id()), old, "remove returned");
                    if op.b >> 16 & 1 == 0 {
                        g.map(keep);
                    }
                    Ok(())
                })?;
            }
            10 | 11 => {
                what = "entry().or_insert";
                let t = Tracked::mk(v);
                let id = *next.entry(i).or_insert(t.id());
                done = faulty(mask, after, || {
                    let g = m.entry(K::mk(i)).or_insert(t).id();
                    same!(g, id, "or_insert referred to");
                    Ok(())
                })?;
            }
            12 => {
                what = "entry written";
                let t = Tracked::mk(v);
                next.insert(i, t.id());
                done = faulty(mask, after, || {
                    match m.entry(K::mk(i)) {
                        Entry::Vacant(e) => e.insert(t),
                        Entry::Occupied(mut e) => *e.get_mut() = t,
                    }
                    Ok(())
                })?;
            }
            13 => {
                what = "get_mut written";
                let t = Tracked::mk(v);
                if let Some(x) = next.get_mut(&i) {
                    *x = t.id();
                }
                done = faulty(mask, after, || {
                    if let Some(x) = m.get_mut(&K::mk(i)) {
                        *x = t;
                    }
                    Ok(())
                })?;
            }
            14 | 15 => {
                what = "retain";
                let keep_it = |k: usize| (k as u32 ^ op.b) & 1 == 0 || op.b & 2 == 2;
                let drop_all = op.b & 12 == 0;
                let ids = RefCell::new(Vec::new());
                let mut ran = false;
                done = faulty(mask, after, || {
                    ran = m.retain(|k, x| {
                        point(CALLBACK);
                        ids.borrow_mut().push(x.id());
                        if op.b >> 5 & 1 == 1 {
                            // Replace in place through the reference.
                            *x = Tracked::mk(v);
                        }
                        !drop_all && keep_it(k.ix())
                    });
                    Ok(())
                })?;
                if ran {
                    if done.is_some() {
                        let want: Vec<u32> = model.values().copied().collect();
                        same!(*ids.borrow(), want, "values the predicate saw");
                    }
                    next.retain(|k, _| !drop_all && keep_it(*k));
                    if op.b >> 5 & 1 == 1 {
                        // New identities: read them back below.
                        for k in next.clone().keys() {
                            next.insert(*k, m.get(&K::mk(*k)).map_or(u32::MAX, |t| t.id()));
                        }
                    }
                }
            }
            16 | 17 => {
                what = "drain";
                let mut taken = Vec::new();
                next.clear();
                done = faulty(mask, after, || {
                    let mut d = m.drain();
                    take_some(&mut d, op, model.len(), |(k, t)| {
                        taken.push((k.ix(), t.id()));
                        if op.b >> 20 & 1 == 0 {
                            keep(t);
                        }
                        point(CALLBACK);
                    });
                    Ok(())
                })?;
                if taken.len() < model.len() {
                    tally.partial += 1;
                }
                for (k, id) in &taken {
                    same!(model.get(k), Some(id), "drained value of key {k}");
                }
            }
            18 => {
                what = "clear";
                next.clear();
                done = faulty(mask, after, || {
                    m.clear();
                    Ok(())
                })?;
            }
            19 => {
                what = "iter_mut with a panicking body";
                done = faulty(mask, after, || {
                    for (_, x) in m.iter_mut() {
                        point(CALLBACK);
                        std::mem::swap(x, &mut *hand_cell.borrow_mut().last_mut().unwrap_or(&mut Tracked::mk(v)));
                    }
                    Ok(())
                })?;
                // Identities rotate through the hand: read them back.
                next = m.iter().map(|(k, t)| (k.ix(), t.id())).collect();
                same!(next.len(), model.len(), "entries after iter_mut");
            }
            20 | 21 => {
                what = "clone";
                done = faulty(mask, after, || {
                    let x = m.clone();
                    spare = Some(x);
                    Ok(())
                })?;
                if let (Some(_), Some(s)) = (done, &spare) {
                    let vals = |m: &M| m.iter().map(|(k, t)| (k.ix(), t.rd())).collect::<Vec<_>>();
                    same!(vals(s), vals(&m), "cloned contents");
                }
            }
            22 => {
                what = "clone_from";
                let src = spare.take().unwrap_or_else(M::new);
                done = faulty(mask, after, || {
                    m.clone_from(&src);
                    Ok(())
                })?;
                next = m.iter().map(|(k, t)| (k.ix(), t.id())).collect();
                spare = Some(src);
            }
            23..=25 => {
                what = "into_iter, partly consumed";
                let old = std::mem::replace(&mut m, spare.take().unwrap_or_else(M::new));
                let total = model.len();
                let mut seen = Vec::new();
                done = faulty(mask, after, || {
                    let mut it = old.into_iter();
                    take_some(&mut it, op, total, |(k, t)| {
                        seen.push((k.ix(), t.id()));
                        point(CALLBACK);
                        if op.b >> 20 & 1 == 0 {
                            keep(t);
                        }
                    });
                    if op.b >> 21 & 1 == 1 {
                        owned = Some(it);
                    }
                    Ok(())
                })?;
                if seen.len() < total {
                    tally.partial += 1;
                }
                for (k, id) in &seen {
                    same!(model.get(k), Some(id), "owned value of key {k}");
                }
                next = m.iter().map(|(k, t)| (k.ix(), t.id())).collect();
            }
            26 => {
                what = "owned iterator cloned or advanced";
                done = faulty(mask, after, || {
                    if let Some(it) = &mut owned {
                        if op.b & 1 == 0 {
                            let c = it.clone();
                            if op.b & 2 == 0 {
                                owned = Some(c);
                            } else {
                                c.for_each(|(_, t)| {
                                    point(CALLBACK);
                                    t.id();
                                });
                            }
                        } else {
                            take_some(it, op, n, |(_, t)| {
                                t.id();
                                point(CALLBACK);
                            });
                        }
                    }
                    Ok(())
                })?;
            }
            27 | 28 if n > 0 => {
                what = "collect";
                let items: Vec<(usize, Tracked)> = (0..op.a as usize % 9).map(|j| (pick(op.a.rotate_left(j as u32), n, c.h), Tracked::mk(v + j as u32))).collect();
                let mut want = BTreeMap::new();
                for (k, t) in &items {
                    want.insert(*k, t.id());
                }
                let mut r = None;
                done = faulty(mask, after, || {
                    r = Some(
                        items
                            .into_iter()
                            .map(|(k, t)| {
                                point(CALLBACK);
                                (K::mk(k), t)
                            })
                            .collect::<M>(),
                    );
                    Ok(())
                })?;
                if let Some(x) = r {
                    same!(x.iter().map(|(k, t)| (k.ix(), t.id())).collect::<BTreeMap<_, _>>(), want, "collected");
                    if op.b >> 21 & 1 == 1 {
                        m = x;
                        next = want;
                    }
                }
            }
            29 => {
                what = "hand emptied";
                done = faulty(mask & DROP, after, || {
                    let h = std::mem::take(&mut *hand_cell.borrow_mut());
                    drop(h);
                    Ok(())
                })?;
            }
            30 => {
                what = "swap with the spare map";
                let s = spare.take().unwrap_or_else(M::new);
                spare = Some(std::mem::replace(&mut m, s));
                next = m.iter().map(|(k, t)| (k.ix(), t.id())).collect();
                done = Some(());
            }
            _ => {
                what = "drop a map";
                let s = spare.take();
                let o = owned.take();
                done = faulty(mask, after, || {
                    drop(s);
                    drop(o);
                    Ok(())
                })?;
            }
        }
        hand = hand_cell.into_inner();
        let hit = done.is_none();
        tally.faults += hit as u32;
        tr!(ctx, "{what} key {i}{} ({} in hand)", if hit { ", struck by a panic" } else { "" }, hand.len().max(before));
        // What is held now.
        let now: Vec<(usize, u32)> = m.iter().map(|(k, t)| (k.ix(), t.id())).collect();
        let mut held: Vec<u32> = now.iter().map(|x| x.1).collect();
        if let Some(s) = &spare {
            held.extend(s.iter().map(|(_, t)| t.id()));
        }
        if let Some(o) = owned.take() {
            // Only what it yields: take everything out and put a map's iterator back.
            let items: Vec<(K, Tracked)> = o.collect();
            held.extend(items.iter().map(|x| x.1.id()));
            owned = Some(items.into_iter().collect::<M>().into_iter());
        }
        held.extend(hand.iter().map(|t| t.id()));
        balance(&held, &format!("after step {step} ({what})"))?;
        if hit {
            model = now.into_iter().collect();
            same!(m.len(), model.len(), "len after a panic in {what}");
        } else {
            model = next;
            same!(now, model.iter().map(|x| (*x.0, *x.1)).collect::<Vec<_>>(), "identities after step {step} ({what})");
        }
        for i in [i, (i + 1) % n.max(1)] {
            if i < n {
                same!(m.get(&K::mk(i)).map(|t| t.id()), model.get(&i).copied(), "get after step {step} ({what})");
            }
        }
    }
    if c.h >> 40 & 1 == 1 {
        let _ = faulty(DROP, (c.h >> 41) as u32 % (n as u32 + 2), || {
            drop(m);
            Ok(())
        })?;
    } else {
        drop(m);
    }
    drop((spare, owned, hand));
    balance(&[], "after everything was dropped")?;
    Ok(tally.info(n))
}

/// C19: a total map.
pub fn faults_total<K: Key, M: Total<K, Tracked>>(c: &Case, ctx: &Ctx) -> Res {
    reset();
    let n = K::N;
    let mut tally = Tally { faults: 0, partial: 0 };
    let mut m: M = M::new(|k| Tracked::mk(k.ix() as u32));
    let mut spare: Option<M> = None;
    let mut owned: Option<M::Own> = None;
    let mut hand: Vec<Tracked> = Vec::new();
    let ids = |m: &M| m.values().map(|t| t.id()).collect::<Vec<u32>>();
    for (step, op) in c.ops.iter().enumerate() {
        let (mask, after) = plan(op, n);
        let i = if n > 0 { pick(op.a, n, c.h) } else { 0 };
        let v = op.b & 0xffff;
        let model = ids(&m);
        let mut next = model.clone();
        let hand_cell = RefCell::new(std::mem::take(&mut hand));
        let keep = |t: Tracked| hand_cell.borrow_mut().push(t);
        let done: Option<()>;
        let what: &str;
        // Whether the identities of `m` are predicted by `next`.
        let mut exact = true;
        match if n == 0 { 10 + op.k % 22 } else { op.k % 32 } {
            0..=3 => {
                what = "insert";
                let t = Tracked::mk(v);
                next[i] = t.id();
                done = faulty(mask, after, || {
                    let g = m.insert(K::mk(i), t);
                    same!(g.id(), model[i], "insert returned");
                    if op.b >> 16 & 1 == 0 {
                        keep(g);
                    }
                    Ok(())
                })?;
            }
            4..=6 => {
                what = "write through a reference";
                let t = Tracked::mk(v);
                next[i] = t.id();
                done = faulty(mask, after, || {
                    match op.k % 3 {
                        0 => m[&K::mk(i)] = t,
                        1 => *m.get_mut(&K::mk(i)) = t,
                        _ => *m.iter_mut().nth(i).unwrap().1 = t,
                    }
                    Ok(())
                })?;
            }
            7 | 8 => {
                what = "iter_mut with a panicking body";
                exact = false;
                done = faulty(mask, after, || {
                    for (_, x) in m.iter_mut() {
                        point(CALLBACK);
                        *x = Tracked::mk(v);
                    }
                    Ok(())
                })?;
            }
            9..=14 => {
                what = "try_new";
                let fail_at = (op.a >> 4) as usize % (n + 2);
                let mut r = None;
                let mut calls = 0;
                done = faulty(mask, after, || {
                    let x = M::try_new(|k| {
                        point(CALLBACK);
                        calls += 1;
                        if k.ix() == fail_at { Err(Tracked::mk(v)) } else { Ok(Tracked::mk(k.ix() as u32)) }
                    });
                    match x {
                        Ok(x) => r = Some(x),
                        Err(e) => {
                            same!(e.rd(), v, "error value");
                            keep(e);
                        }
                    }
                    Ok(())
                })?;
                if done.is_some() {
                    ensure!(r.is_some() == (fail_at >= n), "try_new failing at {fail_at} of {n}: wrong outcome");
                    if fail_at < n {
                        tally.partial += 1;
                    }
                }
                if let Some(x) = r {
                    m = x;
                    exact = false;
                }
            }
            15 => {
                what = "new or default";
                exact = false;
                let mut r = None;
                done = faulty(mask, after, || {
                    r = Some(if op.b & 1 == 0 {
                        M::default()
                    } else {
                        M::new(|k| {
                            point(CALLBACK);
                            Tracked::mk(k.ix() as u32)
                        })
                    });
                    Ok(())
                })?;
                if let Some(x) = r {
                    spare = Some(x);
                }
            }
            16 | 17 => {
                what = "clone";
                done = faulty(mask, after, || {
                    let x = m.clone();
                    spare = Some(x);
                    Ok(())
                })?;
            }
            18 => {
                what = "clone_from";
                exact = false;
                if let Some(src) = spare.take() {
                    done = faulty(mask, after, || {
                        m.clone_from(&src);
                        Ok(())
                    })?;
                    spare = Some(src);
                } else {
                    done = Some(());
                }
            }
            19..=22 => {
                what = "into_iter, partly consumed";
                exact = false;
                let repl = spare.take().unwrap_or_else(|| M::new(|_| Tracked::mk(v)));
                let old = std::mem::replace(&mut m, repl);
                let mut seen = Vec::new();
                done = faulty(mask, after, || {
                    let mut it = old.into_iter();
                    take_some(&mut it, op, n, |(k, t)| {
                        seen.push((k.ix(), t.id()));
                        point(CALLBACK);
                        if op.b >> 20 & 1 == 0 {
                            keep(t);
                        }
                    });
                    if op.b >> 21 & 1 == 1 {
                        owned = Some(it);
                    }
                    Ok(())
                })?;
                if seen.len() < n {
                    tally.partial += 1;
                }
                for (k, id) in seen {
                    same!(id, model[k], "owned value of key {k}");
                }
            }
            23 | 24 => {
                what = "owned iterator cloned or advanced";
                done = faulty(mask, after, || {
                    if let Some(it) = &mut owned {
                        if op.b & 1 == 0 {
                            let c = it.clone();
                            if op.b & 2 == 0 {
                                owned = Some(c);
                            } else {
                                c.rev().for_each(|(_, t)| {
                                    point(CALLBACK);
                                    t.id();
                                });
                            }
                        } else {
                            take_some(it, op, n, |(_, t)| {
                                t.id();
                                point(CALLBACK);
                            });
                        }
                    }
                    Ok(())
                })?;
            }
            25 | 26 => {
                what = "into_values";
                let old = std::mem::replace(&mut m, M::new(|_| Tracked::mk(1)));
                exact = false;
                done = faulty(mask, after, || {
                    let vals = old.into_values();
                    same!(vals.iter().map(|t| t.id()).collect::<Vec<_>>(), model, "values taken out");
                    match op.b & 3 {
                        0 => vals.into_iter().for_each(|t| {
                            point(CALLBACK);
                            keep(t)
                        }),
                        1 => drop(vals),
                        _ => {
                            if let Some(x) = M::from_vec(vals) {
                                spare = Some(x);
                            }
                        }
                    }
                    Ok(())
                })?;
            }
            27 => {
                what = "into_keys";
                exact = false;
                let old = std::mem::replace(&mut m, M::new(|_| Tracked::mk(1)));
                done = faulty(mask, after, || {
                    let k = old.into_keys();
                    same!(k.count(), n, "into_keys().count()");
                    Ok(())
                })?;
            }
            28 => {
                what = "hand emptied";
                done = faulty(mask & DROP, after, || {
                    let h = std::mem::take(&mut *hand_cell.borrow_mut());
                    drop(h);
                    Ok(())
                })?;
            }
            29 => {
                what = "swap with the spare map";
                exact = false;
                if let Some(s) = &mut spare {
                    std::mem::swap(s, &mut m);
                }
                done = Some(());
            }
            _ => {
                what = "drop a map";
                let s = spare.take();
                let o = owned.take();
                done = faulty(mask, after, || {
                    drop(s);
                    drop(o);
                    Ok(())
                })?;
            }
        }
        hand = hand_cell.into_inner();
        let hit = done.is_none();
        tally.faults += hit as u32;
        tr!(ctx, "{what} key {i}{} ({} in hand)", if hit { ", struck by a panic" } else { "" }, hand.len());
        let now: Vec<(usize, u32)> = m.iter().map(|(k, t)| (k.ix(), t.id())).collect();
        same!(now.iter().map(|x| x.0).collect::<Vec<_>>(), (0..n).collect::<Vec<_>>(), "keys after step {step} ({what})");
        let mut held: Vec<u32> = now.iter().map(|x| x.1).collect();
        if let Some(s) = &spare {
            held.extend(ids(s));
        }
        // The owned iterator is watched through a clone of it being dropped, and at the end.
        let mut parked = Vec::new();
        if let Some(o) = owned.take() {
            parked = o.collect::<Vec<_>>();
            held.extend(parked.iter().map(|x| x.1.id()));
        }
        held.extend(hand.iter().map(|t| t.id()));
        balance(&held, &format!("after step {step} ({what})"))?;
        if parked.len() == n {
            let mut it = parked.into_iter().map(|x| x.1);
            owned = Some(M::new(|_| it.next().unwrap()).into_iter());
        } else {
            hand.extend(parked.into_iter().map(|x| x.1));
        }
        if !hit && exact {
            same!(now.iter().map(|x| x.1).collect::<Vec<_>>(), next, "identities after step {step} ({what})");
        }
        if n > 0 {
            same!(m.get(&K::mk(i)).id(), now[i].1, "get after step {step} ({what})");
        }
    }
    if c.h >> 40 & 1 == 1 {
        let _ = faulty(DROP, (c.h >> 41) as u32 % (n as u32 + 2), || {
            drop(m);
            Ok(())
        })?;
    } else {
        drop(m);
    }
    drop((spare, owned, hand));
    balance(&[], "after everything was dropped")?;
    Ok(tally.info(n))
}

/// C19: transformations of the total array map.
pub fn faults_transform<K: Key, const S: usize>(c: &Case, ctx: &Ctx) -> Res {
    type M<K, V, const S: usize> = OrdinalTotalArrayMap<K, V, S>;
    reset();
    let n = K::N;
    let mut tally = Tally { faults: 0, partial: 0 };
    let fresh = |b: u32| M::<K, Tracked, S>::new(|k| Tracked::mk(b + k.ix() as u32));
    let mut m = fresh(0);
    for (step, op) in c.ops.iter().enumerate() {
        let (mask, after) = plan(op, n);
        let i = if n > 0 { pick(op.a, n, c.h) } else { 0 };
        let v = op.b & 0xff;
        let model: Vec<u32> = m.values().map(|t| t.id()).collect();
        let mut same_ids = false;
        let what: &str;
        let hand: RefCell<Vec<Tracked>> = RefCell::default();
        let done: Option<()>;
        match op.k % 16 {
            0 | 1 => {
                what = "map to the same values";
                same_ids = true;
                let mut calls = Vec::new();
                let old = std::mem::replace(&mut m, fresh(v));
                done = faulty(mask, after, || {
                    m = old.map(|k, t| {
                        calls.push((k.ix(), t.id()));
                        point(CALLBACK);
                        t
                    });
                    Ok(())
                })?;
                for (k, id) in calls {
                    same!(id, model[k], "map called for key {k} with");
                }
            }
            2 | 3 => {
                what = "map_values, dropping some";
                let old = std::mem::replace(&mut m, fresh(v));
                done = faulty(mask, after, || {
                    m = old.map_values(|t| {
                        point(CALLBACK);
                        if t.rd() & 1 == op.b & 1 {
                            hand.borrow_mut().push(t);
                            Tracked::mk(v)
                        } else {
                            point(CALLBACK);
                            let x = t.clone();
                            drop(t);
                            x
                        }
                    });
                    Ok(())
                })?;
            }
            4..=6 => {
                what = "zip";
                let old = std::mem::replace(&mut m, fresh(v));
                let other = fresh(1000);
                let oids: Vec<u32> = other.values().map(|t| t.id()).collect();
                same_ids = op.b & 1 == 0;
                done = faulty(mask, after, || {
                    let z = old.zip(other);
                    for (k, x) in z.iter() {
                        same!((x.0.id(), x.1.id()), (model[k.ix()], oids[k.ix()]), "zipped values of {k:?}");
                    }
                    if op.b & 1 == 0 {
                        m = z.map_values(|(a, _)| {
                            point(CALLBACK);
                            a
                        });
                    } else {
                        let mut it = z.into_iter();
                        take_some(&mut it, op, n, |(_, (a, _))| {
                            hand.borrow_mut().push(a);
                            point(CALLBACK);
                        });
                    }
                    Ok(())
                })?;
            }
            7 => {
                what = "zip with keys that panic later, mapped to strings";
                let old = std::mem::replace(&mut m, fresh(v));
                done = faulty(mask, after, || {
                    let s = old.map(|k, t| {
                        point(CALLBACK);
                        (format!("{}:{}", k.ix(), t.rd()), t)
                    });
                    m = s.map_values(|(s, t)| {
                        point(CALLBACK);
                        assert!(s.ends_with(&t.rd().to_string()));
                        t
                    });
                    Ok(())
                })?;
                same_ids = true;
            }
            8 | 9 => {
                what = "as_mut, written";
                let t = Tracked::mk(v);
                let id = t.id();
                done = faulty(mask, after, || {
                    let mut r = m.as_mut();
                    if n > 0 {
                        **r.get_mut(&K::mk(i)) = t;
                    }
                    r.map(|_, x| {
                        point(CALLBACK);
                        x.id()
                    });
                    Ok(())
                })?;
                if n > 0 && done.is_some() {
                    same!(m.get(&K::mk(i)).id(), id, "value written through as_mut");
                }
            }
            10 => {
                what = "as_ref";
                same_ids = true;
                done = faulty(mask, after, || {
                    let r = m.as_ref();
                    let x = r.clone().map_values(|t| t.id()).into_values();
                    same!(x.to_vec(), model, "as_ref values");
                    Ok(())
                })?;
            }
            11 | 12 => {
                what = "from_array(into_values())";
                same_ids = true;
                let old = std::mem::replace(&mut m, fresh(v));
                done = faulty(mask, after, || {
                    let a = old.into_values();
                    point(CALLBACK);
                    m = M::from_array(a);
                    Ok(())
                })?;
            }
            13 => {
                what = "as_mut zipped and swapped";
                let mut other = fresh(77);
                done = faulty(mask, after, || {
                    m.as_mut().zip(other.as_mut()).map_values(|(x, y)| {
                        point(CALLBACK);
                        std::mem::swap(x, y)
                    });
                    Ok(())
                })?;
                hand.borrow_mut().extend(other.into_values());
            }
            14 => {
                what = "into_iter folded";
                let old = std::mem::replace(&mut m, fresh(v));
                done = faulty(mask, after, || {
                    if op.b & 1 == 0 {
                        old.into_iter().for_each(|(_, t)| {
                            point(CALLBACK);
                            t.id();
                        });
                    } else {
                        old.into_iter().rev().for_each(|(_, t)| {
                            point(CALLBACK);
                            hand.borrow_mut().push(t);
                        });
                    }
                    Ok(())
                })?;
            }
            _ => {
                what = "exposed array written";
                let t = Tracked::mk(v);
                done = faulty(mask, after, || {
                    if n > 0 {
                        m.values_array_mut()[i] = t;
                    }
                    Ok(())
                })?;
            }
        }
        let hit = done.is_none();
        tally.faults += hit as u32;
        tr!(ctx, "{what}{}", if hit { ", struck by a panic" } else { "" });
        let mut held: Vec<u32> = m.values().map(|t| t.id()).collect();
        if !hit && same_ids {
            same!(held, model, "identities after step {step} ({what})");
        }
        held.extend(hand.borrow().iter().map(|t| t.id()));
        balance(&held, &format!("after step {step} ({what})"))?;
        drop(hand);
    }
    drop(m);
    balance(&[], "after everything was dropped")?;
    Ok(tally.info(n))
}

/// A subject run over tracked values.
#[macro_export]
macro_rules! tracked {
    ($name:expr, $f:expr, $w:expr, $m:expr) => {{
        fn go(c: &$crate::case::Case, ctx: &$crate::case::Ctx) -> $crate::case::Res {
            $crate::drops::leak_free($f, c, ctx)
        }
        $crate::case::Subject { name: $name, f: go, weight: $w, max_ops: $m }
    }};
}

#[macro_export]
macro_rules! drops_subjects {
    () => {{
        use ordinal_map::map::total::{OrdinalTotalArrayMap as TA, OrdinalTotalMap as TH};
        use ordinal_map::map::{OrdinalArrayMap as A, OrdinalMap as H};
        use $crate::case::Subject;
        use $crate::drops::*;
        use $crate::key::{Dk, Kn, Pn};
        use $crate::{sparse, total, tracked};
        macro_rules! s {
            ($n:literal, $f:expr, $w:expr, $m:expr) => {
                Subject { name: $n, f: $f, weight: $w, max_ops: $m }
            };
        }
        vec![
            s!("OrdinalMap<Fk<0>>/faults", faults_sparse::<Fk<0>, H<Fk<0>, Tracked>>, 5, 12),
            s!("OrdinalMap<Fk<1>>/faults", faults_sparse::<Fk<1>, H<Fk<1>, Tracked>>, 40, 30),
            s!("OrdinalMap<Fk<5>>/faults", faults_sparse::<Fk<5>, H<Fk<5>, Tracked>>, 200, 40),
            s!("OrdinalMap<Fk<70>>/faults", faults_sparse::<Fk<70>, H<Fk<70>, Tracked>>, 40, 60),
            s!("OrdinalArrayMap<Fk<0>>/faults", faults_sparse::<Fk<0>, A<Fk<0>, Tracked, 0>>, 5, 12),
            s!("OrdinalArrayMap<Fk<1>>/faults", faults_sparse::<Fk<1>, A<Fk<1>, Tracked, 1>>, 40, 30),
            s!("OrdinalArrayMap<Fk<5>>/faults", faults_sparse::<Fk<5>, A<Fk<5>, Tracked, 5>>, 200, 40),
            s!("OrdinalArrayMap<Fk<70>>/faults", faults_sparse::<Fk<70>, A<Fk<70>, Tracked, 70>>, 40, 60),
            s!("OrdinalTotalMap<Fk<0>>/faults", faults_total::<Fk<0>, TH<Fk<0>, Tracked>>, 5, 12),
            s!("OrdinalTotalMap<Fk<1>>/faults", faults_total::<Fk<1>, TH<Fk<1>, Tracked>>, 40, 30),
            s!("OrdinalTotalMap<Fk<5>>/faults", faults_total::<Fk<5>, TH<Fk<5>, Tracked>>, 200, 40),
            s!("OrdinalTotalMap<Fk<70>>/faults", faults_total::<Fk<70>, TH<Fk<70>, Tracked>>, 30, 60),
            s!("OrdinalTotalArrayMap<Fk<0>>/faults", faults_total::<Fk<0>, TA<Fk<0>, Tracked, 0>>, 5, 12),
            s!("OrdinalTotalArrayMap<Fk<1>>/faults", faults_total::<Fk<1>, TA<Fk<1>, Tracked, 1>>, 40, 30),
            s!("OrdinalTotalArrayMap<Fk<5>>/faults", faults_total::<Fk<5>, TA<Fk<5>, Tracked, 5>>, 200, 40),
            s!("OrdinalTotalArrayMap<Fk<70>>/faults", faults_total::<Fk<70>, TA<Fk<70>, Tracked, 70>>, 30, 60),
            s!("OrdinalTotalArrayMap<Fk<0>>/transformations", faults_transform::<Fk<0>, 0>, 5, 12),
            s!("OrdinalTotalArrayMap<Fk<1>>/transformations", faults_transform::<Fk<1>, 1>, 40, 20),
            s!("OrdinalTotalArrayMap<Fk<6>>/transformations", faults_transform::<Fk<6>, 6>, 200, 20),
            s!("OrdinalTotalArrayMap<Fk<70>>/transformations", faults_transform::<Fk<70>, 70>, 30, 20),
            tracked!("OrdinalMap<Kn<3>>/history", sparse::hist::<Kn<3>, Tracked, H<Kn<3>, Tracked>>, 40, 40),
            tracked!("OrdinalMap<Dk>/history", sparse::hist::<Dk, Tracked, H<Dk, Tracked>>, 40, 60),
            tracked!("OrdinalArrayMap<Pn<7>>/history", sparse::hist::<Pn<7>, Tracked, A<Pn<7>, Tracked, 7>>, 40, 60),
            tracked!("OrdinalArrayMap<Kn<65>>/history", sparse::hist::<Kn<65>, Tracked, A<Kn<65>, Tracked, 65>>, 20, 60),
            tracked!("OrdinalMap<Pn<7>>/iterators", sparse::iters::<Pn<7>, Tracked, H<Pn<7>, Tracked>>, 60, 30),
            tracked!("OrdinalArrayMap<Dk>/iterators", sparse::iters::<Dk, Tracked, A<Dk, Tracked, 9>>, 60, 30),
            tracked!("OrdinalMap<Dk>/removal", sparse::removal::<Dk, Tracked, H<Dk, Tracked>>, 60, 30),
            tracked!("OrdinalArrayMap<Pn<7>>/removal", sparse::removal::<Pn<7>, Tracked, A<Pn<7>, Tracked, 7>>, 60, 30),
            tracked!("OrdinalMap<Pn<7>>/entries", sparse::entry::<Pn<7>, Tracked, H<Pn<7>, Tracked>>, 40, 30),
            tracked!("OrdinalArrayMap<Dk>/entries", sparse::entry::<Dk, Tracked, A<Dk, Tracked, 9>>, 40, 30),
            tracked!("OrdinalTotalMap<Dk>/history", total::hist::<Dk, Tracked, TH<Dk, Tracked>>, 40, 60),
            tracked!("OrdinalTotalArrayMap<Pn<7>>/history", total::hist::<Pn<7>, Tracked, TA<Pn<7>, Tracked, 7>>, 40, 60),
            tracked!("OrdinalTotalMap<Pn<7>>/iterators", total::iters::<Pn<7>, Tracked, TH<Pn<7>, Tracked>>, 60, 24),
            tracked!("OrdinalTotalArrayMap<Dk>/iterators", total::iters::<Dk, Tracked, TA<Dk, Tracked, 9>>, 60, 24),
            tracked!("OrdinalTotalMap<Dk>/construction", total::construct::<Dk, Tracked, TH<Dk, Tracked>>, 40, 1),
            tracked!("OrdinalTotalArrayMap<Pn<7>>/construction", total::construct::<Pn<7>, Tracked, TA<Pn<7>, Tracked, 7>>, 40, 1),
        ]
    }};
}
