"""Programs that use every operation with keys and values of few capabilities.

Every operation is written once as a function generic over all key and value types with the capabilities the
operation needs by itself, and no others; the compiler has to accept each. Each is then called with random key
and value types (borrowing, thread-bound, without any other trait, uninhabited, over-aligned, closures, ...),
and must do the same for all of them."""
import concurrent.futures as cf
import json
import os
import shutil

import core
import progs
from core import CheckError, sh

HEAD = """#![allow(unused, dead_code)]
use ordinal_map::map::*;
use ordinal_map::map::total::*;
use ordinal_map::map::total::{Iter as TIter, IterMut as TIterMut, IntoIter as TIntoIter, IntoIterArray as TIntoIterArray};
use ordinal_map::map::{Iter as MIter, IterMut as MIterMut, IntoIter as MIntoIter, IntoIterArray as MIntoIterArray};
use ordinal_map::set::*;
use ordinal_map::set::Iter as SIter;
use ordinal_map::{Ordinal, AtomicOrdinal, OrdinalValues};
use std::{rc::Rc, cell::{Cell, RefCell}, marker::{PhantomData, PhantomPinned}, fmt::Debug, sync::{Mutex, atomic::Ordering as O}, collections::BTreeMap};
fn dbg<T: Debug + ?Sized>(t: &T) -> bool { !format!("{t:?}").is_empty() && !format!("{t:#?}").is_empty() }
fn send<T: Send>(_: &T) {}
fn sync<T: Sync>(_: &T) {}
fn unpin<T: Unpin>(_: &T) {}
/// All items, taken from both ends in turn.
fn both<T, I: DoubleEndedIterator<Item = T>>(mut i: I) -> Vec<T> {
    let (mut a, mut b) = (vec![], vec![]);
    let (lo, hi) = i.size_hint();
    loop {
        match i.next() { Some(x) => a.push(x), None => break }
        match i.next_back() { Some(x) => b.push(x), None => break }
    }
    assert!(lo <= a.len() + b.len() && hi.is_none_or(|h| a.len() + b.len() <= h));
    b.reverse();
    a.extend(b);
    a
}
fn exact<T, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(i: I) -> Vec<T> { let n = i.len(); let x = both(i); assert_eq!(n, x.len()); x }
fn key<K: Ordinal>(i: usize) -> K { K::from_ordinal(i % K::ORDINAL_SIZE).unwrap() }
#[derive(Ordinal)] pub enum Bare { A, B { x: bool }, C(Option<Empty>, bool) }
#[derive(Ordinal)] pub enum Empty {}
#[derive(Ordinal)] pub struct Unit;
#[derive(Ordinal)] pub struct Pair<A: Ordinal, B: Ordinal>(A, B);
/// Borrows.
pub struct Tied<'t>(bool, PhantomData<&'t Cell<usize>>);
impl<'t> Ordinal for Tied<'t> {
    const ORDINAL_SIZE: usize = 2;
    fn ordinal(&self) -> usize { self.0 as usize }
    fn from_ordinal(o: usize) -> Option<Self> { if o < 2 { Some(Tied(o == 1, PhantomData)) } else { None } }
}
/// Stays on its thread, and has a destructor.
pub struct Local(Rc<u8>);
impl Drop for Local { fn drop(&mut self) { assert!(*self.0 < 3) } }
impl Ordinal for Local {
    const ORDINAL_SIZE: usize = 3;
    fn ordinal(&self) -> usize { *self.0 as usize }
    fn from_ordinal(o: usize) -> Option<Self> { if o < 3 { Some(Local(Rc::new(o as u8))) } else { None } }
}
pub struct Plain(u64);
#[repr(align(256))] pub struct Wide(u8);
/// Values without size: over-aligned, and with a destructor.
#[repr(align(64))] pub struct Mark;
pub struct Token;
impl Drop for Token { fn drop(&mut self) { std::hint::black_box(()); } }
pub enum Void {}
pub enum Large { Small(u8), Big([u64; 200]) }
#[derive(Clone)] pub struct Cl(Box<usize>);
#[derive(Debug)] pub struct De(Box<usize>);
#[derive(Default)] pub struct Df(Box<usize>);
pub struct Dropping<'t>(usize, &'t Cell<usize>);
impl<'t> Drop for Dropping<'t> { fn drop(&mut self) { self.1.set(self.1.get() - 1) } }
pub trait Anything { fn number(&self) -> usize; }
impl Anything for usize { fn number(&self) -> usize { *self } }
pub type Fun<'t> = Box<dyn Fn() -> usize + 't>;
"""
# What values may borrow. The destructor of one type counts down here.
ENV = """    let live = &Cell::new(usize::MAX / 2); let mutex = &Mutex::new(Plain(7)); let number = &5usize; let text = &String::from("some text, long enough");
"""

# Key types: text, number of values, capabilities beyond Ordinal.
# C Clone, D Debug, F Default, P PartialEq, S Send, Y Sync, N Unpin
KEYS = [("Bare", 5, "SYN"), ("Empty", 0, "SYN"), ("Unit", 1, "SYN"), ("Tied<'_>", 2, "N"), ("Local", 3, "N"), ("bool", 2, "SYNDPC"), ("u8", 256, "SYNDPC"),
        ("std::convert::Infallible", 0, "SYNDPC"), ("std::cmp::Ordering", 3, "SYNDPC"), ("()", 1, "SYNDPC"), ("std::num::NonZeroI8", 255, "SYNDPC")]
# Value types: text, how to make one from a number `i`, how to read it back from `r` (None: it holds no number), capabilities.
VALS = [("Plain", "Plain(i as u64)", "r.0 as usize", "SYN"), ("Wide", "Wide(i as u8)", "r.0 as usize", "SYN"), ("Cl", "Cl(Box::new(i))", "*r.0", "CSYN"), ("De", "De(Box::new(i))", "*r.0", "DSYN"),
        ("Df", "Df(Box::new(i))", "*r.0", "FSYN"), ("Dropping<'_>", "{ live.set(live.get() + 1); Dropping(i, live) }", "r.0", "N"), ("&mut u64", "Box::leak(Box::new(i as u64))", "**r as usize", "DSYN"),
        ("&str", "&text[..i % 20]", "r.len()", "CDFSYN"), ("Fun<'_>", "Box::new(move || i + *number) as Fun<'_>", "r() - 5", "N"),
        ("Box<dyn Anything + '_>", "Box::new(i) as Box<dyn Anything + '_>", "r.number()", "N"), ("Box<dyn Anything + Send + Sync + '_>", "Box::new(i) as Box<dyn Anything + Send + Sync + '_>", "r.number()", "SYN"),
        ("PhantomPinned", "PhantomPinned", None, "CDFSY"), ("Cell<usize>", "Cell::new(i)", "r.get()", "CDFSN"), ("RefCell<Plain>", "RefCell::new(Plain(i as u64))", "r.borrow().0 as usize", "SN"),
        ("Rc<Plain>", "Rc::new(Plain(i as u64))", "r.0 as usize", "CN"), ("Mutex<Plain>", "Mutex::new(Plain(i as u64))", "r.lock().unwrap().0 as usize", "SYN"), ("*const u8", "i as *const u8", "*r as usize", "CDN"),
        ("fn(usize) -> usize", "(|x| x + 1) as fn(usize) -> usize", None, "CDSYN"), ("()", "()", None, "CDFSYN"), ("[Plain; 100]", "std::array::from_fn(|_| Plain(i as u64))", "r[99].0 as usize", "SYN"),
        ("Large", "if i % 2 == 0 { Large::Small(i as u8) } else { Large::Big([i as u64; 200]) }", "match r { Large::Small(x) => *x as usize, Large::Big(x) => x[199] as usize }", "SYN"),
        ("std::sync::mpsc::Sender<usize>", "std::sync::mpsc::channel().0", None, "CDSYN"), ("std::slice::Iter<'_, u8>", "text.as_bytes()[..i % 20].iter()", "r.len()", "CDFSYN"), ("std::str::Chars<'_>", "text[..i % 20].chars()", "r.clone().count()", "CDSYN"),
        ("String", "i.to_string()", "r.parse::<usize>().unwrap()", "CDFSYN"), ("PhantomData<&Cell<u8>>", "PhantomData", None, "CDFN"), ("std::sync::MutexGuard<'_, Plain>", None, None, "YN"), ("Void", None, None, "SYN"),
        ("core::pin::Pin<Box<PhantomPinned>>", "Box::pin(PhantomPinned)", None, "CDFSYN"), ("Mark", "Mark", None, "SYN"), ("Token", "Token", None, "SYN"), ("[u64; 0]", "[]", None, "CDFSYN"), ("[Wide; 0]", "[]", None, "FSYN"), ("f64", "i as f64", "*r as usize", "CDFSYN"), ("std::rc::Weak<u8>", "std::rc::Weak::new()", None, "CDFN"),
        ("std::mem::ManuallyDrop<Plain>", "std::mem::ManuallyDrop::new(Plain(i as u64))", "r.0 as usize", "SYN"), ("std::ops::Range<usize>", "i..i + 1", "r.start", "CDFSYN")]
BOUND = {"C": "Clone", "D": "Debug", "F": "Default", "S": "Send", "Y": "Sync", "N": "Unpin", "P": "PartialEq"}


def meet(a, b):
    return "".join(x for x in a if x in b)


def any_key(r, depth=2):
    t, n, c = k = r.choice(KEYS)
    if depth == 0 or r.random() < 0.4:
        return k
    t2, n2, c2 = any_key(r, depth - 1)
    t, n, c = k = any_key(r, depth - 1)
    m = meet(c, c2)
    out = r.choice([("Option<%s>" % t, n + 1, c), ("Box<%s>" % t, n, c if "N" in c else c + "N"), ("Result<%s, %s>" % (t, t2), n + n2, m), ("(%s, %s)" % (t, t2), n * n2, m),
                    ("[%s; 2]" % t, n * n, c), ("[%s; 0]" % t, 1, c), ("Pair<%s, %s>" % (t, t2), n * n2, meet(m, "SYN")), ("either::Either<%s, %s>" % (t, t2), n + n2, m), ("(%s,)" % t, n, c)])
    return out if out[1] <= 600 else k


def any_val(r, depth=2):
    t, mk, rd, c = v = r.choice(VALS)
    if depth == 0 or r.random() < 0.5:
        return v
    t, mk, rd, c = any_val(r, depth - 1)
    t2, mk2, rd2, c2 = any_val(r, depth - 1)
    sub = lambda e, f="x": None if rd is None else e.replace("{rd}", "{ let r = x; %s }" % rd)
    f = r.choice(["option", "vec", "box", "pair", "array", "result", "map", "phantom", "rcell"])
    has = lambda x: c + "".join(y for y in x if y not in c)
    if f == "option":
        return ("Option<%s>" % t, "Some(%s)" % mk if mk else "None", sub("r.as_ref().map_or(0, |x| {rd})"), has("F"))
    if f == "vec":
        return ("Vec<%s>" % t, "vec![%s]" % mk if mk else "Vec::new()", sub("{ let x = &r[0]; {rd} }"), has("F"))
    if f == "phantom":
        return ("PhantomData<%s>" % t, "PhantomData", None, has("CDF"))
    if f == "result":
        return ("Result<u8, %s>" % t, "Err(%s)" % mk if mk else "Ok(1)", sub("r.as_ref().err().map_or(0, |x| {rd})"), c.replace("F", ""))
    if mk is None:
        return v
    if f == "box":
        return ("Box<%s>" % t, "Box::new(%s)" % mk, sub("{ let x = &**r; {rd} }"), has("N"))
    if f == "pair" and mk2:
        return ("(%s, %s)" % (t, t2), "(%s, %s)" % (mk, mk2), sub("{ let x = &r.0; {rd} }"), meet(c, c2))
    if f == "array":
        return ("[%s; 3]" % t, "std::array::from_fn(|_| %s)" % mk, sub("{ let x = &r[2]; {rd} }"), c)
    if f == "map":
        return ("OrdinalMap<Unit, %s>" % t, "{ let mut m = OrdinalMap::new(); m.insert(Unit, %s); m }" % mk, sub("{ let x = m_get(r); {rd} }").replace("m_get(r)", "r.get(&Unit).unwrap()") if rd else None, meet(has("FN"), "CFSYN"))
    if f == "rcell":
        return ("Cell<Option<%s>>" % t, "Cell::new(Some(%s))" % mk, None, meet(has("F"), "SFN"))
    return v


# Operations: containers, capabilities of K, of V, whether a key is needed (so the key type must not be empty), statements.
# `m` is a container holding up to three entries, made by `full()`; `v(i)` makes a value, `rd(&v)` reads its number (modulo what it can hold).
OPS = []
M, TM, ST = ("H", "A"), ("TH", "TA"), ("S", "SA", "S64")


def op(cont, kc, vc, *bodies):
    for c in cont:
        for b in bodies:
            OPS.append((c, kc, vc, b))


op(M, "", "", "m = <T>::new(); assert!(m.is_empty());", "m = <T>::default(); assert!(m.is_empty());", "m = [(key(1), v(1))].into_iter().collect(); assert_eq!(m.len(), 1);",
   "m = vec![(key(0), v(0)), (key(1), v(1))].into_iter().collect::<T>(); assert!(m.contains_key(&key(1)));", "m = std::iter::from_fn(|| None).collect(); assert!(m.is_empty());",
   "let a: Option<&V> = m.get(&key(0)); assert_eq!(rd(a.unwrap()), rd(&v(0)));", "let a: Option<&mut V> = m.get_mut(&key(0)); *a.unwrap() = v(7); assert_eq!(rd(m.get(&key(0)).unwrap()), rd(&v(7)));",
   "let b: bool = m.contains_key(&key(0)); assert!(b);", "let n: usize = m.len(); assert_eq!(n, K::ORDINAL_SIZE.min(3));", "let b: bool = m.is_empty(); assert_eq!(b, K::ORDINAL_SIZE == 0);",
   "let old: Option<V> = m.insert(key(0), v(9)); assert_eq!(rd(&old.unwrap()), rd(&v(0)));", "let old: Option<V> = m.remove(&key(0)); assert_eq!(rd(&old.unwrap()), rd(&v(0))); assert!(m.get(&key(0)).is_none());", "m.clear(); assert!(m.is_empty());",
   "m.remove(&key(0)); let r: &mut V = m.entry(key(0)).or_insert(v(5)); assert_eq!(rd(r), rd(&v(5))); *r = v(6); assert_eq!(rd(&m.remove(&key(0)).unwrap()), rd(&v(6)));",
   "let e: Entry<'_, K, V> = m.entry(key(0)); let k: &K = e.key(); assert_eq!(k.ordinal(), 0);",
   "match m.entry(key(0)) { Entry::Occupied(mut o) => { let k: &K = o.key(); let x: &V = o.get(); assert_eq!((k.ordinal(), rd(x)), (0, rd(&v(0)))); let w: &mut V = o.get_mut(); *w = v(8); } Entry::Vacant(_) => panic!() } assert_eq!(rd(m.get(&key(0)).unwrap()), rd(&v(8)));",
   "m.clear(); match m.entry(key(0)) { Entry::Vacant(e) => { let k: &K = e.key(); e.insert(v(3)); } Entry::Occupied(_) => panic!() } assert_eq!(rd(m.get(&key(0)).unwrap()), rd(&v(3)));",
   "let i: MIter<'_, K, V> = m.iter(); let j = i.clone(); let x: Vec<(K, &V)> = both(j); assert!(x.iter().enumerate().all(|(i, (k, w))| k.ordinal() == i && rd(w) == rd(&v(i)))); assert_eq!(x.len(), m.len());",
   "let i: MIterMut<'_, K, V> = m.iter_mut(); let x: Vec<(K, &mut V)> = both(i); for (k, w) in x { assert_eq!(rd(w), rd(&v(k.ordinal()))); *w = v(4); }",
   "let i: Keys<'_, K, V> = m.keys(); let j = i.clone(); let x: Vec<K> = both(j); assert!(x.iter().enumerate().all(|(i, k)| k.ordinal() == i)); assert_eq!(x.len(), m.len());",
   "let i: Values<'_, K, V> = m.values(); let j = i.clone(); let x: Vec<&V> = both(j); assert!(x.iter().enumerate().all(|(i, w)| rd(w) == rd(&v(i)))); assert_eq!(x.len(), m.len());",
   "let x: Vec<&mut V> = both(m.values_mut()); for (i, w) in x.into_iter().enumerate() { assert_eq!(rd(w), rd(&v(i))); *w = v(4); }",
   "let i: Drain<'_, K, V> = m.drain(); let x: Vec<(K, V)> = both(i); assert!(x.iter().all(|(k, w)| rd(w) == rd(&v(k.ordinal())))); assert!(m.is_empty());",
   "let x: Vec<(K, V)> = both(m.into_iter()); assert!(x.iter().all(|(k, w)| rd(w) == rd(&v(k.ordinal())))); assert_eq!(x.len(), K::ORDINAL_SIZE.min(3));",
   "for (k, w) in &m { let k: K = k; let w: &V = w; assert_eq!(rd(w), rd(&v(k.ordinal()))); }", "for (k, w) in m { let k: K = k; let w: V = w; assert_eq!(rd(&w), rd(&v(k.ordinal()))); }",
   "for (k, w) in m.iter_mut() { let (k, w): (K, &mut V) = (k, w); *w = v(k.ordinal() + 1); }", "let c = std::mem::take(&mut m); assert!(m.is_empty());", "let n = m.len(); let other: T = m.into_iter().map(|(k, v)| (k, v)).collect(); assert_eq!(other.len(), n);",
   "let b = Box::new(m); let mut c: T = *b; c.remove(&key(0)); c.insert(key(0), v(1));", "let c = RefCell::new(m); c.borrow_mut().insert(key(0), v(2)); assert_eq!(rd(c.borrow().get(&key(0)).unwrap()), rd(&v(2)));",
   "let mut add = |i| m.insert(key(i), v(i)); add(0); add(1);", "let mut d = m.drain(); d.next(); drop(d); assert!(m.is_empty());", "let mut i = m.into_iter(); i.next_back(); drop(i);", "std::mem::forget(m.drain());")
op(("A",), "", "", "let mut seen = Vec::new(); m.retain(|k: K, w: &mut V| { assert_eq!(rd(w), rd(&v(k.ordinal()))); seen.push(k); *w = v(1); true }); assert_eq!(seen.len(), m.len());", "m.retain(|_, w| { *w = v(2); false }); assert!(m.is_empty());",
   "let x: MIntoIterArray<K, V, N> = m.into_iter();")
op(("H",), "", "", "let x: MIntoIter<K, V> = m.into_iter();")
op(M, "", "C", "let c: T = m.clone(); m.clear(); assert!(c.iter().all(|(k, w)| rd(w) == rd(&v(k.ordinal())))); assert_eq!(c.len(), K::ORDINAL_SIZE.min(3));", "let i = m.into_iter(); let j = i.clone(); let (a, b) = (both(i), both(j)); assert_eq!(a.len(), b.len());", "let o = full(v); m.clone_from(&o);")
op(M, "D", "D", "assert!(dbg(&m));", "assert!(dbg(&m.iter()));", "assert!(dbg(&m.iter_mut()));", "assert!(dbg(&m.into_iter()));")
op(M, "D", "", "assert!(dbg(&m.keys()));")
op(M, "", "D", "assert!(dbg(&m.values()));", "assert!(dbg(&m.values_mut()));")
op(TM, "", "D", "assert!(dbg(&m.values()));")
op(TM, "D", "", "assert!(dbg(&m.keys()));")
op(M + TM, "SY", "S", "send(&m);", "send(&m.iter_mut());", "std::thread::scope(|s| { s.spawn(move || drop(m)); });")
op(M + TM, "SY", "SY", "sync(&m);", "send(&m.iter());", "sync(&m.iter());", "sync(&m.iter_mut());", "send(&m.values()); sync(&m.values());", "send(&m.keys()); sync(&m.keys());", "{ let i = m.values_mut(); send(&i); sync(&i); }",
   "let it = m.into_iter(); send(&it); sync(&it);", "std::thread::scope(|s| { let h = s.spawn(|| m.iter().count()); assert_eq!(m.iter().count(), h.join().unwrap()); });")
op(M, "SY", "SY", "let e = m.entry(key(0)); send(&e); sync(&e);", "let d = m.drain(); send(&d); sync(&d);", "std::thread::scope(|s| { s.spawn(move || { m.remove(&key(0)); m.len() }); });")
op(M + TM, "N", "N", "unpin(&m);", "unpin(&m.into_iter());")
op(M + TM, "", "", "let mut m2 = m; m = full(v); std::mem::swap(&mut m2, &mut m);", "let x: Vec<T> = vec![m];", "let r: Rc<T> = Rc::new(m); assert_eq!(Rc::clone(&r).len(), r.len());", "let x: Option<T> = Some(m); assert!(x.is_some());")
op(TM, "", "", "m = <T>::new(|k: K| -> V { v(k.ordinal()) });", "let mut n = 0; m = <T>::new(|k| { n += 1; v(k.ordinal()) }); assert_eq!(n, K::ORDINAL_SIZE);", "let mut n = 0; let r: Result<T, V> = <T>::try_new(|k: K| { n += 1; Err(v(n)) }); assert_eq!(r.is_ok(), n == 0);",
   "let r: Result<T, K> = <T>::try_new(|k| if k.ordinal() < 2 { Ok(v(0)) } else { Err(k) }); assert_eq!(r.err().map_or(0, |k| k.ordinal()), if K::ORDINAL_SIZE > 2 { 2 } else { 0 });", "let n: usize = m.len(); assert_eq!(n, K::ORDINAL_SIZE);",
   "let b: bool = m.is_empty(); assert_eq!(b, K::ORDINAL_SIZE == 0);", "let a: &V = m.get(&key(1)); assert_eq!(rd(a), rd(&v(1 % K::ORDINAL_SIZE)));", "let a: &mut V = m.get_mut(&key(0)); *a = v(9); assert_eq!(rd(m.get(&key(0))), rd(&v(9)));",
   "let old: V = m.insert(key(0), v(5)); assert_eq!((rd(&old), rd(&m[&key(0)])), (rd(&v(0)), rd(&v(5))));", "let a: &V = &m[&key(0)]; assert_eq!(rd(a), rd(&v(0)));", "m[&key(0)] = v(3); assert_eq!(rd(&m[&key(0)]), rd(&v(3)));",
   "let x: Vec<(K, &V)> = exact(m.iter().clone()); assert!(x.iter().enumerate().all(|(i, (k, w))| k.ordinal() == i && rd(w) == rd(&v(i)))); assert_eq!(x.len(), m.len());",
   "let x: Vec<(K, &mut V)> = exact(m.iter_mut()); for (k, w) in x { assert_eq!(rd(w), rd(&v(k.ordinal()))); *w = v(1); }", "let x: Vec<K> = exact(m.keys().clone()); assert_eq!(x.len(), m.len());", "let x: Vec<K> = exact(m.into_keys()); assert_eq!(x.len(), K::ORDINAL_SIZE);",
   "let x: Vec<&V> = exact(m.values().clone()); assert!(x.iter().enumerate().all(|(i, w)| rd(w) == rd(&v(i)))); assert_eq!(x.len(), m.len());", "let x: Vec<&mut V> = exact(m.values_mut()); for w in x { *w = v(2); }",
   "for (k, w) in &m { let k: K = k; let w: &V = w; assert_eq!(rd(w), rd(&v(k.ordinal()))); }", "for (k, w) in m { let k: K = k; let w: V = w; assert_eq!(rd(&w), rd(&v(k.ordinal()))); }", "let x: Vec<(K, V)> = exact(m.into_iter()); assert_eq!(x.len(), K::ORDINAL_SIZE);",
   "let s: &[V] = m.values().as_slice(); assert_eq!(s.len(), m.len());", "let b = Box::new(m); let mut c: T = *b; c.insert(key(0), v(4));", "let i: TIter<'_, K, V> = m.iter();", "let i: TIterMut<'_, K, V> = m.iter_mut();", "let mut i = m.into_iter(); i.next_back(); drop(i);")
op(("TH",), "", "", "let b: Box<[V]> = m.into_values(); assert!(b.iter().enumerate().all(|(i, w)| rd(w) == rd(&v(i))));", "let i: TIntoIter<K, V> = m.into_iter();")
op(("TA",), "", "", "let b: [V; N] = m.into_values(); assert!(b.iter().enumerate().all(|(i, w)| rd(w) == rd(&v(i))));", "let i: TIntoIterArray<K, V, N> = m.into_iter();", "let a: &[V; N] = m.values_array(); assert_eq!(a.len(), K::ORDINAL_SIZE);",
   "let a: &mut [V; N] = m.values_array_mut(); for w in a { *w = v(6); } assert!(m.values().all(|w| rd(w) == rd(&v(6))));", "let a: [V; N] = m.into_values(); m = OrdinalTotalArrayMap::from_array(a); assert!(m.iter().all(|(k, w)| rd(w) == rd(&v(k.ordinal()))));",
   "let r: OrdinalTotalArrayMap<K, &V, N> = m.as_ref(); assert!(r.iter().all(|(k, w)| rd(w) == rd(&v(k.ordinal()))));", "let r: OrdinalTotalArrayMap<K, &mut V, N> = m.as_mut(); for (k, w) in r { *w = v(k.ordinal() + 1); } assert!(m.iter().all(|(k, w)| rd(w) == rd(&v(k.ordinal() + 1))));",
   "let r: OrdinalTotalArrayMap<K, K, N> = m.map(|k: K, w: V| { assert_eq!(rd(&w), rd(&v(k.ordinal()))); k }); assert!(r.iter().all(|(k, w)| k.ordinal() == w.ordinal()));",
   "let r: OrdinalTotalArrayMap<K, Option<V>, N> = m.map_values(|w: V| Some(w)); assert!(r.values().all(|w| w.is_some()));", "let mut n = 0; m = m.map(|k, w| { n += 1; w }); assert_eq!(n, K::ORDINAL_SIZE);",
   "let r: OrdinalTotalArrayMap<K, (V, &V), N> = { let o = &full(v); m.zip(o.as_ref()).map_values(|(a, b)| { assert_eq!(rd(&a), rd(b)); (a, b) }); return };",
   "m.as_ref().zip(m.as_ref()).map_values(|(a, b): (&V, &V)| assert!(std::ptr::eq(a, b)));", "let r: OrdinalTotalArrayMap<K, &mut V, N> = m.as_mut().map_values(|w| w); for (_, w) in r { *w = v(1); }",
   "let x: OrdinalTotalArrayMap<K, Box<dyn FnOnce() -> V + '_>, N> = m.map_values(|w| -> Box<dyn FnOnce() -> V + '_> { Box::new(move || w) }); for (k, f) in x { assert_eq!(rd(&f()), rd(&v(k.ordinal()))); }",
   "let r: Result<OrdinalTotalArrayMap<K, &V, N>, ()> = OrdinalTotalArrayMap::try_new(|k| Ok(m.get(&k))); assert!(r.is_ok());", "let r: OrdinalTotalArrayMap<K, Cell<Option<V>>, N> = m.map_values(|w| Cell::new(Some(w)));")
op(TM, "", "C", "let c: T = m.clone(); drop(m); assert!(c.iter().all(|(k, w)| rd(w) == rd(&v(k.ordinal()))));", "let i = m.into_iter(); let j = i.clone(); assert_eq!(exact(i).len(), exact(j).len());", "let o = full(v); m.clone_from(&o);")
op(TM, "", "F", "m = Default::default(); assert_eq!(m.values().count(), K::ORDINAL_SIZE);", "let c = std::mem::take(&mut m);")
op(TM, "D", "D", "assert!(dbg(&m));", "assert!(dbg(&m.iter()));", "assert!(dbg(&m.iter_mut()));", "assert!(dbg(&m.into_iter()));")

op(ST, "", "", "m = <T>::new(); if K::ORDINAL_SIZE > 0 { assert!(!m.contains(&K::from_ordinal(0).unwrap())); }", "m = <T>::default(); if K::ORDINAL_SIZE > 0 { assert!(!m.contains(&K::from_ordinal(0).unwrap())); }",
   "let b: bool = m.contains(&key(0)); assert!(b);", "let b: bool = m.insert(key(0)); assert!(!b);", "m = [key(0)].into_iter().collect(); assert!(m.contains(&key(0)));", "m = vec![key(0), key(1)].into_iter().collect::<T>(); assert!(m.contains(&key(1)));",
   "let c: T = m.clone(); m = <T>::new(); m.insert(key(0)); assert!(c.contains(&key(0)));", "let c = std::mem::take(&mut m);", "m = std::iter::empty().collect();", "let mut m2 = m; m = full(); std::mem::swap(&mut m2, &mut m);")
op(("S",), "", "", "let i: SIter<'_, K> = m.iter(); let j = i.clone(); let x: Vec<K> = both(j); assert!(x.iter().enumerate().all(|(i, k)| k.ordinal() == i)); assert_eq!(x.len(), K::ORDINAL_SIZE.min(3));")
op(("S64",), "", "", "let i = m.iter(); let j = i.clone(); let x: Vec<K> = exact(j); assert!(x.iter().enumerate().all(|(i, k)| k.ordinal() == i)); assert_eq!(x.len(), K::ORDINAL_SIZE.min(3));", "m = <T>::all(); assert_eq!(m.iter().len(), K::ORDINAL_SIZE);",
   "let i = <T>::all().iter(); assert_eq!(i.len(), K::ORDINAL_SIZE);")
op(("S64",), "P", "", "let b: bool = m == m.clone(); assert!(b); if K::ORDINAL_SIZE > 3 { assert!(m != <T>::all()); }")
op(ST, "D", "", "assert!(dbg(&m));")
op(("S", "S64"), "D", "", "assert!(dbg(&m.iter()));")
op(ST, "SY", "", "send(&m); sync(&m);", "std::thread::scope(|s| { s.spawn(move || drop(m)); });")
op(("S", "S64"), "SY", "", "let i = m.iter(); send(&i); sync(&i);")
op(ST, "N", "", "unpin(&m);")
op(("AT",), "", "", "let x: K = m.load(O::SeqCst); assert_eq!(x.ordinal(), 0);", "m.store(key(1), O::Release); assert_eq!(m.load(O::Acquire).ordinal(), 1 % K::ORDINAL_SIZE);",
   "let r: Result<K, K> = m.compare_exchange(key(0), key(1), O::AcqRel, O::Acquire); assert_eq!(r.ok().unwrap().ordinal(), 0);", "m = AtomicOrdinal::new(key(1));")
op(("AT",), "D", "", "assert!(dbg(&m));")
op(("AT",), "SY", "", "send(&m); sync(&m);", "std::thread::scope(|s| { s.spawn(|| m.store(key(0), O::Relaxed)); m.load(O::Relaxed); });")
op(("AT",), "N", "", "unpin(&m);")
op(("VAL",), "", "", "let x: Vec<K> = exact(m); assert!(x.iter().enumerate().all(|(i, k)| k.ordinal() == i)); assert_eq!(x.len(), K::ORDINAL_SIZE);", "let j = m.clone(); m.next(); assert_eq!(j.len(), K::ORDINAL_SIZE);")
op(("VAL",), "D", "", "assert!(dbg(&m));")
op(("VAL",), "SY", "", "send(&m); sync(&m);")
op(("K",), "", "", *["let n: usize = <{W}>::ORDINAL_SIZE; if let Some(a) = <{W}>::from_ordinal(n / 2) { assert_eq!(a.ordinal(), n / 2); } assert_eq!(<{W}>::from_ordinal(n).is_none(), true); let x: OrdinalValues<{W}> = <{W}>::all_values(); assert_eq!(x.len(), n);".replace("{W}", w)
   for w in ("K", "Option<K>", "Result<K, K>", "Box<K>", "[K; 2]", "[K; 0]", "(K,)", "(K, K)", "(K, bool, K)", "either::Either<K, K>", "Pair<K, K>", "Option<Box<[K; 1]>>")])

TYPES = {"H": "OrdinalMap<K, V>", "A": "OrdinalArrayMap<K, V, N>", "TH": "OrdinalTotalMap<K, V>", "TA": "OrdinalTotalArrayMap<K, V, N>", "S": "OrdinalSet<K>", "SA": "OrdinalArraySet<K, N>", "S64": "OrdinalSet64<K>",
         "AT": "AtomicOrdinal<K>", "VAL": "OrdinalValues<K>"}
FULL = {"sparse": "let full = |v: &dyn Fn(usize) -> V| { let mut m = <T>::new(); for i in 0..K::ORDINAL_SIZE.min(3) { m.insert(key(i), v(i)); } m }; let mut m = full(v);",
        "total": "let full = |v: &dyn Fn(usize) -> V| <T>::new(|k: K| v(k.ordinal())); let mut m = full(v);",
        "set": "let full = || { let mut m = <T>::new(); for i in 0..K::ORDINAL_SIZE.min(3) { m.insert(key(i)); } m }; let mut m = full();",
        "AT": "let mut m = AtomicOrdinal::<K>::new(key(0));", "VAL": "let mut m = K::all_values();", "K": ""}
KIND = {"H": "sparse", "A": "sparse", "TH": "total", "TA": "total", "S": "set", "SA": "set", "S64": "set"}

# Signatures that promise more than calls show: lifetimes of results, covariance, constness.
HM, AM, THM, TAM = "OrdinalMap<K, V>", "OrdinalArrayMap<K, V, N>", "OrdinalTotalMap<K, V>", "OrdinalTotalArrayMap<K, V, N>"
SIGS = []
for t in (HM, AM):
    n = ", const N: usize" if "N" in t else ""
    SIGS += ["fn {f}<'y, K: Ordinal, V%s>(m: &'y mut %s, k: &K) -> &'y mut V { m.get_mut(k).unwrap() }" % (n, t), "fn {f}<'y, K: Ordinal, V%s>(m: &'y %s, k: &K) -> &'y V { m.get(k).unwrap() }" % (n, t),
             "fn {f}<'y, K: Ordinal, V%s>(m: &'y %s) -> Vec<&'y V> { m.values().collect() }" % (n, t), "fn {f}<'y, K: Ordinal, V%s>(m: &'y mut %s, k: K, v: V) -> &'y mut V { m.entry(k).or_insert(v) }" % (n, t),
             "fn {f}<'y, K: Ordinal, V%s>(m: &'y mut %s) -> Vec<(K, &'y mut V)> { m.iter_mut().collect() }" % (n, t), "fn {f}<'y, K: Ordinal, V%s>(m: &'y mut %s) -> Vec<&'y mut V> { m.values_mut().collect() }" % (n, t),
             "fn {f}<'y, K: Ordinal, V%s>(m: &'y mut %s) -> Drain<'y, K, V> { m.drain() }" % (n, t), "fn {f}<'y, K: Ordinal, V%s>(m: &'y %s) -> (MIter<'y, K, V>, Keys<'y, K, V>, Values<'y, K, V>) { (m.iter(), m.keys(), m.values()) }" % (n, t),
             "fn {f}<'y, K: Ordinal, V%s>(m: &'y %s) -> MIter<'y, K, V> { m.into_iter() }" % (n, t)]
for t in (THM, TAM):
    n = ", const N: usize" if "N" in t else ""
    SIGS += ["fn {f}<'y, K: Ordinal, V%s>(m: &'y mut %s, k: &K) -> &'y mut V { m.get_mut(k) }" % (n, t), "fn {f}<'y, K: Ordinal, V%s>(m: &'y %s, k: &K) -> &'y V { m.get(k) }" % (n, t),
             "fn {f}<'y, K: Ordinal, V%s>(m: &'y %s) -> (TIter<'y, K, V>, std::slice::Iter<'y, V>) { (m.iter(), m.values()) }" % (n, t), "fn {f}<'y, K: Ordinal, V%s>(m: &'y mut %s) -> Vec<(K, &'y mut V)> { m.iter_mut().collect() }" % (n, t),
             "fn {f}<'y, K: Ordinal, V%s>(m: &'y mut %s) -> std::slice::IterMut<'y, V> { m.values_mut() }" % (n, t), "fn {f}<K: Ordinal, V%s>(m: &%s) -> OrdinalValues<K> { m.keys() }" % (n, t),
             "const fn {f}<K: Ordinal, V%s>(m: &%s) -> usize { if m.is_empty() { 0 } else { m.len() } }" % (n, t), "fn {f}<'y, K: Ordinal, V%s>(m: &'y %s, k: &'y K) -> &'y V { &m[k] }" % (n, t)]
SIGS += ["fn {f}<'y, K: Ordinal, V, const N: usize>(m: &'y mut %s) -> OrdinalTotalArrayMap<K, &'y mut V, N> { m.as_mut() }" % TAM, "fn {f}<'y, K: Ordinal, V, const N: usize>(m: &'y %s) -> OrdinalTotalArrayMap<K, &'y V, N> { m.as_ref() }" % TAM,
         "fn {f}<'y, K: Ordinal, V, const N: usize>(m: &'y mut %s) -> &'y mut [V; N] { m.values_array_mut() }" % TAM, "fn {f}<'y, K: Ordinal, V, const N: usize>(m: &'y %s) -> &'y [V; N] { m.values_array() }" % TAM,
         "fn {f}<'y, K: Ordinal>(m: &'y OrdinalSet<K>) -> SIter<'y, K> { m.iter() }", "const fn {f}<K: Ordinal>() -> OrdinalSet64<K> { OrdinalSet64::new() }", "const fn {f}<K: Ordinal>() -> usize { K::ORDINAL_SIZE + ordinal_array_set_s::<K>() }",
         "fn {f}<K: Ordinal>(m: &OrdinalSet64<K>) -> Vec<K> { let i = m.iter(); i.collect() }", "fn {f}<'t>(x: Tied<'t>) -> usize { const N: usize = <Tied<'static> as Ordinal>::ORDINAL_SIZE; let a = [0; N]; x.ordinal() }"]
for t in ("OrdinalMap<K, {v}>", "OrdinalArrayMap<K, {v}, 9>", "OrdinalTotalMap<K, {v}>", "OrdinalTotalArrayMap<K, {v}, 9>", "MIter<'static, K, {v}>", "Values<'static, K, {v}>", "Keys<'static, K, {v}>", "TIter<'static, K, {v}>",
          "MIntoIter<K, {v}>", "MIntoIterArray<K, {v}, 9>", "TIntoIter<K, {v}>", "TIntoIterArray<K, {v}, 9>"):
    SIGS += ["fn {f}<'y, K: Ordinal>(m: %s) -> %s { m }" % (t.replace("{v}", a), t.replace("{v}", b)) for a, b in (("&'static str", "&'y str"), ("Vec<&'static u8>", "Vec<&'y u8>"), ("fn(&'y u8)", "fn(&'static u8)"))]
    SIGS.append("fn {f}<'y>(m: %s) -> %s { m }" % (t.replace("K", "Tied<'static>").replace("Tied<'static>eys", "Keys").replace("{v}", "u8"), t.replace("K", "Tied<'y>").replace("Tied<'y>eys", "Keys").replace("{v}", "u8")))
for t in ("OrdinalSet<{k}>", "OrdinalArraySet<{k}, 1>", "OrdinalSet64<{k}>", "SIter<'static, {k}>", "OrdinalValues<{k}>"):
    SIGS.append("fn {f}<'y>(m: %s) -> %s { m }" % (t.replace("{k}", "Tied<'static>"), t.replace("{k}", "Tied<'y>")))
for t in ("MIter<'{l}, K, V>", "MIterMut<'{l}, K, V>", "Keys<'{l}, K, V>", "Values<'{l}, K, V>", "Drain<'{l}, K, V>", "Entry<'{l}, K, V>", "VacantEntry<'{l}, K, V>", "OccupiedEntry<'{l}, K, V>", "TIter<'{l}, K, V>", "TIterMut<'{l}, K, V>"):
    SIGS.append("fn {f}<'x, 'y, K: Ordinal, V>(m: %s) -> %s where 'x: 'y { m }" % (t.replace("{l}", "x"), t.replace("{l}", "y")))


def function(i, o):
    c, kc, vc, body = o
    b = lambda caps: "".join(" + " + BOUND[x] for x in caps)
    params = ["K: Ordinal" + b(kc)]
    values = KIND.get(c) in ("sparse", "total")
    if values:
        params.append("V" + (": " + b(vc)[3:] if vc else ""))
    if c in ("A", "TA", "SA"):
        params.append("const N: usize")
    pre = FULL[KIND.get(c, c)]
    body = (pre + " " + body).replace("<T>", "<%s>" % TYPES.get(c, "")).replace(": T =", ": %s =" % TYPES.get(c, ""))
    for w in ("Vec", "Option", "Rc", "Result", "::collect::"):
        body = body.replace(w + "<T>", w + "<%s>" % TYPES.get(c, ""))
    body = body.replace("Result<T,", "Result<%s," % TYPES.get(c, ""))
    return "fn op%d<%s>(%s) { %s }" % (i, ", ".join(params), "v: &dyn Fn(usize) -> V, rd: &dyn Fn(&V) -> usize" if values else "", body)


def needs_key(body):
    return "key(" in body


# Value types every operation is called with, where it can be: one of each row.
LAYOUTS = [[v for v in VALS if v[0] in row] for row in (("Mark", "[u64; 0]", "[Wide; 0]"), ("()", "Token", "PhantomPinned"), ("Wide", "[Plain; 100]", "Large"), ("String", "Cl", "De", "Df", "&str"))]


def call(r, i, o, layout=None):
    """A call of operation i with random types, as (what, statement, whether a type lacks something)."""
    c, kc, vc, body = o
    tries = [v for v in LAYOUTS[layout] if not set(vc) - set(v[3])] if layout is not None else None
    if tries == []:
        tries = None
    for _ in range(1000):
        t, n, caps = any_key(r)
        if tries and n == 0:
            continue
        if any(x not in caps for x in kc) or (n == 0 and (needs_key(body) or c == "AT")) or (c == "S64" and n > 64) or (c == "K" and n > 300):
            continue
        vt, mk, rd, vcaps = r.choice(tries) if tries else any_val(r)
        if any(x not in vcaps for x in vc) or (mk is None and n > 0):
            continue
        if n > 64 and ("Large" in vt or "[Plain" in vt or "Wide" in vt):
            continue
        # Prefer the fewest capabilities.
        if r.random() < 0.12 * (len(caps) - len(kc)):
            continue
        break
    else:
        raise CheckError("no types for " + body)
    args = [t]
    values = KIND.get(c) in ("sparse", "total")
    if values:
        args.append(vt)
    if c in ("A", "TA"):
        args.append(str(n))
    if c == "SA":
        args.append(str((n + 63) // 64))
    what, poor = "%s with %s" % (TYPES.get(c, "Ordinal"), ", ".join(args)), len(caps) < 7 or (values and len(vcaps) < 6)
    a = "&|i| %s, &|r| %s" % (mk or "unreachable!()", rd or "0") if values else ""
    return what, "op%d::<%s>(%s)" % (i, ", ".join(args), a), poor


RUN = """
fn main() {
    // Whole containers live on the stack here.
    std::env::set_var("RUST_MIN_STACK", "67108864");
    std::process::exit(std::thread::Builder::new().stack_size(1 << 28).spawn(cases).unwrap().join().unwrap());
}
fn cases() -> i32 {
    let only: Option<usize> = std::env::args().nth(1).map(|a| a.parse().unwrap());
    std::panic::set_hook(Box::new(|i| if std::env::args().nth(1).is_some() { println!("{i}") }));
    let mut bad = vec![];
    let (mut n, mut done) = (0, 0);
    macro_rules! case { ($($e:tt)*) => {
        if only.is_none_or(|o| o == n) {
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| $($e)*)).is_err() { bad.push(n); }
            done += 1;
        }
        n += 1;
    } }
{env}{cases}
    println!("done {done} bad {bad:?}");
    !bad.is_empty() as i32
}
"""


def program(fns, calls):
    return HEAD + "".join(f + "\n" for f in fns) + RUN.replace("{env}", ENV).replace("{cases}", "\n".join("    case! { %s }" % c for c in calls))


def errors(libs, path, n):
    """For each of the functions, one per line after HEAD, the first error in it."""
    cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "-Awarnings", "--error-format=json"] + progs.target(core.PROFILES[0]) + libs.args[core.PROFILES[0]] + ["-o", path + ".rmeta", path]
    rc, so, se = sh(cmd, timeout=300)
    first = HEAD.count("\n") + 1
    found = [None] * n
    for l in se.splitlines():
        m = json.loads(l) if l.startswith("{") else {}
        if m.get("level") != "error" or not m.get("spans"):
            continue
        lines = [s["line_start"] - first for s in m["spans"] if 0 <= s["line_start"] - first < n and s["file_name"] == path]
        if not lines:
            raise CheckError("generic programs: " + m["message"][:300])
        found[lines[0]] = found[lines[0]] or m["message"]
    if (rc != 0) != any(found):
        raise CheckError("generic programs: error without a place: " + se[-500:])
    return found


def run(rep):
    libs = progs.Libs()
    d = progs.workdir(rep, "generic")
    deep = rep.tier == "thorough"
    fns = [function(i, o) for i, o in enumerate(OPS)] + [s.replace("{f}", "sig%d" % i) for i, s in enumerate(SIGS)]
    alive = set(range(len(fns)))
    rejected = []
    # Type errors hide borrow errors in other functions, so again without what is rejected.
    for _ in range(4):
        order = sorted(alive)
        p = progs.write(os.path.join(d, "all.rs"), HEAD + "".join(fns[i] + "\n" for i in order))
        bad = [(i, e) for i, e in zip(order, errors(libs, p, len(order))) if e]
        rejected += bad
        alive -= {i for i, _ in bad}
        if not bad:
            break
    for i, e in rejected[:8]:
        rep.violation("generic:" + fns[i].split("{", 1)[1][-150:], "an operation is not available for all keys and values it could support: " + e[:300],
                      {"kind": "compile", "expect": "accept", "profile": core.PROFILES[0], "edition": "2021", "emit": "metadata", "source": HEAD + fns[i] + "\n", "trace": [fns[i]]})
    rep.add(len(fns), len(fns) - len(rejected), "Operations written as functions over all key and value types with only the capabilities the operation itself needs, and signatures that promise lifetimes, covariance and constness. Non-trivial: accepted by the compiler.",
            [{"function": fns[i]} for i in range(0, len(fns), len(fns) // 5)], name="generic functions", detail={"operations": len(OPS), "signatures": len(SIGS)})

    r = progs.rng(rep, "generic")
    usable = [i for i in range(len(OPS)) if i in alive]
    calls = []
    seen = set()
    for j in range(200 if deep else 12):
        for i in usable:
            c = call(r, i, OPS[i], j if j < len(LAYOUTS) and KIND.get(OPS[i][0]) in ("sparse", "total") else None)
            if (i, c[0]) not in seen:
                seen.add((i, c[0]))
                calls.append((i,) + c)
    r.shuffle(calls)
    size = 260
    chunks = [calls[i:i + size] for i in range(0, len(calls), size)]

    def build(chunk, tag, profile):
        used = sorted({c[0] for c in chunk})
        src = progs.write(os.path.join(d, tag + ".rs"), program([fns[i] for i in used], [c[2] for c in chunk]))
        exe = os.path.join(d, "%s-%s" % (tag, profile))
        rc, err = libs.rustc(profile, src, exe, flags=["-Copt-level=0", "-Cdebuginfo=0"])
        return exe, rc, err

    def execute(exe):
        rc, so, se = sh([exe], timeout=300, mem=core.MEM)
        m = so.strip().splitlines()[-1:] if rc in (0, 1) else None
        if not m or not m[0].startswith("done "):
            return None
        return json.loads(m[0].split("bad ")[1])

    def attempt(chunk, tag, profile):
        """The calls that fail, each with what happens."""
        exe, rc, err = build(chunk, tag, profile)
        if rc == 0:
            bad = execute(exe)
            os.unlink(exe)
            if bad is not None:
                return [(chunk[i], "it panics") for i in bad]
            what = "the process dies"
        else:
            what = "it does not compile: " + progs.short(err)
        if len(chunk) == 1:
            return [(chunk[0], what)]
        h = len(chunk) // 2
        found = attempt(chunk[:h], tag + "a", profile)
        return found or attempt(chunk[h:], tag + "b", profile)

    jobs = [(c, "p%d%s" % (i, p[0]), p) for i, c in enumerate(chunks) for p in core.PROFILES]
    with cf.ThreadPoolExecutor(8) as ex:
        results = list(ex.map(lambda j: attempt(*j), jobs))
    told = set()
    for (chunk, tag, profile), bad in zip(jobs, results):
        for (i, what, stmt, _), how in bad:
            if i in told or len(told) > 5:
                continue
            told.add(i)
            rep.violation("generic call:" + what[:120] + ":" + OPS[i][3][:100], "%s: %s" % (what, how),
                          {"kind": "program", "profile": profile, "edition": "2021", "source": program([fns[i]], [stmt]), "args": ["0"], "trace": [fns[i], stmt]})
    n = len(calls) * len(core.PROFILES)
    rep.add(n, sum(c[3] for c in calls), "The operations called with random key and value types (borrowing, thread-bound, uninhabited, over-aligned, closures, without any other trait; nested), results compared with what was put in, both builds. Non-trivial: distinct calls in which a type lacks a capability of plain numbers.",
            [{"call": c[1], "operation": OPS[c[0]][3]} for c in calls[::max(1, len(calls) // 6)]][:6], name="generic calls", detail={"calls": len(calls), "programs": len(jobs)})
    shutil.rmtree(d, ignore_errors=True)
