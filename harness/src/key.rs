//! Key types for container checks: user-written lawful `Ordinal` impls of any size (so that
//! container checks do not depend on the crate's own impls) and a few built-in and derived ones.
use ordinal_map::Ordinal;
use std::cell::Cell;
use std::fmt::Debug;

pub trait Key: Ordinal + Debug + Clone + PartialEq + 'static {
    const N: usize;
    /// The key whose ordinal is `i`, made without using the crate.
    fn mk(i: usize) -> Self;
    /// Its ordinal, computed without using the crate.
    fn ix(&self) -> usize;
}

/// `N` values numbered in natural order.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Kn<const N: usize>(pub u32);

/// `N` values numbered in the reverse of their `Ord`: lawful, but order-incompatible.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Pn<const N: usize>(pub u32);

thread_local! {
    pub static CALLS: Cell<u64> = const { Cell::new(0) };
    /// Conversions panic when there have been more than this.
    pub static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}

fn tick() {
    let n = CALLS.with(|c| c.get()) + 1;
    CALLS.with(|c| c.set(n));
    if n > LIMIT.with(|l| l.get()) {
        LIMIT.with(|l| l.set(u64::MAX));
        panic!("far more key conversions than a pass needs");
    }
}

impl<const N: usize> Debug for Kn<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "K{}", self.0)
    }
}
impl<const N: usize> Debug for Pn<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "P{}", self.0)
    }
}
impl<const N: usize> Ordinal for Kn<N> {
    const ORDINAL_SIZE: usize = N;
    fn ordinal(&self) -> usize {
        tick();
        self.0 as usize
    }
    fn from_ordinal(o: usize) -> Option<Self> {
        tick();
        if o < N { Some(Kn(o as u32)) } else { None }
    }
}
impl<const N: usize> Key for Kn<N> {
    const N: usize = N;
    fn mk(i: usize) -> Self {
        assert!(i < N);
        Kn(i as u32)
    }
    fn ix(&self) -> usize {
        self.0 as usize
    }
}
impl<const N: usize> Ordinal for Pn<N> {
    const ORDINAL_SIZE: usize = N;
    fn ordinal(&self) -> usize {
        N - 1 - self.0 as usize
    }
    fn from_ordinal(o: usize) -> Option<Self> {
        if o < N { Some(Pn((N - 1 - o) as u32)) } else { None }
    }
}
impl<const N: usize> Key for Pn<N> {
    const N: usize = N;
    fn mk(i: usize) -> Self {
        assert!(i < N);
        Pn((N - 1 - i) as u32)
    }
    fn ix(&self) -> usize {
        N - 1 - self.0 as usize
    }
}

impl Key for bool {
    const N: usize = 2;
    fn mk(i: usize) -> Self {
        [false, true][i]
    }
    fn ix(&self) -> usize {
        if *self { 1 } else { 0 }
    }
}
impl Key for u8 {
    const N: usize = 256;
    fn mk(i: usize) -> Self {
        assert!(i < 256);
        i as u8
    }
    fn ix(&self) -> usize {
        *self as usize
    }
}
impl Key for i8 {
    const N: usize = 256;
    fn mk(i: usize) -> Self {
        assert!(i < 256);
        (i as i32 - 128) as i8
    }
    fn ix(&self) -> usize {
        (*self as i32 + 128) as usize
    }
}
impl Key for u16 {
    const N: usize = 65536;
    fn mk(i: usize) -> Self {
        assert!(i < 65536);
        i as u16
    }
    fn ix(&self) -> usize {
        *self as usize
    }
}
impl Key for char {
    const N: usize = 0x10F800;
    fn mk(i: usize) -> Self {
        char::from_u32(if i < 0xD800 { i as u32 } else { i as u32 + 0x800 }).unwrap()
    }
    fn ix(&self) -> usize {
        let c = *self as usize;
        if c < 0xD800 { c } else { c - 0x800 }
    }
}
#[cfg(target_pointer_width = "64")]
impl Key for std::num::NonZeroU64 {
    const N: usize = usize::MAX;
    fn mk(i: usize) -> Self {
        Self::new(i as u64 + 1).unwrap()
    }
    fn ix(&self) -> usize {
        (self.get() - 1) as usize
    }
}
#[cfg(target_pointer_width = "64")]
impl Key for std::num::NonZeroI64 {
    const N: usize = usize::MAX;
    fn mk(i: usize) -> Self {
        let v = (i as u64).wrapping_add(1 << 63) as i64;
        Self::new(if v >= 0 { v + 1 } else { v }).unwrap()
    }
    fn ix(&self) -> usize {
        let v = self.get();
        let v = if v > 0 { v - 1 } else { v };
        (v as u64).wrapping_sub(1 << 63) as usize
    }
}
#[cfg(target_pointer_width = "64")]
impl Key for (u32, i16) {
    const N: usize = 1 << 48;
    fn mk(i: usize) -> Self {
        ((i >> 16) as u32, ((i & 0xffff) as i32 - 32768) as i16)
    }
    fn ix(&self) -> usize {
        (self.0 as usize) << 16 | (self.1 as i32 + 32768) as usize
    }
}
// The same where `usize` has 32 bits.
#[cfg(target_pointer_width = "32")]
impl Key for std::num::NonZeroU32 {
    const N: usize = usize::MAX;
    fn mk(i: usize) -> Self {
        Self::new(i as u32 + 1).unwrap()
    }
    fn ix(&self) -> usize {
        (self.get() - 1) as usize
    }
}
#[cfg(target_pointer_width = "32")]
impl Key for std::num::NonZeroI32 {
    const N: usize = usize::MAX;
    fn mk(i: usize) -> Self {
        let v = (i as u32).wrapping_add(1 << 31) as i32;
        Self::new(if v >= 0 { v + 1 } else { v }).unwrap()
    }
    fn ix(&self) -> usize {
        let v = self.get();
        let v = if v > 0 { v - 1 } else { v };
        (v as u32).wrapping_sub(1 << 31) as usize
    }
}
#[cfg(target_pointer_width = "32")]
impl Key for (i16, [bool; 15]) {
    const N: usize = 1 << 31;
    fn mk(i: usize) -> Self {
        (((i >> 15) as i32 - 32768) as i16, std::array::from_fn(|j| i >> (14 - j) & 1 == 1))
    }
    fn ix(&self) -> usize {
        ((self.0 as i32 + 32768) as usize) << 15 | self.1.iter().fold(0, |r, &b| r * 2 + b as usize)
    }
}
impl Key for std::cmp::Ordering {
    const N: usize = 3;
    fn mk(i: usize) -> Self {
        use std::cmp::Ordering::*;
        [Less, Equal, Greater][i]
    }
    fn ix(&self) -> usize {
        use std::cmp::Ordering::*;
        match self {
            Less => 0,
            Equal => 1,
            Greater => 2,
        }
    }
}
impl Key for () {
    const N: usize = 1;
    fn mk(i: usize) -> Self {
        assert!(i == 0);
    }
    fn ix(&self) -> usize {
        0
    }
}
impl Key for [bool; 6] {
    const N: usize = 64;
    fn mk(i: usize) -> Self {
        assert!(i < 64);
        std::array::from_fn(|j| i >> (5 - j) & 1 == 1)
    }
    fn ix(&self) -> usize {
        self.iter().fold(0, |r, &b| r * 2 + b as usize)
    }
}
impl Key for Option<[bool; 6]> {
    const N: usize = 65;
    fn mk(i: usize) -> Self {
        assert!(i < 65);
        if i == 0 { None } else { Some(<[bool; 6]>::mk(i - 1)) }
    }
    fn ix(&self) -> usize {
        match self {
            None => 0,
            Some(a) => 1 + a.ix(),
        }
    }
}
/// A derived key: 1 + 6 + 2 = 9 values.
#[derive(Ordinal, Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Dk {
    A,
    B { x: Option<bool>, y: bool },
    C(Option<()>),
}
impl Key for Dk {
    const N: usize = 9;
    fn mk(i: usize) -> Self {
        match i {
            0 => Dk::A,
            1..=6 => Dk::B { x: [None, Some(false), Some(true)][(i - 1) / 2], y: (i - 1) % 2 == 1 },
            7 => Dk::C(None),
            8 => Dk::C(Some(())),
            _ => panic!(),
        }
    }
    fn ix(&self) -> usize {
        (0..9).find(|&i| Dk::mk(i) == *self).unwrap()
    }
}

/// The same items, promised more or less precisely.
pub struct Loose<I>(pub I, pub u32);
impl<I: Iterator> Iterator for Loose<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lo, hi) = self.0.size_hint();
        match self.1 % 8 {
            0 | 1 => (lo, hi),
            2 => (0, hi),
            3 => (0, None),
            4 => (lo / 2, None),
            5 => (lo.min(1), hi.and_then(|h| h.checked_add(7))),
            6 => (0, Some(usize::MAX)),
            _ => (lo, None),
        }
    }
}

/// Choose an ordinal below `n` from 16 random bits; `h` selects the distribution:
/// uniform, a narrow window (many collisions), storage boundaries, or a mixture.
pub fn pick(a: u16, n: usize, h: u64) -> usize {
    assert!(n > 0);
    let m = match h & 3 {
        3 => (a >> 14) as u64 % 3,
        m => m,
    };
    let a = a as usize;
    match m {
        0 => {
            if n <= 1 << 16 { a % n } else { ((a as u64 * n as u64) >> 16) as usize }
        }
        1 => {
            let base = (h >> 8) as usize % n;
            (base + a % 6) % n
        }
        _ => {
            const B: [usize; 14] = [0, 1, 2, 31, 32, 62, 63, 64, 65, 66, 127, 128, 129, 192];
            match a % 20 {
                j @ 0..=13 => B[j] % n,
                14 => n / 2,
                15 => (n / 2).saturating_sub(1),
                16 => n - 1,
                17 => n.saturating_sub(2),
                18 => (n - 1) / 64 * 64,
                _ => ((n - 1) / 64 * 64).saturating_sub(1),
            }
        }
    }
}

/// Value types stored in maps.
pub trait Val: Debug + Clone + PartialEq + Default + 'static {
    fn mk(b: u32) -> Self;
    fn rd(&self) -> u32;
    /// What `rd(mk(b))` gives.
    fn norm(b: u32) -> u32 {
        b
    }
}
impl Val for u32 {
    fn mk(b: u32) -> Self {
        b
    }
    fn rd(&self) -> u32 {
        *self
    }
}
impl Val for () {
    fn mk(_: u32) -> Self {}
    fn rd(&self) -> u32 {
        0
    }
    fn norm(_: u32) -> u32 {
        0
    }
}
/// A value of several words.
impl Val for [u64; 5] {
    fn mk(b: u32) -> Self {
        let b = b as u64;
        [b, b << 1, b << 7, b * 0x1_0000_0001, b.wrapping_mul(0x9e37_79b9_7f4a_7c15)]
    }
    fn rd(&self) -> u32 {
        let b = self[0] as u32;
        // Torn values are not values.
        assert!(*self == Self::mk(b), "torn value {self:x?}");
        b
    }
}
impl Val for String {
    fn mk(b: u32) -> Self {
        if b == 0 { String::new() } else { b.to_string() }
    }
    fn rd(&self) -> u32 {
        if self.is_empty() { 0 } else { self.parse().unwrap() }
    }
}
/// `Option` of an `Option`: niche-filled inner values must not be confused with absence.
impl Val for Option<bool> {
    fn mk(b: u32) -> Self {
        [None, Some(false), Some(true)][(b % 3) as usize]
    }
    fn rd(&self) -> u32 {
        match self {
            None => 0,
            Some(false) => 1,
            Some(true) => 2,
        }
    }
    fn norm(b: u32) -> u32 {
        b % 3
    }
}
