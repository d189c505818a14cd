//! Independent description of every type the crate numbers: how many values it has, what the
//! i-th one is, and how two values compare. Nothing here calls the crate's `Ordinal`.
#[cfg(feature = "either")]
use either::Either;
use ordinal_map::Ordinal;
use std::cmp::Ordering;
use std::convert::Infallible;
use std::num::*;

pub trait Oracle: Ordinal + Sized + 'static {
    /// Number of values.
    fn count() -> u128;
    /// Position of the value in order.
    fn rank(&self) -> u128;
    /// The value at a position.
    fn unrank(i: u128) -> Self;
    /// The order `#[derive(PartialOrd, Ord)]`/std gives.
    fn order(&self, o: &Self) -> Ordering;
    fn show(&self) -> String;
    /// Interesting strides: sizes of components and of groups of values.
    fn marks(out: &mut Vec<u128>) {
        out.push(Self::count());
    }
}

macro_rules! ints {
    ($($t:ty),*) => {$(
        impl Oracle for $t {
            fn count() -> u128 { (<$t>::MAX as i128 - <$t>::MIN as i128 + 1) as u128 }
            fn rank(&self) -> u128 { (*self as i128 - <$t>::MIN as i128) as u128 }
            fn unrank(i: u128) -> Self { <$t>::try_from(i as i128 + <$t>::MIN as i128).unwrap() }
            fn order(&self, o: &Self) -> Ordering { self.cmp(o) }
            fn show(&self) -> String { format!("{self:?}") }
            fn marks(out: &mut Vec<u128>) { out.push(Self::count()); out.push(Self::count() / 2); }
        }
    )*};
}
ints!(u8, i8, u16, i16);
#[cfg(target_pointer_width = "64")]
ints!(u32, i32);

macro_rules! nonzero {
    ($($t:ty, $i:ty);*) => {$(
        impl Oracle for $t {
            fn count() -> u128 { (<$i>::MAX as i128 - <$i>::MIN as i128) as u128 }
            fn rank(&self) -> u128 {
                let v = self.get() as i128;
                // Zero is skipped.
                (v - <$i>::MIN as i128 - (v > 0) as i128) as u128
            }
            fn unrank(i: u128) -> Self {
                let mut v = i as i128 + <$i>::MIN as i128;
                if v >= 0 { v += 1; }
                <$t>::new(<$i>::try_from(v).unwrap()).unwrap()
            }
            fn order(&self, o: &Self) -> Ordering { self.get().cmp(&o.get()) }
            fn show(&self) -> String { format!("{self:?}") }
            fn marks(out: &mut Vec<u128>) { out.push(Self::count()); out.push(Self::count() / 2 + 1); }
        }
    )*};
}
nonzero!(NonZeroU8, u8; NonZeroI8, i8; NonZeroU16, u16; NonZeroI16, i16; NonZeroU32, u32; NonZeroI32, i32;
    NonZeroUsize, usize; NonZeroIsize, isize);
#[cfg(target_pointer_width = "64")]
nonzero!(NonZeroU64, u64; NonZeroI64, i64);

impl Oracle for bool {
    fn count() -> u128 {
        2
    }
    fn rank(&self) -> u128 {
        if *self { 1 } else { 0 }
    }
    fn unrank(i: u128) -> Self {
        [false, true][i as usize]
    }
    fn order(&self, o: &Self) -> Ordering {
        self.cmp(o)
    }
    fn show(&self) -> String {
        format!("{self}")
    }
}
impl Oracle for Ordering {
    fn count() -> u128 {
        3
    }
    fn rank(&self) -> u128 {
        match self {
            Ordering::Less => 0,
            Ordering::Equal => 1,
            Ordering::Greater => 2,
        }
    }
    fn unrank(i: u128) -> Self {
        [Ordering::Less, Ordering::Equal, Ordering::Greater][i as usize]
    }
    fn order(&self, o: &Self) -> Ordering {
        self.cmp(o)
    }
    fn show(&self) -> String {
        format!("{self:?}")
    }
}
impl Oracle for char {
    fn count() -> u128 {
        0x110000 - 0x800
    }
    fn rank(&self) -> u128 {
        let c = *self as u128;
        if c < 0xD800 { c } else { c - 0x800 }
    }
    fn unrank(i: u128) -> Self {
        char::from_u32(if i < 0xD800 { i as u32 } else { u32::try_from(i + 0x800).unwrap() }).unwrap()
    }
    fn order(&self, o: &Self) -> Ordering {
        self.cmp(o)
    }
    fn show(&self) -> String {
        format!("{self:?}")
    }
    fn marks(out: &mut Vec<u128>) {
        out.extend([Self::count(), 0xD800, 0x80, 0x800, 0x10000, 0xE000]);
    }
}
impl Oracle for Infallible {
    fn count() -> u128 {
        0
    }
    fn rank(&self) -> u128 {
        match *self {}
    }
    fn unrank(_: u128) -> Self {
        unreachable!()
    }
    fn order(&self, _: &Self) -> Ordering {
        match *self {}
    }
    fn show(&self) -> String {
        match *self {}
    }
}
impl<T: Oracle> Oracle for Box<T> {
    fn count() -> u128 {
        T::count()
    }
    fn rank(&self) -> u128 {
        (**self).rank()
    }
    fn unrank(i: u128) -> Self {
        Box::new(T::unrank(i))
    }
    fn order(&self, o: &Self) -> Ordering {
        (**self).order(o)
    }
    fn show(&self) -> String {
        format!("Box({})", (**self).show())
    }
    fn marks(out: &mut Vec<u128>) {
        T::marks(out);
    }
}
impl<T: Oracle> Oracle for Option<T> {
    fn count() -> u128 {
        1 + T::count()
    }
    fn rank(&self) -> u128 {
        match self {
            None => 0,
            Some(x) => 1 + x.rank(),
        }
    }
    fn unrank(i: u128) -> Self {
        i.checked_sub(1).map(T::unrank)
    }
    fn order(&self, o: &Self) -> Ordering {
        match (self, o) {
            (None, None) => Ordering::Equal,
            (None, _) => Ordering::Less,
            (_, None) => Ordering::Greater,
            (Some(a), Some(b)) => a.order(b),
        }
    }
    fn show(&self) -> String {
        match self {
            None => "None".into(),
            Some(x) => format!("Some({})", x.show()),
        }
    }
    fn marks(out: &mut Vec<u128>) {
        out.push(Self::count());
        T::marks(out);
    }
}
macro_rules! two {
    ($t:ident, $l:ident, $r:ident) => {
        impl<A: Oracle, B: Oracle> Oracle for $t<A, B> {
            fn count() -> u128 {
                A::count() + B::count()
            }
            fn rank(&self) -> u128 {
                match self {
                    $t::$l(a) => a.rank(),
                    $t::$r(b) => A::count() + b.rank(),
                }
            }
            fn unrank(i: u128) -> Self {
                if i < A::count() { $t::$l(A::unrank(i)) } else { $t::$r(B::unrank(i - A::count())) }
            }
            fn order(&self, o: &Self) -> Ordering {
                match (self, o) {
                    ($t::$l(a), $t::$l(b)) => a.order(b),
                    ($t::$l(_), _) => Ordering::Less,
                    (_, $t::$l(_)) => Ordering::Greater,
                    ($t::$r(a), $t::$r(b)) => a.order(b),
                }
            }
            fn show(&self) -> String {
                match self {
                    $t::$l(a) => format!(concat!(stringify!($l), "({})"), a.show()),
                    $t::$r(b) => format!(concat!(stringify!($r), "({})"), b.show()),
                }
            }
            fn marks(out: &mut Vec<u128>) {
                out.push(Self::count());
                A::marks(out);
                B::marks(out);
            }
        }
    };
}
two!(Result, Ok, Err);
#[cfg(feature = "either")]
two!(Either, Left, Right);

/// Product of counts; zero wins over overflow.
pub fn product(it: impl IntoIterator<Item = u128>) -> u128 {
    let mut p = 1u128;
    let mut zero = false;
    for c in it {
        zero |= c == 0;
        p = p.saturating_mul(c);
    }
    if zero { 0 } else { p }
}

impl<T: Oracle, const N: usize> Oracle for [T; N] {
    fn count() -> u128 {
        product((0..N).map(|_| T::count()))
    }
    fn rank(&self) -> u128 {
        let mut r = 0;
        for x in self {
            r = r * T::count() + x.rank();
        }
        r
    }
    fn unrank(i: u128) -> Self {
        let mut digits = vec![0u128; N];
        let mut i = i;
        for d in digits.iter_mut().rev() {
            *d = i % T::count();
            i /= T::count();
        }
        assert_eq!(i, 0);
        std::array::from_fn(|j| T::unrank(digits[j]))
    }
    fn order(&self, o: &Self) -> Ordering {
        for (a, b) in self.iter().zip(o) {
            let c = a.order(b);
            if c != Ordering::Equal {
                return c;
            }
        }
        Ordering::Equal
    }
    fn show(&self) -> String {
        format!("[{}]", self.iter().map(|x| x.show()).collect::<Vec<_>>().join(", "))
    }
    fn marks(out: &mut Vec<u128>) {
        let mut p = 1u128;
        for _ in 0..N.min(12) {
            p = p.saturating_mul(T::count());
            out.push(p);
        }
        T::marks(out);
    }
}

macro_rules! tuples {
    ($(($($t:ident $i:tt),*))*) => {$(
        #[allow(unused_variables, unused_mut, unused_assignments, clippy::unused_unit)]
        impl<$($t: Oracle),*> Oracle for ($($t,)*) {
            fn count() -> u128 { product([$($t::count()),*]) }
            fn rank(&self) -> u128 {
                let mut r = 0u128;
                $(r = r * $t::count() + self.$i.rank();)*
                r
            }
            fn unrank(i: u128) -> Self {
                let radix: Vec<u128> = vec![$($t::count()),*];
                let mut d = vec![0u128; radix.len()];
                let mut i = i;
                for j in (0..radix.len()).rev() {
                    d[j] = i % radix[j];
                    i /= radix[j];
                }
                assert_eq!(i, 0);
                ($($t::unrank(d[$i]),)*)
            }
            fn order(&self, o: &Self) -> Ordering {
                $(match self.$i.order(&o.$i) { Ordering::Equal => {} c => return c })*
                Ordering::Equal
            }
            fn show(&self) -> String {
                let v: Vec<String> = vec![$(self.$i.show()),*];
                format!("({})", v.join(", "))
            }
            fn marks(out: &mut Vec<u128>) {
                let radix: Vec<u128> = vec![$($t::count()),*];
                let mut p = 1u128;
                for r in radix.iter().rev() { p = p.saturating_mul(*r); out.push(p); }
                $($t::marks(out);)*
            }
        }
    )*};
}
tuples! {
    ()
    (A 0)
    (A 0, B 1)
    (A 0, B 1, C 2)
    (A 0, B 1, C 2, D 3)
    (A 0, B 1, C 2, D 3, E 4)
    (A 0, B 1, C 2, D 3, E 4, F 5)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15)
}

#[cfg(test)]
mod tests {
    use super::*;
    /// The oracle agrees with std's own orders.
    fn agree<T: Oracle + Ord>() {
        let n = T::count().min(700);
        for i in 0..n {
            let a = T::unrank(i);
            assert_eq!(a.rank(), i);
            for j in 0..n {
                let b = T::unrank(j);
                assert_eq!(a.cmp(&b), i.cmp(&j));
                assert_eq!(a.order(&b), i.cmp(&j));
            }
        }
    }
    #[test]
    fn orders() {
        agree::<bool>();
        agree::<Ordering>();
        agree::<i8>();
        agree::<NonZeroI8>();
        agree::<char>();
        agree::<Option<Result<bool, Ordering>>>();
        agree::<Either<Option<bool>, (bool, Ordering)>>();
        agree::<[Option<bool>; 4]>();
        agree::<(bool, Ordering, Box<[bool; 2]>, Option<()>)>();
        agree::<Result<Infallible, [Infallible; 0]>>();
    }
}

/// Values of the variants before the k-th.
pub fn before(counts: &[u128], k: usize) -> u128 {
    counts[..k].iter().sum()
}
/// Position of a record of fields: the first field is the most significant.
pub fn mixed(ranks: &[u128], counts: &[u128]) -> u128 {
    ranks.iter().zip(counts).fold(0, |a, (r, c)| a * c + r)
}
/// The fields' positions from the record's.
pub fn digits(mut i: u128, counts: &[u128]) -> Vec<u128> {
    let mut d = vec![0; counts.len()];
    for k in (0..counts.len()).rev() {
        d[k] = i % counts[k];
        i /= counts[k];
    }
    d
}
pub fn shown(name: &str, fields: &[String]) -> String {
    format!("{name}({})", fields.join(", "))
}
pub fn prod(counts: &[u128]) -> u128 {
    product(counts.iter().copied())
}
