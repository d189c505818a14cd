//! A test case is a plain record: a 64-bit header and a list of fixed-width operations.
//! Every random choice of every check is in it, so a case replays without any generator.
use std::cell::RefCell;
use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Op {
    pub k: u8,
    pub a: u16,
    pub b: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Case {
    pub h: u64,
    pub ops: Vec<Op>,
}

impl Case {
    pub fn encode(&self) -> String {
        let mut s = format!("{:x}", self.h);
        for o in &self.ops {
            write!(s, " {:x}.{:x}.{:x}", o.k, o.a, o.b).unwrap();
        }
        s
    }
    pub fn decode(s: &str) -> Option<Case> {
        let mut it = s.split_whitespace();
        let h = u64::from_str_radix(it.next()?, 16).ok()?;
        let mut ops = Vec::new();
        for w in it {
            let mut p = w.split('.');
            ops.push(Op {
                k: u8::from_str_radix(p.next()?, 16).ok()?,
                a: u16::from_str_radix(p.next()?, 16).ok()?,
                b: u32::from_str_radix(p.next()?, 16).ok()?,
            });
        }
        Some(Case { h, ops })
    }
    /// Bytes to case, for the coverage-guided fuzzer.
    pub fn from_bytes(d: &[u8]) -> Case {
        let mut h = [0u8; 8];
        let n = d.len().min(8);
        h[..n].copy_from_slice(&d[..n]);
        let ops = d[n..]
            .chunks_exact(7)
            .map(|c| Op {
                k: c[0],
                a: u16::from_le_bytes([c[1], c[2]]),
                b: u32::from_le_bytes([c[3], c[4], c[5], c[6]]),
            })
            .collect();
        Case { h: u64::from_le_bytes(h), ops }
    }
}

/// What one executed case was.
#[derive(Default, Debug)]
pub struct Info {
    pub nontrivial: bool,
    pub tags: Vec<&'static str>,
}

/// For some cases over large types: a run of positions to fill before the history starts.
pub fn bulk(h: u64, n: usize) -> std::ops::Range<usize> {
    if n < 1000 || h >> 52 & 3 != 3 {
        return 0..0;
    }
    let len = 1000 + (h >> 20) as usize % 2500;
    let start = (h >> 27) as usize % n;
    start..n.min(start + len)
}

pub type Res = Result<Info, String>;

/// Per-case context: which optional aspects to check, and a human-readable trace.
#[derive(Default)]
pub struct Ctx {
    /// Check Debug output of iterators/containers.
    pub fmt: bool,
    /// Exercise Clone.
    pub clone: bool,
    pub tracing: bool,
    pub trace: RefCell<Vec<String>>,
    /// Free parameter some subjects use.
    pub mode: u32,
}

#[macro_export]
macro_rules! tr {
    ($ctx:expr, $($t:tt)*) => {
        if $ctx.tracing { $ctx.trace.borrow_mut().push(format!($($t)*)); }
    };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

/// Compare and return an error naming what differs.
#[macro_export]
macro_rules! same {
    ($got:expr, $want:expr, $($t:tt)*) => {{
        let (got, want) = (&$got, &$want);
        if got != want {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), got, want));
        }
    }};
}

pub type SubjectFn = fn(&Case, &Ctx) -> Res;

#[derive(Clone, Copy)]
pub struct Subject {
    pub name: &'static str,
    pub f: SubjectFn,
    /// Relative share of the case budget, 100 is normal.
    pub weight: u32,
    pub max_ops: usize,
}

/// Payload of panics injected by the harness itself.
pub struct Injected;

/// `"<type>/<check>"` for one of the per-type checks.
#[macro_export]
macro_rules! subject_of {
    ($w:expr, $m:expr, $f:ident, $t:ty) => {
        $crate::case::Subject {
            name: concat!(stringify!($t), "/", stringify!($f)),
            f: $crate::types::$f::<$t>,
            weight: $w,
            max_ops: $m,
        }
    };
}
