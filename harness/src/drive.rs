//! Drives an arbitrary double-ended iterator against a deque of the items it must still yield.
use std::collections::VecDeque;
use std::fmt::Debug;

/// Identical copies of the driver: rustc puts all instances of one module into one codegen unit.
pub mod d0 { include!("drive_impl.rs"); }
pub mod d1 { include!("drive_impl.rs"); }
pub mod d2 { include!("drive_impl.rs"); }
pub mod d3 { include!("drive_impl.rs"); }
pub mod d4 { include!("drive_impl.rs"); }
pub mod d5 { include!("drive_impl.rs"); }
pub mod d6 { include!("drive_impl.rs"); }
pub mod d7 { include!("drive_impl.rs"); }

pub struct Hooks<'h, I, M> {
    /// size_hint must be exact (and `len` checked).
    pub len: Option<fn(&I) -> usize>,
    pub clone: Option<fn(&I) -> I>,
    /// (iterator, selector, k, remaining) -> (what, got, want)
    pub adapters: Option<fn(I, u8, usize, usize) -> (&'static str, usize, usize)>,
    pub fmt: Option<&'h dyn Fn(&I, &VecDeque<M>) -> Result<(), String>>,
}

impl<'h, I, M> Default for Hooks<'h, I, M> {
    fn default() -> Self {
        Hooks { len: None, clone: None, adapters: None, fmt: None }
    }
}

const NONE: usize = usize::MAX;

/// Lengths reported through standard adapters that rely on `ExactSizeIterator`.
pub fn exact_adapters<I: ExactSizeIterator + DoubleEndedIterator>(
    it: I,
    sel: u8,
    k: usize,
    n: usize,
) -> (&'static str, usize, usize) {
    let o = |x: Option<usize>| x.unwrap_or(NONE);
    match sel % 10 {
        0 => ("skip(k).len()", it.skip(k).len(), n.saturating_sub(k)),
        1 => ("take(k).len()", it.take(k).len(), n.min(k)),
        2 => ("zip(0..k).len()", it.zip(0..k).len(), n.min(k)),
        3 => ("enumerate().next_back().0", o(it.enumerate().next_back().map(|x| x.0)), o(n.checked_sub(1))),
        4 => {
            let mut it = it;
            ("rposition(true)", o(it.rposition(|_| true)), o(n.checked_sub(1)))
        }
        5 => ("step_by(k+1).len()", it.step_by(k + 1).len(), n.div_ceil(k + 1)),
        6 => ("peekable().len()", it.peekable().len(), n),
        7 => ("rev().len()", it.rev().len(), n),
        8 => ("zip(0..k).rev().count()", it.zip(0..k).rev().count(), n.min(k)),
        _ => ("skip(k).rev().count()", it.skip(k).rev().count(), n.saturating_sub(k)),
    }
}

#[derive(Default, Clone, Copy)]
pub struct Stats {
    pub front: usize,
    pub back: usize,
    pub mixed: bool,
    pub jumped: bool,
    pub exhausted: bool,
    pub clones: usize,
    pub fmts: usize,
}

/// Checks plain and pretty Debug text against a reference object.
pub fn fmt_eq(got: &dyn Debug, want: &dyn Debug, what: &str) -> Result<(), String> {
    let (g, w) = (format!("{:?}", got), format!("{:?}", want));
    if g != w {
        return Err(format!("Debug of {what}: {g}, expected {w}"));
    }
    let (g, w) = (format!("{:#?}", got), format!("{:#?}", want));
    if g != w {
        return Err(format!("pretty Debug of {what}: {g}, expected {w}"));
    }
    Ok(())
}
