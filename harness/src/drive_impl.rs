// Included several times (see drive.rs) so that instantiations spread over codegen units.
use crate::case::{Ctx, Op};
use crate::drive::{Hooks, Stats};
use crate::tr;
use std::collections::VecDeque;
use std::fmt::Debug;

fn hint_check<I: Iterator, M>(it: &I, model: &VecDeque<M>, h: &Hooks<'_, I, M>) -> Result<(), String> {
    let n = model.len();
    let (lo, hi) = it.size_hint();
    if let Some(len) = h.len {
        if (lo, hi) != (n, Some(n)) {
            return Err(format!("size_hint is {:?}, {} items remain", (lo, hi), n));
        }
        let l = len(it);
        if l != n {
            return Err(format!("len() is {}, {} items remain", l, n));
        }
    } else if lo > n || hi.is_some_and(|h| h < n) {
        return Err(format!("size_hint is {:?}, {} items remain", (lo, hi), n));
    }
    Ok(())
}

/// Consumes the iterator in one of many ways and compares with the model.
/// Returns the items that were handed to us (in order of appearance).
fn terminal<I, M>(
    mut it: I,
    sel: u8,
    k: usize,
    model: VecDeque<M>,
    conv: &mut dyn FnMut(I::Item) -> M,
    h: &Hooks<'_, I, M>,
    ctx: &Ctx,
) -> Result<Vec<M>, String>
where
    I: DoubleEndedIterator,
    M: PartialEq + Debug + Clone,
{
    let cap = model.len() + 4;
    let want: Vec<M> = model.iter().cloned().collect();
    let wrev: Vec<M> = model.iter().rev().cloned().collect();
    let n = want.len();
    let mut out: Vec<M> = Vec::new();
    let push = |m: M, out: &mut Vec<M>| {
        out.push(m);
        assert!(out.len() <= cap, "iterator yields more items than it should: {:?}", out);
    };
    let expect: Vec<M>;
    let what: &str;
    match sel % 16 {
        0 => {
            what = "collect";
            while let Some(x) = it.next() {
                push(conv(x), &mut out);
            }
            for _ in 0..2 {
                if it.next().is_some() || it.next_back().is_some() {
                    return Err("exhausted iterator yields again".into());
                }
            }
            expect = want;
        }
        1 => {
            what = "next_back until exhausted";
            while let Some(x) = it.next_back() {
                push(conv(x), &mut out);
            }
            for _ in 0..2 {
                if it.next_back().is_some() || it.next().is_some() {
                    return Err("exhausted iterator yields again".into());
                }
            }
            expect = wrev;
        }
        2 => {
            what = "fold";
            it.fold((), |(), x| push(conv(x), &mut out));
            expect = want;
        }
        3 => {
            what = "rfold";
            it.rfold((), |(), x| push(conv(x), &mut out));
            expect = wrev;
        }
        4 => {
            what = "for_each";
            it.for_each(|x| push(conv(x), &mut out));
            expect = want;
        }
        5 => {
            what = "rev().for_each";
            it.rev().for_each(|x| push(conv(x), &mut out));
            expect = wrev;
        }
        6 => {
            let c = it.count();
            if c != n {
                return Err(format!("count() is {}, {} items remain", c, n));
            }
            return Ok(out);
        }
        7 => {
            what = "last";
            if let Some(x) = it.last() {
                push(conv(x), &mut out);
            }
            expect = want.last().cloned().into_iter().collect();
        }
        8 => {
            what = "skip(k)";
            for x in it.skip(k) {
                push(conv(x), &mut out);
            }
            expect = want.into_iter().skip(k).collect();
        }
        9 => {
            what = "step_by(k+1)";
            for x in it.step_by(k + 1) {
                push(conv(x), &mut out);
            }
            expect = want.into_iter().step_by(k + 1).collect();
        }
        10 => {
            what = "collect::<Vec>";
            let v: Vec<I::Item> = it.take(cap).collect();
            for x in v {
                push(conv(x), &mut out);
            }
            expect = want;
        }
        11 => {
            what = "rev().skip(k)";
            for x in it.rev().skip(k) {
                push(conv(x), &mut out);
            }
            expect = wrev.into_iter().skip(k).collect();
        }
        12 => {
            what = "enumerate/peekable";
            let mut p = it.peekable();
            let _ = p.peek();
            for (i, x) in p.enumerate() {
                if i != out.len() {
                    return Err("enumerate index".into());
                }
                push(conv(x), &mut out);
            }
            expect = want;
        }
        13 => {
            what = "rev().last()";
            if let Some(x) = it.rev().last() {
                push(conv(x), &mut out);
            }
            expect = want.first().cloned().into_iter().collect();
        }
        _ => {
            if let Some(ad) = h.adapters {
                let (w, got, exp) = ad(it, k as u8, k / 3, n);
                tr!(ctx, "{w} (k={}) -> {got}", k / 3);
                if got != exp {
                    return Err(format!("{w} with k={} is {got}, expected {exp} ({n} items remain)", k / 3));
                }
                return Ok(out);
            }
            what = "alternating ends";
            let mut w = model;
            let mut e = Vec::new();
            let mut front = k % 2 == 0;
            while let Some(x) = if front { it.next() } else { it.next_back() } {
                push(conv(x), &mut out);
                if let Some(m) = if front { w.pop_front() } else { w.pop_back() } {
                    e.push(m);
                }
                front = !front;
            }
            e.extend(w);
            expect = e;
        }
    }
    tr!(ctx, "{what} (k={k}) -> {:?}", out);
    if out != expect {
        return Err(format!("{what} (k={k}): got {:?}, expected {:?}", out, expect));
    }
    Ok(out)
}

/// Returns the items handed out, in order, and what was exercised.
pub fn drive<I, M>(
    it: I,
    mut model: VecDeque<M>,
    ops: &[Op],
    fin: u64,
    conv: &mut dyn FnMut(I::Item) -> M,
    h: &Hooks<'_, I, M>,
    ctx: &Ctx,
) -> Result<(Vec<M>, Stats), String>
where
    I: DoubleEndedIterator,
    M: PartialEq + Debug + Clone,
{
    let mut it = it;
    let mut log: Vec<M> = Vec::new();
    let mut st = Stats::default();
    hint_check(&it, &model, h)?;
    macro_rules! got {
        ($what:expr, $x:expr, $want:expr) => {{
            let g: Option<M> = $x.map(|x| conv(x));
            let w: Option<M> = $want;
            tr!(ctx, "{} -> {:?}", $what, g);
            if g != w {
                return Err(format!("{}: got {:?}, expected {:?}", $what, g, w));
            }
            log.extend(g);
        }};
    }
    for op in ops {
        let n = model.len();
        // Mostly short jumps, so that sequences stay long.
        let j = match op.b % 8 {
            0..=5 => (op.a % 3) as usize,
            6 => op.a as usize % (n + 2),
            _ => n.saturating_sub((op.a % 3) as usize),
        };
        if n == 0 {
            st.exhausted = true;
        }
        match op.k % 32 {
            0..=7 => {
                got!("next", it.next(), model.pop_front());
                st.front += 1;
            }
            8..=14 => {
                got!("next_back", it.next_back(), model.pop_back());
                st.back += 1;
            }
            15 | 16 => {
                let w = if j < n { model.drain(..j + 1).last() } else { model.clear(); None };
                got!(format!("nth({j})"), it.nth(j), w);
                st.jumped = true;
            }
            17 | 18 => {
                let w = if j < n {
                    let t = model.split_off(n - j - 1);
                    t.into_iter().next()
                } else {
                    model.clear();
                    None
                };
                got!(format!("nth_back({j})"), it.nth_back(j), w);
                st.jumped = true;
            }
            19 => {
                let mut c = 0usize;
                let mut seen = Vec::new();
                // find: stop at the j-th item offered.
                let g = it.by_ref().find(|_| {
                    c += 1;
                    assert!(c <= n + 4, "find: too many items");
                    c == j + 1
                });
                let w = if j < n { model.drain(..j + 1).last() } else { model.clear(); None };
                let g = g.map(|x| conv(x));
                if g != w {
                    return Err(format!("find {j}: got {:?}, expected {:?}", g, w));
                }
                seen.extend(g);
                tr!(ctx, "find #{j} -> {:?}", seen);
                log.extend(seen);
                st.jumped = true;
            }
            20 => {
                let mut c = 0usize;
                let g = it.by_ref().rfind(|_| {
                    c += 1;
                    assert!(c <= n + 4, "rfind: too many items");
                    c == j + 1
                });
                let w = if j < n { model.split_off(n - j - 1).into_iter().next() } else { model.clear(); None };
                got!(format!("rfind #{j}"), g, w);
                st.jumped = true;
            }
            21 => {
                let mut seen = Vec::new();
                let ok = it.by_ref().all(|x| {
                    seen.push(conv(x));
                    assert!(seen.len() <= n + 4, "all: too many items");
                    seen.len() <= j
                });
                let w: Vec<M> = model.drain(..(j + 1).min(n)).collect();
                tr!(ctx, "all (stop after {j}) -> {:?}", seen);
                if seen != w || ok != (n <= j) {
                    return Err(format!("all: got {:?} {ok}, expected {:?}", seen, w));
                }
                log.extend(seen);
            }
            22 => {
                let mut c = 0usize;
                let g = it.by_ref().position(|_| {
                    c += 1;
                    assert!(c <= n + 4, "position: too many items");
                    c == j + 1
                });
                tr!(ctx, "position #{j} -> {:?}", g);
                if g != if j < n { Some(j) } else { None } {
                    return Err(format!("position: got {:?}, item {j} of {n}", g));
                }
                model.drain(..(j + 1).min(n));
                st.jumped = true;
            }
            23 => {
                let g: Vec<M> = it.by_ref().take(j).map(|x| conv(x)).collect();
                let w: Vec<M> = model.drain(..j.min(n)).collect();
                tr!(ctx, "take({j}) -> {:?}", g);
                if g != w {
                    return Err(format!("take({j}): got {:?}, expected {:?}", g, w));
                }
                log.extend(g);
            }
            24 => {
                let g: Vec<M> = it.by_ref().rev().take(j).map(|x| conv(x)).collect();
                let mut w: Vec<M> = model.split_off(n - j.min(n)).into_iter().collect();
                w.reverse();
                tr!(ctx, "rev().take({j}) -> {:?}", g);
                if g != w {
                    return Err(format!("rev().take({j}): got {:?}, expected {:?}", g, w));
                }
                log.extend(g);
            }
            25 => {
                let mut seen = Vec::new();
                let r = it.try_rfold(0usize, |c, x| {
                    seen.push(conv(x));
                    assert!(seen.len() <= n + 4, "try_rfold: too many items");
                    if c == j { Err(c) } else { Ok(c + 1) }
                });
                let mut w: Vec<M> = model.split_off(n - (j + 1).min(n)).into_iter().collect();
                w.reverse();
                tr!(ctx, "try_rfold (stop at {j}) -> {:?}", seen);
                if seen != w || r.is_err() != (j < n) {
                    return Err(format!("try_rfold: got {:?}, expected {:?}", seen, w));
                }
                log.extend(seen);
            }
            26..=28 => {
                if let (true, Some(cl)) = (ctx.clone || ctx.mode == 1, h.clone) {
                    let c = cl(&it);
                    st.clones += 1;
                    tr!(ctx, "clone:");
                    hint_check(&c, &model, h)?;
                    if op.b & 1 == 0 {
                        terminal(c, op.a as u8, j, model.clone(), conv, h, ctx).map_err(|e| format!("clone: {e}"))?;
                    } else {
                        // Continue with the clone, exhaust the original instead.
                        let orig = std::mem::replace(&mut it, c);
                        terminal(orig, op.a as u8, j, model.clone(), conv, h, ctx)
                            .map_err(|e| format!("original after clone: {e}"))?;
                    }
                }
            }
            _ => {
                if let (true, Some(f)) = (ctx.fmt, h.fmt) {
                    f(&it, &model)?;
                    st.fmts += 1;
                }
            }
        }
        if st.front > 0 && st.back > 0 {
            st.mixed = true;
        }
        hint_check(&it, &model, h)?;
    }
    if let (true, Some(f)) = (ctx.fmt, h.fmt) {
        f(&it, &model)?;
        st.fmts += 1;
    }
    let rest = terminal(it, fin as u8, (fin >> 8) as usize % 7, model, conv, h, ctx)?;
    log.extend(rest);
    Ok((log, st))
}

