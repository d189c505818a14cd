//! Runs subjects under proptest, in parallel shards, deterministically from one seed, and
//! reports evaluations, distinct non-trivial cases, samples, and shrunk failures as JSON.
use crate::case::{Case, Ctx, Info, Injected, Op, Subject};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub subjects: Vec<Subject>,
    pub ctx: fn() -> Ctx,
    /// Cases per subject of weight 100.
    pub quick: u32,
    pub thorough: u32,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<Injected>() {
            return;
        }
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic: {m}{l}"));
    }));
}

/// Runs one case; a panic is a failure.
pub fn run_case(s: &Subject, c: &Case, ctx: &Ctx) -> Result<Info, String> {
    match catch_unwind(AssertUnwindSafe(|| (s.f)(c, ctx))) {
        Ok(r) => r,
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn traced(s: &Subject, c: &Case, mk: fn() -> Ctx) -> (Result<Info, String>, Vec<String>) {
    let mut ctx = mk();
    ctx.tracing = true;
    let r = run_case(s, c, &ctx);
    let mut t = ctx.trace.into_inner();
    for l in &mut t {
        if l.len() > 220 {
            let mut e = 220;
            while !l.is_char_boundary(e) {
                e -= 1;
            }
            l.truncate(e);
            l.push_str("...");
        }
    }
    if t.len() > 24 {
        let n = t.len() - 24;
        t.truncate(24);
        t.push(format!("... {n} more steps"));
    }
    (r, t)
}

fn h64(x: impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn rng(seed: u64, what: &str, shard: usize) -> TestRng {
    let mut s = [0u8; 32];
    for i in 0..4 {
        s[i * 8..i * 8 + 8].copy_from_slice(&h64((seed, what, shard, i)).to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &s)
}

pub fn cases(max_ops: usize) -> impl Strategy<Value = Case> {
    let op = || (any::<u8>(), any::<u16>(), any::<u32>()).prop_map(|(k, a, b)| Op { k, a, b });
    let short = (max_ops / 6).max(1);
    (any::<u64>(), prop_oneof![1 => vec(op(), 0..=short), 3 => vec(op(), 0..=max_ops)])
        .prop_map(|(h, ops)| Case { h, ops })
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Tally {
    evals: u64,
    nontrivial: HashSet<u64>,
    tags: BTreeMap<&'static str, u64>,
    per: BTreeMap<&'static str, (u64, u64)>,
    samples: Vec<String>,
    fails: Vec<String>,
}

fn failure_json(s: &Subject, c: &Case, msg: &str, mk: fn() -> Ctx) -> String {
    let (r, t) = traced(s, c, mk);
    let again = match r {
        Err(e) => e,
        Ok(_) => format!("(did not fail on re-run) {msg}"),
    };
    format!(
        "{{\"subject\":{},\"case\":{},\"message\":{},\"trace\":[{}]}}",
        js(s.name),
        js(&c.encode()),
        js(&again),
        t.iter().map(|l| js(l)).collect::<Vec<_>>().join(",")
    )
}

/// What a worker thread is executing, for the watchdog.
type Slot = Mutex<Option<(Instant, &'static str, Case)>>;

/// A case takes micro- to milliseconds; one that takes this long does not terminate.
const HANG: Duration = Duration::from_secs(60);

#[allow(clippy::too_many_arguments)]
fn run_job(p: &Prop, s: &Subject, shard: usize, n: u32, seed: u64, out: &Mutex<Tally>, careful: &Option<String>, slot: &Slot) {
    let mut runner = TestRunner::new_with_rng(
        Config { cases: n, failure_persistence: None, max_shrink_iters: 30_000, max_shrink_time: 12_000, ..Config::default() },
        rng(seed, &format!("{}/{}", p.id, s.name), shard),
    );
    let evals = Cell::new(0u64);
    let nt = RefCell::new(HashSet::<u64>::new());
    let tags = RefCell::new(BTreeMap::<&'static str, u64>::new());
    let samples = RefCell::new(Vec::<Case>::new());
    let failed = Cell::new(false);
    let ctx = (p.ctx)();
    let path = careful.as_ref().map(|d| format!("{d}/{}.{}.case", s.name.replace('/', "_"), shard));
    let r = runner.run(&cases(s.max_ops), |c| {
        if let Some(f) = &path {
            std::fs::write(f, format!("{}\n{}\n", s.name, c.encode())).unwrap();
        }
        *slot.lock().unwrap() = Some((Instant::now(), s.name, c.clone()));
        let r = run_case(s, &c, &ctx);
        *slot.lock().unwrap() = None;
        if !failed.get() {
            evals.set(evals.get() + 1);
        }
        match r {
            Ok(i) => {
                if !failed.get() && i.nontrivial {
                    for t in &i.tags {
                        *tags.borrow_mut().entry(t).or_default() += 1;
                    }
                    let fresh = nt.borrow_mut().insert(h64((s.name, &c)));
                    if fresh && shard == 0 && samples.borrow().len() < 2 && c.ops.len() <= 12 {
                        samples.borrow_mut().push(c);
                    }
                }
                Ok(())
            }
            Err(e) => {
                failed.set(true);
                Err(TestCaseError::fail(e))
            }
        }
    });
    if let Some(f) = &path {
        let _ = std::fs::remove_file(f);
    }
    let mut fails = Vec::new();
    match r {
        Ok(()) => {}
        Err(TestError::Fail(why, c)) => fails.push(failure_json(s, &c, why.message(), p.ctx)),
        Err(TestError::Abort(why)) => panic!("proptest aborted: {}", why.message()),
    }
    let smp: Vec<String> = samples
        .into_inner()
        .iter()
        .map(|c| {
            let (_, t) = traced(s, c, p.ctx);
            format!(
                "{{\"subject\":{},\"case\":{},\"trace\":[{}]}}",
                js(s.name),
                js(&c.encode()),
                t.iter().take(14).map(|l| js(l)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    let mut t = out.lock().unwrap();
    t.evals += evals.get();
    let e = t.per.entry(s.name).or_default();
    e.0 += evals.get();
    e.1 += nt.borrow().len() as u64;
    t.nontrivial.extend(nt.into_inner());
    for (k, v) in tags.into_inner() {
        *t.tags.entry(k).or_default() += v;
    }
    t.samples.extend(smp);
    t.fails.extend(fails);
}

/// Reports a case that does not terminate, and ends the process.
fn watchdog(slots: &[Slot], done: &AtomicUsize, out: &str, rule: &str) {
    while done.load(Ordering::Relaxed) < slots.len() {
        std::thread::sleep(Duration::from_millis(20));
        for s in slots {
            let g = s.lock().unwrap();
            let Some((t, name, case)) = &*g else { continue };
            if t.elapsed() > HANG {
                let json = format!(
                    "{{\"evaluations\":1,\"distinct_nontrivial\":1,\"rule\":{},\"samples\":[],\"tags\":{{}},\"subjects\":{{}},\"failures\":[{{\"subject\":{},\"case\":{},\"message\":\"the case did not finish within {} s\",\"trace\":[]}}]}}",
                    js(rule),
                    js(name),
                    js(&case.encode()),
                    HANG.as_secs()
                );
                std::fs::write(out, json).unwrap();
                std::process::exit(0);
            }
        }
    }
}

/// `run <id> <seed> <quick|thorough> <out.json>`, `replay <id> <subject> <case...>`,
/// `emit <id> <seed> <n>`, `list`.
pub fn main(props: Vec<Prop>) {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id}"));
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{} {}", p.id, p.subjects.len());
            }
        }
        Some("run") => {
            let p = find(&a[2]);
            let seed: u64 = a[3].parse().unwrap();
            let thorough = a[4] == "thorough";
            let scale: f64 = std::env::var("OMV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let careful = std::env::var("OMV_CAREFUL").ok();
            let base = if thorough { p.thorough } else { p.quick } as f64 * scale;
            let mut jobs: Vec<(usize, usize, u32)> = Vec::new();
            for (i, s) in p.subjects.iter().enumerate() {
                let n = (base * s.weight as f64 / 100.0).max(8.0) as u32;
                let shards = 8;
                for sh in 0..shards {
                    jobs.push((i, sh as usize, n.div_ceil(shards)));
                }
            }
            // Biggest first.
            jobs.sort_by_key(|j| std::cmp::Reverse(j.2));
            let next = AtomicUsize::new(0);
            let tally = Mutex::new(Tally::default());
            let nthreads = std::env::var("OMV_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
            let slots: Vec<Slot> = (0..nthreads).map(|_| Mutex::new(None)).collect();
            let done = AtomicUsize::new(0);
            std::thread::scope(|sc| {
                sc.spawn(|| watchdog(&slots, &done, &a[5], p.rule));
                for slot in &slots {
                    let (next, jobs, tally, careful, done) = (&next, &jobs, &tally, &careful, &done);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            loop {
                                let j = next.fetch_add(1, Ordering::Relaxed);
                                let Some(&(i, sh, n)) = jobs.get(j) else { break };
                                run_job(p, &p.subjects[i], sh, n, seed, tally, careful, slot);
                            }
                            done.fetch_add(1, Ordering::Relaxed);
                        })
                        .unwrap();
                }
            });
            let mut t = tally.into_inner().unwrap();
            t.samples.sort();
            t.samples.dedup();
            t.fails.sort();
            let json = format!(
                "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"tags\":{{{}}},\"subjects\":{{{}}},\"failures\":[{}]}}",
                t.evals,
                t.nontrivial.len(),
                js(p.rule),
                t.samples.join(","),
                t.tags.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","),
                t.per.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(","),
                t.fails.join(",")
            );
            std::fs::write(&a[5], json).unwrap();
        }
        Some("replay") => {
            let p = find(&a[2]);
            let s = p.subjects.iter().find(|s| s.name == a[3]).expect("subject");
            let c = Case::decode(&a[4..].join(" ")).expect("case");
            let (r, t) = traced(s, &c, p.ctx);
            for l in t {
                println!("  {l}");
            }
            match r {
                Ok(_) => println!("OK"),
                Err(e) => {
                    println!("FAIL {e}");
                    std::process::exit(1);
                }
            }
        }
        Some("emit") => {
            // Cases for another executor (Miri): one `subject|case` per line.
            let p = find(&a[2]);
            let seed: u64 = a[3].parse().unwrap();
            let n: usize = a[4].parse().unwrap();
            let max: usize = a.get(5).and_then(|s| s.parse().ok()).unwrap_or(24);
            for s in &p.subjects {
                let mut runner = TestRunner::new_with_rng(Config::default(), rng(seed, &format!("emit/{}/{}", p.id, s.name), 0));
                let st = cases(max.min(s.max_ops));
                for _ in 0..n {
                    let c = st.new_tree(&mut runner).unwrap().current();
                    println!("{}|{}", s.name, c.encode());
                }
            }
        }
        _ => panic!("usage"),
    }
}
