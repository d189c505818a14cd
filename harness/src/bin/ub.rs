//! `ub emit <C21|C27> <seed> <n> <max ops>` (native) writes cases; `ub file <path>` (native, Miri or
//! sanitizer) executes them, one `subject|case` per line, announcing each on standard output.
use omv::case::{Case, Ctx, Subject};
use std::io::Write;

fn subjects(id: &str) -> Vec<Subject> {
    match id {
        "C21" => vec![
            Subject { name: "threads", f: omv::atomic::threads, weight: 100, max_ops: 12 },
            Subject { name: "counter", f: omv::atomic::counter, weight: 100, max_ops: 1 },
        ],
        _ => omv::ub::subjects(),
    }
}

fn execute(path: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let all: Vec<(bool, Subject)> =
        subjects("C21").into_iter().map(|s| (true, s)).chain(subjects("C27").into_iter().map(|s| (false, s))).collect();
    let text = std::fs::read_to_string(path).unwrap();
    let ctx = Ctx { clone: true, ..Ctx::default() };
    let say = |s: String| {
        let mut out = std::io::stdout().lock();
        writeln!(out, "{s}").unwrap();
        out.flush().unwrap();
    };
    for (i, l) in text.lines().enumerate() {
        let (name, case) = l.split_once('|').unwrap();
        let (results, s) = all.iter().find(|s| s.1.name == name).unwrap_or_else(|| panic!("no subject {name}"));
        let c = Case::decode(case).unwrap();
        say(format!("@{i}"));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.f)(&c, &ctx)));
        // C27 is about undefined behaviour alone: wrong results are for the other checks, but a
        // value dropped twice or used after its end shows it even where no tool watches.
        let bad = match r {
            Ok(Ok(info)) => {
                if info.nontrivial {
                    say(format!("+{i}"));
                }
                omv::drops::errors().err()
            }
            Ok(Err(e)) if *results => Some(e),
            Err(p) if *results => {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
                Some(format!("panic: {}", m.unwrap_or_default()))
            }
            _ => omv::drops::errors().err(),
        };
        if let Some(e) = bad {
            say(format!("FAIL {e}"));
            std::process::exit(3);
        }
    }
    say("DONE".into());
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "file" {
        return execute(&a[2]);
    }
    #[cfg(feature = "pbt")]
    omv::engine::main(
        ["C21", "C27"]
            .iter()
            .map(|id| omv::engine::Prop { id, rule: "", subjects: subjects(id), ctx: || Ctx { clone: true, ..Ctx::default() }, quick: 2000, thorough: 200_000 })
            .collect(),
    );
}
