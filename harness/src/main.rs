mod cap;
mod cmp;
mod engine;
mod props;
mod refp;
mod sched;
mod schema;
mod sup;
mod sut;
mod v;

use engine::*;
use refp::lexer::K;
use refp::{Goal, Outcome, Reject};
use std::collections::HashSet;
use std::io::{self, BufRead, Write};
use std::process::{exit, Command};
use std::sync::atomic::Ordering::*;
use std::time::Instant;
use v::V;

#[global_allocator]
static ALLOC: sup::A = sup::A;

fn root() -> String {
    std::env::var("GC_ROOT").unwrap_or_else(|_| "/verif".into())
}

/// known findings of a property: lines `finding: property=C01 goal=script input="json string" what`
fn known_lines(id: &str) -> Vec<(Goal, String, String)> {
    let mut out = vec![];
    let f = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    for l in f.lines() {
        if let Some(r) = l.strip_prefix(&format!("finding: property={} ", id)) {
            let (g, r) = if let Some(r) = r.strip_prefix("goal=script input=") {
                (Goal::Script, r)
            } else if let Some(r) = r.strip_prefix("goal=module input=") {
                (Goal::Module, r)
            } else {
                continue;
            };
            let mut de = serde_json::Deserializer::from_str(r).into_iter::<String>();
            if let Some(Ok(s)) = de.next() {
                out.push((g, s, r[de.byte_offset()..].trim().to_string()));
            }
        }
    }
    out
}
pub fn known(id: &str) -> HashSet<(Goal, String)> {
    known_lines(id).into_iter().map(|x| (x.0, x.1)).collect()
}

/// Does the text an unexpected-token error carries name this token?
pub fn names_token(name: &str, k: &K, src: &[char], r: &Reject) -> bool {
    let raw: String = src[r.pos..r.end].iter().collect();
    match k {
        K::Id { name: n, .. } => name == n || name == raw,
        // in a place that accepts neither, a slash may be read as the start of a regular expression
        K::P(p @ ("/" | "/=")) => name.starts_with(p) && src[r.pos..].iter().collect::<String>().starts_with(name),
        // the chunk of a template that the brace begins
        K::P("}") if src[..r.pos].contains(&'`') => {
            let chunk: String = src[r.pos + 1..].iter().collect();
            name == "}" || chunk.replace("\r\n", "\n").replace('\r', "\n").starts_with(name)
        }
        K::P(p) => name == *p,
        K::Num(n) => name == raw || name.parse::<f64>().map_or(false, |x| x == *n),
        K::Str(s) => name == raw || name == s,
        // template chunks and regular expressions: the text that opens them must be recognisable
        K::Tpl { raw: t, cooked, .. } => {
            name == raw || raw.starts_with(name) && !name.is_empty() || name == t || Some(name) == cooked.as_deref()
        }
        K::Regex { .. } => name == raw || raw.starts_with(name) && !name.is_empty(),
        _ => true,
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("dev-ref") => dev_ref(),
        Some("one") => {
            // one GOAL FILE: parse a single text with giron only (crash confirmation)
            sup::child_init(None);
            let t = std::fs::read_to_string(&a[3]).unwrap();
            let g = if a[2] == "module" { Goal::Module } else { Goal::Script };
            let h = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let o = sut::run(&t, g);
                    println!("{}", cut(&o.short(), 4000));
                })
                .unwrap();
            let _ = h.join();
        }
        Some("try") => {
            sup::child_init(None);
            let g = if a[2] == "module" { Goal::Module } else { Goal::Script };
            let mut c = Ctx::new("try", Tier::Quick);
            c.check_pos = true;
            c.check_schema = true;
            let cs: Vec<char> = a[3].chars().collect();
            let (o, obs) = c.judge_str(&cs, &a[3], g);
            println!("model: {}\ngiron: {}\nverdict: {:?}", oshort(&o), obs.short(), c.verdict(&cs, g, &o, &obs));
        }
        Some("obs") => {
            sup::child_init(None);
            let mut t = String::new();
            io::Read::read_to_string(&mut io::stdin(), &mut t).unwrap();
            let g = if a[2] == "module" { Goal::Module } else { Goal::Script };
            // the same call again and again: the first answer, or the first that differs from it
            let times: usize = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
            let first = sut::run(&t, g);
            for k in 1..times {
                let (same, got) = if k + 1 == times {
                    let o = sut::run(&t, g);
                    (o == first, o)
                } else {
                    match (sut::raw(&t, g), &first) {
                        (Ok(_), sut::Obs::Ok(_)) => continue,
                        (Ok(_), _) => (false, sut::run(&t, g)),
                        (Err(e), o) => {
                            let e = sut::err_obs(&e);
                            (e == *o, e)
                        }
                    }
                };
                if !same {
                    print!("call {}: {}", k + 1, got.short());
                    return;
                }
            }
            print!("{}", first.short());
        }
        Some("replay") => replay(&a[2]),
        Some("check") => {
            let id = a[2].clone();
            let tier = if a.get(3).map(|s| s == "thorough").unwrap_or(false) { "thorough" } else { "quick" };
            if std::env::var("GC_CHILD").is_ok() {
                exit(child(&id, tier));
            } else {
                exit(parent(&id, tier));
            }
        }
        _ => {
            eprintln!("usage: gcheck check ID [quick|thorough] | replay FILE | try GOAL TEXT | dev-ref");
            exit(2)
        }
    }
}

fn dev_ref() {
    let out = io::stdout();
    let mut out = io::BufWriter::new(out.lock());
    for l in io::stdin().lock().lines() {
        let l = l.unwrap();
        let (s, m): (String, bool) = serde_json::from_str(&l).unwrap();
        let cs: Vec<char> = s.chars().collect();
        match refp::parse(&cs, if m { Goal::Module } else { Goal::Script }) {
            Outcome::Accept(v) => writeln!(out, "A {}", v.to_json()),
            Outcome::May(v) => writeln!(out, "M {}", v.to_json()),
            Outcome::Reject(r) => writeln!(out, "R {{\"pos\":{},\"exact\":{}}}", r.pos, r.exact),
            Outcome::Unspec => writeln!(out, "U"),
        }
        .unwrap();
    }
}

fn parent(id: &str, tier: &str) -> i32 {
    let dir = format!("{}/out", root());
    let _ = std::fs::create_dir_all(format!("{}/replay", dir));
    let journal = format!("{}/journal-{}-{}", dir, id, std::process::id());
    let f = std::fs::File::create(&journal).expect("journal file");
    f.set_len((sup::SLOTS * sup::SLOT) as u64).unwrap();
    drop(f);
    let st = Command::new(std::env::current_exe().unwrap())
        .args(["check", id, tier])
        .env("GC_CHILD", "1")
        .env("GC_JOURNAL", &journal)
        .status()
        .expect("child");
    let code = st.code();
    let slots = sup::read_journal(&journal);
    let _ = std::fs::remove_file(&journal);
    match code {
        Some(0) => return 0,
        Some(1) => return 1,
        Some(sup::EXIT_MODEL_HANG) => {
            eprintln!("ENGINE: the reference model did not finish: {:?}", slots);
            return 2;
        }
        _ => {}
    }
    // crash, hang or runaway allocation: confirm on the journalled texts, one at a time
    let why = match code {
        Some(sup::EXIT_GIRON_ALLOC) => "unbounded memory".to_string(),
        Some(sup::EXIT_GIRON_HANG) => format!("no answer within {} s", sup::HANG_S),
        Some(c) => format!("exit {}", c),
        None => format!("killed ({})", st),
    };
    for (phase, goal, text) in slots {
        if phase != 1 {
            continue;
        }
        let f = format!("{}/crash-{}.txt", dir, std::process::id());
        std::fs::write(&f, &text).unwrap();
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args(["one", gname(goal), &f])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .spawn()
            .unwrap();
        let t = Instant::now();
        let res = loop {
            if let Some(s) = c.try_wait().unwrap() {
                break Some(s);
            }
            if t.elapsed().as_secs() > sup::HANG_S {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            std::thread::sleep(std::time::Duration::from_millis(20));
        };
        let _ = std::fs::remove_file(&f);
        let bad = match res {
            None => true,
            Some(s) => !s.success(),
        };
        if bad {
            let p = write_replay(id, 0, goal, &text, &format!("giron gives no answer: {}", why));
            println!("giron gives no answer ({}) on {} {:?}", why, gname(goal), cut(&text, 300));
            println!("VIOLATION property={} replay={}", id, p);
            return 1;
        }
    }
    eprintln!("ENGINE: child ended with {} and nothing was confirmed", why);
    2
}

fn write_replay(id: &str, n: usize, goal: Goal, text: &str, msg: &str) -> String {
    let p = format!("{}/out/replay/{}-{}.json", root(), id, n);
    let v = V::Obj(vec![
        ("property", V::s(id)),
        ("goal", V::s(gname(goal))),
        ("source", V::s(text)),
        ("what", V::s(msg)),
    ]);
    let _ = std::fs::write(&p, v.to_json() + "\n");
    p
}

fn replay(f: &str) {
    sup::child_init(None);
    let s = std::fs::read_to_string(f).expect("replay file");
    let j: serde_json::Value = serde_json::from_str(&s).expect("json");
    let src = j["source"].as_str().unwrap().to_string();
    let goal = if j["goal"] == "module" { Goal::Module } else { Goal::Script };
    println!("source ({}): {:?}\nrecorded: {}", gname(goal), src, j["what"].as_str().unwrap_or(""));
    let mut c = Ctx::new("replay", Tier::Quick);
    c.check_pos = true;
    c.check_schema = true;
    let cs: Vec<char> = src.chars().collect();
    let (o, obs) = c.judge_str(&cs, &src, goal);
    println!("model: {}\ngiron: {}\nverdict now: {:?}", oshort(&o), cut(&obs.short(), 2000), c.verdict(&cs, goal, &o, &obs));
}

fn child(id: &str, tier: &str) -> i32 {
    sup::child_init(std::env::var("GC_JOURNAL").ok().as_deref());
    let t = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    let mut c = Ctx::new(id, t);
    let kn = known_lines(id);
    if !props::run(id, &mut c) {
        eprintln!("unknown property {}", id);
        return 2;
    }
    // listed findings are looked at on their own, so that they are reported on every run
    for (g, s, what) in &kn {
        c.judge_s(s, *g);
        if c.known_hit.lock().unwrap().contains(&(*g, s.clone())) {
            println!("KNOWN-FINDING: property={} {} {:?}: {}", id, gname(*g), s, what);
        }
    }
    let viol = c.violations.lock().unwrap();
    let mut first = None;
    for (i, (g, s, m)) in viol.iter().enumerate() {
        let p = write_replay(id, i, *g, s, m);
        println!("{} {:?}: {}", gname(*g), cut(s, 200), m);
        first.get_or_insert(p);
    }
    evidence(&c, tier, viol.len());
    let texts = c.texts.load(Relaxed);
    println!(
        "{} {}: {} texts on giron, {} model states, {} transitions, {} must accept, {} must reject, {} may, {} open, {} cut, {:.1}s",
        id,
        tier,
        texts,
        c.n_states(),
        c.transitions.load(Relaxed),
        c.must_accept.load(Relaxed),
        c.must_reject.load(Relaxed),
        c.may.load(Relaxed),
        c.unspec.load(Relaxed),
        c.pruned.load(Relaxed),
        c.t0.elapsed().as_secs_f64()
    );
    if let Some(p) = first {
        println!("VIOLATION property={} replay={}", id, p);
        return 1;
    }
    if texts + c.extra_checks.load(Relaxed) == 0 {
        eprintln!("ENGINE: nothing was explored");
        return 2;
    }
    0
}

fn evidence(c: &Ctx, tier: &str, viol: usize) {
    let n = |x: u64| V::Num(x as f64);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let cov = V::Obj(vec![
        ("states", n(c.n_states())),
        ("transitions", n(c.transitions.load(Relaxed))),
        ("traces_validated_against_impl", n(c.texts.load(Relaxed))),
        ("must_accept", n(c.must_accept.load(Relaxed))),
        ("must_reject", n(c.must_reject.load(Relaxed))),
        ("may_accept_or_reject", n(c.may.load(Relaxed))),
        ("left_open", n(c.unspec.load(Relaxed))),
        ("branches_cut_dead_on_both_sides", n(c.pruned.load(Relaxed))),
        ("metamorphic_or_history_comparisons", n(c.extra_checks.load(Relaxed))),
        ("exhaustive", V::Bool(!c.stopped())),
        ("bounds", V::Arr(c.bounds.lock().unwrap().iter().map(|s| V::s(s)).collect())),
        ("samples", V::Arr(c.samples.lock().unwrap().clone())),
        (
            "explanation",
            V::s("states: distinct answers of the reference model (trees, or kind and token of death) among the texts explored; transitions: single-token (or single-variation) steps taken between explored texts; traces: texts on which model and real parser were both run and compared"),
        ),
    ]);
    let v = V::Obj(vec![
        ("property", V::s(&c.id)),
        ("tier", V::s(tier)),
        ("seed", n(seed)),
        ("level", V::s("model_checking")),
        ("coverage", cov),
        (
            "assumptions",
            V::Arr(vec![
                V::s("the reference model (harness/src/refp) is right; it is compared with acorn at development time"),
                V::s("texts outside the stated alphabets and bounds are not covered"),
            ]),
        ),
        ("wall_s", V::Num(c.t0.elapsed().as_secs_f64())),
        ("violations", n(viol as u64)),
    ]);
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let s = v.to_json().replace(".0,", ",").replace(".0}", "}");
    let _ = std::fs::write(format!("{}/{}.json", dir, c.id), s + "\n");
}
