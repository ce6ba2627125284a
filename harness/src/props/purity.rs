//! C20: histories of calls and schedules of concurrent calls.
use super::corpus::*;
use crate::engine::*;
use crate::refp::Goal::{self, *};
use crate::sched::Sched;
use crate::sut::{self, Obs};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::*};

/// the answer of a process that has done nothing else
fn fresh(text: &str, goal: Goal) -> String {
    again(text, goal, 1)
}
/// the answer of a process that only makes this call, this many times
fn again(text: &str, goal: Goal, times: usize) -> String {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["obs", gname(goal), &times.to_string()])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("fresh process");
    c.stdin.take().unwrap().write_all(text.as_bytes()).unwrap();
    let o = c.wait_with_output().expect("fresh process");
    if !o.status.success() {
        return format!("no answer ({})", o.status);
    }
    String::from_utf8_lossy(&o.stdout).to_string()
}

fn texts() -> Vec<String> {
    let mut v: Vec<String> = [
        "", "a", "b", "a b", "a;b", "'use strict';with(a)b", "with(a)b", "yield=1", "await=1", "function*g(){yield a}", "function g(){yield}", "async function f(){await a}", "class A{m(){}}", "class A{", "x=`a${b}c`", "x=`a${b", "x=`${`${a}`}`", "}`", "/a/g", "a/b/g", "x={a=1}", "({a=1}=b)", "(a,b)=>c", "(a,b)", "async(a)=>b", "async(a)", "for(x in y);", "for(var i=a in b;;);", "break", "while(a)break", "return", "function f(){return}", "import a from 'b'", "export {a}", "export default function(){}", "\\u0061", "'\\u{1f600}'", "'a", "/*", "@", "1e400", "0x", "var a=1", "var b=2", "var a=2", "let a=1", "a\n\n@", "a @ @", "x={get a(){}}", "x={set a(b){}}", "eval=1", "'use strict';eval=1", "super.a", "new.target", "switch(a){default:default:}", "[a,...b]=c", "a:for(;;)continue a", "if(a)b;else c", "try{}catch(a){}finally{}", "x=function(){'use strict'}", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa+b", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa+c", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa c", "baaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa+b", "a+b", "b+a", "a-b", "{", "(", "[", "((((", "[[[[a", "{{{{", "`${{", "static=1", "let=1", "async", "()=>{", "x=()=>{}", "a.b.c", "a**b**c", "-a**b",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.dedup();
    v
}

pub fn c20(c: &mut Ctx) {
    let ts = texts();
    let mut calls: Vec<(String, Goal)> = vec![];
    for t in &ts {
        calls.push((t.clone(), Script));
        calls.push((t.clone(), Module));
    }
    for t in STMTS.iter().step_by(5).chain(ITEMS.iter().step_by(6)) {
        calls.push((t.to_string(), Module));
    }
    let n = calls.len();
    // the same texts further on, for the schedules: equal work on different positions
    let shifted: Vec<usize> = (0..n).filter(|i| calls[*i].0.len() > 3 && calls[*i].0.len() < 40 && (calls[*i].1 == Script || i % 4 == 1)).collect();
    for i in &shifted {
        let (t, g) = calls[*i].clone();
        calls.push((format!(" \n/**/{}", t), g));
    }
    let all = calls.len();
    // reference answers: each from a process of its own (which also gives run-to-run equality)
    let want: Vec<std::sync::Mutex<String>> = (0..all).map(|_| Default::default()).collect();
    c.par(all, |i| {
        let a = fresh(&calls[i].0, calls[i].1);
        *want[i].lock().unwrap() = a;
    });
    c.par(n, |i| {
        if fresh(&calls[i].0, calls[i].1) != *want[i].lock().unwrap() {
            c.violation(&calls[i].0, calls[i].1, "two fresh processes give different answers".into());
        }
        c.extra_checks.fetch_add(1, Relaxed);
    });
    // a process that makes the same call again and again
    let reps = c.pick(70_000, 400_000);
    c.par(n, |i| {
        let a = again(&calls[i].0, calls[i].1, reps);
        c.extra_checks.fetch_add(reps as u64, Relaxed);
        if a != *want[i].lock().unwrap() {
            c.violation(&calls[i].0, calls[i].1, format!("the answer of a process that makes the same call {} times is not always the first: {}", reps, cut(&a, 300)));
        }
    });
    c.bound(format!("repetition: a process of its own for each of {} calls, which makes that call {} times", n, reps));
    // one parse per process is compared with one parse here, as a value from now on
    let obs: Vec<Obs> = calls
        .iter()
        .zip(&want)
        .map(|((t, g), w)| {
            let o = std::thread::scope(|s| s.spawn(|| sut::run(t, *g)).join().unwrap());
            c.judge_s(t, *g);
            if o.short() != *w.lock().unwrap() {
                c.violation(t, *g, format!("answer differs from that of a fresh process: {} / {}", cut(&o.short(), 300), cut(&w.lock().unwrap(), 300)));
            }
            o
        })
        .collect();
    let check = |i: usize, o: &Obs, hist: &dyn Fn() -> String| {
        c.extra_checks.fetch_add(1, Relaxed);
        if *o != obs[i] {
            c.violation(&calls[i].0, calls[i].1, format!("answer depends on {}: {} instead of {}", hist(), cut(&o.short(), 300), cut(&obs[i].short(), 300)));
        }
    };
    let show = |h: &[usize]| format!("the history {:?}", h.iter().map(|x| (gname(calls[*x].1), &calls[*x].0)).collect::<Vec<_>>());
    // histories: after any two calls, the answer is the fresh one
    c.par(n * n, |u| {
        let (a, b) = (u % n, u / n);
        c.transitions.fetch_add(1, Relaxed);
        for k in 0..n {
            if c.stopped() {
                return;
            }
            let oa = sut::run(&calls[a].0, calls[a].1);
            check(a, &oa, &|| show(&[a]));
            let ob = sut::run(&calls[b].0, calls[b].1);
            check(b, &ob, &|| show(&[a, b]));
            let o = sut::run(&calls[k].0, calls[k].1);
            check(k, &o, &|| show(&[a, b, k]));
            c.state((a * n * n + b * n + k) as u64);
        }
    });
    c.bound(format!("histories: all sequences of three calls over {} calls (text and goal), each answer compared with the answer in a fresh process", n));
    let m = c.pick(14, 30).min(n);
    let step = n / m;
    let few: Vec<usize> = (0..m).map(|i| i * step).collect();
    c.par(m * m, |u| {
        for x in 0..m * m {
            if c.stopped() {
                return;
            }
            let h = [few[u % m], few[u / m], few[x % m], few[x / m]];
            for k in h {
                let o = sut::run(&calls[k].0, calls[k].1);
                check(k, &o, &|| show(&h));
            }
            c.state(0x1000000 + (u * m * m + x) as u64);
        }
    });
    c.bound(format!("histories: all sequences of four calls over {} calls", m));
    // two calls: a far wider set of texts, and texts of every size first
    let mut wide: Vec<(String, Goal)> = calls[..n].to_vec();
    for t in STMTS.iter().chain(ITEMS).copied().chain(super::corpus::deep_expr().iter().step_by(5).map(|x| x.as_str())).map(str::to_string) {
        let g = if wide.len() % 4 == 3 { Module } else { Script };
        wide.push((t.replace('@', "a"), g));
    }
    for id in ["C09", "C14", "C15", "C16", "C24"] {
        for t in super::corpus::probes(id) {
            let g = if wide.len() % 4 == 3 { Module } else { Script };
            wide.push((t.to_string(), g));
        }
    }
    for id in ["C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C21", "C23"] {
        let (a, b) = super::items::items(id);
        wide.extend(a.iter().step_by(c.pick(2, 1)).map(|t| (t.to_string(), Script)).chain(b.iter().map(|t| (t.to_string(), Module))));
    }
    wide.sort();
    wide.dedup();
    let mut first = wide.clone();
    for k in [90usize, 255, 256, 257, 1000, 4096, 65_536, 70_000] {
        for (i, t) in ["a".repeat(k), "a;\n".repeat(k), "\n".repeat(k), " ".repeat(k), format!("'{}'", "x".repeat(k)), format!("`{}`", "${a}".repeat(k)), format!("{}@", "a\n".repeat(k)), format!("/*{}*/", "x".repeat(k)), format!("[{}]", "a,".repeat(k)), format!("'use strict';{}", "a;".repeat(k)), format!("import a from 'b';{}", "a;".repeat(k)), format!("var {}a", "a,".repeat(k)), format!("`{}", "x".repeat(k)), format!("a{}", "+1".repeat(k.min(1000))), format!("{}b", "a=".repeat(k.min(256)))].into_iter().enumerate() {
            first.push((t, if i % 3 == 0 { Module } else { Script }));
        }
    }
    let wo: Vec<Obs> = wide.iter().map(|(t, g)| std::thread::scope(|s| s.spawn(|| sut::run(t, *g)).join().unwrap())).collect();
    c.par(first.len(), |i| {
        for (k, (t, g)) in wide.iter().enumerate() {
            if c.stopped() {
                return;
            }
            // a long text is costly; it goes before every fifth call (the calls it meets differ with the text)
            if first[i].0.len() > 3000 && (k + i) % c.pick(if first[i].0.len() > 30_000 { 97 } else { 11 }, 5) != 0 && !t.is_empty() {
                continue;
            }
            let _ = sut::raw(&first[i].0, first[i].1);
            let o = sut::run(t, *g);
            c.extra_checks.fetch_add(1, Relaxed);
            if o != wo[k] {
                c.violation(t, *g, format!("answer depends on the call before it, {} {:?}: {} instead of {}", gname(first[i].1), cut(&first[i].0, 60), cut(&o.short(), 300), cut(&wo[k].short(), 300)));
            }
        }
        c.state(0x2000000 + i as u64);
    });
    c.bound(format!("histories: all sequences of two calls, the first of {} (texts of up to 280,000 characters among them), the second of {} (after a long one only part of them)", first.len(), wide.len()));
    // long histories
    c.par(n, |i| {
        for _ in 0..reps {
            let r = sut::raw(&calls[i].0, calls[i].1);
            let same = match (&r, &obs[i]) {
                (Ok(_), Obs::Ok(_)) => true,
                (Err(e), o) => sut::err_obs(e) == *o,
                _ => false,
            };
            if !same {
                c.violation(&calls[i].0, calls[i].1, "answer changes when the same call is repeated".into());
                return;
            }
        }
        let o = sut::run(&calls[i].0, calls[i].1);
        check(i, &o, &|| format!("{} repetitions of the same call", reps));
    });
    c.bound(format!("repetition: each of {} calls {} times on one thread", n, reps));
    // schedules: two parses, every placement of one and of two preemptions at allocation points
    let pick: Vec<usize> = {
        let mut v: Vec<usize> = (0..n).filter(|i| calls[*i].0.len() > 3 && calls[*i].0.len() < 40).collect();
        let k = v.len();
        v = v.into_iter().enumerate().filter(|(i, _)| i % (k / c.pick(36, 60)).max(1) == 0).map(|x| x.1).collect();
        v
    };
    let mut schedules = 0u64;
    let mut lost = 0u64;
    let mut points = 0u64;
    let sch = Sched::new();
    let job = AtomicUsize::new(0);
    let ack = [AtomicUsize::new(0), AtomicUsize::new(0)];
    let cur = [AtomicUsize::new(0), AtomicUsize::new(0)];
    let out = [std::sync::Mutex::new(None::<Obs>), std::sync::Mutex::new(None::<Obs>)];
    const STOP: usize = usize::MAX;
    std::thread::scope(|s| {
        for me in 0..2 {
            let (sch, job, ack, cur, out, calls) = (&sch, &job, &ack, &cur, &out, &calls);
            s.spawn(move || {
                let mut last = 0;
                loop {
                    let mut spin = 0;
                    let j = loop {
                        let j = job.load(Acquire);
                        if j != last {
                            break j;
                        }
                        spin += 1;
                        if spin < 20000 {
                            std::hint::spin_loop()
                        } else {
                            std::thread::yield_now()
                        }
                    };
                    if j == STOP {
                        return;
                    }
                    last = j;
                    let (t, g) = &calls[cur[me].load(Acquire)];
                    let src = t.clone();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        sch.run(me, move || match g {
                            Script => giron::parse_script(src),
                            Module => giron::parse_module(src),
                        })
                    }));
                    let o = match r {
                        Ok(Ok(n)) => match crate::cap::capture(&n) {
                            Ok(v) => Obs::Ok(v),
                            Err(e) => Obs::Panic(e.to_string()),
                        },
                        Ok(Err(e)) => sut::err_obs(&e),
                        Err(_) => Obs::Panic("panic under this schedule".into()),
                    };
                    *out[me].lock().unwrap() = Some(o);
                    ack[me].store(j, Release);
                }
            });
        }
        let mut go = |a: usize, b: usize, first: usize, cuts: &[u64]| -> [u64; 2] {
            cur[0].store(a, Release);
            cur[1].store(b, Release);
            sch.arm(first, cuts);
            let j = job.load(Relaxed) + 1;
            job.store(j, Release);
            let mut n = 0u64;
            while ack[0].load(Acquire) != j || ack[1].load(Acquire) != j {
                n += 1;
                if n < 20000 {
                    std::hint::spin_loop()
                } else {
                    std::thread::yield_now()
                }
            }
            schedules += 1;
            if sch.lost.load(SeqCst) {
                lost += 1;
            }
            for (k, i) in [(0, a), (1, b)] {
                let o = out[k].lock().unwrap().take().unwrap();
                check(i, &o, &|| format!("a parse of {:?} ({}) on another thread, preempted at allocations {:?}, thread {} first", calls[if k == 0 { b } else { a }].0, gname(calls[if k == 0 { b } else { a }].1), cuts, first));
            }
            [sch.steps[0].load(SeqCst), sch.steps[1].load(SeqCst)]
        };
        let t0 = std::time::Instant::now();
        let budget = c.pick(25.0, 1500.0);
        let mut full = true;
        'all: for (x, a) in pick.iter().enumerate() {
            for (y, b) in pick.iter().enumerate() {
                if c.stopped() || crate::sched::LOST.load(Relaxed) > 50 {
                    break 'all;
                }
                let st = go(*a, *b, 0, &[]);
                points += st[0] + st[1];
                for k in 1..=st[0] {
                    go(*a, *b, 0, &[k]);
                }
                for k in 1..=st[1] {
                    go(*a, *b, 1, &[k]);
                }
                // two preemptions for the pairs near the diagonal and the first ones
                if (x + y) % c.pick(12, 3) == 0 {
                    for k in 1..=st[0] {
                        for j in 1..=st[1] {
                            go(*a, *b, 0, &[k, j]);
                            if t0.elapsed().as_secs_f64() > budget {
                                full = false;
                                break 'all;
                            }
                        }
                    }
                }
            }
        }
        for (k, i) in shifted.iter().enumerate() {
            if c.stopped() || crate::sched::LOST.load(Relaxed) > 50 {
                break;
            }
            let (a, b) = (*i, n + k);
            let st = go(a, b, 0, &[]);
            for k in 1..=st[0] {
                go(a, b, 0, &[k]);
            }
            for k in 1..=st[1] {
                go(a, b, 1, &[k]);
            }
        }
        job.store(STOP, Release);
        c.bound(format!("schedules: {} calls, each against the same text at another position, every placement of one preemption", shifted.len()));
        c.bound(format!(
            "schedules: {} pairs of calls on two threads, every placement of one preemption at the allocation points of either parse, and of two preemptions for part of the pairs: {} schedules over {} points{}{}",
            pick.len() * pick.len(),
            schedules,
            points,
            if full { "" } else { " (time budget reached)" },
            if lost > 0 { format!(", {} of them left control through a lock", lost) } else { String::new() }
        ));
    });
    c.transitions.fetch_add(schedules, Relaxed);
    // free-running threads, all started together
    for round in 0..c.pick(20, 200) {
        let bar = std::sync::Barrier::new(8);
        std::thread::scope(|s| {
            for t in 0..8 {
                let (bar, obs, calls, check, show) = (&bar, &obs, &calls, &check, &show);
                s.spawn(move || {
                    bar.wait();
                    for i in 0..n {
                        let k = (i * (2 * t + 1) + round * 7) % n;
                        let o = sut::run(&calls[k].0, calls[k].1);
                        let _ = obs;
                        check(k, &o, &|| format!("{} other threads parsing ({})", 7, show(&[k])));
                    }
                });
            }
        });
    }
    c.bound("eight threads parsing all calls at once in different orders (a supplement: these schedules are the operating system's)");
}
