//! Shared exploration machinery: judging one text against the model, enumerators, statistics, evidence.
use crate::cmp;
use crate::refp::lexer::K;
use crate::refp::{self, Goal, Outcome, Reject};
use crate::sup;
use crate::sut::{self, Obs};
use crate::v::V;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub t0: Instant,
    pub texts: AtomicU64,
    pub must_accept: AtomicU64,
    pub must_reject: AtomicU64,
    pub may: AtomicU64,
    pub unspec: AtomicU64,
    pub transitions: AtomicU64,
    pub pruned: AtomicU64,
    pub extra_checks: AtomicU64,
    states: Vec<Mutex<HashSet<u64>>>,
    pub samples: Mutex<Vec<V>>,
    pub violations: Mutex<Vec<(Goal, String, String)>>,
    pub nviol: AtomicUsize,
    pub stop: AtomicBool,
    pub bounds: Mutex<Vec<String>>,
    pub known: HashSet<(Goal, String)>,
    pub known_hit: Mutex<HashSet<(Goal, String)>>,
    pub check_pos: bool,
    pub check_schema: bool,
    pub crash_only: bool,
    /// with crash_only: what is run on each text instead of the parser alone; it reports violations itself
    pub probe: Option<fn(&Ctx, &str, Goal) -> Obs>,
    pub max_viol: usize,
    pub threads: usize,
}

impl Ctx {
    pub fn new(id: &str, tier: Tier) -> Ctx {
        let max = std::env::var("GC_MAX").ok().and_then(|x| x.parse().ok()).unwrap_or(10);
        Ctx {
            id: id.into(),
            tier,
            t0: Instant::now(),
            texts: 0.into(),
            must_accept: 0.into(),
            must_reject: 0.into(),
            may: 0.into(),
            unspec: 0.into(),
            transitions: 0.into(),
            pruned: 0.into(),
            extra_checks: 0.into(),
            states: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            samples: Mutex::new(vec![]),
            violations: Mutex::new(vec![]),
            nviol: 0.into(),
            stop: false.into(),
            bounds: Mutex::new(vec![]),
            known: crate::known(id),
            known_hit: Mutex::new(HashSet::new()),
            check_pos: false,
            check_schema: false,
            crash_only: false,
            probe: None,
            max_viol: max,
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16),
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }
    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }
    pub fn n_states(&self) -> u64 {
        self.states.iter().map(|s| s.lock().unwrap().len() as u64).sum()
    }
    pub fn state(&self, h: u64) {
        self.states[(h % 64) as usize].lock().unwrap().insert(h);
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn violation(&self, src: &str, goal: Goal, msg: String) {
        if self.known.contains(&(goal, src.to_string())) {
            self.known_hit.lock().unwrap().insert((goal, src.to_string()));
            return;
        }
        let mut v = self.violations.lock().unwrap();
        self.nviol.fetch_add(1, Relaxed);
        if v.len() < self.max_viol && !v.iter().any(|x| x.0 == goal && x.1 == src) {
            v.push((goal, src.to_string(), msg));
        }
        if v.len() >= self.max_viol {
            self.stop.store(true, Relaxed);
        }
    }
    fn sample(&self, src: &str, goal: Goal, o: &Outcome, obs: &Obs) {
        let n = self.texts.load(Relaxed);
        // a few texts at fixed counts, so that the evidence shows real cases from all along the run
        if n.count_ones() == 1 || n % 262_139 == 7 {
            let mut s = self.samples.lock().unwrap();
            if s.len() < 40 {
                s.push(V::Obj(vec![
                    ("source", V::s(src)),
                    ("goal", V::s(gname(goal))),
                    ("model", V::Str(oshort(o))),
                    ("giron", V::Str(cut(&obs.short(), 200))),
                ]));
            }
        }
    }

    /// Run model and implementation on one text and compare. Returns the model's outcome.
    pub fn judge_s(&self, text: &str, goal: Goal) -> Outcome {
        let src: Vec<char> = text.chars().collect();
        self.judge_str(&src, text, goal).0
    }
    pub fn judge_str(&self, src: &[char], text: &str, goal: Goal) -> (Outcome, Obs) {
        sup::model_phase(true);
        let o = refp::parse(src, goal);
        sup::model_phase(false);
        let obs = sut::run(text, goal);
        self.texts.fetch_add(1, Relaxed);
        match &o {
            Outcome::Accept(_) => &self.must_accept,
            Outcome::May(_) => &self.may,
            Outcome::Reject(_) => &self.must_reject,
            Outcome::Unspec => &self.unspec,
        }
        .fetch_add(1, Relaxed);
        self.state(ohash(&o));
        self.sample(text, goal, &o, &obs);
        if let Some(m) = self.verdict(src, goal, &o, &obs) {
            self.violation(text, goal, m);
        }
        (o, obs)
    }

    /// None if the observation is what the model allows.
    pub fn verdict(&self, src: &[char], goal: Goal, o: &Outcome, obs: &Obs) -> Option<String> {
        if let Obs::Panic(m) = obs {
            return Some(format!("no answer: {}", m));
        }
        if let Obs::Err { line, col, .. } = obs {
            if self.check_pos {
                if let Some(m) = inside(src, *line, *col, obs) {
                    return Some(m);
                }
            }
        }
        if self.crash_only {
            return None;
        }
        if self.check_schema {
            if let Obs::Ok(v) = obs {
                if let Some(m) = crate::schema::check(v) {
                    return Some(m);
                }
            }
        }
        match (o, obs) {
            (Outcome::Unspec, _) => None,
            (Outcome::Accept(m), Obs::Ok(g)) | (Outcome::May(m), Obs::Ok(g)) => {
                cmp::diff(m, g).map(|d| format!("wrong tree {}", d))
            }
            (Outcome::Accept(_), Obs::Err { debug, .. }) => Some(format!("valid text rejected: {}", debug)),
            (Outcome::May(_), Obs::Err { .. }) => None,
            (Outcome::Reject(r), Obs::Ok(_)) => Some(format!("invalid text accepted; {}", rshort(src, r))),
            (Outcome::Reject(r), Obs::Err { .. }) => {
                if self.check_pos {
                    position(src, goal, r, obs)
                } else {
                    None
                }
            }
            (_, Obs::Panic(_)) => unreachable!(),
        }
    }

    /// Run `f` over 0..n on all cores.
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        sup::reset_slots();
        std::thread::scope(|s| {
            for _ in 0..self.threads.min(n.max(1)) {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= n || self.stopped() {
                            break;
                        }
                        f(i);
                    })
                    .expect("thread");
            }
        });
    }

    /// All strings of 1..=depth tokens from `al`, joined by `sep`, between `pre` and `suf`; branches are cut where
    /// model and implementation are both past their error.
    pub fn lockstep(&self, name: &str, goal: Goal, pre: &str, al: &[&str], sep: &str, suf: &str, depth: usize) {
        let t0 = self.texts.load(Relaxed);
        let k = al.len();
        let two = depth >= 2;
        let units = if two { k * k } else { k };
        self.par(units, |u| {
            let first = if two { u / k } else { u };
            let mut w = Walk { c: self, goal, al, sep, suf, depth, buf: pre.to_string(), len: 0 };
            // the length-1 prefix is judged by the unit that owns its first extension
            if !two {
                w.step(first, true);
                return;
            }
            let owner = u % k == 0;
            w.prefix_then(first, u % k, owner);
        });
        self.bound(format!(
            "{}: {} goal, all token strings of length 1..{} over {} tokens {:?} in {:?} _ {:?} separated by {:?} ({} texts)",
            name,
            gname(goal),
            depth,
            k,
            al,
            pre,
            suf,
            sep,
            self.texts.load(Relaxed) - t0
        ));
    }

    /// Run giron alone: only a missing answer is a violation. The state is the shape of the answer.
    pub fn crash(&self, text: &str, goal: Goal) {
        let obs = match self.probe {
            Some(p) => p(self, text, goal),
            None => sut::run(text, goal),
        };
        let n = self.texts.fetch_add(1, Relaxed);
        let mut h = std::collections::hash_map::DefaultHasher::new();
        match &obs {
            Obs::Ok(v) => vhash(v, &mut h),
            Obs::Err { debug, .. } => debug.hash(&mut h),
            Obs::Panic(m) => self.violation(text, goal, format!("no answer: {}", m)),
        }
        self.state(h.finish());
        if n.count_ones() == 1 || n % 262_139 == 7 {
            let mut s = self.samples.lock().unwrap();
            if s.len() < 40 {
                s.push(V::Obj(vec![
                    ("source", V::s(&cut(text, 300))),
                    ("goal", V::s(gname(goal))),
                    ("giron", V::Str(cut(&obs.short(), 200))),
                ]));
            }
        }
    }
    fn look(&self, text: &str, goal: Goal) {
        self.transitions.fetch_add(1, Relaxed);
        if self.crash_only {
            self.crash(text, goal)
        } else {
            self.judge_s(text, goal);
        }
    }

    /// Every text made by choosing one piece from each slot.
    pub fn grid(&self, name: &str, goal: Goal, slots: &[&[&str]]) {
        let n: usize = slots.iter().map(|s| s.len()).product();
        let chunk = 128;
        self.par((n + chunk - 1) / chunk, |u| {
            let mut t = String::new();
            for i in u * chunk..((u + 1) * chunk).min(n) {
                if self.stopped() {
                    return;
                }
                t.clear();
                let mut r = i;
                let mut ix = vec![0; slots.len()];
                for (k, s) in slots.iter().enumerate().rev() {
                    ix[k] = r % s.len();
                    r /= s.len();
                }
                for (k, s) in slots.iter().enumerate() {
                    t.push_str(s[ix[k]]);
                }
                self.look(&t, goal);
            }
        });
        let dims: Vec<String> = slots.iter().filter(|s| s.len() > 1).map(|s| s.len().to_string()).collect();
        self.bound(format!("{}: {} goal, all {} combinations of slots of {} pieces", name, gname(goal), n, dims.join(" x ")));
    }
    pub fn grid2(&self, name: &str, slots: &[&[&str]]) {
        self.grid(name, Goal::Script, slots);
        self.grid(name, Goal::Module, slots);
    }

    /// Every leaf inside every nesting of `lo..=hi` contexts (each has a hole `@`, filled with what is inside).
    pub fn nest(&self, name: &str, goal: Goal, ctxs: &[&str], lo: usize, hi: usize, leaves: &[&str]) {
        let k = ctxs.len();
        let mut total = 0;
        for d in lo..=hi {
            let n = k.pow(d as u32);
            total += n * leaves.len();
            self.par(n, |i| {
                let mut t = "@".to_string();
                let mut r = i;
                for _ in 0..d {
                    t = t.replace('@', ctxs[r % k]);
                    r /= k;
                }
                for l in leaves {
                    if self.stopped() {
                        return;
                    }
                    self.look(&t.replace('@', l), goal);
                }
            });
        }
        self.bound(format!(
            "{}: {} goal, {} leaves in every nesting of {}..{} of {} contexts ({} texts)",
            name,
            gname(goal),
            leaves.len(),
            lo,
            hi,
            k,
            total
        ));
    }

    /// All texts within `k` token edits (delete, replace by, insert each of `al`, swap with the next) of each program
    /// (tokens separated by single spaces; a token `\n` is a line break).
    pub fn edits(&self, name: &str, goal: Goal, progs: &[&str], al: &[&str], k: usize) {
        let before = self.texts.load(Relaxed);
        self.par(progs.len(), |i| {
            let toks: Vec<&str> = progs[i].split(' ').filter(|x| !x.is_empty()).collect();
            self.look(&toks.join(" "), goal);
            self.edit_rec(&toks, al, k, 0, goal);
        });
        self.bound(format!(
            "{}: {} goal, all texts within {} token edits (delete, swap, replace by or insert one of {} tokens) of {} programs ({} texts)",
            name,
            gname(goal),
            k,
            al.len(),
            progs.len(),
            self.texts.load(Relaxed) - before
        ));
    }
    fn edit_rec(&self, toks: &[&str], al: &[&str], k: usize, from: usize, goal: Goal) {
        if k == 0 || self.stopped() {
            return;
        }
        for p in from..=toks.len() {
            let go = |v: Vec<&str>, next: usize| {
                self.look(&v.join(" "), goal);
                self.edit_rec(&v, al, k - 1, next, goal);
            };
            if p < toks.len() {
                let mut v = toks.to_vec();
                v.remove(p);
                go(v, p);
                if p + 1 < toks.len() {
                    let mut v = toks.to_vec();
                    v.swap(p, p + 1);
                    go(v, p + 1);
                }
                for a in al {
                    if *a != toks[p] {
                        let mut v = toks.to_vec();
                        v[p] = a;
                        go(v, p + 1);
                    }
                }
            }
            for a in al {
                let mut v = toks.to_vec();
                v.insert(p, a);
                go(v, p + 1);
            }
        }
    }

    /// `f(cp)` gives texts for every Unicode scalar value.
    pub fn code_points(&self, name: &str, goal: Goal, f: impl Fn(char) -> Vec<String> + Sync) {
        let before = self.texts.load(Relaxed);
        self.par(0x1100, |u| {
            for x in (u * 256)..(u * 256 + 256) {
                if let Some(c) = char::from_u32(x as u32) {
                    for t in f(c) {
                        if self.stopped() {
                            return;
                        }
                        self.look(&t, goal);
                    }
                }
            }
        });
        self.bound(format!(
            "{}: {} goal, every Unicode scalar value ({} texts)",
            name,
            gname(goal),
            self.texts.load(Relaxed) - before
        ));
    }

    /// Texts produced by index.
    pub fn by_index(&self, name: &str, goal: Goal, n: usize, f: impl Fn(usize) -> Vec<String> + Sync) {
        let before = self.texts.load(Relaxed);
        self.par(n, |i| {
            for t in f(i) {
                if self.stopped() {
                    return;
                }
                self.look(&t, goal);
            }
        });
        self.bound(format!("{}: {} goal, {} texts", name, gname(goal), self.texts.load(Relaxed) - before));
    }

    /// Judge every text of a list.
    pub fn all(&self, name: &str, goal: Goal, texts: &[String]) {
        let chunk = 64;
        let n = texts.len();
        self.par((n + chunk - 1) / chunk, |u| {
            for t in &texts[u * chunk..((u + 1) * chunk).min(n)] {
                if self.stopped() {
                    return;
                }
                self.look(t, goal);
            }
        });
        self.bound(format!("{}: {} goal, {} texts", name, gname(goal), n));
    }
}

struct Walk<'a> {
    c: &'a Ctx,
    goal: Goal,
    al: &'a [&'a str],
    sep: &'a str,
    suf: &'a str,
    depth: usize,
    buf: String,
    len: usize,
}

impl<'a> Walk<'a> {
    fn push(&mut self, t: usize) -> usize {
        let l = self.buf.len();
        if self.len > 0 {
            self.buf.push_str(self.sep);
        }
        self.buf.push_str(self.al[t]);
        self.len += 1;
        l
    }
    fn pop(&mut self, l: usize) {
        self.buf.truncate(l);
        self.len -= 1;
    }
    fn prefix_then(&mut self, a: usize, b: usize, judge_first: bool) {
        let l = self.push(a);
        let ext = self.node(judge_first);
        if ext {
            self.step(b, true);
        }
        self.pop(l);
    }
    fn step(&mut self, t: usize, judge: bool) {
        let l = self.push(t);
        self.c.transitions.fetch_add(1, Relaxed);
        let ext = self.node(judge);
        if ext && self.len < self.depth {
            for i in 0..self.al.len() {
                if self.c.stopped() {
                    break;
                }
                self.step(i, true);
            }
        }
        self.pop(l);
    }
    /// Judge the current text; can an extension still matter?
    fn node(&mut self, judge: bool) -> bool {
        let plen = self.buf.chars().count();
        let l = self.buf.len();
        self.buf.push_str(self.suf);
        let o = if self.c.crash_only {
            if judge {
                self.c.crash(&self.buf, self.goal);
            }
            self.buf.truncate(l);
            return self.len < self.depth;
        } else if judge {
            self.c.judge_s(&self.buf, self.goal)
        } else {
            let cs: Vec<char> = self.buf.chars().collect();
            refp::parse(&cs, self.goal)
        };
        self.buf.truncate(l);
        if self.len >= self.depth {
            return false;
        }
        match &o {
            Outcome::Reject(r) => {
                // the offending text must lie wholly inside the prefix, and not be able to grow
                let dead = if r.bad || self.sep.is_empty() { r.end < plen } else { r.end <= plen };
                if r.eof || r.pos >= plen || !dead {
                    return true;
                }
                // the model is dead; is giron?
                let line = 1 + self.buf.chars().filter(|c| is_lt(*c)).count();
                let l = self.buf.len();
                self.buf.push_str("\n\n\n@");
                let obs = sut::run(&self.buf, self.goal);
                self.buf.truncate(l);
                let giron_dead = match obs {
                    Obs::Err { line: e, .. } => e <= line,
                    _ => true,
                };
                if giron_dead {
                    self.c.pruned.fetch_add(1, Relaxed);
                }
                !giron_dead
            }
            _ => true,
        }
    }
}

pub fn is_lt(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')
}

/// line and column, both from 1, of a char offset
pub fn line_col(src: &[char], pos: usize) -> (usize, usize) {
    let mut line = 1;
    let mut start = 0;
    let mut i = 0;
    while i < pos {
        let c = src[i];
        if is_lt(c) {
            if c == '\r' && src.get(i + 1) == Some(&'\n') {
                if i + 1 >= pos {
                    break;
                }
                i += 1;
            }
            line += 1;
            start = i + 1;
        }
        i += 1;
    }
    (line, pos - start + 1)
}

fn inside(src: &[char], line: usize, col: usize, obs: &Obs) -> Option<String> {
    // position must be one of a character of the text or the end of the text
    let mut l = 1;
    let mut len = 0usize;
    let mut lens = vec![];
    let mut i = 0;
    while i < src.len() {
        let c = src[i];
        if is_lt(c) {
            if c == '\r' && src.get(i + 1) == Some(&'\n') {
                i += 1;
            }
            lens.push(len);
            l += 1;
            len = 0;
        } else {
            len += 1;
        }
        i += 1;
    }
    lens.push(len);
    if line < 1 || line > l || col < 1 || col > lens[line - 1] + 1 {
        return Some(format!("error position {}:{} is outside the text ({})", line, col, obs.short()));
    }
    if obs.short().contains("errortype: UnexpectedEOS") && (line, col) != (l, lens[l - 1] + 1) {
        return Some(format!("unexpected end of input reported at {}:{}, but the text ends at {}:{}", line, col, l, lens[l - 1] + 1));
    }
    None
}

/// A malformed token that turned bad at `end`: it goes on to the end of the word, with the character after it, which may be the one that was wrong.
fn bad_end(src: &[char], end: usize) -> usize {
    let mut e = end.min(src.len());
    while e < src.len() && (src[e].is_alphanumeric() || src[e] == '{' || src[e] == '}') {
        e += 1;
    }
    (e + 1).min(src.len())
}

fn position(src: &[char], goal: Goal, r: &Reject, obs: &Obs) -> Option<String> {
    let m = position_of(src, r, obs)?;
    // {a = 1} is an error only once it turns out to be no pattern: the error may then be one that comes after it.
    match refp::parse_loose(src, goal) {
        None => None,
        Some(l) if l.pos <= r.pos => Some(m),
        Some(l) => match obs {
            Obs::Err { line, col, .. } if (*line, *col) < line_col(src, r.pos) => Some(m),
            _ => position_of(src, &Reject { exact: false, ..l }, obs).map(|_| m),
        },
    }
}

fn position_of(src: &[char], r: &Reject, obs: &Obs) -> Option<String> {
    let (line, col, unexpected) = match obs {
        Obs::Err { line, col, unexpected, .. } => (*line, *col, unexpected),
        _ => return None,
    };
    let want = line_col(src, r.pos);
    if r.may_before {
        return None;
    }
    if let Some(name) = unexpected {
        if r.exact {
            if (line, col) != want {
                return Some(format!("unexpected-token error at {}:{}, but {}", line, col, rshort(src, r)));
            }
            if let Some(k) = &r.tok {
                if !crate::names_token(name, k, src, r) {
                    return Some(format!("error names {:?}, but {}", name, rshort(src, r)));
                }
            }
            return None;
        }
    }
    // A "}" that ends a substitution begins the next chunk of the template, which may be the token that is broken.
    let chunk = unexpected.is_none() && r.tok == Some(K::P("}")) && src[..r.pos].contains(&'`');
    let limit = if chunk {
        src.len()
    } else if r.bad {
        bad_end(src, r.end)
    } else if src.get(r.pos) == Some(&'/') {
        // in a place that accepts neither, a slash may be read as the start of a regular expression, and that may be broken
        let e = (r.pos..src.len()).find(|i| crate::refp::lexer::is_lt(src[*i])).unwrap_or(src.len());
        (e + 1).min(src.len())
    } else {
        r.end.max(r.pos)
    };
    let limit = line_col(src, limit);
    if (line, col) > limit {
        return Some(format!("error at {}:{} ({}) is past where the text went wrong; {}", line, col, obs.short(), rshort(src, r)));
    }
    None
}

pub fn gname(g: Goal) -> &'static str {
    if g == Goal::Module {
        "module"
    } else {
        "script"
    }
}
pub fn cut(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}…", &s[..k])
}
pub fn rshort(src: &[char], r: &Reject) -> String {
    let (l, c) = line_col(src, r.pos.min(src.len()));
    let what = if r.eof {
        "the end of the text".to_string()
    } else {
        format!("{:?}", src[r.pos.min(src.len())..r.end.max(r.pos).min(src.len())].iter().collect::<String>())
    };
    if r.exact {
        format!("the first token that cannot continue a program is {} at {}:{}", what, l, c)
    } else {
        format!("it is invalid at or before {} at {}:{}", what, l, c)
    }
}
pub fn oshort(o: &Outcome) -> String {
    match o {
        Outcome::Accept(v) => format!("accept {}", cut(&v.to_json(), 200)),
        Outcome::May(v) => format!("may accept {}", cut(&v.to_json(), 200)),
        Outcome::Reject(r) => format!("reject at {} exact={}", r.pos, r.exact),
        Outcome::Unspec => "left open".into(),
    }
}

fn vhash(v: &V, h: &mut impl Hasher) {
    match v {
        V::Null => 0u8.hash(h),
        V::Any => 1u8.hash(h),
        V::Bool(b) => (2u8, *b).hash(h),
        V::Num(n) => (3u8, n.to_bits()).hash(h),
        V::Str(s) => (4u8, s).hash(h),
        V::Arr(a) => {
            (5u8, a.len()).hash(h);
            a.iter().for_each(|x| vhash(x, h));
        }
        V::Obj(f) => {
            (6u8, f.len()).hash(h);
            for (_, x) in f {
                vhash(x, h)
            }
        }
    }
}
/// State identity: the model's answer (tree, or kind of death and the offending token).
pub fn ohash(o: &Outcome) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    match o {
        Outcome::Accept(v) => {
            0u8.hash(&mut h);
            vhash(v, &mut h)
        }
        Outcome::May(v) => {
            1u8.hash(&mut h);
            vhash(v, &mut h)
        }
        Outcome::Reject(r) => {
            (2u8, r.exact, r.eof, r.bad, r.pos).hash(&mut h);
            format!("{:?}", r.tok).hash(&mut h)
        }
        Outcome::Unspec => 3u8.hash(&mut h),
    }
    h.finish()
}
