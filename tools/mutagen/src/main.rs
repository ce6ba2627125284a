//! Development tool: rewrites the sources of giron so that many small faults are compiled in at once,
//! each switched on by the environment variable GM=<number>. With none switched on, GM_HITS=<file>
//! records which of them would have made a difference to a value.
//! usage: mutagen SRC_DIR OUT_DIR [numbers to leave out]
use proc_macro2::Span;
use std::collections::HashSet;
use std::fs;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

enum How {
    Wrap(String, String),
    /// an arm with several patterns, split: patterns with their numbers, the guard, the body
    Split(Vec<(String, Option<usize>)>, Option<(usize, usize)>, (usize, usize)),
}
struct Edit {
    a: usize,
    b: usize,
    how: How,
}

struct M {
    src: String,
    lines: Vec<usize>,
    edits: Vec<Edit>,
    next: usize,
    skip: HashSet<usize>,
    list: Vec<String>,
    file: String,
}
impl M {
    fn off(&self, s: Span) -> (usize, usize) {
        let at = |l: usize, c: usize| {
            let st = self.lines[l - 1];
            let line = &self.src[st..];
            st + line.char_indices().nth(c).map(|x| x.0).unwrap_or(line.len())
        };
        (at(s.start().line, s.start().column), at(s.end().line, s.end().column))
    }
    fn wrap(&mut self, s: Span, kind: &str, f: impl Fn(usize) -> (String, String)) {
        let n = self.next;
        self.next += 1;
        if self.skip.contains(&n) {
            return;
        }
        let (a, b) = self.off(s);
        let (pre, post) = f(n);
        self.edits.push(Edit { a, b, how: How::Wrap(pre, post) });
        let text: String = self.src[a..b].split_whitespace().collect::<Vec<_>>().join(" ");
        let text: String = text.chars().take(110).collect();
        self.list.push(format!("{}\t{}:{}\t{}\t{}", n, self.file, s.start().line, kind, text));
    }
    fn cond(&mut self, e: &syn::Expr) {
        match e {
            syn::Expr::Let(_) => (),
            syn::Expr::Paren(p) => self.cond(&p.expr),
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
                self.side(&b.left, true);
                self.side(&b.right, true);
            }
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::Or(_)) => {
                self.side(&b.left, false);
                self.side(&b.right, false);
            }
            _ => {
                self.wrap(e.span(), "true", |n| (format!("crate::mt::t({}, ", n), ")".into()));
                self.wrap(e.span(), "false", |n| (format!("crate::mt::f({}, ", n), ")".into()));
            }
        }
    }
    fn side(&mut self, e: &syn::Expr, and: bool) {
        match e {
            syn::Expr::Let(_) => (),
            syn::Expr::Paren(p) => self.side(&p.expr, and),
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
                self.side(&b.left, true);
                self.side(&b.right, true);
            }
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::Or(_)) => {
                self.side(&b.left, false);
                self.side(&b.right, false);
            }
            _ => {
                self.wrap(e.span(), if and { "true" } else { "false" }, |n| {
                    (format!("crate::mt::{}({}, ", if and { "t" } else { "f" }, n), ")".into())
                });
            }
        }
    }
}
fn has_let(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Let(_) => true,
        syn::Expr::Binary(b) => has_let(&b.left) || has_let(&b.right),
        _ => false,
    }
}
/// a pattern that takes everything
fn wild(p: &syn::Pat) -> bool {
    match p {
        syn::Pat::Wild(_) => true,
        syn::Pat::Tuple(t) => t.elems.iter().all(|e| matches!(e, syn::Pat::Wild(_))),
        syn::Pat::Ident(i) => i.subpat.is_none() && i.ident.to_string().starts_with(char::is_lowercase),
        _ => false,
    }
}
impl<'a> Visit<'a> for M {
    fn visit_item_mod(&mut self, m: &'a syn::ItemMod) {
        if m.ident != "tests" {
            visit::visit_item_mod(self, m);
        }
    }
    fn visit_expr_if(&mut self, e: &'a syn::ExprIf) {
        if !has_let(&e.cond) {
            self.cond(&e.cond);
        }
        visit::visit_expr_if(self, e);
    }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
        if !has_let(&e.cond) {
            self.cond(&e.cond);
        }
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_closure(&mut self, e: &'a syn::ExprClosure) {
        if let syn::Expr::Binary(b) = &*e.body {
            if matches!(b.op, syn::BinOp::And(_) | syn::BinOp::Or(_)) {
                self.cond(&e.body);
            }
        }
        visit::visit_expr_closure(self, e);
    }
    fn visit_block(&mut self, b: &'a syn::Block) {
        if let Some(syn::Stmt::Expr(e @ syn::Expr::Binary(x), None)) = b.stmts.last() {
            if matches!(x.op, syn::BinOp::And(_) | syn::BinOp::Or(_)) {
                self.cond(e);
            }
        }
        visit::visit_block(self, b);
    }
    fn visit_local(&mut self, l: &'a syn::Local) {
        if let Some(i) = &l.init {
            if let syn::Expr::Binary(x) = &*i.expr {
                if matches!(x.op, syn::BinOp::And(_) | syn::BinOp::Or(_)) {
                    self.cond(&i.expr);
                }
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_expr_match(&mut self, m: &'a syn::ExprMatch) {
        if let Some(l) = m.arms.last() {
            if !(wild(&l.pat) && l.guard.is_none()) {
                let (_, b) = self.off(m.span());
                let comma = if l.comma.is_some() || matches!(*l.body, syn::Expr::Block(_)) { "" } else { "," }.to_string();
                self.edits.push(Edit { a: b - 1, b: b - 1, how: How::Wrap(comma + " #[allow(unreachable_patterns)] _ => panic!(\"mt\"), ", String::new()) });
            }
        }
        visit::visit_expr_match(self, m);
    }
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        if let Some((_, g)) = &a.guard {
            if !has_let(g) {
                self.cond(g);
            }
        }
        if let syn::Pat::Or(o) = &a.pat {
            let mut cases = vec![];
            for c in &o.cases {
                let (x, y) = self.off(c.span());
                let text = self.src[x..y].to_string();
                let n = self.next;
                self.next += 1;
                let ok = !self.skip.contains(&n);
                if ok {
                    self.list.push(format!("{}\t{}:{}\talt\t{}", n, self.file, c.span().start().line, text));
                }
                cases.push((text, if ok { Some(n) } else { None }));
            }
            let g = a.guard.as_ref().map(|g| self.off(g.1.span()));
            let body = self.off(a.body.span());
            let (x, _) = self.off(a.span());
            self.edits.push(Edit { a: x, b: body.1, how: How::Split(cases, g, body) });
        } else if a.guard.is_none() && !wild(&a.pat) {
            self.wrap(a.pat.span(), "arm", |n| (String::new(), format!(" if !crate::mt::a({})", n)));
        }
        visit::visit_arm(self, a);
    }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        match s {
            syn::Stmt::Expr(e, Some(_)) if !matches!(e, syn::Expr::Break(_) | syn::Expr::Continue(_)) => {
                self.wrap(s.span(), "skip", |n| (format!("if !crate::mt::a({}) {{ ", n), " }".into()));
            }
            _ => (),
        }
        visit::visit_stmt(self, s);
    }
    fn visit_expr_lit(&mut self, l: &'a syn::ExprLit) {
        match &l.lit {
            syn::Lit::Bool(_) => self.wrap(l.span(), "not", |n| (format!("crate::mt::x({}, ", n), ")".into())),
            syn::Lit::Int(i) if i.suffix().is_empty() => {
                self.wrap(l.span(), "plus1", |n| (format!("crate::mt::i({}, ", n), ")".into()))
            }
            syn::Lit::Str(_) => self.wrap(l.span(), "str", |n| (format!("crate::mt::s({}, ", n), ")".into())),
            syn::Lit::Char(_) => self.wrap(l.span(), "char", |n| (format!("crate::mt::c({}, ", n), ")".into())),
            _ => (),
        }
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            if p.path.is_ident("Some") {
                self.wrap(c.span(), "none", |n| (format!("crate::mt::o({}, ", n), ")".into()));
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_path(&mut self, _: &'a syn::ExprPath) {}
    fn visit_pat(&mut self, _: &'a syn::Pat) {}
    fn visit_attribute(&mut self, _: &'a syn::Attribute) {}
    fn visit_item_const(&mut self, _: &'a syn::ItemConst) {}
    fn visit_item_static(&mut self, _: &'a syn::ItemStatic) {}
}

impl M {
    fn render(&self, a: usize, b: usize, from: usize, out: &mut String) -> usize {
        // edits are sorted by start, the longer first
        let mut at = a;
        let mut i = from;
        while i < self.edits.len() {
            let e = &self.edits[i];
            if e.a < at || e.a < a {
                i += 1;
                continue;
            }
            if e.a >= b {
                break;
            }
            if e.b > b {
                i += 1;
                continue;
            }
            out.push_str(&self.src[at..e.a]);
            match &e.how {
                How::Wrap(x, y) => {
                    out.push_str(x);
                    if e.b > e.a {
                        self.render(e.a, e.b, i + 1, out);
                    }
                    out.push_str(y);
                }
                How::Split(cases, g, body) => {
                    for (t, n) in cases {
                        out.push_str(t);
                        let mut gs = vec![];
                        if let Some(g) = g {
                            let mut o = String::from("(");
                            self.render(g.0, g.1, i + 1, &mut o);
                            gs.push(o + ")");
                        }
                        if let Some(n) = n {
                            gs.push(format!("!crate::mt::a({})", n));
                        }
                        if !gs.is_empty() {
                            out.push_str(" if ");
                            out.push_str(&gs.join(" && "));
                        }
                        out.push_str(" => { ");
                        self.render(body.0, body.1, i + 1, out);
                        out.push_str(" }\n");
                    }
                }
            }
            at = e.b;
            i += 1;
        }
        if at < b {
            out.push_str(&self.src[at..b]);
        }
        i
    }
}

const MT: &str = r#"
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
pub const N: usize = 20000;
pub static HITS: [AtomicU32; N] = [const { AtomicU32::new(0) }; N];
static ACTIVE: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
fn on(n: usize) -> bool {
    *ACTIVE.get_or_init(|| std::env::var("GM").ok().and_then(|x| x.parse().ok()).unwrap_or(usize::MAX)) == n
}
fn hit(n: usize) {
    HITS[n].store(1, Relaxed);
}
pub fn hits() -> Vec<usize> {
    (0..N).filter(|n| HITS[*n].load(Relaxed) > 0).collect()
}
pub fn t(n: usize, x: bool) -> bool { if !x { hit(n); } x || on(n) }
pub fn f(n: usize, x: bool) -> bool { if x { hit(n); } x && !on(n) }
pub fn a(n: usize) -> bool { hit(n); on(n) }
pub fn x(n: usize, x: bool) -> bool { hit(n); x ^ on(n) }
pub fn i<T: std::ops::Add<Output = T> + From<u8>>(n: usize, x: T) -> T { hit(n); if on(n) { x + T::from(1) } else { x } }
pub fn s(n: usize, x: &'static str) -> &'static str { hit(n); if on(n) { "\u{1}" } else { x } }
pub fn c(n: usize, x: char) -> char { hit(n); if on(n) { std::char::from_u32(x as u32 + 1).unwrap_or('x') } else { x } }
pub fn o<T>(n: usize, x: Option<T>) -> Option<T> { hit(n); if on(n) { None } else { x } }
"#;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let skip: HashSet<usize> = a.get(3).map(|f| fs::read_to_string(f).unwrap_or_default().split_whitespace().map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let mut files = vec![];
    fn walk(d: &str, v: &mut Vec<String>) {
        for e in fs::read_dir(d).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() {
                walk(p.to_str().unwrap(), v);
            } else if p.extension().map_or(false, |x| x == "rs") {
                v.push(p.to_str().unwrap().to_string());
            }
        }
    }
    walk(&a[1], &mut files);
    files.sort();
    let mut next = 0;
    let mut list = vec![];
    for f in files {
        let src = fs::read_to_string(&f).unwrap();
        let rel = f.strip_prefix(&a[1]).unwrap().trim_start_matches('/').to_string();
        let ast = syn::parse_file(&src).unwrap();
        let mut lines = vec![0];
        lines.extend(src.match_indices('\n').map(|x| x.0 + 1));
        let mut m = M { src, lines, edits: vec![], next, skip: skip.clone(), list: vec![], file: rel.clone() };
        m.visit_file(&ast);
        m.edits.sort_by_key(|e| (e.a, usize::MAX - e.b));
        let mut out = String::new();
        m.render(0, m.src.len(), 0, &mut out);
        if rel == "lib.rs" {
            out.push_str("\npub mod mt;\n");
        }
        let o = format!("{}/{}", a[2], rel);
        fs::create_dir_all(std::path::Path::new(&o).parent().unwrap()).unwrap();
        fs::write(&o, out).unwrap();
        next = m.next;
        list.extend(m.list);
    }
    fs::write(format!("{}/mt.rs", a[2]), MT).unwrap();
    fs::write(format!("{}/list.tsv", a[2]), list.join("\n") + "\n").unwrap();
    println!("{} faults", list.len());
}
