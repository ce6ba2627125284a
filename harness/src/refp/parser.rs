//! Reference parser. Ordered alternatives with backtracking; every alternative fails at the first token it
//! cannot take, and the maximum over all alternatives is the first token that cannot continue a program.
use super::lexer::*;
use crate::v::V;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Goal {
    Script,
    Module,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Reject {
    /// char offset of the first token that cannot continue a program
    pub pos: usize,
    /// end offset of what the model looked at when it died (bad tokens: where they turned bad)
    pub end: usize,
    /// the position is exactly determined (false: an early error, reported anywhere up to `pos`)
    pub exact: bool,
    /// the offending token, None at end of input or for text that is no token
    pub tok: Option<K>,
    pub bad: bool,
    pub eof: bool,
    /// something left open occurs before: an implementation may reject earlier
    pub may_before: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Accept(V),
    /// may be accepted (with this tree) or rejected
    May(V),
    Reject(Reject),
    Unspec,
}

pub fn parse(src: &[char], goal: Goal) -> Outcome {
    run(P::new(src, goal))
}

/// Where the text goes wrong if object literals may hold initializers ({a = 1}), whether or not they become patterns,
/// and prefix ++ and -- take any unary operand:
/// what a parser has to go by that finds out later. None: it does not.
pub fn parse_loose(src: &[char], goal: Goal) -> Option<Reject> {
    let mut p = P::new(src, goal);
    p.loose = true;
    match run(p) {
        Outcome::Reject(r) if !r.may_before => Some(r),
        _ => None,
    }
}

fn run(mut p: P) -> Outcome {
    let r = p.program();
    if p.unspec {
        return Outcome::Unspec;
    }
    match r {
        Ok(v) => {
            if p.s.may {
                Outcome::May(v)
            } else {
                Outcome::Accept(v)
            }
        }
        Err(()) => {
            let mut f = p.far.clone().expect("an error was recorded");
            f.may_before = p.may_ever;
            Outcome::Reject(f)
        }
    }
}

type R<T> = Result<T, ()>;

/// Everything that is rolled back when an alternative is abandoned.
#[derive(Clone)]
struct S {
    tok: Tok,
    prev_end: usize,
    may: bool,
    strict: bool,
    yield_: bool,
    await_: bool,
    ret: bool,
    iter: bool,
    switch: bool,
    /// inside formal parameters
    params: u8,
    /// a yield or await expression has been read that is in formal parameters, if that is what they are
    pbad: bool,
    func: bool,
    method: bool,
    /// in the class body of a class with a heritage; in the constructor of one
    derived: bool,
    super_call: bool,
    labels: Vec<(String, bool)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum EK {
    Id,
    Member,
    /// unparenthesised array or object literal
    Lit,
    Unary,
    Arrow,
    Other,
}

struct Ex {
    v: V,
    k: EK,
    paren: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum Fk {
    Normal,
    Method,
    Getter,
    Setter,
    /// the constructor of a class with a heritage
    Ctor,
    Arrow,
}

struct P<'a> {
    lx: Lexer<'a>,
    src: &'a [char],
    goal: Goal,
    s: S,
    unspec: bool,
    may_ever: bool,
    far: Option<Reject>,
    memo: HashMap<(usize, u32), bool>,
    decls: Vec<(String, u8)>,
    exports: Vec<String>,
    exported_names: HashSet<String>,
    strict_recheck: bool,
    /// how many identifier references named await have been read
    await_ids: usize,
    /// accept initializers in object literals and unary operands of prefix ++ and -- (see `parse_loose`)
    loose: bool,
}

macro_rules! obj {
    ($t:expr $(, $k:ident : $v:expr)* $(,)?) => {
        V::Obj(vec![("type", V::s($t)) $(, (stringify!($k), $v))*])
    };
}

fn ident(name: &str) -> V {
    obj!("Identifier", name: V::s(name))
}

pub fn is_reserved(n: &str) -> bool {
    matches!(
        n,
        "break" | "case" | "catch" | "class" | "const" | "continue" | "debugger" | "default" | "delete" | "do" | "else"
            | "enum" | "export" | "extends" | "false" | "finally" | "for" | "function" | "if" | "import" | "in"
            | "instanceof" | "new" | "null" | "return" | "super" | "switch" | "this" | "throw" | "true" | "try"
            | "typeof" | "var" | "void" | "while" | "with"
    )
}

pub fn is_strict_reserved(n: &str) -> bool {
    matches!(
        n,
        "implements" | "interface" | "let" | "package" | "private" | "protected" | "public" | "static" | "yield"
    )
}

fn binprec(op: &str) -> u8 {
    match op {
        "||" => 1,
        "&&" => 2,
        "|" => 3,
        "^" => 4,
        "&" => 5,
        "==" | "!=" | "===" | "!==" => 6,
        "<" | ">" | "<=" | ">=" | "instanceof" | "in" => 7,
        "<<" | ">>" | ">>>" => 8,
        "+" | "-" => 9,
        "*" | "/" | "%" => 10,
        _ => 0,
    }
}

impl<'a> P<'a> {
    fn new(src: &'a [char], goal: Goal) -> Self {
        let lx = Lexer { s: src, script: goal == Goal::Script };
        let tok = lx.token(0);
        let mut p = P {
            lx,
            src,
            goal,
            s: S {
                tok,
                prev_end: 0,
                may: false,
                strict: goal == Goal::Module,
                yield_: false,
                await_: false,
                ret: false,
                iter: false,
                switch: false,
                params: 0,
                pbad: false,
                derived: false,
                super_call: false,
                func: false,
                method: false,
                labels: vec![],
            },
            unspec: false,
            may_ever: false,
            far: None,
            memo: HashMap::new(),
            decls: vec![],
            exports: vec![],
            exported_names: HashSet::new(),
            loose: false,
            strict_recheck: false,
            await_ids: 0,
        };
        p.note();
        p
    }

    // ---------------------------------------------------------------- tokens

    fn note(&mut self) {
        if self.s.tok.unspec {
            self.unspec = true;
        }
    }
    fn may(&mut self) {
        self.s.may = true;
        self.may_ever = true;
    }
    fn bump(&mut self) {
        if self.s.tok.may {
            self.may();
        }
        if self.s.tok.octal {
            if self.s.strict {
                self.may();
            }
        }
        if let K::Id { name, esc: true } = &self.s.tok.k {
            if name == "let" {
                self.unspec = true;
            }
        }
        self.s.prev_end = self.s.tok.end;
        self.s.tok = self.lx.token(self.s.tok.end);
        self.note();
    }
    fn record(&mut self, r: Reject) {
        let better = match &self.far {
            None => true,
            Some(f) => r.pos > f.pos || (r.pos == f.pos && f.exact && !r.exact),
        };
        if better {
            self.far = Some(r);
        }
    }
    fn fail_tok(&mut self, t: &Tok, exact: bool) {
        let (bad, end) = match t.k {
            K::Bad(b) => (true, b),
            _ => (false, t.end),
        };
        let eof = t.k == K::Eof;
        let r = Reject {
            pos: t.start,
            end,
            exact: exact && !bad && !self.s.pbad,
            tok: if bad || eof { None } else { Some(t.k.clone()) },
            bad,
            eof,
            may_before: false,
        };
        self.record(r);
    }
    fn err<T>(&mut self) -> R<T> {
        let t = self.s.tok.clone();
        self.fail_tok(&t, true);
        Err(())
    }
    /// an early error: must be rejected, position anywhere up to the current token
    fn early<T>(&mut self) -> R<T> {
        let t = self.s.tok.clone();
        self.fail_tok(&t, false);
        Err(())
    }
    fn is_p(&self, p: &str) -> bool {
        matches!(self.s.tok.k, K::P(q) if q == p)
    }
    fn is_kw(&self, w: &str) -> bool {
        matches!(&self.s.tok.k, K::Id{name, esc: false} if name == w)
    }
    fn eat_p(&mut self, p: &str) -> bool {
        if self.is_p(p) {
            self.bump();
            true
        } else {
            false
        }
    }
    fn need_p(&mut self, p: &str) -> R<()> {
        if self.eat_p(p) {
            Ok(())
        } else {
            self.err()
        }
    }
    fn eat_kw(&mut self, w: &str) -> bool {
        if self.is_kw(w) {
            self.bump();
            true
        } else {
            false
        }
    }
    fn need_kw(&mut self, w: &str) -> R<()> {
        if self.eat_kw(w) {
            Ok(())
        } else {
            self.err()
        }
    }
    /// the token after the current one (only meaningful when the current one is not re-scanned)
    fn peek(&self) -> Tok {
        self.lx.token(self.s.tok.end)
    }
    fn semicolon(&mut self) -> R<()> {
        if self.eat_p(";") {
            return Ok(());
        }
        if self.is_p("}") || self.s.tok.k == K::Eof || self.s.tok.nl {
            return Ok(());
        }
        self.err()
    }
    fn raw(&self, a: usize, b: usize) -> String {
        self.src[a..b].iter().collect()
    }

    fn attempt<T>(&mut self, kind: u32, f: impl FnOnce(&mut Self, &mut bool) -> R<T>) -> R<Option<T>> {
        // Err: failed after commitment; Ok(None): alternative not applicable
        let s = &self.s;
        let key = (
            s.tok.start,
            kind << 8
                | (s.strict as u32)
                | (s.yield_ as u32) << 1
                | (s.await_ as u32) << 2
                | (s.params as u32) << 3
                | (self.strict_recheck as u32) << 6,
        );
        if self.memo.get(&key) == Some(&false) {
            return Ok(None);
        }
        let save = self.s.clone();
        let nd = self.decls.len();
        let mut committed = false;
        match f(self, &mut committed) {
            Ok(v) => Ok(Some(v)),
            Err(()) => {
                if committed {
                    return Err(());
                }
                self.s = save;
                self.decls.truncate(nd);
                self.memo.insert(key, false);
                Ok(None)
            }
        }
    }

    // ---------------------------------------------------------------- identifiers

    fn word_ok(&self, n: &str) -> bool {
        if is_reserved(n) {
            return false;
        }
        if self.s.strict && is_strict_reserved(n) {
            return false;
        }
        if n == "yield" && self.s.yield_ {
            return false;
        }
        if n == "await" && (self.s.await_ || self.goal == Goal::Module) {
            return false;
        }
        true
    }

    /// is the current token usable as an identifier reference / binding / label here?
    fn at_ident(&self) -> bool {
        match &self.s.tok.k {
            K::Id { name, .. } => self.word_ok(name),
            _ => false,
        }
    }
    fn take_ident(&mut self) -> R<String> {
        if !self.at_ident() {
            return self.err();
        }
        let n = match &self.s.tok.k {
            K::Id { name, .. } => name.clone(),
            _ => unreachable!(),
        };
        if n == "let" {
            self.may();
        }
        self.bump();
        Ok(n)
    }
    fn binding_ident(&mut self) -> R<String> {
        if let K::Id { name, .. } = &self.s.tok.k {
            if self.s.strict && (name == "eval" || name == "arguments") {
                return self.early();
            }
        }
        self.take_ident()
    }
    fn any_name(&mut self) -> R<String> {
        match self.s.tok.k.clone() {
            K::Id { name, .. } => {
                self.bump();
                Ok(name)
            }
            _ => self.err(),
        }
    }

    // ---------------------------------------------------------------- program

    fn program(&mut self) -> R<V> {
        let module = self.goal == Goal::Module;
        let mut body = vec![];
        self.directives(&mut body, &mut |_| Ok(()))?;
        while self.s.tok.k != K::Eof {
            let v = if module { self.module_item()? } else { self.stmt_item()? };
            body.push(v);
        }
        if module {
            let names: HashSet<&String> = self.decls.iter().map(|(n, _)| n).collect();
            if self.exports.iter().any(|e| !names.contains(e)) {
                self.may();
            }
        }
        self.check_redecl(0);
        Ok(obj!("Program", body: V::Arr(body), sourceType: V::s(if module { "module" } else { "script" })))
    }

    /// Redeclaration rules are left open; anything that could fall under them is "may".
    fn check_redecl(&mut self, from: usize) {
        let mut hit = false;
        let d = &self.decls[from..];
        for (i, (n, k)) in d.iter().enumerate() {
            for (m, l) in &d[..i] {
                if n == m && ((k | l) & 2 != 0 || (k | l) == 5) {
                    hit = true;
                }
            }
        }
        if hit {
            self.may();
        }
    }
    /// End of a block scope: its lexical names go, its vars stay.
    fn end_block(&mut self, from: usize) {
        self.check_redecl(from);
        let tail = self.decls.split_off(from);
        self.decls.extend(tail.into_iter().filter(|(_, k)| *k == 1));
    }
    fn declare(&mut self, names: &[String], lexical: bool) {
        for n in names {
            self.decls.push((n.clone(), if lexical { 2 } else { 1 }));
        }
    }

    /// Directive prologue. Calls `on_strict` right after the statement that switched strictness on.
    fn directives(&mut self, body: &mut Vec<V>, on_strict: &mut dyn FnMut(&mut Self) -> R<()>) -> R<()> {
        loop {
            let t = self.s.tok.clone();
            if !matches!(t.k, K::Str(_)) {
                return Ok(());
            }
            // Is it a directive? The whole expression must be the string token.
            let n = self.peek();
            let is_dir = match &n.k {
                K::P(";") | K::P("}") | K::Eof => true,
                _ if n.nl => !continues_expression(&n.k),
                _ => false,
            };
            if !is_dir {
                // first non-directive statement
                return Ok(());
            }
            let raw = self.raw(t.start + 1, t.end - 1);
            let lit = self.literal_str(&t);
            if raw == "use strict" {
                self.s.strict = true;
            } else if t.octal {
                self.may(); // an octal escape before a later "use strict"
            }
            self.bump();
            self.semicolon()?;
            body.push(obj!("ExpressionStatement", expression: lit, directive: V::Str(raw.clone())));
            if raw == "use strict" {
                on_strict(self)?;
            }
        }
    }

    fn literal_str(&self, t: &Tok) -> V {
        let v = match &t.k {
            K::Str(s) => V::Str(s.clone()),
            _ => unreachable!(),
        };
        obj!("Literal", value: v, raw: V::Str(self.raw(t.start, t.end)))
    }

    // ---------------------------------------------------------------- modules

    fn module_item(&mut self) -> R<V> {
        if self.is_kw("import") {
            return self.import_decl();
        }
        if self.is_kw("export") {
            return self.export_decl();
        }
        self.stmt_item()
    }

    fn string_lit(&mut self) -> R<V> {
        let t = self.s.tok.clone();
        if let K::Str(_) = t.k {
            let v = self.literal_str(&t);
            self.bump();
            Ok(v)
        } else {
            self.err()
        }
    }
    fn from_clause(&mut self) -> R<V> {
        self.need_kw("from")?;
        self.string_lit()
    }

    fn import_decl(&mut self) -> R<V> {
        self.bump();
        if self.is_p("(") || self.is_p(".") {
            self.unspec = true;
            return self.err();
        }
        if let K::Str(_) = self.s.tok.k {
            let source = self.string_lit()?;
            self.import_attrs();
            self.semicolon()?;
            return Ok(obj!("ImportDeclaration", specifiers: V::Arr(vec![]), source: source));
        }
        let mut specs = vec![];
        let mut more = true;
        if let K::Id { .. } = self.s.tok.k {
            let n = self.binding_ident()?;
            self.declare(&[n.clone()], true);
            specs.push(obj!("ImportDefaultSpecifier", local: ident(&n)));
            more = self.eat_p(",");
        }
        if more {
            if self.eat_p("*") {
                self.need_kw("as")?;
                let n = self.binding_ident()?;
                self.declare(&[n.clone()], true);
                specs.push(obj!("ImportNamespaceSpecifier", local: ident(&n)));
            } else if self.eat_p("{") {
                while !self.is_p("}") {
                    let ok = self.at_ident()
                        && !matches!(&self.s.tok.k, K::Id{name,..} if name == "eval" || name == "arguments");
                    if let K::Str(_) = self.s.tok.k {
                        // ES2022 string names
                        self.unspec |= matches!(&self.peek().k, K::Id { name, .. } if name == "as");
                    }
                    let imported = self.any_name()?;
                    let local = if self.is_kw("as") {
                        self.bump();
                        self.binding_ident()?
                    } else {
                        if !ok {
                            if imported == "eval" || imported == "arguments" {
                                return self.early();
                            }
                            return self.err();
                        }
                        imported.clone()
                    };
                    self.declare(&[local.clone()], true);
                    specs.push(obj!("ImportSpecifier", imported: ident(&imported), local: ident(&local)));
                    if !self.eat_p(",") {
                        break;
                    }
                }
                self.need_p("}")?;
            } else {
                return self.err();
            }
        }
        let source = self.from_clause()?;
        self.import_attrs();
        self.semicolon()?;
        Ok(obj!("ImportDeclaration", specifiers: V::Arr(specs), source: source))
    }

    fn import_attrs(&mut self) {
        if self.is_kw("with") || (self.is_kw("assert") && !self.s.tok.nl) {
            self.unspec = true; // import attributes
        }
    }

    fn export_name(&mut self, n: &str) {
        if !self.exported_names.insert(n.to_string()) {
            self.may(); // duplicate exported names
        }
    }

    fn export_decl(&mut self) -> R<V> {
        self.bump();
        if self.eat_p("*") {
            if self.is_kw("as") {
                self.unspec = true;
            }
            let source = self.from_clause()?;
            self.import_attrs();
            self.semicolon()?;
            return Ok(obj!("ExportAllDeclaration", source: source));
        }
        if self.eat_p("{") {
            let mut specs = vec![];
            let mut locals = vec![];
            let mut bad = false;
            while !self.is_p("}") {
                if let K::Str(_) = self.s.tok.k {
                    self.unspec |= self.peek().k == K::P("}") || self.peek().k == K::P(",") || matches!(&self.peek().k, K::Id { name, .. } if name == "as");
                }
                let ok = self.at_ident();
                let local = self.any_name()?;
                if !ok {
                    bad = true;
                }
                let exported = if self.is_kw("as") {
                    self.bump();
                    if let K::Str(_) = self.s.tok.k {
                        self.unspec |= self.peek().k == K::P("}") || self.peek().k == K::P(",");
                    }
                    self.any_name()?
                } else {
                    local.clone()
                };
                self.export_name(&exported);
                locals.push(local.clone());
                specs.push(obj!("ExportSpecifier", local: ident(&local), exported: ident(&exported)));
                if !self.eat_p(",") {
                    break;
                }
            }
            self.need_p("}")?;
            let source = if self.is_kw("from") {
                let s = self.from_clause()?;
                self.import_attrs();
                s
            } else {
                if bad {
                    return self.err();
                }
                self.exports.extend(locals);
                V::Null
            };
            self.semicolon()?;
            return Ok(
                obj!("ExportNamedDeclaration", declaration: V::Null, specifiers: V::Arr(specs), source: source),
            );
        }
        if self.eat_kw("default") {
            self.export_name("default");
            let d = if self.is_kw("function") {
                self.function(true, true)?
            } else if self.at_async_function() {
                self.function(true, true)?
            } else if self.is_kw("class") {
                self.class(true, true)?
            } else {
                let e = self.assign(true)?;
                self.semicolon()?;
                e.v
            };
            return Ok(obj!("ExportDefaultDeclaration", declaration: d));
        }
        let n0 = self.decls.len();
        let d = if self.is_kw("var") {
            self.var_statement("var")?
        } else if self.is_kw("const") {
            self.var_statement("const")?
        } else if self.is_kw("let") {
            self.var_statement("let")?
        } else if self.is_kw("function") || self.at_async_function() {
            self.function(true, false)?
        } else if self.is_kw("class") {
            self.class(true, false)?
        } else {
            if self.is_kw("async") {
                // `async` must be followed by `function` on the same line
                self.bump();
                return self.err();
            }
            return self.err();
        };
        let names: Vec<String> = match d.ty() {
            "VariableDeclaration" => self.decls[n0..].iter().map(|x| x.0.clone()).collect(),
            _ => match d.get("id").and_then(|i| i.get("name")) {
                Some(V::Str(s)) => vec![s.clone()],
                _ => vec![],
            },
        };
        for n in names {
            self.export_name(&n);
        }
        Ok(obj!("ExportNamedDeclaration", declaration: d, specifiers: V::Arr(vec![]), source: V::Null))
    }

    // ---------------------------------------------------------------- statements

    fn at_async_function(&self) -> bool {
        if !self.is_kw("async") {
            return false;
        }
        let n = self.peek();
        !n.nl && matches!(&n.k, K::Id{name, esc:false} if name == "function")
    }

    /// `let` at statement level: does it begin a declaration?
    fn let_is_decl(&mut self) -> bool {
        if self.s.strict {
            return true;
        }
        let n = self.peek();
        match &n.k {
            K::P("[") | K::P("{") => true,
            K::Id { name, esc } => {
                // `let in`, `let instanceof` continue an expression; other reserved words can only be a failed binding
                if name == "in" || name == "instanceof" {
                    false
                } else {
                    let _ = esc;
                    true
                }
            }
            _ => false,
        }
    }

    fn stmt_item(&mut self) -> R<V> {
        if self.is_kw("function") || self.at_async_function() {
            return self.function(true, false);
        }
        if self.is_kw("class") {
            return self.class(true, false);
        }
        if self.is_kw("const") {
            return self.var_statement("const");
        }
        if self.is_kw("let") && self.let_is_decl() {
            if !self.s.strict {
                let n = self.peek();
                if let K::Id { name, .. } = &n.k {
                    if !self.word_ok(name) || (n.nl && matches!(name.as_str(), "yield" | "await" | "let")) {
                        // `let <newline> yield 0` and the like: left open
                        self.may();
                        if n.nl {
                            self.unspec = true;
                        }
                    }
                }
            }
            return self.var_statement("let");
        }
        self.stmt()
    }

    /// A Statement where the grammar has Statement (not StatementListItem).
    fn sub_stmt(&mut self) -> R<V> {
        if self.is_kw("class") {
            return self.err();
        }
        if self.is_kw("const") {
            return self.err();
        }
        if self.is_kw("function") {
            return self.err();
        }
        if self.at_async_function() {
            // `async` alone would be an expression statement; `async function` cannot be
            self.bump();
            return self.err();
        }
        if self.is_kw("let") {
            if self.s.strict {
                return self.err();
            }
            let n = self.peek();
            match &n.k {
                K::P("[") => {
                    self.bump();
                    return self.err();
                }
                K::Id { .. } | K::P("{") if n.nl => self.unspec = true,
                _ => {}
            }
        }
        self.stmt()
    }

    fn body_stmt(&mut self) -> R<V> {
        let old = self.s.iter;
        self.s.iter = true;
        // a labelled function as the body of a loop is left open
        let v = self.sub_stmt()?;
        self.s.iter = old;
        self.labelled_function_body(&v);
        Ok(v)
    }
    fn labelled_function_body(&mut self, v: &V) {
        let mut x = v;
        while x.ty() == "LabeledStatement" {
            x = x.get("body").unwrap();
            if x.ty() == "FunctionDeclaration" {
                self.may();
                return;
            }
        }
    }

    fn block(&mut self) -> R<V> {
        self.need_p("{")?;
        let nd = self.decls.len();
        let mut b = vec![];
        while !self.is_p("}") {
            if self.s.tok.k == K::Eof {
                return self.err();
            }
            b.push(self.stmt_item()?);
        }
        self.bump();
        self.end_block(nd);
        Ok(obj!("BlockStatement", body: V::Arr(b)))
    }

    fn if_clause(&mut self) -> R<V> {
        if self.is_kw("function") && !self.s.strict {
            let n = self.peek();
            if n.k == K::P("*") {
                self.bump();
                return self.err();
            }
            return self.function(true, false);
        }
        let v = self.sub_stmt()?;
        self.labelled_function_body(&v);
        Ok(v)
    }

    fn stmt(&mut self) -> R<V> {
        let t = self.s.tok.clone();
        let (name, esc) = match &t.k {
            K::P("{") => return self.block(),
            K::P(";") => {
                self.bump();
                return Ok(obj!("EmptyStatement"));
            }
            K::Id { name, esc } => (name.clone(), *esc),
            _ => return self.expr_stmt(),
        };
        if !esc {
            match name.as_str() {
                "var" => return self.var_statement("var"),
                "if" => {
                    self.bump();
                    self.need_p("(")?;
                    let test = self.expr(true)?;
                    self.need_p(")")?;
                    let c = self.if_clause()?;
                    let a = if self.eat_kw("else") { self.if_clause()? } else { V::Null };
                    return Ok(obj!("IfStatement", test: test, consequent: c, alternate: a));
                }
                "for" => return self.for_stmt(),
                "while" => {
                    self.bump();
                    self.need_p("(")?;
                    let test = self.expr(true)?;
                    self.need_p(")")?;
                    let body = self.body_stmt()?;
                    return Ok(obj!("WhileStatement", test: test, body: body));
                }
                "do" => {
                    self.bump();
                    let body = self.body_stmt()?;
                    self.need_kw("while")?;
                    self.need_p("(")?;
                    let test = self.expr(true)?;
                    self.need_p(")")?;
                    self.eat_p(";");
                    return Ok(obj!("DoWhileStatement", body: body, test: test));
                }
                "continue" | "break" => {
                    let brk = name == "break";
                    self.bump();
                    let mut label = V::Null;
                    if !self.s.tok.nl && self.at_ident() {
                        let n = self.take_ident()?;
                        let found = self.s.labels.iter().rev().find(|l| l.0 == n).cloned();
                        match found {
                            None => self.may(),
                            Some((_, is_loop)) => {
                                if !brk && (!is_loop || !self.s.iter) {
                                    self.may();
                                }
                            }
                        }
                        label = ident(&n);
                    } else if brk && !(self.s.iter || self.s.switch) || !brk && !self.s.iter {
                        // only a label could have continued it
                        if !self.s.labels.is_empty() || true {
                            return self.early();
                        }
                    }
                    self.semicolon()?;
                    return Ok(if brk {
                        obj!("BreakStatement", label: label)
                    } else {
                        obj!("ContinueStatement", label: label)
                    });
                }
                "return" => {
                    if !self.s.ret {
                        return self.err();
                    }
                    self.bump();
                    let arg = if self.is_p(";") || self.is_p("}") || self.s.tok.k == K::Eof || self.s.tok.nl {
                        V::Null
                    } else {
                        self.expr(true)?
                    };
                    self.semicolon()?;
                    return Ok(obj!("ReturnStatement", argument: arg));
                }
                "with" => {
                    if self.s.strict {
                        return self.early();
                    }
                    self.bump();
                    self.need_p("(")?;
                    let o = self.expr(true)?;
                    self.need_p(")")?;
                    let body = self.sub_stmt()?;
                    self.labelled_function_body(&body);
                    return Ok(obj!("WithStatement", object: o, body: body));
                }
                "switch" => return self.switch_stmt(),
                "throw" => {
                    self.bump();
                    if self.s.tok.nl {
                        return self.err();
                    }
                    let a = self.expr(true)?;
                    self.semicolon()?;
                    return Ok(obj!("ThrowStatement", argument: a));
                }
                "try" => {
                    self.bump();
                    let block = self.block()?;
                    let mut handler = V::Null;
                    let mut fin = V::Null;
                    if self.eat_kw("catch") {
                        let mut param = V::Null;
                        let nd = self.decls.len();
                        if self.eat_p("(") {
                            let mut names = vec![];
                            param = self.binding_target(&mut names)?;
                            self.declare(&names, true);
                            self.need_p(")")?;
                        }
                        let body = self.block()?;
                        self.end_block(nd);
                        handler = obj!("CatchClause", param: param, body: body);
                    }
                    if self.eat_kw("finally") {
                        fin = self.block()?;
                    } else if handler == V::Null {
                        return self.err();
                    }
                    return Ok(obj!("TryStatement", block: block, handler: handler, finalizer: fin));
                }
                "debugger" => {
                    self.bump();
                    self.semicolon()?;
                    return Ok(obj!("DebuggerStatement"));
                }
                "import" => {
                    let n = self.peek();
                    if matches!(n.k, K::P("(") | K::P(".")) {
                        self.unspec = true;
                    }
                    // with dynamic import `import` could begin an expression: not exact
                    self.bump();
                    return self.early();
                }
                "export" => {
                    return self.err();
                }
                _ => {}
            }
        }
        // labelled statement
        if self.at_ident() && self.peek().k == K::P(":") {
            let n = self.take_ident()?;
            self.bump();
            if self.s.labels.iter().any(|l| l.0 == n) {
                self.may();
            }
            if n == "let" {
                self.may();
            }
            // does the label (through further labels) mark a loop?
            let is_loop = self.label_marks_loop();
            self.s.labels.push((n.clone(), is_loop));
            let body = if self.is_kw("function") && !self.s.strict {
                let nx = self.peek();
                if nx.k == K::P("*") {
                    self.bump();
                    return self.err();
                }
                self.function(true, false)?
            } else {
                self.sub_stmt()?
            };
            self.s.labels.pop();
            return Ok(obj!("LabeledStatement", label: ident(&n), body: body));
        }
        self.expr_stmt()
    }

    fn label_marks_loop(&self) -> bool {
        let mut t = self.s.tok.clone();
        loop {
            match &t.k {
                K::Id { name, esc: false } if matches!(name.as_str(), "for" | "while" | "do") => return true,
                K::Id { .. } => {
                    let n = self.lx.token(t.end);
                    if n.k == K::P(":") {
                        t = self.lx.token(n.end);
                    } else {
                        return false;
                    }
                }
                _ => return false,
            }
        }
    }

    fn expr_stmt(&mut self) -> R<V> {
        if self.is_kw("class") || self.is_kw("function") {
            return self.err();
        }
        let e = self.expr(true)?;
        self.semicolon()?;
        Ok(obj!("ExpressionStatement", expression: e))
    }

    fn switch_stmt(&mut self) -> R<V> {
        self.bump();
        self.need_p("(")?;
        let d = self.expr(true)?;
        self.need_p(")")?;
        self.need_p("{")?;
        let old = self.s.switch;
        self.s.switch = true;
        let nd = self.decls.len();
        let mut cases = vec![];
        let mut def = false;
        while !self.is_p("}") {
            let test = if self.eat_kw("case") {
                self.expr(true)?
            } else if self.is_kw("default") {
                if def {
                    return self.early();
                }
                def = true;
                self.bump();
                V::Null
            } else {
                return self.err();
            };
            self.need_p(":")?;
            let mut cons = vec![];
            while !(self.is_p("}") || self.is_kw("case") || self.is_kw("default")) {
                if self.s.tok.k == K::Eof {
                    return self.err();
                }
                cons.push(self.stmt_item()?);
            }
            cases.push(obj!("SwitchCase", test: test, consequent: V::Arr(cons)));
        }
        self.bump();
        self.end_block(nd);
        self.s.switch = old;
        Ok(obj!("SwitchStatement", discriminant: d, cases: V::Arr(cases)))
    }

    fn var_statement(&mut self, kind: &str) -> R<V> {
        self.bump();
        let (decls, _, _) = self.declarators(kind, true, false)?;
        self.semicolon()?;
        Ok(obj!("VariableDeclaration", declarations: V::Arr(decls), kind: V::s(kind)))
    }

    /// Returns the declarators, whether the (single) one could be a for-in/of head, and whether it has an initializer.
    fn declarators(&mut self, kind: &str, in_: bool, head: bool) -> R<(Vec<V>, bool, bool)> {
        let mut out = vec![];
        let mut has_init = false;
        loop {
            let mut names = vec![];
            let id = self.binding_target(&mut names)?;
            if kind != "var" && names.iter().any(|n| n == "let") {
                self.may();
            }
            self.declare(&names, kind != "var");
            let mut init = V::Null;
            if self.eat_p("=") {
                init = self.assign(in_)?.v;
                has_init = true;
            } else {
                let is_head = head && out.is_empty() && (self.is_kw("of") || self.is_kw("in"));
                if is_head {
                    out.push(obj!("VariableDeclarator", id: id, init: init));
                    return Ok((out, true, false));
                }
                if id.ty() != "Identifier" {
                    return self.err();
                }
                if kind == "const" {
                    self.may();
                }
            }
            out.push(obj!("VariableDeclarator", id: id, init: init));
            if !self.eat_p(",") {
                break;
            }
        }
        let single = out.len() == 1;
        Ok((out, single && head, has_init))
    }

    fn for_stmt(&mut self) -> R<V> {
        let nd = self.decls.len();
        let v = self.for_inner()?;
        self.end_block(nd);
        Ok(v)
    }

    fn for_inner(&mut self) -> R<V> {
        self.bump();
        if self.is_kw("await") {
            self.unspec = true;
        }
        self.need_p("(")?;
        let mut init = V::Null;
        let mut init_is_target = false;
        let kind = if self.is_kw("var") {
            Some("var")
        } else if self.is_kw("const") {
            Some("const")
        } else if self.is_kw("let") && self.let_is_decl() {
            Some("let")
        } else {
            None
        };
        let mut left = None;
        if self.is_p(";") {
        } else if let Some(kind) = kind {
            if kind == "let" {
                if let K::Id { name, .. } = &self.peek().k {
                    if !self.word_ok(name) {
                        self.may();
                    }
                }
            }
            self.bump();
            let n0 = self.s.may;
            let (d, head, has_init) = self.declarators(kind, false, true)?;
            let v = obj!("VariableDeclaration", declarations: V::Arr(d), kind: V::s(kind));
            if head && (self.is_kw("of") || self.is_kw("in")) {
                if has_init {
                    if self.is_kw("in") && kind == "var" && !self.s.strict {
                        self.may(); // Annex B: for (var a = 1 in b)
                        if v.get("declarations").map(|d| match d {
                            V::Arr(a) => a[0].get("id").unwrap().ty() != "Identifier",
                            _ => false,
                        }) == Some(true)
                        {
                            return self.err();
                        }
                    } else if self.is_kw("in") && kind == "var" {
                        return self.early();
                    } else {
                        return self.err();
                    }
                }
                let _ = n0;
                left = Some(v);
            } else {
                init = v;
            }
        } else {
            let let_start = self.is_kw("let");
            let async_of = self.is_kw("async") && matches!(&self.peek().k, K::Id{name, ..} if name == "of");
            if async_of {
                self.unspec = true;
            }
            let mut pat = None;
            if self.is_p("[") || self.is_p("{") {
                pat = self.attempt(1, |p, commit| {
                    let v = p.assign_pattern()?;
                    if p.is_kw("of") || p.is_kw("in") {
                        *commit = true;
                        Ok(v)
                    } else {
                        p.err()
                    }
                })?;
            }
            if let Some(v) = pat {
                left = Some(v);
            } else {
                let e = self.expr_ex(false)?;
                if (self.is_kw("of") || self.is_kw("in")) && self.simple_target(&e) {
                    if let_start && self.is_kw("of") {
                        self.unspec = true;
                    }
                    if self.bad_strict_target(&e) {
                        return self.early();
                    }
                    left = Some(e.v);
                } else {
                    init = e.v;
                    init_is_target = self.simple_target(&Ex { v: V::Null, k: e.k, paren: e.paren });
                }
            }
        }
        let _ = init_is_target;
        if let Some(left) = left {
            let of = self.is_kw("of");
            self.bump();
            let right = if of { self.assign(true)?.v } else { self.expr(true)? };
            self.need_p(")")?;
            let body = self.body_stmt()?;
            return Ok(if of {
                obj!("ForOfStatement", left: left, right: right, body: body, await: V::Bool(false))
            } else {
                obj!("ForInStatement", left: left, right: right, body: body)
            });
        }
        self.need_p(";")?;
        let test = if self.is_p(";") { V::Null } else { self.expr(true)? };
        self.need_p(";")?;
        let update = if self.is_p(")") { V::Null } else { self.expr(true)? };
        self.need_p(")")?;
        let body = self.body_stmt()?;
        Ok(obj!("ForStatement", init: init, test: test, update: update, body: body))
    }

    // ---------------------------------------------------------------- bindings

    fn binding_target(&mut self, names: &mut Vec<String>) -> R<V> {
        if self.is_p("[") {
            self.bump();
            let mut el = vec![];
            loop {
                if self.eat_p(",") {
                    el.push(V::Null);
                    continue;
                }
                if self.eat_p("]") {
                    break;
                }
                if self.eat_p("...") {
                    let a = self.binding_target(names)?;
                    el.push(obj!("RestElement", argument: a));
                    self.need_p("]")?;
                    break;
                }
                el.push(self.binding_element(names)?);
                if self.eat_p("]") {
                    break;
                }
                self.need_p(",")?;
            }
            return Ok(obj!("ArrayPattern", elements: V::Arr(el)));
        }
        if self.is_p("{") {
            self.bump();
            let mut props = vec![];
            loop {
                if self.eat_p("}") {
                    break;
                }
                if self.eat_p("...") {
                    let n = self.binding_ident()?;
                    names.push(n.clone());
                    props.push(obj!("RestElement", argument: ident(&n)));
                    self.need_p("}")?;
                    break;
                }
                let start = self.s.clone();
                let (key, computed, shorthand_name) = self.property_key()?;
                if self.eat_p(":") {
                    let v = self.binding_element(names)?;
                    props.push(property(key, computed, v, "init", false, false));
                } else if let Some(n) = shorthand_name {
                    let after = self.s.clone();
                    // must be a binding identifier
                    self.s = start;
                    if let Err(()) = self.shorthand_ident(true, &after) {
                        return Err(());
                    }
                    self.s = after;
                    if n == "let" {
                        self.may();
                    }
                    names.push(n.clone());
                    let mut v = ident(&n);
                    if self.eat_p("=") {
                        let r = self.assign(true)?.v;
                        v = obj!("AssignmentPattern", left: v, right: r);
                    }
                    props.push(property(key, false, v, "init", false, true));
                } else {
                    return self.err();
                }
                if self.eat_p("}") {
                    break;
                }
                self.need_p(",")?;
            }
            return Ok(obj!("ObjectPattern", properties: V::Arr(props)));
        }
        let n = self.binding_ident()?;
        names.push(n.clone());
        Ok(ident(&n))
    }

    /// self is positioned at the key; `after` is the state after it. A word that is no identifier here needs `:`,
    /// so the error is at the token after it.
    fn shorthand_ident(&mut self, binding: bool, after: &S) -> R<()> {
        let name = match &self.s.tok.k {
            K::Id { name, .. } => name.clone(),
            _ => unreachable!(),
        };
        if binding && self.s.strict && (name == "eval" || name == "arguments") {
            self.fail_tok(&after.tok.clone(), false);
            return Err(());
        }
        if !self.at_ident() {
            let t = after.tok.clone();
            self.fail_tok(&t, true);
            return Err(());
        }
        Ok(())
    }

    fn binding_element(&mut self, names: &mut Vec<String>) -> R<V> {
        let t = self.binding_target(names)?;
        if self.eat_p("=") {
            let r = self.assign(true)?.v;
            return Ok(obj!("AssignmentPattern", left: t, right: r));
        }
        Ok(t)
    }

    /// key, computed, and the name if it is a plain word
    fn property_key(&mut self) -> R<(V, bool, Option<String>)> {
        let t = self.s.tok.clone();
        match &t.k {
            K::Str(_) => {
                let v = self.literal_str(&t);
                self.bump();
                Ok((v, false, None))
            }
            K::Num(n) => {
                self.bump();
                Ok((obj!("Literal", value: V::Num(*n), raw: V::Str(self.raw(t.start, t.end))), false, None))
            }
            K::P("[") => {
                self.bump();
                let e = self.assign(true)?.v;
                self.need_p("]")?;
                Ok((e, true, None))
            }
            K::Id { name, esc } => {
                let name = name.clone();
                self.bump();
                Ok((ident(&name), false, Some(name)))
            }
            _ => {
                if t.k == K::P("#") {
                    self.unspec = true;
                }
                self.err()
            }
        }
    }

    // ---------------------------------------------------------------- functions

    fn function(&mut self, decl: bool, anon_ok: bool) -> R<V> {
        let is_async = self.eat_kw("async");
        self.need_kw("function")?;
        let gen = self.eat_p("*");
        let (oy, oa) = (self.s.yield_, self.s.await_);
        if !decl {
            self.s.yield_ = gen;
            self.s.await_ = is_async;
        }
        let mut id = V::Null;
        let name_state = self.s.clone();
        if !self.is_p("(") {
            let n = self.binding_ident()?;
            if decl {
                let k = if self.s.strict || gen || is_async { 2 } else { 4 };
                self.decls.push((n.clone(), k));
            }
            id = ident(&n);
        } else if decl && !anon_ok {
            return self.err();
        }
        let named = id != V::Null;
        self.s.yield_ = oy;
        self.s.await_ = oa;
        let ns = if named { Some(name_state) } else { None };
        let (params, body) = self.function_tail(gen, is_async, Fk::Normal, ns)?;
        Ok(obj!(if decl { "FunctionDeclaration" } else { "FunctionExpression" },
            id: id, params: V::Arr(params), body: body, generator: V::Bool(gen), expression: V::Bool(false),
            async: V::Bool(is_async)))
    }

    /// From `(` to the closing brace of the body.
    fn function_tail(&mut self, gen: bool, is_async: bool, fk: Fk, name: Option<S>) -> R<(Vec<V>, V)> {
        let outer = self.s.clone();
        self.enter_function(gen, is_async, fk);
        let at_params = self.s.clone();
        self.s.params = 1 | self.s.params;
        let (params, names, simple) = self.params(fk)?;
        if self.s.pbad {
            return self.early();
        }
        self.s.params = 0;
        let nd = self.decls.len();
        self.function_dups(&names);
        let body = self.function_body(&at_params, fk, name, simple)?;
        self.check_redecl(nd);
        self.decls.truncate(nd);
        self.leave_function(outer);
        Ok((params, body))
    }

    fn enter_function(&mut self, gen: bool, is_async: bool, fk: Fk) {
        self.s.yield_ = gen;
        self.s.await_ = is_async;
        self.s.ret = true;
        self.s.iter = false;
        self.s.switch = false;
        self.s.labels = vec![];
        self.s.params = 0;
        self.s.pbad = false;
        if fk != Fk::Arrow {
            self.s.func = true;
            self.s.method = matches!(fk, Fk::Method | Fk::Getter | Fk::Setter | Fk::Ctor);
            self.s.super_call = fk == Fk::Ctor;
        }
    }
    fn leave_function(&mut self, o: S) {
        let tok = self.s.tok.clone();
        let pe = self.s.prev_end;
        let may = self.s.may;
        self.s = o;
        self.s.tok = tok;
        self.s.prev_end = pe;
        self.s.may |= may;
    }

    fn function_dups(&mut self, names: &[String]) {
        let mut set = HashSet::new();
        if names.iter().any(|n| !set.insert(n.clone())) {
            self.may();
        }
        self.declare(names, true);
    }

    /// `{ ... }` with its directive prologue; params (and name) are re-checked when it turns strict.
    fn function_body(&mut self, at_params: &S, fk: Fk, name: Option<S>, simple: bool) -> R<V> {
        self.need_p("{")?;
        let mut b = vec![];
        let at_params = at_params.clone();
        self.directives(&mut b, &mut |p: &mut Self| {
            if !simple {
                // the directive comes too late for what is in the parameters (known at the end of the body, like the
                // names it makes invalid)
                return p.early_at_end();
            }
            // re-read name and parameters as strict code
            let save = p.s.clone();
            let nd = p.decls.len();
            let old = p.strict_recheck;
            p.strict_recheck = true;
            if let Some(mut ns) = name.clone() {
                ns.strict = true;
                p.s = ns;
                if p.binding_ident().is_err() {
                    p.s = save;
                    return p.early_at_end();
                }
            }
            p.s = at_params.clone();
            p.s.strict = true;
            p.s.params = 1;
            let ok = if fk == Fk::Arrow && !p.is_p("(") {
                p.binding_ident().is_ok()
            } else {
                p.params(fk).is_ok()
            };
            p.strict_recheck = old;
            p.s = save;
            p.decls.truncate(nd);
            if !ok {
                return p.early_at_end();
            }
            Ok(())
        })?;
        while !self.is_p("}") {
            if self.s.tok.k == K::Eof {
                return self.err();
            }
            b.push(self.stmt_item()?);
        }
        self.bump();
        Ok(obj!("BlockStatement", body: V::Arr(b)))
    }

    /// Must be rejected, but nothing is said about where.
    fn early_at_end(&mut self) -> R<()> {
        let n = self.src.len();
        self.record(Reject { pos: n, end: n, exact: false, tok: None, bad: false, eof: true, may_before: false });
        Err(())
    }

    fn params(&mut self, fk: Fk) -> R<(Vec<V>, Vec<String>, bool)> {
        self.need_p("(")?;
        let mut out = vec![];
        let mut names = vec![];
        let mut simple = true;
        match fk {
            Fk::Getter => {
                self.need_p(")")?;
                return Ok((out, names, simple));
            }
            Fk::Setter => {
                let v = self.binding_element(&mut names)?;
                simple = v.ty() == "Identifier";
                out.push(v);
                self.need_p(")")?;
                return Ok((out, names, simple));
            }
            _ => {}
        }
        loop {
            if self.eat_p(")") {
                break;
            }
            if self.eat_p("...") {
                let a = self.binding_target(&mut names)?;
                out.push(obj!("RestElement", argument: a));
                simple = false;
                self.need_p(")")?;
                break;
            }
            let v = self.binding_element(&mut names)?;
            if v.ty() != "Identifier" {
                simple = false;
            }
            out.push(v);
            if self.eat_p(")") {
                break;
            }
            self.need_p(",")?;
        }
        Ok((out, names, simple))
    }

    // ---------------------------------------------------------------- classes

    fn class(&mut self, decl: bool, anon_ok: bool) -> R<V> {
        self.bump();
        let old = self.s.strict;
        self.s.strict = true;
        let mut id = V::Null;
        if !self.is_p("{") && !self.is_kw("extends") {
            let n = self.binding_ident()?;
            if decl {
                self.declare(&[n.clone()], true);
            }
            id = ident(&n);
        } else if decl && !anon_ok {
            return self.err();
        }
        let mut sup = V::Null;
        if self.eat_kw("extends") {
            sup = self.lhs()?.v;
        }
        self.need_p("{")?;
        let outer_derived = self.s.derived;
        self.s.derived = sup != V::Null;
        let mut body = vec![];
        let mut ctor = false;
        while !self.is_p("}") {
            if self.eat_p(";") {
                continue;
            }
            let m = self.class_member(&mut ctor)?;
            body.push(m);
        }
        self.bump();
        self.s.strict = old;
        self.s.derived = outer_derived;
        Ok(obj!(if decl { "ClassDeclaration" } else { "ClassExpression" },
            id: id, superClass: sup, body: obj!("ClassBody", body: V::Arr(body))))
    }

    fn class_member(&mut self, ctor: &mut bool) -> R<V> {
        let mut is_static = false;
        if self.is_kw("static") {
            let n = self.peek();
            if n.k != K::P("(") {
                if matches!(n.k, K::P("=") | K::P(";") | K::P("}") | K::P("{")) {
                    self.unspec = true; // fields, static blocks
                }
                self.bump();
                is_static = true;
            }
        }
        let (m, special) = self.member_common(true, is_static)?;
        let (key, computed, value, kind) = m;
        let plain_ctor = !computed
            && match key.ty() {
                "Identifier" => key.get("name") == Some(&V::s("constructor")),
                "Literal" => key.get("value") == Some(&V::s("constructor")),
                _ => false,
            };
        let mut kind = kind;
        if plain_ctor && !is_static {
            if special || kind != "method" {
                return self.early();
            } else {
                kind = "constructor";
                if *ctor {
                    self.may();
                }
                *ctor = true;
            }
        }
        if is_static
            && !computed
            && (key.get("name") == Some(&V::s("prototype")) || key.get("value") == Some(&V::s("prototype")))
        {
            return self.early();
        }
        Ok(obj!("MethodDefinition", key: key, computed: V::Bool(computed), value: value, kind: V::s(kind),
            static: V::Bool(is_static)))
    }

    /// A method, accessor, generator or async method. Second result: generator or async.
    #[allow(clippy::type_complexity)]
    fn member_common(&mut self, class: bool, is_static: bool) -> R<((V, bool, V, &'static str), bool)> {
        let mut is_async = false;
        let mut gen = false;
        let mut fk = Fk::Method;
        if self.is_kw("async") {
            let n = self.peek();
            if !matches!(n.k, K::P("(")) && !n.nl {
                if class && matches!(n.k, K::P("=") | K::P(";") | K::P("}")) {
                    self.unspec = true;
                }
                self.bump();
                is_async = true;
            } else if n.nl && !matches!(n.k, K::P("(")) && class {
                self.unspec = true; // a field named async
            }
        } else if self.is_kw("get") || self.is_kw("set") {
            let n = self.peek();
            if !matches!(n.k, K::P("(")) {
                if class && (matches!(n.k, K::P("=") | K::P(";") | K::P("}"))) {
                    self.unspec = true;
                }
                if class && n.nl && n.k == K::P("*") {
                    self.unspec = true;
                }
                fk = if self.is_kw("get") { Fk::Getter } else { Fk::Setter };
                self.bump();
            }
        }
        if fk == Fk::Method && self.eat_p("*") {
            gen = true;
        }
        let (key, computed, _) = self.property_key()?;
        if !self.is_p("(") {
            if class && !is_async && !gen && fk == Fk::Method {
                // class fields
                if matches!(self.s.tok.k, K::P("=") | K::P(";") | K::P("}")) || self.s.tok.nl {
                    self.unspec = true;
                }
            }
            return self.err();
        }
        let ctor = class
            && !is_static
            && !gen
            && !is_async
            && !computed
            && fk == Fk::Method
            && self.s.derived
            && (key.get("name") == Some(&V::s("constructor")) || key.get("value") == Some(&V::s("constructor")));
        let (params, body) = self.function_tail(gen, is_async, if ctor { Fk::Ctor } else { fk }, None)?;
        let f = obj!("FunctionExpression", id: V::Null, params: V::Arr(params), body: body,
            generator: V::Bool(gen), expression: V::Bool(false), async: V::Bool(is_async));
        let kind = match fk {
            Fk::Getter => "get",
            Fk::Setter => "set",
            _ => "method",
        };
        Ok(((key, computed, f, kind), gen || is_async))
    }

    // ---------------------------------------------------------------- expressions

    fn expr(&mut self, in_: bool) -> R<V> {
        Ok(self.expr_ex(in_)?.v)
    }

    fn expr_ex(&mut self, in_: bool) -> R<Ex> {
        let e = self.assign(in_)?;
        if !self.is_p(",") {
            return Ok(e);
        }
        let mut v = vec![e.v];
        while self.eat_p(",") {
            v.push(self.assign(in_)?.v);
        }
        Ok(Ex { v: obj!("SequenceExpression", expressions: V::Arr(v)), k: EK::Other, paren: false })
    }

    fn simple_target(&self, e: &Ex) -> bool {
        matches!(e.k, EK::Id | EK::Member)
    }
    fn bad_strict_target(&self, e: &Ex) -> bool {
        self.s.strict
            && e.k == EK::Id
            && (e.v.get("name") == Some(&V::s("eval")) || e.v.get("name") == Some(&V::s("arguments")))
    }

    fn assign(&mut self, in_: bool) -> R<Ex> {
        if self.s.yield_ && self.is_kw("yield") {
            return self.yield_expr(in_);
        }
        // arrow functions
        if self.is_kw("async") {
            if let Some(e) = self.attempt(if in_ { 2 } else { 3 }, |p, c| p.async_arrow(in_, c))? {
                return Ok(e);
            }
        }
        if self.is_p("(") {
            if let Some(e) = self.attempt(if in_ { 4 } else { 5 }, |p, c| p.arrow(in_, false, c))? {
                return Ok(e);
            }
        } else if self.at_ident() {
            let n = self.peek();
            if n.k == K::P("=>") {
                if !n.nl {
                    return self.arrow(in_, false, &mut true);
                }
            }
        }
        if self.is_p("[") || self.is_p("{") {
            let r = self.attempt(6 + in_ as u32, |p, c| {
                let left = p.assign_pattern()?;
                if !p.is_p("=") {
                    return p.err();
                }
                *c = true;
                p.bump();
                let right = p.assign(in_)?.v;
                Ok(Ex {
                    v: obj!("AssignmentExpression", operator: V::s("="), left: left, right: right),
                    k: EK::Other,
                    paren: false,
                })
            })?;
            if let Some(e) = r {
                return Ok(e);
            }
        }
        let left = self.cond(in_)?;
        if left.k == EK::Arrow {
            return Ok(left);
        }
        if let K::P(op) = self.s.tok.k {
            if matches!(
                op,
                "=" | "+=" | "-=" | "*=" | "/=" | "%=" | "**=" | "<<=" | ">>=" | ">>>=" | "&=" | "|=" | "^="
            ) {
                if !self.simple_target(&left) {
                    return self.err();
                }
                if self.bad_strict_target(&left) {
                    return self.early();
                }
                self.bump();
                let right = self.assign(in_)?.v;
                return Ok(Ex {
                    v: obj!("AssignmentExpression", operator: V::s(op), left: left.v, right: right),
                    k: EK::Other,
                    paren: false,
                });
            }
        }
        Ok(left)
    }

    fn yield_expr(&mut self, in_: bool) -> R<Ex> {
        self.s.pbad |= self.s.params != 0;
        self.bump();
        let mut delegate = false;
        let mut arg = V::Null;
        if !self.s.tok.nl {
            if self.eat_p("*") {
                delegate = true;
                arg = self.assign(in_)?.v;
            } else if self.starts_expr() {
                arg = self.assign(in_)?.v;
            } else {
                // whatever cannot start an operand must be something that may follow a yield expression
            }
        }
        Ok(Ex {
            v: obj!("YieldExpression", argument: arg, delegate: V::Bool(delegate)),
            k: EK::Other,
            paren: false,
        })
    }

    fn starts_expr(&self) -> bool {
        match &self.s.tok.k {
            K::Id { name, esc } => {
                if *esc {
                    return self.word_ok(name);
                }
                match name.as_str() {
                    "this" | "null" | "true" | "false" | "function" | "class" | "new" | "super" | "typeof" | "void"
                    | "delete" | "import" => true,
                    "yield" => true,
                    "await" => true,
                    n => self.word_ok(n),
                }
            }
            K::P(p) => matches!(*p, "(" | "[" | "{" | "+" | "-" | "++" | "--" | "!" | "~" | "/" | "/="),
            K::Num(_) | K::Str(_) | K::Tpl { .. } | K::Regex { .. } => true,
            K::Eof => false,
            K::Bad(_) => true,
        }
    }

    fn async_arrow(&mut self, in_: bool, commit: &mut bool) -> R<Ex> {
        self.bump(); // async
        if self.s.tok.nl {
            return self.err_not_far();
        }
        if self.is_p("(") || matches!(self.s.tok.k, K::Id { .. }) {
            self.arrow(in_, true, commit)
        } else {
            self.err_not_far()
        }
    }
    /// this alternative does not apply; the other one decides about the token
    fn err_not_far<T>(&mut self) -> R<T> {
        Err(())
    }

    fn arrow(&mut self, in_: bool, is_async: bool, commit: &mut bool) -> R<Ex> {
        let outer = self.s.clone();
        let fnpos = self.s.clone();
        let (oy, oa) = (self.s.yield_, self.s.await_);
        // parameters: [?Yield, ?Await], plus Await for async arrows
        if is_async {
            self.s.await_ = true;
        }
        let at_params;
        let params;
        let mut names = vec![];
        let mut simple = true;
        let _ = fnpos;
        if self.is_p("(") {
            at_params = self.s.clone();
            self.s.params |= if is_async { 2 } else { 0 } | 1;
            self.s.pbad = false;
            let r = self.params(Fk::Arrow)?;
            params = r.0;
            names.extend(r.1);
            simple = r.2;
        } else {
            at_params = self.s.clone();
            let n = self.binding_ident()?;
            names.push(n.clone());
            params = vec![ident(&n)];
        }
        self.s.params = outer.params;
        if !self.is_p("=>") || self.s.tok.nl {
            return self.err();
        }
        *commit = true;
        if self.s.pbad && at_params.tok.k == K::P("(") {
            // a yield or await expression in the parameters
            return self.early();
        }
        self.bump();
        let nd = self.decls.len();
        self.function_dups(&names);
        let _ = (oy, oa);
        let (body, expression) = if self.is_p("{") {
            self.enter_function(false, is_async, Fk::Arrow);
            (self.function_body(&at_params, Fk::Arrow, None, simple)?, false)
        } else {
            self.enter_function(false, is_async, Fk::Arrow);
            (self.assign(in_)?.v, true)
        };
        self.check_redecl(nd);
        self.decls.truncate(nd);
        self.leave_function(outer);
        Ok(Ex {
            v: obj!("ArrowFunctionExpression", id: V::Null, params: V::Arr(params), body: body,
                generator: V::Bool(false), expression: V::Bool(expression), async: V::Bool(is_async)),
            k: EK::Arrow,
            paren: false,
        })
    }

    // assignment patterns ------------------------------------------------

    fn assign_pattern(&mut self) -> R<V> {
        if self.eat_p("[") {
            let mut el = vec![];
            loop {
                if self.eat_p(",") {
                    el.push(V::Null);
                    continue;
                }
                if self.eat_p("]") {
                    break;
                }
                if self.eat_p("...") {
                    let a = self.assign_target(true)?;
                    el.push(obj!("RestElement", argument: a));
                    self.need_p("]")?;
                    break;
                }
                el.push(self.assign_element()?);
                if self.eat_p("]") {
                    break;
                }
                self.need_p(",")?;
            }
            return Ok(obj!("ArrayPattern", elements: V::Arr(el)));
        }
        self.need_p("{")?;
        let mut props = vec![];
        loop {
            if self.eat_p("}") {
                break;
            }
            if self.eat_p("...") {
                let a = self.assign_target(false)?;
                props.push(obj!("RestElement", argument: a));
                self.need_p("}")?;
                break;
            }
            let start = self.s.clone();
            let (key, computed, short) = self.property_key()?;
            if self.eat_p(":") {
                let v = self.assign_element()?;
                props.push(property(key, computed, v, "init", false, false));
            } else if let Some(n) = short {
                let after = self.s.clone();
                self.s = start;
                self.shorthand_ident(true, &after)?;
                self.s = after;
                if n == "let" {
                    self.may();
                }
                let mut v = ident(&n);
                if self.eat_p("=") {
                    let r = self.assign(true)?.v;
                    v = obj!("AssignmentPattern", left: v, right: r);
                }
                props.push(property(key, false, v, "init", false, true));
            } else {
                return self.err();
            }
            if self.eat_p("}") {
                break;
            }
            self.need_p(",")?;
        }
        Ok(obj!("ObjectPattern", properties: V::Arr(props)))
    }

    fn assign_element(&mut self) -> R<V> {
        let t = self.assign_target(true)?;
        if self.eat_p("=") {
            let r = self.assign(true)?.v;
            return Ok(obj!("AssignmentPattern", left: t, right: r));
        }
        Ok(t)
    }

    /// DestructuringAssignmentTarget
    fn assign_target(&mut self, nested: bool) -> R<V> {
        if nested && (self.is_p("[") || self.is_p("{")) {
            let r = self.attempt(8, |p, _| {
                let v = p.assign_pattern()?;
                match p.s.tok.k {
                    K::P("=") | K::P(",") | K::P("]") | K::P("}") => Ok(v),
                    _ => p.err(),
                }
            })?;
            if let Some(v) = r {
                return Ok(v);
            }
        }
        let e = self.lhs()?;
        if !self.simple_target(&e) {
            return self.err();
        }
        if self.bad_strict_target(&e) {
            return self.early();
        }
        Ok(e.v)
    }

    // operators -----------------------------------------------------------

    fn cond(&mut self, in_: bool) -> R<Ex> {
        let t = self.binary(0, in_)?;
        if t.k == EK::Arrow || !self.is_p("?") {
            return Ok(t);
        }
        self.bump();
        let c = self.assign(true)?.v;
        self.need_p(":")?;
        let a = self.assign(in_)?.v;
        Ok(Ex {
            v: obj!("ConditionalExpression", test: t.v, consequent: c, alternate: a),
            k: EK::Other,
            paren: false,
        })
    }

    fn binary(&mut self, min: u8, in_: bool) -> R<Ex> {
        let mut left = self.unary()?;
        if left.k == EK::Arrow {
            return Ok(left);
        }
        // `**` binds tighter than everything here and is right associative
        if self.is_p("**") {
            if left.k == EK::Unary {
                return self.err();
            }
            left = self.pow_tail(left)?;
        }
        loop {
            let op: String = match &self.s.tok.k {
                K::P(p) => p.to_string(),
                K::Id { name, esc: false } if name == "instanceof" || (name == "in" && in_) => name.clone(),
                _ => break,
            };
            let p = binprec(&op);
            if p == 0 || p <= min {
                break;
            }
            self.bump();
            let right = self.binary(p, in_)?;
            let ty = if op == "&&" || op == "||" { "LogicalExpression" } else { "BinaryExpression" };
            left = Ex {
                v: obj!(ty, operator: V::Str(op), left: left.v, right: right.v),
                k: EK::Other,
                paren: false,
            };
        }
        Ok(left)
    }

    fn pow_tail(&mut self, base: Ex) -> R<Ex> {
        self.bump(); // **
        let mut e = self.unary()?;
        if self.is_p("**") {
            if e.k == EK::Unary {
                return self.err();
            }
            e = self.pow_tail(e)?;
        }
        Ok(Ex {
            v: obj!("BinaryExpression", operator: V::s("**"), left: base.v, right: e.v),
            k: EK::Other,
            paren: false,
        })
    }

    fn unary(&mut self) -> R<Ex> {
        let op: Option<String> = match &self.s.tok.k {
            K::P(p) if matches!(*p, "+" | "-" | "!" | "~") => Some(p.to_string()),
            K::Id { name, esc: false } if matches!(name.as_str(), "typeof" | "void" | "delete") => Some(name.clone()),
            _ => None,
        };
        if let Some(op) = op {
            self.bump();
            let a = self.unary()?;
            if op == "delete" && self.s.strict && a.k == EK::Id {
                self.may();
            }
            return Ok(Ex {
                v: obj!("UnaryExpression", operator: V::Str(op), prefix: V::Bool(true), argument: a.v),
                k: EK::Unary,
                paren: false,
            });
        }
        if self.is_kw("await") && (self.s.await_ || (self.goal == Goal::Module && self.s.params & 2 != 0)) {
            self.s.pbad |= self.s.params != 0;
            self.bump();
            let a = self.unary()?;
            return Ok(Ex { v: obj!("AwaitExpression", argument: a.v), k: EK::Unary, paren: false });
        }
        if self.is_p("++") || self.is_p("--") {
            let op = if self.is_p("++") { "++" } else { "--" };
            self.bump();
            // "++ -a" fits the grammar and is an early error, which may be noticed after the operand
            let a = if self.loose { self.unary()? } else { self.lhs()? };
            if !self.simple_target(&a) {
                return self.err();
            }
            if self.bad_strict_target(&a) {
                return self.early();
            }
            return Ok(Ex {
                v: obj!("UpdateExpression", operator: V::s(op), prefix: V::Bool(true), argument: a.v),
                k: EK::Other,
                paren: false,
            });
        }
        let e = self.lhs()?;
        if (self.is_p("++") || self.is_p("--")) && !self.s.tok.nl {
            let op = if self.is_p("++") { "++" } else { "--" };
            if !self.simple_target(&e) {
                return self.err();
            }
            if self.bad_strict_target(&e) {
                return self.early();
            }
            self.bump();
            return Ok(Ex {
                v: obj!("UpdateExpression", operator: V::s(op), prefix: V::Bool(false), argument: e.v),
                k: EK::Other,
                paren: false,
            });
        }
        Ok(e)
    }

    fn lhs(&mut self) -> R<Ex> {
        let mut e = if self.is_kw("new") {
            self.new_expr()?
        } else if self.is_kw("super") {
            self.super_expr(true)?
        } else {
            self.primary()?
        };
        loop {
            match self.s.tok.k.clone() {
                K::P("(") => {
                    let is_async = e.k == EK::Id && !e.paren && e.v.get("name") == Some(&V::s("async"));
                    let before = self.await_ids;
                    let args = self.arguments()?;
                    if is_async && self.await_ids != before && self.is_p("=>") {
                        // parameters after all, where await is no identifier
                        return self.early();
                    }
                    e = Ex { v: obj!("CallExpression", callee: e.v, arguments: args), k: EK::Other, paren: false };
                }
                _ => match self.member_step(e)? {
                    (n, true) => e = n,
                    (n, false) => return Ok(n),
                },
            }
        }
    }

    fn member_step(&mut self, e: Ex) -> R<(Ex, bool)> {
        match self.s.tok.k.clone() {
            K::P(".") => {
                self.bump();
                let n = self.any_name()?;
                Ok((
                    Ex {
                        v: obj!("MemberExpression", object: e.v, property: ident(&n), computed: V::Bool(false)),
                        k: EK::Member,
                        paren: false,
                    },
                    true,
                ))
            }
            K::P("[") => {
                self.bump();
                let i = self.expr(true)?;
                self.need_p("]")?;
                Ok((
                    Ex {
                        v: obj!("MemberExpression", object: e.v, property: i, computed: V::Bool(true)),
                        k: EK::Member,
                        paren: false,
                    },
                    true,
                ))
            }
            K::Tpl { .. } => {
                let q = self.template(true)?;
                Ok((
                    Ex { v: obj!("TaggedTemplateExpression", tag: e.v, quasi: q), k: EK::Other, paren: false },
                    true,
                ))
            }
            _ => Ok((e, false)),
        }
    }

    fn super_expr(&mut self, call_ok: bool) -> R<Ex> {
        self.bump();
        // giron does not say where super may not occur
        if !if self.is_p("(") { self.s.super_call } else { self.s.method } {
            self.may();
        }
        if !(self.is_p(".") || self.is_p("[") || (call_ok && self.is_p("("))) {
            return self.err();
        }
        Ok(Ex { v: obj!("Super"), k: EK::Other, paren: false })
    }

    fn new_expr(&mut self) -> R<Ex> {
        self.bump();
        if self.eat_p(".") {
            let before = self.s.clone();
            let n = self.any_name()?;
            if n != "target" || matches!(before.tok.k, K::Id { esc: true, .. }) {
                self.s = before;
                return self.err();
            }
            if !self.s.func {
                self.may();
            }
            return Ok(Ex {
                v: obj!("MetaProperty", meta: ident("new"), property: ident("target")),
                k: EK::Other,
                paren: false,
            });
        }
        let mut callee = if self.is_kw("new") {
            self.new_expr()?
        } else if self.is_kw("super") {
            self.super_expr(false)?
        } else {
            if self.is_kw("import") {
                self.unspec = true;
            }
            self.primary()?
        };
        loop {
            match self.member_step(callee)? {
                (n, true) => callee = n,
                (n, false) => {
                    callee = n;
                    break;
                }
            }
        }
        let args = if self.is_p("(") { self.arguments()? } else { V::Arr(vec![]) };
        Ok(Ex { v: obj!("NewExpression", callee: callee.v, arguments: args), k: EK::Other, paren: false })
    }

    fn arguments(&mut self) -> R<V> {
        self.need_p("(")?;
        let mut a = vec![];
        loop {
            if self.eat_p(")") {
                break;
            }
            if self.eat_p("...") {
                let e = self.assign(true)?.v;
                a.push(obj!("SpreadElement", argument: e));
            } else {
                a.push(self.assign(true)?.v);
            }
            if self.eat_p(")") {
                break;
            }
            self.need_p(",")?;
        }
        Ok(V::Arr(a))
    }

    fn template(&mut self, tagged: bool) -> R<V> {
        let mut quasis = vec![];
        let mut exprs = vec![];
        loop {
            let t = self.s.tok.clone();
            let (cooked, raw, tail) = match &t.k {
                K::Tpl { cooked, raw, tail } => (cooked.clone(), raw.clone(), *tail),
                _ => return self.err(),
            };
            let cv = match cooked {
                Some(s) => V::Str(s),
                None => {
                    if tagged {
                        self.may();
                        V::Null
                    } else {
                        // the template token itself is in error
                        self.fail_tok(&Tok { k: K::Bad(t.end), ..t.clone() }, false);
                        return Err(());
                    }
                }
            };
            quasis.push(obj!("TemplateElement",
                value: V::Obj(vec![("cooked", cv), ("raw", V::Str(raw))]), tail: V::Bool(tail)));
            self.bump();
            if tail {
                break;
            }
            exprs.push(self.expr(true)?);
            if !self.is_p("}") {
                return self.err();
            }
            self.s.tok = self.lx.template_continue(&self.s.tok);
            if let K::Bad(_) = self.s.tok.k {
                return self.err();
            }
        }
        Ok(obj!("TemplateLiteral", quasis: V::Arr(quasis), expressions: V::Arr(exprs)))
    }

    fn primary(&mut self) -> R<Ex> {
        let t = self.s.tok.clone();
        let other = |v| Ok(Ex { v, k: EK::Other, paren: false });
        match &t.k {
            K::Num(n) => {
                self.bump();
                other(obj!("Literal", value: V::Num(*n), raw: V::Str(self.raw(t.start, t.end))))
            }
            K::Str(_) => {
                let v = self.literal_str(&t);
                self.bump();
                other(v)
            }
            K::Tpl { .. } => {
                let v = self.template(false)?;
                other(v)
            }
            K::P("/") | K::P("/=") => {
                self.s.tok = self.lx.regex(&t);
                self.note();
                let r = self.s.tok.clone();
                match &r.k {
                    K::Regex { pattern, flags } => {
                        self.bump();
                        other(obj!("Literal", value: V::Any, raw: V::Str(self.raw(r.start, r.end)),
                            regex: V::Obj(vec![("pattern", V::s(pattern)), ("flags", V::s(flags))])))
                    }
                    _ => self.err(),
                }
            }
            K::P("(") => {
                self.bump();
                let e = self.expr_ex(true)?;
                self.need_p(")")?;
                let k = match e.k {
                    EK::Id => EK::Id,
                    EK::Member => EK::Member,
                    _ => EK::Other,
                };
                Ok(Ex { v: e.v, k, paren: true })
            }
            K::P("[") => {
                self.bump();
                let mut el = vec![];
                loop {
                    if self.eat_p(",") {
                        el.push(V::Null);
                        continue;
                    }
                    if self.eat_p("]") {
                        break;
                    }
                    if self.eat_p("...") {
                        let e = self.assign(true)?.v;
                        el.push(obj!("SpreadElement", argument: e));
                    } else {
                        el.push(self.assign(true)?.v);
                    }
                    if self.eat_p("]") {
                        break;
                    }
                    self.need_p(",")?;
                }
                Ok(Ex { v: obj!("ArrayExpression", elements: V::Arr(el)), k: EK::Lit, paren: false })
            }
            K::P("{") => self.object(),
            K::Id { name, esc: false } => match name.as_str() {
                "this" => {
                    self.bump();
                    other(obj!("ThisExpression"))
                }
                "null" => {
                    self.bump();
                    other(obj!("Literal", value: V::Null, raw: V::s("null")))
                }
                "true" | "false" => {
                    self.bump();
                    other(obj!("Literal", value: V::Bool(name == "true"), raw: V::s(name)))
                }
                "function" => {
                    let v = self.function(false, true)?;
                    other(v)
                }
                "class" => {
                    let v = self.class(false, true)?;
                    other(v)
                }
                "import" => {
                    let n = self.peek();
                    if matches!(n.k, K::P("(") | K::P(".")) {
                        self.unspec = true;
                    }
                    self.bump();
                    self.early()
                }
                "async" if self.at_async_function() => {
                    let v = self.function(false, true)?;
                    other(v)
                }
                _ => self.id_ref(),
            },
            K::Id { .. } => self.id_ref(),
            _ => self.err(),
        }
    }

    fn id_ref(&mut self) -> R<Ex> {
        let n = self.take_ident()?;
        self.await_ids += (n == "await") as usize;
        Ok(Ex { v: ident(&n), k: EK::Id, paren: false })
    }

    fn object(&mut self) -> R<Ex> {
        self.need_p("{")?;
        let mut props = vec![];
        let mut protos = 0;
        loop {
            if self.eat_p("}") {
                break;
            }
            if self.eat_p("...") {
                let e = self.assign(true)?.v;
                props.push(obj!("SpreadElement", argument: e));
            } else {
                let is_prefixed = if self.is_p("*") {
                    true
                } else if self.is_kw("async") || self.is_kw("get") || self.is_kw("set") {
                    let n = self.peek();
                    match n.k {
                        K::P("(") | K::P(",") | K::P(":") | K::P("}") | K::P("=") => false,
                        _ => !(self.is_kw("async") && n.nl),
                    }
                } else {
                    false
                };
                if is_prefixed {
                    let ((key, computed, value, kind), _) = self.member_common(false, false)?;
                    let (kind, method) = if kind == "method" { ("init", true) } else { (kind, false) };
                    props.push(property(key, computed, value, kind, method, false));
                } else {
                    let start = self.s.clone();
                    let (key, computed, short) = self.property_key()?;
                    if self.eat_p(":") {
                        let v = self.assign(true)?.v;
                        if !computed
                            && (key.get("name") == Some(&V::s("__proto__"))
                                || key.get("value") == Some(&V::s("__proto__")))
                        {
                            protos += 1;
                            if protos > 1 {
                                self.may();
                            }
                        }
                        props.push(property(key, computed, v, "init", false, false));
                    } else if self.is_p("(") {
                        let (params, body) = self.function_tail(false, false, Fk::Method, None)?;
                        let f = obj!("FunctionExpression", id: V::Null, params: V::Arr(params), body: body,
                            generator: V::Bool(false), expression: V::Bool(false), async: V::Bool(false));
                        props.push(property(key, computed, f, "init", true, false));
                    } else if let Some(n) = short {
                        let after = self.s.clone();
                        self.s = start;
                        self.shorthand_ident(false, &after)?;
                        self.s = after;
                        if n == "let" {
                            self.may();
                        }
                        if self.loose && self.eat_p("=") {
                            self.assign(true)?;
                        } else if self.is_p("=") {
                            // only a pattern could go on like this
                            return self.err();
                        }
                        props.push(property(key, false, ident(&n), "init", false, true));
                    } else {
                        return self.err();
                    }
                }
            }
            if self.eat_p("}") {
                break;
            }
            self.need_p(",")?;
        }
        Ok(Ex { v: obj!("ObjectExpression", properties: V::Arr(props)), k: EK::Lit, paren: false })
    }
}

fn property(key: V, computed: bool, value: V, kind: &str, method: bool, shorthand: bool) -> V {
    obj!("Property", key: key, computed: V::Bool(computed), value: value, kind: V::s(kind), method: V::Bool(method),
        shorthand: V::Bool(shorthand))
}

/// Can this token, on a new line after a string literal, continue the expression?
fn continues_expression(k: &K) -> bool {
    match k {
        K::P(p) => matches!(
            *p,
            "(" | "[" | "." | "," | "?" | "=>" | "=" | "+=" | "-=" | "*=" | "/=" | "%=" | "**=" | "<<=" | ">>="
                | ">>>=" | "&=" | "|=" | "^=" | "+" | "-" | "*" | "/" | "%" | "**" | "<" | ">" | "<=" | ">=" | "=="
                | "!=" | "===" | "!==" | "<<" | ">>" | ">>>" | "&" | "|" | "^" | "&&" | "||"
        ),
        K::Id { name, esc: false } => name == "in" || name == "instanceof",
        K::Tpl { .. } => true,
        _ => false,
    }
}
