//! C01, C19, C20, C21, C22, C24: guarantees about every text.
use super::corpus::*;
use super::grammar::{rows, BIND_POS, STMT_CTX};
use super::lexical::{around, rep, runs, size, strs, surrogates};
use crate::engine::*;
use crate::refp::Goal::*;

/// expression contexts: every place an assignment expression may stand
pub const EXPR_CTX: &[&str] = &[
    "x = @ ;", "( @ )", "[ @ ]", "[ a , @ , b ]", "[ ... @ ]", "f ( @ )", "f ( a , ... @ )", "new f ( @ )", "x = { a : @ }", "x = { [ @ ] : a }", "x = { ... @ }", "`${ @ }`", "f `a${ @ }b`", "a [ @ ]", "a ? @ : b", "x = a ? b : @", "x = ( @ ) + b", "x = ( ) => @", "x = a => { @ }", "x = async ( ) => ( @ )", "x = function ( ) { return @ }", "if ( @ ) a", "while ( @ ) a", "do a ; while ( @ )", "for ( @ ; ; ) ;", "for ( ; @ ; ) ;", "for ( ; ; @ ) ;", "for ( x in @ ) ;", "for ( x of @ ) ;", "switch ( @ ) { }", "switch ( a ) { case @ : }", "throw @ ;", "var x = @ ;", "let x = @ , y ;", "const x = @ ;", "var [ x = @ ] = y ;", "var { x = @ } = y ;", "var { [ @ ] : x } = y ;", "function f ( a = @ ) { }", "x = ( a = @ ) => b", "class A extends ( @ ) { }", "class A { [ @ ] ( ) { } }", "class A { m ( ) { return @ } }", "function * g ( ) { yield @ }", "function * g ( ) { yield * @ }", "async function g ( ) { await ( @ ) }", "( @ ) . a", "( @ ) ( )", "( @ ) `t`", "! ( @ )", "- ( @ ) ** 2", "typeof ( @ )", "x = y = @", "x += @", "[ x = @ ] = y", "( { x = @ } = y )", "x = @ , b", "a : x = @", "try { x = @ } catch { }", "with ( @ ) a",
];

// ------------------------------------------------------------------------------------------------ C01
pub fn c01(c: &mut Ctx) {
    c.crash_only = true;
    let chars = ["a", "0", "9", ".", "'", "\"", "`", "/", "\\", "{", "}", "(", ")", "[", "]", "=", "-", "+", "*", "<", ">", "!", ",", ";", ":", "?", "&", "\n", "\r", "u", "x", "$", " ", "\u{2028}", "\u{1f600}", "@", "e", "b", "_", "\u{0}"];
    for goal in [Script, Module] {
        c.all("the empty text", goal, &["".to_string()]);
    }
    c.lockstep("character strings", Script, "", &chars, "", "", c.pick(4, 5));
    c.lockstep("character strings", Module, "", &chars, "", "", 3);
    for al in [
        &["\\", "u", "{", "}", "0", "1", "F", "x"][..],
        &["`", "$", "{", "}", "\\", "u", "\n"],
        &["'", "\\", "u", "x", "{", "0", "\r", "}"],
        &["/", "*", "[", "]", "\\", "\n", "a"],
        &["0", "x", "e", ".", "b", "9", "-", "o"],
        &["{", "}", "(", ")", "[", "]", "a", ","],
        &["=", ">", "(", ")", "a", "{", "}", "."],
        &["<", "!", "-", ">", "\n", "#"],
    ] {
        c.lockstep("character strings, deeper", Script, "", al, "", "", c.pick(6, 7));
        c.lockstep("character strings, deeper, at the end of a module", Module, "x=", al, "", "", c.pick(5, 6));
    }
    let sg = surrogates();
    for (pre, suf) in [("x='", "'"), ("`", "`"), ("a", ""), ("a.", ""), ("({\"", "\":1})"), ("f`", "`"), ("/", "/"), ("", ""), ("'", "';a")] {
        c.grid("surrogate escapes", Script, &[&[pre], &strs(&sg), &strs(&sg), &[suf, ""]]);
    }
    c.grid("surrogate escapes", Module, &[&["import '", "export {a as '", "x='", "export default `"], &strs(&sg), &strs(&sg), &["'", "`", "'}", ""]]);
    // token strings
    let one = ["", "x = ", "function * g ( ) { ", "class A { ", "x = { ", "for ( ", "async function f ( ) { ", "switch ( a ) { ", "( ", "`${ ", "import ", "export ", "new ", "x => ", "[ "];
    let sp: Vec<String> = TOKENS.iter().map(|t| format!("{} ", t)).collect();
    let sp = strs(&sp);
    c.grid("every pair of tokens in every opening", Script, &[&one, &sp, &sp, &["", "a", ")", "}", "]"]]);
    c.grid("every pair of tokens in every opening", Module, &[&one, &sp, &sp]);
    c.grid("every triple of tokens", Script, &[&sp, &sp, &sp]);
    if c.quick() {
        let rl: Vec<String> = ROLES.iter().map(|t| format!("{} ", t)).collect();
        let rl = strs(&rl);
        c.grid("every triple of tokens", Module, &[&rl, &rl, &rl]);
    } else {
        c.grid("every triple of tokens", Module, &[&sp, &sp, &sp]);
        let rl: Vec<String> = ROLES.iter().map(|t| format!("{} ", t)).collect();
        let rl = strs(&rl);
        c.grid("every quadruple of token roles", Script, &[&rl, &rl, &rl, &rl]);
        c.grid("every triple of token roles in every opening", Script, &[&one, &rl, &rl, &rl]);
    }
    // cuts and corruptions of every program
    let junk = ["", "'", "\"", "`", "/", "\\", "{", "}", "(", ")", "[", "]", "=", ".", ",", ";", ":", "?", "*", "+", "-", "0", "a", "\n", "\r", "\u{2028}", "${", "...", "=>", "++", "/*", "//", "\\u", "\\u{", "@", "\u{1f600}", "\u{0}", "1e", "0x", " yield ", " await ", " async ", " in ", " of ", " new ", " function ", " class "];
    for (goal, progs) in [(Script, all_script()), (Module, all_module())] {
        let mut progs: Vec<String> = progs.iter().map(|s| s.to_string()).collect();
        progs.extend(exprs_as_stmts());
        progs.extend(FUNS.iter().map(|f| f.replace('@', "var { a , b : [ c = 1 ] } = d ; return `x${ y }z` ;")));
        c.by_index("every cut and every corruption at every character", goal, progs.len(), |i| {
            let ch: Vec<char> = progs[i].chars().collect();
            let mut v = vec![];
            for p in 0..=ch.len() {
                let l: String = ch[..p].iter().collect();
                let r: String = ch[p..].iter().collect();
                let r1: String = ch[(p + 1).min(ch.len())..].iter().collect();
                for j in junk {
                    v.push(format!("{}{}", l, j));
                    v.push(format!("{}{}{}", l, j, r));
                    v.push(format!("{}{}{}", l, j, r1));
                }
            }
            v
        });
        let ps: Vec<&str> = progs.iter().map(|s| s.as_str()).collect();
        c.edits("one token edit", goal, &ps, TOKENS, 1);
        if !c.quick() {
            let short: Vec<&str> = ps.iter().copied().filter(|p| p.split(' ').count() <= 9).collect();
            c.edits("two token edits", goal, &short, &ROLES[..30], 2);
        }
        // pairs: one program cut anywhere followed by another
        c.by_index("a cut program followed by another", goal, progs.len(), |i| {
            let t: Vec<&str> = progs[i].split(' ').collect();
            let mut v = vec![];
            for k in 0..=t.len() {
                let l = t[..k].join(" ");
                for q in progs.iter().step_by(c.pick(4, 1)) {
                    v.push(format!("{} {}", l, q));
                }
            }
            v
        });
    }
    // every code point where the scanner decides
    let q = c.quick();
    c.code_points("every code point in every scanner state", Script, move |ch| {
        let x = ch as u32;
        let mut v = vec![format!("{}", ch), format!("a{}", ch), format!("'{}", ch), format!("'\\{}'", ch), format!("`{}", ch), format!("/{}", ch), format!("/a/{}", ch), format!("\\u{{{:x}}}", x)];
        if !q {
            v.extend([format!("`\\{}`", ch), format!("/[{}", ch), format!("/\\{}/", ch), format!("//{}", ch), format!("/*{}", ch), format!("0{}", ch), format!("1.{}", ch), format!("1e{}", ch), format!("0x{}", ch), format!("\\{}", ch), format!("\\u{}", ch), format!("a.{}", ch), format!("`${{{}", ch), format!("a {}b", ch), format!("'\\u{{{:x}}}'", x), format!("`\\u{{{:x}}}`", x), format!("({}", ch)]);
        }
        v
    });
    // sizes: tokens, lists and (moderate) nesting
    let big = c.pick(70_000, 300_000);
    size(c, "long tokens", Script, big, |n| {
        ["a", "1", "0", "\u{e9}", " ", "\n", ";", "\r", "\u{2028}"].iter().map(|s| rep(s, n)).chain([format!("'{}'", rep("a", n)), format!("`{}`", rep("a", n)), format!("/{}/", rep("a", n)), format!("//{}", rep("a", n)), format!("/*{}*/", rep("a", n)), format!("0x{}", rep("f", n)), format!("0b{}", rep("1", n)), format!("0o{}", rep("7", n)), format!("0.{}", rep("1", n)), format!("1e{}", rep("9", n)), format!("0{}", rep("7", n)), format!("0{}", rep("9", n)), format!("\\u{{{}61}}", rep("0", n)), format!("'\\u{{{}61}}'", rep("0", n)), format!("'\\u{{{}}}'", rep("f", n)), format!("'{}'", rep("\\n", n)), format!("a/*{}", rep("\n", n)), format!("x={}", rep("+ ", n.min(900))), rep("{}", n.min(20000)), rep("a\n", n.min(20000)), format!("[{}]", rep("a,", n.min(20000))), format!("f({})", rep("a,", n.min(20000))), format!("x={{{}}}", rep("a:1,", n.min(20000))), format!("var a{}", rep(",a", n.min(20000))), format!("`{}`", rep("${a}", n.min(20000))), format!("a{}", rep(";;", n.min(20000)))]).collect()
    });
    size(c, "nested brackets", Script, 130, |n| {
        let mut v = vec![];
        for (o, m, e) in [("(", "a", ")"), ("[", "", "]"), ("{", "", "}"), ("f(", "", ")"), ("a[", "b", "]"), ("`${", "a", "}`"), ("x=>", "a", ""), ("()=>{", "", "}"), ("function f(){", "", "}"), ("if(a)", ";", ""), ("-", "a", ""), ("! ", "a", ""), ("new ", "a", ""), ("{a:", "b", "}"), ("a?", "b", ":c"), ("a=", "b", ""), ("for(;;)", ";", ""), ("class A{m(){", "", "}}"), ("x={a:", "1", "}"), ("async(", "a", ")"), ("(a=", "b", ")=>c"), ("a**", "b", ""), ("yield ", "a", ""), ("a:", ";", ""), ("switch(a){case b:", "", "}"), ("try{", "", "}finally{}"), ("...", "a", "")] {
            // backtracking in nested covers is exponential in the grammar's worst cases on some parsers; keep those short
            let k = if o == "(" || o == "(a=" || o == "async(" { n.min(70) } else { n };
            for (x, y) in [(k, k), (k, 0), (k, k + 1), (k + 1, k)] {
                v.push(format!("{}{}{}", rep(o, x), m, rep(e, y)));
            }
        }
        v
    });
    let _ = runs(&["a"], 1, 1);
    // the real programs of the repository, cut
    let files = real_files();
    for (name, text) in &files {
        let ch: Vec<char> = text.chars().collect();
        let step = c.pick((ch.len() / 400).max(1), (ch.len() / 20000).max(1));
        c.by_index(&format!("{} cut at {} places", name, ch.len() / step), Module, ch.len() / step, |i| {
            let s: String = ch[..i * step].iter().collect();
            vec![s]
        });
    }
}

/// the source files the repository's own tests parse, if they are there
pub fn real_files() -> Vec<(String, String)> {
    fn walk(d: &std::path::Path, out: &mut Vec<(String, String)>, depth: usize) {
        if depth > 4 {
            return;
        }
        if let Ok(rd) = std::fs::read_dir(d) {
            let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            es.sort();
            for p in es {
                let n = p.file_name().unwrap_or_default().to_string_lossy().to_string();
                if p.is_dir() {
                    if n != "target" && n != "node_modules" && !n.starts_with('.') {
                        walk(&p, out, depth + 1);
                    }
                } else if n.ends_with(".js") {
                    if let Ok(t) = std::fs::read_to_string(&p) {
                        if t.len() < 2_000_000 {
                            out.push((n, t));
                        }
                    }
                }
            }
        }
    }
    let mut v = vec![];
    walk(std::path::Path::new("/repo/giron"), &mut v, 0);
    v
}

// ------------------------------------------------------------------------------------------------ C19
pub fn c19(c: &mut Ctx) {
    c.check_pos = true;
    rows(c, "errors in token strings", &[
        (Script, "", "a 1 ( ) { } \\n ; = +", "", 5, 6),
        (Script, "", "a ` `${ } }` 's' /r/ \\n + )", "", 5, 6),
        (Script, "", "async get ( ) => { } a \\n ,", "", 6, 7),
        (Script, "x = {", "a get set async * ( ) { } , : \\n", "", 5, 6),
        (Script, "class A {", "a get static async * ( ) { } ; \\n", "", 5, 6),
        (Script, "for (", "a let of in ; ) var = [ ] \\n", "", 5, 6),
        (Script, "(", "a , ) => = ... [ ] { } \\n", "", 6, 6),
        (Script, "", "let a [ ] = \\n { } ( ) ;", "", 5, 6),
        (Script, "", "if else while do ( ) a ; { } \\n", "", 5, 6),
        (Script, "", "var function class return break a , ( ) { }", "", 5, 6),
        (Script, "", "try {} catch finally (a) switch case a : throw \\n", "", 5, 6),
        (Module, "", "import export a { } , * as from 'x' default \\n", "", 5, 6),
        (Script, "function*g(){", "yield a * \\n ; ( ) = } ,", "", 5, 6),
        (Module, "async function g(){", "await a ( ) => \\n } async ; ,", "", 5, 6),
        (Script, "", "new a . target ( ) [ ] \\n super", "", 6, 6),
        (Script, "'use strict';", "with eval = ( ) a yield let ++ \\n", "", 5, 6),
        (Script, "", "a ++ -- + ! typeof ** ( ) \\n", "", 5, 6),
        (Script, "", "a ? : => = , ( ) \\n {", "", 6, 6),
        (Script, "", "a : break continue for(;;) { } x \\n ;", "", 5, 6),
    ]);
    // one bad token after every kind of lead
    let lead = ["", "a;", "a\n", "\n", "\r", "\r\n", "\n\r", "\u{2028}", "\u{2029}", "\n\n", "\r\r", "\r\n\r\n", "//c\n", "//c\r", "//c\r\n", "//c\u{2028}", "/*c*/", "/*\n*/", "/*\r*/", "/*\r\n*/", "/*\u{2028}\u{2029}*/", "/*\n\n*/", "'s';", "'a\\\nb';", "'a\\\r\nb';", "'a\\\rb';", "'a\\\u{2028}b';", "'\u{2028}';", "'\u{2029}a';", "`t`;", "`\n`;", "`\r\n`;", "`\r`;", "`a\nb`;", "`a\n${b}\nc`;", "`\\\n`;", "`\\\r\n`;", "`\u{2028}`;", "`${a\n}`;", "/r/;", "/r/g;", "/[/]/;", "a\t", "\t", "  ", "\u{feff}", "\u{a0}a;", "\u{1f600}", "'\u{1f600}';", "`\u{1f600}\n`;", "\u{e9};", "\u{1d4d0};", "\\u0061;", "\\u{61};", "/*\u{1f600}*/", "//\u{1f600}\n", "/\u{1f600}/;", "async\n", "async;\n", "async()\n;", "async a=>\nb;", "(a,\nb)=>\nc;", "async(a,\nb)=>\nc;", "async(a,\nb)\n;", "x={get\na(){}};", "x={get\n:1};", "x={\nasync\n:1};", "class A{get\na(){}};", "class A{static\n\na(){}}", "let\na;", "for(let\nof a);", "for(a\nof\nb);", "new.\ntarget;", "do;while(a)\n", "if(a)\n;else\n;", "a\n++\nb;", "a\n/b/g;", "a\n/*\n*/\n", "x=y\n=>z;", "\u{b}", "\u{c}", "\n\t", "a\u{2028}\u{2029}\r\n\n\r", "function f(){return\n}", "yield\n;", "let\n", "a:\n", "x=function(){\n};", "x=`${`\n${a}\n`}\n`;", "x=`${{\na:1}}\n`;", "'use strict'\n", "'a\\\n\\\r\n\\\r\\\u{2029}b'\n", "1.5e3\n", "0x1F\n", ".5\n", "/*\n*//*\r*/", "(\n)=>\n{\n}\n", "({\na\n}=b)\n", "[\na\n]=\nb\n"];
    let bad = ["@", "#", "\u{1f600}", "\u{0}", ")", "]", "}", "a b", "1 a", "=", "=>", "*", ",", ".", ":", "?", "in a", "else", "case", "default", "catch", "finally", "const a", "var 1", "'", "'a", "'a\n'", "\"", "`", "`a", "`${", "`${a", "`\n", "/", "/a", "/[", "/a\n/", "/*", "/*\n", "0x", "1e", "0b2", "08a", "1a", "\\", "\\u", "\\u{", "\\u{110000}", "'\\u'", "'\\x1'", "`\\u`", "a.", "a.1", "a(", "a[", "f(,)", "[a", "(a", "({", "x={a b}", "x={a:}", "x={,}", "function", "function(", "function f", "function f(", "function f(1)", "function f(){", "class", "class A", "class A{", "class A{a}", "class A{a(}", "if", "if(", "if(a", "if(a)", "while(a)", "do", "do a", "do a;while", "for", "for(", "for(;", "for(a b)", "for(;;", "switch", "switch(a){a}", "try", "try{", "try{}", "throw", "throw\na", "return", "break", "continue", "break x", "import", "import a", "import {a", "import a from b", "export", "export a", "export {a", "export default", "new", "new.", "new.a", "a=>", "(a,", "(a,b", "async(", "async a", "async a b", "async(a)=>", "a?b", "a?b:", "a+", "-", "!", "typeof", "a**", "-a**b", "a++b", "++", "++a++", "a++ ++", "1=2", "1++", "a()=1", "(a,b)=1", "[1]=a", "({a:1}=b)", "({a=1})", "(a+b)=>c", "({a:1})=>b", "(...a)", "(...a,b)=>c", "(a,...b)", "()", "()+a", "let let=1", "var if", "let [a]", "const {a}", "yield a", "await a", "super", "super()", "this=1", "enum a", "x={get a}", "x={get a(b){}}", "x={set a(){}}", "x={async a}", "x={*a}", "x={if}", "x={'a'}", "x={1}", "x={[a]}", "class A extends{}", "class A{constructor(", "`a${b}c${", "`a${b c}`", "`a${}b`", "a`${", "for(let a=1 of b);", "for(let a,b of c);", "for(a=1 of b);", "for(1 of a);", "for(a of b,c);", "for(let of of a);", "with(a)", "a:", "a:function*b(){}", "if(a)class A{}", "if(a)let\n[b]=1", "while(a)function f(){}", "x=function*(){yield\n*a}", "a=>{}()", "a=>b\n=>c", "a\n=>b", "async a\n=>b", "()\n=>a", "switch(a){default:default:}", "x=/a/\u{1f600}", "'\\u{110000}'", "\"\\xg\"", "let a;let", "var a b", "var a=", "var [", "var {a:", "var {a:1}", "function f(a b){}", "function f(...a,b){}", "function f(...a=1){}", "(a b)", "f(a b)", "[a b]", "x={a:b c}", "case a:", "import a,b from 'c'", "import {a b} from 'c'", "import * a from 'b'", "export {a b}", "export * a", "export default a b"];
    let tail = ["", " ", "\n", ";", " z", "\n\nz", "\r\nz;", "/*\n*/", ")", "}"];
    for goal in [Script, Module] {
        c.grid("a bad end after every lead", goal, &[&lead, &bad, &tail[..c.pick(5, tail.len())]]);
    }
    c.grid("a bad end after two leads", Script, &[&lead, &lead, &["@", "a b", ")", "'", "`", "x={a b}", "1=2", "let let=1", "a=>b\n=>c", "-a**b", "for(a of b,c);", "async a b", "/*"]]);
    let lt = ["\n", "\r", "\r\n", "\u{2028}", "\u{2029}", " ", "/**/", "\n\n", "//\n", "/*\n*/", "\t"];
    // every program, every gap replaced by a break, then broken at every token
    for (goal, progs) in [(Script, all_script()), (Module, all_module())] {
        let mut progs: Vec<String> = progs.iter().map(|s| s.to_string()).collect();
        progs.extend(exprs_as_stmts());
        let wrong = ["@", ")", "a", "1", "'s'", "}", "else", "=", "`", "/", "b c", "'\n", "...", ".", "if"];
        c.by_index("every program broken at every token, with every separator", goal, progs.len(), |i| {
            let t: Vec<&str> = progs[i].split(' ').filter(|x| !x.is_empty()).collect();
            let mut v = vec![];
            for s in &lt[..c.pick(7, lt.len())] {
                for k in 0..=t.len() {
                    let l = t[..k].join(s);
                    v.push(l.clone());
                    v.push(format!("{}{}", l, s));
                    for w in wrong {
                        v.push(format!("{}{}{}", l, s, w));
                        if k < t.len() {
                            v.push(format!("{}{}{}{}{}", l, s, w, s, t[k..].join(s)));
                            v.push(format!("{}{}{}{}{}", l, s, w, s, t[k + 1..].join(s)));
                        }
                    }
                }
            }
            v
        });
        let ps: Vec<&str> = progs.iter().map(|s| s.as_str()).collect();
        c.edits("one token edit", goal, &ps, &ROLES, 1);
    }
    // characters
    let d = c.pick(5, 6);
    for (pre, al) in [
        ("", &["a", "\n", "\r", "\u{2028}", "@", " "][..]),
        ("x=`", &["\n", "\r", "`", "${", "}", "a", "\\"]),
        ("x='", &["\\", "\n", "\r", "'", "a", "u"]),
        ("/*", &["*", "/", "\n", "\r", "@", "a"]),
        ("//", &["/", "\n", "\r", "\u{2029}", "@", "a"]),
        ("x=", &["/", "[", "]", "\\", "\n", "a", ")"]),
        ("a\n", &["\\", "u", "{", "}", "0", "6", "1", " "]),
        ("x=", &["0", "1", "x", "e", ".", "_", "8", " "]),
        ("x=\n'", &["\\", "x", "u", "{", "4", "}", "'", "g"]),
    ] {
        c.lockstep("errors in character strings", Script, pre, al, "", "", d + 1);
        c.lockstep("errors in character strings, with an error after", Script, pre, al, "", "\n )", d);
        c.lockstep("errors in character strings, with an error after", Module, pre, al, "", "b c", d);
    }
    // binding and statement contexts with wrong content on a line of its own
    let pos: Vec<String> = BIND_POS.iter().chain(STMT_CTX).map(|p| p.replace('@', "\n@\n")).collect();
    let pos = strs(&pos);
    c.nest("wrong content in every context", Script, &pos, 1, 1, &["1", "if", ")", "a b", "a.b", "[1]", "{1}", "...a", "'s'", "eval b", "(", "", "=", "a=", "[a", "{a", "{a:", "{a:1}", "[...a,b]", "/", "`", "@", "enum"]);
    c.nest("wrong content in every context", Module, &pos, 1, 1, &["1", "if", ")", "a b", "await", "yield"]);
    let ec: Vec<String> = EXPR_CTX.iter().map(|p| p.replace('@', "\n@\n")).collect();
    let ec = strs(&ec);
    c.nest("wrong expression in every context", Script, &ec, 1, c.pick(1, 2), &["", ")", "a b", "1 2", "a +", "=", "if", "'s", "{", "[a", "f(a", "(a,", "async a", "a ? b", "=> a", "a => ", "1 = 2", "`${", "/", "new", "@", "a . 1", "function", "class {", "...", "( ... a )", "{ a b }", "- a ** b", "1 ++", "yield a", "var"]);
    size(c, "far positions", Script, 70_000, |n| {
        vec![format!("{}@", rep("\n", n)), format!("{}@", rep(" ", n)), format!("{}a b", rep("\r\n", n)), format!("/*{}*/)", rep("\n", n)), format!("'{}' )", rep("a", n)), format!("`{}` )", rep("\n", n)), format!("//{}\n )", rep("a", n)), format!("{} )", rep("a;", n.min(20000))), format!("{})", rep("a\n", n.min(20000))), format!("{})", rep("\u{2028}", n)), format!("x={} )", rep("a", n)), format!("'{}'\n)", rep("\\\n", n)), format!("[{}1 2]", rep("a,\n", n.min(20000))), format!("{}\n)", rep("\u{1f600}", 0) + &rep("'\u{1f600}';", n.min(20000))), format!("{}'", rep("\n", n)), format!("'{}", rep("a", n)), format!("`{}", rep("\n", n)), format!("/*{}", rep("\n", n))]
    });
    let bad: Vec<&str> = bad.iter().copied().collect();
    around(c, "a bad end in every surrounding", &[Script], around_stmt(), &bad);
    let it: Vec<String> = bad.iter().map(|b| format!("\n{}\n", b)).collect();
    around(c, "a bad end on a line of its own in every surrounding", &[Script, Module], around_stmt(), &it);
    around(c, "a bad end in every surrounding of expressions", &[Script], around_expr(), &it);
}

// ------------------------------------------------------------------------------------------------ C21
pub fn c21(c: &mut Ctx) {
    c.check_schema = true;
    for (goal, progs) in [(Script, all_script()), (Module, all_module())] {
        let mut p: Vec<String> = progs.iter().map(|s| s.to_string()).collect();
        p.extend(exprs_as_stmts());
        p.push(String::new());
        c.all("every construct", goal, &p);
        let ex: Vec<&str> = EXPRS.to_vec();
        c.nest("every expression in every context", goal, EXPR_CTX, 1, 1, &ex);
        c.nest("every statement in every context", goal, STMT_CTX, 1, c.pick(1, 2), &progs);
        if goal == Script {
            c.nest("every expression in two contexts", goal, EXPR_CTX, 2, 2, &ex[..]);
        }
        let n = p.len();
        c.by_index("pairs of programs", goal, n, |i| p.iter().map(|q| format!("{}\n{}", p[i], q)).collect());
        let lf = ["a", "a=1", "[]", "[a]", "[,a]", "[a=1]", "[...a]", "[a,...[b]]", "{}", "{a}", "{a=1}", "{a:b}", "{a:b=1}", "{'a':b}", "{1:b}", "{[a]:b}", "{...a}", "{a:[b,{c}]}", "[{a:[b]}]", "[[]=a]", "{a:{b}={}}", "[[a],{b},...{c}]"];
        c.nest("binding forms in every position", goal, BIND_POS, 1, 1, &lf);
        let tg = ["a", "a.b", "a[b]", "[a]", "[a.b,,c[d]]", "[...a.b]", "{a}", "{a:b.c}", "{a=1}", "{a:[b]=c,...d}", "[[a],{b}]", "{[a]:b}", "(a)", "(a.b)", "[(a)]", "{a:(b)}", "[a=1]", "[]", "{}", "{'a':b=1}", "[{a}={}]"];
        c.grid("assignment targets", goal, &[&["", "x=", "(", "for(", "async("], &tg, &["=b", "+=b", "++", " in b);", " of b);", ")=>b", "=>b", "=1)=>b", ""], &["", ")", ";", ")=c"]]);
    }
    // members: shape of every property and method
    let mods = ["", "get ", "set ", "async ", "*", "async*", "static ", "static get ", "static set ", "static async ", "static*", "static async*"];
    let keys = ["a", "if", "get", "'s'", "1", "[a]", "constructor", "static", "\\u0061", "''", "0x1", "[a,b]", "true", "null"];
    let tails = ["", ":b", "=1", "(){}", "(b){}", "(b=1,...c){}", "():b", ":[b]", ":{b}"];
    for goal in [Script, Module] {
        c.grid("members", goal, &[&["x={", "class A{", "x=class{", "({"], &mods, &keys, &tails, &["}", "})", "}=z)", "})=>z", ",b}"]]);
    }
    // literals
    let lit = ["true", "false", "null", "0", "1", "-1", "1.5", "1e21", "1e400", "0x10", "0b1", "0o7", "010", ".5", "5.", "9007199254740993", "1e-400", "''", "'a'", "\"a\"", "'true'", "'null'", "'1'", "'undefined'", "'\\0'", "'\\n'", "'\\u{1f600}'", "'\u{1f600}'", "'\\''", "'\"'", "'\\\\'", "'\\\n'", "'\u{2028}'", "/a/", "/a/gimsuy", "/[/]/", "/\\//g", "/\"/", "/'/", "/\\d+/u", "/\u{1f600}/", "/=/", "``", "`a`", "`a${b}c`", "`\\n`", "`\"`", "`\u{2028}`", "undefined", "NaN", "Infinity", "this", "[]", "{}", "'\\x00\\x1f\\x7f'", "'\t'", "'</script>'", "'\\ud83d\\ude00'", "1.7976931348623157e308", "5e-324", "123456789012345680000", "0.1", "4294967296", "1e5", "/(?:)/", "/a/i"];
    for goal in [Script, Module] {
        c.grid("literals everywhere", goal, &[&["", "x=", "[", "f(", "x={a:", "x={[", "var a=", "(", "-", "!", "a?", "()=>", "x={", "class A{", "import ", "export * from ", "case_=", "`${", "f`${", "a[", "switch(a){case ", "throw ", "var {", "if("], &lit, &["", ";", "]", ")", "}", "]:b}", "}`", ":b", ":b}=c", "(){}}", ":}", ")a"]]);
        c.grid("two literals", goal, &[&["["], &lit, &[",", "+", "===", "]==["], &lit, &["]"]]);
    }
    let q = c.quick();
    c.code_points("code points in literals", Script, move |ch| {
        let mut v = vec![format!("x=['{}',`{}`]", ch, ch)];
        if !q {
            v.extend([format!("x=/{}/", ch), format!("a{}=1", ch), format!("x='\\u{{{:x}}}'", ch as u32), format!("x={{'{}':1}}", ch), format!("f`{}${{a}}{}`", ch, ch), format!("'{}'", ch), format!("import '{}'", ch)]);
        }
        v
    });
    rows(c, "accepted token strings", &[
        (Script, "", "a ( ) { } ; = , 1 [ ]", "", 6, 7),
        (Script, "", "if(a) else for(;;) { } ; a try{} catch(a){} finally{}", "", 6, 7),
        (Script, "x =", "async function a ( ) { } => * , ...", "", 6, 7),
        (Script, "x =", "a + ! ( ) ? : , = typeof ++", "", 6, 7),
        (Script, "x = {", "a get set async * : , () {} ... [b]", "}", 5, 6),
        (Script, "class A {", "a get set async * static () {} (b){} ; [b]", "}", 5, 6),
        (Script, "", "var let a [ ] { } = , ... :", ";", 6, 7),
        (Script, "for (", "var a let of in ; [ ] , =", ") ;", 6, 7),
        (Script, "switch(a){", "case default a : ; { } break", "}", 7, 8),
        (Script, "function*g(){", "yield * a ; ( ) , =", "}", 6, 7),
        (Script, "x =", "new a ( ) . target [ ] `t` super", "", 6, 7),
        (Module, "", "import export a { } , * as from 'x' default", "", 6, 7),
        (Module, "export default", "async function class a ( ) {} => * extends", "", 6, 7),
        (Script, "x =", "`a` `a${ }b${ }c` a f ( )", "", 6, 8),
    ]);
    size(c, "long programs", Script, 1500, |n| vec![rep("a;", n), format!("x=[{}]", rep("a,", n)), format!("x={{{}}}", rep("a:1,", n)), format!("f({})", rep("a,", n)), format!("function f({}){{}}", vec!["a"; n].join(",")), format!("class A{{{}}}", rep("a(){}", n)), format!("switch(a){{{}}}", rep("case 1:", n)), format!("x=`{}`", rep("${a}b", n)), format!("a{}", rep(",b", n)), format!("var a{}", rep(",b=1", n)), format!("[{}]=b", rep("a,,", n)), format!("x={}", rep("'a'+", n.min(800)) + "1")]);
    for (goal, progs) in [(Script, all_script()), (Module, all_module())] {
        around(c, "every statement in every surrounding", &[goal], around_stmt(), &progs);
        around(c, "every expression in every surrounding", &[goal], around_expr(), EXPRS);
    }
}

// ------------------------------------------------------------------------------------------------ C24
pub fn c24(c: &mut Ctx) {
    // statements before, after and around one another
    let extra = ["x = { get a ( ) { } , set a ( b ) { } } ;", "x = { get } ;", "x = { async } ;", "x = async ;", "async ( a , b ) ;", "async ( a ) => b ;", "async \n a ;", "( a , b ) => c ;", "( a , b ) ;", "( ( a ) ) ;", "x = { a = 1 } = b ;", "x = `${ { a : `${ b }` } }` ;", "x = `a` ;", "x = ( yield_ ) => { } ;", "for ( x = ( a in b ) ; ; ) ;", "for ( var x = ( ) => { a in b } ; ; ) ;", "for ( x of function ( ) { return a in b } ) ;", "class A { static async * [ a ] ( b = 1 ) { yield await c } }", "class A extends B { constructor ( ) { super ( ) ; super . a } }", "function f ( a = function ( ) { } ) { }", "x = function * ( ) { x = { get a ( ) { return yield_ } } } ;", "do { break } while ( a )", "switch ( a ) { case b : break ; default : function f ( ) { return } }", "try { throw a } catch ( { b } ) { } finally { }", "let \n a ;", "if ( a ) ; else ;", "a : while ( b ) { continue a }", "new . target_ ;", "x = class { } / 1 ;", "x = function ( ) { } / 1 ;", "{ } /a/g ;", "a \n /b/g ;", "x = a ? ( b ) : c => d ;", "x = a ? ( b , c ) : d ;", "x = a ? ( b ) => c : d ;"];
    let mut st: Vec<&str> = STMTS.to_vec();
    st.extend(SLOPPY);
    st.extend(SCRIPT);
    st.extend(extra);
    let n = st.len();
    let mut md: Vec<&str> = STMTS.to_vec();
    md.extend(ITEMS);
    md.extend(extra);
    let m = md.len();
    // probes see what a construct left behind: one for each piece of context
    let probes = ["yield", "yield = 1 ;", "yield a ;", "await", "await = 1 ;", "await a ;", "return ;", "break ;", "continue ;", "with ( a ) b ;", "eval = 1 ;", "static = 1 ;", "a in b ;", "for ( a in b ) ;", "for ( var x = a in b ; ; ) ;", "( a in b ) ;", "/r/g ;", "} ", "`${ a }` ;", "}` ;", "super . a ;", "super ( ) ;", "new . target ;", "x = { a = 1 } ;", "( { a = 1 } ) ;", "( { a = 1 } = b ) ;", "let ;", "let = 1 ;", "async ;", "async ( ) => await a ;", "a : b ;", "break a ;", "function f ( ) { }", "import 'a' ;", "export { } ;", "( a , ) ;", "( a , ) => b ;", "= 1 ;", "=> 1 ;", "++ ;", "in b ;", ", b ;", "else ;", "case a :", "'use strict' ; with ( a ) b ;", "?. 5 : 1 ;", "( a ) ;", "[ a ] ;", "a b ;", "@", "function * g ( ) { yield }", "if ( a ) function f ( ) { }", "x = ( ) => { } ;", "x = yield => 1 ;", "get", "set a ( b ) { } ;", "return_ ;", "do ; while ( 0 ) a ;"];
    c.by_index("probe after every pair of constructs", Script, n * n, |i| {
        let (a, b) = (st[i % n], st[i / n]);
        let mut v = vec![format!("{}\n{}", a, b), format!("{} {}", a, b)];
        for p in probes {
            v.push(format!("{}\n{}\n{}", a, b, p));
        }
        v
    });
    c.by_index("probe after every pair of constructs", Module, m * m, |i| {
        let (a, b) = (md[i % m], md[i / m]);
        let mut v = vec![format!("{}\n{}", a, b), format!("{} {}", a, b)];
        for p in probes.iter().step_by(c.pick(3, 1)) {
            v.push(format!("{}\n{}\n{}", a, b, p));
        }
        v
    });
    if c.quick() {
        let k: Vec<&str> = st.iter().copied().step_by(2).collect();
        let kn = k.len();
        c.by_index("triples of constructs", Script, kn * kn, |i| k.iter().map(|x| format!("{}\n{}\n{}", k[i % kn], k[i / kn], x)).collect());
    } else {
        c.by_index("triples of constructs", Script, n * n, |i| st.iter().map(|x| format!("{}\n{}\n{}", st[i % n], st[i / n], x)).collect());
        c.by_index("triples of constructs", Module, m * m, |i| md.iter().map(|x| format!("{}\n{}\n{}", md[i % m], md[i / m], x)).collect());
    }
    // inside a function form or statement, then a probe inside and outside it
    let mut around: Vec<&str> = FUNS.to_vec();
    around.extend(["{ @ }", "if ( a ) { @ }", "for ( ; ; ) { @ }", "switch ( a ) { case b : @ }", "try { @ } finally { }", "a : { @ }", "x = [ function ( ) { @ } ] ;", "f ( ( ) => { @ } , b ) ;", "x = `${ function ( ) { @ } }` ;", "function f ( a = function ( ) { @ } ) { }", "class A { [ function ( ) { @ } ] ( ) { } }", "x = ( a = ( ) => { @ } ) => b ;", "class A extends function ( ) { @ } { }", "x = { [ ( ) => { @ } ] : 1 } ;", "for ( x = function ( ) { @ } ; ; ) ;", "with ( a ) { @ }", "async ( ( ) => { @ } ) ;", "async ( a = ( ) => { @ } ) => b ;", "( ( ) => { @ } , b ) => c ;"]);
    let an = around.len();
    for goal in [Script, Module] {
        let (list, ln) = if goal == Script { (&st, n) } else { (&md, m) };
        c.by_index("probe after a construct inside and outside its surroundings", goal, an * ln, |i| {
            let (o, s) = (around[i % an], list[i / an]);
            let mut v = vec![o.replace('@', s)];
            for p in probes.iter().step_by(if goal == Module { c.pick(3, 1) } else { 1 }) {
                v.push(o.replace('@', &format!("{}\n{}", s, p)));
                v.push(format!("{}\n{}", o.replace('@', s), p));
            }
            v
        });
    }
    c.nest("probes in nested surroundings", Script, &around, 2, c.pick(2, 3), &probes);
    c.by_index("probe after an inner surrounding", Script, an * an, |i| {
        let (o, s) = (around[i % an], around[i / an]);
        let mut v = vec![];
        for p in probes {
            for q in ["a ;", "yield_ ;", "var a ;"] {
                v.push(o.replace('@', &format!("{}\n{}", s.replace('@', q), p)));
                v.push(format!("{}\n{}", o.replace('@', &s.replace('@', q)), p));
            }
            v.push(o.replace('@', &format!("{}\n{}", p, s.replace('@', "a ;"))));
        }
        v
    });
    // every head that changes what is allowed, with every form that asks, inside each of its parts
    let heads = ["export default function ( ) { @ }", "export default function ( a = @ ) { }", "export default class { m ( ) { @ } }", "export default class { [ @ ] ( ) { } }", "export default class extends ( @ ) { }", "export default async function ( ) { @ }", "export default function * ( ) { @ }", "export default ( ) => { @ }", "export default a => @", "export default { m ( ) { @ } }", "export default { a : @ }", "export default [ @ ]", "export default ( @ )", "export default a ( @ )", "export default `${ @ }`", "export default async ( ) => { @ }", "export default class A { m ( ) { @ } }", "export default function f ( ) { @ }", "export default a ? @ : b", "export default function ( ) { } @", "export default class { } @", "export default a ; @", "export function f ( ) { @ }", "export class A { m ( ) { @ } }", "export var a = @ ;", "export let a = function ( ) { @ } ;", "export const { a = @ } = b ;", "export { } ; @", "import 'a' ; @"];
    let asks = ["function ( ) { }", "function * ( ) { }", "async function ( ) { }", "class { }", "class { } ;", "function f ( ) { }", "class A { }", "( function ( ) { } )", "x = function ( ) { }", "x = class { }", "export default a", "export { } ;", "export var a ;", "import 'a' ;", "import a from 'b'", "if ( a ) function ( ) { }", "{ function ( ) { } }", "{ class { } }", "a : function ( ) { }", "await a", "await = 1", "yield a", "yield = 1", "return", "return a", "break", "new . target", "super . a", "super ( )", "a in b", "x = { a = 1 }", "default", "from", "as", "async", "let a", "const a", "{ a }", "async ( ) => await a", "a", ""];
    for goal in [Module, Script] {
        c.nest("asking forms in exported heads", goal, &heads, 1, 2, &asks);
    }
    let mut inner: Vec<&str> = heads.to_vec();
    inner.extend(around.iter().copied());
    c.by_index("asking forms in surroundings of exported heads", Module, heads.len() * inner.len(), |i| {
        let (o, n) = (heads[i % heads.len()], inner[i / heads.len()]);
        asks.iter().flat_map(|a| vec![o.replace('@', &n.replace('@', a)), o.replace('@', &format!("{} {}", n.replace('@', "a ;"), a)), format!("{} {}", o.replace('@', &n.replace('@', "a ;")), a)]).collect()
    });
    // expressions beside one another
    let k = EXPRS.len();
    c.by_index("triples of expressions", Script, k * k, |i| {
        let (a, b) = (EXPRS[i % k], EXPRS[i / k]);
        let mut v = vec![];
        for x in EXPRS.iter().step_by(c.pick(3, 1)) {
            v.push(format!("x = [ {} , {} , {} ]", a, b, x));
        }
        v.extend([format!("f ( {} , {} )", a, b), format!("( {} , {} )", a, b), format!("x = {{ a : {} , b : {} }}", a, b), format!("`${{ {} }}${{ {} }}`", a, b), format!("x = c ? {} : {}", a, b), format!("async ( {} , {} )", a, b), format!("function f ( a = {} , b = {} ) {{ }}", a, b), format!("( a = {} , b = {} ) => c", a, b), format!("x = {} \n y = {}", a, b), format!("var x = {} , y = {} ;", a, b), format!("for ( x = {} ; {} ; ) ;", a, b), format!("class A {{ [ {} ] ( ) {{ }} [ {} ] ( ) {{ }} }}", a, b), format!("switch ( {} ) {{ case {} : }}", a, b), format!("( {} ) \n ( {} )", a, b), format!("x = ( {} ) [ {} ]", a, b), format!("for ( x of {} ) {}", a, b), format!("if ( {} ) x = {}", a, b), format!("function * g ( ) {{ yield {} ; yield {} }}", a, b), format!("async function g ( ) {{ await ( {} ) ; await ( {} ) }}", a, b)]);
        v
    });
    c.by_index("pairs of expressions", Module, k * k, |i| {
        let (a, b) = (EXPRS[i % k], EXPRS[i / k]);
        vec![format!("x = [ {} , {} ]", a, b), format!("f ( {} , {} )", a, b), format!("async ( {} , {} )", a, b), format!("x = {} \n y = {}", a, b), format!("export default {} \n y = {}", a, b), format!("export var x = {} , y = {} ;", a, b)]
    });
    let ex: Vec<&str> = EXPRS.to_vec();
    c.nest("expressions in nested contexts", Script, EXPR_CTX, 1, 2, &ex);
    let pe = ["yield", "yield a", "await", "await a", "a in b", "{ a = 1 }", "super . a", "new . target", "static", "eval = 1", "async", "let", "( a , )", "a b", "/r/", "}", "`", "...", "arguments", "a => b", "await => a", "yield => a"];
    c.nest("probes in nested expression contexts", Script, EXPR_CTX, 1, c.pick(2, 3), &pe);
    c.nest("probes in nested expression contexts", Module, EXPR_CTX, 1, 2, &pe);
    c.by_index("a probe after every expression in a context", Script, EXPR_CTX.len() * k, |i| {
        let (o, e) = (EXPR_CTX[i % EXPR_CTX.len()], EXPRS[i / EXPR_CTX.len()]);
        probes.iter().map(|p| format!("{}\n{}", o.replace('@', e), p)).collect()
    });
    // composition without the model: the body of a sequence is the sequence of the bodies
    {
        use crate::sut::{run, Obs};
        use crate::v::V;
        let body = |o: &Obs| -> Option<Vec<V>> {
            if let Obs::Ok(v) = o {
                if let Some(V::Arr(a)) = v.get("body") {
                    return Some(a.clone());
                }
            }
            None
        };
        for goal in [Script, Module] {
            let list: Vec<&str> = if goal == Script { st.clone() } else { md.clone() };
            let alone: Vec<Option<Vec<V>>> = list.iter().map(|s| body(&run(s, goal))).collect();
            c.par(list.len(), |i| {
                for j in 0..list.len() {
                    let (a, b) = (&alone[i], &alone[j]);
                    if let (Some(a), Some(b)) = (a, b) {
                        if list[i].starts_with('\'') || list[j].starts_with('\'') || !(list[i].ends_with(';') || list[i].ends_with('}')) {
                            continue;
                        }
                        let t = format!("{}\n;{}", list[i], list[j]);
                        // an expression statement ending in } could run on; a semicolon of its own ends it
                        let o = run(&t, goal);
                        c.extra_checks.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        let got = body(&o).map(|x| x.into_iter().filter(|s| s.ty() != "EmptyStatement").collect::<Vec<_>>());
                        let want: Vec<V> = a.iter().chain(b.iter()).filter(|s| s.ty() != "EmptyStatement").cloned().collect();
                        if got.as_ref() != Some(&want) {
                            c.violation(&t, goal, format!("the sequence is not the two parts in sequence: {}", cut(&o.short(), 400)));
                        }
                    }
                }
            });
            c.bound(format!("composition: {} goal, all pairs of {} constructs, tree of the sequence against the trees of the parts", gname(goal), list.len()));
        }
    }
    size(c, "many constructs, then a probe", Script, 500, |n| {
        let mut v = vec![];
        for s in ["function*g(){yield a}", "async function f(){await a}", "class A{m(){}}", "x=()=>{};", "for(x in y);", "x=`${a}`;", "function f(){'use strict'}", "while(a){break}", "switch(a){}", "x={get a(){}};", "async(a);", "(a,b)=>c;", "(a,b);", "{}", "x={};"] {
            for p in ["yield=1", "await=1", "with(a)b", "break", "return", "a in b", "eval=1", "}", "continue", "x=`${`${a}`}`"] {
                v.push(format!("{}{}", rep(s, n), p));
            }
        }
        v
    });
    let sa = around_stmt();
    let items: Vec<String> = st.iter().map(|s| s.to_string()).chain(probes.iter().map(|s| s.to_string())).collect();
    super::lexical::around(c, "constructs and probes in every surrounding", &[Script], sa.clone(), &items);
    let items: Vec<String> = md.iter().map(|s| s.to_string()).chain(probes.iter().map(|s| s.to_string())).collect();
    super::lexical::around(c, "constructs and probes in every surrounding", &[Module], sa.clone(), &items);
    let items: Vec<&str> = EXPRS.iter().copied().chain(pe).collect();
    super::lexical::around(c, "expressions in every surrounding", &[Script, Module], around_expr(), &items);
    // a surrounding inside a surrounding, with a probe inside and after
    let k = sa.len();
    c.by_index("probes in two surroundings", Script, k * k, |i| {
        let (o, n) = (&sa[i % k], &sa[i / k]);
        let mut v = vec![];
        if o.len() + n.len() > 260 {
            return v;
        }
        for p in probes.iter().step_by(c.pick(4, 1)) {
            v.push(o.replace('@', &n.replace('@', p)));
            v.push(o.replace('@', &format!("{}\n{}", n.replace('@', "a;"), p)));
        }
        v
    });
}
