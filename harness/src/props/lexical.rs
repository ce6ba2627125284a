//! C02 to C08: tokens.
use super::corpus::*;
use crate::engine::*;
use crate::refp::Goal::{self, *};

pub fn strs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}
/// all strings over `al` of length lo..=hi
pub fn runs(al: &[&str], lo: usize, hi: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut cur = vec![String::new()];
    if lo == 0 {
        out.push(String::new());
    }
    for d in 1..=hi {
        let mut n = Vec::with_capacity(cur.len() * al.len());
        for c in &cur {
            for a in al {
                n.push(format!("{}{}", c, a));
            }
        }
        cur = n;
        if d >= lo {
            out.extend(cur.iter().cloned());
        }
    }
    out
}
pub fn rep(s: &str, n: usize) -> String {
    s.repeat(n)
}

/// Every item in every surrounding (see corpus.rs), statements and expressions alike.
pub fn around<T: AsRef<str> + Sync>(c: &Ctx, name: &str, goals: &[Goal], sur: Vec<String>, items: &[T]) {
    for goal in goals {
        c.by_index(name, *goal, items.len(), |i| {
            let it = items[i].as_ref();
            sur.iter().map(|s| s.replace('@', it)).collect()
        });
    }
}
/// The edges of the surrogates as escapes, in both forms, and what may come between them.
pub fn surrogates() -> Vec<String> {
    let mut v = vec![];
    for x in [0u32, 0x41, 0xd7ff, 0xd800, 0xd801, 0xd83d, 0xdbff, 0xdc00, 0xdc01, 0xde00, 0xdfff, 0xe000, 0xfffd, 0xffff] {
        v.push(format!("\\u{:04x}", x));
        v.push(format!("\\u{{{:X}}}", x));
    }
    for x in ["\\u{10000}", "\\u{1F600}", "\u{1f600}", "\\xdc", "\\0", "\\\n", "a", "\u{fffd}"] {
        v.push(x.to_string());
    }
    v
}
// ------------------------------------------------------------------------------------------------ C02
pub fn c02(c: &mut Ctx) {
    let p = ["<", ">", "=", "!", "+", "-", "*", "%", "&", "|", "^", "~", "?", ":", ".", ",", "/"];
    let all = ["{", "}", "(", ")", "[", "]", ".", ";", ",", "<", ">", "=", "!", "+", "-", "*", "%", "&", "|", "^", "~", "?", ":", "/"];
    let r3 = runs(&p, 1, 3);
    let r3 = strs(&r3);
    let b3 = runs(&all, 1, 3);
    let b3 = strs(&b3);
    c.grid("runs between operands", Script, &[&["a", "a ", "1 ", "(a)", "a\n", "f(){}", "x={}"], &r3, &["b", " b", "1", ".5", "`t`", "{}", "\nb", "(b)"], &["", ";"]]);
    c.grid("runs with brackets", Script, &[&["a", "", "a=[", "f("], &b3, &["b", "", "1", " "]]);
    c.grid("runs with brackets", Module, &[&["a", "a=[", "f("], &b3, &["b", "", "1"]]);
    // every run before every ASCII character, and that before something
    let asc: Vec<String> = (0x20u8..0x7f).map(|b| (b as char).to_string()).collect();
    c.grid("runs before every character", Script, &[&["a", "x=a", "a\n", "x="], &strs(&runs(&p, 1, c.pick(2, 3))), &strs(&asc), &["", ":1", "b", "0", " b:1", ".c", "(d)", ")"]]);
    c.grid("runs before every character", Module, &[&["a"], &strs(&runs(&all, 1, 2)), &strs(&asc), &["", ":1", "b"]]);
    // a run cut in two by a space or comment is two runs
    let r2 = runs(&p, 1, 2);
    let r2 = strs(&r2);
    c.grid("split runs", Script, &[&["a"], &r2, &[" ", "\n", "/**/"], &r2, &["b"]]);
    // a run where an operand, an element, a member or a statement may start, with and without a gap before what follows
    let open = ["", "[", "[a,", "f(", "f(a,", "(", "(a,", "x={", "x={a:", "x={a,", "new f(", "x=", "a?", "a?b:", "var [", "var {", "function f(", "class A{", "`${", "a[", "{", "if(", "for(", "[a]=", "=>", "a:", "return_"];
    let shut = ["", ")", "]", "}", "]=b", "}=b", "){}", ")=>c", "}`", ":b"];
    c.grid("runs at every opening", Script, &[&open, &r3, &["", " ", "\n"], c.pick(&["a"][..], &["a", "1", "'s'", "(b)"]), &shut]);
    if !c.quick() {
        c.grid("runs at every opening", Module, &[&open, &b3, &["", " ", "/**/"], &["a", ""], &shut]);
    }
    // deeper: characters that combine with one another
    for al in [
        &["<", "=", ">", "!", "a"][..],
        &[">", "=", "a"],
        &["*", "=", "/", "a", "\n"],
        &["&", "|", "=", "^", "a", "!"],
        &["+", "-", "=", "a", "\n"],
        &[".", "a", "1", "(", ")", ",", "["],
        &["=", "!", "a", ">", "(", ")"],
        &["?", ":", ".", "1", "a", "="],
        &["%", "=", "~", "a", "-"],
        &["<", "!", "-", ">", "a"],
        &["-", ">", "\n", "a", " "],
    ] {
        let d = c.pick(if al.len() <= 4 { 9 } else { 6 }, if al.len() <= 4 { 11 } else { 8 });
        c.lockstep("punctuator characters", Script, "a", al, "", "b", d);
        c.lockstep("punctuator characters at the start", Script, "", al, "", "b", d - 1);
    }
    let d = c.pick(4, 5);
    c.lockstep("all punctuator characters", Script, "a", &["{", "}", "(", ")", "[", "]", ".", ";", ",", "<", ">", "=", "!", "+", "-", "*", "%", "&", "|", "^", "~", "?", ":", "/", "a"], "", "b", d);
    // every operator next to every kind of token, without space
    let ops = ["+", "-", "*", "/", "%", "**", "<<", ">>", ">>>", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "&", "|", "^", "&&", "||", "?", ":", "=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "=>", "++", "--", "!", "~", ".", "...", ",", ";", "(", ")", "[", "]", "{", "}", "@", "#", "\\"];
    let opd = ["a", "1", "1.", ".1", "0x1", "'s'", "`t`", "`t${", "}u`", "/r/", "in", "typeof", "this", "(", ")", "[", "]", "{", "}", "_", "$", "\u{e9}"];
    c.grid2("operator next to token", &[&opd, &ops, &opd, &["", ";"]]);
    c.grid("two operators", Script, &[&["a", "(a)"], &ops, &["", " "], &ops, &["b", "", "(b)"]]);
    // every code point as a stray character
    let q = c.quick();
    c.code_points("stray character", Script, move |ch| {
        let mut v = vec![format!("{}", ch), format!("a{}b", ch), format!("a {} b", ch), format!("a={}", ch), format!("a;{}", ch), format!("{}a", ch)];
        if !q {
            v.extend([format!("a\n{}\nb", ch), format!("f({})", ch), format!("[{}]", ch), format!("{{{}}}", ch), format!("`${{{}}}`", ch), format!("a.{}", ch), format!("1{}", ch), format!("a+{}b", ch), format!("({}", ch), format!("''{}", ch), format!("/a/{}", ch), format!("`a`{}", ch)]);
        }
        v
    });
    let stray: Vec<String> = (0u32..0x180).chain([0x2028, 0x2029, 0xfeff, 0x200b, 0x200c, 0x180e, 0xfffe, 0xd7ff, 0xe000, 0x1d400, 0xe0100]).filter_map(char::from_u32).map(|x| x.to_string()).collect();
    let stray = strs(&stray);
    c.grid2("character at a place", &[&["", "a", "a ", "a=", "a+", "a.", "(", "[", "{", "f(a,", "x={", "`${", "'s'", "1", "/r/", "var ", "function ", "class A{", "a?b:", "for(", "if(a)", "a\n", "a;", "import "], &stray, &["", " ", "a", "b;", ")", "]", "}", "}`", "\n", "1", "="]]);
    size(c, "long runs of punctuators", Script, 600, |n| {
        vec![
            format!("a{}b", rep("+ ", n)),
            format!("a={}b", rep("!", n)),
            format!("a={}b", rep("- ", n)),
            format!("a={}b", rep("-", n)),
            format!("a{}b", rep(">", n)),
            format!("a{}b", rep("=", n)),
            format!("a{}", rep(".b", n)),
            format!("{}a{}", rep("(", n.min(60)), rep(")", n.min(60))),
            rep(";", n),
            format!("[{}]", rep(",", n)),
        ]
    });
    let it: Vec<String> = r3.iter().step_by(c.pick(2, 1)).map(|r| format!("a{}b", r)).collect();
    around(c, "runs in every surrounding", &[Script], around_expr(), &it);
    let it: Vec<String> = runs(&p, 1, 2).iter().chain(["===", "!==", ">>>", "**=", "<<=", ">>=", ">>>=", "...", ">>>>", "===="].map(String::from).iter()).flat_map(|r| vec![format!("a{}b", r), format!("a {} b", r), format!("{}a", r), format!("a{}", r)]).collect();
    around(c, "runs in every surrounding", &[Script, Module], around_expr(), &it);
    around(c, "runs in every surrounding of statements", &[Script], around_stmt(), &it);
    // characters that begin no token
    let bad: Vec<String> = (0u8..32).filter(|b| !(9..14).contains(b)).map(|b| (b as char).to_string()).chain(["#", "@", "\u{7f}", "\u{80}", "\u{85}", "\u{ad}", "\u{200b}", "\u{200c}", "\u{2060}", "\u{180e}", "\u{fffe}", "\u{ffff}", "\u{2190}", "\u{10ffff}", "\u{e000}", "\u{1f600}"].map(String::from)).collect();
    let it: Vec<String> = bad.iter().flat_map(|b| [b.clone(), format!("a {}", b), format!("{} a", b), format!("a={}b", b), format!("a;{}\n", b)]).collect();
    for sur in [around_stmt(), around_expr(), deep_stmt(), deep_expr()] {
        around(c, "characters that begin no token", &[Script], sur, &it);
    }
}

/// a family of texts by size
pub fn size(c: &Ctx, name: &str, goal: Goal, max: usize, f: impl Fn(usize) -> Vec<String> + Sync) {
    let s = sizes(max);
    c.by_index(&format!("{} (sizes up to {})", name, max), goal, s.len(), |i| f(s[i]));
}

// ------------------------------------------------------------------------------------------------ C03
const NAME_POS: &[&str] = &[
    "@", "@;", "@=1", "a=@", "a=@+1", "(@)", "@()", "@.a", "@[0]", "[@]", "f(@)", "`${@}`", "new @", "typeof @", "@++", "--@", "a?@:b", "a+@", "@ in a", "@\n/a/g",
    "var @", "let @", "const @=1", "var a,@", "var [@]=a", "var {@}=a", "var {a:@}=b", "var {@=1}=a", "var [...@]=a", "var {...@}=a",
    "@:a", "@:for(;;)break @", "a:for(;;)break @", "for(;;)continue @", "function @(){}", "(function @(){})", "function f(@){}", "function f(...@){}", "function f(a=@){}",
    "function* @(){}", "(function* @(){})", "async function @(){}", "(async function @(){})", "function* g(){@}", "async function g(){@}", "function* g(){var @}", "async function g(){var @}",
    "function* g(@){}", "async function g(@){}",
    "class @{}", "(class @{})", "class A extends @{}", "class A{m(@){}}", "(@)=>1", "@=>1", "(a,@)=>1", "async @=>1", "async(@)=>1", "(@=1)=>1", "({@})=>1", "([@])=>1", "(...@)=>1",
    "try{}catch(@){}", "try{}catch({@}){}", "for(@ in a);", "for(@ of a);", "for(var @ in a);", "for(var @ of a);", "for(let @ of a);", "for(@;;);", "for(@=1;;);",
    "({@})", "({a:@})", "({a:@}=b)", "({@}=b)", "({@=1}=b)", "({@=1})", "({...@})", "[@]=a", "[...@]=a", "[@=1]=a", "({...@}=a)",
    "a.@", "a.@=1", "a.@()", "a.@.b", "new a.@", "({@:1})", "({@(){}})", "({get @(){}})", "({set @(a){}})", "({*@(){}})", "({async @(){}})", "({async*@(){}})", "({@:a}=b)", "var {@:a}=b",
    "class A{@(){}}", "class A{static @(){}}", "class A{get @(){}}", "class A{set @(a){}}", "class A{*@(){}}", "class A{async @(){}}", "class A{async*@(){}}", "class A{static async @(){}}",
    "'use strict';@", "'use strict';var @", "'use strict';@=1", "'use strict';({@})", "'use strict';@:a", "function f(){'use strict';@}", "function @(){'use strict'}", "function f(@){'use strict'}", "'use strict';function f(@){}", "'use strict';(@)=>1",
    "class A{m(){@}}", "import @ from 'a'", "import {@} from 'a'", "import {@ as b} from 'a'", "import {a as @} from 'b'", "import * as @ from 'a'", "export {@}", "export {@ as a}", "export {a as @}", "export {@} from 'a'", "export {a as @} from 'b'", "export default @", "export var @",
    "export function @(){}", "export class @{}", "new.@", "function f(){new.@}", "@ function f(){}", "@\nfunction f(){}", "if(a)@", "do @;while(0)", "while(@);", "switch(@){case @:}", "throw @", "with(@);", "return @", "super.@", "class A{m(){super.@}}",
];

fn esc(ch: char, form: usize) -> String {
    let x = ch as u32;
    match form {
        0 => ch.to_string(),
        1 if x <= 0xffff => format!("\\u{:04x}", x),
        1 => format!("\\u{{{:x}}}", x),
        2 => format!("\\u{{{:x}}}", x),
        3 => format!("\\u{{{:X}}}", x),
        4 => format!("\\u{{000{:x}}}", x),
        _ if x <= 0xffff => format!("\\u{:04X}", x),
        _ => format!("\\u{{0{:X}}}", x),
    }
}

/// Braced escapes: a first digit, zeros of every count, and an end that is a character of each kind.
fn braced() -> Vec<String> {
    let mut v = vec![];
    for first in ["0", "1", "2", "8", "9", "a", "F", "10", "11", "80", "ff", "fe", "100", "010"] {
        for z in (0..=18).chain([28, 29, 30, 31, 32, 60, 61, 62, 63, 64, 252, 255, 256]) {
            for e in ["0", "1", "61", "24", "5c", "aa", "b7", "660", "200c", "d83d", "dc00", "2028", "1d7d8", "20000", "10ffff", "110000", "fffff"] {
                v.push(format!("\\u{{{}{}{}}}", first, rep("0", z), e));
            }
        }
    }
    v
}

pub fn c03(c: &mut Ctx) {
    let b = braced();
    c.by_index("braced escapes of every length", Script, b.len(), |i| ["@", "x@", "@x=1", "a.@", "({@:1})", "x=@;", "var @", "@:;", "@\\u0061", "class A{@(){}}", "function @(){}"].iter().map(|x| x.replace('@', &b[i])).collect());
    c.by_index("braced escapes of every length", Module, b.len(), |i| ["import {@ as a} from 'b'", "export {a as @}", "let @"].iter().map(|x| x.replace('@', &b[i])).collect());
    let q = c.quick();
    // every code point, direct and escaped, first and later
    c.code_points("identifier characters", Script, move |ch| {
        let mut v = vec![];
        for form in 0..3 {
            let e = esc(ch, form);
            v.push(format!("{}", e));
            v.push(format!("a{}", e));
            v.push(format!("x={{a{}b}}", e));
            if !q {
                v.extend([format!("a.{}", e), format!("x={{{}:1}}", e), format!("var {}a={}a", e, e), format!("a{}:b", e), format!("a{}=1;", e), format!("\u{e9}{}", e), format!("{}{}", e, e), format!("$_{}", e), format!("class {}b{{}}", e)]);
            }
        }
        v
    });
    // boundaries of every identifier range, in many positions
    let mut edge = vec![];
    for (x, _) in crate::refp::unitab::IDTAB {
        edge.extend([char::from_u32(x - 1), char::from_u32(*x), char::from_u32(x + 1)].into_iter().flatten());
    }
    edge.extend("azAZ09$_-#@\u{200c}\u{200d}\u{200b}\u{2e2f}\u{180e}\u{85}\u{b7}\u{2118}\u{212e}\u{309b}\u{1885}\u{1369}\u{19da}\u{387}".chars());
    edge.sort();
    edge.dedup();
    let forms = c.pick(3, 6);
    let pos = ["@", "a=@", "a.@", "var @;", "({@:1})", "({@})", "@:a", "function @(){}", "class A{@(){}}", "@=>1", "`${@}`", "1@", "'s'@", "/r/@", "[@]=1"];
    c.by_index("identifier range boundaries", Script, edge.len(), |i| {
        let mut v = vec![];
        for form in 0..forms {
            let e = esc(edge[i], form);
            for p in pos {
                for w in [e.clone(), format!("a{}", e), format!("a{}b", e), format!("{}{}", e, e)] {
                    v.push(p.replace('@', &w));
                }
            }
        }
        v
    });
    c.by_index("identifier range boundaries", Module, edge.len(), |i| {
        let mut v = vec![];
        for form in 0..forms {
            let e = esc(edge[i], form);
            for p in ["@", "import {@} from 'a'", "import {a as @} from 'b'", "export {@ as b}", "export {a as @}", "import * as @ from 'a'", "export default @"] {
                for w in [e.clone(), format!("a{}", e)] {
                    v.push(p.replace('@', &w));
                }
            }
        }
        v
    });
    // words
    let mut words: Vec<String> = vec![];
    for w in RESERVED.iter().chain(CONTEXTUAL) {
        words.push(w.to_string());
        let ch: Vec<char> = w.chars().collect();
        for i in 0..ch.len() {
            for form in 1..c.pick(3, 6) {
                let mut s = String::new();
                for (j, x) in ch.iter().enumerate() {
                    if j == i {
                        s.push_str(&esc(*x, form))
                    } else {
                        s.push(*x)
                    }
                }
                words.push(s);
            }
        }
        words.push(ch.iter().map(|x| esc(*x, 1)).collect());
    }
    let mut near: Vec<String> = vec![];
    for w in RESERVED.iter().chain(CONTEXTUAL) {
        let mut u: Vec<char> = w.chars().collect();
        near.push(w.to_uppercase());
        u[0] = u[0].to_ascii_uppercase();
        near.push(u.iter().collect());
        near.push(format!("{}s", w));
        near.push(format!("{}_", w));
        near.push(format!("${}", w));
        near.push(format!("_{}", w));
        near.push(format!("{}0", w));
        near.push(format!("{}\u{200d}", w));
        near.push(w[..w.len() - 1].to_string());
        near.push(w[1..].to_string());
        near.push(format!("{}{}", w, w));
        let n = w.len();
        near.push(format!("{}{}{}", &w[..n - 2], &w[n - 1..], &w[n - 2..n - 1]));
    }
    near.retain(|w| !w.is_empty());
    for goal in [Script, Module] {
        c.by_index("reserved and contextual words, plain and escaped, in every position", goal, words.len(), |i| NAME_POS.iter().map(|p| p.replace('@', &words[i])).collect());
        c.by_index("near misses of reserved words in every position", goal, near.len(), |i| NAME_POS.iter().map(|p| p.replace('@', &near[i])).collect());
    }
    // keywords spelled with escapes where the keyword is meant
    let kw: Vec<String> = ["if(a)b", "var a", "for(;;);", "function f(){}", "class A{}", "return", "this", "null", "true", "false", "new a", "typeof a", "while(0);", "do;while(0)", "try{}finally{}", "throw a", "switch(a){}", "debugger", "import 'a'", "export {}", "let a", "const a=1", "async function f(){}", "async()=>1", "x={get a(){}}", "x={set a(b){}}", "class A{static a(){}}", "for(a of b);", "for(a in b);", "a in b", "a instanceof b", "void 0", "delete a.b", "function*g(){yield a}", "async function g(){await a}", "import a from 'b'", "import*as a from 'b'", "export default a", "class A extends B{}", "if(a);else b", "switch(a){case b:}", "switch(a){default:}", "try{}catch{}", "a:for(;;)break a", "a:for(;;)continue a", "super.a", "function f(){new.target}", "with(a)b", "x={async a(){}}", "class A{async a(){}}", "class A{get a(){}}", "export {a as b}", "import {a as b} from 'c'", "async a=>1", "class A{m(){super.a}}", "class A extends B{constructor(){super()}}"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    for goal in [Script, Module] {
        c.by_index("each character of each program escaped", goal, kw.len(), |i| {
            let ch: Vec<char> = kw[i].chars().collect();
            let mut v = vec![kw[i].clone()];
            for form in 1..4 {
                for p in 0..ch.len() {
                    v.push(ch.iter().enumerate().map(|(j, x)| if j == p { esc(*x, form) } else { x.to_string() }).collect());
                }
            }
            v
        });
    }
    // malformed escapes
    let d = c.pick(7, 8);
    for (pre, suf) in [("", ""), ("a", "b"), ("x.", ";"), ("({", ":1})")] {
        c.lockstep("escape characters in names", Script, pre, &["\\", "u", "{", "}", "0", "6", "1", "a", "F", "g"], "", suf, d - 1);
    }
    c.lockstep("escape digits", Script, "\\u", &["{", "}", "0", "6", "1", "f", "x"], "", "", d);
    c.lockstep("escape digits", Script, "a\\u{", &["0", "6", "1", "f", "}", "d", "8"], "", "b", d);
    // values of braced escapes at and past the end of Unicode and of integer widths
    for goal in [Script, Module] {
        let mut v = vec![];
        for e in ["0", "41", "61", "0061", "10ffff", "110000", "10FFFF", "e0100", "e01ef", "e01f0", "ffffff", "7fffffff", "80000000", "ffffffff", "100000000", "100000061", "ffffffffffffffff", "10000000000000061", "d800", "dfff", "", "g", "61g", " 61", "61 ", "+61", "-61", "6_1", "0x61"] {
            for z in [0, 1, 2, 6, 8, 20, 70, 300] {
                v.push(format!("a\\u{{{}{}}}", rep("0", z), e));
                v.push(format!("\\u{{{}{}}}=1", rep("0", z), e));
            }
        }
        c.all("braced escape values", goal, &v);
    }
    size(c, "long names", Script, 70000, |n| {
        vec![
            format!("x{}", rep("a", n)),
            format!("var {}b=1", rep("\u{e9}", n)),
            format!("a.{}z", rep("\u{1d4d0}", n)),
            format!("if{}", rep("f", n)),
            format!("x={{_{}:1}}", rep("$", n)),
        ]
    });
    size(c, "long escaped names", Script, 2000, |n| vec![format!("x{}", rep("\\u0061", n)), format!("x.{}b", rep("\\u{1d4d0}", n))]);
    let ws: Vec<String> = RESERVED.iter().chain(CONTEXTUAL).map(|s| s.to_string()).chain(["a", "\\u0061", "\\u{61}b", "\u{e9}", "\u{1d4d0}", "a\u{200d}", "$", "_", "\\u0030", "a\\u{2d}", "i\\u0066", "l\\u0065t", "st\\u{61}tic", "yi\\u0065ld", "aw\\u0061it", "ev\\u0061l", "\\u{e9}", "\\u{110000}", "\\"].map(String::from)).collect();
    let it: Vec<String> = ws.iter().flat_map(|w| ["@;", "@=1;", "var @;", "x={@:1};", "x={@};", "@:a;", "a.@;", "function @(){}", "(@)=>a;", "x=@;", "let @=1;", "x={@(){}};"].map(|p| p.replace('@', w))).collect();
    around(c, "words in every surrounding", &[Script, Module], around_stmt(), &it);
    let it: Vec<String> = ws.iter().flat_map(|w| ["@", "{@}", "{@:1}", "[@]", "(@)", "a.@", "@=>1", "function @(){}", "({@}=a)"].map(|p| p.replace('@', w))).collect();
    around(c, "words in every surrounding of expressions", &[Script, Module], around_expr(), &it);
}

// ------------------------------------------------------------------------------------------------ C04
pub fn c04(c: &mut Ctx) {
    let b = braced();
    c.by_index("braced escapes of every length", Script, b.len(), |i| ["'@'", "x=\"a@b\"", "({'@':1})", "x='@\\u{1f600}@'", "'\\ud83d@'", "x='\\u{d83d}@'"].iter().map(|x| x.replace('@', &b[i])).collect());
    let q = c.quick();
    let d = c.pick(4, 5);
    let al = ["\\", "'", "\"", "x", "u", "{", "}", "0", "1", "7", "8", "9", "a", "n", "\n", "\r", "\u{2028}", "b", "\u{e9}", "`", "/", "F"];
    for quote in ["'", "\""] {
        c.lockstep("string characters", Script, &format!("x={}", quote), &al, "", &format!("{};", quote), d);
        c.lockstep("after a backslash", Script, &format!("x={}\\", quote), &al, "", quote, d);
        c.lockstep("hexadecimal escapes", Script, &format!("x={}\\x", quote), &["0", "1", "a", "F", "g", "\\", "x"], "", quote, d + 1);
        c.lockstep("unicode escapes", Script, &format!("x={}\\u", quote), &["{", "}", "0", "6", "a", "F", "g", "\\"], "", quote, d + 2);
        c.lockstep("braced escapes", Script, &format!("x={}\\u{{", quote), &["0", "1", "6", "f", "}", "g"], "", quote, d + 3);
        c.lockstep("octal escapes", Script, &format!("x={}\\", quote), &["0", "1", "3", "4", "7", "8", "9", "a", "\\"], "", quote, d + 1);
        c.lockstep("line continuations", Script, &format!("x={}", quote), &["\\", "\n", "\r", "\u{2028}", "\u{2029}", "a", "n"], "", quote, d + 2);
    }
    // every code point raw, after a backslash, and as an escape
    c.code_points("string code points", Script, move |ch| {
        let x = ch as u32;
        let mut v = vec![format!("x='{}'", ch), format!("x='a\\{}b'", ch), format!("x='\\u{{{:x}}}'", x)];
        if x <= 0xffff {
            v.push(format!("x=\"a\\u{:04X}b\"", x));
        }
        if !q {
            v.extend([format!("x=\"{}\"", ch), format!("x=\"\\{}\"", ch), format!("x='a{}b'", ch), format!("'{}'", ch), format!("x='\\u{{00{:X}}}1'", x), format!("x={{'{}':1}}", ch), format!("x='\\x41{}\\n'", ch)]);
        }
        v
    });
    // surrogate pairs written as two escapes
    c.by_index("surrogate pairs", Script, 0x400, |h| {
        let mut v = vec![];
        for l in (0..0x400).step_by(if q { 31 } else { 1 }) {
            v.push(format!("x='\\u{:04x}\\u{:04x}'", 0xd800 + h, 0xdc00 + l));
            if h % 16 == 0 {
                v.push(format!("x='a\\u{{{:x}}}\\u{{{:X}}}b'", 0xd800 + h, 0xdc00 + l));
            }
        }
        v
    });
    c.lockstep("surrogate escapes", Script, "x='", &strs(&surrogates()), "", "'", c.pick(3, 4));
    c.lockstep("surrogate escapes", Module, "import \"", &strs(&surrogates()), "", "\"", 2);
    let mut v = vec![];
    for x in 0..256 {
        for suf in ["", "0", "a", "\\x41"] {
            v.push(format!("x='\\x{:02x}{}'", x, suf));
            v.push(format!("x=\"{}\\x{:02X}\"", suf, x));
        }
    }
    for x in 0..0o1000 {
        for s in [format!("{:o}", x), format!("{:02o}", x), format!("{:03o}", x), format!("{:04o}", x)] {
            for suf in ["", "0", "7", "8", "9", "a", "\\1", "\n"] {
                v.push(format!("x='\\{}{}'", s, suf));
                v.push(format!("x='a\\{}{}b'", s, suf));
            }
        }
    }
    for e in ["0", "41", "10ffff", "110000", "1F600", "ffffff", "7fffffff", "80000000", "ffffffff", "100000000", "100000041", "ffffffffffffffff", "10000000000000041", "", "g", "41g", " 41", "41 ", "+41", "-41", "d83d}\\u{de00"] {
        for z in [0, 1, 2, 6, 8, 20, 70, 300] {
            v.push(format!("x='\\u{{{}{}}}'", rep("0", z), e));
        }
    }
    for goal in [Script, Module] {
        c.all("escape values", goal, &v);
    }
    // strings everywhere they may stand
    let pieces = ["", "a", "\\n", "\\'", "\\\"", "\\\\", "\\\n", "\\\r\n", "\\\u{2028}", "\\0", "\\x41", "\\u0041", "\\u{1F600}", "\\q", "\u{2028}", "//", "/*", "`", "${a}", "use strict", "\\b\\f\\v\\t\\r", "\\u", "\\x4", "\n", "\\08", "\t", "\u{1f600}", "\u{0}"];
    let two: Vec<String> = pieces.iter().flat_map(|a| pieces.iter().map(move |b| format!("{}{}", a, b))).collect();
    let two = strs(&two);
    let pos = ["@;", "a=@;", "f(@,@)", "[@]", "({@:1})", "({@(){}})", "class A{@(){}}", "a[@]", "@+@", "@\n@", "`${@}`", "function f(){@}", "()=>{@;a}", "switch(@){case @:}", "var {@:a}=b", "import @", "import a from @", "export * from @", "export {a} from @", "@.a", "a?@:@", "x={get @(){}}", "throw @", "return_(@)"];
    for goal in [Script, Module] {
        c.by_index("strings in every position", goal, two.len(), |i| {
            let mut out = vec![];
            for p in pos {
                out.push(p.replace('@', &format!("'{}'", two[i])));
                out.push(p.replace('@', &format!("\"{}\"", two[i])));
            }
            out
        });
    }
    c.grid("three pieces", Script, &[&["x='", "x=\""], &pieces, &pieces, &pieces, &["'", "\"", "", "\n'"]]);
    size(c, "long strings", Script, 70000, |n| {
        vec![
            format!("x='{}'", rep("a", n)),
            format!("x=\"{}'\"", rep("\u{1f600}", n)),
            format!("x='{}", rep("a", n)),
            format!("x='{}\n'", rep("a", n)),
        ]
    });
    size(c, "long escape strings", Script, 3000, |n| {
        vec![
            format!("x='{}'", rep("\\n", n)),
            format!("x='{}'", rep("\\\n", n)),
            format!("x='{}b'", rep("\\u{41}", n)),
            format!("x='{}b'", rep("\\x41a", n)),
            format!("x='{}'", rep("\\'", n)),
            format!("x='{}\\'", rep("\\\\", n)),
            format!("x='{}7'", rep("\\101", n)),
        ]
    });
    let it: Vec<String> = pieces.iter().chain(&["\\08", "\\8", "\\1", "\\377", "\\400", "\\u{41}", "\\u{d800}", "\\ud83d\\ude00", "\u{1f600}", "\\x4g", "\r", "\\\r"]).flat_map(|p| vec![format!("'{}'", p), format!("\"{}\"", p), format!("'{}'+'{}'", p, p), format!("'a{}b'", p)]).collect();
    around(c, "strings in every surrounding", &[Script, Module], around_expr(), &it);
    around(c, "strings in every surrounding of statements", &[Script, Module], around_stmt(), &it);
}

// ------------------------------------------------------------------------------------------------ C05
pub fn c05(c: &mut Ctx) {
    let d = c.pick(4, 5);
    let al = ["0", "1", "7", "8", "9", ".", "e", "E", "+", "-", "x", "X", "o", "O", "b", "B", "a", "f", "g", "n", "_"];
    c.lockstep("number characters", Script, "x=", &al, "", "", d);
    c.lockstep("number characters before a member", Script, "x=", &al, "", ".a", d - 1);
    c.lockstep("number characters before an operator", Script, "x=[", &al, "", "/2]", d - 1);
    for al in [
        &["0", "1", "9", ".", "e", "+", "-"][..],
        &["0", "7", "8", ".", "e"],
        &["1", "5", ".", "e", "E"],
        &["0", "x", "1", "f", "A", "."],
        &["0", "b", "1", "2", "."],
        &["0", "o", "O", "7", "8"],
        &["0", ".", "a", "e", "5"],
    ] {
        c.lockstep("number characters", Script, "x=", al, "", ";", d + 3);
    }
    c.lockstep("number characters", Module, "x=", &["0", "1", "9", ".", "e", "+", "x", "7"], "", ";", d + 1);
    // mantissa x exponent
    let mant = ["0", "1", "2", "9", "10", "12", "123456789", "9007199254740991", "9007199254740992", "9007199254740993", "9007199254740995", "18446744073709551615", "18446744073709551616", "18446744073709551617", "4294967295", "4294967296", "2147483648", "1.7976931348623157", "1.7976931348623158", "1.7976931348623159", "4.9", "2.4703282292062327", "2.4703282292062328", "2.2250738585072014", "2.2250738585072011", "0.1", ".1", "1.", "0.30000000000000004", "5e", "1.e", "0.", "0.5", "00000", "3.141592653589793238462643383279502884197169399375105820974944592307816406286"];
    let mut exps: Vec<String> = vec!["".into(), ";".into(), "e".into(), "e+".into(), "e-".into()];
    for x in (0..=25).chain([100, 250, 290, 291, 292, 300, 306, 307, 308, 309, 310, 322, 323, 324, 325, 326, 340, 400, 999, 1000, 4294967296, 18446744073709551616u128, 99999999999999999999999]) {
        for s in ["e", "E+", "e-", "e+0", "E-00"] {
            exps.push(format!("{}{}", s, x));
        }
    }
    let exps = strs(&exps);
    c.grid("mantissa and exponent", Script, &[&["x=", "x=-", "a+", "x={", "["], &mant, &exps, &["", ":1}", "]"]]);
    // digit strings of every length, in every radix
    let max = c.pick(1200, 5000);
    let ds: Vec<(&str, &str)> = vec![("", "1"), ("", "9"), ("", "5"), ("0x", "f"), ("0x", "8"), ("0X", "1"), ("0x", "0"), ("0b", "1"), ("0B", "0"), ("0o", "7"), ("0O", "1"), ("0", "7"), ("0", "1"), ("0", "0"), ("0", "9"), ("0.", "1"), ("0.", "0"), (".", "9"), ("1.", "0"), ("1e", "0"), ("1e-", "0"), ("1", "0")];
    c.by_index("digit strings of every length", Script, max, |n| {
        let mut v = vec![];
        for (p, g) in &ds {
            for suf in ["", "1", "8"] {
                v.push(format!("x={}{}{};", p, rep(g, n + 1), suf));
            }
            v.push(format!("x={}1{}1", p, rep(g, n)));
        }
        v
    });
    c.by_index("what follows digit strings of every length", Script, c.pick(140, 1200), |n| {
        let mut v = vec![];
        for (p, g) in &ds {
            for suf in [".", ".5", ".a", ".5.a", "..a", "e1", "e", "e+", ".e1", "n", "_", "_1", "a", "g", "\\u0061", "/a/g", "+.1", ".8e-2", "E9", "$", "\u{e9}", "\u{660}", "'a'", "in b", "x1", "\n.5", "\n1", " .5"] {
                v.push(format!("x={}{}{};", p, rep(g, n + 1), suf));
                if n < 30 {
                    v.push(format!("x=[{}{}{}]", p, rep(g, n + 1), suf));
                    v.push(format!("x=`${{{}{}{}}}`", p, rep(g, n + 1), suf));
                    v.push(format!("'use strict';{}{}{}", p, rep(g, n + 1), suf));
                    v.push(format!("a\n{}{}{}", p, rep(g, n + 1), suf));
                }
            }
        }
        v
    });
    // all boundaries of doubles in radix literals: 53 bits then a rounding tail
    let mut v = vec![];
    for bits in 50..=70u32 {
        for delta in -4i128..=4 {
            let base = (1i128 << bits) + delta;
            v.push(format!("x={}", base));
            v.push(format!("x=0x{:x}", base));
            v.push(format!("x=0X{:X}", base));
            v.push(format!("x=0b{:b}", base));
            v.push(format!("x=0o{:o}", base));
            v.push(format!("x=0{:o}", base));
            v.push(format!("x={}.5", base));
            v.push(format!("x={}e1", base));
        }
        for tail in 0..16u32 {
            for pad in [0usize, 1, 3, 30, 200] {
                let base = ((1u128 << 53) + (1 + tail as u128)) << (bits - 50);
                v.push(format!("x=0b{:b}{}1", base, rep("0", pad)));
                v.push(format!("x=0x{:x}{}1", base, rep("0", pad)));
                v.push(format!("x=0o{:o}{}1", base, rep("0", pad)));
                v.push(format!("x=0{:o}{}1", base, rep("0", pad)));
            }
        }
    }
    // overflow boundary: 2^1024 and just below
    for (f, p) in [("f", 255usize), ("f", 256), ("f", 257)] {
        v.push(format!("x=0x{}", rep(f, p)));
        v.push(format!("x=0xfffffffffffff8{}", rep("0", p - 14)));
        v.push(format!("x=0xfffffffffffffc{}", rep("0", p - 14)));
        v.push(format!("x=0xfffffffffffffb{}", rep("f", p - 14)));
    }
    for n in 300..=312 {
        for lead in ["1", "17976931348623157", "17976931348623158", "179769313486231580793", "179769313486231570814", "9"] {
            if n > lead.len() {
                v.push(format!("x={}{}", lead, rep("0", n - lead.len())));
                v.push(format!("x={}{}", lead, rep("9", n - lead.len())));
            }
        }
    }
    for n in 300..=330 {
        for m in ["1", "5", "49", "24703282292062327208", "24703282292062328", "22250738585072014", "222507385850720113605740979670913197593481954635164564"] {
            v.push(format!("x=0.{}{}", rep("0", n - 1), m));
            v.push(format!("x=.{}{}e5", rep("0", n - 1), m));
        }
    }
    for i in 0..2000u32 {
        v.push(format!("x={}", i));
        v.push(format!("x=0x{:x}", i));
        v.push(format!("x=0b{:b}", i));
        v.push(format!("x=0o{:o}", i));
        v.push(format!("x=0{}", i));
        v.push(format!("x=0.{}", i));
        v.push(format!("x=.{}", i));
        v.push(format!("x={}.", i));
        v.push(format!("x={}.{}", i, i * 7919 % 1000));
        v.push(format!("x=00{}", i));
        v.push(format!("x=0{}.{}", i, i));
    }
    for goal in [Script, Module] {
        c.all("boundary values", goal, &v);
    }
    // what follows a number
    let nums = ["0", "1", "00", "07", "08", "09", "010", "018", "1.", "1.5", ".5", "0.5", "1e5", "1E-5", "1.e5", "0x1", "0xF", "0b1", "0o7", "08.5", "07.5", "09e1", "07e1", "1_0", "0x", "0b", "0o", "0b2", "0o8", "0xg", "1e", "1e+", "0e0", "0_1", "1n", "0x1n"];
    let mut after: Vec<String> = ["", " ", "\n", "a", "in b", "instanceof b", "of", "$", "_", "\\u0061", "\\u{61}", "\u{e9}", "\u{200c}", "0", "1", "9", ".", "..", "...", ".a", "..a", " .a", ".1", ".e1", "e", "e1", "x", "x1", "b1", "o1", "'s'", "`t`", "/2", "/2/g", "(a)", "[a]", "{}", "+1", "++", "--", "?a:b", ":a", ",1", ";", ")", "]", "}", "=>a", "=1", "+=1", "**2", "if", "n", "_1", "/**/a", "/**/1", "\u{2028}a", "#", "@", "\\"].iter().map(|s| s.to_string()).collect();
    after.extend((0u32..0x300).filter_map(char::from_u32).map(|x| x.to_string()));
    let after = strs(&after);
    let pre = ["", "x=", "-", "a+", "x={", "[", "(", "a.", "'use strict';", "x={a:", "f(", "`${", "a?", "case_", "a ", "a\n", "new ", "typeof ", "class A{"];
    c.grid2("what follows a number", &[&pre, &nums, &after]);
    c.grid("number and next twice", Script, &[&["x="], &nums, &["", " ", "+", ".", "..", ","], &nums, &["", ";"]]);
    let q = c.quick();
    c.code_points("character after a number", Script, move |ch| {
        let mut v = vec![format!("1{}", ch), format!("x=0x1{}", ch)];
        if !q {
            v.extend([format!("1.{}", ch), format!("1.5{}", ch), format!("1e5{}", ch), format!("0b1{}", ch), format!("0o1{}", ch), format!("01{}", ch), format!("09{}", ch), format!("0{}", ch), format!(".5{}", ch), format!("1e{}", ch), format!("0x{}", ch), format!("0b{}", ch)]);
        }
        v
    });
    let nn = ["2", "10", "255", "1.25", "0.1", "1e21", "1e400", "5e-324", "9007199254740993", "0x1F", "0XaB", "0b101", "0B1", "0o17", "0O7", "017", "0777", "089", "00", "1.", ".5", "1.e3", "08.5", "1E+2"];
    let it: Vec<String> = nums.iter().chain(&nn).flat_map(|n| ["@", "@+@", "-@", "@.a", "@ .a", "@..a", "{@:1}", "[@,@]", "@;@", "@a", "@/2", "@\n.5", "@in a"].map(|p| p.replace('@', n))).collect();
    around(c, "numbers in every surrounding", &[Script, Module], around_expr(), &it);
    around(c, "numbers in every surrounding of statements", &[Script, Module], around_stmt(), &it);
}

// ------------------------------------------------------------------------------------------------ C06
pub fn c06(c: &mut Ctx) {
    let b = braced();
    c.by_index("braced escapes of every length", Script, b.len(), |i| ["`@`", "x=`a@b`", "`${a}@`", "`@${a}@`", "`${`@`}`", "`\\ud83d@`"].iter().map(|x| x.replace('@', &b[i])).collect());
    let d = c.pick(5, 6);
    for (pre, suf) in [("x=`", "`"), ("f`", "`;"), ("x=`a${b}", "`"), ("x=`a${", "}c`"), ("(`", "`)")] {
        c.lockstep("template characters", Script, pre, &["`", "$", "{", "}", "\\", "a", "\n", "\r", "u", "'"], "", suf, d);
    }
    for (pre, suf) in [("x=`", "`"), ("f`", "`"), ("x=`${a}", "${b}`")] {
        c.lockstep("template escapes", Script, pre, &["\\", "u", "x", "{", "}", "0", "1", "6", "8", "g"], "", suf, d);
        c.lockstep("template breaks", Script, pre, &["\\", "\n", "\r", "\u{2028}", "\u{2029}", "a", "$", "{"], "", suf, d);
        c.lockstep("template dollars", Script, pre, &["$", "{", "}", "a", "`", " "], "", suf, d + 2);
        c.lockstep("template escape digits", Script, &format!("{}\\", pre), &["u", "x", "{", "}", "0", "4", "f", "\\"], "", suf, d);
    }
    for (pre, suf, d) in [("x=`", "`", c.pick(3, 4)), ("f`", "`", 2), ("x=`${a}", "${b}`", 2)] {
        c.lockstep("surrogate escapes", Script, pre, &strs(&surrogates()), "", suf, d);
    }
    // nesting as tokens
    c.lockstep("template nesting", Script, "", &["`", "${", "}", "{", "a", "(", ")", ":", ";"], "", "", d + 1);
    c.lockstep("template nesting in an object", Script, "x={", &["`", "${", "}", "{", "a", ":", ",", "=>", "\n"], "", "}", d);
    c.lockstep("substitution contents", Script, "x=`s${", &["`", "${", "}", "{", "a", "'}'", "/}/", "//}\n", "/*}*/", "\"`\"", "+", ","], "", "}t`", c.pick(4, 6));
    c.lockstep("function in a substitution", Script, "x=`${function(){", &["`", "${", "}", "{", "a", "'}'", ";", "/"], "", "}}t`", d);
    c.lockstep("template tokens", Script, "", &["`a`", "`a${", "}b${", "}c`", "{", "}", "a", "(", ")", "+", "=>"], " ", "", d);
    c.lockstep("template tokens", Module, "x =", &["`a`", "`a${", "}b${", "}c`", "{", "}", "a", ":", "function(){", "class{"], " ", "", d);
    // contents x nesting
    let ctx = ["`@`", "`a${@}`", "`${@}b`", "`${@}${@}`", "{a:@}", "[@]", "(@)", "function(){@}", "function(){return @}", "()=>{@}", "()=>@", "f(@)", "{[@]:1}", "{m(){@}}", "class{m(){@}}", "t`@`", "t`${@}`", "a+@", "@.a", "@/b", "a?@:b", "{...@}", "{get a(){return @}}", "class extends @{}", "@`x`", "new @", "async()=>{@}", "function*(){yield @}"];
    let leaf = ["", "a", "{}", "}", "{", "`", "${", "'}'", "'`'", "/}/", "/`/", "//}\n", "/*}*/", "/*`*/", "\"${\"", "`}`", "`{`", "\\`", "\\${", "$", "$$", "$\\{", "\\", "\n", "a;b", "if(a){}", "{a}", "{}{}", "{};{}"];
    c.nest("template nesting", Script, &ctx, 1, c.pick(3, 3), &leaf);
    let wrap: Vec<String> = ctx.iter().map(|x| format!("x={}", x)).collect();
    c.by_index("nesting as an expression", Script, ctx.len() * ctx.len() * ctx.len(), |i| {
        let k = ctx.len();
        let t = wrap[i % k].replace('@', &ctx[i / k % k].replace('@', ctx[i / k / k]));
        leaf.iter().map(|l| t.replace('@', l)).collect()
    });
    if !c.quick() {
        c.by_index("nesting as an expression, deeper", Script, ctx.len().pow(4), |i| {
            let k = ctx.len();
            let t = wrap[i % k].replace('@', &ctx[i / k % k].replace('@', &ctx[i / k / k % k].replace('@', ctx[i / k / k / k])));
            leaf.iter().map(|l| t.replace('@', l)).collect()
        });
    }
    let q = c.quick();
    c.code_points("template code points", Script, move |ch| {
        let x = ch as u32;
        let mut v = vec![format!("x=`{}`", ch), format!("x=`a\\{}b`", ch), format!("f`\\u{{{:x}}}${{a}}{}`", x, ch)];
        if !q {
            v.extend([format!("x=`${{a}}{}${{b}}`", ch), format!("x=`\\u{{{:x}}}`", x), format!("f`\\{}`", ch), format!("`${}`", ch)]);
        }
        v
    });
    // pieces
    let pieces = ["", "a", "$", "$a", "{", "}", "\\n", "\\`", "\\$", "\\{", "${a}", "${`b`}", "${{}}", "\n", "\r", "\r\n", "\\\n", "\\\r\n", "\u{2028}", "\\\u{2028}", "\\0", "\\01", "\\1", "\\8", "\\x41", "\\x4", "\\u0041", "\\u{41}", "\\u{}", "\\u", "\\u{110000}", "'", "\"", "//", "/*", "\u{1f600}", "\\q", "${a}${b}", "${", "`", "\t", "\\\\"];
    c.grid("template pieces", Script, &[&["x=`", "f`", "a\n`", "x={a:`", "`${1}"], &pieces, &pieces, &pieces, &["`", "`}", "", "`/1", "`\n`"]]);
    c.grid("template pieces", Module, &[&["x=`", "f`"], &pieces, &pieces, &["`", ""]]);
    // unterminated
    for goal in [Script, Module] {
        let base = ["x=`abc`", "x=`a${b}c${d}e`", "f`a${`b${c}d`}e`", "x=`\\u{41}\\x41\\n${{a:1}}`", "x=`\n${a}\r\n`", "`${function(){return `${{}}`}}`", "`${a=>{`${b}`}}`"];
        let mut v = vec![];
        for b in base {
            let ch: Vec<char> = b.chars().collect();
            for i in 0..=ch.len() {
                let s: String = ch[..i].iter().collect();
                v.push(s.clone());
                for t in ["`", "}", "}`", "\\", "${", "\n", "}}`", "\\`", "$"] {
                    v.push(format!("{}{}", s, t));
                    v.push(format!("{}{}{}", s, t, ch[i..].iter().collect::<String>()));
                }
            }
        }
        c.all("cut and edited templates", goal, &v);
    }
    size(c, "long templates", Script, 70000, |n| vec![format!("x=`{}`", rep("a", n)), format!("x=`{}", rep("a", n)), format!("x=`{}`", rep("$", n)), format!("x=`{}`", rep("\r\n", n))]);
    size(c, "many substitutions", Script, c.pick(1100, 5000), |n| vec![format!("x=`{}`", rep("${a}", n)), format!("x=`{}`", rep("b${a}", n)), format!("x=`{}`;y=`${{{{}}}}`", rep("${{}}", n)), format!("{}", rep("`${a}`;", n)), format!("x=`{}", rep("${a}", n)), format!("{}`${{a}}`", rep("{}", n))]);
    size(c, "deep templates", Script, 40, |n| vec![format!("x={}a{}", rep("`${", n), rep("}`", n)), format!("x={}a{}", rep("`b${{c:", n), rep("}}d`", n)), format!("x={}a{}", rep("`${", n), rep("}`", n + 1)), format!("x={}a{}", rep("`${", n + 1), rep("}`", n))]);
    let it: Vec<String> = pieces.iter().flat_map(|p| ["`@`", "`@${a}`", "`${a}@`", "`${@}`", "t`@`", "t`@${a}@`", "`a${b}@${c}d`", "`${{@}}`", "`${{a:@}}`", "`${{a:{@}}}`", "`${{@}}${{@}}`", "`${`@`}@`"].map(|f| f.replace('@', p))).collect();
    around(c, "templates in every surrounding", &[Script], around_expr(), &it);
    around(c, "templates in every surrounding of statements", &[Script], around_stmt(), &it);
    // words that are read ahead of, where a brace or backtick follows, at every depth of braces and templates
    let look = ["get", "set", "async", "static", "let", "yield", "await", "of", "new", "import", "export", "a=>", "()", "(a)", "async()", "async a", "get a(){}", "async*a(){}", "a:", "for(", "for(let", "x=", "let\n", "async\n", "a\n", "function", "class", "a?.5:b", "yield\n", "return", "break", "continue", "new.target", "...", "/a/", "[", "a,", "=>", "+", "++", "a++"];
    let opens = ["{", "${", "`${", "`a${", "(", "[", "{a:", "({a:", "[{", "function(){", "()=>{", "{m(){", "class{m(){", "{get a(){", "async()=>{", "a=>{", "f({", "{a,b:", "{[", "{a:`${", "x=>", "}"];
    let fol = ["", "{", "`", "`${", "${", "{}", "`a`", "`a${b}`", "}", "/a/", "(", "a", "{a}", "`}`", "'}'"];
    let shut = |o: &str| -> String { o.chars().rev().filter_map(|x| match x { '{' => Some('}'), '(' => Some(')'), '[' => Some(']'), '`' => Some('`'), _ => None }).collect::<String>().replace("()", "").replace(")(", "") };
    let no = opens.len();
    let close = |o: &str| -> String {
        // brackets still open at the end of the piece, closed in order
        let mut st: Vec<char> = vec![];
        for x in o.chars() {
            match x {
                '{' => st.push('}'),
                '(' => st.push(')'),
                '[' => st.push(']'),
                '`' if st.last() != Some(&'`') => st.push('`'),
                '`' | ')' | ']' | '}' => {
                    st.pop();
                }
                _ => (),
            }
        }
        let mut s: String = st.into_iter().rev().collect();
        if o.contains("{[") {
            s = s.replace(']', "]:1");
        }
        s
    };
    let _ = shut;
    let dmax = c.pick(3u32, 4);
    for d in 1..=dmax {
        c.by_index(&format!("words read ahead of, under {} openings", d), Script, no.pow(d), |mut i| {
            let (mut l, mut r) = (String::from("x="), String::new());
            for _ in 0..d {
                l.push_str(opens[i % no]);
                r = format!("{}{}", close(opens[i % no]), r);
                i /= no;
            }
            let mut v = vec![];
            for w in if d >= 3 { &look[..c.pick(12, 39)] } else { &look[..] } {
                for f in if d >= 3 { &fol[..5] } else { &fol[..] } {
                    v.push(format!("{}{}{}{}", l, w, f, r));
                }
            }
            v
        });
    }
    let it: Vec<String> = look.iter().flat_map(|w| fol.iter().map(move |f| format!("{}{}", w, f))).collect();
    let mut deep: Vec<String> = vec![];
    for k in 1..=c.pick(7, 12) {
        for (o, e) in [("{a:", "}"), ("`${", "}`"), ("`${{a:", "}}`"), ("{m(){", "}}"), ("`${{m(){", "}}}`"), ("()=>{", "}"), ("[", "]"), ("{a:`${", "}`}"), ("`${()=>{", "}}`"), ("`a${", "}b${c}`")] {
            deep.push(format!("x={}@{}", o.repeat(k), e.repeat(k)));
            deep.push(format!("x={}{{@}}{}", o.repeat(k), e.repeat(k)));
            deep.push(format!("x=`${{{}@{}}}`", o.repeat(k), e.repeat(k)));
        }
    }
    around(c, "words read ahead of, deep", &[Script], deep, &it);
}

// ------------------------------------------------------------------------------------------------ C07
pub fn c07(c: &mut Ctx) {
    // what stands before the slash
    let before = [
        "", ";", "a", "a;", "1", "'s'", "`t`", "`${a}`", "/r/", "/r/g", "this", "null", "true", "false", "super.a", "a.b", "a.if", "a.return", "a[b]", "a()", "(a)", "[]", "[a]", "x={}", "x={a}", "({})", "{}", "{a}", "a++", "a--", "++a", "-a", "!", "~", "+", "-", "a+", "a*", "a/b", "a=", "a+=", "a/=", "a==", "a&&", "a?", "a?b:", "a,", "(", "[", "[a,", "f(", "f(a,", "{", "x={a:", "x=[", "`${", "typeof", "void", "delete", "new", "new a", "new a()", "return", "throw", "throw a", "case", "do", "else", "in", "a in", "a instanceof", "instanceof", "if(a)", "while(a)", "for(;;)", "for(a in b)", "for(a of b)", "for(a of", "for(a in", "for(;", "for(;;", "with(a)", "if(a)b;else", "do a;while(b)", "function f(){}", "(function(){})", "x=function(){}", "x=function f(){}", "class A{}", "x=class{}", "(class{})", "x=class A{}", "()=>{}", "x=()=>{}", "x=()=>a", "x=a=>", "()=>", "async()=>{}", "x=async()=>{}", "async function f(){}", "x=async function(){}", "function*g(){}", "x=function*(){}", "yield", "await", "let", "async", "of", "static", "get", "a:", "a:{}", "switch(a){}", "switch(a){case b:", "switch(a){default:", "try{}finally{}", "try{}catch{}", "if(a){}", "if(a){}else{}", "while(a){}", "var a", "var a=", "let a", "let a=", "const a=", "var [a]=", "var {a}=b", "debugger", "break", "for(;;)break", "for(;;)continue", "a=>{}", "a\n", "a++\n", ")", "]", "}", "=>", "x={get a(){}}", "x={a(){}}", "x={a(){}}.b", "new.target", "function f(){new.target}", "function f(){return", "function f(){return a", "function*g(){yield", "function*g(){yield*", "function*g(){yield a", "async function g(){await", "async function g(){await a", "class A extends", "class A extends B", "export default", "export default a", "export default function(){}", "export default class{}", "export {}", "import 'a'", "import a from 'b'", "export {a}\n", "import {a} from 'b'\n", "export * from 'a'\n", "`t`\n", "a[", "a?.5:", "a=b\n", "x={}\n", "x=[]\n", "x=(a)\n", "'use strict'", "'use strict'\n", "a/*\n*/", "a//\n", "{}\n", "yield:", "of:", "a=yield", "a=await", "a=let", "a=of", "a=async", "a=get", "(a)=>a", "(a,b)", "(a)=>(b)", "[...", "f(...", "x={...", "function f(a=", "(a=", "x={[", "x={a=", "[a=", "({a=",
    ];
    let slash = ["/", "/b/", "/b/g", "/ b /g", "/=b/", "/=b/g", "/=1/2", "/[/]/", "/\\//", "//", "/b/\n/c/", "/b/.c", "/b/ /c/", "/*a*/", "/b", "/(/", "/{/", "/)/g", "/b/c/d", "/b/[c]", "/b/(c)", "/b/+/c/", "/b/\n", "/'/", "/`/", "/\"/", "/}/", "/]/", "/b/i/g"];
    let after = ["", ";", "a", "\na", ")", "]", "}", "}`", "g;1/2", "})", ";}", "\n/a/", "(a)", ":1}", ",b)", "){}", "=1)=>a", "{}"];
    let sp = ["", " ", "\n"];
    for goal in [Script, Module] {
        c.grid("slash after every kind of token", goal, &[&before, &sp, &slash, &after]);
    }
    if !c.quick() {
        c.grid("slash after two pieces", Script, &[&before, &["", " ", "\n", ";"], &before, &["", " "], &["/", "/b/g", "/=b/", "//"], &["", "a", ")", "}"]]);
    } else {
        c.grid("slash after two pieces", Script, &[&before, &["", "\n"], &before, &["/b/g", "/"], &["", "a"]]);
    }
    // token strings with slashes
    let d = c.pick(6, 7);
    for al in [
        &["/", "a", "(", ")", "{", "}", "=", "\n", ";"][..],
        &["/", "a", "[", "]", "++", "g", "\n", "+"],
        &["/", "a", "if", "(", ")", "{", "}", "else"],
        &["/", "a", "function", "(", ")", "{", "}", ";"],
        &["/", "a", "class", "{", "}", "(", ")", "=>"],
        &["/", "a", "return", "typeof", "in", "of", "yield", "."],
        &["/", "a", "`", "${", "}", "{", ":"],
        &["/", "=", "a", "1", "(", ")", ",", "?", ":"],
        &["/", "a", "do", "while", "(", ")", ";", "{", "}"],
        &["/", "*", "a", "\n", "=", "(", ")"],
    ] {
        c.lockstep("slash tokens", Script, "", al, " ", "", d);
        c.lockstep("slash tokens, tight", Script, "a", al, "", "", d - 1);
    }
    c.lockstep("slash in a function", Script, "function*g(){", &["/", "a", "yield", "*", "\n", ")", "(", "g"], " ", "}", d);
    c.lockstep("slash in async code", Module, "async function f(){", &["/", "a", "await", "=>", "\n", ")", "(", "async"], " ", "}", d);
    c.lockstep("slash in an object", Script, "x={", &["/", "a", ":", ",", "get", "(", ")", "{", "}"], " ", "}", d);
    c.lockstep("slash in a switch", Script, "switch(a){", &["/", "a", "case", ":", "default", "{", "}", ";", "\n"], " ", "}", d);
    c.lockstep("slash in a for", Script, "for(", &["/", "a", ";", "in", "of", "var", ")", "=", "\n"], " ", ";", d);
    // bodies
    for (pre, suf) in [("x=/", "/"), ("/", "/g"), ("f(/", "/)"), ("x=/[", "]/"), ("a=>/", "/.b")] {
        c.lockstep("regular expression bodies", Script, pre, &["/", "[", "]", "\\", "a", "*", "\n", "(", "g", "\u{2028}"], "", suf, c.pick(5, 6));
        c.lockstep("regular expression classes", Script, pre, &["/", "[", "]", "\\", "a", "\r", "^", "-"], "", suf, c.pick(5, 7));
    }
    c.lockstep("flags", Script, "x=/a/", &["g", "i", "m", "s", "u", "y", "a", "$", "1", "\\u0067", "\\", "\u{e9}", " ", "/", "\n"], "", "", c.pick(4, 5));
    let q = c.quick();
    c.code_points("regular expression code points", Script, move |ch| {
        let mut v = vec![format!("x=/{}/", ch), format!("x=/a\\{}/g", ch), format!("x=/a/{}", ch), format!("x=/[{}]/", ch)];
        if !q {
            v.extend([format!("x=/[\\{}]/", ch), format!("/a{}b/.c", ch), format!("x=/a/g{}", ch), format!("a{}/b/g", ch), format!("a/{}/g", ch)]);
        }
        v
    });
    let ctx = ["(@)", "[@]", "{@}", "x={a:@}", "`${@}`", "f(@)", "a[@]", "function f(){@}", "()=>{@}", "x=@", "if(@)a", "if(a)@", "class A{m(){@}}", "switch(@){case @:@}", "@;@", "@\n@", "a?@:@", "@,@", "@+@", "!@", "@.a", "@++", "return_(@)", "for(@;@;@)@", "while(@)@", "do @\nwhile(@)", "throw @", "var a=@", "@=>@", "typeof @", "{}@", "{a}@"];
    c.nest("slashes in every nesting", Script, &ctx, 1, c.pick(2, 3), &["/a/", "/a/g", "b/a/g", "/a/b/c/d", "{}/a/g", "(a)/b/g", "a++/b/g", "/[/]/", "a/b", "/=/", "a/=b/c", "/a/ / /b/", "a\n/b/g", "[]/a/g", "function(){}/a/g", "function f(){}/a/g", "class{}/a/g", "x={}/a/g", "1/a/g", "/a", "`t`/a/g", "`${/}/}`"]);
    size(c, "long regular expressions", Script, 70000, |n| vec![format!("x=/{}b/g", rep("a", n)), format!("x=/[{}]/", rep("/", n)), format!("x=/{}", rep("a", n)), format!("x=/a/{}", rep("g", n))]);
    size(c, "many slashes", Script, 600, |n| vec![format!("a{}", rep("/b", n)), format!("x=[{}]", rep("/a/g,", n)), format!("{}", rep("/a/g;", n)), format!("{}", rep("{}/a/g\n", n)), format!("{}", rep("a/b/c;", n)), format!("x=/{}/", rep("\\/", n)), format!("x=/{}/", rep("[/]", n))]);
    let it: Vec<String> = before.iter().flat_map(|b| ["/b/g", "/", "/=b/g", "/b/c/d", "\n/b/g"].map(|s| format!("{}{}", b, s))).collect();
    around(c, "slashes in every surrounding", &[Script, Module], around_stmt(), &it);
    around(c, "slashes in every surrounding of expressions", &[Script], around_expr(), &it);
}

// ------------------------------------------------------------------------------------------------ C08
pub fn c08(c: &mut Ctx) {
    let mut menu: Vec<String> = vec!["".into()];
    menu.extend(SPACES.iter().map(|s| s.to_string()));
    menu.extend(BREAKS.iter().map(|s| s.to_string()));
    for s in ["//", "//a", "//*", "///", "// */"] {
        for b in BREAKS {
            menu.push(format!("{}{}", s, b));
        }
    }
    for s in ["", "a", "*", "**", "/", "//", "/*", "'", "`", "${", "\\", "*a", "{", "}", "\u{1f600}"] {
        menu.push(format!("/*{}*/", s));
    }
    for b in BREAKS {
        menu.push(format!("/*{}*/", b));
        menu.push(format!("/*a{}b*/", b));
        menu.push(format!("/**/{}", b));
        menu.push(format!("{}/**/", b));
        menu.push(format!(" {} ", b));
        menu.push(format!("/*a*/ /*{}*/", b));
        menu.push(format!("/*{}*/ /*a*/", b));
        menu.push(format!("/*{}*//*a*/", b));
        menu.push(format!("{}{}", b, b));
        menu.push(format!("/**/ //a{}", b));
    }
    for s in ["//", "/*", "/*a", "/**", "/* /", "/*\n", "/", "<!--", "-->", "#!", "/**/ /", "//\u{85}", "\u{85}", "\u{200b}", "\u{180e}", "/* *\n/", "*/", "/***/", "/*/", "/*/*/", "\t\u{b}\u{c}\u{20}\u{a0}\u{feff}", "   ", "\n\n\n", "/**//**/", "/*a*//*b*/"] {
        menu.push(s.into());
    }
    let gaps = |c: &Ctx, name: &str, goal: Goal, progs: Vec<&'static str>, menu: &[String]| {
        let ps: Vec<(Vec<&str>, usize)> = progs.iter().flat_map(|p| {
            let t: Vec<&str> = p.split(' ').filter(|x| !x.is_empty()).collect();
            (0..=t.len()).map(move |g| (t.clone(), g)).collect::<Vec<_>>()
        }).collect();
        c.by_index(name, goal, ps.len(), |i| {
            let (t, g) = &ps[i];
            let l = t[..*g].join(" ");
            let r = t[*g..].join(" ");
            menu.iter().map(|m| format!("{}{}{}", l, m, r)).collect()
        });
    };
    gaps(c, "trivia in every gap", Script, all_script(), &menu);
    gaps(c, "trivia in every gap", Module, all_module(), &menu);
    let ex: Vec<&'static str> = EXPRS.to_vec();
    gaps(c, "trivia in every gap of expressions", Script, ex, &menu);
    // same trivia in all gaps at once
    for (goal, progs) in [(Script, all_script()), (Module, all_module())] {
        c.by_index("same trivia in all gaps", goal, progs.len(), |i| menu.iter().map(|m| progs[i].split(' ').filter(|x| !x.is_empty()).collect::<Vec<_>>().join(m)).collect());
    }
    // metamorphic: trivia without line terminators never changes the answer of a program that separates its tokens by spaces
    {
        let quiet: Vec<String> = SPACES.iter().map(|s| s.to_string()).chain(["/**/".to_string(), " /*a*/ ".into(), "/***/".into(), "/* // */".into(), "/*'*/".into()]).collect();
        for (goal, progs) in [(Script, all_script()), (Module, all_module())] {
            c.par(progs.len(), |i| {
                let t: Vec<&str> = progs[i].split(' ').filter(|x| !x.is_empty()).collect();
                let base = crate::sut::run(&t.join(" "), goal);
                for g in 0..=t.len() {
                    if t[..g].iter().map(|x| x.matches('\'').count()).sum::<usize>() % 2 == 1 {
                        continue; // inside 'use strict'
                    }
                    if g > 0 && t[g - 1].ends_with('/') {
                        continue; // would join a comment
                    }
                    for m in &quiet {
                        let s = format!("{}{}{}", t[..g].join(" "), m, t[g..].join(" "));
                        let o = crate::sut::run(&s, goal);
                        c.extra_checks.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        let same = match (&base, &o) {
                            (crate::sut::Obs::Ok(a), crate::sut::Obs::Ok(b)) => a == b,
                            (crate::sut::Obs::Err { .. }, crate::sut::Obs::Err { .. }) => true,
                            _ => false,
                        };
                        if !same {
                            c.violation(&s, goal, format!("trivia changed the answer: {} became {}", cut(&base.short(), 300), cut(&o.short(), 300)));
                        }
                    }
                }
            });
        }
        c.bound("every gap of every program: quiet trivia against a single space, answers compared");
    }
    // pairs of trivia in one gap
    let pairs: Vec<String> = {
        let small: &'static [&'static str] = &["", " ", "\n", "\r", "\u{2028}", "//a\n", "/*a*/", "/*\n*/", "/**/", "/*\r*/", "//\r", "\t", "\u{feff}", "/*", "//"];
        small.iter().flat_map(move |a| small.iter().flat_map(move |b| small.iter().map(move |d| format!("{}{}{}", a, b, d)))).collect()
    };
    let pr = strs(&pairs);
    let lr: Vec<(&str, &str)> = vec![("a", "b"), ("a", "=b"), ("a", "++b"), ("a", "++"), ("a=", "b"), ("return_", "b"), ("", "a"), ("a;", ""), ("a", "(b)"), ("a", "/b/g"), ("a=", "/b/g"), ("function f(){return", "b}"), ("for(;;){break", "a}"), ("throw", "a"), ("(a)", "=>b"), ("a", "=>b"), ("async", "a=>b"), ("async", "function f(){}"), ("do;while(0)", "a"), ("{}", "a"), ("var a", "b"), ("'s'", "b"), ("1", "b"), ("`t`", "b"), ("/r/", "b"), ("function*g(){yield", "a}"), ("function*g(){yield", "*a}"), ("let", "a"), ("let", "[a]=b"), ("if(a)b", "else c"), ("x={get", "a(){}}"), ("x={async", "a(){}}"), ("class A{static", "a(){}}"), ("new", "a"), ("a.", "b"), ("a", ".b"), ("1", ".a"), ("x=`${", "a}`"), ("x=`${a", "}`"), ("a", "`t`"), ("typeof", "a"), ("a", "in b"), ("'use strict'", "with(a)b"), ("'use strict'", ";with(a)b"), ("a+", "+b"), ("a-", "-b"), ("a", "--b"), ("a", "/b"), ("a/", "/b/"), ("continue_", "a"), ("debugger", "a"), ("a:", "b"), ("switch(a){case b", ":c}"), ("function f(", "){}"), ("import", "'a'"), ("import a", "from 'b'"), ("export", "{}"), ("export default", "a"), ("async(a)", "=>b"), ("async", "(a)=>b"), ("async", "a")];
    for goal in [Script, Module] {
        c.by_index("three pieces of trivia in a gap", goal, lr.len(), |i| pr.iter().map(|m| format!("{}{}{}", lr[i].0, m, lr[i].1)).collect());
    }
    // comment syntax character by character
    let d = c.pick(7, 8);
    for (pre, suf) in [("a", "b"), ("a=", "b"), ("", "a"), ("a", ""), ("a/*", "*/b"), ("a//", "\nb"), ("function f(){return", "a}")] {
        c.lockstep("comment characters", Script, pre, &["/", "*", "\n", "a", " ", "\r"], "", suf, d);
    }
    c.lockstep("comment characters", Script, "a", &["/", "*", "\u{2028}", "\u{2029}", "+", "=", "'"], "", "b", d - 1);
    c.lockstep("comment characters in a module", Module, "a", &["/", "*", "\n", "a", "-", ">"], "", "b", d - 1);
    // every code point as trivia and inside comments
    let q = c.quick();
    c.code_points("code points between tokens", Script, move |ch| {
        let mut v = vec![format!("a{}=b", ch), format!("a//{}b", ch), format!("a/*{}*/b", ch)];
        if !q {
            v.extend([format!("{}", ch), format!("a=1{}", ch), format!("var{}a", ch), format!("a{}++b", ch), format!("//{}", ch), format!("/*{}", ch), format!("function f(){{return{}a}}", ch), format!("/*{}*/a", ch), format!("a/*{}*/++b", ch)]);
        }
        v
    });
    size(c, "long trivia", Script, 70000, |n| vec![format!("a{}=b", rep(" ", n)), format!("a/*{}*/=b", rep("*", n)), format!("a//{}\nb", rep("/", n)), format!("a{}b", rep("\n", n)), format!("a/*{}", rep("a", n)), format!("a/*{}*/b", rep("\n", n)), format!("a{}=b", rep("\u{2003}", n))]);
    size(c, "many comments", Script, 3000, |n| vec![format!("a{}=b", rep("/**/", n)), format!("a{}=b", rep("//a\n", n)), format!("a{}b", rep("/*\n*/", n)), format!("{}b", rep("/**/a;", n)), format!("a{}=b", rep("\r\n", n))]);
    let it: Vec<String> = menu.iter().flat_map(|m| ["a@b", "a=@b", "a@++b", "a@(b)", "@a", "a@", "a@=>b", "(a)@=>b", "a@/b/g"].map(|p| p.replace('@', m))).collect();
    around(c, "trivia in every surrounding", &[Script], around_stmt(), &it);
    around(c, "trivia in every surrounding of expressions", &[Script], around_expr(), &it);
}
