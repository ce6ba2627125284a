//! C22: the bindings of giron-wasm, compiled natively against a stand-in for wasm-bindgen.
use super::corpus::*;
use super::lexical::strs;
use crate::engine::*;
use crate::refp::Goal::{self, *};
use crate::sup;
use crate::sut::{self, Obs};
use crate::v::V;
use giron_wasm as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use wasm_bindgen::standin::{exports, json_parse};
use wasm_bindgen::JsValue;

fn js_name(goal: Goal) -> &'static str {
    match goal {
        Script => "parseScript",
        Module => "parseModule",
    }
}

/// what the bindings have to return
fn wanted(text: &str, goal: Goal) -> Result<JsValue, String> {
    sup::enter(text, goal);
    let r = catch_unwind(AssertUnwindSafe(|| match sut::raw(text, goal) {
        Ok(t) => serde_json::to_string(&t).and_then(|s| json_parse(&s)).map(JsValue::Json).map_err(|e| e.to_string()),
        Err(e) => Ok(JsValue::from(format!("{:?}", e))),
    }));
    sup::leave();
    r.unwrap_or_else(|_| Err("panic".into()))
}

fn bound(text: &str, goal: Goal) -> Result<JsValue, String> {
    let f = exports(js_name(goal));
    if f.len() != 1 {
        return Err(format!("{} exports of the name {}", f.len(), js_name(goal)));
    }
    sup::enter(text, goal);
    let r = catch_unwind(AssertUnwindSafe(|| (f[0])(text)));
    sup::leave();
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(v)) => Err(format!("thrown: {:?}", v)),
        Err(_) => Err(format!("panic: {}", sup::last_panic())),
    }
}

fn probe(c: &Ctx, text: &str, goal: Goal) -> Obs {
    let w = wanted(text, goal);
    let b = bound(text, goal);
    match (&w, &b) {
        (Ok(w), Ok(b)) if w == b => (),
        (Ok(w), Ok(b)) => c.violation(text, goal, format!("{} returned {} and not {}", js_name(goal), cut(&format!("{:?}", b), 300), cut(&format!("{:?}", w), 300))),
        (Ok(_), Err(m)) => c.violation(text, goal, format!("{} failed: {}", js_name(goal), cut(m, 300))),
        // the library itself gives no answer: that is C01
        (Err(_), _) => (),
    }
    match w {
        Ok(v) => Obs::Ok(V::Str(format!("{:?}", v))),
        Err(m) => Obs::Ok(V::Str(m)),
    }
}

pub fn c22(c: &mut Ctx) {
    c.crash_only = true;
    c.probe = Some(probe);
    let chars = ["a", "0", "9", ".", "'", "\"", "`", "/", "\\", "{", "}", "(", ")", "[", "]", "=", "-", "*", "<", "!", ",", ";", ":", "?", "\n", "\r", "u", "$", " ", "\u{2028}", "\u{1f600}", "\u{0}", "é"];
    for goal in [Script, Module] {
        c.all("the empty text", goal, &["".to_string()]);
        c.lockstep("character strings", goal, "", &chars, "", "", c.pick(3, 4));
        c.lockstep("token strings", goal, "", TOKENS, " ", "", 2);
        c.lockstep("token role strings", goal, "", ROLES, " ", "", c.pick(3, 4));
        let progs = if goal == Script { all_script() } else { all_module() };
        c.edits("edited programs", goal, &progs, ROLES, 1);
        let ex = exprs_as_stmts();
        c.edits("edited expressions", goal, &strs(&ex), c.pick(&ROLES[..12], ROLES), 1);
        // the two goals disagree on these in the answer, or only in the field that names the goal
        let tell = ["", "with ( a ) b ;", "await = 1 ;", "yield = 1 ;", "x = 010 ;", "'\\1' ;", "delete a ;", "import 'a' ;", "export { } ;", "eval = 1 ;", "let = 1 ;", "static = 1 ;", "a ;", "@", "'", "'use strict' ;", "await a ;", "import ( a )"];
        c.grid("goal-dependent statements in pairs", goal, &[&tell, &tell]);
    }
    // beginnings and endings a wrapper might look at, before and after a text of either goal
    let ends: Vec<String> = {
        let al: Vec<String> = (9u8..127).filter(|b| *b < 14 || *b > 31).map(|b| (b as char).to_string()).chain(["\u{feff}", "\u{2028}", "\u{a0}", "\u{0}", "\u{7f}", "\u{e9}", "\u{1f600}"].map(String::from)).collect();
        let mut v = vec![String::new()];
        for a in &al {
            v.push(a.clone());
            v.extend(al.iter().map(|b| format!("{}{}", a, b)));
        }
        v.extend(["#!/usr/bin/env node\n", "#!", "#! a\n", "<!--", "<!-- a\n", "-->", "\n-->", "// a\n", "/* a */", "'use strict';", "\"use strict\"\n", "'use module';", "/* @flow */", "//# sourceMappingURL=a\n", "/*jslint*/\n", "<script>", "(function(){", "module.exports=", "require('a');", "\u{feff}#!", "\r\n", "export default ", "return ", "'", "/*", "`"].map(String::from));
        v
    };
    let bodies = ["with(a)b", "import 'a'", "await", "a", "export {}", "@", "x=010", ""];
    for goal in [Script, Module] {
        c.by_index("beginnings and endings", goal, ends.len(), |i| {
            let e = &ends[i];
            bodies.iter().flat_map(|b| vec![format!("{}{}", e, b), format!("{}\n{}", e, b), format!("{}{}", b, e), format!("{}\n{}", b, e), format!(" {}{}{}", e, b, e)]).collect()
        });
    }
    // the content of what is handed over: every code point in a string, a template, a regular expression, an error
    for f in [|s: &str| format!("'{}'", s), |s: &str| format!("x=`{}`", s), |s: &str| format!("x=/{}/", s), |s: &str| format!("a {}", s), |s: &str| format!("{}=1", s), |s: &str| format!("x={{'{}':1}}", s)] {
        c.code_points("every code point", Script, move |ch| vec![f(&ch.to_string())]);
    }
    c.code_points("every code point", Module, |ch| vec![format!("'{}'", ch)]);
    // numbers
    let mut nums: Vec<String> = vec![];
    for e in 0..=330 {
        for m in ["1", "9007199254740993", "4.9", "2.2250738585072014", "1.7976931348623157"] {
            nums.push(format!("x={}e{}", m, e));
            nums.push(format!("x={}e-{}", m, e));
        }
    }
    for i in 0..=1100 {
        nums.push(format!("x=0x1{}", "0".repeat(i / 4)));
        nums.push(format!("x={}", i));
        nums.push(format!("x=0b1{}", "0".repeat(i)));
        nums.push(format!("x=.{}1", "0".repeat(i)));
    }
    c.all("numbers of every size", Script, &nums);
    // depth and length
    let mut big = vec![];
    for n in [100, 127, 128, 129, 130, 200, 255, 256, 257, 500] {
        big.push(format!("{}a{}", "(".repeat(n), ")".repeat(n)));
        big.push(format!("x={}{}", "[".repeat(n), "]".repeat(n)));
        big.push(format!("{}{}", "{".repeat(n), "}".repeat(n)));
        big.push(format!("x={}", "a.b+".repeat(n) + "c"));
        big.push(format!("x='{}'", "ab\u{1f600}".repeat(n)));
        big.push("a;".repeat(n * 20));
        big.push("a".repeat(n * 100));
        big.push(format!("x={}1{}", "{a:".repeat(n), "}".repeat(n)));
    }
    for goal in [Script, Module] {
        c.all("deep and long texts", goal, &big);
    }
    // every length up to a bound, and the lengths around powers of two: accepted and rejected texts
    let lens: Vec<usize> = (0..=c.pick(1100, 4200)).chain((11..=c.pick(17, 20)).flat_map(|p| [(1usize << p) - 1, 1 << p, (1 << p) + 1])).chain([9_999, 10_000, 10_001, 50_000, 65_000, 99_999, 100_000, 100_001]).collect();
    for goal in [Script, Module] {
        c.by_index("texts of every length", goal, lens.len(), |i| {
            let n = lens[i];
            let r = |x: &str| x.repeat(n);
            vec![r("a"), r(" "), r("\n"), format!("'{}'", r("\u{e9}")), format!("x=`{}`", r("\u{1f600}")), r("a;"), format!("{}@", r(" ")), format!("{}@", r("\n")), format!("'{}", r("x")), format!("a {}", r("b")), format!("{}\u{1f600}", r("a")), format!("f({})", r("a,")), format!("var {} b", r("c")), format!("x=/{}a/g", r("[]]"))]
        });
    }
    c.by_index("arrays and blocks of every depth", Script, c.pick(300, 900), |n| vec![format!("x={}{}", "[".repeat(n), "]".repeat(n)), format!("{}{}", "{".repeat(n), "}".repeat(n)), format!("x={}1{}", "{a:".repeat(n), "}".repeat(n)), format!("{}@", "[".repeat(n))]);
    // histories: every sequence of calls, each answer compared with what the library says to that text
    let h = ["", "a", "b", "with(a)b", "await", "@", "'use strict'", "import 'a'", "a b", "a  b"];
    let calls: Vec<(&str, Goal)> = h.iter().flat_map(|t| [(*t, Script), (*t, Module)]).collect();
    let want: Vec<_> = calls.iter().map(|(t, g)| wanted(t, *g)).collect();
    let k = calls.len();
    let len = c.pick(3, 4);
    let total = k.pow(len as u32);
    c.par(total, |mut i| {
        for _ in 0..len {
            let (t, g) = calls[i % k];
            if bound(t, g) != want[i % k] {
                c.violation(t, g, format!("{} answered differently after other calls", js_name(g)));
            }
            i /= k;
        }
        c.extra_checks.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    });
    c.bound(format!("every history of {} calls out of {} ({} histories)", len, k, total));
}
