//! C09 to C18 and C23: the grammar.
use super::corpus::*;
use super::lexical::{around, rep, runs, size, strs};
use crate::engine::*;
use crate::refp::Goal::*;

/// A list of alphabets explored in lock step: (goal, prefix, alphabet, suffix, quick depth, thorough depth)
pub type Row<'a> = (crate::refp::Goal, &'a str, &'a str, &'a str, usize, usize);
pub fn rows(c: &Ctx, name: &str, r: &[Row]) {
    for (goal, pre, al, suf, q, t) in r {
        let al: Vec<String> = al.split(' ').filter(|x| !x.is_empty()).map(|x| x.replace("\\n", "\n").replace('_', " ")).collect();
        let pre = if pre.is_empty() { String::new() } else { format!("{} ", pre) };
        let suf = if suf.is_empty() { String::new() } else { format!(" {}", suf) };
        c.lockstep(name, *goal, &pre, &strs(&al), " ", &suf, c.pick(*q, *t));
    }
}

/// two surroundings, one of each kind
fn twice() -> Vec<String> {
    let k = kinds();
    k.iter().flat_map(|a| k.iter().map(move |b| a.replace('@', b))).collect()
}
// ------------------------------------------------------------------------------------------------ C09
pub fn c09(c: &mut Ctx) {
    let heads = ["", "{", "if(a){", "if(a)", "while(a)", "for(;;)", "else", "a:", "function f(){", "x=function(){", "()=>{", "x=()=>{", "class A{m(){", "x={m(){", "switch(a){case b:", "try{", "function*g(){", "async function h(){", "do ", "if(a)b\nelse ", "with(a)", "'use strict'\n", ";", "for(;;){", "a:for(;;){", "x={get m(){", "x=`${function(){", "async()=>{", "async function*g(){"];
    let first = ["a", "a=b", "a()", "(a)", "a[b]", "a.b", "1", "'s'", "`t`", "`\n`", "'\\\n'", "/r/", "/r/g", "a++", "++a", "-a", "a+b", "a?b:c", "a,b", "[]", "[a]", "x={}", "x={a}", "x=function(){}", "x=class{}", "x=()=>{}", "x=()=>a", "x=async()=>{}", "a=>b", "async a=>{}", "this", "null", "typeof a", "new a", "new a()", "delete a.b", "void 0", "var a", "var a=1", "var a,b", "let a", "let a=1", "const a=1", "var [a]=b", "var {a}=b", "return", "return a", "return a,b", "break", "break a", "continue", "continue a", "throw a", "throw", "debugger", "do a;while(b)", "do;while(b)", "do{}while(b)", "do a\nwhile(b)", "yield", "yield a", "yield*a", "await a", "await", "let", "async", "of", "static", "get", "{}", "{a}", ";", "if(a){}", "if(a);", "if(a)b", "if(a)b\nelse c", "while(a){}", "while(a)b", "for(;;)a", "for(;;){}", "function f(){}", "class A{}", "async function f(){}", "try{}finally{}", "switch(a){}", "a:b", "a:{}", "'use strict'", "import 'a'", "import a from 'b'", "import {a} from 'b'", "import * as a from 'b'", "export {a}", "export {}", "export {a} from 'b'", "export * from 'b'", "export var a", "export let a=1", "export default a", "export default a=>b", "export default function(){}", "export default class{}", "export function f(){}", "export class A{}", "export default async function(){}", "super.a", "new.target", "a\nb", "a/*\n*/", "x=yield", "x=await a", "a**b", "a in b", "a instanceof b", "x=/r/", "x=`a${b}c`", "x=`${`\n`}`", "else", "case a:b", "default:", "default:a", "a=", "a+", "a.", "a(", "(", "async(", "async()", "async(a)", "for(a of b)c", "with(a)b", "catch", "finally{}", "var", "let", "const a", "let [a]", "new", "if", "async x", "async function", "do a", "do a;", "while(a)", "x=async", "x=async a"];
    let seps = ["", " ", "\n", "\r", "\r\n", "\u{2028}", "\u{2029}", ";", ";\n", "/**/", "/*\n*/", "/*\r*/", "/*\u{2028}*/", "//\n", "/**/\n", "\n;", "/*a*//*\n*/", "/*\n*//**/", " \n ", "\t", "/*\n*/ /*a*/", "//\u{2029}", "/*\r\n*/"];
    let second = ["", "a", "b=c", "(a)", "[a]", "{}", "{a}", "1", "-1", "'s'", "`t`", "`\n`", "/r/g", "/b", "++", "--", "++a", "--a", "+a", "*a", "**a", "a++", ".b", "...a", ",b", "?b:c", ":b", "=b", "=>b", "=>{}", "+=b", "==b", "&&b", "||b", "in b", "instanceof b", "of b", "typeof a", "!a", "~a", "delete a", "void 0", "new a", "this", "function f(){}", "function(){}", "class A{}", "class{}", "async function f(){}", "async()=>{}", "async a=>b", "async", "let a", "let [a]=b", "let", "const a=1", "var a", "if(a)b", "else b", "while(a)b", "while(b)", "while(b)c", "for(;;)a", "do;while(0)", "switch(a){}", "case b:", "default:", "break", "continue", "return", "return b", "throw b", "try{}finally{}", "catch{}", "finally{}", "debugger", "with(a)b", "a:b", ";", ";;", "}", ")", "]", "import 'a'", "import(a)", "export {}", "export default a", "yield", "yield a", "await", "await a", "get", "set", "static", "from 'a'", "as b", "super.a", "enum", "@", "a b", "a\n++\nb", "=>a\n(b)", "{}\n[a]", "a=b\nc=d", "++\nb", "--\nb", "async\nfunction f(){}", "async\na=>b", "}a", "(a)=>b", "(a){}", "a=>b", "`${a}`", "\\u0061", "i\\u0066"];
    let tails = ["", "}", "}}", "}}`", ";"];
    // two levels: the core space, and heads x first x second with the essential separators
    c.grid("statement, separator, token", Script, &[&first, &seps, &second]);
    c.grid("statement, separator, token", Module, &[&first, &["", " ", "\n", "\r", ";", "/*\n*/", "/**/", "//\u{2029}"], &second]);
    let ess = ["", " ", "\n", ";", "/*\n*/"];
    for goal in [Script, Module] {
        c.by_index("inside each construct", goal, heads.len() * first.len(), |i| {
            let (h, f) = (heads[i % heads.len()], first[i / heads.len()]);
            let close: String = h.chars().rev().filter_map(|x| if x == '{' { Some('}') } else { None }).collect();
            let close = if h.contains('`') { format!("{}`", close) } else { close };
            let mut v = vec![];
            for s in if c.quick() { &ess[1..3] } else { &ess[..] } {
                for t in second {
                    v.push(format!("{}{}{}{}{}", h, f, s, t, close));
                }
            }
            for s in ess {
                v.push(format!("{}{}{}{}", h, f, s, close));
                v.push(format!("{}{}{}{}a", h, f, s, close));
                v.push(format!("{}{}{}{}\na", h, f, s, close));
            }
            v
        });
    }
    let _ = tails;
    // restricted productions with every separator on both sides
    let f1 = ["a", "return", "break", "continue", "throw", "yield", "async", "()", "a++", "a--", "await", "let", "return a", "break a", "(a)", "a.b", "async(a)", "async()", "x=async", "x=async()", "x=(a)", "a=a", "new.target", "continue a", "async a", "static", "var a", "do;while(0)", "if(a);else", "x=yield", "throw a", "a[0]", "this", "1", "get", "`t`"];
    let f2 = ["++", "--", "a", "=>", "*", "function", "function f(){}", "a=>b", "(a)=>b", "b", ";", "/a/", "+", "=", "[a]", "(b)", "{}", "", "`t`", "*a", "=>{}", "=>a"];
    let f3 = ["", "a", ";", "++", "b", "{}", "(c)", "=>d", "/b/g", "f(){}", "}"];
    let sp = ["", " ", "\n", "/*\n*/", "/**/", "//\n", "\u{2028}"];
    for (h, t) in [("", ""), ("function f(){", "}"), ("for(;;){", "}"), ("function*g(){", "}"), ("async function h(){", "}"), ("a:for(;;){", "}")] {
        c.grid("restricted productions", Script, &[&[h], &f1, &sp, &f2, &sp, &f3, &[t]]);
    }
    c.grid("restricted productions", Module, &[&["", "function*g(){", "async function h(){"], &f1, &sp, &f2, &sp, &f3, &["", "}"]]);
    rows(c, "newline token", &[
        (Script, "", "a ; \\n ++ -- + ( )", "", 6, 8),
        (Script, "", "a ; \\n { } if ( ) else", "", 6, 7),
        (Script, "", "a var let = , \\n ; [ ]", "", 6, 7),
        (Script, "", "do a while ( ) ; \\n { }", "", 7, 8),
        (Script, "function f(){", "return a ; \\n ( ) } { + =>", "}", 6, 7),
        (Script, "for(;;){", "break continue a ; \\n } { : for(;;)", "}", 6, 7),
        (Script, "function*g(){", "yield a * \\n ; ( ) } = /", "}", 6, 7),
        (Module, "async function g(){", "await a \\n ; ( ) } => async function", "}", 5, 6),
        (Script, "", "async a function ( ) => { } \\n ;", "", 6, 7),
        (Module, "", "import export default a {} from 'b' \\n ; *as", "", 5, 6),
        (Module, "", "export a default function(){} class{} \\n ; ( = => from'b' {a}", "", 5, 6),
        (Script, "", "a ` \\n ; 's' \\ /", "", 6, 7),
        (Script, "", "throw a \\n ; new ( ) try{} catch{}", "", 5, 6),
        (Script, "class A{", "a () {} \\n ; get static async *", "}", 6, 6),
        (Script, "switch(a){", "case default a : \\n ; break { }", "}", 6, 7),
        (Script, "", "let a \\n = [ ] { } ;", "", 7, 8),
        (Script, "", "a in of ( for var \\n ; ) {}", "", 6, 7),
    ]);
    size(c, "many statements without semicolons", Script, 2000, |n| vec![rep("a\n", n), rep("var a=1\n", n), format!("{{{}}}", rep("a()\n", n)), format!("function f(){{{}return\n1}}", rep("a++\n", n)), format!("{}b", rep("do;while(0)", n)), format!("a{}b", rep("\n", n)), rep("a=b/*\n*/", n), format!("for(;;){{{}}}", rep("break\n", n))]);
    let it: Vec<String> = first.iter().flat_map(|f| [" ", "\n", ";"].iter().flat_map(move |s| ["a", "++a", "(a)", "/b/g", "", "=>a", "function f(){}", "`t`", "var a"].iter().map(move |t| format!("{}{}{}", f, s, t)))).collect();
    around(c, "statement ends in every surrounding", &[Script], around_stmt(), &it);
    let it: Vec<String> = it.into_iter().step_by(c.pick(5, 1)).collect();
    around(c, "statement ends in every surrounding", &[Module], around_stmt(), &it);
}

// ------------------------------------------------------------------------------------------------ C10
pub const BINARY: &[&str] = &["+", "-", "*", "/", "%", "**", "<<", ">>", ">>>", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "&", "|", "^", "&&", "||", "in", "instanceof"];
pub const ASSIGN: &[&str] = &["=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^="];
pub fn c10(c: &mut Ctx) {
    let mut infix: Vec<String> = BINARY.iter().chain(ASSIGN).chain(&[","]).map(|o| format!(" {} ", o)).collect();
    infix.push(" ? a : ".into());
    let infix = strs(&infix);
    let opd = ["b", "1", "b.c", "(b)", "-b", "!b", "typeof b", "b++", "--b", "b()", "[b]", "{}", "function(){}", "c=>d", "(b,c)", "b=c", "new b", "new b()", "await b", "yield", "async()=>{}", "/r/", "`t`", "'s'", "this", "delete b.c", "void 0", "+ +b", "- -b", "~!b", "b[c]", "++b.c", "(b=c)", "(-b)", "(b?c:d)", "null", "class{}", "(b**c)", "-(b)", "(b)++", "super.b"];
    let ctx = ["@;", "x=@;", "(@)", "[@]", "f(@)", "`${@}`", "x={a:@}", "if(@);", "a?@:b", "a?b:@", "()=>@", "function f(){return @}", "throw @", "x[@]", "for(;@;);", "for(x=@;;);", "for(var x=@;;);", "for(x in @);", "for(x of @);", "switch(@){case @:}", "while(@);", "do;while(@)", "var x=@,y=@;", "@,@", "function f(a=@){}", "class A extends @{}", "({[@]:1})", "[a=@]=b", "var {a=@}=b", "function*g(){yield @}", "async function g(){await @}", "[...@]", "new (@)", "(@).b", "(@)(c)", "-(@)", "typeof(@)", "for((@);;);", "for(x=(@);;);", "for(x=[@];;);", "for(x=f(@);;);", "for(var x=(@);;);", "for(let x=@;;);", "for(@;;);", "for(;;@);", "for(x=()=>{@};;);", "for(x=()=>@;;);", "for(x=function(){@};;);", "for(x=a?@:b;;);", "for(x=a?b:@;;);", "for(x=`${@}`;;);", "for(x[@] in b);", "for(x={[@]:a};;);", "for(var [x=@]=b;;);", "for(var {[@]:x} of b);", "for(x=class{[@](){}};;);", "for(x=class extends(@){};;);", "for(var x=@ in b);", "for(var x=a,y=@;;);", "for(x=async()=>@;;);", "for(x=a[@];;);", "for(x=new a(@);;);", "for(x=a=>{@};@;@);", "for(x of @){@}", "for(x in @)@", "while(@)@", "if(@)@\nelse @"];
    // pairs with all operands, triples and quadruples of operators
    c.grid("two operators with every kind of operand", Script, &[&["x = "], &opd, &infix, &opd, &["", " + e", " ** e", " = e", " in e", " ? e : f", ", e"]]);
    c.grid("operators between every operand, generator", Script, &[&["function*g(){x = ", "async function g(){x = ", "function*g(){", "async function*g(){"], &opd, &infix, &opd, &["}"]]);
    c.grid("three operators", Script, &[&["a", "-a", "a++", "(a)", "x = a"], &infix, &["b"], &infix, &["c", "!c", "c++"], &infix, &["d"]]);
    if c.quick() {
        let some = [" + ", " - ", " * ", " ** ", " < ", " in ", " == ", " & ", " | ", " && ", " || ", " = ", " ? a : ", ", ", " << "];
        c.grid("four operators", Script, &[&["a"], &some, &["b"], &some, &["c"], &some, &["d", "typeof d"], &some, &["e"]]);
    } else {
        c.grid("four operators", Script, &[&["a"], &infix, &["b"], &infix, &["c"], &infix, &["d"], &infix, &["e"]]);
    }
    // one operator of each precedence, long chains
    let lv = [" + ", " * ", " ** ", " < ", " == ", " & ", " ^ ", " | ", " && ", " || ", " << "];
    c.grid("chains over every precedence", Script, &[&["a"], &lv, &["b"], &lv, &["c"], &lv, &["d"], &lv, &["e"], c.pick(&[""][..], &lv[..]), c.pick(&[""][..], &["f"][..])]);
    // in every context
    let pairs: Vec<String> = infix.iter().flat_map(|a| infix.iter().map(move |b| format!("p{}q{}r", a, b))).collect();
    for goal in [Script, Module] {
        c.by_index("pairs of operators in every context", goal, ctx.len(), |i| pairs.iter().map(|p| ctx[i].replace('@', p)).collect());
    }
    let pre = ["-", "+", "!", "~", "typeof ", "void ", "delete ", "++", "--", "await ", "yield ", "new ", "...", "yield* ", "async "];
    let post = ["", "++", "--", ".b", "()", "[b]", "`t`", " ** b", "\n++", " ++ ** b", "=b", "**=b", " in b", "?b:c", "=>b", "+b"];
    for h in [["", ""], ["function*g(){", "}"], ["async function g(){", "}"], ["x=", ";"], ["for(", ";;);"], ["'use strict';", ""], ["async function*g(){", "}"], ["a+", ""], ["a**", ""], ["for(x=", " in y;;);"]] {
        c.grid("prefix and postfix operators", Script, &[&[h[0]], &pre, &pre, &["a", "(a)", "1", "a.b", "(a.b)", "(a,b)", "[a]", "{}", "this"], &post, &[h[1]]]);
        c.grid("prefix and postfix operators", Module, &[&[h[0]], &pre, &["a", "(a)", "a.b", "f()"], &post, &[h[1]]]);
    }
    c.grid("three prefixes", Script, &[&["", "x="], &pre, &pre, &pre, &["a", "a.b", "(a)"], &["", "++", "**b", "--**b"]]);
    rows(c, "operator tokens", &[
        (Script, "x =", "a + * ** ( ) - ++", ";", 7, 8),
        (Script, "x =", "a ? : , = ( ) ||", ";", 7, 8),
        (Script, "x =", "a in instanceof < ( ) ! typeof", ";", 7, 8),
        (Script, "", "a - ! ~ typeof ++ -- ** ( )", "", 6, 7),
        (Script, "for(", "a in ( ) ; = ? : [ ]", ";;);", 6, 7),
        (Script, "for(var x=", "a in ( ) ; => { } ,", ";;);", 6, 7),
        (Script, "for(", "a in => ( ) ; { } of", ");", 6, 7),
        (Script, "x =", "a && || | & == => (", ")", 6, 7),
        (Script, "function*g(){", "yield a + * ( ) , ? : in", "}", 6, 7),
        (Script, "async function g(){", "await a + ** ( ) , - in !", "}", 6, 7),
        (Script, "", "a = += ** , ( ) ? :", "", 7, 8),
        (Script, "x =", "a << >> >>> < >= + ( )", "", 6, 7),
        (Module, "x =", "a - + ** ( ) delete void await", "", 6, 7),
    ]);
    size(c, "long operator chains", Script, 900, |n| {
        let mut v = vec![];
        for o in BINARY {
            v.push(format!("x=a{}", rep(&format!(" {} b", o), n)));
        }
        v.push(format!("x=a{}", rep(" + b * c", n)));
        v.push(format!("x=a{}", rep(" || b && c | d ^ e & f == g < h << i + j * k", n / 8)));
        v.push(format!("x=a{}", rep(" * b + c << d < e == f & g ^ h | i && j || k", n / 8)));
        v.push(format!("a{}", rep(", b", n)));
        v
    });
    size(c, "deep right chains", Script, 130, |n| vec![format!("{}a", rep("a = ", n)), format!("x={}a", rep("a ? b : ", n)), format!("x={}a{}", rep("a ? ", n), rep(" : b", n)), format!("x={}a{}", rep("(", n.min(65)), rep(")", n.min(65))), format!("x={}a", rep("! ", n)), format!("x={}a", rep("- ", n)), format!("x=a{}", rep(" ** b", n)), format!("x={}a", rep("typeof ", n)), format!("x={}a{}", rep("(b + ", n.min(65)), rep(") * c", n.min(65)))]);
    let it: Vec<String> = pairs.iter().cloned().chain(opd.iter().flat_map(|o| [" + ", " ** ", " = ", " in ", " ? a : ", ", ", " && "].iter().flat_map(move |x| vec![format!("{}{}b", o, x), format!("b{}{}", x, o)]))).chain(pre.iter().flat_map(|p| post.iter().flat_map(move |q| ["a", "(a)", "a.b"].iter().map(move |o| format!("{}{}{}", p, o, q))))).collect();
    around(c, "operators in every surrounding", &[Script], around_expr(), &it);
    around(c, "operators in every surrounding of statements", &[Script], around_stmt(), &it);
    let it: Vec<String> = it.into_iter().step_by(c.pick(6, 1)).collect();
    around(c, "operators in every surrounding", &[Module], around_expr(), &it);
}

// ------------------------------------------------------------------------------------------------ C11
pub fn c11(c: &mut Ctx) {
    let target = ["a", "a.b", "a[b]", "a().b", "a()[b]", "(a)", "((a))", "(a.b)", "(a[b])", "a()", "(a())", "new a", "new a()", "new a().b", "new a.b", "new a[b]", "1", "'s'", "`t`", "a`t`", "a`t`.b", "/r/", "/r/.b", "this", "this.a", "null", "true", "a+b", "(a+b)", "-a", "a++", "++a", "a?b:c", "(a?b:c)", "a,b", "(a,b)", "a=b", "(a=b)", "()=>a", "(()=>a)", "a=>b", "(a=>b)", "async()", "async(a)", "async", "async a=>b", "function(){}", "(function(){})", "(function(){}).a", "class{}", "(class{})", "(class{}).a", "super.a", "new.target", "yield", "await", "let", "let.a", "eval", "arguments", "(eval)", "eval.a", "static", "of", "get", "[]", "[a]", "[,]", "[a,]", "[a,,b]", "[a.b]", "[a[b]]", "[a()]", "[a().b]", "[(a)]", "[(a.b)]", "[(a,b)]", "[(a=b)]", "[a=b]", "[a=b=c]", "[a.b=c]", "[a+=b]", "[[a]]", "[[a],b]", "[([a])]", "[{a}]", "[({a})]", "[[a]=b]", "[{a}=b]", "[...a]", "[...a.b]", "[...[a]]", "[...{a}]", "[...a,]", "[...a,b]", "[a,...b]", "[...a=b]", "[...(a)]", "[...a()]", "[...(a.b)]", "[...([a])]", "[,...a]", "[1]", "[a+b]", "[this]", "[this.a]", "[()=>a]", "[a=>b]", "[eval]", "[arguments.a]", "[`t`]", "[a`t`]", "[new a]", "[new a.b]", "[yield]", "[await]", "[-a]", "[a++]", "[a?b:c]", "[function(){}]", "[class{}.a]", "[async]", "[async()]", "([a])", "([a]=b)", "[[[a]]]", "[a,[b,{c}]]", "{}", "{a}", "{a,}", "{a,b}", "{a:b}", "{a:b.c}", "{a:b[c]}", "{a:b()}", "{a:(b)}", "{a:(b.c)}", "{a:(b=c)}", "{a:b=c}", "{a:b.c=d}", "{a=b}", "{a=b,c}", "{a:[b]}", "{a:{b}}", "{a:[b]=c}", "{a:{b}={}}", "{a:([b])}", "{a:({b})}", "{'a':b}", "{1:b}", "{[a]:b}", "{[a]:b=c}", "{'a'}", "{1}", "{[a]}", "{if}", "{if:a}", "{if=a}", "{a(){}}", "{get a(){}}", "{set a(b){}}", "{*a(){}}", "{async a(){}}", "{...a}", "{...a.b}", "{...a,}", "{...a,b}", "{a,...b}", "{...[a]}", "{...{a}}", "{...a=b}", "{...(a)}", "{...a()}", "{...(a.b)}", "{a:1}", "{a:b+c}", "{a:this}", "{a:this.b}", "{a:()=>b}", "{a:eval}", "{eval}", "{arguments=1}", "{let}", "{yield}", "{await}", "{async}", "{get}", "{get=1}", "{get:a}", "{async=1}", "{a:async()}", "({a})", "({a}=b)", "{a:{b:{c=d}}}", "{a:b,...c}", "{__proto__:a}", "{a:new b.c}", "{a:`t`}", "{a=b=c}", "{a:b=c=d}", "{a:b,c:d=e,f}", "{a:[b,{c=d}]}", "{a=>b}", "{a:b?c:d}", "{a:...b}", "[a b]", "{a b}", "{true}", "{true:a}", "{this}", "[this=a]", "{a:yield}", "{ \\u0061 }", "{ \\u0061=b }", "{i\\u0066}", "a\n", "[a]\n"];
    let op = ["=", "+=", "**=", ">>>=", "&="];
    let value = ["b", "[c]", "{c}", "c=d", "()=>1", "function(){}", "d?e:f", "d,e"];
    for goal in [Script, Module] {
        c.grid("target and operator", goal, &[&["", "(", "x=", "'use strict';", "x=[", "f(", "x={y:", "`${", "function*g(){", "async function g(){x=", "()=>", "if(y)", "x?y:", "var x=", "return_=(", "(a,", "!", "x+", "x&&"], &target, &op, &value[..c.pick(2, 8)], &["", ")", "]", "}", "}`"]]);
        c.grid("update of a target", goal, &[&["", "x=", "(", "'use strict';", "-", "x**", "for(;;", "function*g(){"], &["++", "--", ""], &target, &["++", "--", "", " ++", "\n++"], &["", ")", "}", ");"]]);
        c.grid("for heads", goal, &[&["for(", "for(var ", "for(let ", "for(const ", "'use strict';for(", "function*g(){for(", "for((", "async function g(){for("], &target, &[" in b", " of b", " in b,c", " of b,c", " = b;;", " = b in c", " = b of c", ";;", " of", " in", ") in b", ") of b"], &[");", "){}", ")}"]]);
        c.grid("arrow parameters", goal, &[&["(", "async(", "x=(", "'use strict';(", "(x,", "async(x,", "f((", "(...", "function*g(){("], &target, &[")=>c", ",d)=>c", "=1)=>c", ",...d)=>c", ")", ")=c", "){}", ",)=>c", "...d)=>c"], &["", "}", ")"]]);
        c.grid("bare targets", goal, &[&["", "(", "x=", "async ", "...", "[...", "f(...", "x={...", "x={y:"], &target, &["", ";", ")", "=>c", "=>{}", "]", "}", "})", ".c", "()", "`t`", "in b", "?c:d", "/c"]]);
    }
    // assignment chains
    c.grid("two targets", Script, &[&["", "("], &target, &["="], &target, &["=d", "+=d", "=d)", ""]]);
    // nesting of patterns
    let wrap = ["[@]", "[@=1]", "[,@]", "[a,@,b]", "[...@]", "{a:@}", "{a:@=1}", "{[a]:@}", "{b,a:@,c}", "{...@}", "(@)", "{'s':@}", "{1:@=f()}"];
    let leaf = ["a", "a.b", "f()", "f().g", "1", "a=1", "{a}", "{a=1}", "[]", "{}", "(a)", "this", "a+b", "...a", "async", "{a,b=1}", "[a,b]", "x=>y", "{m(){}}", "eval", "a,b"];
    let heads = ["x = @ = z", "[@]=z", "({a:@}=z)", "(@) => z", "(@)", "async (@) => z", "async (@)", "for(@ of z);", "for(@ in z);", "for(@;;);", "@ => z", "x = (@)", "f(@)", "x = @;", "var @ = z", "x = [@, @] = z", "x = @ += z", "x = (@) = z", "(@)=z", "@ ++", "function f(@){}", "(@ = z) => y", "(z, @) => y", "for(var @ of z);", "try{}catch(@){}", "(...@) => z", "`${@=z}`", "(a,@)", "async(a,@)", "() => (@) => y", "[@,...[@]]=z", "({a:@,...b}=z)", "({@}=z)"];
    let depth = c.pick(2, 3);
    for goal in [Script, Module] {
        let k = wrap.len();
        let n: usize = (0..=depth).map(|d| k.pow(d as u32)).sum();
        if goal == Module && c.quick() {
            continue;
        }
        c.by_index("nested patterns in every head", goal, n, |mut i| {
            let mut d = 0;
            while i >= k.pow(d as u32) {
                i -= k.pow(d as u32);
                d += 1;
            }
            let mut t = "@".to_string();
            for _ in 0..d {
                t = t.replace('@', wrap[i % k]);
                i /= k;
            }
            let mut v = vec![];
            for h in heads {
                let ht = h.replace('@', &t);
                for l in leaf {
                    v.push(ht.replace('@', l));
                }
            }
            v
        });
    }
    rows(c, "pattern tokens", &[
        (Script, "x =", "a [ ] , = ... ( ) .b", ";", 6, 7),
        (Script, "(", "a { } , = : ... [ ]", "=z)", 6, 7),
        (Script, "[", "a [ ] , = ... .b () 1", "]=z", 6, 7),
        (Script, "({", "a : , = ... [ ] { } 1 () 's'", "}=z)", 5, 6),
        (Script, "({", "a : , = ... [ ] { }", "})", 6, 7),
        (Script, "for(", "a [ ] { } , = : in of", ");", 6, 7),
        (Script, "for(", "a let var [ ] of in ; = async", ");", 6, 6),
        (Script, "(", "a [ ] { } , = ... )", ")=>z", 6, 7),
        (Script, "", "async ( a [ ] , = ... ) => ", "", 7, 8),
        (Script, "", "a ( ) = ++ .b [ ] -- += ,", "", 6, 7),
        (Script, "x =", "( ) a => , = [ ] ...", "", 6, 7),
        (Module, "({", "a : , = ... [ ] { } await", "}=z)", 5, 6),
        (Script, "function*g(){", "a [ ] = yield ( ) , { }", "}", 6, 7),
        (Script, "'use strict';", "eval [ ] = ( ) { } : , ...", "=z", 6, 7),
    ]);
    size(c, "large patterns", Script, 1100, |n| vec![format!("[{}]=b", rep("a,", n)), format!("[{}]=b", rep(",", n)), format!("({{{}}}=b)", rep("a,", n)), format!("({{{}}}=b)", rep("a:b.c,", n)), format!("[{}...b]=b", rep("a,", n)), format!("[{}1]=b", rep("a,", n)), format!("({{{}b:1}}=b)", rep("a,", n)), format!("({{{}...c}}=b)", rep("a,", n)), format!("({}b)=>c", rep("a,", n)), format!("async({}b)=>c", rep("a,", n)), format!("[{}...b,]=b", rep("a,", n)), format!("[{}]=b", rep("a=1,", n)), format!("({{{}}}=b)", rep("a=1,", n)), format!("{}b", rep("a=", n.min(100)))]);
    size(c, "deep patterns", Script, 40, |n| vec![format!("{}a{}=b", rep("[", n + 1), rep("]", n + 1)), format!("({}a{}=b)", rep("{a:", n + 1), rep("}", n + 1)), format!("{}a()[0]{}=b", rep("[", n + 1), rep("]", n + 1)), format!("{}a(){}=b", rep("[", n + 1), rep("]", n + 1)), format!("({}1{}=b)", rep("{a:", n + 1), rep("}", n + 1)), format!("({}a{})=>b", rep("[{a:", n), rep("=1}]", n)), format!("({}a{}=b)", rep("[{a:", n), rep("}=1]", n)), format!("({}a{})=b", rep("(", n), rep(")", n))]);
    let it: Vec<String> = target.iter().flat_map(|t| ["@=b", "[@]=b", "({a:@}=b)", "(@)=>c", "(@)", "++@", "@--", "@+=b", "[...@]=b", "for(@ of b);", "for(@ in b);", "(a,@)=>c", "async(@)=>c", "({@}=b)", "(@)=b", "{@=1}", "[@=1]=b"].map(|p| p.replace('@', t))).collect();
    around(c, "targets in every surrounding", &[Script], around_stmt(), &it);
    let it: Vec<String> = it.into_iter().step_by(c.pick(2, 1)).collect();
    around(c, "targets in every surrounding of expressions", &[Script], around_expr(), &it);
    // a cover that is still undecided, with another cover after or before it
    let el = ["{a=1}", "{a=1}=b", "(b)", "(b)=>c", "async(b)", "async(b)=>c", "[b]", "[{a=1}]", "[{a=1}]=c", "{b}", "b=>c", "({a=1})=>c", "async({a=1})=>c", "({a=1})", "f({a=1})", "f(b)", "`${b}`", "`${{a=1}}`", "function(){}", "x={a=1}", "{c:{a=1}}", "y=(b)", "y=async(b)", "new f(b)", "(b,c)", "b[c]", "b[{a=1}]", "b?c:d", "async b=>c", "{m(){}}", "{[{a=1}]:b}", "...b", "...{a=1}", "class{}"];
    let hd = ["(@)", "(@)=>d", "async(@)", "async(@)=>d", "[@]", "[@]=e", "f(@)", "(@)=e", "([@])=>d", "x=[[@]]", "[[@]]=e", "({p:[@]})", "({p:[@]}=e)", "for([@]of e);", "((@))", "((@)=>d)", "async((@))"];
    c.by_index("covers beside one another", Script, el.len() * el.len(), |i| {
        let (a, b) = (el[i % el.len()], el[i / el.len()]);
        let mut v = vec![];
        for h in hd {
            v.push(h.replace('@', &format!("{},{}", a, b)));
            for d in el.iter().step_by(c.pick(2, 1)) {
                v.push(h.replace('@', &format!("{},{},{}", a, b, d)));
            }
        }
        for (p, q) in [("x={", "}"), ("({", "}=e)"), ("({", "})=>d"), ("({", "})")] {
            v.push(format!("{}p:{},q:{}{}", p, a, b, q));
            v.push(format!("{}p:{},q:{},r=1{}", p, a, b, q));
            v.push(format!("{}r=1,p:{},q:{}{}", p, a, b, q));
        }
        v.push(format!("x={}+{}", a, b));
        v.push(format!("x=({},{})+e", a, b));
        v.push(format!("{}\n{}", a, b));
        v.push(format!("({}={})", a, b));
        v.push(format!("({}={})=>c", a, b));
        v.push(format!("x=y?{}:{}", a, b));
        v
    });
}

// ------------------------------------------------------------------------------------------------ C12
pub const BIND_POS: &[&str] = &[
    "var @;", "let @;", "const @;", "var @=x;", "let @=x;", "const @=x;", "var p,@;", "var p,@=x;", "let p=1,@=x,q;", "const p=1,@=x;", "function f(@){}", "function f(p,@){}", "function f(@,q){}", "function f(...@){}", "function f(p,...@){}", "function f(...@,q){}", "(function(@){})", "function*f(@){}", "async function f(@){}", "async function*f(@){}", "x={m(@){}}", "x={get m(@){}}", "x={set m(@){}}", "x={*m(@){}}", "x={async m(@){}}", "class A{m(@){}}", "class A{set m(@){}}", "class A{constructor(@){}}", "class A{static async*m(@){}}", "(@)=>x", "(p,@)=>x", "(@,q)=>x", "(...@)=>x", "(p,...@)=>x", "@=>x", "async(@)=>x", "async @=>x", "async(p,@)=>x", "async(...@)=>x", "try{}catch(@){}", "for(var @ in x);", "for(var @ of x);", "for(let @ in x);", "for(let @ of x);", "for(const @ in x);", "for(const @ of x);", "for(var @;;);", "for(var @=x;;);", "for(let @=x;;);", "for(let @;;);", "for(const @=x;;);", "for(const @;;);", "for(var p,@;;);", "for(var @=y in x);", "for(let @=y of x);", "for(var p,@ of x);", "export var @=x;", "export let @;", "export const @=x;", "function f(@){'use strict'}", "(@)=>{'use strict'}", "function f([@]){}", "function f({p:@}){}", "var [@]=x;", "var {p:@}=x;", "function f(p=@){}", "'use strict';var @=x;", "'use strict';function f(@){}", "function*g(){var @=x}", "async function g(){var @=x}", "if(p)var @=x;", "{let @=x}", "switch(p){case 1:let @=x}", "class @{}", "function @(){}",
];
pub fn c12(c: &mut Ctx) {
    let leaf = ["a", "a=1", "a=b=c", "a=(b,c)", "a.b", "a[b]", "a()", "(a)", "1", "'s'", "this", "null", "a+b", "...a", "...a=1", "...[a]", "...{a}", "...", "eval", "arguments", "yield", "await", "let", "static", "async", "of", "get", "if", "enum", "", ",", "a,", "a,b", "a,a", "[]", "[a]", "[,]", "[,a]", "[a,]", "[a,,b]", "[a=1]", "[a=b,c=d]", "[...a]", "[a,...b]", "[...a,]", "[...a,b]", "[...a=1]", "[...[a]]", "[...{a}]", "[[a]]", "[[a]=b]", "[{a}]", "[{a}={}]", "[a.b]", "[(a)]", "[1]", "[a()]", "[a b]", "[a]=b", "[a]=[b]", "{}", "{a}", "{a,}", "{,}", "{a,,b}", "{a,b}", "{a=1}", "{a=1,b=2}", "{a:b}", "{a:b=1}", "{a:[b]}", "{a:[b]=c}", "{a:{b}}", "{a:{b}={}}", "{'a':b}", "{'a'}", "{1:a}", "{1}", "{[a]:b}", "{[a]:b=1}", "{[a]}", "{[a,b]:c}", "{[a in b]:c}", "{if:a}", "{if}", "{if=1}", "{get:a}", "{get}", "{get a}", "{get a(){}}", "{a(){}}", "{async}", "{async:a}", "{async a}", "{*a}", "{...a}", "{a,...b}", "{...a,}", "{...a,b}", "{...[a]}", "{...{a}}", "{...a=1}", "{a:b.c}", "{a:b()}", "{a:1}", "{a:(b)}", "{eval}", "{a:eval}", "{arguments}", "{yield}", "{await}", "{a:let}", "{let}", "{a:...b}", "{a:}", "{:a}", "{a=}", "[a=]", "{a}=b", "{a}={b}", "({a})", "([a])", "{\\u0061}", "{i\\u0066}", "{a:b,c:d,e}", "[a,[b,[c]]]", "{a:{b:{c}}}", "[{a:[{b}]}]", "{a:[{b:[c=d]}]=e}", "[a=()=>{}]", "[a=function(){}]", "{a=class{}}", "[a=yield]", "[a=await b]", "{static}", "{a:static}", "[a]b", "a b", "a:b", "{a:b:c}", "[a:b]", "{\"a\":b,2:c,[d]:e,...f}", "[,,a,,]", "[...a,...b]", "{a=b in c}", "[a=b in c]", "a=b in c", "{0x1:a}", "{1.5:a}", "{true:a}", "{null}", "{new:a}", "{a=1:b}", "{a,b:{c,d:[e,...f]},...g}", "{set:a,set b}", "{of}", "`t`", "{`t`:a}", "a\n", "\n[a]", "{\na\n}"];
    for goal in [Script, Module] {
        c.by_index("binding forms in every binding position", goal, BIND_POS.len(), |i| {
            let mut v = vec![];
            for l in leaf {
                v.push(BIND_POS[i].replace('@', l));
            }
            v
        });
        c.by_index("two binding forms", goal, leaf.len(), |i| {
            let mut v = vec![];
            for b in leaf {
                for p in ["var @,%;", "function f(@,%){}", "(@,%)=>x", "var [@,%]=x;", "async(@,%)=>x", "let {p:@,q:%}=x;", "for(let @ of %);", "x={m(@,%){}}", "const @=x,%=y;", "function f(@=x,%=y){}", "let {@,%}=x;", "try{}catch([@,%]){}"] {
                    v.push(p.replace('@', leaf[i]).replace('%', b));
                }
            }
            v
        });
    }
    let wrap = ["[@]", "[@=1]", "[,@]", "[a,@,b]", "[...@]", "{a:@}", "{a:@=1}", "{[a]:@}", "{b,a:@,c}", "{...@}", "{'s':@}", "{1:@=f()}", "{a:@,...r}"];
    let few = ["var @=x;", "let @=x;", "function f(@){}", "(@)=>x", "async(@)=>x", "for(const @ of x);", "try{}catch(@){}", "x={set m(@){}}", "class A{m(@){}}", "const @;", "@=>x", "(p,@)=>x", "(...@)=>x", "function f(@=x){}", "for(var @ in x);", "for(let @=x;;);", "(@=x)=>y", "async(p,@)=>x"];
    let inner = ["a", "a=1", "a.b", "f()", "1", "[]", "{}", "{a}", "{a=1}", "[a]", "...a", "(a)", "eval", "{a,b}", "", "this", "a b"];
    let k = wrap.len();
    for d in 2..=c.pick(3usize, 3) {
        for goal in [Script, Module] {
            if goal == Module && d == 3 && c.quick() {
                continue;
            }
            c.by_index("nested binding patterns", goal, k.pow(d as u32), |mut i| {
                let mut t = "@".to_string();
                for _ in 0..d {
                    t = t.replace('@', wrap[i % k]);
                    i /= k;
                }
                few.iter().flat_map(|h| inner.iter().map(|l| h.replace('@', &t).replace('@', l)).collect::<Vec<_>>()).collect()
            });
        }
    }
    rows(c, "binding tokens", &[
        (Script, "var", "a [ ] { } , = : ...", ";", 6, 7),
        (Script, "let", "a [ ] { } , = ; \\n", "=b;", 6, 7),
        (Script, "const", "a [ ] { } , = : ; 1", "", 6, 7),
        (Script, "function f(", "a [ ] { } , = ... )", "){}", 6, 7),
        (Script, "function f({", "a : , = ... [ ] 's' 1 if get", "}){}", 5, 6),
        (Script, "var {", "a : , = ... [ ] { } 's' if", "}=b;", 6, 6),
        (Script, "var [", "a [ ] , = ... { } : ( )", "]=b;", 6, 6),
        (Script, "try{}catch(", "a [ ] { } , = : ... )", "){}", 6, 7),
        (Script, "for(let", "a [ ] { } , = of in ;", ");", 6, 7),
        (Script, "for(var", "a [ ] , = of in ; 1 (", ");", 6, 6),
        (Script, "(", "a [ ] { } , = : ... 1", ")=>b", 6, 7),
        (Script, "async(", "a [ ] { } , = : ... .b", ")=>b", 6, 6),
        (Script, "x={set m(", "a [ ] { } , = : ... )", "){}}", 6, 7),
        (Script, "class A{m(", "a [ ] , = ... yield await eval )", "){}}", 5, 6),
        (Module, "export const", "a [ ] { } , = : ... ;", "", 6, 7),
        (Script, "'use strict'; function f(", "a eval arguments [ ] { } , = ... yield let", "){}", 5, 6),
        (Script, "", "let a [ ] = ; \\n in of ( )", "", 6, 7),
    ]);
    size(c, "many bindings", Script, 1500, |n| vec![format!("var a{};", rep(",a", n)), format!("var a{};", rep(",a=1", n)), format!("function f({}a){{}}", rep("a,", n)), format!("function f({}...a){{}}", rep("a,", n)), format!("function f({}...a,){{}}", rep("a,", n)), format!("var [{}]=b;", rep("a,", n)), format!("var [{}a]=b;", rep(",", n)), format!("var {{{}}}=b;", rep("a,", n)), format!("let {{{}...c}}=b;", rep("a:d,", n)), format!("({}...a)=>b", rep("a,", n)), format!("function f(a{}){{}}", rep("=1,a", n)), format!("const a=1{},b;", rep(",a=1", n))]);
    size(c, "deep bindings", Script, 40, |n| vec![format!("var {}a{}=b", rep("[", n + 1), rep("]", n + 1)), format!("let {}a{}=b", rep("{a:", n + 1), rep("}", n + 1)), format!("function f({}a{}){{}}", rep("[{a:", n), rep("=1}]", n)), format!("var {}a.b{}=b", rep("[", n + 1), rep("]", n + 1)), format!("({}a{})=>b", rep("{a:[", n), rep("]={}}", n)), format!("try{{}}catch({}a{}){{}}", rep("[...", n), rep("]", n))]);
    let it: Vec<String> = leaf.iter().flat_map(|t| ["var @=x;", "let @=x;", "const @=x;", "var @;", "function f(@){}", "x=(@)=>b;", "x=async(@)=>b;", "for(let @ of x);", "for(var @ in x);", "try{}catch(@){}", "x={m(@){}};", "class A{set m(@){}}", "x=function(a,@){};", "x=(a,@)=>b;", "for(const @=x;;);", "function*f(...@){}"].map(|p| p.replace('@', t))).collect();
    let it: Vec<String> = it.into_iter().step_by(c.pick(2, 1)).collect();
    around(c, "bindings in every surrounding", &[Script], around_stmt(), &it);
    let it: Vec<String> = leaf.iter().flat_map(|t| ["function(@){}", "(@)=>b", "async(@)=>b", "{m(@){}}", "class{m(@){}}", "function(){var @=x}", "()=>{let @=x}", "async function*(a,@){}"].map(|p| p.replace('@', t))).collect();
    around(c, "bindings in every surrounding of expressions", &[Script], around_expr(), &it);
}

// ------------------------------------------------------------------------------------------------ C13
pub const STMT_CTX: &[&str] = &["@", "{@}", "if(a)@", "if(a)@\nelse b;", "if(a)b;else @", "while(a)@", "do @\nwhile(a)", "for(;;)@", "for(a in b)@", "for(a of b)@", "for(var a in b)@", "for(let a of b)@", "with(a)@", "a:@", "switch(a){case b:@}", "switch(a){default:@}", "try{@}catch(a){}", "try{}catch(a){@}", "try{}catch{@}", "try{}finally{@}", "function f(){@}", "()=>{@}", "class A{m(){@}}", "x={m(){@}}", "x=function*(){@}", "async function f(){@}", "@;@", "@\n@", "@ @", "if(a){@}else{@}", "{@}@", "a:{@}", "x={get m(){@}}", "async()=>{@}"];
pub fn c13(c: &mut Ctx) {
    let mut stm: Vec<&str> = STMTS.to_vec();
    stm.extend(SLOPPY);
    stm.extend(["let", "let a", "let \n a", "let [ a ] = b", "let { a } = b", "let = 1", "let ( )", "let : a", "async", "async \n function f ( ) { }", "async function", "function", "function ( ) { }", "class { }", "class", "const a", "if ( a )", "else", "while", "for", "do", "case a :", "default :", "try { }", "catch { }", "import a", "export a", "return", "return a", "throw", "throw \n a", "var", "function * ( ) { }", "a : function * b ( ) { }", "a : async function b ( ) { }", "a : class A { }", "a : let b", "a : const b = 1", "a : a : b", "if ( a ) function * b ( ) { }", "if ( a ) class A { }", "if ( a ) let b", "if ( a ) let \n { }", "if ( a ) let [ b ] = c", "if ( a ) const b = 1", "if ( a ) async function b ( ) { }", "if ( a ) a : function b ( ) { }", "while ( a ) function b ( ) { }", "for ( ; ; ) function b ( ) { }", "do function b ( ) { } while ( a )", "with ( a ) function b ( ) { }", "for ( a of b , c ) ;", "for ( let of b ) ;", "for ( let of of b ) ;", "for ( let in b ) ;", "for ( let ; ; ) ;", "for ( let = 1 ; ; ) ;", "for ( async of b ) ;", "for ( async of => b ; ; ) ;", "for ( let . a in b ) ;", "for ( let [ a ] of b ) ;", "for ( ; ) ;", "for ( ) ;", "for ( a ; b ) ;", "for ( a ) ;", "for ( ; ; ; ) ;", "for ( var a ) ;", "for ( var a , b in c ) ;", "for ( const a ; ; ) ;", "for ( var of of of ) ;", "for ( of of of ) ;", "for ( in in b ) ;", "for ( var in b ) ;", "switch ( a ) { b }", "switch { }", "switch ( a ) { case : }", "switch ( a ) { case a b }", "switch ( a ) { default : default : }", "switch ( a ) { default }", "switch ( a ) { case a : case b : { } ; }", "switch ( a , b ) { case c : let d ; class E { } function f ( ) { } const g = 1 }", "try { } catch ( ) { }", "try { } catch a { }", "try a catch { }", "try { } finally { } catch { }", "try { } catch { } catch { }", "try { } finally a", "with a b", "with ( ) a", "if a b", "if ( ) a", "if ( a ) else b", "if ( a ) ; ; else b", "do a while b", "do a b while ( c )", "do ; while ( a ) b", "do ; while ( a ) ; b", "while ( ) a", "a : }", "1 : a", "( a ) : b", "a . b : c", "this : a", "break a b", "debugger a", "debugger ( )", "{ a : b , c : d }", "{ a : 1 }", "{ a , b }", "{ 'a' : 1 }", "enum a", "function f ( ) { } ( )", "function f ( ) { } ( a )", "{ } ( a )", "function f ( ) { } [ a ]", "class A { } . b", "; function f ( ) { }", "'use strict' ; with ( a ) b"]);
    stm.sort();
    stm.dedup();
    let ctx2 = if c.quick() { 1 } else { 2 };
    for goal in [Script, Module] {
        c.nest("statement forms in statement contexts", goal, STMT_CTX, 0, 2, &stm);
        let _ = ctx2;
    }
    // pairs and triples of statements
    let heads = ["", "{ ", "function f ( ) { ", "switch ( a ) { case 1 : "];
    c.by_index("pairs of statements", Script, stm.len() * stm.len(), |i| {
        let (a, b) = (stm[i % stm.len()], stm[i / stm.len()]);
        let mut v = vec![];
        for s in [" ", "\n", " ; "] {
            for h in &heads[..c.pick(2, 4)] {
                let t = h.chars().filter(|x| *x == '{').map(|_| '}').collect::<String>();
                v.push(format!("{}{}{}{} {}", h, a, s, b, t));
            }
        }
        v
    });
    let small = ["a;", "{}", "if(a)b;", "if(a)b;else c;", "while(a)b;", "do a;while(b)", "for(;;)a;", "for(a in b)c;", "for(a of b)c;", "switch(a){case b:c}", "try{a}catch(b){c}finally{d}", "a:b;", "with(a)b;", "throw a;", "var a;", "let a;", "function f(){}", "class A{}", ";", "debugger;", "const a=1;", "'s'", "async function f(){}", "x=>{}", "else b;", "let\n"];
    c.grid("triples of statements", Script, &[&["", "{", "if(x)", "if(x)y;else ", "do ", "x:"], &small, &small, &small, &["", "}", "while(z)", "else z"]]);
    // dangling else: all nestings of if/else and loops
    let dang = ["if(a)@", "if(a)@ else b;", "if(a)b; else @", "while(a)@", "for(;;)@", "with(a)@", "x:@", "if(a){@}", "if(a){@}else c;", "do @ while(a)", "do @ while(a);", "for(a of b)@", "if(a)@ else @", "try{@}finally{}"];
    c.nest("dangling else", Script, &dang, 1, c.pick(4, 5), &["a;", "{}", "if(c)d;", "if(c)d;else e;", "function f(){}", ";", "a"]);
    rows(c, "statement tokens", &[
        (Script, "", "a if ( ) { } ; else", "", 8, 9),
        (Script, "", "a while ( ) { } ; do", "", 8, 9),
        (Script, "", "if(a) else b; { } while(c) for(;;) do", "", 7, 8),
        (Script, "", "for ( ) ; a in of var let", "", 7, 8),
        (Script, "for(", "a ; ) var = in of , {}", "b;", 7, 8),
        (Script, "for(", "let const var a in of = ; [ ] , async", ");", 5, 6),
        (Script, "switch(a){", "case default a : ; { } break ,", "}", 7, 8),
        (Script, "", "switch ( a ) { } case : default", "", 8, 9),
        (Script, "", "try { } catch ( ) finally a [ ]", "", 7, 9),
        (Script, "", "try catch finally {} (a) a ; throw", "", 6, 8),
        (Script, "", "a : ; { } function ( ) let", "", 6, 7),
        (Script, "", "a throw new ; \\n ( ) debugger", "", 6, 7),
        (Script, "", "with ( a ) { } ; if else", "", 7, 8),
        (Script, "", "do while ( a ) ; { } \\n else", "", 7, 8),
        (Script, "", "if(a) else function_f(){} class_A{} let_b; const_c=1; var_d; ; { } x:", "", 5, 6),
        (Script, "", "while(a) function_f(){} async_function_g(){} function*h(){} { } x: if(b) else ; do", "", 5, 6),
        (Module, "", "a if ( ) { } ; else function_f(){}", "", 7, 8),
        (Module, "", "for ( ) ; a in of const =", "", 7, 8),
        (Script, "", "{ } ; a , : 1 's' function", "", 6, 7),
        (Script, "", "let a = [ ] { } ( ) ; \\n", "", 6, 7),
    ]);
    size(c, "many statements", Script, 3000, |n| vec![rep(";", n), rep("{}", n), rep("a;", n), rep("if(a);", n), rep("var a;", n), rep("function f(){}", n), format!("{{{}}}", rep("a;", n)), format!("switch(a){{{}}}", rep("case 1:", n)), format!("switch(a){{{}default:}}", rep("case 1:a;break;", n)), format!("switch(a){{{}default:default:}}", rep("case 1:", n)), format!("try{{{}}}finally{{{}}}", rep("a;", n), rep("b;", n)), format!("{}else b", rep("if(a);", n)), format!("for({}a;;);", rep("a,", n)), rep("class A{}", n), rep("try{}catch{}", n)]);
    size(c, "deep statements", Script, 60, |n| vec![format!("{}a{}", rep("{", n), rep("}", n)), format!("{}a;{}", rep("if(a)", n), rep("else b;", n)), format!("{}a;", rep("if(a);else ", n)), format!("{}a;", rep("while(a)", n)), format!("{}a;", rep("a:", n)), format!("{}{}", rep("function f(){", n), rep("}", n)), format!("{}a;{}", rep("do ", n), rep("while(b);", n)), format!("{}{}", rep("switch(a){case 1:", n), rep("}", n)), format!("{}{}", rep("try{", n), rep("}finally{}", n)), format!("{}a;{}", rep("if(a)", n), rep("else b;", n + 1)), format!("{}a{}", rep("{", n), rep("}", n + 1)), format!("{}a;", rep("for(;;)", n)), format!("{}{}", rep("x=function(){", n), rep("}", n))]);
    let it: Vec<String> = stm.iter().map(|s| s.to_string()).chain(small.iter().flat_map(|a| small.iter().map(move |b| format!("{}{}", a, b)))).collect();
    around(c, "statements in every surrounding", &[Script, Module], around_stmt(), &it);
}

// ------------------------------------------------------------------------------------------------ C14
pub fn c14(c: &mut Ctx) {
    let loops = ["while(a){@}", "do{@}while(a);", "for(;;){@}", "for(a in b){@}", "for(var a of b){@}", "while(a)@", "do @ while(a);", "for(;;)@", "for(let a in b)@", "for(a of b)@"];
    let sw = ["switch(a){case b:@}", "switch(a){default:@}", "switch(a){case b:default:@ case c:}"];
    let plain = ["{@}", "if(a){@}", "if(a)b;else{@}", "if(a)@ else b;", "try{@}finally{}", "try{}catch(a){@}", "try{}catch{}finally{@}", "with(a){@}", "x:{@}", "x:@", "x:for(;;){@}", "x:while(a)@"];
    let fun = ["function f(){@}", "x=function(){@};", "x=()=>{@};", "x=async()=>{@};", "x={m(){@}};", "x={get m(){@}};", "x={set m(a){@}};", "x={*m(){@}};", "x={async m(){@}};", "class A{m(){@}}", "class A{constructor(){@}}", "class A{static m(){@}}", "class A{get m(){@}}", "class A{set m(a){@}}", "class A{static async*m(){@}}", "function*f(){@}", "async function f(){@}", "async function*f(){@}", "x=class{m(){@}};", "f(function(){@});", "[()=>{@}];", "`${function(){@}}`;", "function f(a=function(){@}){}", "(a=()=>{@})=>b;", "x={[function(){@}]:1};", "class A extends(function(){@}){}", "class A{[function(){@}](){}}", "x=a=>{@};", "for(x=function(){@};;){}", "while(function(){@}){}", "switch(function(){@}){case()=>{@}:}", "if(()=>{@});", "function*g(){yield function(){@}}", "var {a=function(){@}}=b;", "throw function(){@};", "x=async a=>{@};"];
    let mut all: Vec<&str> = vec![];
    all.extend(loops);
    all.extend(sw);
    all.extend(plain);
    all.extend(fun);
    // something around the hole, so that a jump also stands before and after a nested construct
    let mut ctx: Vec<String> = all.iter().map(|x| x.to_string()).collect();
    for x in &all {
        ctx.push(format!("{}J", x.replace('@', "a;")));
    }
    let jumps = ["return;", "return a;", "break;", "continue;", "break x;", "continue x;", "break", "continue", "return", "a;", ";", "break;break;continue;return;", "{break;}", "if(a)break;else continue;", "x:break x;", "a;continue;"];
    let ctxs = all.clone();
    for goal in [Script, Module] {
        c.nest("jumps in nestings", goal, &ctxs, 0, 2, &jumps);
    }
    c.nest("jumps in nestings", Script, &ctxs, 3, 3, c.pick(&["return;", "break;", "continue;"][..], &jumps[..]));
    // jump after, beside and before the inner construct, at every level
    let k = all.len();
    let after = ["break;", "continue;", "return;", "break", "continue", "break x;"];
    c.by_index("jumps beside a nested construct", Script, k * k, |i| {
        let (o, n) = (all[i % k], all[i / k]);
        let mut v = vec![];
        for j in after {
            for j2 in ["a;", "break;", "continue;", "return;"] {
                v.push(o.replace('@', &format!("{}{}", n.replace('@', j2), j)));
                v.push(o.replace('@', &format!("{}{}", j, n.replace('@', j2))));
                v.push(format!("{}{}", o.replace('@', &n.replace('@', j2)), j));
            }
        }
        v
    });
    if c.quick() {
        let few = ["while(a){@}", "do @ while(a);", "for(a of b)@", "switch(a){case b:@}", "{@}", "if(a)@", "x:@", "try{@}finally{}", "function f(){@}", "x=()=>{@};", "x={get m(){@}};", "class A{m(){@}}", "async function f(){@}", "`${function(){@}}`;", "function f(a=function(){@}){}"];
        c.nest("deep nestings", Script, &few, 4, 4, &["return;", "break;", "continue;", "break x;"]);
        let kk = few.len();
        c.by_index("jumps after two nested constructs", Script, kk * kk * kk, |i| {
            let (o, m, n) = (few[i % kk], few[i / kk % kk], few[i / kk / kk]);
            after[..3].iter().flat_map(|j| vec![o.replace('@', &format!("{}{}", m.replace('@', &n.replace('@', "a;")), j)), o.replace('@', &format!("{}{}{}", m.replace('@', "a;"), n.replace('@', "a;"), j)), o.replace('@', &m.replace('@', &format!("{}{}", n.replace('@', "a;"), j)))]).collect()
        });
    } else {
        c.nest("deep nestings", Script, &ctxs, 4, 4, &["break;"]);
        c.nest("deep nestings", Module, &ctxs, 3, 3, &jumps);
        c.by_index("jumps after two nested constructs", Script, k * k * k, |i| {
            let (o, m, n) = (all[i % k], all[i / k % k], all[i / k / k]);
            after[..3].iter().flat_map(|j| vec![o.replace('@', &format!("{}{}", m.replace('@', &n.replace('@', "a;")), j)), o.replace('@', &format!("{}{}{}", m.replace('@', "a;"), n.replace('@', "a;"), j)), o.replace('@', &m.replace('@', &format!("{}{}", n.replace('@', "a;"), j)))]).collect()
        });
    }
    let _ = ctx;
    // jumps in expression position and arrow bodies, in heads
    let heads = ["while(@)a;", "for(@;;)a;", "for(;@;)a;", "for(;;@)a;", "for(a in @)b;", "do a;while(@)", "switch(@){}", "switch(a){case @:}", "if(@)a;", "with(@)a;", "x=@;", "()=>@", "function f(a=@){}", "class A extends @{}", "[@]", "x={@}", "class A{@}", "`${@}`", "throw @;", "return_(@)"];
    c.nest("jumps in heads", Script, &heads, 1, 2, &["break", "continue", "return", "function(){return}", "function(){break}", "()=>{return}", "()=>{continue}", "()=>{for(;;)break}"]);
    // defaults
    let cl = ["case a:", "default:", "case b:break;", "default:break;", "case a:{}", "case a:switch(b){default:}", "case a:switch(b){default:default:}", "default:switch(b){default:}", "case a:function f(){switch(c){default:}}", "default:continue;", "case default:", "default a:", "default:a;case b:"];
    c.grid("switch clauses", Script, &[&["switch(a){", "for(;;)switch(a){", "function f(){switch(a){"], &cl, &cl, &cl, c.pick(&[""][..], &cl[..]), &["}", "}}", "}break;", "}continue;"]]);
    rows(c, "jump tokens", &[
        (Script, "", "for(;;) { } break continue ; function_f() a", "", 6, 7),
        (Script, "", "while(a) { } break; return; ()=> switch(b){ case_c:", "", 6, 7),
        (Script, "", "x: { } break x continue ; for(;;)", "", 6, 8),
        (Script, "function f(){", "return ; { } a while(a) ()=>{ break;", "}", 6, 7),
        (Script, "switch(a){", "case_b: default: break; continue; { } switch(c){ for(;;) return;", "}", 6, 7),
        (Module, "", "for(;;) { } break; continue; return; async_function_f(){ class_A{m(){ }}", "", 6, 7),
    ]);
    size(c, "deep jump nestings", Script, 60, |n| vec![format!("{}break;{}", rep("while(a){", n), rep("}", n)), format!("{}break;{}", rep("function f(){while(a){", n), rep("}}", n)), format!("{}continue;{}", rep("switch(a){case 1:", n), rep("}", n)), format!("while(a){{{}continue;{}}}", rep("switch(a){case 1:", n), rep("}", n)), format!("while(a){{{}break;{}}}", rep("function f(){", n), rep("}", n)), format!("{}{}break;", rep("while(a){", n), rep("}", n)), format!("while(a){{{}{}break;}}", rep("function f(){", n), rep("}", n)), format!("function f(){{{}{}return;}}", rep("()=>{", n), rep("};", n)), format!("while(a){{{}break;}}", rep("x=function(){};", n)), format!("while(a){{{}break;}}break;", rep("while(b){break;}", n))]);
    let it: Vec<String> = all.iter().flat_map(|x| jumps.iter().map(move |j| x.replace('@', j))).chain(all.iter().flat_map(|x| after.iter().map(move |j| format!("{}{}", x.replace('@', "a;"), j)))).chain(jumps.iter().map(|j| j.to_string())).collect();
    around(c, "jumps in every surrounding", &[Script], around_stmt(), &it);
    let few: Vec<String> = it.iter().enumerate().filter(|(i, _)| i % c.pick(5, 1) == 0).map(|x| x.1.clone()).collect();
    around(c, "jumps in two surroundings, one of each kind", &[Script], twice(), &few);
    let it: Vec<String> = it.into_iter().step_by(c.pick(4, 1)).collect();
    around(c, "jumps in every surrounding", &[Module], around_stmt(), &it);
}

// ------------------------------------------------------------------------------------------------ C15
pub fn c15(c: &mut Ctx) {
    let src = ["function f(){@}", "function f(){'use strict';@}", "x=function(){'use strict';@};", "x=function(){@};", "x=()=>{'use strict';@};", "x=()=>{@};", "x=async()=>{'use strict';@};", "x=a=>{'use strict';@};", "x=async a=>{'use strict';@};", "async function f(){'use strict';@}", "function*f(){'use strict';@}", "async function*f(){'use strict';@}", "x={m(){'use strict';@}};", "x={m(){@}};", "x={get m(){'use strict';@}};", "x={set m(a){'use strict';@}};", "x={*m(){'use strict';@}};", "x={async m(){'use strict';@}};", "class A{m(){@}}", "class A{static m(){@}}", "class A{constructor(){@}}", "class A{get m(){@}}", "x=class{m(){@}};", "class A{}@", "function f(){'use strict'}@", "(class{});@", "x=()=>{'use strict'};@", "'use strict';@", "\"use strict\";@", "'use strict'\n@", "'a';'use strict';@", "a;'use strict';@", "('use strict');@", "'use strict'.a;@", "'use strict',a;@", "'use\\x20strict';@", "'use strict ';@", "'USE STRICT';@", "`use strict`;@", "'use strict'+a;@", "'use strict'\n+a;@", "'use strict'\n(a);@", "'use strict'/*\n*/@", "{'use strict';@}", "if(a){'use strict';@}", "{@}", "for(;;){@}", "if(a){@}", "switch(a){case b:@}", "try{@}finally{}", "(function(){'use strict'})();@", "x={m(){'use strict'}};@", "x={get m(){'use strict'}};@", "f(function(){'use strict'},function(){@});", "x=[class{},()=>{@}];", "class A{m(){}}function f(){@}", "async function f(){'use strict'}@", "x=async()=>{'use strict'};@", "'a'\n'use strict'\n@", "'use strict';'a';@", "'use strict';;@", ";'use strict';@", "\n'use strict';@", "/**/'use strict';@", "'use strict';'use strict';@", "use:'use strict';@", "'\\u0075se strict';@", "'use strict\\\n';@", "class A extends(function(){@}){}", "class A{[function(){@}](){}}", "function f(a=function(){@}){}", "`${function(){'use strict'}}`;@", "`${class{}}`;@", "export default class{}\n@", "export function f(){'use strict'}@", "'use strict'\n[a];@", "'use strict'\n;@", "'use strict'\n?a:b;@", "'use strict'in a;@", "'use strict'\n/a/g;@", "'use strict'\n++a;@", "'use strict'=a;@", "'use strict'\n`t`;@", "'use strict'\n=>a;@", "'use strict'\n.a;@", "'use strict'instanceof a;@", "'use strict'\nin a;@", "'use strict'&&a;@", "'use strict'**a;@", "'use strict','use strict';@", "'use strict'}@", "'use strict' @"];
    let bad = ["with(a)b;", "with(a){}", "x:function g(){}", "x:y:function g(){}", "if(a)function g(){}", "if(a);else function g(){}", "if(a)function g(){}else function h(){}", "eval=1;", "arguments=1;", "eval+=1;", "eval++;", "++arguments;", "--eval;", "arguments--;", "(eval)=1;", "((arguments))++;", "[eval]=a;", "[a,...eval]=b;", "[[arguments]]=a;", "({eval}=a);", "({eval=1}=a);", "({a:eval}=b);", "({a:arguments=1}=b);", "({...eval}=a);", "var eval;", "let arguments=1;", "const eval=1;", "var [eval]=a;", "var {eval}=a;", "var {a:eval}=b;", "var {...arguments}=a;", "var [...eval]=b;", "var {eval=1}=a;", "function eval(){}", "function g(eval){}", "function g(a,arguments){}", "function g(...eval){}", "function g([eval]){}", "function g({arguments}){}", "function g(eval=1){}", "x=function eval(){};", "x=function arguments(){};", "x=function(eval){};", "function*eval(){}", "async function arguments(){}", "x=async function eval(){};", "x=eval=>a;", "x=(eval)=>a;", "x=(a,arguments)=>b;", "x=({eval})=>a;", "x=async eval=>a;", "x=async(arguments)=>a;", "x=(...eval)=>a;", "try{}catch(eval){}", "try{}catch([arguments]){}", "try{}catch({a:eval}){}", "for(eval in a);", "for(arguments of a);", "for(var eval in a);", "for(let arguments of a);", "for([eval] of a);", "for({arguments} in a);", "for(var eval;;);", "for(eval=1;;);", "x={m(eval){}};", "x={set m(arguments){}};", "x={*m(eval){}};", "x={async m(eval){}};", "class eval{}", "x=class arguments{};", "class B{m(eval){}}", "class B{set m(eval){}}", "implements;", "interface=1;", "let;", "package++;", "private();", "x=protected;", "public.a;", "static[a];", "yield;", "yield=1;", "yield();", "var implements;", "var interface;", "var package;", "let private;", "const protected=1;", "var public;", "var static;", "var yield;", "var let;", "function implements(){}", "function g(static){}", "function g(yield){}", "function yield(){}", "x=function yield(){};", "x=function let(){};", "x=function*static(){};", "x=interface=>a;", "x=(package)=>a;", "x=(yield)=>a;", "x=async private=>a;", "x=async(static)=>a;", "try{}catch(public){}", "try{}catch(yield){}", "for(let in a);", "for(let=1;;);", "for(static of a);", "for(yield in a);", "for(var protected in a);", "public:a;", "yield:a;", "let:a;", "for(;;)break static;", "x={implements};", "x={yield};", "x={static}=a;", "({let}=a);", "({package=1}=b);", "[interface]=a;", "[...private]=b;", "class static{}", "class let{}", "class yield{}", "class B extends yield{}", "x={[yield]:1};", "`${static}`;", "x=yi\\u0065ld;", "x=l\\u0065t;", "s\\u0074atic=1;", "x=\\u0065val;", "\\u0065val=1;", "let\na;", "let[0];", "x=let;", "x=static+1;", "typeof yield;", "f(let);", "yield\n/a/g;", "x=eval;", "eval();", "arguments[0];", "x.eval=1;", "x={eval:1};", "x.static;", "x={let:1,yield:2};", "eval.a=1;", "(eval.a)++;", "x={eval(){}};", "class B{eval(){}static let(){}yield(){}}", "x=a?yield:static;", "async();", "await;", "var await;", "x={eval};", "f(eval,arguments);", "[eval];", "[arguments[0]]=a;", "delete a.b;", "x=01;", "'\\01';", "eval:a;", "enum;", "a;", "var a;", "x={arguments};", "new yield;", "do yield\nwhile(a)", "if(yield)a;", "throw static;", "switch(let){case yield:}", "var{a:yield}=b;", "var[let]=a;", "x=class extends let{};", "(let)=1;", "let=1;", "let();", "let.a;", "x={get static(){}};", "implements\n++\na", "x=(a,static)=>b;", "x=(a=yield)=>b;", "x=([yield])=>b;", "x=async(a=let)=>b;", "function g(a=static){}", "function g(a=eval=1){}", "x=(eval=1)=>a;", "x=(a=eval=1)=>b;", "function g(a=function(eval){}){}"];
    c.nest("strict-only errors", Script, &src, 0, 1, &bad);
    c.nest("strict-only errors", Module, &src, 0, 1, &bad);
    let deep: Vec<&str> = c.pick(bad.iter().step_by(9).copied().collect(), bad.to_vec());
    c.nest("strict-only errors, two levels", Script, &src, 2, 2, &deep);
    if !c.quick() {
        let core: Vec<&str> = src.iter().step_by(3).copied().collect();
        c.nest("strict-only errors, three levels", Script, &core, 3, 3, &["with(a)b;", "eval=1;", "var static;", "yield=1;", "x:function g(){}", "x=eval=>a;"]);
    }
    // a strict function's own name and parameters
    let own = ["function @(){%}", "function f(@){%}", "function f(a,@){%}", "function f(...@){%}", "function f(a=@){%}", "x=function @(){%};", "x=function(@){%};", "x=(@)=>{%};", "x=@=>{%};", "x=async(@)=>{%};", "x=async @=>{%};", "x={m(@){%}};", "x={set m(@){%}};", "x={@(){%}};", "x={get @(){%}};", "class A{m(@){%}}", "class @{m(){%}}", "function*@(){%}", "function*g(@){%}", "async function @(){%}", "async function g(@){%}", "x=async function @(){%};", "x=function*@(){%};", "function f(a){%}@", "@\nfunction f(){%}", "function f(){%}function g(){@}", "function f(){function @(){%}}", "function f(){function g(@){%}}", "x=function @(){function h(){%}};", "function f(a=function @(){%}){}", "function @(){function g(){%}}", "x={async m(@){%}};", "x={*m(@){%}};", "function f({@}){%}", "function f([@]){%}", "function f({a:@}){%}"];
    let names = ["eval", "arguments", "implements", "interface", "let", "package", "private", "protected", "public", "static", "yield", "await", "async", "a", "of", "get", "yi\\u0065ld", "\\u0065val", "enum", "if"];
    let body = ["'use strict'", "\"use strict\";", "'a';'use strict'", "a;'use strict'", "", "'use\\x20strict'", "('use strict')", "'use strict'\n", "{'use strict'}", "'use strict'+1", "'use strict'\n+1", "return 'use strict'"];
    for goal in [Script, Module] {
        c.by_index("names and parameters of functions with directives", goal, own.len(), |i| {
            let mut v = vec![];
            for n in names {
                for b in body {
                    for p in ["@", "'use strict';@", "class A{m(){@}}", "function o(){@}", "@eval=1;", "@with(a)b;"] {
                        v.push(p.replace('@', &own[i].replace('@', n).replace('%', b)));
                    }
                }
            }
            v
        });
    }
    // before / inside / after, in sequence
    let con = ["class A{}", "(class{});", "x=class extends B{m(){}};", "function f(){'use strict'}", "x=function(){'use strict'};", "x=()=>{'use strict'};", "x={m(){'use strict'}};", "x={get a(){'use strict'}};", "async function f(){'use strict'}", "x=async()=>{'use strict'};", "f(class{},", "[class{},", "`${class{}}`;", "class A{m(){'use strict'}}", "class A{static m(){}}", "x=async a=>{'use strict'};", "function*g(){'use strict'}", "x={*g(){'use strict'}};", "class A extends class{}{}", "class A{[class{}](){}}", "x={a:class{},", "var a=class{},", "for(a of class{});", "if(class{});", "try{}catch{(class{})}", "function f(a=class{}){}", "(a=class{})=>b;", "x={set a(b){'use strict'}};", "class A{get a(){}set a(b){}}", "a?class{}:", "class{}+", "x=class{}\n", "new class{}\n", "typeof class{}\n", "(a,class{})\n", "export default class{}\n", "export class A{}\n", "export default function(){'use strict'}\n"];
    c.by_index("after a strict construct", Script, con.len() * con.len(), |i| {
        let (a, b) = (con[i % con.len()], con[i / con.len()]);
        let mut v = vec![];
        for t in ["with(a)b;", "eval=1;", "yield", "yield=1", "static", "let=1", "eval++", "(eval)=>1", "eval=>1", "function(eval){}", "function eval(){}", "{yield}", "[eval]=1", "{eval}=1", "x:function g(){}", "if(a)function g(){}", "var public", "implements"] {
            if i / con.len() == 0 {
                for s in ["", ")", "]", "}", ");", "];", "};"] {
                    v.push(format!("{}{}{}", a, t, s));
                }
            }
            v.push(format!("{}{}{}", a, b, t));
            v.push(format!("{{{}{}}}{}", a, b, t));
            v.push(format!("function o(){{{}{}{}}}", a, t, b));
        }
        v
    });
    rows(c, "strict tokens", &[
        (Script, "", "'use_strict' ; \\n eval = a function_f() { } (", "", 6, 7),
        (Script, "", "'use_strict' ; 'a' with(a) b { } \\n + (", "", 6, 7),
        (Script, "function f(", "eval , a ) { 'use_strict' } ; \\n static", "", 6, 8),
        (Script, "x =", "( eval , ) => { 'use_strict' } ; =", "", 7, 8),
        (Script, "", "class A { } m(){ eval = ; yield", "", 6, 8),
        (Script, "'use strict';", "yield static let eval = ( ) => ++ ,", "", 5, 6),
        (Script, "function f(){'use strict';", "yield static let eval = } ; with(a) x: function_g(){}", "}", 5, 6),
        (Script, "'use strict';", "x: if(a) function_f(){} ; else { } with(b) while(c)", "", 5, 6),
        (Module, "", "yield static let eval arguments = ( ) => ++ { }", "", 5, 6),
    ]);
    size(c, "long prologues", Script, 600, |n| vec![format!("{}'use strict';with(a)b", rep("'a';", n)), format!("{}'use strict';a", rep("'a';", n)), format!("{}a;'use strict';with(a)b", rep("'a';", n)), format!("function f(){{{}'use strict';eval=1}}", rep("'a'\n", n)), format!("'use strict';{}with(a)b", rep("a;", n)), format!("'use strict';{}eval=1", rep("function f(){}", n)), format!("{}with(a)b", rep("class A{}", n)), format!("{}yield=1", rep("function f(){'use strict'}", n))]);
    size(c, "deep strictness", Script, 60, |n| vec![format!("'use strict';{}with(a)b{}", rep("function f(){", n), rep("}", n)), format!("{}with(a)b{}", rep("function f(){", n), rep("}", n)), format!("{}'use strict'{}with(a)b", rep("function f(){", n), rep("}", n)), format!("{}'use strict';with(a)b{}", rep("function f(){", n), rep("}", n)), format!("class A{{m(){{{}eval=1{}}}}}", rep("()=>{", n), rep("}", n)), format!("class A{{m(){{{}a{}}}}}eval=1", rep("()=>{", n), rep("}", n)), format!("{}{}static=1", rep("class A{m(){", n), rep("}}", n))]);
    let it: Vec<String> = bad.iter().map(|b| b.to_string()).chain(bad.iter().step_by(c.pick(6, 1)).flat_map(|b| src.iter().map(move |s| s.replace('@', b)))).chain(src.iter().flat_map(|s| ["with(a)b;", "eval=1;"].iter().map(move |w| format!("{}{}", s.replace('@', "a;"), w)))).collect();
    around(c, "strict-only errors in every surrounding", &[Script], around_stmt(), &it);
    // after a strict construct, wherever that stands
    let only = ["with(a)b", "eval=1", "static", "arguments++", "x=eval=>1", "function q(a,b,public){}", "x:function g(){}", "var let_,interface"];
    let it: Vec<String> = con.iter().flat_map(|k| only.iter().map(move |t| format!("{}{}", k, t))).collect();
    let sur: Vec<String> = around_stmt().into_iter().flat_map(|s| vec![format!("class Z{{m(){{{}}}}}", s), s]).collect();
    around(c, "after a strict construct in every surrounding", &[Script], sur, &it);
    around(c, "after a strict construct in two surroundings, one of each kind", &[Script], twice(), &it);
    let it: Vec<String> = con.iter().filter(|k| k.starts_with("x=") || k.starts_with('(')).map(|k| k.trim_start_matches("x=").trim_end_matches(&[';', '\n'][..]).to_string()).collect();
    let sur: Vec<String> = around_expr().into_iter().flat_map(|s| only.iter().map(|t| format!("{}\n{}", s, t)).collect::<Vec<_>>()).collect();
    around(c, "after a strict construct in every surrounding of expressions", &[Script], sur.clone(), &it);
    let sur: Vec<String> = sur.iter().map(|s| format!("function*g(){{{}}}", s)).collect();
    around(c, "after a strict construct in every surrounding of expressions", &[Script], sur, &it);
    // every place in a long parameter list, and what else may be in it
    let form = ["function f(@){%}", "x=function(@){%};", "x=function n(@){%};", "function*g(@){%}", "async function h(@){%}", "async function*k(@){%}", "x=(@)=>{%};", "x=async(@)=>{%};", "x={m(@){%}};", "x={*m(@){%}};", "x={async m(@){%}};", "x={async*m(@){%}};", "class A{m(@){%}}", "class A{constructor(@){%}}", "class A{static async m(@){%}}", "export default function(@){%}"];
    let other = ["p", "{q}", "[r]", "s=1", "{t=1}", "u=function(){'use strict'}", "v=class{}", "w=(y=1)=>{}", "z=(y)=>{'use strict'}"];
    let bn = ["eval", "arguments", "static", "yield", "let", "a", "public", "of", "{eval}", "[static]", "{a:arguments}", "eval=1", "...package", "...[eval]", "{...yield}"];
    c.by_index("restricted names at every place of a parameter list", Script, form.len() * bn.len(), |i| {
        let (f, n) = (form[i % form.len()], bn[i / form.len()]);
        let mut v = vec![];
        for b in ["'use strict'", "", "'a';'use strict';a", "a"] {
            for k in 0..12 {
                for m in [0, 1, 2, 12] {
                    let mut l: Vec<String> = (0..k).map(|j| format!("p{}", j)).collect();
                    l.push(n.to_string());
                    l.extend((0..m.min(12)).map(|j| format!("q{}", j)));
                    for h in ["", "'use strict';", "class B{}"] {
                        v.push(format!("{}{}", h, f.replace('@', &l.join(",")).replace('%', b)));
                    }
                }
            }
            for o in other {
                for l in [format!("{},{}", o, n), format!("{},{}", n, o), format!("{},a,{}", o, n), format!("{},{},{}", o, n, o.replace("p", "p2"))] {
                    for h in ["", "'use strict';", "class B{}"] {
                        v.push(format!("{}{}", h, f.replace('@', &l).replace('%', b)));
                    }
                }
            }
        }
        v
    });
    // a directive against every kind of parameter, in sloppy and strict surroundings
    let l = ["", "a", "a,b", "a=1", "[a]", "{a}", "...a", "a,b=1", "a,...b", "a,{b}", "[]", "{}", "a,b,c,d=1", "a,"];
    c.by_index("directives against every parameter list", Script, form.len() * l.len(), |i| {
        let t = form[i % form.len()].replace('@', l[i / form.len()]);
        let mut v = vec![];
        for b in ["'use strict'", "'a'\n'use strict'", "a;'use strict'", "'use strict'+a", "('use strict')", "{'use strict'}", "x=function(){'use strict'}", "'use\\x20strict'", "'a'", "'use strict';'use strict'", "x=(a=1)=>{'a'}", "class B{m(a=1){}}"] {
            let u = t.replace('%', b);
            for h in ["@", "'use strict';@", "class C{m(){@}}", "function o(){'use strict';@}", "function o(){@}", "'use strict';{@}", "function o(){'use strict'}@", "class C{}@"] {
                v.push(h.replace('@', &u));
            }
        }
        v
    });
}

// ------------------------------------------------------------------------------------------------ C16
pub fn c16(c: &mut Ctx) {
    let forms = ["function f(){@}", "x=function(){@};", "x=function n(){@};", "function*g(){@}", "x=function*(){@};", "x=function*n(){@};", "async function h(){@}", "x=async function(){@};", "x=async function n(){@};", "async function*k(){@}", "x=async function*(){@};", "x=()=>{@};", "x=()=>(@);", "x=a=>{@};", "x=async()=>{@};", "x=async()=>(@);", "x=async a=>{@};", "x={m(){@}};", "x={*m(){@}};", "x={async m(){@}};", "x={async*m(){@}};", "x={get m(){@}};", "x={set m(a){@}};", "class A{m(){@}}", "class A{*m(){@}}", "class A{async m(){@}}", "class A{async*m(){@}}", "class A{static m(){@}}", "class A{static*m(){@}}", "class A{static async m(){@}}", "class A{get m(){@}}", "class A{set m(a){@}}", "class A{constructor(){@}}", "function f(a=(@)){}", "function*g(a=(@)){}", "async function h(a=(@)){}", "x=(a=(@))=>b;", "x=async(a=(@))=>b;", "x={m(a=(@)){}};", "x={*m(a=(@)){}};", "x={async m(a=(@)){}};", "class A{[(@)](){}}", "x={[(@)](){}};", "class A extends(@){}", "async function*k(a=(@)){}", "x={async*m(a=(@)){}};", "{@}", "if(a){@}", "x=[(@)];", "f((@));", "`${(@)}`;", "x=(@);", "for(;;){@}", "x={a:(@)};", "x={...(@)};", "a?(@):b;", "x=(a,b)=>{@};", "x=async(a,b)=>(@);", "x={[(@)]:1};", "async(a,(@));", "async((@));", "'use strict';@", "x=class{m(){@}};", "export default function(){@}", "export default async function(){@}", "export default function*(){@}", "export default async()=>{@}"];
    let uses = ["yield", "yield a", "yield*a", "yield\na", "yield*\na", "yield\n*a", "yield yield", "yield yield a", "yield,a", "yield+a", "a+yield", "yield=1", "yield++", "yield()", "yield.a", "yield[a]", "yield[a]=b", "yield(a)", "yield/a/g", "yield\n/a/g", "yield/a", "yield`t`", "yield?a:b", "a?yield:b", "a?yield b:c", "x=yield", "x=yield a", "x=yield*a", "(yield)", "(yield a)", "(yield)=>a", "yield=>a", "(yield,a)=>b", "[yield]", "[yield a,yield b]", "[yield]=a", "{yield}", "x={yield}", "x={yield:a}", "x={a:yield}", "x={a:yield b}", "x={yield(){}}", "x={[yield]:a}", "({yield}=a)", "f(yield)", "f(yield a,yield)", "f(...yield a)", "`${yield}`", "`${yield a}`", "yield:a", "var yield", "var yield=a", "let yield", "var [yield]=a", "var {yield}=a", "var {a=yield}=b", "var a=yield", "var a=yield b", "function yield(){}", "function*yield(){}", "function q(yield){}", "function q(a=yield){}", "function*q(a=yield){}", "x=function yield(){}", "x=function*yield(){}", "x=yield=>a", "x=(a=yield)=>b", "x=(a=yield c)=>b", "class yield{}", "class B extends(yield){}", "class B{[yield](){}}", "try{}catch(yield){}", "for(yield in a);", "for(yield of a);", "for(var yield of a);", "for(x of yield a);", "for(x in yield);", "for(yield;;);", "for(var x=yield;;);", "if(yield)a", "while(yield a)b", "do a;while(yield)", "switch(yield){case yield:}", "throw yield", "return yield", "return yield a", "typeof yield", "typeof yield a", "-yield", "!yield a", "delete yield", "new yield", "new yield()", "yield**a", "a**yield", "a=yield=b", "a.yield", "a.yield=1", "x={get yield(){}}", "class B{yield(){}}", "yield in a", "yield of", "yield;yield a", "yield\nyield", "yield async()=>{}", "yield()=>{}", "yield a=>b", "yield function(){}", "yield{}", "yield{a}", "yield[]", "yield class{}", "yield!a", "yield-a", "yield++a", "yield a++", "yield a=b", "yield a,b", "yield a?b:c", "yield(a)+b", "yield new a", "yield this", "yield''", "yield`${yield}`", "yi\\u0065ld", "yi\\u0065ld a", "x={yi\\u0065ld}", "continue yield", "break yield", "yield:yield", "async yield=>a", "async(yield)=>a", "async(a=yield)=>b", "x=async(yield)", "eval(yield)", "{yield a}", "{yield\n}", "super.yield", "yield super.a", "await yield", "await yield a", "yield await", "yield await a", "yield*await a", "await", "await a", "await\na", "await await a", "await a+b", "a+await b", "-await a", "await-a", "await+a", "await!a", "await(a)", "await[a]", "await{}", "await/a/g", "await`t`", "await()", "await.a", "await a.b", "await a()", "await new a", "await a**b", "(await a)**b", "a**await b", "await=1", "await++", "++await", "await a++", "await++a", "(await)", "(await)=>a", "await=>a", "(a,await)=>b", "(a=await)=>b", "(a=await b)=>c", "x=await", "x=await a", "[await]", "[await a]", "[await]=a", "x={await}", "x={await:a}", "x={a:await}", "x={a:await b}", "x={await(){}}", "x={[await a]:b}", "({await}=a)", "f(await)", "f(await a,await b)", "`${await}`", "`${await a}`", "await:a", "var await", "let await=a", "var [await]=a", "var {await}=a", "var {a=await b}=c", "var a=await b", "function await(){}", "async function await(){}", "function q(await){}", "function q(a=await){}", "async function q(a=await b){}", "x=function await(){}", "x=async function await(){}", "x=await=>a", "x=(a=await)=>b", "x=async(await)=>a", "x=async await=>a", "x=async(a=await)=>b", "x=async(a=await b)=>c", "x=async(a,await)", "class await{}", "class B extends(await a){}", "class B{[await a](){}}", "try{}catch(await){}", "for(await in a);", "for(await of a);", "for(var await of a);", "for(x of await a);", "for(await a;;);", "if(await a)b", "throw await a", "return await a", "typeof await a", "typeof await", "delete await a", "a.await", "x={get await(){}}", "class B{await(){}}", "await in a", "await a in b", "await instanceof a", "await;await a", "await\nawait", "await async()=>{}", "await()=>{}", "await a=>b", "await function(){}", "await class{}", "await a?b:c", "await a,b", "await a=b", "aw\\u0061it", "aw\\u0061it a", "x={aw\\u0061it}", "async await=>await", "async(await)", "async a=>await a", "async()=>await a", "()=>await a", "()=>await", "a=>await", "a=>await b", "()=>yield", "()=>yield a", "a=>{yield}", "()=>{yield a}", "function q(){yield}", "function q(){yield a}", "function q(){await}", "function q(){await a}", "function*q(){yield a}", "function*q(){await a}", "async function q(){await a}", "async function q(){yield a}", "x={m(){yield}}", "x={m(){await}}", "x={*m(){yield a}}", "x={async m(){await a}}", "class B{m(){await a}}", "class B{m(){await}}", "class B{m(){yield a}}", "async", "async()", "async(a)", "async\n(a)=>b", "async a\n=>b", "async\na=>b", "async\nfunction q(){}", "async function\nq(){}", "async=1", "async.a", "async=>a", "(async)=>a", "async async=>async", "async(async)=>a", "x={async}", "x={async:a}", "x={async(){}}", "var async", "function async(){}", "async:a", "async in a", "for(async of a);", "for(async in a);", "for(async of=>a;;);", "async()\n{}", "async(...a)", "async(...a)=>b", "async(a,)=>b", "async(a,)", "async({a=1})=>b", "async({a=1})", "async`t`", "async?a:b", "async/a/g", "async++", "await async a=>b", "async()()", "async().a", "async(a)(b)", "async()=>{}()", "async a=>{}()", "()=>{}()", "a=>{}()", "()=>{}.a", "()=>{}||a", "a||()=>{}", "()=>{}?a:b", "a?()=>{}:b", "a?b:()=>{}", "()=>{},a", "new()=>{}", "typeof()=>{}", "...a=>b", "()=>a,b", "()=>({})", "()=>{}\na", "()=>{}\n(a)", "()=>{}\n[a]", "()=>{}/a/g", "a=>b=>c", "a=>{b=>{}}", "(a)\n=>b", "a\n=>b", "()\n=>a", "()", "(a,)", "(a,)=>b", "(,)=>a", "(...a)", "(a,...b)", "(...a,)=>b", "(...a,b)=>c", "((a))=>b", "((a,b))=>c", "(a)=>b", "(a,b)=>c", "(a.b)=>c", "(1)=>a", "(a+b)=>c", "(a())=>b", "function(){}", "function q(){}", "function*(){}", "function*q(){}", "async function(){}", "async function q(){}", "async function*q(){}", "(function(){})", "(function q(){})", "(function*(){})", "(function*q(){})", "(async function(){})", "(async function*q(){})", "function q(){}()", "(function(){})()", "(function(){}())", "!function(){}()", "function q(a,b,...c){}", "function q(a,){}", "function q(,){}", "function q(...a,){}", "x={get a(b){}}", "x={set a(){}}", "x={set a(b,c){}}", "x={set a(...b){}}", "x={set a([b]){}}", "x={set a(b=1){}}", "function*q(){function*yield(){}}", "function*q(){x=function yield(){}}", "function*q(){x=function*yield(){}}", "async function q(){function await(){}}", "async function q(){x=function await(){}}", "async function q(){x=async function await(){}}", "async function q(){async function await(){}}", "function*q(){async function yield(){}}", "function*q(yield){}", "async function q(await){}", "function*q(a=yield b){}", "async function*q(a=await b){}", "function*q(){(a=yield)=>b}", "function*q(){(a,b=yield c)=>d}", "async function q(){(a=await b)=>c}", "async function q(){async(a=await b)=>c}", "async function q(){async(await)=>c}", "function*q(){async(a=yield)=>c}", "async(x=function(){await})=>a", "async(x=await)=>a", "async(x=(await))", "(x=async()=>await a)=>b", "async(x=async()=>await a)=>b"];
    for goal in [Script, Module] {
        c.nest("uses in function forms", goal, &forms, 0, 1, &uses);
    }
    let few: Vec<&str> = uses.iter().copied().step_by(c.pick(6, 1)).collect();
    c.nest("uses in two function forms", Script, &forms, 2, 2, &few);
    let mfew: Vec<&str> = uses.iter().copied().skip(3).step_by(c.pick(12, 2)).collect();
    c.nest("uses in two function forms", Module, &forms, 2, 2, &mfew);
    if !c.quick() {
        let core = ["function f(){@}", "function*g(){@}", "async function h(){@}", "async function*k(){@}", "x=()=>{@};", "x=()=>(@);", "x=async()=>{@};", "x={m(){@}};", "x={*m(){@}};", "x={async m(){@}};", "class A{m(){@}}", "function f(a=(@)){}", "x=(a=(@))=>b;", "class A{[(@)](){}}", "x=async(a=(@))=>b;", "x=function n(){@};", "'use strict';@", "async((@));", "x=(@);"];
        let few: Vec<&str> = uses.iter().copied().step_by(4).collect();
        c.nest("uses in three function forms", Script, &core, 3, 3, &few);
    }
    // a use before, between and after nested forms
    let small = ["yield", "yield a", "await", "await a", "x=yield", "async", "return", "yield=1", "await=1"];
    let k = forms.len();
    c.by_index("uses beside a nested form", Script, k * k, |i| {
        let (o, n) = (forms[i % k], forms[i / k]);
        let mut v = vec![];
        for s in small {
            for t in ["a", "yield a"] {
                let inner = n.replace('@', t);
                let inner = if o.contains("(@)") { inner.trim_end_matches(';').to_string() } else { inner };
                let sep = if o.contains("(@)") { "," } else { "\n" };
                v.push(o.replace('@', &format!("{}{}{}", inner, sep, s)));
                v.push(o.replace('@', &format!("{}{}{}", s, sep, inner)));
            }
            v.push(format!("{}\n{}", o.replace('@', &n.replace('@', "a")), s));
        }
        v
    });
    // headers: every modifier, name, parameter list and body
    let kind = ["function ", "function*", "async function ", "async function*", "async\nfunction ", "function *\n", "async function * "];
    let names = ["", "n", "yield", "await", "async", "eval", "let", "static", "if", "of", "get", "1", "'s'", "[a]"];
    let params = ["()", "(a)", "(a,b)", "(a,)", "(,)", "(a=1)", "(...a)", "(a,...b)", "(...a,)", "(...a,b)", "([a])", "({a})", "({a=1})", "({a:b})", "(yield)", "(await)", "(a=yield)", "(a=await)", "(a=yield b)", "(a=await b)", "(a b)", "(1)", "(a.b)", "", "(", "(this)", "([a,b]=c,{d}={})", "(...[a])", "(...a=1)", "(a=b=>c)"];
    let body = ["{}", "{a}", "{return}", "{yield}", "{yield a}", "{await}", "{await a}", "", "a", "{", "{return yield}", "{'use strict'}", "=>a"];
    for p in ["", "x=", "(", "export default ", "export ", "if(a)", "x:", "new ", "x={a:", "f(", "class A extends ", "function*o(){", "async function o(){", "function*o(){x=", "async function o(){x="] {
        let t = match p {
            "(" | "f(" => ")",
            "x={a:" => "}",
            "class A extends " => "{}",
            x if x.ends_with("{") || x.contains("o(){") => "}",
            _ => "",
        };
        for goal in [Script, Module] {
            c.grid("function headers", goal, &[&[p], &kind, &names, &params, &body, &[t]]);
        }
    }
    let mk = ["", "*", "async ", "async*", "get ", "set ", "async\n", "static ", "static*", "static async ", "static async*", "static get ", "static set ", "*async ", "get*", "async get "];
    let mn = ["n", "yield", "await", "async", "get", "set", "static", "if", "1", "'s'", "[a]", "[yield]", "[await a]", "constructor", ""];
    for (h, t) in [("x={", "}"), ("class A{", "}"), ("function*o(){x={", "}}"), ("async function o(){class A{", "}}"), ("x=class{", "}"), ("class A extends B{", "}")] {
        for goal in [Script, Module] {
            c.grid("method headers", goal, &[&[h], &mk, &mn, &params, &["{}", "{yield a}", "{await a}", "{return}", "", "{yield}", "{await}"], &[t]]);
        }
    }
    let ap = ["()", "a", "(a)", "(a,b)", "(a,)", "(a=1)", "(...a)", "([a])", "({a})", "({a=1})", "(yield)", "yield", "(await)", "await", "async", "(async)", "(a=yield)", "(a=await)", "(a=await b)", "(a=yield b)", "1", "(1)", "a.b", "(a.b)", "[a]", "{a}", "(a)(b)", "a b", "((a))", "(a,...b)", "(...a,b)", "(a=b=>c)", "(a=async b=>c)", "let", "(let)", "static", "eval", "(eval)", "this", "(this)", "of", "get"];
    for (p, t) in [("", ""), ("x=", ""), ("f(", ")"), ("[", "]"), ("function*o(){", "}"), ("async function o(){", "}"), ("function*o(){x=", "}"), ("async function o(){x=", "}"), ("export default ", ""), ("`${", "}`"), ("a?", ":b"), ("a?b:", ""), ("a||", ""), ("!", ""), ("yield ", ""), ("await ", ""), ("'use strict';", ""), ("for(x of ", ");"), ("for(", ";;);"), ("if(", ");"), ("a=>", ""), ("async a=>", ""), ("x={y:", "}"), ("x={...", "}"), ("class A extends ", "{}"), ("new ", ""), ("(a=", ")=>b")] {
        for goal in [Script, Module] {
            c.grid("arrow functions", goal, &[&[p], &["", "async ", "async", "async\n"], &ap, &["=>", " => ", "\n=>", "=>\n"], &["a", "{}", "{return}", "({})", "{a}", "yield", "await", "await a", "yield a", "a,b", "a=b", "b=>c", "", "{}()", "{}.a", "{}\n(b)", "a?b:c", "a in b", "{yield}", "{await a}"], &[t]]);
        }
    }
    rows(c, "yield and await tokens", &[
        (Script, "function*g(){", "yield a * ; ( ) = } \\n", "}", 7, 8),
        (Script, "function*g(){", "yield a , [ ] { } : ?", "}", 6, 7),
        (Script, "async function g(){", "await a ; ( ) => } \\n +", "}", 6, 7),
        (Script, "async function*g(){", "await yield a * ( ) ; ,", "}", 6, 7),
        (Script, "", "async a ( ) => { } , \\n", "", 7, 8),
        (Script, "", "async function a ( ) { } * \\n ;", "", 6, 8),
        (Script, "", "async await yield a ( ) => = , {}", "", 6, 7),
        (Module, "", "async await yield a ( ) => = , {}", "", 6, 7),
        (Script, "function*g(){", "function* yield ( ) { } a => =", "}", 6, 7),
        (Script, "", "( a , ) => ... = { }", "", 7, 8),
        (Script, "", "function * a ( ) { } , = ...", "", 7, 8),
        (Script, "x = async (", "a await yield = , ) => ( {}", "", 6, 7),
        (Script, "async function f(){ x = async (", "a await = , ) => ( {} yield", "}", 6, 7),
        (Script, "function* f(){ x = (", "a yield = , ) => ( {} async", "}", 6, 7),
    ]);
    size(c, "nested function forms", Script, 40, |n| vec![format!("{}yield a{}", rep("function*g(){", n), rep("}", n)), format!("{}await a{}", rep("async()=>{", n), rep("}", n)), format!("function*g(){{{}yield{}}}", rep("()=>{", n), rep("}", n)), format!("function*g(){{{}a{};yield b}}", rep("()=>{", n), rep("}", n)), format!("async function g(){{{}a{};await b}}", rep("function f(){", n), rep("}", n)), format!("async function g(){{{}await{}}}", rep("function f(){", n), rep("}", n)), format!("{}a{}await=1", rep("async function f(){", n), rep("}", n)), format!("{}a", rep("a=>", n)), format!("{}a", rep("async a=>", n)), format!("{}a", rep("async(a)=>", n)), format!("function*g(){{{}}}", rep("yield ", n)), format!("async function g(){{{}a}}", rep("await ", n)), format!("{}1{}", rep("(a=", n.min(12)), rep(")=>b", n.min(12)))]);
    size(c, "many function forms", Script, 600, |n| vec![format!("{}yield=1", rep("function*g(){yield a}", n)), format!("{}await=1", rep("async function f(){await a}", n)), format!("function*g(){{{}yield a}}", rep("function f(){}", n)), format!("async function g(){{{}await a}}", rep("x=()=>{};", n)), format!("function f({}){{}}", vec!["a"; n].join(",")), format!("x=({})=>a", vec!["a"; n].join(",")), format!("x=async({})=>a", vec!["a"; n].join(",")), format!("async({})", vec!["a"; n].join(","))]);
    let it: Vec<String> = forms.iter().flat_map(|f| uses.iter().step_by(c.pick(5, 1)).map(move |u| f.replace('@', u))).chain(uses.iter().map(|u| u.to_string())).collect();
    around(c, "uses in every surrounding", &[Script], around_stmt(), &it);
    let few: Vec<String> = it.iter().enumerate().filter(|(i, _)| i % c.pick(7, 1) == 0).map(|x| x.1.clone()).collect();
    around(c, "uses in two surroundings, one of each kind", &[Script], twice(), &few);
    let it: Vec<String> = uses.iter().map(|u| u.to_string()).chain(forms.iter().flat_map(|f| ["yield", "await a"].map(|u| f.replace('@', u)))).collect();
    around(c, "uses in every surrounding", &[Module], around_stmt(), &it);
    around(c, "uses in every surrounding of expressions", &[Script, Module], around_expr(), &it);
    // a use in parameters that may or may not become an arrow function's, with other parentheses after or before it
    let el = ["x=await", "x=yield", "x=await a", "x=yield a", "await", "yield", "y=(b)=>c", "y=async(b)=>c", "y=async(b)", "y=(b)", "y=f(b)", "y=[b]", "y={b}", "y=async b=>c", "y=b=>c", "y=function(){}", "y=class{}", "y=`${b}`", "y=async function(){await a}", "y=function*(){yield}", "y=(b=await)", "y=(b=yield)", "y=(b=await)=>c", "y=async(b=await)", "y=async(b=yield)=>c", "y=(b,c)=>await", "y=async()=>await a", "b", "[b]", "{b}", "(b)", "y={m(){await}}", "y={*m(){yield}}", "y={m(b=yield){}}", "y=[await]", "y={[yield]:b}", "y={get a(){}}", "y={set a(b){}}", "y=function await(){}", "y=function yield(){}", "y={async m(){}}", "y=class{m(){}}"];
    let hd = ["(@)=>d", "async(@)=>d", "(@)", "async(@)", "([@])=>d", "async([@])=>d", "f(@)", "((@)=>d)", "async((@))=>d", "({p:[@]})=>d", "(p=[@])=>d", "async(p=[@])=>d", "(p=(@))=>d", "async(p=async(@))=>d", "(p=async(@))=>d", "async(p=(@))=>d"];
    let en = ["@", "function*g(){@}", "async function h(){@}", "async function*k(){@}", "function*g(){x=()=>{@}}", "async()=>{@}", "function f(){@}", "'use strict';@"];
    c.by_index("uses beside other parentheses in what may be parameters", Script, el.len() * el.len(), |i| {
        let (a, b) = (el[i % el.len()], el[i / el.len()]);
        let mut v = vec![];
        for h in hd {
            let t = h.replace('@', &format!("{},{}", a, b));
            v.extend(en.iter().map(|e| e.replace('@', &t)));
            for d in el.iter().step_by(c.pick(3, 1)) {
                let t = h.replace('@', &format!("{},{},{}", a, b, d));
                v.extend(en.iter().take(4).map(|e| e.replace('@', &t)));
            }
        }
        v
    });
    c.by_index("uses beside other parentheses in what may be parameters", Module, el.len() * el.len(), |i| {
        let (a, b) = (el[i % el.len()], el[i / el.len()]);
        hd.iter().flat_map(|h| ["@", "async function h(){@}", "function*g(){@}"].iter().map(|e| e.replace('@', &h.replace('@', &format!("{},{}", a, b)))).collect::<Vec<_>>()).collect()
    });
}

// ------------------------------------------------------------------------------------------------ C17
pub fn c17(c: &mut Ctx) {
    let mods = ["", "get ", "set ", "async ", "*", "async*", "static ", "static get ", "static set ", "static async ", "static*", "static async*", "get\n", "set\n", "async\n", "static\n", "get*", "set*", "*get ", "*async ", "async get ", "async set ", "get set ", "get async ", "async async ", "static static ", "get static ", "async static ", "async *", "* ", "get get ", "set set ", "async\n*", "static async\n", "static\nget\n", "static static get ", "static async * ", "...", "g\\u0065t ", "\\u0073et ", "\\u0061sync ", "stati\\u0063 ", "/**/get/**/", "get/*\n*/", "async/*\n*/"];
    let keys = ["a", "get", "set", "async", "static", "await", "yield", "let", "of", "if", "class", "true", "null", "this", "new", "super", "function", "in", "enum", "constructor", "prototype", "__proto__", "eval", "arguments", "'s'", "\"s\"", "''", "'constructor'", "'get'", "1", "0", "1.5", ".5", "1.", "0x10", "1e3", "010", "[a]", "['a']", "[1]", "[a,b]", "[a=b]", "[a in b]", "[`t`]", "[function(){}]", "[]", "[...a]", "[yield]", "[await]", "\\u0061", "i\\u0066", "$", "_", "\u{e9}", "`t`", "/r/", "-1", "(a)", "{}", "@", "#a", "", "a.b", "[a][b]", "target", "from", "as", "default", "typeof", "delete", "instanceof", "while", "implements"];
    let tails = ["", ":b", "=b", "(){}", "(b){}", "(b,c){}", "(b=1){}", "(...b){}", "([b]){}", "({b}){}", "():b", "()", "{}", "(){return}", "(){yield a}", "(){await a}", "(){super.a}", "(){super()}", ";", ":function(){}", ":()=>{}", ":[b]", ":{b}", ":b=c", ":b,c", ":yield", "\n(){}", "(\n)\n{\n}", ":...b", "b", "(b,){}", "(){},", ":class{}", ":async()=>{}", "(b)=>c", "(){}()", "(){}.b", "()=>{}", "\n:b", " = b", "(eval){}", "(){'use strict'}"];
    for goal in [Script, Module] {
        c.grid("object members", goal, &[&["x={", "({"], &mods, &keys, &tails, &["}", "})"]]);
        c.grid("class members", goal, &[&["class A{", "x=class{", "class A extends B{"][..c.pick(1, 3)], &mods, &keys, &tails, &["}"]]);
    }
    // sequences of members
    let mem = ["a", "a:b", "'s':b", "1:b", "[a]:b", "...a", "a(){}", "*a(){}", "async a(){}", "async*a(){}", "get a(){}", "set a(b){}", "get", "set", "async", "static", "get:a", "set:a", "async:a", "get(){}", "set(){}", "async(){}", "[a](){}", "'s'(){}", "1(){}", "get [a](){}", "get 's'(){}", "set 1(a){}", "async [a](){}", "*'s'(){}", "if:a", "if(){}", "get if(){}", "a=1", "if", "1", "'s'", "get a", "a b", "", "async get(){}", "get async(){}", "yield", "await", "__proto__:a", "a:b=c", "a:{b}", "a:[b]", "a:()=>{}", "a:function(){}", "a:class{}", "static(){}", "a\n", "async\na(){}", "get\na(){}", "...{a}", "...[a]", "...a=b", "*[a](){}", "eval", "a:a,b:b", "a:yield"];
    let objs = [["x={", "};"], ["({", "})"], ["({", "}=z)"], ["({", "})=>z"], ["async({", "})=>z"], ["f({", "})"], ["[{", "}]=z"], ["for({", "} of z);"], ["`${{", "}}`"], ["x={y:{", "}}"], ["x={", "}.y"], ["x={", "}/1"], ["x=[{", "},{}]"]];
    c.by_index("pairs of object members", Script, mem.len() * mem.len(), |i| {
        let (a, b) = (mem[i % mem.len()], mem[i / mem.len()]);
        let mut v = vec![];
        for o in &objs[..c.pick(5, objs.len())] {
            v.push(format!("{}{},{}{}", o[0], a, b, o[1]));
        }
        v.push(format!("x={{{},{},}}", a, b));
        v.push(format!("x={{{}\n,{}}}", a, b));
        v.push(format!("x={{{} {}}}", a, b));
        v.push(format!("x={{{},,{}}}", a, b));
        v
    });
    c.by_index("single object members in every context", Script, mem.len(), |i| objs.iter().flat_map(|o| ["", ",", ",,"].iter().map(move |t| format!("{}{}{}{}", o[0], mem[i], t, o[1]))).collect());
    let cm = ["a(){}", "*a(){}", "async a(){}", "async*a(){}", "get a(){}", "set a(b){}", "static a(){}", "static*a(){}", "static async a(){}", "static async*a(){}", "static get a(){}", "static set a(b){}", "constructor(){}", "static constructor(){}", "get constructor(){}", "'constructor'(){}", "[a](){}", "static [a](){}", "get [a](){}", "'s'(){}", "1(){}", "get(){}", "set(){}", "async(){}", "static(){}", "static static(){}", "static get(){}", "static set(){}", "static async(){}", "get get(){}", "set set(a){}", "get static(){}", "async get(){}", "if(){}", "static if(){}", ";", ";;", "a(){};", "\na(){}\n", "static get static(){}", "static async get(){}", "prototype(){}", "static prototype(){}", "eval(){}", "yield(){}", "await(){}", "*get(){}", "*static(){}", "async*static(){}", "constructor(a,...b){super()}", "get\na(){}", "static\na(){}", "\\u0061(){}", ",", "}", "a(){}}", "get a(b){}", "set a(){}", "a(){super.b}", "a(){super()}", "a()", "static *async(){}", "static 's'(){}", "set 1(a){}", "get 's'(){}", "async\na(){}"];
    c.grid("pairs of class members", Script, &[&["class A{", "x=class extends B{", "class A{static a(){}"], &cm, &["", ";", "\n", ",", " "], &cm, &["}"]]);
    if !c.quick() {
        c.grid("triples of class members", Script, &[&["class A{"], &cm, &cm, &cm, &["}"]]);
        c.grid("triples of object members", Script, &[&["x={"], &mem, &[","], &mem, &[","], &mem, &["}"]]);
    }
    let heads = ["class", "class A", "class A extends B", "class extends B", "class A extends B.c", "class A extends B()", "class A extends (B,C)", "class A extends B,C", "class A extends", "class extends", "class A extends class{}", "class A extends function(){}", "class A extends ()=>{}", "class A extends a=>b", "class A extends -a", "class A extends a+b", "class A extends new B", "class A extends [a]", "class A extends {}", "class A extends `t`", "class A extends a`t`", "class A extends null", "class A extends async()", "class A extends async()=>{}", "class A extends a[b]", "class A extends this", "class A extends super.a", "class A extends await", "class A extends yield", "class A extends a=b", "class A extends (a=b)", "class A extends a?b:c", "class A extends a++", "class A extends ++a", "class let", "class static", "class eval", "class if", "class get", "class async", "class await", "class yield", "class A B", "class A,", "class 1", "class 's'", "class A extends static", "class A extends let", "class A extends eval", "class extends", "class extends extends", "class A\nextends\nB\n"];
    let bodies = ["{}", "{a(){}}", "{;}", "{constructor(){super()}}", "", "{", "{static a(){}get b(){}}", "{}{}", "{}.a", "{}()", "\n{}"];
    for (p, t) in [("", ""), ("x=", ";"), ("(", ")"), ("export default ", ""), ("export ", ""), ("if(a)", ""), ("new ", ""), ("function*g(){", "}"), ("async function g(){", "}"), ("'use strict';", ""), ("[", "]"), ("f(", ")"), ("x={a:", "}"), ("`${", "}`"), ("return_=", ""), ("label:", "")] {
        for goal in [Script, Module] {
            c.grid("class headers", goal, &[&[p], &heads, &bodies, &[t]]);
        }
    }
    rows(c, "object tokens", &[
        (Script, "x = {", "a : , () {} get set async *", "}", 7, 8),
        (Script, "x = {", "a 's' 1 [a] : , get (){} ...", "}", 6, 7),
        (Script, "x = {", "get set async static * (){} : a , =", "}", 5, 6),
        (Script, "({", "a = , : { } [ ] ...", "} = z)", 6, 7),
        (Script, "x = {", "get a ( ) { } , b :", "}", 7, 8),
        (Script, "x = {", "async * a ( ) { } , await yield", "}", 6, 7),
        (Script, "x = {", "if get (){} : , yield await let =", "}", 5, 6),
        (Module, "x = {", "a : , () {} get async * await", "}", 6, 7),
        (Script, "", "{ } a : , ( ) = [ ]", "", 6, 7),
    ]);
    rows(c, "class tokens", &[
        (Script, "class A {", "a (){} (b){} ; get set static async * [c](){}", "}", 5, 6),
        (Script, "class A {", "get set static async * (){} (b){} 's' 1 [c]", "}", 5, 6),
        (Script, "class A {", "get_a(){} constructor(){} static ; , * async \\n", "}", 5, 6),
        (Script, "", "class A extends B { } a(){} ( ) ;", "", 6, 7),
        (Script, "x =", "class A extends { } a(){} ( ) . new", "", 6, 7),
        (Module, "class A {", "a (){} get static async * await (await){} \\n ;", "}", 5, 6),
    ]);
    size(c, "many members", Script, 1500, |n| vec![format!("x={{{}}}", rep("a,", n)), format!("x={{{}}}", rep("a:1,", n)), format!("x={{{}b}}", rep("get a(){},", n)), format!("x={{{}}}", rep("...a,", n)), format!("x={{{}a b}}", rep("a,", n)), format!("class A{{{}}}", rep("a(){}", n)), format!("class A{{{}}}", rep("static get a(){}", n)), format!("class A{{{}}}", rep(";", n)), format!("class A{{{}a}}b", rep("a(){}", n)), format!("x={{{}}}", rep("[a]:1,'b':2,3:4,", n)), format!("x={{{}}}", rep("async*a(){},*b(){},c(){},", n / 3)), format!("x={{a{}:1}}", rep("b", n)), format!("x={{'{}':1}}", rep("b", n))]);
    size(c, "deep members", Script, 45, |n| vec![format!("x={}a{}", rep("{a:", n), rep("}", n)), format!("x={}a{}", rep("{[", n), rep("]:1}", n)), format!("{}{}", rep("class A{m(){", n), rep("}}", n)), format!("x={}a{}", rep("{m(){return ", n), rep("}}", n)), format!("x={}a{}", rep("class{[", n), rep("](){}}", n)), format!("x={}a{}", rep("class extends ", n), rep("{}", n)), format!("x={}a{}", rep("{...", n), rep("}", n)), format!("x={}a{}", rep("{get a(){return ", n), rep("}}", n))]);
    let it: Vec<String> = mem.iter().flat_map(|m| vec![format!("{{{}}}", m), format!("{{{},a}}", m), format!("{{a:{{{}}}}}", m)]).chain(cm.iter().flat_map(|m| vec![format!("class{{{}}}", m), format!("class extends B{{{};a(){{}}}}", m)])).chain(mods.iter().flat_map(|m| ["a", "get", "if", "'s'", "[a]", "constructor"].iter().flat_map(move |k| ["", ":b", "(){}", "(b){}"].iter().map(move |t| format!("{{{}{}{}}}", m, k, t))))).collect();
    around(c, "members in every surrounding", &[Script], around_expr(), &it);
    let it: Vec<String> = it.into_iter().map(|x| format!("x={};", x)).collect();
    around(c, "members in every surrounding of statements", &[Script, Module], around_stmt(), &it);
}

// ------------------------------------------------------------------------------------------------ C18
pub fn c18(c: &mut Ctx) {
    let spec_i = ["", "a", "a,", "a,b", "a as b", "a as b,", "a as b,c", "a as b,c as d,e", "default as a", "default", "if as a", "if", "as", "as as", "as as as", "from", "from as from", "a as default", "a as if", "as as a", "let", "let as a", "static as b", "eval", "a as eval", "arguments", "yield", "await", "a as await", "await as a", "yield as y", "get", "async", "async as async", ",", "a,,b", "a b", "a as", "as a", "'a'", "'a' as b", "1", "*", "* as a", "a:b", "a=b", "...a", "{a}", "\\u0061", "i\\u0066 as a", "i\\u0066", "a as i\\u0066", "a \\u0061s b", "a as b as c", "default as default", "function as f", "new as n,", "implements", "implements as i", "enum as e", "enum", "null as n", "this", "true as t", "a\nas\nb", "a/**/as/**/b", "import as i", "export as e", "target", "of", "set as get"];
    let srcs = [" from 'm'", " from \"m\";", "from'm'", "", ";", " from", " from m", " from `m`", " 'm'", " from 'm' a", " from 'm'\na", " from 'm',", "\nfrom\n'm'\n", " fr\\u006fm 'm'", " from ('m')", " from 'm'.a", " from 'm'/1", " form 'm'", " from 'a\\u0062\\n'", " from ''", " from 1", " from 'm' from 'n'", " from 'm';;", " from 'm\n'", " from 'm' as b", " from from"];
    let clause = ["a", "a,", "a,b", "* as a", "* as default", "* as if", "*", "* a", "*as a", "* as", "* as a,b", "* as a,{b}", "a,* as b", "a,*", "a,* as b,{c}", "a,{b},* as c", "a,{b}", "a,{}", "a,{b},c", "{a},b", "{a},{b}", "{a},* as b", "default", "if", "let", "static", "eval", "yield", "await", "as", "from", "async", "of", "get", "type", "", "'m'", "\"m\"", "(a)", "(a);", ".meta", "a as b", "{a} as b", "[a]", "a.b", "1", "function f(){}", "var a", "* as eval", "* as let", "* as await", "* as a as b", "a * as b", "\\u0061", "l\\u0065t", "from,{a}", "from,* as from", "as,{as}", "a,b,{c}", "{a}", "{", "{a", "}", "{}", "* \\u0061s a", "*\nas\na", "a\n,\n{\nb\n}\n", "defer * as a", "from from", "await,{a}", "enum"];
    let pl = ["", ";", "{", "}", "if(a)", "function f(){", "'use strict';", "a\n", "a ", "a;", "x=", "(", "x:", "class A{m(){", "()=>{", "for(;;)", "switch(a){case 1:", "try{", "export ", "import ", "while(a)", "/**/", "{}\n", "export default ", "with(a)", "else ", "do ", "async function f(){", "x={m(){", "var a\n"];
    let close = |h: &str| -> String { h.chars().rev().filter_map(|x| match x { '{' => Some('}'), '(' if h == "(" => Some(')'), _ => None }).collect() };
    for goal in [Module, Script] {
        c.grid("import clauses", goal, &[&["import ", "import", "import\n", "import/**/"], &clause, &srcs, &["", "\na", " a", ";a", "import 'z'", "\nimport b from 'c'"]]);
        c.by_index("import specifiers", goal, spec_i.len(), |i| {
            let mut v = vec![];
            for s in srcs {
                for (a, b) in [("import {", "}"), ("import d,{", "}"), ("import{\n", "\n}"), ("import {z,", "}"), ("import {", ",z}"), ("import {", ",}"), ("import * as d,{", "}"), ("\nimport {", "}"), ("import {", "} "), ("import d {", "}"), ("import ", ""), ("import * as n, ", "")] {
                    v.push(format!("{}{}{}{}", a, spec_i[i], b, s));
                }
            }
            v
        });
        c.by_index("export specifiers", goal, spec_i.len(), |i| {
            let mut v = vec![];
            for s in srcs {
                for (a, b) in [("export {", "}"), ("export{\n", "\n}"), ("export {z,", "}"), ("export {", ",z}"), ("export {", ",}"), ("export *,{", "}"), ("export {", "}\n"), ("export d {", "}"), ("export {z as y, ", "}"), ("export ", ""), ("export * as ", ""), ("export default {", "}"), ("export var {", "}=q"), ("export let {", "}=q")] {
                    v.push(format!("{}{}{}{}", a, spec_i[i], b, s));
                }
            }
            v
        });
        let ex = ["*", "* as a", "*,a", "* from 'm'", "* as a from 'm'", "*\nfrom\n'm'", "var a", "var a=1", "var a,b", "var [a]=b", "var {a}=b", "var {a:{b=c},...d}=e", "var", "var 1", "let a", "let a=1,b", "let [a]=b", "let\na", "let", "const a=1", "const a", "const {a}=b", "function f(){}", "function(){}", "function*g(){yield}", "function*(){}", "async function f(){await a}", "async function(){}", "async function*g(){}", "async\nfunction f(){}", "async f(){}", "async", "async()=>{}", "class A{}", "class{}", "class A extends B{}", "class extends A{}", "class", "function", "function f", "function f()", "function eval(){}", "class eval{}", "var eval", "let let", "var await", "function await(){}", "async function await(){}", "function yield(){}", "class yield{}", "class await{}", "a", "a=1", "1", "'s'", "(a)", "[a]", "{a}", "{a};", "{a}\n", "if(a)b", "for(;;);", "while(a)b", "return", "this", "new a", "default", "default a", "default a;", "default a\nb", "default a b", "default a=b", "default a,b", "default (a,b)", "default 1", "default 's'", "default `t`", "default /r/g", "default [a]", "default {}", "default {a}", "default {a:1}", "default (a)", "default a?b:c", "default a=>b", "default ()=>{}", "default ()=>{}\na", "default async", "default async\n", "default async()", "default async()=>{}", "default async a=>b", "default async\nfunction f(){}", "default async function f(){}", "default async function(){}", "default async function*(){yield await a}", "default async function(){}()", "default async()\n=>{}", "default async.a", "default async=1", "default function(){}", "default function f(){}", "default function*(){}", "default function*g(){}", "default function(){}()", "default function(){}(a)", "default function(){}\n(a)", "default function(){}.a", "default function f(){};", "default function f(){}a", "default (function(){})", "default (function(){})()", "default class{}", "default class A{}", "default class A extends B{m(){}}", "default class extends A{}", "default class{}.a", "default class{};", "default class{}a", "default class{}\n[a]", "default (class{})", "default new a", "default this", "default null", "default typeof a", "default -a", "default a++", "default yield", "default await", "default await a", "default let", "default let a", "default let\n[a]", "default var a", "default const a=1", "default import 'a'", "default export", "default default", "default if", "default return", "default throw a", "default", "default;", "default\na", "default from", "default as", "default of", "default get", "default static", "default eval", "default eval=1", "default a from 'm'", "default * from 'm'", "default {a} from 'm'", "default enum", "default abstract", "default interface", "default implements", "default function f(eval){}", "default function*(yield){}", "default async function(await){}", "default function yield(){}", "default function await(){}", "import a from 'b'", "import 'a'", "export a", "export {}", "as a", "from 'm'", "a from 'm'", "a,b", "async a=>b", "enum", "type a", "interface A{}", "@", "{default}", "{default as a}", "{default} from 'm'", "{if}", "{if} from 'm'", "{if as a} from 'm'", "{if as a}", "{a as if}", "{a as default}", "{a as default,b as default}", "{a,a}", "{} from 'm'", "{}", "{};", "{}\nfrom", "{}\nfrom\n'm'", "{a} from\n'm'", "{a}from'm'", "{a} from m", "{a}=b", "{a}.b", "{a:b}", "{a=1}", "{...a}", "{'a'}", "{a as 'b'}", "{a as b as c}", "{let}", "{static}", "{eval}", "{arguments}", "{await}", "{yield}", "{let} from 'm'", "{await} from 'm'", "{yield as a} from 'm'", "{implements}", "{implements as i}", "{null}", "{this}", "{enum}", "{i\\u0066}", "{a as i\\u0066}", "{\\u0061}", "default \\u0061", "d\\u0065fault a", "default async \\u0061=>b", "default \\u0061sync()=>{}", "default \\u0061sync function(){}"];
        c.by_index("export declarations at every place", goal, ex.len(), |i| {
            let mut v = vec![];
            for h in pl {
                for t in ["", ";", "\nb", ";b"] {
                    v.push(format!("{}export {}{}{}", h, ex[i], t, close(h)));
                }
            }
            for p in ["export\n", "export/**/", "export", "exp\\u006frt ", "Export ", "exports "] {
                v.push(format!("{}{}", p, ex[i]));
            }
            v
        });
        let im = ["import 'm'", "import a from 'm'", "import {a} from 'm'", "import * as a from 'm'", "import a,{b as c} from 'm'", "import a,* as b from 'm'", "import {} from 'm'", "import {default as a} from 'm'", "imp\\u006frt 'm'", "import", "import a", "import {a}"];
        c.by_index("import declarations at every place", goal, im.len(), |i| pl.iter().flat_map(|h| ["", ";", "\nb", ";b", " b"].iter().map(|t| format!("{}{}{}{}", h, im[i], t, close(h))).collect::<Vec<_>>()).collect());
        c.by_index("two module items", goal, ITEMS.len() * ITEMS.len(), |i| {
            let (a, b) = (ITEMS[i % ITEMS.len()], ITEMS[i / ITEMS.len()]);
            ["", " ", "\n"].iter().flat_map(|s| vec![format!("{}{}{}", a, s, b), format!("{}{}{}", a.trim_end_matches(" ;"), s, b), format!("a{}{}{}{}", s, a, s, b)]).collect()
        });
        // with names of their own, so that nothing is declared twice and everything exported is declared
        let n = ITEMS.len();
        c.by_index("three module items with names of their own", goal, n * n, |i| {
            let (a, b) = (own_names(ITEMS[i % n], 1), own_names(ITEMS[i / n], 2));
            let mut v: Vec<String> = ["", " ", "\n", "\n;\n", "/**/"].iter().map(|s| format!("{}{}{}", a, s, b)).collect();
            v.push(format!("{}\n{}", a.trim_end_matches(" ;"), b.trim_end_matches(" ;")));
            v.push(format!("{{z}}{}function y(){{}}{}x=1", a, b));
            for d in ITEMS {
                v.push(format!("{}{}{}", a, b, own_names(d, 3)));
            }
            v
        });
        // every list of up to four specifiers
        let sp = ["a@", "a@ as b@", "default as d@", "if as e@", "let", "a@ as eval", "a@ as default", "as", "as as as", "from as f@", "a@ as if", "if", "*", "* as g@", "'s'", "async as of", "a@ b@", "\\u0061@", "get as set", "await", "a@ as static", ""];
        let k = sp.len();
        let depth = 4u32;
        c.by_index("lists of specifiers", goal, k.pow(depth), |i| {
            let mut r = i;
            let mut l = vec![];
            for d in 0..depth {
                l.push(sp[r % k].replace('@', &d.to_string()));
                r /= k;
            }
            while l.last().map_or(false, |x| x.is_empty()) {
                l.pop();
            }
            let l = l.join(",");
            let locals: String = (0..depth).map(|d| format!("a{},", d)).collect();
            vec![format!("import{{{}}}from'm'", l), format!("export{{{}}}from'm'", l), format!("export{{{}}};var {}z", l, locals), format!("import x,{{{},}}from'm'", l), format!("export{{{},}}\nvar {}z", l, locals)]
        });
        c.edits("edited module items", goal, ITEMS, &["a", "as", "from", "default", "{", "}", ",", "*", "'m'", "import", "export", "function", "class", "async", "=", "(", ")", ";", "var", "\n", "if", "let", "1"], c.pick(1, 1));
    }
    // the root node says which goal was used
    for goal in [Module, Script] {
        let v: Vec<String> = STMTS.iter().chain(SLOPPY).chain(SCRIPT).chain(ITEMS).map(|s| s.to_string()).chain(["".into(), ";".into(), "'use strict'".into(), "//".into(), "import.meta".into(), "import(a)".into()]).collect();
        c.all("root of every program", goal, &v);
    }
    rows(c, "module tokens", &[
        (Module, "", "import a { } , * as from 'x'", "", 7, 8),
        (Module, "", "export a { } , * as from 'x' default", "", 7, 8),
        (Module, "import {", "a as from default if , } 'x' ;", "", 7, 8),
        (Module, "export {", "a as from default if , } 'x' ;", "", 7, 8),
        (Module, "export", "default function class async a ( ) {} * =>", "", 6, 7),
        (Module, "export default", "function class async a ( ) {} * => ; ,", "", 6, 7),
        (Module, "export", "var let const a = , [ ] { } :", "", 6, 7),
        (Module, "import", "a , * as { } from 'x' b default", "", 7, 8),
        (Module, "", "import_'a' export {} a ; \\n { } if(b) function_f()", "", 6, 7),
        (Module, "import", "let eval static as from , { } * 'x'", "", 6, 7),
        (Script, "", "import export a { } from 'x' * default", "", 6, 7),
    ]);
    size(c, "many module items", Module, 1500, |n| vec![rep("import 'a';", n), format!("import {{{}}} from 'a'", rep("a,", n)), format!("import {{{}}} from 'a'", rep("a as b,", n)), format!("export {{{}}}", rep("a,", n)), format!("export {{{}}}", rep("a as b,", n)), format!("export {{{}}} from 'a'", rep("if as default,", n)), format!("export {{{}if}}", rep("a,", n)), rep("export var a;", n), rep("export * from 'a'\n", n), format!("import {{{}if}} from 'a'", rep("a,", n)), format!("{}{{import 'a'}}", rep("import 'a';", n)), format!("export var a{}", rep(",a", n)), format!("import a from '{}'", rep("b", n)), format!("{}import 'a'", rep("{a}", n)), format!("{}export {{}}", rep("function f(){}", n))]);
    let it: Vec<&str> = ITEMS.iter().copied().chain(["import a", "export a", "import", "export", "import {", "export {", "import(a)", "import.meta", "export default", "export default a", "export default function(){}", "export default class{}", "export *", "export {if}", "import {if} from 'a'"]).collect();
    around(c, "module items in every surrounding", &[Module, Script], around_stmt(), &it);
    let it: Vec<String> = ["a", "(a)", "{}", "function(){}", "class{}", "()=>{}", "function f(){}", "async function(){}", "a=b", "a,b", "[a]", "`t`"].iter().flat_map(|e| vec![format!("export default {}", e), format!("export var x={};", e), format!("import a from 'b';{}", e)]).collect();
    around(c, "module items in every surrounding", &[Module], around_stmt(), &it);
    for s in around_stmt() {
        // what stands before and after does not change an import or export
        if s.starts_with('@') || s.ends_with('@') {
            let v: Vec<String> = ITEMS.iter().map(|i| s.replace('@', i)).collect();
            c.all("module items beside every construct", Module, &v);
        }
    }
    let sur: Vec<String> = around_stmt().into_iter().flat_map(|s| vec![format!("export function f(){{{}}}", s), format!("export default function(){{{}}}", s), format!("export default class{{m(){{{}}}}}", s)]).collect();
    around(c, "exported bodies", &[Module], sur, &["a;", "yield;", "await;", "return;", "export {};", "import 'a';", "with(a);", "let a;", "function(){}", "class{}", "function*(){}", "async function(){}", "async function*(){}", "async\nfunction(){}", "class extends a{}", "function f(){}", "async function f(){}"]);
    let sur: Vec<String> = around_expr().into_iter().flat_map(|s| vec![format!("export default function(){{{}}}", s), s]).collect();
    around(c, "module words in expressions", &[Module, Script], sur, &["import(a)", "import.meta", "import", "export", "await", "await a", "yield", "a", "import 'a'", "export {}"]);
    let sur: Vec<String> = around_expr().into_iter().filter(|s| s.starts_with("x=")).flat_map(|s| vec![format!("export default {}", &s[2..]), format!("export var {}", s), format!("export const {{a={}}}=b", s[2..].trim_end_matches(';'))]).collect();
    around(c, "exported expressions", &[Module], sur, &["a", "1", "{}", "[]", "function(){}", "()=>{}", "a=>b", "a,b", "a=b", "class{}", "a in b", "await a", "`t`", "/r/"]);
}

/// A module item whose names of one letter have a digit added; what it exports by name is declared.
fn own_names(item: &str, k: usize) -> String {
    let mut t: Vec<String> = vec![];
    for w in item.split(' ') {
        let plain = w.len() == 1 && w.chars().all(|x| x.is_ascii_alphabetic());
        t.push(if plain { format!("{}{}", w, k) } else { w.to_string() });
    }
    let mut s = t.join(" ");
    if item.starts_with("export {") && !item.contains("from") {
        let mut names = vec![];
        let mut first = true;
        for w in &t[2..] {
            if w == "," {
                first = true;
            } else if first && w != "}" && w != ";" {
                names.push(w.clone());
                first = false;
            }
        }
        if !names.is_empty() {
            s = format!("{} var {} ;", s, names.join(" , "));
        }
    }
    s
}

// ------------------------------------------------------------------------------------------------ C23
pub fn c23(c: &mut Ctx) {
    let base = ["a", "this", "(a)", "1", "'s'", "`t`", "/r/", "[]", "[a]", "{}", "(a,b)", "function(){}", "class{}", "()=>{}", "new a", "new a()", "new a.b", "new (a)", "new (a())", "new new a", "new new a()", "new new a()()", "new a`t`", "new a[b]", "new this", "new function(){}", "new class{}", "new.target", "new new.target", "new.target()", "super.x", "super[x]", "super()", "super", "async", "async()", "async(a)", "import", "null", "true", "a=b", "a?b:c", "a++", "-a", "typeof a", "await a", "yield", "new -a", "new a++", "new ()", "new", "new (a,b)()", "new (a.b)", "new (a.b())", "new a.b.c", "new a.b[c].d", "new a()()", "new a().b", "new a()[b]", "new a()`t`", "new a.b()", "new (a)()", "new (new a)", "new new a.b", "new super.x", "new super()", "new async", "new async()", "new async()=>{}", "new a=>b", "new [a]", "new {}", "new 1", "new 's'", "new `t`", "new /r/", "new new new a", "new new new a()()()", "let", "of", "get", "new\na", "new a\n()", "new.\ntarget", "new\n.target", "new.targe", "new.target.a", "new.target=1", "new new.target()", "new new.target()()", "new.t\\u0061rget", "n\\u0065w a", "super.x()", "super\n.x", "super?x:y", "super.", "super[", "super()()", "new super.x()", "delete super.x", "super`t`"];
    let step = [".b", "[b]", "()", "(b)", "(b,c)", "(...b)", "(b,...c)", "(...b,c,)", "(b,)", "(,)", "`t`", "`${b}`", "`a${b}c`", ".if", ".class", "[b,c]", "[]", "(b=>c)", "(b,c=>d)", "[b in c]", "(b in c)", "(yield)", "(await d)", "\n.b", "\n[b]", "\n(b)", "\n`t`", ".\nb", ". b", ".1", "..b", ".[b]", ".(b)", ".`t`", ".'s'", ".\\u0062", ".b.c", "(b)(c)", "[b][c]", "()()", "`t``u`", "++", "=d", " in d", "?d:e", "(b=c)", "(b,(c,d))", "(... b)", "(..b)", "(b c)", "(b", "[b", "`${", "(b;c)", "[b;c]", "(...)", "[...b]", "(b...c)", "(function(){})", "({})", "([])", "(/r/)", "`\\u`", "`\\x4`", "`\\01`", "`\\u{110000}${b}\\8`", "({b}=c)", "[{b}]", ".get", ".of", ".new", ".target", ".super", ".await", ".yield", ".enum", "=>d", "/d", "**d"];
    for (h, t) in [("", ""), ("x=", ";"), ("class A extends B{constructor(){", "}}"), ("x={m(){return ", "}}"), ("function f(){", "}"), ("new ", ""), ("new new ", ""), ("(", ")")] {
        c.grid("base and two steps", Script, &[&[h], &base, &step, &step, &[t]]);
    }
    c.grid("base and step", Module, &[&["", "x=", "new ", "async function f(){", "class A{m(){"], &base, &step, &["", "}", "}}"]]);
    let st3 = [".b", "[b]", "()", "(b)", "(...b)", "`t`", "`${b}`", ".if", "\n(b)", "\n.b", "++", "=c", "(b,)"];
    let b3 = ["a", "(a)", "new a", "new new a", "new a()", "new (a)", "new new a()", "super.x", "super()", "new.target", "async", "async()", "this", "new (a())", "new a.b", "function(){}", "`t`", "[]", "new new new a", "new async", "1", "super[x]", "new function(){}", "new class{}", "new `t`", "new super.x", "new new.target"];
    let n4: &[&str] = c.pick(&[""][..], &st3[..]);
    c.grid("four steps", Script, &[&["x=", "x={m(){return "], &b3, &st3, &st3, &st3, n4, &["", "}}"]]);
    rows(c, "chain tokens", &[
        (Script, "x =", "new a ( ) .b [ ] `t`", "", 7, 9),
        (Script, "", "new a ( ) . target , ...", "", 7, 8),
        (Script, "x = { m() { return", "super a ( ) .b [ ] new =", "} }", 6, 7),
        (Script, "class A extends B { constructor() {", "super a ( ) .b ; => new", "} }", 6, 7),
        (Script, "f (", "a , ... ( ) [ ] => =", ")", 7, 8),
        (Script, "a", "` ${ } b ( ) . [ ]", "", 6, 7),
        (Script, "x =", "new new.target ( ) a . [ ] `t` function(){}", "", 6, 7),
        (Script, "x =", "a . b if class 1 [ ] ( )", "", 6, 7),
        (Script, "function f() {", "new . target ( ) a = [ ] `t`", "}", 6, 7),
        (Module, "async function f() {", "await new a ( ) .b [ ] `t`", "}", 6, 7),
        (Script, "", "a ( ) ++ = new .b - !", "", 7, 7),
        (Script, "x =", "async ( ) a , ... => .b new", "", 7, 8),
    ]);
    // arguments
    let arg = ["a", "...a", "a=b", "a?b:c", "(a,b)", "a=>b", "(a)=>b", "()=>{}", "async()=>{}", "async a=>b", "function(){}", "class{}", "{}", "[]", "{a}", "{a=1}", "[a]=b", "{a}=b", "yield", "await a", "a,", "", "...", "...a,", "......a", "... ...a", "a b", "/r/", "`t`", "1", "'s'", "new a", "a()", "...a=b", "...a?b:c", "...a=>b", "...(a,b)", "...[a]", "...{}", "-a", "a++", "a in b", "this", "super.x", "a:b", "a;", "...a b", "var a", "if"];
    c.grid("argument lists", Script, &[&["f(", "new f(", "a.b(", "async(", "super(", "f()(", "x={m(){super.x(", "class A extends B{constructor(){super("], &arg, &["", ","], &arg, &[")", ",)", ")(a)", ")=>a", ")}}"]]);
    c.grid("three arguments", Script, &[&["f(", "new f(", "async("], &arg, &[","], &arg, &[","], &arg, &[")", ")=>a"]]);
    size(c, "long chains", Script, 700, |n| vec![format!("a{}", rep(".b", n)), format!("a{}", rep("()", n)), format!("a{}", rep("[b]", n)), format!("a{}", rep("`t`", n)), format!("a{}", rep(".b(c)[d]", n / 3)), format!("f({}a)", rep("a,", n)), format!("f({}...b)", rep("a,", n)), format!("f({})", rep("...a,", n)), format!("new a({}b)", rep("b,", n)), format!("async({}b)", rep("b,", n)), format!("new a{}()", rep(".b", n)), format!("f({},)", rep("a,", n)), format!("x={{m(){{super.a{}}}}}", rep(".b()", n)), format!("a`{}`", rep("${b}", n)), format!("f({}a b)", rep("a,", n))]);
    size(c, "deep chains", Script, 60, |n| vec![format!("{}a", rep("new ", n)), format!("{}a{}", rep("new ", n), rep("()", n)), format!("{}a{}", rep("new ", n), rep("()", n / 2)), format!("{}a{}", rep("new ", n), rep("()", n + 1)), format!("{}a{}", rep("f(", n), rep(")", n)), format!("{}b{}", rep("a[", n), rep("]", n)), format!("x={}a{}", rep("new (", n.min(40)), rep(")", n.min(40))), format!("{}a{}", rep("new b.c(", n), rep(").d", n)), format!("{}a{}", rep("f`${", n.min(40)), rep("}`", n.min(40)))]);
    let two = runs(&st3, 2, 2);
    let it: Vec<String> = base.iter().flat_map(|b| step.iter().map(move |s| format!("{}{}", b, s))).chain(b3.iter().flat_map(|b| two.iter().map(move |t| format!("{}{}", b, t)))).collect();
    let it: Vec<String> = it.into_iter().step_by(c.pick(2, 1)).collect();
    around(c, "chains in every surrounding", &[Script], around_expr(), &it);
    let it: Vec<String> = it.into_iter().step_by(c.pick(3, 1)).collect();
    around(c, "chains in every surrounding of statements", &[Script, Module], around_stmt(), &it);
    // super in every kind of method and what methods hold
    let me = ["x={m(){@}};", "x={get m(){@}};", "x={set m(a){@}};", "x={*m(){@}};", "x={async m(){@}};", "x={async*m(){@}};", "x={[a](){@}};", "x={m(a=b){@}};", "class A{m(){@}}", "class A{static m(){@}}", "class A{get m(){@}}", "class A{static set m(a){@}}", "class A{*m(){@}}", "class A{async m(){@}}", "class A{constructor(){@}}", "class A extends B{constructor(){@}}", "class A extends B{'constructor'(){@}}", "class A extends B{constructor(a=@){}}", "class A extends B{['constructor'](){@}}", "class A extends B{static constructor(){@}}", "class A extends B{m(){@}}", "class A extends B{a(){}constructor(){@}b(){}}", "x=class extends B{constructor(){@}};", "x=class A extends B{m(a=@){}};", "x={m(a=@){}};", "class A extends B{constructor(){class C extends D{constructor(){@}}}}", "class A extends B{constructor(){class C{constructor(){@}}}}", "class A extends B{constructor(){x={m(){@}}}}", "class A extends B{constructor(){super();class C{}@}}", "class A extends B{constructor(){super();class C extends D{}@}}", "class A extends B{m(){class C extends D{}}constructor(){@}}", "class A extends B{[class{}](){}constructor(){@}}"];
    let ho = ["@", "()=>@", "x=()=>{@}", "a=>a=>@", "x=async()=>{@}", "async a=>@", "{@}", "if(a){@}", "for(;;){@}", "return @", "(@)", "[@]", "`${@}`", "a=>{{@}}", "x=(a=@)=>b", "x={a:@}", "x={[@]:a}", "class Z{[@](){}}", "class Z extends(@){}", "x=async(a=@)=>b", "x=a?@:b", "throw @", "try{@}finally{}", "y:{@}", "x=y=>({a:()=>@})"];
    let su = ["super.a", "super[a]", "super.a()", "super.a=1", "super.a++", "super[a]+=1", "super()", "super(a,...b)", "super().a", "super()()", "super()`t`", "super.a.b", "super.a`t`", "new super.a", "new super.a()", "new super[a].b(c)", "super.super", "super.if", "delete super.a", "typeof super.a", "[super.a]=b", "({a:super[b]}=c)", "for(super.a of b);", "super", "super=1", "super++", "super.", "super[]", "super`t`", "new super", "new super()", "super?.a", "super.1", "super=>a", "(super)", "(super).a", "super\n.a", "super\n()", "super\n[a]", "s\\u0075per.a", "s\\u0075per()"];
    for goal in [Script, Module] {
        c.by_index("super in every method", goal, me.len() * ho.len(), |i| {
            let t = me[i % me.len()].replace('@', ho[i / me.len()]);
            let mut v: Vec<String> = su.iter().map(|u| t.replace('@', u)).collect();
            if goal == Script {
                v.extend(su.iter().flat_map(|u| [format!("{}{}", t.replace('@', u), "super.a"), t.replace('@', &format!("function q(){{{}}}", u)), t.replace('@', &format!("function q(){{}}{}", u))]));
            }
            v
        });
    }
    let it: Vec<String> = ["super.a", "super[a]()", "new super.a"].iter().flat_map(|u| ["x={m(){@}};", "class A{m(){@}}", "class A extends B{constructor(){@;super()}}", "class A{static get m(){x=()=>@}}"].map(|f| f.replace('@', u))).collect();
    around(c, "super in every surrounding of statements", &[Script], around_stmt(), &it);
    let sur: Vec<String> = around_stmt().into_iter().flat_map(|s| vec![format!("x={{m(){{{}}}}}", s), format!("class Y extends X{{constructor(){{{}}}}}", s)]).collect();
    around(c, "super inside every surrounding of statements", &[Script], sur, &["super.a;", "super();", "x=()=>super[a];", "new.target;"]);
    let sur: Vec<String> = around_expr().into_iter().flat_map(|s| vec![format!("x={{m(){{{}}}}}", s), format!("class Y extends X{{constructor(){{{}}}}}", s)]).collect();
    around(c, "super inside every surrounding of expressions", &[Script], sur, &["super.a", "super()", "()=>super[a]", "new.target"]);
}
