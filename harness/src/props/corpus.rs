//! Programs that between them use every construct; tokens are separated by single spaces.

/// statements valid in scripts and modules
pub const STMTS: &[&str] = &[
    ";",
    "{ }",
    "{ a ; }",
    "{ { } ; a }",
    "a ;",
    "a",
    "'use strict' ;",
    "'s' ;",
    "var a ;",
    "var a = 1 , b , c = d ;",
    "let a ;",
    "let a = 1 , b ;",
    "const a = 1 ;",
    "const a = 1 , b = 2 ;",
    "var [ a , , b = 1 , [ c ] , ... d ] = e ;",
    "let { a , b : c , d = 1 , e : [ f ] , [ g ] : h , 'i' : j , 1 : k , ... l } = m ;",
    "const { a : { b : { c = d } = { } } } = e ;",
    "if ( a ) b ;",
    "if ( a ) b ; else c ;",
    "if ( a ) { } else if ( b ) { } else { }",
    "if ( a ) if ( b ) c ; else d ;",
    "while ( a ) b ;",
    "while ( a ) { break ; continue ; }",
    "do a ; while ( b )",
    "do { } while ( a ) ; ",
    "for ( ; ; ) a ;",
    "for ( a ; b ; c ) { }",
    "for ( var a = 1 , b = 2 ; a < b ; a ++ ) c ;",
    "for ( let a = 1 ; ; ) ;",
    "for ( const a = 1 ; ; ) break ;",
    "for ( a in b ) c ;",
    "for ( var a in b , c ) d ;",
    "for ( let a in b ) { continue ; }",
    "for ( const [ a ] in b ) ;",
    "for ( a of b ) c ;",
    "for ( var a of b ) c ;",
    "for ( let { a , b } of c ) d ;",
    "for ( const a of b ) ;",
    "for ( a . b in c ) ;",
    "for ( [ a , b ] of c ) ;",
    "for ( { a , b : c } of d ) ;",
    "switch ( a ) { }",
    "switch ( a ) { case 1 : b ; break ; case c , d : default : e ; }",
    "switch ( a ) { default : { } case b : }",
    "try { } catch ( a ) { }",
    "try { a } catch { b } finally { c }",
    "try { } finally { }",
    "try { } catch ( [ a , { b } ] ) { c }",
    "throw a ;",
    "throw new a ( b ) ;",
    "a : b ;",
    "a : b : while ( c ) { break a ; }",
    "a : for ( ; ; ) { b : for ( ; ; ) { continue a ; } }",
    "debugger ;",
    "function a ( ) { }",
    "function a ( b , c = 1 , [ d ] , { e } , ... f ) { return ; }",
    "function a ( ) { 'use strict' ; return b ; }",
    "function * a ( ) { yield ; yield b ; yield * c ; d = yield e ; }",
    "async function a ( ) { await b ; return await c ; }",
    "async function * a ( ) { yield await b ; await ( yield ) ; }",
    "class A { }",
    "class A extends B { constructor ( ) { super ( a ) ; } }",
    "class A { a ( ) { } ; static b ( ) { } get c ( ) { } set c ( d ) { } }",
    "class A { * a ( ) { yield 1 } async b ( ) { await 1 } async * c ( ) { } static * d ( ) { } static async e ( ) { } static get f ( ) { } static set f ( g ) { } }",
    "class A { 'a' ( ) { } 1 ( ) { } [ b ] ( ) { } get ( ) { } set ( ) { } static ( ) { } async ( ) { } if ( ) { } }",
    "class A extends ( B , C ) { a ( ) { return super . b + super [ c ] ( ) } }",
    "a = b , c ;",
    "a \n b \n ++ c",
    "return_ = 1 ;",
    "var a = function ( ) { return { } } ;",
    "( function ( ) { } ) ( ) ;",
    "( function a ( ) { } ( ) ) ;",
    "( ( ) => { } ) ( ) ;",
    "x = { } / 1 ;",
    "x = a / b / c ;",
    "x = /a[/]b/g ;",
    "x = a ++ / b ;",
    "async ( ) ;",
    "of = get = set = static_ = async = from = as = target = 1 ;",
];

/// statements valid only in sloppy code
pub const SLOPPY: &[&str] = &[
    "with ( a ) b ;",
    "with ( a ) { b }",
    "if ( a ) function b ( ) { }",
    "if ( a ) ; else function b ( ) { }",
    "a : function b ( ) { }",
    "eval = 1 ;",
    "arguments ++ ;",
    "var eval ;",
    "var yield ;",
    "yield : a ;",
    "yield * a ;",
    "static = package ;",
    "function eval ( arguments ) { }",
    "( eval ) => 1 ;",
    "try { } catch ( eval ) { }",
    "for ( var a = 1 in b ) c ;",
    "function f ( ) { } with ( { } ) ;",
];
/// valid only in scripts or the like: await is a name
pub const SCRIPT: &[&str] = &["await = 1 ;", "var await ;", "function await ( ) { }", "await : a ;", "( await ) => await ;"];

/// module items
pub const ITEMS: &[&str] = &[
    "import 'a' ;",
    "import a from 'b' ;",
    "import { } from 'a' ;",
    "import { a , b as c , default as d , } from 'e' ;",
    "import * as a from 'b' ;",
    "import a , { b } from 'c' ;",
    "import a , * as b from 'c' ;",
    "export { } ;",
    "export { a , b as c , d as default , } ;",
    "export { a , default as b , if as c } from 'd' ;",
    "export * from 'a' ;",
    "export var a = 1 , b ;",
    "export let a ;",
    "export const { a , b : [ c ] } = d ;",
    "export function a ( ) { }",
    "export function * a ( ) { yield }",
    "export async function a ( ) { await b }",
    "export async function * a ( ) { }",
    "export class A { }",
    "export default a ;",
    "export default a , b_ => c ;",
    "export default function ( ) { }",
    "export default function a ( ) { }",
    "export default function * ( ) { }",
    "export default async function ( ) { }",
    "export default async function * a ( ) { }",
    "export default class { }",
    "export default class A extends B { a ( ) { } }",
    "export default async ( ) => a ;",
    "export default ( function ( ) { } ) ;",
    "export default [ a ] ;",
    "export default { } ;",
];

/// expressions (assignment level, no comma) valid in every context
pub const EXPRS: &[&str] = &[
    "a",
    "1",
    "1.5e3",
    "0x1F",
    "0b101",
    "0o17",
    ".5",
    "'s'",
    "\"t\"",
    "true",
    "false",
    "null",
    "this",
    "/r/",
    "/r[/]\\//gi",
    "`t`",
    "`t${ a }u`",
    "`${ a }${ b }`",
    "`${ `${ a }` }`",
    "`${ { a : `}` } }`",
    "[ ]",
    "[ , ]",
    "[ a , , b , ]",
    "[ ... a , b ]",
    "{ }",
    "{ a }",
    "{ a , b : c , 'd' : 1 , 2 : e , [ f ] : g , ... h , }",
    "{ a ( ) { } , get b ( ) { } , set b ( c ) { } , * d ( ) { } , async e ( ) { } , async * f ( ) { } }",
    "{ get : 1 , set : 2 , async : 3 , static : 4 , if : 5 }",
    "{ get , set , async }",
    "{ get ( ) { } , set ( ) { } , async ( ) { } , [ a ] ( ) { } , 'b' ( ) { } , 3 ( ) { } }",
    "( a )",
    "( a , b )",
    "function ( ) { }",
    "function a ( b ) { return c }",
    "function * ( ) { yield }",
    "function * a ( ) { yield * b }",
    "async function ( ) { await a }",
    "async function * a ( ) { yield }",
    "class { }",
    "class A extends B { a ( ) { } }",
    "class extends a . b { constructor ( ) { super ( ) } }",
    "( ) => a",
    "a => b",
    "( a , b ) => { return c }",
    "( a = 1 , [ b ] , { c : d } , ... e ) => a",
    "async a => await b",
    "async ( a , b = 1 ) => { await c }",
    "async ( )",
    "async ( a , b )",
    "async",
    "a => b => c",
    "a => ( { } )",
    "a . b",
    "a . if",
    "a [ b ]",
    "a ( )",
    "a ( b , ... c , )",
    "a . b ( c ) [ d ] . e",
    "a `b` `c${ d }`",
    "new a",
    "new a ( )",
    "new a . b ( c ) . d",
    "new new a ( b ) ( c )",
    "new ( a ( ) )",
    "new a `b`",
    "a ++",
    "-- a . b",
    "- a",
    "+ - ! ~ a",
    "typeof a",
    "void 0",
    "delete a . b",
    "a ** b ** c",
    "( - a ) ** b",
    "a ++ ** b",
    "a * b / c % d",
    "a + b - c",
    "a << b >> c >>> d",
    "a < b > c <= d >= e",
    "a in b",
    "a instanceof b",
    "a == b != c === d !== e",
    "a & b ^ c | d",
    "a && b || c",
    "a || b && c",
    "a ? b : c",
    "a ? b ? c : d : e ? f : g",
    "a = b",
    "a = b = c",
    "a . b += c",
    "a [ b ] -= c *= d",
    "a /= b %= c **= d",
    "a <<= b >>= c >>>= d",
    "a &= b ^= c |= d",
    "[ a , b . c , [ d ] , ... e ] = f",
    "( { a , b : c . d , e = 1 , [ f ] : g = 2 , ... h } = i )",
    "[ { a : [ b ] } = c ] = d",
];

pub const FUNS: &[&str] = &[
    "function f ( ) { @ }",
    "( function ( ) { @ } ) ;",
    "( ( ) => { @ } ) ;",
    "x = { m ( ) { @ } } ;",
    "x = { get m ( ) { @ } } ;",
    "x = { set m ( a ) { @ } } ;",
    "class C { m ( ) { @ } }",
    "class C { static m ( ) { @ } }",
    "class C { get m ( ) { @ } }",
    "class C { constructor ( ) { @ } }",
    "function * f ( ) { @ }",
    "async function f ( ) { @ }",
    "async function * f ( ) { @ }",
    "( async ( ) => { @ } ) ;",
    "x = { * m ( ) { @ } } ;",
    "x = { async m ( ) { @ } } ;",
    "class C { async * m ( ) { @ } }",
];

/// every token kind
pub const TOKENS: &[&str] = &[
    "a", "1", "'s'", "`t`", "`t${", "}u`", "/r/", "{", "}", "(", ")", "[", "]", ".", "...", ";", ",", "<", ">", "<=",
    ">=", "==", "!=", "===", "!==", "+", "-", "*", "/", "%", "**", "++", "--", "<<", ">>", ">>>", "&", "|", "^", "!",
    "~", "&&", "||", "?", ":", "=", "+=", "/=", "**=", ">>>=", "=>", "await", "break", "case", "catch", "class",
    "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export", "extends", "false",
    "finally", "for", "function", "if", "import", "in", "instanceof", "new", "null", "return", "super", "switch",
    "this", "throw", "true", "try", "typeof", "var", "void", "while", "with", "yield", "let", "static", "async", "of",
    "get", "set", "from", "as", "target", "eval", "arguments", "implements", "constructor", "\n", "@", "\\",
];

/// a smaller set with one token of each role
pub const ROLES: &[&str] = &[
    "a", "1", "'s'", "`t`", "/", "{", "}", "(", ")", "[", "]", ".", "...", ";", ",", "+", "*", "++", "!", "?", ":",
    "=", "+=", "=>", "await", "yield", "async", "let", "get", "static", "of", "in", "var", "function", "class", "new",
    "return", "break", "if", "else", "for", "while", "do", "try", "catch", "switch", "case", "import", "export",
    "default", "this", "super", "typeof", "delete", "throw", "if", "\n",
];

pub const RESERVED: &[&str] = &[
    "await", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else",
    "enum", "export", "extends", "false", "finally", "for", "function", "if", "import", "in", "instanceof", "new",
    "null", "return", "super", "switch", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with",
    "yield", "let", "static", "implements", "interface", "package", "private", "protected", "public",
];
pub const CONTEXTUAL: &[&str] =
    &["async", "of", "get", "set", "from", "as", "target", "eval", "arguments", "constructor", "undefined", "NaN"];

/// every white space and line terminator code point
pub const SPACES: &[&str] = &[
    " ", "\t", "\u{b}", "\u{c}", "\u{a0}", "\u{feff}", "\u{1680}", "\u{2000}", "\u{2001}", "\u{2002}", "\u{2003}",
    "\u{2004}", "\u{2005}", "\u{2006}", "\u{2007}", "\u{2008}", "\u{2009}", "\u{200a}", "\u{202f}", "\u{205f}",
    "\u{3000}",
];
pub const BREAKS: &[&str] = &["\n", "\r", "\r\n", "\u{2028}", "\u{2029}"];

/// the programs a property's edits start from
pub fn all_script() -> Vec<&'static str> {
    STMTS.iter().chain(SLOPPY).chain(SCRIPT).copied().collect()
}
pub fn all_module() -> Vec<&'static str> {
    STMTS.iter().chain(ITEMS).copied().collect()
}
pub fn exprs_as_stmts() -> Vec<String> {
    EXPRS.iter().map(|e| format!("x = {} ;", e)).collect()
}

/// values around which integer widths and buffer sizes change
pub fn sizes(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).collect();
    let mut p = 64usize;
    while p <= max {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    v.extend([100, 999, 1000, 1001, 10000]);
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}

/// Surroundings for statements: each kind of block, several levels of them, and text before and after that leaves
/// traces in a parser that forgets to put something back.
pub fn around_stmt() -> Vec<String> {
    let mut v: Vec<String> = [
        "{@}", "function f(){@}", "function*g(){@}", "async function h(){@}", "async function*k(){@}", "x=()=>{@};", "x=async()=>{@};",
        "x={m(){@}};", "x={get a(){@}};", "x={set a(b){@}};", "x={*m(){@}};", "x={async m(){@}};", "class A{m(){@}}", "class A{static m(){@}}",
        "class A{get m(){@}}", "class A extends B{constructor(){@}}", "if(a){@}", "if(a){}else{@}", "for(;;){@}", "for(a in b){@}", "for(var a of b){@}",
        "while(a){@}", "do{@}while(a)", "switch(a){case 1:@}", "switch(a){default:@}", "switch(a){case 1:{@}default:{}}", "try{@}catch(e){}",
        "try{}catch(e){@}", "try{}finally{@}", "y:{@}", "with(a){@}", "'use strict';@", "function f(){'use strict';@}", "x=()=>{'use strict';@};",
        "`${function(){@}}`;", "`a${b}${()=>{@}}c`;", "`${{a:{b(){@}}}}`;", "`${class{m(){@}}}`;", "function f(a=()=>{@}){}", "x=(a=function(){@})=>b;",
        "class A{[function(){@}](){}}", "class A extends (function(){@}){}", "f(function(){@},a);", "[function(){@}];", "x={a:function(){@},b};",
        "x=a?()=>{@}:b;", "x[function(){@}]=a;", "(function(){@})();", "new(class{m(){@}});", "async()=>{for(;;){await(async()=>{@})()}};",
        "{{{{{{@}}}}}}", "function f(){function g(){function h(){function i(){@}}}}", "x=()=>{y=()=>{z=()=>{w=()=>{@}}}};",
        "class A{m(){class B{m(){class C{m(){@}}}}}}", "x={a(){y={b(){z={c(){@}}}}}};", "`${function(){`${function(){`${function(){@}}`}}`}}`;",
        "`${{a:{b:{c:{d(){@}}}}}}`;", "`${{a:`${{b:`${{c(){@}}}`}}`}}`;", "for(;;){switch(a){case 1:if(b){try{@}finally{}}}}",
        "switch(a){case 1:switch(b){case 2:switch(c){case 3:@}}}", "while(a){do{for(;;){for(b in c){for(d of e){@}}}}while(f)}",
        "p:{q:{r:{s:{@}}}}", "if(a){if(b){if(c){@}else{}}else{}}else{}", "try{try{try{@}catch(e){}}catch(f){}}finally{}",
        "async function f(){function*g(){async()=>{x={*m(){@}}}}}", "function*g(){x=async()=>{class A{get b(){@}}}}",
        "class A extends B{constructor(){(()=>{(()=>{@})()})()}}", "'use strict';{function f(){x=()=>{class A{m(){@}}}}}",
        "a;@", "a\n@", "@;a", "@\na", "@;@", "@\n@", "{@}{@}", "{@;}@", "function f(){@}@", "x={m(){@}};@", "x=()=>{@}\n@", "class A{m(){@}n(){@}}",
        "function f(){@}function g(){@}", "function f(){'use strict'}@", "function*g(){yield a}@", "async function h(){await a}@",
        "async function h(){function f(){}@}", "function*g(){function f(){}@}", "for(;;){break}@", "for(;;){function f(){for(;;){break}}@}",
        "switch(a){case 1:break}@", "for(a of b)c;@", "for(var x in(a in b)){}@", "y:for(;;){continue y}@", "x=(a,b)=>c;@", "(a)=>{};@", "x=async(a,b);@",
        "x=async(a)=>b;@", "({a=1}=b);@", "[a,b]=[b,a];@", "({a:[b],...c}=d);@", "`a`;@", "`a${b}c`;@", "`${`${a}`}`;@", "`${{}}`;@", "/a}/.b;@",
        "'use\\\nstrict';@", "'a\\\nb';@", "'\\08';@", "`\n\r\n`;@", "/*\n*/@", "//a\n@", "\n\n\r\n@", "\u{2028}@", "'\u{1f600}';@", "\u{1d4d0};@",
        "/*\u{1f600}*/@", "@//a", "@/*", "@\n//\u{1f600}", "@/**/", "x=1/2/3;@", "x={}/1;@", "a++;@", "a++\n@", "new a\n@", "new.target_;@", "0.5.a;@", "09.5;@",
        "function f(eval,eval){}@", "with(a);@", "var let_;@", "x=function(){return};@", "if(a);else;@", "do;while(a)@", "try{}catch{}@", "class A{};@",
        "class A extends B{}@", "class A{static get set(){}}@", "x={get:1,set,async};@", "x={get a(){},set a(b){}};@", "throw a;@", "debugger;@", "a:b:c:@",
        "get;set;async;of;@", "async\n@", "x=async\n@",
        "@;@;@", "@\n@\n@", "{@}{@}{@}", "function f(){@}function g(){@}function h(){@}", "x=()=>{@};y=()=>{@};z=()=>{@}", "class A{m(){@}m(){@}m(){@}}",
        "x={m(){@},n(){@},o(){@}};", "if(a){@}else if(b){@}else{@}", "switch(a){case 1:@;case 2:@;case 3:@}", "try{@}catch(e){@}finally{@}",
        "var [a=function(){@}]=b;", "var {a=function(){@}}=b;", "let a=function(){@};", "let [a=()=>{@}]=b;", "const {a:{b=function(){@}}}=c;", "const [[a=function(){@}]]=c;",
        "for(let a=function(){@};;);", "for(var [a=function(){@}] of b);", "for(const {a=()=>{@}} in b);", "for(a of function(){@});", "for(;function(){@};());",
        "try{}catch([a=function(){@}]){}", "try{}catch({a=()=>{@}}){}", "function f([a=function(){@}]){}", "function f({a=()=>{@}}){}", "throw function(){@};",
        "function*g(){yield function(){@}}", "async function h(){await(()=>{@})}", "function f(){return()=>{@}}", "x=async function*(){@};", "x=function f(){@};",
        "x=function*(){@};", "x=async function(){@};", "x=async a=>{@};", "x=a=>{@};", "x=async(a,b)=>{@};", "x=async(a=1)=>{@};", "x=(a=1)=>{@};", "x=([a])=>{@};",
        "x=async(a=()=>{@})=>b;", "x=async(function(){@});", "x=async()=>async()=>{@};", "delete function(){@};", "new function(){@};", "switch(function(){@}){case()=>{@}:}",
        "({a=function(){@}}=b);", "[a=function(){@}]=b;", "({a:[b=()=>{@}]}=c);", "[a[function(){@}]]=b;", "x=[...function(){@}];", "x={...function(){@}};", "x={[function(){@}]:a};",
        "class A{static*[function(){@}](){}}", "class A{static async*m(){@}}", "class A{set m(a){@}}", "class A{static get m(){@}}", "x={async*m(){@}};", "x=class{m(){@}};",
        "x=class extends B{constructor(){@}};", "function f(a=1){@}", "function f(...a){@}", "function f(a,b,[c]){@}", "x={m([a]){@}};", "class A{m(a=1){@}}", "async function h(a=1){@}",
        "x=y=function(){@};", "x=a||function(){@};", "a,function(){@};", "(()=>{@})(a);", "(async()=>{@})();", "function(){@}\n()=>{@}", "do x=()=>{@};while(a)",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for d in [3usize, 9, 33, 65] {
        for (o, e) in [("{", "}"), ("function f(){", "}"), ("x=()=>{", "}"), ("if(a){", "}"), ("x={m(){", "}}"), ("`${function(){", "}}`"), ("class A{m(){", "}}"), ("switch(a){case 1:", "}"), ("for(;;){", "}")] {
            if d * o.len() < 200 {
                v.push(format!("{}@{}", o.repeat(d), e.repeat(d)));
            }
        }
        v.push(format!("{}@", "a;".repeat(d)));
        v.push(format!("{}@", "{}".repeat(d)));
        v.push(format!("{}@", "\n".repeat(d)));
    }
    v
}
/// Surroundings for expressions.
pub fn around_expr() -> Vec<String> {
    let mut v: Vec<String> = [
        "x=@;", "(@)", "((@))", "[@]", "[a,@,b]", "[...@]", "f(@)", "f(a,@,b)", "f(...@)", "new f(@)", "x={a:@};", "x={a,b:@,c};", "x={[@]:a};", "x={...@};", "`${@}`", "`a${@}b${@}c`",
        "t`${@}`", "a[@]", "a?@:b", "a?b:@", "a||@", "a+(@)", "-(@)", "typeof(@)", "x=y=@;", "x+=@;", "if(@);", "while(@);", "do;while(@)", "for(@;;);", "for(;@;);",
        "for(;;@);", "for(a in @);", "for(a of @);", "switch(@){case @:}", "throw @;", "with(@);", "function f(){return @}", "x=()=>@;", "x=()=>(@);", "x=async()=>@;",
        "function*g(){yield @}", "function*g(){x=yield(@)}", "async function h(){await(@)}", "function f(a=@){}", "x=(a=@)=>b;", "x={m(a=@){}};", "var a=@;", "let a=@,b=@;",
        "const a=@;", "var [a=@]=b;", "var {a=@}=b;", "({a=@}=b);", "[a=@]=b;", "class A extends(@){}", "class A{[@](){}}", "a,@", "@,a", "x=[@,@];", "x={a:@,b:@};",
        "x=(@).a;", "x=(@)();", "x=(@)[0];", "x=(@)`t`;", "'use strict';x=@;", "x=@\n", "x=@\ny", "x=@;y", "{x=@}", "{y:x=@}", "if(a)x=@;else y",
        "x={a:{b:{c:{d:@}}}};", "x=[[[[[@]]]]];", "x=((((((@))))));", "x=f(g(h(i(@))));", "x=`${`${`${`${@}`}`}`}`;", "x=`${{a:{b:{c:@}}}}`;", "x=`${{a:`${{b:@}}`}}`;",
        "x=[{a:(f([{b:@}]))}];", "x=()=>()=>()=>()=>@;", "x=()=>({a:[()=>({b:@})]});", "x=a?b?c?@:d:e:f;", "x=function(){return{a(){return[@]}}};",
        "x=async()=>[await f({a:@})];", "function*g(){x=[yield{a:yield[@]}]}", "for(var x=[{a:(@)}];;);", "for(x=a?b:@;;);", "x=a[b[c[d[@]]]];", "x={[{[{[@]:1}]:1}]:1};",
        "x=class extends f(class{[@](){}}){};", "class A extends B{constructor(){super(@)}}", "class A{m(){super.a(@)}}", "function f(){new.target(@)}",
        "x=[@,@,@];", "f(@,@,@);", "x=@;y=@;z=@;", "x=@\ny=@\nz=@", "`${@}${@}${@}`", "x={a:@,b:@,c:@};", "x=(@,@,@);", "[a=@,b=@,c=@]=d;", "(a=@,b=@,c=@)=>d;",
        "function*g(){yield*@}", "function*g(){x=[yield[@],yield[@]]}", "const{a=@}=b;", "const[a=@]=b;", "const{a:[b=@]}=c;", "for(const a=@;;);", "for(let[a=@]of b);", "for(var{a=@}in b);",
        "try{}catch([a=@]){}", "try{}catch({a=@}){}", "function f({a=@}){}", "function f([a=@]){}", "function f(a,b,c=@){}", "x=({a=@})=>b;", "x=async({a=@})=>b;", "x=async(a=@)=>b;",
        "async function f(a=@){}", "class A{m(a=@){}}", "x=new(@);", "x=delete(@);", "x=a**(@);", "x=(@)**a;", "x=a in(@);", "x=(@)in a;", "x=[a[@]]=b;", "[a[@]=c]=d;", "({[@]:a}=b);",
        "({a:b[@]}=c);", "var{[@]:a}=b;", "function f({[@]:a}){}", "class A{m(){x=@}}", "class A{*m(){x=yield(@)}}", "class A{async m(){x=await(@)}}", "class A{static m(){return @}}",
        "class A extends B{constructor(){x=@}}", "x=class{m(){x=@}};", "x=class{static[@](){}};", "x={get[@](){}};", "x={async*[@](){}};", "try{x=@}catch(e){}", "try{}catch(e){x=@}",
        "try{}finally{x=@}", "switch(a){case 1:x=@;break;default:x=@}", "\u{e9}=@;", "/*\u{2028}*/x=@;", "x='\u{2028}'+@;", "do x=@;while(a)", "if(a)x=@;else x=@", "with(a)x=@;", "y:x=@;",
        "var a=@,b=@,c=@;", "let[a=@]=b,c=@;", "x=a=>@;", "x=async a=>@;", "async function f(){for await(x of @);}", "async function f(){return @}", "x=async function(){x=@};",
        "x=function*(){x=@};", "x=()=>{return @};", "x=a?.[@];", "x=@?a:b;", "x=!(@);", "x=void(@);", "x=[,@];", "x=[@,,];", "x=t`${@}${@}`;",
        "x=(a,b)=>c,@;", "x=async(a,@);", "x=(a,@);", "x=[a]=@;", "x={a}=@;", "x=/a/,@;", "x=a/b/@;", "x=`a`+@;", "x=a++/@;",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for d in [7usize, 17, 33] {
        for (o, e) in [("(", ")"), ("[", "]"), ("{a:", "}"), ("f(", ")"), ("`${", "}`"), ("a?b:", ""), ("()=>", "")] {
            v.push(format!("x={}@{}", o.repeat(d), e.repeat(d)));
        }
    }
    v
}

/// One surrounding of each kind, to be put into each other.
pub fn kinds() -> Vec<&'static str> {
    vec![
        "{@}", "function f(){@}", "function*g(){@}", "async function h(){@}", "async function*k(){@}", "x=()=>{@};", "x=async()=>{@};", "x={m(){@}};", "x={*m(){@}};",
        "x={async m(){@}};", "x={get a(){@}};", "x={set a(b){@}};", "class A{m(){@}}", "class A extends B{constructor(){@}}", "class A{static m(){@}}", "if(a){@}", "if(a);else{@}",
        "for(;;){@}", "for(a in b){@}", "for(var a of b){@}", "while(a){@}", "do{@}while(a)", "switch(a){case 1:@}", "switch(a){case 1:default:@}", "try{@}catch(e){}", "try{}catch(e){@}",
        "try{}finally{@}", "y:{@}", "with(a){@}", "function f(){'use strict';@}", "x=()=>{'use strict';@};", "`${function(){@}}`;", "function f(a=()=>{@}){}", "x=(a=function(){@})=>b;",
        "class A{[function(){@}](){}}", "f(function(){@});", "[function(){@}];", "for(var x=function(){@};;);", "x=a?()=>{@}:b;", "({a=function(){@}}=b);", "x=class{m(){@}};", "a;@", "a\n@",
    ]
}
/// Deep surroundings for statements: every depth for blocks, many depths for the rest.
pub fn deep_stmt() -> Vec<String> {
    let mut v = vec![];
    for d in 1..=66 {
        v.push(format!("{}@{}", "{".repeat(d), "}".repeat(d)));
    }
    for (o, e) in [("function f(){", "}"), ("x=()=>{", "}"), ("x={m(){", "}}"), ("`${function(){", "}}`"), ("class A{m(){", "}}"), ("if(a){", "}"), ("switch(a){case 1:", "}"), ("for(;;){", "}"), ("x=[function(){", "}]"), ("function*g(){", "}"), ("async()=>{", "}"), ("f(a=>{", "})")] {
        for d in [5usize, 7, 12, 16, 20, 24, 32, 40, 50, 64, 80, 100, 128] {
            if d * o.len() < 1400 {
                v.push(format!("{}@{}", o.repeat(d), e.repeat(d)));
            }
        }
    }
    v
}
/// Deep surroundings for expressions.
pub fn deep_expr() -> Vec<String> {
    let mut v = vec![];
    for (o, e) in [("(", ")"), ("[", "]"), ("{a:", "}"), ("f(", ")"), ("`${", "}`"), ("a?b:", ""), ("()=>", ""), ("a?", ":b"), ("[a=", "]"), ("{...", "}"), ("a[", "]"), ("new a(", ")")] {
        for d in [12usize, 24, 48, 64, 100, 128] {
            v.push(format!("x={}@{}", o.repeat(d), e.repeat(d)));
        }
    }
    v
}

/// Short programs each of which shows one piece of the context it stands in, or one way to spoil it for what follows.
pub fn probes(id: &str) -> Vec<&'static str> {
    let has_in = ["for(var a=b in c;;);", "for(a=[b],c in d;;);", "for(a in b;;);", "for(var a=(b in c);;);", "for(a=[b in c];;);", "for(var a=b?c in d:e;;);", "for(var a=x=>b in c;;);", "for(a={b},c in d);", "a in b;", "for(var a=`${b in c}`;;);", "for(var x=function(){},y in z;;);", "for(let[a]=b in c;;);", "for(a of b in c);", "for(a in b,c in d);", "for(a=[b]in c;;);", "for(var a=f()in c;;);", "for(var a={b}in c;;);", "for(a=(b)in c;;);", "for(a=b[c]in d;;);", "for(var a=b?c:d in e;;);", "for(var a=function(){}in c;;);", "for(var a=class{}in c;;);", "for(let a=`${b}`in c;;);", "for(a=>b in c;;);", "for(a=>{}in c;;);", "for(a=async()=>{}in c;;);", "for(new a(b)in c;;);", "for(a[b]in c);", "for(a(b)in c);", "for([a]in b);", "for({a=b}in c);", "for(a=[b in c]in d;;);"];
    let jump = ["return;", "break;", "continue;", "x:break x;", "x:continue x;", "function f(){break}", "function f(){continue}", "x=()=>{continue};", "x={m(){break}};", "function f(){return}return;", "for(;;)break;break;", "switch(a){case 1:continue}", "while(a){function f(){}continue}", "class A{m(){break}}", "x:for(;;){function f(){continue x}}", "x:{function f(){break x}}", "do continue;while(a)continue;"];
    let strict = ["with(a);", "010;", "x='\\07';", "delete a;", "eval=1;", "let=1;", "arguments++;", "function f(a,a){}", "static:a;", "var yield;", "class A{}with(a);", "x=class{};010;", "function f(){'use strict'}with(a);", "x=()=>{'use strict'};delete a;", "x={m(){'use strict'}};let=1;", "if(a)function f(){}", "class A extends(delete a){}", "class A{[delete a](){}}", "(a,a)=>1;", "x={eval}=1;"];
    let fun = ["yield a;", "yield;", "yield\n/a/g;", "yield\n*a;", "await a;", "await;", "await\n/a/g;", "function f(){yield a}", "function f(){await a}", "function*g(){yield a}yield a;", "async function h(){await a}await a;", "x=()=>yield;", "x=async()=>await a;", "x=()=>await a;", "x=async()=>{await a};await a;", "x={*m(){yield a}};yield a;", "x={m(){yield a}};", "function yield(){}", "function await(){}", "x=function yield(){};", "x=function*yield(){};", "x=async function await(){};", "function f(yield){}", "function f(a=yield){}", "function*g(a=yield){}", "async function h(a=await b){}", "(a=yield)=>b;", "(a=await b)=>c;", "async(a=await b)=>c;", "class A{m(){yield a}}", "class A extends yield{}", "class A{[yield](){}}", "var yield;", "let await;", "yield:a;", "await:a;", "({yield});", "({await}=a);", "for await(a of b);", "for(yield in a);", "for(yield of a);", "x=async await=>a;", "x=yield=>a;", "new.target;", "super.a;", "super();", "new await a;", "async\n()=>a;", "async(yield);", "async(await);", "x=[yield];", "x=`${yield}`;", "x=`${await a}`;"];
    match id {
        "C10" => has_in.to_vec(),
        "C13" | "C14" => jump.to_vec(),
        "C15" => strict.to_vec(),
        "C16" => fun.to_vec(),
        "C24" => has_in.iter().chain(&jump).chain(&strict).chain(&fun).copied().collect(),
        _ => vec![],
    }
}
/// A deep nest between an outer surrounding that sets the context and an inner one that may change it.
pub fn mixed() -> Vec<String> {
    let mut v = vec![];
    let some = ["@", "function f(){@}", "function*g(){@}", "async function h(){@}", "async function*k(){@}", "x=async()=>{@};", "x=()=>{@};", "x={m(){@}};", "x={*m(){@}};", "x={async m(){@}};", "x={get a(){@}};", "class A{m(){@}}", "class A{async*m(){@}}", "for(;;){@}", "switch(a){case 1:@}", "y:{@}", "x:while(a){@}", "function f(){'use strict';@}"];
    for a in some {
        for (o, e, ds) in [("{", "}", &[14usize, 26, 42, 66][..]), ("if(a){", "}", &[26, 66]), ("for(;;){", "}", &[26, 66]), ("switch(a){case 1:", "}", &[14, 42]), ("try{", "}catch(e){}", &[42]), ("function f(){", "}", &[14, 42]), ("x=()=>{", "}", &[26]), ("x={m(){", "}}", &[42]), ("x=[function(){", "}]", &[26]), ("l:{", "}", &[])] {
            for &d in ds {
                for b in ["@", "function f(){@}", "function*g(){@}", "async function h(){@}", "x=async()=>{@};", "x=()=>{@};", "x={m(){@}};", "class A{m(){@}}", "for(;;){@}", "switch(a){case 1:@}"] {
                    v.push(a.replace('@', &format!("{}{}{}", o.repeat(d), b, e.repeat(d))));
                }
            }
        }
        for (o, e, ds) in [("(", ")", &[14usize, 26, 42, 66][..]), ("[", "]", &[26, 66]), ("{a:", "}", &[42]), ("f(", ")", &[26]), ("`${", "}`", &[42]), ("()=>(", ")", &[26, 42]), ("a?", ":b", &[42]), ("a=>", "", &[26, 66]), ("async()=>", "", &[26]), ("-", "", &[42]), ("a[", "]", &[26])] {
            for &d in ds {
                for b in ["function(){@}", "()=>{@}", "async()=>{@}", "function*(){@}", "class{m(){@}}", "{m(){@}}", "async function(){@}"] {
                    if o == "-" && b.contains("=>") {
                        continue;
                    }
                    let sp = if o == "-" { " " } else { "" };
                    v.push(a.replace('@', &format!("x={}{}{};", format!("{}{}", o, sp).repeat(d), b, e.repeat(d))));
                }
            }
        }
    }
    v
}

/// A kind of list: the text around it (the list at `@`), a plain item (`#`: its number), the separator, and items that tell.
pub struct List {
    pub around: Vec<&'static str>,
    pub plain: Vec<&'static str>,
    pub sep: &'static str,
    pub tell: Vec<&'static str>,
    pub module: bool,
}
/// The lists in which a place may be counted wrongly.
pub fn lists(id: &str) -> Vec<List> {
    let obj = vec!["...[y]", "...{y}", "...y", "...y,", "...y.w", "...(y)", "...y=1", "y.w", "y:1", "y:w()", "y=1", "y:w=1", "get y(){}", "y(){}", "'y'", "'y':w", "1:w", "[y]:w", "y:[w,]", "...y,w", "eval", "yield", "y:{w=1}", "y:(w)", "y:(w=1)", "async y(){}", "y:[...w,]", "y:[...w=1]", "y:{...w,}", "y:this", "y:w+=1", "y:w.v", "y:{w:1}", "y:[1]", "y:(w.v)", "y:([w])", "", ",", "y,", "__proto__:y,__proto__:w", "y:...w", "if", "y:if", "y:function(){}", "y:w=>w"];
    let arr = vec!["...[y]", "...{y}", "...y", "...y,", "...y=1", "...y,w", "...(y)", "1", "y()", "y=1", "y.w", "(y)", "([y])", "({y})", "{y=1}", "{y:1}", "[y=1]", "[1]", "", ",", ",,", "y+=1", "(y=1)", "this", "eval", "yield", "y=>w", "...", "...y.w", "[...y,]", "{...y,}", "{...[y]}", "y w", "function(){}", "y++", "if"];
    let list = |around: &[&'static str], plain: &[&'static str], sep, tell: &[&'static str], module| List { around: around.to_vec(), plain: plain.to_vec(), sep, tell: tell.to_vec(), module };
    match id {
        "C11" => vec![
            list(&["({@}=z)", "[{@}]=z", "({x:{@}}=z)", "for({@} of z);", "for({@} in z);", "x=({@}=z)", "({@})", "({@}+=z)"], &["a#", "a#:b#", "[a#]:b#", "a#=1", "a#:[b#]"], ",", &obj, false),
            list(&["[@]=z", "[[@]]=z", "({x:[@]}=z)", "for([@] of z);", "for([@] in z);", "x=[@]=z", "[@]", "[@]+=z"], &["a#", "", "a#=1", "[a#]", "a#.b"], ",", &arr, false),
        ],
        "C12" => vec![
            list(&["var {@}=z", "let [{@}]=z", "const {x:{@}}=z", "for(let {@} of z);", "try{}catch({@}){}", "({@})=>z", "async({@})=>z", "function f({@}){}", "(x,{@})=>z", "x={m({@}){}}", "([{@}])=>z", "({@}=z)=>x"], &["a#", "a#:b#", "[a#]:b#", "a#=1", "a#:[b#]"], ",", &obj, false),
            list(&["var [@]=z", "let {x:[@]}=z", "const [[@]]=z", "for(let [@] of z);", "try{}catch([@]){}", "([@])=>z", "async([@])=>z", "function f([@]){}", "(x,[@])=>z", "x={m([@]){}}", "({x:[@]})=>z", "([@]=z)=>x"], &["a#", "", "a#=1", "[b#]", "{a#}"], ",", &arr, false),
            list(&["(@)=>z", "async(@)=>z", "function f(@){}", "x=function(@){}", "x={m(@){}}", "class A{m(@){}}", "class A{constructor(@){}}", "async function f(@){}", "function*f(@){}", "(@)", "async(@)", "x={set y(@){}}"], &["a#", "a#=1", "[a#]", "{a#}"], ",", &arr, false),
            list(&["var @", "let @;", "const @", "for(var @;;);", "for(let @;;);", "for(const @;;);", "for(var @ in z);", "for(var @ of z);"], &["a#", "a#=1", "[a#]=1"], ",", &["y", "[y]", "{y}", "[y]=1", "{y}=1", "y=1", "y=w=1", "1", "y.w", "let", "yield", "if", "", "y in w", "y=w in v", "...y", "(y)", "y\nw", "y w", "y+=1"], false),
        ],
        "C17" => vec![
            list(&["x={@}", "({@})", "f({@})"], &["a#:1", "a#", "a#(){}", "get a#(){}", "[a#]:1", "...a#"], ",", &["get y(){}", "set y(w){}", "get y(w){}", "set y(){}", "async y(){}", "*y(){}", "async*y(){}", "get", "set", "async", "get:1", "static y(){}", "get y:1", "async\ny(){}", "get\ny(){}", "[y](){}", "'y'(){}", "1(){}", "if(){}", "if", "y=1", "__proto__:1,__proto__:2", "", ",", "y(){super()}", "y(){super.w}", "y:function(){super.w}", "constructor(){}", "y:w in v", "...y", "...y,", "*y", "async*", "get*y(){}"], false),
            list(&["class A{@}", "class A extends B{@}", "x=class{@}"], &["a#(){}", ";", "static a#(){}", "get a#(){}", "[a#](){}"], "", &["constructor(){}", "constructor(){}constructor(){}", "get constructor(){}", "static constructor(){}", "static prototype(){}", "'constructor'(){}constructor(){}", "['constructor'](){}constructor(){}", "constructor(){super()}", "y(){super()}", "y(){super.w}", "*constructor(){}", "async constructor(){}", "get y(){}", "set y(w){}", "set y(){}", "async y(){}", "async*y(){}", "*y(){}", "static", "static(){}", "static static(){}", "get(){}", "static get y(){}", "y", "y:1", "y=1", ",", ";;", "static async*y(){}", "async\ny(){}", "static*prototype(){}", "if(){}", "'use strict'", "with(){}"], false),
        ],
        "C18" => vec![
            list(&["import {@} from 'z'"], &["a#", "a# as b#", "if as b#"], ",", &["y as if", "if", "if as y", "y as eval", "eval", "yield", "await", "'y' as w", "* as y", "", ",", "y as", "as as as", "as", "y w", "default", "default as y", "y.w", "y as let", "static"], true),
            list(&["export {@}", "export {@} from 'z'", "export {@}\n;"], &["a#", "a# as b#", "a# as if"], ",", &["if", "if as y", "y as if", "eval", "yield", "await", "static", "", ",", "y as", "as as as", "y w", "default", "default as default", "y as default", "let", "implements as y", "'y'", "* as y", "y as 'w'", "arguments", "enum"], true),
            list(&["@"], &["a#;", "import {a#} from 'b';", "export {c#};", "var d#;", "function e#(){}"], "\n", &["import y from 'w'", "import y, {w} from 'v'", "import y, * as w from 'v'", "import 'y'", "export default y", "export * from 'y'", "export default function(){}", "export default class{}", "export default async function(){}", "export var y", "export function(){}", "export class{}", "{import 'y'}", "import y", "import {y}", "export y", "import(y)", "import y, w from 'v'", "import * as y, {w} from 'v'", "with(y);", "await y", "import.meta", "'use strict'", "return"], true),
        ],
        "C13" => vec![
            list(&["switch(z){@}", "for(;;)switch(z){@}"], &["case a#:", "case a#:b;break;", "case a#:{}"], "", &["default:", "default:default:", "case y,w:", "case:", "case y", "y", "case y:default:w", "case y in w:", "default:case w:", "default y:", "case y:let w", "case y:function w(){}", "case(y):break", "case y?w:v:"], false),
            list(&["@", "{@}", "function f(){@}"], &["a#;", "b#\n", "{}", "if(a)b;", "var a#;"], "", &["else y", "case y:", "default:", "catch(y){}", "finally{}", "do y;while(w)v", "if(y)w;else v", "let\ny", "let[y]=w", "y:w:v:u", "async\nfunction y(){}", "for(let of of y);", "for(let in y);", "throw\ny", "try{}", "y:y:w", "while(y)", "if(y)let\n{}", "if(y)class A{}", "for(;;)const w=1", "do;while(y)w", "function y(){}w", "{}/y/w", "else", "=y", "debugger y", ")"], false),
        ],
        "C14" => vec![list(&["for(;;){@}", "switch(z){case 1:@}", "function f(){@}", "z:{@}", "z:for(;;){@}", "@"], &["a#;", "b#:for(;;){break b#}", "for(;;)break;", "switch(a){case 1:break}", "function g#(){}", "x=()=>{};", "c#:{break c#}"], "", &["break;", "continue;", "return;", "break z;", "continue z;", "break b0;", "continue b0;", "z:{break z}", "y:y:;", "y:z:break z", "for(;;){}continue", "x=()=>{break}", "switch(a){case 1:continue}", "function f(){return}", "while(y)break;break", "break b1;", "continue c0;"], false)],
        "C15" => vec![
            list(&["@with(z);", "@010", "function f(){@with(z);}", "x=()=>{@eval=1}", "class A{m(){@}}", "function f(eval){@}", "function f(a,a){@}", "@delete z", "function f(a=1){@}", "x={m(static){@}}"], &["'a#';", "\"b#\"\n", "'c#'\n", "'\\n';", "a#;", "'a'+b#;"], "", &["'use strict';", "\"use strict\"\n", "'use strict'", "('use strict');", "'use\\x20strict';", "'use strict'.a;", "'\\07';'use strict';", "'use strict';'\\07';", "'use strict'\n+1;", "'use strict',1;", "'use  strict';", "`use strict`;", "'USE STRICT';"], false),
            list(&["function f(@){'use strict'}", "'use strict';function f(@){}", "'use strict';(@)=>1", "(@)=>{'use strict'}", "x={m(@){}}", "function f(@){}", "class A{m(@){}}", "async function f(@){'use strict'}"], &["a#"], ",", &["eval", "arguments", "static", "yield", "let", "a0", "y,y", "a1", "implements", "y=1", "...y", "[y]", "package", "await", "interface"], false),
        ],
        "C16" => vec![
            list(&["function*f(@){}", "async function f(@){}", "async(@)=>z", "(@)=>z", "async(@)", "function*g(){(@)=>z}", "async function g(){(@)=>z}", "async function g(){async(@)=>z}", "x={*m(@){}}", "x={async m(@){}}", "function*g(){function f(@){}}", "async function g(){x={m(@){}}}"], &["a#", "a#=1", "[a#]"], ",", &["y=yield", "y=yield w", "y=await w", "y=await", "yield", "await", "[y=yield]", "{y=await w}", "[yield]", "{await}", "{yield}", "y=()=>yield", "y=function*(){yield}", "y=async()=>await w", "y=async function(){await w}", "...yield", "...await", "y=`${await w}`", "y=(yield)", "y=(await w)", "[y]=await w", "{[await w]:y}", "{[yield]:y}", "y=async(w=await v)=>u", "y=async"], false),
            list(&["@", "function*g(){@}", "async function h(){@}", "async function*k(){@}", "x=async()=>{@}"], &["a#;", "x=()=>{};", "function f#(){}", "function*g#(){yield a}", "async function h#(){await a}", "x={*m(){yield}};", "x=async()=>{await a};"], "", &["yield a", "yield\n/a/g", "await a", "await\n/a/g", "await", "yield", "x=yield", "var yield", "var await", "for await(a of b);", "async()=>await a", "x=await=>a", "yield:a", "await:a", "function await(){}", "function yield(){}", "x=function await(){}", "x=function yield(){}", "x=async function await(){}", "x=function*yield(){}"], false),
        ],
        "C23" => vec![
            list(&["f(@)", "new f(@)", "a.b(@).c", "f(@)(x)", "f(@)`x`", "class A extends B{constructor(){super(@)}}", "async(@)", "f?g(@):h"], &["a#", "...a#", "a#=1", "a#()"], ",", &["...y", "...y,", "...y,w", "", ",", "y,", "y=>w", "y,w", "...(y,w)", "...y=w", "y w", "(y,w)", "yield", "...", "y in w", "{y=1}", "...{y=1}", "y=w", "async()=>y", "new w", "new w()", "/y/g"], false),
            list(&["@", "x=a@=1", "new a@", "new a@()", "x=a@++", "a@.z"], &[".b#", "[b#]", "(b#)", "`b#`", "(...b#)"], "", &[".y", "[y]", "()", "`y`", "`${y}`", ".if", "[y,w]", "[y in w]", "(y,)", "(,)", "[]", ".1", "..y", ".'y'", ".#y", "`\\u`", ".new.target", "?.y", ".y=1", "=>1", "++", "\n`y`", "\n(y)", "\n[y]", "\n.y", "\n++"], false),
        ],
        "C10" => vec![list(&["x=@;", "(@)", "[@]", "for(x=@;;);", "for(var x=@;;);", "f(@)", "x=y?@:z", "`${@}`"], &["a#+", "a#*", "a#&&", "a#,", "-", "! ", "a#=", "a#?b#:", "a#=>", "typeof ", "a#<", "a#||", "a#**"], "", &["y in w", "y**w", "-y**w", "y=w", "y+w=v", "y?w:v", "y,w", "y=>w", "y++", "y\n++\nw", "yield", "(y,w)", "y instanceof w", "y<<w", "y--", "++y", "y**-w", "-y", "new y", "y==w==v", "y||w&&v", "async()=>y", "async y=>w", "y?w", "=y", "function(){}", "{}", "()", "(y)=>w"], false)],
        "C06" => vec![list(&["`@`", "x=`@`+1", "f`@`", "`${`@`}`", "{`@`}", "`@"], &["${a#}", "b#", "${{a#:1}}", "${`c#`}", "\r\n", "\\n", "$", "{", "}", "${function(){}}", "\u{1f600}", "${a#=>{}}"], "", &["\\07", "\\0", "\\x4", "\\u{110000}", "${}", "${y w}", "\r", "\\\r\n", "$$", "${y}}", "\\`", "`", "${y,w}", "${", "${y", "\\u{61}", "\\ud83d\\ude00", "\u{2028}", "${/}/}", "${'}'}", "${/*}*/y}", "\\8", "\\${y}", "}", "\\x41\r\n"], false)],
        "C02" => vec![list(&["@", "x=@a", "`${@}`", "x=[@]", "x=a@"], &["a#+", "- ", "a#=", "!", "a#,", "(a#)+", "a#?b#:", "a#.b<", "a#>>>"], "", &["@", "#", "#a", "b>>>=1", "...b", "b=>1", "b**=c", "\u{0}", "\\", "b..c", "b?.c", "b??c", "b||=c", "b<!--c", "b-->c", "\u{7f}", "b&&&c", "b===>c", "b!==c", "b=!=c", "b+++c", "b---c", "b+ ++c", "b>>>>c", "b<=>c", "b:c", "b;c", "b**c", "\u{2026}", "\u{d7}b", "b~c", "b^=c", "b%=c", "b|=c", "b\u{ad}c"], false)],
        "C03" => vec![list(&["@", "a.@", "var @", "x={@:1}", "@=>1", "f(@)"], &["a", "\\u0061", "\u{e9}", "$", "_", "\\u{62}", "\u{1d7d8}", "\u{200d}", "\u{20000}", "7"], "", &["\\u0020", "\\u{110000}", "-", "\u{200d}", "\u{200c}", "\u{2e2f}", "\\", "\\u", "\\x41", "\u{1d7d8}", "1", "\u{300}", "\\u{1d7d8}", "\\u{300}", "\\u006", "\\u{}", "\\u{6g}", "\u{b7}", "\u{feff}", "\u{a0}b", "\\u200d", "\\u002d", "\u{1885}", "\u{2118}", "\u{309b}", "\\u{2118}", "\u{e000}", "#", "@", "if"], false)],
        "C04" => vec![list(&["'@'", "x=\"@\"", "'use strict';'@'", "({'@':1})", "'@"], &["a", "\\n", "\\x41", "\u{e9}", "\\u{1f600}", "\\\n", "\\u0041", "\\\r\n", "\u{2028}", "\\0", "\\q", "\\7", "\u{1f600}", "\t"], "", &["\\07", "\\08", "\\8", "\\0", "\\377", "\\400", "\\x4", "\\xg1", "\\u{110000}", "\\u{10ffff}", "\\ud83d\\ude00", "\\ud83d\\u{de00}", "\\u12", "\n", "\r", "\u{2029}", "\\\u{2029}", "\\\r", "\\", "\\'", "\\\"", "\\b\\v\\f\\t", "\u{0}", "\\\u{1f600}", "\\u{}", "\\u{0000000061}", "`", "${a}", "/*", "//"], false)],
        "C07" => vec![
            list(&["x=/@/g", "/@/", "a/@/g", "[/@/]", "x=/@", "`${/@/}`", "a\n/@/g"], &["a", "\\/", "[/]", "[a]", "(b)", "\\\\", "\u{e9}", "\\]", "{", "=", "*?", "'", "`"], "", &["[", "]", "\\", "/", "\n", "[\\]", "[\\]]", "/[", "*", "\\\n", "//", "[/", "[]/]", "[[]", "\\[/", "\u{2028}", "\r", "\u{1f600}", "/gi.b", "/ \\u0067", "/a/b", "[^/]", "\\u{1}", "/g\\u0069", "[\n]", "}", "`", "/\u{e9}", "/1", "/ /"], false),
            list(&["@", "{@}", "`${@}`"], &["a#/b;", "/a#/;", "a#\n/b/c\n", "a#+/b/;", "(a#)/b;", "[a#]/b;", "a#++/b;", "{}/a#/;", "x={}/b;"], "", &["/y/g", "y/w/g", ")/y/g", "y=/w/", "y++/w/v", "y\n/w/v", "(y)/w/g", "{}/y/g", "if(y)/w/g", "x={}/w/g", "x=function(){}/w/g", "function f(){}/w/g", "y=>{}/w/g", "y=>{}\n/w/g", "class A{}/w/g", "typeof/y/g", "y`w`/v/g", "`w`/v/g", "y/=w/v", "/=y/", "return/y/", "this/y/g", "do;while(y)/w/g", "y:/w/g", "async/y/g", "yield/y/g", "let/y/g", "''/y/g", "1/y/g", "]/y/g", "a.if/y/g"], false),
        ],
        "C08" => vec![list(&["a@+b", "return@b", "x@++y", "@a", "a@", "`${@a@}`", "throw@a", "x=a@\n/b/g", "function f(){return@b}", "a@(b)", "async@()=>a", "x=async@a=>b", "y:for(;;)continue@y", "x=a@=>b", "x={get@a(){}}", "'use strict'@\nwith(a)b"], &[" ", "/*a#*/", "//a#\n", "\n", "\u{a0}", "/*\n*/", "\t", "\r\n", "/**/", "\u{2029}", "\u{feff}", "//\r"], "", &["/*", "*/", "/***/", "//", "\r", "\u{2028}", "\u{180e}", "\u{200b}", "\u{85}", "\u{feff}", "/*\u{2028}*/", "/*/*/", "/*//*/", "//*/\n", "/*\r*/", "//\u{2029}", "/*/", "\u{b}\u{c}", "/*\r\n*/", "\u{3000}", "\u{1c}", "/", "<!--\n", "-->\n", "//\u{e9}\r\n", "/*\u{1f600}*/"], false)],
        "C09" => vec![list(&["@", "{@}", "function f(){@}", "switch(z){case 1:@}", "if(z){@}", "for(;;){@}"], &["a#\n", "b#;", "a#++\n", "{}", "var a#\n", "throw a#\n", "do;while(a)", "if(a)b;", ";", "a#=b=>{}\n", "a#=function(){}\n", "function f#(){}"], "", &["++y", "--\ny", "(y)", "[y]", "/y/g", "`y`", "+y", "y w", "*y", ".y", "=>y", "in y", "do;while(y)w", "return\ny", "return y", "throw\ny", "y\n++\nw", "y++w", "y\n++w", "if(y)\nelse w", "if(y)w\nelse v", "if(y)w else v", "for(;y\n;);", "for(y\n;w);", "while(y)", "var y w", "var y\nw", "let\ny", "let y", "break\ny", "continue", "debugger y", "debugger\ny", "y:\nw", "async\nfunction y(){}", "async function y(){}w", "class A{}w", "y={}\nw", "y={}w", "'y'\n'w'", "'y''w'", "import('y')w", "y=>{}w", "y=>{}\n(w)", "yield\ny", "instanceof y", "=y", "?y:w", ",y", ")", "/*\n*/y", "/**/y", "y/*\n*/w", "y/**/w"], false)],
        "C19" => ["C12", "C17", "C18", "C23", "C13"].into_iter().flat_map(lists).enumerate().filter(|(k, _)| k % 2 == 0).map(|x| x.1).collect(),
        "C21" => ["C11", "C12", "C18", "C16", "C06"].into_iter().flat_map(lists).enumerate().filter(|(k, _)| k % 2 == 1).map(|x| x.1).collect(),
        "C24" => ["C13", "C14", "C15", "C16", "C07", "C09"].into_iter().flat_map(lists).collect(),
        _ => vec![],
    }
}
