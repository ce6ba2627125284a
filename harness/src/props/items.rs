//! Written by tools/gen_items.py: for each property, the shortest texts that tell some faulty parser from the real one.
//! They are put next to each other and into every surrounding (see mod.rs); nothing is expected of them here.
#[rustfmt::skip]
pub fn items(id: &str) -> (&'static [&'static str], &'static [&'static str]) {
    match id {
        "C02" => (&["", " ", "!", "$", "%", "&", "(", ")", "*", "+", ",", "-", ".", "/", "0", ":", ";", "<", "=", ">", "?", "[", "]", "^", "_", "`", "{", "|", "}", "~", "Ȁ", "!=", "!b", "%=", "&&", "&=", "()", "({", "**", "*=", "++", "+=", "+b", ",b", "--", "-=", "-b", ".1", "/*", "//", "/{", "01", "0=", "1.", "<<", "<=", "==", "=>", ">=", ">>", "[,", "[;", "[]", "[{", "\"", "\0", "\n", "\r", "\t", "^=", "`a", "a$", "a%", "a(", "a*", "a+", "a,", "a-", "a.", "a/", "a:", "a;", "a<", "a>", "a?", "a[", "ab", "a{", "{%", "{}", "|=", "||", "~b", "!%b", "!==", "!{}", "()b", "(2)", "(b;", "({%", "({[", "({}", "**=", "++1", "++b", "...", "/*b", "//b", "/;/", "/[/", "/{/", "0b;", "1=b", "1E1", "1e1", "<<=", "===", ">>=", ">>>", "[,]", "[3]", "[]{", "[}]", "`}`", "a%=", "a%b", "a&=", "a&b", "a()", "a({", "a**", "a*=", "a*b", "a++", "a+=", "a+b", "a,b", "a--", "a-=", "a-b", "a.(", "a.1", "a.[", "a.b", "a/=", "a/b", "a:;", "a:b", "a:{", "a:}", "a<b", "a=>", "a=b", "a>b", "a[b", "a\\", "a^=", "a^b", "a|=", "a|b", "a~b", "(a,)", "({_;", "/{/ ", "1++(", "1+=a", "[]=b", "`${/", "`${`", "a .1", "a!=b", "a%=b", "a&&b", "a&=b", "a&in", "a&{}", "a().", "a()[", "a(_;", "a**=", "a**b", "a*=b", "a+=b", "a,b;", "a-=b", "a.in", "a/=b", "a:!b", "a:in", "a:{}", "a;in", "a<<=", "a<<b", "a<=b", "a==b", "a=>b", "a=>{", "a>=b", "a>>=", "a>>b", "a?b;", "a[]]", "a[a;", "a\nb", "a^=b", "a`}`", "a|=b", "a||b", "in+a", "'s'+a", "'s'\t", "()=>b", "(...(", "(...[", "(...{", "(1,)b", "(a)=>", "(a)=b", "(a,b)", "-(a,)", "/**/b", "//\na", "/r/\\", ">>>=b", "\u{b}", "\u{c}", "`${\t", "a!==b", "a&(b)", "a&`t`", "a().b", "a**=b", "a+0x1", "a.a=b", "a<<=b", "a<a<b", "a===b", "a=>!b", "a=>{}", "a>>=b", "a>>>=", "a>>>b", "a|a&b", "f()++", "f({})", "f({}=", "for(!", "for(;", "if(<a", "var $", "x={L}", "(...[;", "(...a)", "(...{;", "(a)=>b", "[+a]=b", "[,a]=b", "[...a)", "[...a]", "\u{a0}", "`${5}`", "a&this", "a({a(b", "a:this", "a;this", "a=[,]=", "a=[{}{", "a>>>=b", "a[a]=b", "a\n++b", "for($)", "for(;)", "if(+a)", "if(a)$", "var $)", "var []", "var {}", "x={*a}", "x={[b;", "x={}=b", "09.5;!a", "[++a]=b", "[...a,]", "`${/</a", "`${\t}`", "a!==a<b", "a>>>a-b", "a[!a]=b", "a|a&a|b", "f(...a)", "f(...a]", "for(;b;", "for(~a)", "var [,a", "var [b;", "var {b;", "[...a]=b", "[/</a]=b", "\u{1680}", "\u{2000}", "\u{2001}", "\u{2002}", "\u{2003}", "\u{2004}", "\u{2005}", "\u{2006}", "\u{2007}", "\u{2008}", "\u{2009}", "\u{200a}", "\u{2028}", "\u{2029}", "\u{202f}", "\u{205f}", "\u{3000}", "\u{feff}", "a&typeof", "f(...a,)", "if(!a){}", "new f(<a", "typeof+_", "var [-a]", "var \nb;", "x={...a)", "x={...a}", "x={a:!a}", "'\\08';!a", "'\\08';<a", "(...a)=>c", "[a=!a]=b;", "[a==a]=b;", "[a=>a]=b;", "`${/</a}`", "a\u{200c}", "async\n<a", "class A{$", "class A{.", "class A{;", "class A{}", "for(\u{1}", "new a\n<a", "new f(-a)", "throw !a;", "var a=!a;", "var a=a,;", "with(!a);", "with(a<);", "x={a}=!a;", "x={a}=a<;", "`${\u{7}}`", "a\u{200d}b", "async\na<b", "class A{;}", "class A{\0", "for(!a;;);", "for(;!a;);", "for(;;!a);", "for(a,;;);", "function (", "function .", "var [,a]=b", "var [<a]=b", "var a=a,b;", "var {+a}=b", "while(!a);", "while(<a);", "x=new(!a);", "x=new(a<);", "x={...a,};", "x={...a}=b", "'a\\\nb';!a", "({a=!a}=b);", "`\n\r\n`;!a", "const a=!a;", "const a=a,;", "debugger;!a", "for(a,b;;);", "x=a in(!a);", "x=void(!a);", "x={[!a]:a};", "do;while(!a)", "do;while(<a)", "do;while(a<)", "var [...a]=b", "var {...a}=b", "x=(a=!a)=>b;", "x={m(){!a}};", "x={m(){<a}};", "for(a in !a);", "for(a of !a);", "function f(<a", "if(a);else;!a", "var [a=!a]=b;", "var {//\na}=b", "var {a=!a}=b;", "x=delete(!a);", "let a=!a,b=!a;", "new.target_;!a", "try{}catch{}!a", "try{}catch{}<a", "var{[!a]:a}=b;", "x=([a])=>{!a};", "x=([a])=>{<a};", "x=({a=!a})=>b;", "x=async a=>!a;", "x=async()=>!a;", "x=async()=>a<;", "x=async(a,!a);", "x={m(a=!a){}};", "x={m(a=>a){}};", "x={m(a=a!){}};", "x={m(a=a,){}};", "x={m(a=a<){}};", "`a${!a}b${!a}c`", "x=({a=a,b})=>b;", "x={m([a]){!a}};", "x={m(a=a,b){}};", "class A{m(){!a}}", "for(;;){break}!a", "function f(!a){}", "function f(){!a}", "function*g(){!a}", "try{}finally{!a}", "x=async(a)=>b;!a", "x=async(a)=>b;<a", "x={get a(){!a}};", "x={get[!a](){}};", "x={get[a<](){}};", "[function(){!a}];", "[function(){<a}];", "class A{[!a](){}}", "try{!a}catch(e){}", "try{}catch(e){<a}", "x=async()=>a++.b;", "x=class{m(){!a}};", "x=class{m(){<a}};", "x={set a(b){!a}};", "const{a:[b=!a]}=c;", "for(const a=!a;;);", "for(const a=>a;;);", "for(const a=a,;;);", "for(const a=a<;;);", "function f(...a){}", "x=()=>{return !a};", "x=function*(){!a};", "x={async m(){!a}};", "x={async m(){<a}};", "x={async*m(){!a}};", "x={async*m(){<a}};", "for(let[a=!a]of b);", "for(var a of b){!a}", "for(var{a=!a}in b);", "get;set;async;of;!a", "x=function f(){!a};", "class A{get m(){<a}}", "function f({a=!a}){}", "switch(!a){case !a:}", "switch(a){case 1:!a}", "switch(a<){case a<:}", "class A extends(!a){}", "switch(a){default:!a}", "async function h(){!a}", "function*g(){yield !a}", "function*g(){yield ,a}", "function*g(){yield a<}", "function*g(){yield*!a}", "x={get:1,set,async};!a", "class A{static m(){!a}}", "class A{static m(){<a}}", "function*g(){yield a=b}", "x=async function(){!a};", "x=function(){return};!a", "y:for(;;){continue y}!a", "for(var x=[{a:(!a)}];;);", "for(var x=[{a:(a<)}];;);", "function(){!a}\n()=>{!a}", "x=()=>{'use strict';!a};", "class A{m(){super.a(!a)}}", "class A{m(){super.a(a<)}}", "switch(a){case 1:break}!a", "function f(){'use strict'}!a", "function f(){new.target(!a)}", "async function h(){await(!a)}", "async function h(){await(a<)}", "const [[a=function(){!a}]]=c;", "for(const {a=()=>{!a}} in b);", "const {a:{b=function(){!a}}}=c;", "if(a){!a}else if(b){!a}else{!a}", "switch(a){case 1:{!a}default:{}}"], &["import &", "import *", "import I", "import {", "import H=", "import {)", "import {}", "with(>a);", "import {b;"]),
        "C03" => (&[" ", "!", "$", "%", "&", "(", ")", "*", "+", ",", "-", ".", "/", "0", ":", ";", "<", "=", ">", "?", "[", "]", "^", "_", "`", "{", "|", "}", "~", "Ȁ", "Ԁ", "܀", "--", "00", "06", "\"", "\n", "\r", "\t", "a!", "a$", "a%", "a(", "a,", "a.", "a/", "a:", "a;", "a?", "a[", "a{", "do", "in", "{{", "{}", "(o)", "--o", "-:a", "060", "1--", "A:a", "Z:a", "[o]", "\\u", "a+o", "a,a", "a-b", "a.9", "a.A", "a.Z", "a=$", "a\\", "do;", "for", "if;", "let", "new", "o()", "o++", "u{}", "{u}", "-(a)", "-=>1", "/r/#", "/r/@", "/r/A", "9=>1", "Z=>1", "\\u6", "a.if", "a;/*", "a||a", "case", "do()", "else", "enum", "f(o)", "for;", "new;", "null", "o[0]", "this", "true", "var;", "void", "with", "{{}}", "({#})", "({-})", "({A})", "({Z})", "[-]=1", "[0]=1", "[A]=1", "[{a}]", "\\u\\", "\u{b}", "\u{c}", "a-=>1", "a.o=1", "a;//a", "a?o:b", "a\na;", "async", "await", "break", "catch", "class", "false", "for()", "if[0]", "let o", "new o", "new.a", "super", "throw", "try()", "var o", "while", "with;", "x+=a;", "yield", "(o)=>1", "({a-})", "--null", "[...a]", "\\u066", "\\u{0}", "\u{a0}", "`${#}`", "`${-}`", "`${A}`", "`${Z}`", "`a`;a;", "a.true", "a;/**/", "async;", "delete", "eval=1", "f({a})", "if(a);", "if(a)o", "new[0]", "null=1", "o in a", "return", "super;", "switch", "typeof", "var A;", "var Z;", "var[0]", "void 0", "while;", "y:{a;}", "(class)", "({9:1})", "({get})", "({o}=b)", "({set})", "({}:1})", "//a\na;", "09.5;a;", "[a,a,b]", "[a-b]=1", "[o=1]=a", "\\u0200", "\\u0500", "\\u050a", "\\u0700", "\\u{6F}", "\u{300}", "\u{600}", "a=const", "a\\u{0}", "async()", "async=1", "default", "extends", "f(...a)", "finally", "if(a)in", "o\n/a/g", "super()", "super.a", "switch;", "t`${a}`", "throw o", "throw()", "var a,o", "var b=1", "x=!(a);", "x=[,a];", "x={a(b}", "x={a:b}", "x={a=b}", "x={aԀb}", "x={a܀b}", "([o])=>1", "(a,o)=>1", "(o=1)=>1", "({...o})", "({if:1})", "({o})=>1", "/*\n*/a;", "0.5.a;a;", "[...o]=a", "[this]=a", "\\u{66\\", "\u{1680}", "\u{2000}", "\u{2001}", "\u{2002}", "\u{2003}", "\u{2004}", "\u{2005}", "\u{2006}", "\u{2007}", "\u{2008}", "\u{2009}", "\u{200a}", "\u{2028}", "\u{2029}", "\u{202f}", "\u{205f}", "\u{3000}", "\u{feff}", "a=void+1", "a\\u005c", "a\\u0700", "a\u{300}", "a\u{600}", "continue", "debugger", "f(a,a,b)", "for(;;);", "if(a)let", "new f(a)", "throw a;", "typeof o", "var null", "with(o);", "x=()=>a;", "x={a\tb}", "'\\08';a;", "(...o)=>1", "(null)=>1", "({async})", "({await})", "({o(){}})", "({o=1}=b)", "({yield})", "a\u{200c}", "a\u{200d}", "async\na;", "class o{}", "const o=1", "debugger;", "delete[0]", "for(;;a);", "for(;a;);", "for(o;;);", "function;", "if(a)this", "var [o]=a", "var await", "var {o}=a", "while(o);", "x=a**(a);", "x=a=>[a];", "x=a=>{a};", "x=new(a);", "(function)", "({*o(){}})", "({...o}=a)", "({eval}=b)", "({true:1})", "/r/\\u0040", "\\u006eull", "\\u0074rue", "a:b:c:let;", "async o=>1", "async()=>1", "function()", "if(a)async", "instanceof", "x={[a]:a};", "'a\\\nb';a;", "'s'\u{1680}", "(class o{})", "[...null]=a", "\\u0061wait", "\\u0066alse", "\\u0079ield", "`\n\r\n`;a;", "a:b:c:this;", "async(o)=>1", "do;while(0)", "for(;;{a});", "for(let;;);", "for({a};;);", "if(a)return", "switch(a){}", "throw\n/a/g", "var {a:o}=b", "var {o=1}=a", "x=[a[a]]=b;", "[...null=>1]", "a:b:c:var a;", "for(o in a);", "for(o of a);", "for(this;;);", "if(a);else b", "let a=a,b=a;", "try{}catch{}", "var [...o]=a", "var [a=a]=b;", "var {...o}=a", "x=[a[of]]=b;", "({...null}=a)", "({get o(){}})", "`a${a}b${a}c`", "a:b:c:(a)=>a;", "f(...null=>1)", "if(a)debugger", "var {await}=a", "var {yield}=a", "var{[a]:a}=b;", "x=({a=a})=>b;", "x={a\u{300}b}", "x={m(a=a){}};", "({get if(){}})", "({set o(a){}})", "[a\u{1680}b]=1", "a instanceof b", "a:b:c:let a=1;", "async await=>1", "class A{-(){}}", "class A{0(){}}", "class A{Z(){}}", "for(let of a);", "function A(){}", "function Z(){}", "try{}finally{}", "x=a=>{return};", "(class await{})", "({async o(){}})", "({async*o(){}})", "async(await)=>1", "class A{*o(){}}", "for(;;){break;}", "for(null in a);", "for(null of a);", "function* o(){}", "try{}catch(o){}", "var awa\\u0069t", "x=a=>{return;};", "x={...null=>1};", "x={m([a]){a;}};", "(function o(){})", "({get null(){}})", "({get true(){}})", "class A{[a](){}}", "for(let o of a);", "for(var o in a);", "for(var o of a);", "o:for(;;)break o", "x={*m(){this;}};", "(function* o(){})", "[function(){a;}];", "const{a:[b=a]}=c;", "for(;;)continue o", "for(const a=a;;);", "try{}catch{}this;", "x=()=>{return a};", "x=async()=>await;", "x=class{m(){a;}};", "x={*m(){yield;}};", "class A{get o(){}}", "for(;;){continue;}", "function f(...o){}", "switch(o){case o:}", "var [a=null=>1]=b;", "var {a=null=>1}=b;", "a:for(;;)continue a", "class A extends o{}", "class A{static(){}}", "function f({a=a}){}", "switch(a){default:}", "var {a\\u{77}ait}=a", "x=()=>{return {a}};", "x={*m(){yield=1;}};", "({get \\u0064o(){}})", "a:b:c:function a(){}", "async \\u0079ield=>1", "async function f(){}", "class A{m(){return}}", "function* g(yield){}", "x=async()=>await=>1;", "async\nfunction f(){}", "class A{static o(){}}", "function \u{1680}(){}", "function f(a,b,c=a){}", "function*g(){yield a}", "function*g(){yield*a}", "(async function o(){})", "x={*m(){(yield)=>a;}};", "for(var x=[{a:(a)}];;);", "switch(a){case 1:this;}", "class A{constructor(){}}", "function f(){new.target}", "switch(a){case 1:break;}", "x=()=>{'use strict';a;};", "class A{*constructor(){}}", "function*g(){yield yield}", "function*g(){yield*yield}", "switch(a){case 1:(a)=>a;}", "function o(){'use strict'}", "async function g(){await a}", "function f(o){'use strict'}", "switch(a){default:default;}", "class A{get constructor(){}}", "function let(){'use strict'}", "switch(a){case 1:default:a;}", "const [[a=function(){a;}]]=c;", "for(const {a=()=>{a;}} in b);", "function eval(){'use strict'}", "function f(let){'use strict'}", "switch(a){default:default:a;}", "class A{async constructor(){}}", "function yield(){'use strict'}", "const {a:{b=function(){a;}}}=c;", "if(a){a;}else if(b){a;}else{a;}"], &["#", "a=let", "--eval", "eval++", "public", "static", "eval=>1", "export;", "import;", "package", "private", "[eval]=a", "var eval", "with(d);", "export {}", "interface", "protected", "export {d}", "implements", "import 'a'", "({eval})=>1", "arguments=1", "export in a", "export {do}", "export var d", "export {let}", "var arguments", "({arguments}=b)", "a:b:c:function;", "export {$ as b}", "export class d{}", "export default 0", "export default Z", "export {a as a-}", "export {a- as b}", "import '\\u0061'", "import d from 'a'", "export default this", "export {d} from 'a'", "import {$} from 'a'", "import {0} from 'a'", "import {a-} from 'a'", "import*as a from 'b'", "export function f(){}", "export {a \\u0061s b}", "import {let} from 'a'", "export {\u{1680} as b}", "import {eval} from 'a'", "import a \\u0066rom 'b'", "import {a as A} from 'b'", "import {a as a-} from 'b'", "import {arguments} from 'a'", "import {a \\u0061s b} from 'c'"]),
        "C04" => (&["'';", "x='", "''.a", "''/*", "'a';", "('')", "['']", "a,''", "x=''", "{''}", "''+''", "''//a", "'\n';", "-('')", "a['']", "a\n''", "a||''", "f('')", "''/**/", "'\\0';", "'\\n';", "'\\q';", "'\\u';", "((''))", "`a`;''", "a?'':b", "x+='';", "x='\\'", "y:{''}", "'\\\n';", "'\\ua';", "'\\x4';", "-(\"\")", "09.5;''", "[...'']", "`${''}`", "a||\"\"", "if('');", "x='''';", "x=''/';", "x=''0';", "x=''`';", "x=''{';", "x=''}';", "x='\"';", "x='\\b'", "x='\\x'", "'\\x41';", "'\\x4a';", "({'':1})", "/*\n*/''", "0.5.a;''", "[a,'',b]", "a++;\"\"", "a||''+''", "f('','')", "f(...'')", "t`${''}`", "throw ''", "x=!('');", "x=''/'';", "x=''/{';", "x=''00';", "x=[,''];", "x=a=>'';", "'\\\r\n';", "//a\n\"\"", "09.5;\"\"", "[a='']=b;", "async\n''", "if(\"\");", "new f('')", "var a='';", "with('');", "x=''/{'';", "x=''/{/';", "x=''/{{';", "x=''0b0';", "x=''0x0';", "x=''`\r';", "x='\\u{}'", "x='\\x0F'", "x='a\\fb'", "x='a\\rb'", "x='a\\tb'", "x='a\\vb'", "x=()=>'';", "x=(a,'');", "x=/a/,'';", "x=[a]='';", "x=a/b/'';", "x={a:''};", "x={a}='';", "()=>{'';a}", "(a)=>{};''", "({''(){}})", "/*\n*/\"\"", "\u{2028}''", "for('';;);", "for(;'';);", "for(;;'');", "typeof('')", "x=''/\n/';", "x='\\u000'", "x='\\u00}'", "x=a**('');", "x=new('');", "x={...''};", "({a=''}=b);", "`\n\r\n`;''", "async\n\"\"", "const a='';", "new a\n\"\"", "var let_;''", "x='\\u{0\\'", "x=()=>('');", "x=a in('');", "x=void('');", "x={['']:a};", "\u{2028}\"\"", "do;while('')", "var {'':a}=b", "while(\"\");", "x=(a='')=>b;", "x=[a['']]=b;", "debugger;\"\"", "for(a in '');", "for(a of '');", "if(a);else;''", "var [a='']=b;", "var let_;\"\"", "var {a=''}=b;", "x=delete('');", "x={*m(){''}};", "x={a,b:'',c};", "\u{2028}\"\r\"", "class A{};\"\"", "do;while(\"\")", "let a='',b='';", "new.target_;''", "var{['']:a}=b;", "x='\\\u{2029}'", "x=([a])=>{''};", "x=({a=''})=>b;", "x=async a=>'';", "x=async()=>'';", "x=async(a,'');", "x={get ''(){}}", "x={m(a=''){}};", "\u{2028}'\\400'", "`a${''}b${''}c`", "class A{''(){}}", "if(a);else;\"\"", "x=[[[[['']]]]];", "x={m([a]){''}};", "\u{2028}\"\\\r\"", "class A{m(){''}}", "for(;;){break}''", "function f(){''}", "function*g(){''}", "try{}catch{}\"\"", "try{}finally{''}", "x=([a])=>{\"\"};", "x=async(a)=>b;''", "x={get a(){''}};", "x={get[''](){}};", "[function(){''}];", "class A{[''](){}}", "try{''}catch(e){}", "x='\\ud800\\u{0}'", "x={set a(b){''}};", "const{a:[b='']}=c;", "for(const a='';;);", "x='\\ud800\\udc00'", "x='\\ud800\\ue000'", "x=()=>{return ''};", "x={async m(){''}};", "({a:[b],...c}=d);''", "for(let[a='']of b);", "for(var a of b){''}", "for(var{a=''}in b);", "var a='',b='',c='';", "x=async({a=''})=>b;", "x=class{m(){\"\"}};", "()=>{'use strict';a}", "class A{get m(){''}}", "function f({a=''}){}", "switch(''){case '':}", "x=function*(){\"\"};", "x={async*m(){\"\"}};", "class A extends(''){}", "get;set;async;of;\"\"", "switch(a){default:''}", "x=function f(){\"\"};", "async function h(){''}", "function f(...a){\"\"}", "function f(a,b,c=''){}", "function*g(){yield ''}", "function*g(){yield*''}", "x=a=>{\"use strict\"};", "class A{static m(){''}}", "y:for(;;){continue y}''", "\u{2028}'\\ud83d\\ude00'", "for(;function(){''};());", "for(var x=[{a:('')}];;);", "function(){''}\n()=>{''}", "x={get:1,set,async};\"\"", "class A{m(){super.a('')}}", "function*g(){x=yield('')}", "switch(a){case 1:break}''", "x=async function(){\"\"};", "x=function(){return};\"\"", "x=(a=1)=>{\"use strict\"};", "function f(){new.target('')}", "async function h(){await('')}", "const [[a=function(){''}]]=c;", "for(const {a=()=>{''}} in b);", "function f(){return()=>{\"\"}}", "const [[a=function(){\"\"}]]=c;", "switch(a){case 1:{''}default:{}}", "const {a:{b=function(){\"\"}}}=c;", "if(a){\"\"}else if(b){\"\"}else{\"\"}"], &["a,\"\"", "import ''", "with(\"\");", "export * from ''", "import a from ''", "export {a} from ''", "function f(eval,eval){}''"]),
        "C05" => (&["0", "(0", "-0", ".5", "0 ", "0.", "00", "07", "09", "0;", "0D", "0O", "0[", "0]", "0^", "0`", "0{", "0|", "0}", "0~", "1!", "1%", "1&", "1(", "1)", "1*", "1+", "1,", "1-", "1/", "1:", "1;", "1<", "1=", "1>", "1?", "[0", "[1", "(0)", "(0,", "0,1", "0--", "0/2", "00.", "08.", "0\n", "0b1", "0e1", "0o1", "0x1", "1++", "1/*", "1=1", "1\n", "1\r", "1\t", "1{}", "[1;", "[1]", "a+0", "a.0", "x=+", "x=.", "x=0", "x=_", "{0}", "{1}", "(-0)", "-(0)", "0's'", "0(a)", "0**2", "00.a", "08e1", "0=>a", "0`t`", "1(a)", "1**2", "1+=1", "1//a", "1E-5", "1[a]", "1e+1", "[-0]", "a+0%", "a?0!", "a?0,", "a||0", "f(0{", "x=++", "x=+1", "x=--", "x=e0", "x={0", "'😀';1", "0/2/g", "00...", "0?a:b", "1/**/", "`${1`", "a,0;0", "a\n-0", "f(-0)", "new 0", "x+=0;", "x=++0", "x=++e", "x=0+0", "x=0X0", "x=e++", "x=e--", "x={0%", "x={0&", "x={0(", "x={0*", "x={0/", "x={0<", "x={0=", "x={0>", "x={0?", "x={0]", "x={1[", "x={1^", "x={1|", "y:{1}", "(07.5)", "//a\n1", "1\u{b}", "1\u{c}", "[...0]", "`${0}`", "if(0);", "new 0;", "new 0]", "x=07.0", "x={0/2", "/*\n*/1", "1\u{a0}", "case_0$", "f(...0)", "f(07.5)", "x=!(0);", "x=++e.a", "x=[+/2]", "x=[,0];", "x=a=>0;", "x={0(a)", "x={0+=1", "x={0:1}", "x={a:0]", "x={a:0}", "'\\08';1", "[...0;0]", "[a=0]=b;", "a:b:c:-0", "async\n1", "case_0\\", "case_1.$", "case_1.(", "new 0(a)", "new 0`t`", "throw 0;", "typeof 0", "var a=0;", "with(0);", "x=()=>0;", "x=(a,0);", "x=/a/,0;", "x=[a]=0;", "x=a=>-0;", "x={a}=0;", "(a)=>{};1", "1\u{1680}", "1\u{2000}", "1\u{2001}", "1\u{2002}", "1\u{2003}", "1\u{2004}", "1\u{2005}", "1\u{2006}", "1\u{2007}", "1\u{2008}", "1\u{2009}", "1\u{200a}", "1\u{2028}", "1\u{2029}", "1\u{202f}", "1\u{205f}", "1\u{3000}", "1\u{feff}", "case_1.if", "class A{0", "f(...0;0)", "for(0;;);", "for(;0;);", "for(;;0);", "while(0);", "x=[e.0/2]", "x=e++++e;", "x=new(0);", "x={...0};", "'a\\\nb';1", "({a=0}=b);", "0\u{2028}a", "[...0\n.5]", "`\n\r\n`;1", "case_1e+if", "const a=0;", "debugger;1", "for(-0;;);", "for(;;-0);", "var let_;1", "x=a in(0);", "x=void(0);", "x={[0]:a};", "\u{2028}0B1", "\u{2028}0O7", "class A{};1", "do;while(0)", "f(...0\n.5)", "x=(a=0)=>b;", "x=[a[0]]=b;", "x={...0;0};", "x={m(){1}};", "for(a in 0);", "for(a of 0);", "if(a);else;1", "let a=0,b=0;", "var [a=0]=b;", "var {a=0}=b;", "x=delete(0);", "x={*m(){1}};", "`a${0}b${0}c`", "case_0\\u0061", "case_0\\u{61}", "new.target_;1", "try{}catch{}1", "var{[0]:a}=b;", "x=([a])=>{1};", "x=({a=0})=>b;", "x=async a=>0;", "x=async()=>0;", "x=async(a,0);", "x={m(a=0){}};", "case_0\u{200c}", "case_1.\\u0061", "var [a=0;0]=b;", "var {a=0;0}=b;", "x={m([a]){1}};", "class A{m(){1}}", "for(;;){break}1", "function f(){1}", "function*g(){1}", "try{}finally{1}", "x=async(a)=>b;1", "x={get a(){1}};", "x={get[0](){}};", "x={m(a=0;0){}};", "[function(){1}];", "class A{[0](){}}", "try{1}catch(e){}", "var a=0,b=0,c=0;", "x=class{m(){1}};", "x={set a(b){1}};", "const{a:[b=0]}=c;", "for(const a=0;;);", "x=()=>{return 0};", "x=function*(){1};", "x={async m(){1}};", "x={async*m(){1}};", "({a:[b],...c}=d);1", "for(let[a=0]of b);", "for(var a of b){1}", "for(var{a=0}in b);", "get;set;async;of;1", "switch(0){case 0:}", "x=()=>{return -0};", "x=function f(){1};", "class A{get m(){1}}", "function f(...a){1}", "function f({a=0}){}", "class A extends(0){}", "switch(a){case 1:-0}", "switch(a){default:1}", "async function h(){1}", "function f(a,b,c=0){}", "function*g(){yield 0}", "function*g(){yield*0}", "x=0x1fffffffffffffff1", "x={get:1,set,async};1", "class A{static m(){1}}", "function(){1}\n()=>{1}", "function*g(){yield -0}", "x=async function(){1};", "x=function(){return};1", "y:for(;;){continue y}1", "for(;function(){1};());", "for(var x=[{a:(0)}];;);", "x=()=>{'use strict';1};", "class A{m(){super.a(0)}}", "switch(a){case 1:break}1", "function f(){'use strict'}1", "function f(){new.target(0)}", "async function h(){await(0)}", "const [[a=function(){1}]]=c;", "for(const {a=()=>{1}} in b);", "if(a){1}else if(b){1}else{1}", "const {a:{b=function(){1}}}=c;", "switch(a){case 1:{1}default:{}}"], &["x=6", "function f(eval,eval){}0"]),
        "C06" => (&["", "$", "(", ")", "+", ":", ";", "`", "a", "{", "}", "${", "((", "()", "(;", "({", ".a", "/b", "=>", "[]", "\\", "\n", "``", "`}", "a(", "a+", "a:", "a;", "aa", "f$", "x=", "{)", "{}", "}a", "(${", "()(", "(a)", "({a", "({{", "({}", "+ a", "[a]", "[{]", "[}]", "`$`", "`${", "`(`", "```", "``a", "`a`", "a()", "a(}", "a+a", "a.a", "a/b", "a:;", "a:a", "a:}", "a``", "f\\", "x=$", "{ {", "{ }", "()=>", "({${", "({a(", "({})", "({}}", "/b/b", "[${]", "[{}]", "`${`", "`\\`", "``/*", "a =>", "a(${", "a(a)", "a,``", "a:{}", "a?:b", "f`\r", "new ", "'}'.a", "('}')", "()=>a", "()=>{", "()=>}", "(/`/)", "(``a)", "({a()", "({a({", "({a(}", "({a})", "+ { }", "-(``)", "`${}`", "`\\``", "``//a", "``\na", "a()``", "a({})", "a+/`/", "a+a+a", "a+a/b", "a:(a)", "a?a:b", "a[``]", "a||``", "f().a", "f`\\u", "f`\r`", "f``//", "f``/1", "f``\r", "f``\t", "new a", "new }", "x={,}", "x={[}", "{...}", "'😀';``", "()=>[]", "()=>{}", "({a(${", "({a({{", "({a({}", "[{}{}]", "`${/b`", "`${a}`", "`${}}`", "``/**/", "a => a", "a(``a)", "a++;``", "f`\\0`", "f`\\1`", "f`\\f`", "f`\\n`", "f`\\u`", "f`\\x`", "f``/*`", "new ${", "new .a", "new {}", "x+=``;", "x=(a,)", "x={[a}", "{}({})", "({a({${", "//}\n.a", "09.5;``", "[...``]", "`${1}$`", "`/*`*/`", "f`\\00`", "f`\\\r`", "f`\\u0`", "f`\\x0`", "f`\r\n`", "f``'\\0", "if(``);", "new a;b", "new f()", "x=(a,a)", "x=[++a]", "x=``a``", "x={a:a}", "x={get}", "x={set}", "x={x=a}", "x={}++}", "( a ) =>", "()=>{}.a", "()=>{}/b", "0.5.a;``", "[{...a}]", "[{...{}]", "`${/b`/b", "`${a}${`", "a+\"${\"", "f(...``)", "f`\\u{}`", "f`\\x00`", "f`\\x01`", "f`\\x10`", "f`\\xf0`", "f``'\\0`", "f``\"\\`", "x=!(``);", "x=(...a)", "x=[++{}]", "x=[,``];", "x=`${$}`", "x=``\r``", "{a:new }", "'\\08';``", "[a=``]=b;", "[{[a]:1}]", "[{m(){}}]", "`${/`/}b`", "`/*`*/`/b", "`a${/}/}`", "async\n``", "f`${{$}}`", "f`\\\r\n`", "throw ``;", "var a=``;", "with(``);", "x=(await)", "x=(x=>a,)", "x=(yield)", "x=[...${]", "x=[a]=``;", "x=[async]", "x=[break]", "x=[class]", "x=``\r$``", "x=`a\\bb`", "x=`a\\rb`", "x=`a\\tb`", "x=`a\\vb`", "x=a=>{}[}", "x={async}", "x={await}", "x={a}=``;", "x={yield}", "{a:new a}", "( + a ) =>", "( `a` ) =>", "( a ) => a", "( { } ) =>", "\u{2028}``", "`${a}${a}`", "async\nt``", "for(;;``);", "for(;``;);", "for(``;;);", "typeof(``)", "while(``);", "x=(export)", "x=[a?.5:b]", "x=[class{]", "x=[return]", "x=`\\u$a}`", "x=`\\uaaa`", "x=`\\u{a``", "x=``\r$$``", "x=a**(``);", "x=a=>{let}", "x={a?.5:b}", "x={},a\n{}", "'a\\\nb';``", "({a=``}=b);", "async()=>{}", "const a=``;", "debugger;``", "for(t``;;);", "var let_;``", "x=(async a)", "x=(async())", "x=`${a++`}`", "x=``\r$\\``", "x=a in(``);", "x=a=>{let{}", "x=void(``);", "x={async a}", "{a:if(a){}}", "( a `a` ) =>", "`${function(", "class{m(){}}", "do;while(``)", "f`\\u{D7FF}`", "function(){}", "x=(a=``)=>b;", "x=[a[``]]=b;", "x=[function]", "x=a=>{break}", "x=x=>{a:let}", "x={f({a:{})}", "a+async()=>{}", "async()=>{}.a", "f`\\\u{2029}`", "for(a in ``);", "for(a of ``);", "if(a);else;``", "var [a=``]=b;", "var {a=``}=b;", "x=`a${'\\'}c`", "x=`s${``++}t`", "x=a=>{let\na}", "x=a=>{return}", "x=delete(``);", "x=x=>{a:let{}", "x=x=>{let\na}", "x={*m(){``}};", "x={get a(){}}", "[class{m(){}}]", "[function(){}]", "let a=``,b=``;", "try{}catch{}``", "var{[``]:a}=b;", "x=([a])=>{``};", "x=({a=``})=>b;", "x=`a${'\\u'}c`", "x=async a=>``;", "x=x=>{a:async}", "x={m(a=``){}};", "x=`a${\\u{a}}c`", "x=`a${{$\n$}}c`", "x=a=>{continue}", "x=a=>{return{}}", "x=x=>{a:return}", "x={async*a(){}}", "x={m([a]){``}};", "`${[/b]}${[/b]}`", "`${\n/b}${\n/b}`", "class extends {}", "f`\\ud800\\u{0}`", "for(;;){break}``", "function f(){``}", "try{}finally{``}", "x=`a${\n'\\`'}c`", "x=a=>{for(let{}}", "x=async(a)=>b;``", "{a:class{m(){}}}", "{a:function(){}}", "class A{[``](){}}", "f`\\ud800\\udc00`", "f`\\ud800\\ude00`", "f`\\ud800\\ue000`", "f`\\ud801\\udc01`", "try{``}catch(e){}", "x=`a${'\\\r\n'}c`", "x={set a(b){``}};", "`${a=\n>{`${b}`}}`", "const{a:[b=``]}=c;", "for(const a=``;;);", "x=async()=>{await}", "x=function*(){``};", "x={async m(){``}};", "({a:[b],...c}=d);``", "({a=`${{a:`}}`}=b);", "[class extends a{}]", "for(let[a=``]of b);", "for(var a of b){``}", "for(var{a=``}in b);", "let[a=```]=b,c=```;", "var a=``,b=``,c=``;", "x=class{m(){(let)}}", "x=class{m(){yield}}", "x=function f(){``};", "x={m(){new.target}}", "class A{get m(){``}}", "function f(...a){``}", "function f({a=``}){}", "switch(``){case ``:}", "x=async()=>{await{}}", "x=class{m(){static}}", "[function*(){yield }]", "switch(a){default:``}", "[function*(){yield a}]", "[function*(){yield {}]", "async function h(){``}", "function f(a,b,c=``){}", "function*g(){yield ``}", "function*g(){yield*``}", "x=async()=>{[{await}]}", "x=class{m(){}static(}}", "[function*(){yield {}}]", "class A{static m(){``}}", "x=async function(){``};", "y:for(;;){continue y}``", "{a:function*(){yield }}", "for(var x=[{a:(``)}];;);", "x=()=>{'use strict';``};", "({get a(){return \n`x`}})", "class A{m(){super.a(``)}}", "switch(a){case 1:break}``", "[function*(){yield \n`x`}]", "[function*(){yield new a}]", "x=class{m(){{a:function}}}", "function f(){'use strict'}``", "const [[a=function(){``}]]=c;", "for(const {a=()=>{``}} in b);", "x=`${function(){'}'``;'}'}}t`", "x=`\\u{4}`1}\\x41\\n${{a:1}}`", "let a=`${{a:`}}`,b=`${{a:`}}`;", "const {a:{b=function(){``}}}=c;", "if(a){``}else if(b){``}else{``}", "switch(a){case 1:{``}default:{}}"], &["x =class{", "x =class{ a", "x =class{ }"]),
        "C07" => (&["", "(", ")", "*", "+", ",", ".", "/", "1", ":", ";", "=", "?", "[", "]", "`", "a", "{", "}", " /", "!/", "++", "-/", "//", "/;", "=>", "\n", "a(", "a)", "a,", "a.", "a/", "a:", "a;", "a?", "a[", "a]", "aa", "a{", "do", "if", "in", "~/", " //", "!//", "!{/", "( )", "( a", "((/", "()/", "+ a", "--/", "-a/", "/(/", "//;", "/b/", "1 =", "[ ]", "[!/", "[]/", "` /", "` `", "a 1", "a a", "a((", "a()", "a**", "a*=", "a*a", "a++", "a+a", "a.a", "a/*", "a/;", "a/=", "a/a", "a:a", "a:}", "a==", "a=>", "a=a", "a[a", "a``", "a{}", "{ }", "{}/", "~//", "!/b/", "!=>/", "(a)/", "(a,/", "++ +", "++ a", "+=>/", "-=>/", "-a/a", "/(/;", "/[/g", "1/'/", "[a,/", "[a]/", "` ${", "`${/", "a&&/", "a(==", "a(a)", "a(a{", "a**=", "a**a", "a*=a", "a++[", "a+=/", "a--/", "a-a/", "a...", "a.in", "a/*/", "a/=>", "a/=a", "a/{(", "a/{}", "a:{}", "a=*=", "a===", "a==a", "a=>a", "a=>{", "a?1)", "a[]]", "a[a]", "a\na", "a```", "a||/", "else", "if (", "~/b/", "![]/a", "!{a}/", "'s'//", "'s'/a", "()=>/", "(a)/a", "({a=/", "/(/{}", "/*a*/", "//\na", "/[/]/", "/\\//", "/\r/g", "/a/++", "1++a/", "[[]/a", "[a]/a", "a((a)", "a()/b", "a()[/", "a(1,)", "a(===", "a({}=", "a**=a", "a+=//", "a+a/a", "a--/a", "a-a/a", "a/(a)", "a/b/a", "a/{a(", "a/{a/", "a/{a}", "a:(a)", "a:in/", "a=**=", "a=/b/", "a===a", "a=>{}", "a?1:a", "a`${`", "class", "in/b/", "let//", "let;/", "let[/", "let{/", "new//", "new{/", "while", "x={[/", "yield", "{ ; }", "(a)=>/", "({})//", "++/b/g", "1/=b/a", "[[a]/a", "`${/b/", "a in a", "a&&/b/", "a({a}=", "a+=/b/", "a/(a,)", "a/=>=>", "a/{a((", "a/{a()", "a/{a/=", "a:let/", "a=(1,)", "a=(a,)", "a=>(a)", "a={}=a", "a[a]++", "a`${}`", "async/", "await/", "a||a;/", "case/a", "for(;/", "for(;;", "for(a;", "if(a)/", "let a/", "let[]/", "let{}/", "new a/", "new/'/", "null/b", "return", "this/a", "true//", "typeof", "var a/", "void/a", "x=/a/%", "x=/a/&", "x=/a/<", "x=/a/|", "(/'/,b)", "({})=>/", "//\r^/g", "/]/\\/g", "/]/^a/g", "/a/.a++", "/a/^a/g", "1in/b/g", "[...a;/", "[]null/", "`${a}`/", "a()`t`/", "a:;/b/g", "a?b:/b/", "a`${a}`", "async//", "async/a", "await/a", "a||/b/g", "break//", "break/a", "class a", "false/a", "let[a,/", "let[a]/", "let{a}/", "new/'/;", "new[]/a", "throw//", "var a//", "var a/a", "void/b/", "while (", "x=/a//$", "x=/a/\t", "x=[,/];", "x={[a,/", "x={get}", "'\\08';/", "()=>/\"/", "()=>{}/a", "(a)/=b/a", "(a)=>a/a", "({a=/b/}", "[.../b/]", "[.../}/]", "`${/=/}`", "`${/b/}`", "a()[a]/a", "a()`t`/a", "a.b/=b/a", "a/class{", "a:this/a", "a?.5:/b/", "a?.5:/}/", "a?/}/){}", "delete/a", "f(...a;/", "f(/a/).a", "for(; );", "for(;;)/", "if(a)/b/", "let//\na", "let[.../", "let\na,/", "super.a/", "throw/'/", "typeof a", "var a/b/", "var aa,/", "with(a)/", "x=/a//m$", "x=[a]=/;", "( / / , )", "//\na\\/g", "09.5;/b/g", "a/class{a", "a/class{{", "a/class{}", "a:async/a", "a[b]/=1/2", "class a }", "delete/b/", "f(.../`/)", "let a/\"/", "let\na&&/", "new/b/(a)", "super.a/a", "throw/{/;", "throw\n//", "var a=/b/", "var a=/}/", "while(a)/", "with(a)/a", "x=/a/ \\u", "x={...a;/", "x={a ( a}", "x={a:/b/}", "x={a=/{/}", "x={get a}", "(a,b)/=b/a", "({})=>/b/g", "0.5.a;/b/g", "a/class{{}", "a/function", "a;while(a;", "async(a)/a", "async//\na", "break//\na", "debugger//", "for(;;)/b/", "for(var a;", "function (", "new a`t`/a", "throw//\na", "with(a)/b/", "x=/a/ \\ug", "x=/a//\\ua", "x=/a/\u{b}", "x=/a/\u{c}", "x=[,/b/g];", "x={.../b/}", "x={[/`/:1}", "'\\08';/b/g", "( ( a ) , )", "( a ( ) , )", "( a / a , )", "( { a ( { (", "/\u{2028}/g", "[a=/b/g]=b;", "a/function(", "a:if(a)/b/g", "a:throw/b/g", "a;do;while(", "class A{}/a", "const a=/b/", "debugger/b/", "f(.../`/,b)", "for(/ / in;", "for(a in a;", "for(a of );", "for(a of a;", "for(a,/;;);", "if(a)this/a", "var [a]=/b/", "var {a}=b/a", "while(a)/b/", "x=/a/\u{a0}", "x=[a]=/b/g;", "x={a(){}}/a", "x={a}=/b/g;", "x={get a (}", "!class A{}/a", "( { a } ) =>", "(/b/.c=1)=>a", "(class{})=>/", "a:return/b/g", "a:var a=/b/g", "async(a)=>a/", "do;while(a)/", "for(;;/b/){}", "for(a ; ; );", "instanceof//", "switch(a){}/", "var a=/b/g,a", "x=/\u{2029}/", "'a\\\nb';/b/g", "( a => a ) =>", "(/b/[c]=1)=>a", "[a=a,/b/g]=b;", "` ${ a } ${ `", "`\n\r\n`;/b/g", "a:class A{}/a", "a:for(;;)/b/g", "a:with(a)/b/g", "async()=>{}//", "async()=>{}/a", "async(a)=>a/a", "for(!/b/g;;);", "for(;;!/b/g);", "for(a in a );", "for(a of a );", "if(a){}do/b/g", "new.targeta/a", "new\nsuper.a/", "switch(a){\n}", "try{}catch{}/", "x=([a])=>{/};", "x=/a//\\u0067", "x=/a/\u{1680}", "x=/a/\u{2000}", "x=/a/\u{2001}", "x=/a/\u{2002}", "x=/a/\u{2003}", "x=/a/\u{2004}", "x=/a/\u{2005}", "x=/a/\u{2006}", "x=/a/\u{2007}", "x=/a/\u{2008}", "x=/a/\u{2009}", "x=/a/\u{200a}", "x=/a/\u{202f}", "x=/a/\u{205f}", "x=/a/\u{3000}", "x=/a/\u{feff}", "x={[/b/g]:a};", "x={a ( { a /}", "!async()=>{}/a", "(a=/b/.c=1)=>a", "do ; while ( a", "do;while(/b/g)", "for(;;)break//", "for(a,/b/g;;);", "for(let a/;;);", "for(var a = a;", "if(a)b;else/b/", "try{}catch{}//", "[a=[.../b/g]=b;", "a instanceof/b/", "do a;while(b)//", "for(a in b)/\"/", "for(new/b/g;;);", "function*g(){a}", "var [a=/b/g]=b;", "var {a=/b/g}=b;", "x={*m(){/b/g}};", "x={a ( a ) { }}", "x={a ( { a : a}", "x={get a(){}}/a", "(function(){})//", "class A{m(){}/}}", "do;while(a);/b/g", "for(var a ; ; );", "function f(){}//", "function*g(){}//", "try{}catch(e){/}", "try{}finally{}//", "var{[/b/g]:a}=b;", "x=([a])=>{/b/g};", "x=({a=/b/g})=>b;", "x=async a=>/b/g;", "x={m(a=/b/g){}};", "!function*g(){}/a", "(function(){})=>/", "a:function*g(){}/", "a:switch(a){}/b/g", "class A{m(){/a/}}", "for(;;)continue//", "for(let a/b/g;;);", "for(var a in a );", "for(var a of a );", "switch(a){case a}", "x=function*(){}//", "x={*m(){yield/}};", "x={async m(){/}};", "x={async*m(){/}};", "x={m([a]){/b/g}};", "(a/=b/c)=>(a/=b/c)", "({a:[b],...c}=d);/", "a:try{}catch{}/b/g", "for(;;)break/*a*/a", "for(let a=/b/g;;);", "for(var a=/b/g;;);", "let a=/b/g,b=/b/g;", "try{}catch{}this/a", "x=()=>{return !/};", "x=()=>{return ;/};", "x=a=>{return/b/g};", "x=async()=>await/;", "x={*m(){new/b/g}};", "x={*m(){yield:/}};", "{function(){}/a/g}", "`a${/b/g}b${/b/g}c`", "class A{[/b/g](){}}", "class A{get m(){/}}", "for(const a=a,/;;);", "function*g(){yield}", "switch(a){case a :}", "switch(a){case b:;/", "try{/b/g}catch(e){}", "x={set a(b){/b/g}};", "a:b:c:debugger\n/b/g", "a:function f(){}/b/g", "a:function*g(){}/b/g", "class A extends/b/{}", "const{a:[b=/b/g]}=c;", "for(;;)continue//\na", "for(const a=/b/g;;);", "function*g(){yield!/", "function*g(){yield*/", "switch(a){default :}", "x=a=>{return\n/b/g};", "x=class{m(){{/b/g}};", "x={*m(){yield/b/g}};", "x={async m(){/b/g}};", "x={async*m(){/b/g}};", "'use strict'\nyield/a", "({a:[b],...c}=d);/b/g", "for(;;)continue/*a*/a", "for(let[a=/b/g]of b);", "if(a)function(){}/a/g", "switch(a){case a : ;}", "var [a=let a=/b/g]=b;", "var {a=let a=/b/g}=b;", "x=()=>{return !/b/g};", "x=()=>{return ;/b/g};", "x=async()=>await/b/g;", "(`${/}/}`)=>(`${/}/}`)", "class A{static m(){/}}", "for(const a=a,/b/g;;);", "function f(...a){/b/g}", "function f({a=/b/g}){}", "if(a)function f(){/a/}", "x=async function(){}/a", "x={*m(){yield\n/b/g}};", "for(;;)function*g(){}/a", "function*g(){a / yield}", "function*g(){yield ( a}", "function*g(){yield*/b/}", "if(a)function*g(){}/b/g", "a:async function f(){}/a", "for(const a=a in/b/g;;);", "function f(){return/\"/}", "function f(){return}/b/g", "x=async(a=await/b/g)=>b;", "x={get:1,set,async};/b/g", "async\nfunction*g(){}/b/g", "class A{static m(){/b/g}}", "switch(a){case 1:new/b/g}", "y:for(;;){continue y}/b/g", "function f(){new.target}//", "x=()=>{'use strict';/b/g};", "function*g(){yield `t`/b/g}", "switch(a){case 1:break}/b/g", "switch(a){case a : case a :}", "switch(a){default : default}", "switch(a){case a : default :}", "function f(){'use strict'}/b/g", "async function f(a=await/b/g){}", "const [[a=function(){/b/g}]]=c;", "for(const {a=()=>{/b/g}} in b);"], &[";/", "yield/", "a=let/a", "yield/a", "static/b", "export {}/", "export {}//", "export {}/(/", "import 'a'//", "export {a}\n/", "import 'a'/{/", "export {a}\n//", "export {}//\na", "export default/`/", "import a from 'b'/", "export default//\na", "import a from 'b'//", "a:b:c:function f(a=/", "export * from 'a'\n/", "import a from 'b'/(/", "async function f(){a}", "export * from 'a'\n//", "import {a} from 'b'\n/", "import {a} from 'b'\n//", "a:b:c:function f(){}/b/g", "export default class{}//", "export default class{}/a", "function f(eval,eval){}/", "export * from 'a'\n/*a*/;", "function f(eval,eval){}/b/g", "export default function(){}//", "export default function(){}/b"]),
        "C08" => (&["1", ";", "a", " ;", "*a", "-a", ".5", "/;", "/a", "[]", "a/", "a;", "ab", "{}", "'s'", "(a)", "**a", "/*;", "//;", "/r/", "1.a", "[a]", "\n;", "\r;", "\t;", "`t`", "a**", "a*b", "a++", "a+b", "a,a", "a.b", "a/;", "a/b", "a:b", "a=b", "{a}", "-(a)", "/r/ ", "0o17", "0x1F", "1-->", ";-->", "[*/]", "[, ]", "`t` ", "a!=b", "a$=b", "a%=b", "a&=b", "a( )", "a(=b", "a(b)", "a)=b", "a**b", "a*=b", "a+=b", "a--b", "a-=b", "a/+b", "a/,a", "a/=b", "a:=b", "a<=b", "a==b", "a=>b", "a>=b", "a?=b", "a[=b", "a[a]", "a\nb", "a]=b", "a^=b", "a`=b", "a`t`", "a{=b", "a|=b", "a||a", "a}=b", "a~=b", "null", "this", "true", "((a))", "(a b)", "--->a", "/**/;", "//\n;", "0b101", "1.5e3", "[-->]", "[a b]", "\"t\"", "a .if", "a**=b", "a+*=b", "a++=b", "a/( )", "a/+=b", "a/. b", "a/b/g", "a===b", "a?a:b", "a\\=b", "async", "false", "let a", "new a", "y:{a}", "(a)=>b", "09.5;a", "[...a]", "\u{b};", "\u{c};", "`${a}`", "a in b", "a+**=b", "a++++b", "a++/=b", "a?a/:b", "a\n++b", "a\n--b", "a\n=>b", "async/", "f(a b)", "if(a);", "let a;", "new a/", "new*/a", "var a;", "vara ;", "void 0", "( )=> a", "--a . b", "[a,a,b]", "\u{85};", "\u{a0};", "`${/a}`", "`${a/}`", "a =>*/b", "a/: b ;", "async a", "eval=1;", "f(...a)", "throw a", "x=!(a);", "x={}/1;", "'\\08';a", "( )/=> a", "( a , b)", "(a\n++b)", "+- ! ~ a", "[(a)=>b]", "[...a b]", "[a=a]=b;", "a/''++/b", "a/++/+/b", "async( )", "async\na", "await=1;", "class{ }", "f(a,a,b)", "let[a]=b", "new a( )", "new a`b`", "throw a;", "throw\na", "typeof a", "var*/a ;", "with(a);", "x=[a]=a;", "x={a:a};", "x={a}=a;", "yield:a;", "( )//=> a", "(a)=>{};a", "\u{1680};", "\u{2000};", "\u{2001};", "\u{2002};", "\u{2003};", "\u{2004};", "\u{2005};", "\u{2006};", "\u{2007};", "\u{2008};", "\u{2009};", "\u{200a};", "\u{2028};", "\u{2029};", "\u{202f};", "\u{205f};", "\u{3000};", "\u{feff};", "a + b/- c", "a/? b : c", "debugger;", "f((a)=>b)", "f(...a b)", "for(;;)a;", "for(;;a);", "for(;a;);", "for(a;;);", "new a\n/a", "while(a);", "with(a)b;", "x=new(a);", "x={...a};", "'a\\\nb';a", "'s'/*/*/*b", "({a=a}=b);", "`\n\r\n`;a", "a&& b || c", "async a=>b", "class A{ }", "classA { }", "class\n{ }", "const a=a;", "export\n{}", "var yield;", "x=()=>(a);", "x={[a]:a};", "x={a:a b};", "/r[/]\\//gi", "[...a\n++b]", "a && b/|| c", "a/&& b || c", "a\u{200c}=b", "a\u{200d}=b", "async(a)=>b", "delete a. b", "do;while(a)", "switch(a){}", "x=(a=a)=>b;", "x=[a[a]]=b;", "x={...a b};", "x={m(){a}};", "a& b ^ c | d", "a* b / c % d", "a:b:c:(a)=>b", "async/*/*/*a", "class A {*/}", "consta = 1 ;", "f(...a\n++b)", "for(a in a);", "for(a of a);", "if(a);else;a", "let a=a,b=a;", "new( a ( ) )", "var [a=a]=b;", "var {a=a}=b;", "x={*m(){a}};", "x={a,b:a,c};", "`${a }${ b }`", "a///*\n*/\n/b", "class A {-->}", "do{}while(a);", "new.target_;a", "try{}catch{}a", "var{[a]:a}=b;", "x =/{ } / 1 ;", "x=([a])=>{a};", "x=({a=a})=>b;", "x={get a(){}}", "x={m(a=a){}};", "a instanceof b", "for((a)=>b;;);", "for(;;(a)=>b);", "function f(){}", "let a= 1 , b ;", "try{}finally{}", "var [a=a b]=b;", "var {a=a b}=b;", "x={...a\n++b};", "x={m([a]){a}};", "'use\nstrict' ;", "'use\rstrict' ;", "`a${/a}b${/a}c`", "class A{m(){a}}", "for(;;){break}a", "function( ) { }", "function*g(){a}", "try{}catch(a){}", "x-->= { } / 1 ;", "x={async a(){}}", "x={get[a](){}};", "x={m(a=a b){}};", "[function(){a}];", "a &= b ^= c/|= d", "a &= b/^= c |= d", "a/&= b ^= c |= d", "a<< b >> c >>> d", "class A{[a](){}}", "for(;;){break a}", "for(varainb,c)d;", "var a=a,b=a,c=a;", "x=class{m(){a}};", "x={async\na(){}}", "x={set a(b){a}};", "a /= b/%= c **= d", "a [ b ]/-= c *= d", "a/( b , ... c , )", "async a=> await b", "const{a:[b=a]}=c;", "for(;;){break\na}", "for(const a=a;;);", "for(const[a]inb);", "var [a=a\n++b]=b;", "var {a=a\n++b}=b;", "x=()=>{return a};", "x=function*(){a};", "x={async*m(){a}};", "({a:[b],...c}=d);a", "for(let[a=a]of b);", "for(var a of b){a}", "for(var{a=a}in b);", "if(a)if(b)c;elsed;", "newa . b ( c ) . d", "switch(a){case a:}", "throw new a( b ) ;", "x=function f(){a};", "x={m(a=a\n++b){}};", "'use/*\\*/strict' ;", "a<<= b >>= c >>>= d", "class A{get m(){a}}", "for( a . b in c ) ;", "function f(...a){a}", "function f({a=a}){}", "x=()=>{return */a};", "x=()=>{return \na};", "a <<= b >>= c/>>>= d", "a <<= b/>>= c >>>= d", "a. b ( c ) [ d ] . e", "a/<<= b >>= c >>>= d", "async function f(){}", "class A extends B{}a", "switch(a){default:a}", "a: function b ( ) { }", "a:b:while(c){breaka;}", "async\nfunction f(){}", "class A{static a(){}}", "for(consta=1;;)break;", "function*g(){yield a}", "function*g(){yield*a}", "x={get:1,set,async};a", "'use strict'\nwith(a)b", "a== b != c === d !== e", "for ( const a/of b ) ;", "for ( var a/of b ) c ;", "function*g(){yield\na}", "try{}catch([a,{b}]){c}", "var a= 1 , b , c = d ;", "x=()=>{return (a)=>b};", "x=async function(){a};", "x=function(){return};a", "y:for(;;){continue y}a", "a : function*/b ( ) { }", "for ( let a/= 1 ; ; ) ;", "for ([ a , b ] of c ) ;", "for(var x=[{a:(a)}];;);", "var[a,,b=1,[c],...d]=e;", "x=()=>{'use strict';a};", "class A{m(){super.a(a)}}", "const{a:{b:{c=d}={}}}=e;", "function*g(){x=yield(a)}", "switch(a){case 1:a\n++b}", "switch(a){case 1:break}a", "(function ( ) { } ) ( ) ;", "for ( vara = 1 in b ) c ;", "for( const [ a ] in b ) ;", "for(vara=1,b=2;a<b;a++)c;", "while(a){break;continue;}", "class A{static/*/*/*a(){}}", "if( a ) function b ( ) { }", "for( { a , b : c } of d ) ;", "function f(){'use strict'}a", "function f(){new.target(a)}", "do/*/a/*/;/*/while/*/(/*/b/*/)", "async function* a ( ) { yield }", "switch(a){case 1:{a}default:{}}", "[a , b . c , [ d ] , ... e ] = f", "a: b : while ( c ) { break a ; }"], &["a-b", "a>b", "a>>b", "<!--;", "a<!--", "a>>>b", "a>a/b", "a>>a-b", "a>>>a-b", "a>a/a>b", "export{}", "export{};", "import'a'", "import'a';", "export let a;", "export*/{ } ;", "import*/'a' ;", "import-->'a' ;", "export*from'a';", "export default a", "import afrom 'b'", "import{}from'a';", "a \n<!--b \n ++ c", "export class A{ }", "import a from 'b'", "import a/from 'b' ;", "export var a= 1 , b ;", "throw new a<!--( b ) ;", "export default class{ }", "import* as a from 'b' ;", "export function a () { }", "import a ,{ b } from 'c' ;", "export{a,basc,dasdefault,};", "import a, * as b from 'c' ;", "import a , { b*/} from 'c' ;", "export default async( ) => a ;", "export default function( ) { }", "export async function* a ( ) { }", "export/*/default/*/[/*/a/*/]/*/;"]),
        "C09" => (&["", "(", ")", "+", ",", "/", "1", ";", "=", "[", "]", "`", "a", "{", "}", "()", "(;", "++", "--", "-a", "1=", "=>", "[]", "\\", "\n", "a ", "a(", "a*", "a+", "a.", "a;", "a@", "a]", "aa", "a}", "do", "if", "in", "{}", "'s'", "(a)", "({}", "++a", "/r/", "1++", "1.b", "1:b", "1=b", ";!a", ";+a", ";.b", ";~a", "[ ,", "[ =", "[];", "[a]", "`t`", "a 1", "a [", "a a", "a!a", "a()", "a(;", "a*a", "a++", "a+a", "a,b", "a--", "a-1", "a.b", "a/b", "a:;", "a:b", "a=>", "a=b", "a\n", "a\r", "a\t", "a{}", "a~a", "for", "if;", "let", "new", "var", "{a}", "()=>", "(a:b", "({a}", "++ +", "/r/@", "1+=b", ";&&b", ";+=b", ";||b", "[]=b", "a /*", "a&&b", "a(a)", "a**a", "a+=b", "a,b;", "a:-a", "a:{}", "a==b", "a=>;", "a=>b", "a[a]", "a\na", "a`t`", "a||b", "else", "let;", "new;", "null", "this", "x={}", "'s'-1", "( { ;", "()=>a", "(a)++", "(a)=>", "++a++", "1in b", ";?b:c", ";enum", "[ , ]", "[ [ ]", "[ a ,", "[ { [", "[a]=b", "`t`\r", "a //a", "a((a)", "a().b", "a(a:b", "a*=>d", "a+b/b", "a.(a)", "a...a", "a.[a]", "a.b++", "a.b=b", "a/**/", "a//\n", "a/r/g", "a:let", "a:new", "a===b", "a==>b", "a=>{}", "a?b:c", "a\n++", "async", "await", "break", "for (", "if(a)", "let a", "let{}", "new a", "new.b", "new{}", "throw", "var [", "var a", "while", "x={a}", "yield", "'\\\n'", "( {} )", "()*=>d", "(a)=>b", "` \\ `", "a()[a]", "a()`t`", "a.this", "a//\na", "a:let;", "a:this", "a=>(c)", "a[b]++", "a[b]=b", "async;", "async}", "if(a);", "let[a]", "let{a}", "new a;", "return", "var a;", "void 0", "x={}=b", "( { a (", "( { a ;", "09.5;a ", "[ , ] =", "[ [ a ]", "[ a , ]", "a/*\n*/", "a/a/=>d", "a:async", "a:let a", "a:var a", "a\nin b", "a`${a}`", "async a", "async()", "const a", "for ( (", "for ( ;", "let a,b", "let { =", "new a()", "super.a", "throw a", "throw\n", "var [ ,", "var [ =", "var a,b", "var a=b", "void 01", "while (", "x={a}=b", "(class{}", ";\\u0061", "a:if(a);", "a:return", "a\\u0061", "async\na", "break\ra", "continue", "debugger", "do a;(a)", "for(;;)a", "throw a;", "throw\na", "typeof a", "while(a)", "with(a)b", "'\\08';a ", "( { a ( )", "( { a ( ;", "( { async", ";delete a", "[ { [ a ]", "a:break a", "a:let [a]", "a:throw a", "a\u{2028}", "a\u{2029}", "async()++", "const a=1", "debugger;", "for ( a ;", "if(a)this", "let yield", "let { a [", "new a`\n`", "var [ a ,", "var [a]=b", "var a\n/b", "var {a}=b", "while(a)b", "x=class{}", "{a( ...a}", "( { } ) =>", "/r/\\u0061", "a:debugger", "a:for(;;)a", "a:with(a)b", "async a=>b", "async()=>b", "async(a)=>", "function (", "if(a);in b", "var a\n/a/", "x=()=>{}-1", "x={m(){a}}", "( { a ( a ;", "( { async (", "[ { a = a }", "`\n\r\n`;a ", "a:class A{}", "a=class A{}", "async await", "async(a)=>b", "continue\na", "do;while(b)", "if(a);else;", "switch(a){}", "try{} try{}", "x=()=>{}**a", "( ( a ) ) =>", "( a ( ) ) =>", "( function (", "( { a } ) =>", "( { } ) => a", "()=>{return}", "({a=1}=b);a ", "class A{ * }", "class A{ ; }", "do a\nif(a)b", "do;while(b);", "for(;;)break", "for(a of b)c", "let function", "x=()=>{}?b:c", "( a => a ) =>", "( { async } )", "()=>{return;}", "a = { a = a }", "a+async()=>{}", "a:switch(a){}", "async a=>{}-1", "for ( var a (", "try{} catch{}", "var [ , ] = a", "x=(a,b)=>c;a ", "x={*m(){a }};", "()=>{return a}", "a\u{2029}await", "a\u{2029}yield", "class A{ a a }", "for ( a ( ) in", "for ( a in a ;", "for ( a in a a", "function f(){}", "try{}finally{}", "x=([a])=>{a };", "x=(a=1)=>{a };", "x=function(){}", "x={get m(){a}}", "()=>{return {}}", "()=>{return\na}", "a\ninstanceof b", "a\rfunction(){}", "class A{m(){a}}", "for(;;)continue", "for(a in b){a }", "function*g(){a}", "let [ [ ] ] = a", "let [ { } ] = a", "while(a)class{}", "x={m([a]){a }};", "a:function f(){}", "a:try{}finally{}", "a=function f(){}", "async()=>{await}", "class A{ get a }", "x={*m(){this }};", "try{a }catch(e){}", "try{}catch{}this ", "x={*m(){yield }};", "x={*m(){yield;}};", "x={set a(b){a }};", "()=>{'use strict'}", "async function(){}", "async()=>{await a}", "new\u{2028}super.a", "x=function*(){a };", "x={*m(){yield a}};", "x={async m(){a }};", "x={async*m(){a }};", "'use strict'\ryield", "()=>{return a in b}", "({a:[b],...c}=d);a ", "`${{a:{b(){a }}}}`;", "class A{ static * }", "for(var a of b){a }", "function f(a=1){a }", "if(a)function f(){}", "switch(a){case b:;}", "switch(a){case b:a}", "throw a\u{2029}in b", "x={*m(){yield*a }};", "x={*m(){yield\na}};", "`a${b}${()=>{a }}c`;", "a:async function(){}", "async function f(){}", "async()=>{let await}", "class A{ get () {} }", "function f(...a){a }", "x=async function(){}", "x={*m(){yield ++a}};", "x={*m(){yield `t`}};", "()=>{while(a) return}", "async\nfunction f(){}", "class A extends B{}a ", "switch(a){default:a }", "x=a=>{'use strict' };", "'use strict'\n(a)\n's'", "function*g(){a+ yield}", "switch(a){case b:this}", "x=[...function(){a }];", "x={get:1,set,async};a ", "class A{ static () {} }", "class A{static m(){a }}", "switch(a){case b:break}", "x={[function(){a }]:a};", "elsedefault: function(){}", "for(var x in(a in b)){}a ", "function*g(){yield yield}", "var {a=function(){a }}=b;", "x=(a=1)=>{'use strict' };", "function f(){ ( + a ) => }", "function f({a=()=>{a }}){}", "switch(a){case b:case a:b}", "switch(a){case b:default:}", "class A{ \n async a () {} }", "class A{ static * a () {} }", "for(let a=function(){a };;);", "function f(){ ( a + a ) => }", "switch(a){default:default: }", "class A{[function(){a }](){}}", "for(const {a=()=>{a }} in b);", "const {a:{b=function(){a }}}=c;"], &["1a", "(let", "a=let", "static", "class{}", "default", "export ;", "import ;", "import a", "export {}", "import {}", "export {a}", "export {};", "import 'a'", "import *as", "import a ;", "import 'a';", "export var a", "export {}\na", "function(){}", "import a 'b'", "export class{}", "export let a=1", "export class A{}", "export default a", "export * from 'b'", "export {a}\nlet a", "export {} \n from", "export {}from 'a'", "import a from 'b'", "export * from 'b';", "import a from 'b';", "import {} from 'b'", "export function(){}", "export let a=1 in b", "function*g(){yield*", "import *as from 'b'", "import {a} from 'b'", "export {a} from 'b';", "export function f(){}", "import *as a from 'b'", "export default class{}", "function f(eval,eval){}1\n", "export default function(){}"]),
        "C10" => (&["!", "(", ")", ",", "-", ":", "=", "?", "a", "~", "**", "++", "+=", "--", "( )", "( -", "++a", "- a", "-+1", "--1", "--a", "a (", "a ,", "a -", "a :", "a ?", "a a", "a ~", "x=a", "(-a)", "-+{}", "-a/*", "[-a]", "a **", "a +=", "a, b", "a;-a", "{-a}", "( ) (", "( a !", "-+1++", "-+1.b", "--(a)", "--a.b", "-a//a", "-a\na", "a ( -", "a : =", "a : a", "a\n-a", "a||-a", "f(-a)", "x = <", "'😀';-a", "(...a)", "(b, b)", "-+this", "-+{}++", "--a[b]", "--this", "-a/**/", "[...a]", "[b, b]", "`a`;-a", "a += a", "new +1", "typeof", "x = <<", "x = >=", "x = >>", "y:{-a}", "{b, b}", "( a , )", "--(a,b)", "-new {}", "//a\n-a", "09.5;-a", "`${-a}`", "a ( a !", "a\n-a+b", "a||-a+b", "f(...a)", "f(b, b)", "if(-a);", "x = & )", "x = * ;", "x = + ;", "x = >>>", "x = | )", "x=a % b", "x=a & b", "x=a * b", "x=a / b", "x=a < b", "x=a > b", "x=a ^ b", "x=a | b", "(...(a))", "(...a.b)", "({} = b)", "-+a in b", "--a ** b", "-await 1", "-await a", "/*\n*/-a", "a:b:c:-a", "async -a", "await -1", "x = && )", "x = == )", "x = in ;", "x = || ;", "x=[,+a];", "x=a != b", "x=a << b", "x=a <= b", "x=a == b", "x=a >= b", "x=a >> b", "x=a=>+a;", "yield -1", "{-a\n++}", "'\\08';-a", "(...a[b])", "-await {}", "-delete 1", "[...b, b]", "[a=+a]=b;", "[async a]", "for( ( );", "for( ; );", "for( a );", "for( { );", "throw +a;", "var a=+a;", "with(+a);", "x=()=>+a;", "x=a !== b", "x=a === b", "x=a >>> b", "x={a:-a};", "x={a}=+a;", "(...a**=b)", "(a)=>{};-a", "[...a**=b]", "\u{2028}-a", "f(...b, b)", "for(;+a;);", "for(;;+a);", "p + q * r;", "while(-a);", "x = b %= b", "x = b &= b", "x = b *= b", "x = b -= b", "x = b /= b", "x = b ^= b", "x = b |= b", "x={...-a};", "'a\\\nb';-a", "( ( a ) , )", "( a ( ) , )", "({a=+a}=b);", "[a=b, 1]=b;", "`${/r/, b}`", "`${b in b}`", "`\n\r\n`;-a", "a:b:c:new a", "async\nb, b", "const a=+a;", "debugger;-a", "for( a ;;);", "for( { a );", "if(b in b);", "p != q < r;", "p < q in r;", "p << q + r;", "p == q < r;", "p >> q + r;", "var a=b, b;", "x = b <<= b", "x = b >>= b", "x = b.c = b", "x={[-a]:a};", "x={a:b, b};", "( a ** a , )", "( a += a , )", "[a=b, -b]=b;", "a ** ( a , )", "class A{};-a", "do;while(+a)", "do;while(-a)", "f(...b in b)", "for( a of );", "for(b, b;;);", "p !== q < r;", "p === q < r;", "p >>> q + r;", "var a=b, {};", "x = b = (-b)", "x = b >>>= 1", "x = b[c] = b", "x=(a=+a)=>b;", "x={...b, b};", "x={m(){-a}};", "-async (a)=>b", "[a=b, /r/]=b;", "[a=b, `t`]=b;", "[a=b, b++]=b;", "a + b % c + d", "async await a", "const a=b, b;", "f(p + q in r)", "for(a in +a);", "for(a of +a);", "if(a);else;-a", "throw b in b;", "var [a=+a]=b;", "var a=b, [b];", "var {a=+a}=b;", "with(b in b);", "x = b + yield", "x = b < b + e", "x={*m(){-a}};", "x={a:b, b=c};", "[...p + q + r]", "[a=b, c=>d]=b;", "[a=b, this]=b;", "\u{2028}'s', b", "\u{2028}/r/, b", "\u{2028}b && b", "for(1 in b;;);", "for(;;b in b);", "for(;b in b;);", "let a=+a,b=+a;", "new.target_;-a", "try{}catch{}-a", "var a=b, null;", "var{[+a]:a}=b;", "while(b in b);", "x = b << b + e", "x=()=>-b ** b;", "x=([a])=>{-a};", "x=({a=+a})=>b;", "x={...b in b};", "x={m(a=+a){}};", "({a=b in b}=b);", "[a=b, new b]=b;", "\u{2028}[b] = b", "\u{2028}b, null", "`a${-a}b${-a}c`", "a:b:c:async (a)", "const a=b in b;", "for( { a ( ( );", "var [a=b, b]=b;", "var a=b, yield;", "var {a=b, b}=b;", "x = b % class{}", "x = b % super.b", "x = b - await b", "x=(a=b, {})=>b;", "x={[b in b]:a};", "x={a:b, yield};", "x={a:p , q + r}", "x={m([a]){-a}};", "[a=p , q && r]=b", "a:b:c:class{}, b", "class A{m(){-a}}", "do;while(b in b)", "for( { } in a );", "for( { } of a );", "for(--a in b;;);", "for(;;){break}-a", "function f(){-a}", "try{}finally{-a}", "var [a=b, -b]=b;", "var [a=b, {}]=b;", "x = c=>d - yield", "x = instanceof ;", "x=(a=b, b.c)=>b;", "x=({a=b, b})=>b;", "x=a instanceof b", "x={*m(){new a}};", "x={a:p , q %= r}", "x={a:p , q &= r}", "x={a:p , q *= r}", "x={a:p , q -= r}", "x={a:p , q /= r}", "x={a:p , q ^= r}", "x={a:p , q |= r}", "x={get a(){-a}};", "x={get[+a](){}};", "x={m(a=b, b){}};", "({[p + q + r]:1})", "[a=b, class{}]=b;", "class A{[+a](){}}", "for(a in b in b);", "for(a of b in b);", "for(var x= a ;;);", "try{-a}catch(e){}", "try{}catch{}new a", "var [a=b in b]=b;", "var [a=b, [b]]=b;", "var {a=b in b}=b;", "x=()=>{} ? a : b;", "x=(a=b, b[c])=>b;", "x={a:p , q <<= r}", "x={a:p , q >>= r}", "x={m(a=b, {}){}};", "x={set a(b){-a}};", "\u{2028}b, class{}", "\u{2028}class{}, b", "\u{2028}super.b, b", "const{a:[b=+a]}=c;", "for(const a=+a;;);", "for(p , q in r;;);", "x = b instanceof b", "x=()=>{return +a};", "x=function*(){-a};", "x={*m(){yield a}};", "x={a:p , q >>>= r}", "x={async m(){-a}};", "x={async*m(){-a}};", "x={m(a=b in b){}};", "({a:[b],...c}=d);-a", "[a=p , q ? a : r]=b", "\u{2028}class{} + b", "for(let[a=+a]of b);", "for(var a of b){-a}", "for(var x= a , ;;);", "for(var{a=+a}in b);", "function*g(){b * b}", "var {a=b, yield}=b;", "x = async()=>{} - b", "x = b + async()=>{}", "x = b = async()=>{}", "x=async()=>await a;", "x=function f(){-a};", "x={*m(){yield* a}};", "x={*m(){yield, b}};", "class A{get m(){-a}}", "for(const a=b, b;;);", "function f(...a){-a}", "function*g(){{} / b}", "switch(+a){case +a:}", "switch(a){case 1:-a}", "x = b * function(){}", "x={*m(){b + yield}};", "x={*m(){yield + b}};", "[a=b, async()=>{}]=b;", "for(var x= a , a ;;);", "switch(a){default:-a}", "'use strict';-yield* a", "[a=b, function(){}]=b;", "a:b:c:function(){} + b", "for(const a=b in b;;);", "for(const a=b, b=c;;);", "for(var x= a in a ;;);", "x=()=>{return b in b};", "x={get:1,set,async};-a", "\u{2028}async()=>{} + b", "\u{2028}b, function(){}", "\u{2028}function(){}, b", "class A{static m(){-a}}", "for(var x=p + q + r;;);", "switch(a){case 1:new a}", "x = b = async()=>{} + e", "x=async function(){-a};", "x=function(){return};-a", "y:for(;;){continue y}-a", "\u{2028}function(){} + b", "x=()=>{'use strict';-a};", "x=async(a=await (a))=>b;", "switch(a){case 1:break}-a", "for(var x= a => ( a ) ;;);", "function*g(){yield `t`, b}", "function*g(){ ( yield , ) }", "function*g(){yield * yield}", "function*g(){yield + yield}", "for(var x=a,y=p + q in r;;);", "function f(){'use strict'}-a", "function f(){new.target(+a)}", "let a=p + q / r,b=p + q / r;", "switch(b in b){case b in b:}", "var x=p + q + r,y=p + q + r;", "async function f(a=await a){}", "for(const {a=()=>{-a}} in b);", "var x=p + q in r,y=p + q in r;", "const {a:{b=function(){-a}}}=c;", "if(a){-a}else if(b){-a}else{-a}", "switch(a){case 1:{-a}default:{}}"], &["!a", "+a", "-a", "~a", "-(a)", "-a()", "-a++", "-a+b", "-a.b", "-a=b", "...a", "-a=>b", "-a[b]", "-a`t`", "a**-a", "new a", "-a**=b", "-a?b:c", "-a\n++", "-f().b", "a+-a+b", "void a", "-a in b", "-f()[b]", "-f()`t`", "async a", "await a", "new a()", "new a++", "new a+b", "yield a", "new a`t`", "typeof a", "yield* a", "async (a)", "await (a)", "async a=>b", "for(!a;;);", "for(-a;;);", "async (a)++", "async (a)=>b", "with(b + 1);", "for(new a;;);", "function*g(){!a}", "function*g(){-a}", "async function g(){!a}", "async function g(){-a}"]),
        "C11" => (&["(", ")", ",", "1", "=", "[", "]", "a", "++", "+=", "--", "-a", ".b", "=>", "[]", "a)", "a;", "a]", "a}", "of", "{}", "'s'", "( (", "( )", "(-a", "(1}", "(a)", "(a;", "({}", "++1", "++a", "--a", "-[]", "-{}", "...", "/r/", "1++", "1.c", "1=b", "[ (", "[ ]", "[,]", "[1]", "[])", "[]}", "`t`", "a [", "a()", "a++", "a+b", "a,b", "a.b", "a/c", "a=b", "a\n", "let", "{};", "!a=b", "(-a)", "({a}", "-{a}", "/r/)", "1&=b", "1+=b", "[-a]", "[]=b", "[a,]", "`t`;", "a&=b", "a+=b", "a=>b", "a[b]", "a`t`", "f(a)", "let)", "null", "this", "true", "x**a", "{if}", "{}/c", "'s'.c", "( ) [", "()=>a", "(a)=b", "(a){}", "(a,b)", "({a,}", "({}=b", "-{a,}", "1**=b", "1in b", "[,]=b", "[1]=b", "[a b]", "[a]=b", "a().b", "a**=b", "a+b/c", "a.b=b", "a=>{}", "a=b/*", "a?b:c", "a\n++", "async", "await", "f((a)", "let()", "new a", "yield", "{1:b}", "{a:b}", "{}&=b", "!a,b=b", "(...1)", "(...a)", "(1)=>c", "(a)=>c", "({[a]}", "({a=b}", "({a}=b", "({get}", "({}=b)", "-{1:b}", "-{a:b}", "-{get}", "1>>>=b", "[-a]=b", "[...a;", "[...a]", "[]in b", "a()[b]", "a()`t`", "a=b//a", "a>>>=b", "a[b]=b", "async)", "async;", "a||a--", "eval=b", "f(a,b)", "f(a=b]", "new a)", "x&&1=b", "{}**=b", "{}?c:d", "( ... [", "(...[])", "(...{})", "([])=>c", "(a,)=>c", "(a,b)=b", "({...a}", "({})=>c", "-{...a}", "-{if:a}", "[(1)]=z", "[...a,]", "[`t`]=b", "[a()]=b", "[a++]=b", "[a+b]=b", "[a=b]=b", "[{a}]=b", "`${a=b}", "a=b/**/", "a\n-a--", "async a", "class{}", "f(...a)", "f(...a;", "for(;;a", "new a()", "super.a", "x={a=b}", "{a:(b)}", "{a:{b}}", "{}>>>=b", "()=>[]=b", "(...[,])", "(...[a])", "(...{a})", "(/r/)=>c", "([,])=>c", "([a])=>c", "(a.b)=>c", "(a=1)=>c", "(class{}", "({...a,}", "({a(){}}", "({async}", "({a})=>c", "-class{}", "-{'a':b}", "-{...a,}", "-{[a]:b}", "-{a(){}}", "-{async}", "-{await}", "-{yield}", "//a\na=b", "09.5;a=b", "[...a]=b", "[a+=b]=b", "[a=>b]=b", "[a`t`]=b", "[this]=b", "`${/r/=b", "`${a=b}`", "a\n/r/=b", "a`t`.b=b", "for(;;-a", "for(;;a)", "if(a--);", "if(y)a=b", "x&&a,b=b", "{*a(){}}", "{a:this}", "(...[-a])", "(...[a,])", "(...a)=>c", "(...null)", "(...{a,})", "([]=1)=>c", "(a[b])=>c", "({...a}=b", "({a=b}=b)", "({}=1)=>c", "-{*a(){}}", "-{true:a}", "/*\n*/a=b", "[...a,]=b", "[a?b:c]=b", "[new a]=b", "f(...a,b)", "for(;;a);", "for(a;;);", "var x=1=b", "var x=a=b", "'\\08';a=b", "(...[])=>c", "(...{[a]})", "(...{a:b})", "(...{})=>c", "([,]=1)=>c", "([[a]])=>c", "([a=b])=>c", "([a]=1)=>c", "([{a}])=>c", "({...a}=b)", "({a=b})=>c", "({a}=1)=>c", "({eval}=b)", "++ ( a , )", "[{...1}]=z", "async a=>b", "async()=>c", "async\na=b", "for(-a;;);", "for(1 of);", "for(;;-a);", "for(a of);", "if(y)let=b", "new.target", "throw (a);", "var x=a=b)", "with((a));", "x=a/b/a--;", "{i\\u0066}", "(...[,])=>c", "(...[a])=>c", "(...{a})=>c", "([...a])=>c", "({...a,}=b)", "({...a})=>c", "\u{2028}a=b", "a:b:c:let--", "async await", "async(a)=>c", "for(;(a););", "for(a,b;;);", "for(let;;);", "new a().b=b", "typeof(a--)", "var a,b = z", "var a.b = z", "var x=a,b=b", "while(a--);", "x=new((a));", "{ \\u0061 }", "{a:async()}", "'a\\\nb';a=b", "(...[-a])=>c", "(...[a,])=>c", "(...{a,})=>c", "([...a,])=>c", "([a=b]=1)=>c", "(class{})=>c", "({...a,})=>c", "({a:[b]})=>c", "({a:{b}})=>c", "({get a(){}}", "-{get a(){}}", "`${/r/.b=b}`", "`\n\r\n`;a=b", "const a=(a);", "debugger;a=b", "for(1 of b);", "for(a in b);", "for(a of b);", "for(let of);", "for(this;;);", "function(){}", "if(y)yield=b", "var [[]] = z", "var [{}] = z", "x=void(a--);", "(...[a=b])=>c", "(...await)=>c", "(...{a:b})=>c", "(...{a=b})=>c", "([...a]=1)=>c", "(class{}).a=b", "(function(){}", "({...[a]})=>c", "({set a(b){}}", "-function(){}", "-{set a(b){}}", "do;while((a))", "do;while(a--)", "for([] in b);", "for([] of b);", "for(let a;;);", "for(var a;;);", "for({} in b);", "for({} of b);", "{__proto__:a}", "(...[...a])=>c", "(...{...a})=>c", "([a.b=c]=1)=>c", "({a:(b)}=1)=>c", "({async(a)=1})", "-{async a(){}}", "async await=>c", "const a=a,b=b;", "for(var {};;);", "if(a);else;a=b", "var {a:[]} = z", "var {a:{}} = z", "x=delete((a));", "(...[...a,])=>c", "(...{[a]:b})=>c", "(...{a:b=c})=>c", "(...{await})=>c", "(...{yield})=>c", "(async a=>b)=>c", "(new.target)=>c", "({...(a)}=1)=>c", "async(await)=>c", "for(const a;;);", "for(let a,b;;);", "for(let a=b;;);", "for(var a,b;;);", "for(var a=b;;);", "function f(a){}", "function*g(){1}", "new.target_;a=b", "try{}catch(a){}", "try{}catch{}a=b", "x={m(a=(a)){}};", "[function(){}]=b", "\u{2028}[...1]=b", "async a=>b=await", "async(a,...d)=>c", "for(let a in b);", "for(let a of b);", "for(var a in b);", "for(var a of b);", "for({a=b} of b);", "function f([]){}", "function f({}){}", "let a=(a),b=(a);", "`a${a--}b${a--}c`", "`a${a=b}b${a=b}c`", "class A{m(){(a)}}", "for(;;){break}a=b", "for(const a=b;;);", "function f(a,b){}", "function f(a.b){}", "function*g(){a=b}", "try{}finally{a=b}", "x={*m(){(this)}};", "(function(){}).a=b", "a:b:c:for(a of b);", "async function(){}", "class A{[(a)](){}}", "for( ; a in a ; );", "function f(...a){}", "function*g(){yield", "x={*m(){(yield)}};", "x={*m(){++yield}};", "x={*m(){yield=b}};", "'use strict';++eval", "function*g(){a,b=b}", "try{}catch{}yield=b", "x=()=>{return (a)};", "x=()=>{return a--};", "x=function*(){a=b};", "x={async*m(){a=b}};", "x=function f(){a=b};", "x={*m(){[yield]=b}};", "class A{get m(){(a)}}", "for(const a=a,b=b;;);", "switch(a){case 1:++a}", "switch(a){case 1:a=b}", "class A extends B{}a=b", "switch(a){default:a=b}", "async function h(){a=b}", "function*g(){ yield a }", "function*g(){yield*(a)}", "x={get:1,set,async};a=b", "class A{static m(){(a)}}", "function*g(){new.target}", "x=async function(){a=b};", "x=function(){return};a=b", "y:for(;;){continue y}a=b", "switch(a){case 1:yield=b}", "x=()=>{'use strict';a=b};", "switch(a){case 1:break}a=b", "function*g(){ yield yield }", "function*g(){yield*yield=b}", "function f(){'use strict'}a=b", "async function h(){await a}a=b"], &["(let", "-let", "++eval", "eval++", "static", "eval=>c", "[eval]=b", "arguments=b", "(...eval)=>c", "({eval},...d)=>c", "(...arguments)=>c", "({arguments=1}=b)"]),
        "C12" => (&["(", ")", ";", "=", "[", "]", "a", "\n", "in", "of", "( )", "( [", "=>x", "[ ;", "[ [", "[ ]", "a (", "a ;", "a [", "a ]", "a a", "let", ",=>x", "a=>x", "( ) [", "( a )", "( a ]", "()=>x", "[ [ ]", "[ a ;", "[ a ]", "[]=>x", "a ( )", "a ( [", "a = a", "a [ a", "a,=>x", "if=>x", "let (", "let [", "let a", "var ;", "{}=>x", "(1)=>x", "(a)=>x", "...=>x", "[,]=>x", "`t`=>x", "a \n a", "a in a", "a+b=>x", "a,b=>x", "a.b=>x", "a:b=>x", "a\n=>x", "let a;", "var 1;", "var a;", "(,q)=>x", "([])=>x", "(p,)=>x", "({})=>x", "[ [ ] ]", "[ [ a ]", "[ ] = a", "[ a ] =", "[()=>b]", "a ( ) =", "a ( ) [", "a ( a )", "a ( a ]", "a [ a ]", "a[b]=>x", "const a", "enum=>x", "eval=>x", "let a,;", "null=>x", "this=>x", "var [ ;", "var [];", "var p,;", "var { ;", "var {};", "{*a}=>x", "{:a}=>x", "{a,}=>x", "{a:}=>x", "((a))=>x", "(...)=>x", "([,])=>x", "([a])=>x", "(`t`)=>x", "(a())=>x", "(a+b)=>x", "(a.b)=>x", "(a=1)=>x", "(p,a)=>x", "({,})=>x", "({a})=>x", "-(()=>b)", "[a]=b=>x", "[{a}]=>x", "async=>x", "await=>x", "a||()=>b", "class {}", "f(()=>b)", "let a,b;", "let a=1;", "let a=x;", "var [,];", "var [a];", "var a+b;", "var a.b;", "var a=x;", "var p,a;", "var {a};", "yield=>x", "{a}=b=>x", "( a ) = a", "(...a)=>x", "([[]])=>x", "([a,])=>x", "(a[b])=>x", "(this)=>x", "({*a})=>x", "({a,})=>x", "[...a]=>x", "a+(()=>b)", "a?()=>b:b", "a||(a)=>b", "class a{}", "let []=x;", "let {}=x;", "var [a,];", "var [a]=b", "var null;", "var { [ ;", "var {a,};", "x+=()=>b;", "x={m(){}}", "{let a=x}", "([a=1])=>x", "([a]=b)=>x", "([{a}])=>x", "({1:a})=>x", "({a:b})=>x", "({a=1})=>x", "({a}=b)=>x", "({get})=>x", "[...()=>b]", "[...a,]=>x", "[[,]=1]=>x", "`${()=>b}`", "async a=>x", "async()=>x", "a||{m(){}}", "const a=x;", "if(()=>b);", "let [,]=x;", "let {a}=x;", "var a=1=x;", "var a=x;/*", "var yield;", "var {[a]};", "var {a:b};", "x={*m(){}}", "x={m(,){}}", "x={m(a){}}", "{0x1:a}=>x", "{a:let}=>x", "{new:a}=>x", "'😀';var =x;", "([...a])=>x", "({...a})=>x", "({a:[]})=>x", "({eval})=>x", "({if:a})=>x", "[[{}]=1]=>x", "a ( ) [ a ]", "a [ a ] = a", "a in a in a", "a++;var =x;", "async(a)=>x", "const a = 1", "f(...()=>b)", "let [a,]=x;", "let {*a}=x;", "let {a,}=x;", "let {a:a}=b", "t`${()=>b}`", "var [[]]=x;", "var [{}]=x;", "var a=x;//a", "x=!(()=>b);", "x=a=>()=>b;", "x={m([]){}}", "x={m(a,){}}", "x={m({}){}}", "'😀';var a=x;", "(1,{a=1})=>x", "([,[]]=x)=>y", "([...a,])=>x", "({'a':b})=>x", "({...[]})=>x", "({...a,})=>x", "({0x1:a})=>x", "({1.5:a})=>x", "({[a]:b})=>x", "({a(){}})=>x", "({a:{b}})=>x", "({async})=>x", "({await})=>x", "({get a})=>x", "({yield})=>x", "//a\nvar =x;", "[a=()=>b]=b;", "`a`;var a=x;", "a++;var a=x;", "async(a,)=>x", "for(let ;;);", "for(let a );", "for(var ;;);", "for(var a );", "let [a=1]=x;", "let {a=1}=x;", "new f(()=>b)", "throw ()=>b;", "var a=x;/**/", "with(()=>b);", "x=(()=>b).a;", "x=/a/,()=>b;", "x=a/b/()=>b;", "x={m(a=1){}}", "([[]=1]=x)=>y", "([[{}]=1])=>x", "({true:a})=>x", "/*\n*/var =x;", "09.5;var a=x;", "[[...a]=1]=>x", "[{...a}=1]=>x", "a||async()=>b", "for(()=>b;;);", "for(;()=>b;);", "for(;;()=>b);", "for(let a;;);", "for(var a;;);", "function (){}", "if(p)var a=x;", "let [...a]=x;", "let a=b in c;", "let {...a}=x;", "typeof(()=>b)", "var a=b in c;", "var {p:[]}=x;", "var {p:{}}=x;", "while(()=>b);", "x=a**(()=>b);", "x=a=>{m(){}};", "x=new(()=>b);", "x={get m(){}}", "x={m(...a){}}", "x={set m(){}}", "'\\08';var =x;", "([...[]]=x)=>y", "(class{m(){}})", "(function(){})", "({\\u0061})=>x", "({async a})=>x", "a:b:c:var a=x;", "async await=>x", "async(...a)=>x", "class A{m(){}}", "for(let a,;;);", "for(var a,;;);", "function f(){}", "function*f(){}", "let [...a,]=x;", "let a=(b,c)=x;", "let {a:b=1}=x;", "let {await}=x;", "let {yield}=x;", "try{}catch(){}", "x=a/b/{m(){}};", "x=void(()=>b);", "x={set m(a){}}", "{a=class{}}=>x", "'\\08';var a=x;", "([a=()=>{}])=>x", "([{...a}=1])=>x", "({a=b in c})=>x", "({i\\u0066})=>x", "async(...a,)=>x", "async(await)=>x", "do;while(()=>b)", "for(const a;;);", "for(let a of );", "for(let a,b;;);", "for(let a=x;;);", "for(var a,b;;);", "for(var a=x;;);", "try{}catch(a){}", "x={*m(yield){}}", "x={async m(){}}", "{a:{a:this}}=>x", "([[a.b]=1]=x)=>y", "({a=class{}})=>x", "\u{2028}var a=x;", "for(a in ()=>b);", "for(a of ()=>b);", "for(let a in x);", "for(let a of x);", "for(var a in x);", "for(var a of x);", "x=delete(()=>b);", "'a\\\nb';var a=x;", "([{...a.b}=1])=>x", "({[a in b]:c})=>x", "`\n\r\n`;var a=x;", "async\nx={m(){}};", "debugger;var a=x;", "for(const a=x;;);", "let [a=b in c]=x;", "let {a=b in c}=x;", "x=async(a,()=>b);", "x={m(a=b in c){}}", "()=>{'use strict'}", "async(a=b in c)=>x", "class A{set m(){}}", "for(let a = a , );", "for(var a = a , );", "([[a,...a,b]=1])=>x", "(a)=>{'use strict'}", "for(let a of null);", "for(let a of this);", "if(a);else;var a=x;", "x={*m([a=yield]){}}", "([])=>{'use strict'}", "a:b:c:function f(){}", "async function f(){}", "class A{[()=>b](){}}", "for(let a of {a=1});", "for(let a=b in c;;);", "for(var a=b in c;;);", "new.target_;var a=x;", "try{}catch{}var a=x;", "x=()=>{let a=x}?a:b;", "(let)=>{'use strict'}", "`a${()=>b}b${()=>b}c`", "async\nfunction f(){}", "try{}finally{x=()=>b}", "x=()=>{return ()=>b};", "x={*m({a=class{}}){}}", "(eval)=>{'use strict'}", "a:b:c:for(var a in x);", "for(;;){break}var a=x;", "for(let a of [...a,]);", "for(let a of {...a,});", "for(var p,a=b in c;;);", "var [ a = ( a , ) ]=b;", "x=async()=>(await)=>b;", "x={async*[()=>b](){}};", "'use strict';var let=x;", "(async function*(a,){})", "(yield)=>{'use strict'}", "for(let a ; ; a in a );", "for(let a ; a in a ; );", "for(let a of a=b in c);", "class A extends(()=>b){}", "class A{constructor(){}}", "switch(p){case 1:let =x}", "var [ ] = [ ... a , ]=b;", "var { } = { ... 's' }=b;", "var { } = { ... a , }=b;", "function*g(){yield ()=>b}", "function*g(){yield*()=>b}", "switch(p){case 1:let a=x}", "x=function f(){var a=x;};", "switch(a){case 1:var a=x;}", "x={async m([a=await b]){}}", "(arguments)=>{'use strict'}", "class A{static async*m(){}}", "switch(a){default:var a=x;}", "x={*m(){var [a=yield]=x;}};", "class A{m(){super.a(()=>b)}}", "x=async()=>([a=await b])=>b;", "x=function*(){x=(yield)=>b};", "x={get:1,set,async};var a=x;", "({\"a\":b,2:c,[d]:e,...f})=>x", "function*g(){yield a}var a=x;", "x=function(){return};var a=x;", "y:for(;;){continue y}var a=x;", "function*g(){yield (yield)=>b}", "function*g(){yield*(yield)=>b}", "function f(){new.target(()=>b)}", "switch(a){case 1:break}var a=x;", "x=async()=>{var [a=await b]=x;};"], &["var let;", "static=>x", "var eval;", "arguments=>x", "[[eval]=1]=>x", "export let a;", "export const a", "var arguments;", "export var a=x;", "({arguments})=>x", "export const a=x;", "export let a=b in c;", "export var [a=yield]=x;", "export const [a=yield]=x;", "export var [a=await b]=x;", "export const [a=await b]=x;"]),
        "C13" => (&["", "(", ")", ",", "1", ":", ";", "[", "]", "a", "{", "}", "\n", "a}", "b;", "do", "in", "of", "x:", "{}", "'s'", "( )", "( ;", "( a", "( {", "(a)", "[ ]", "[ {", "a (", "a ,", "a 1", "a ;", "a [", "a a", "a {", "a/*", "a:;", "for", "let", "new", "var", "{;}", "{a}", "a {}", "a//a", "a\na", "case", "else", "if (", "with", "x:{}", "( a {", "( { (", "( { [", "( { a", "( { }", "[ ] {", "[ a ]", "[ a {", "[ { ]", "`a`;a", "a ( (", "a ( )", "a (a)", "a , a", "a [ a", "a++;a", "a/**/", "a:let", "async", "catch", "class", "if(a)", "let [", "let a", "let {", "new ;", "new a", "throw", "try [", "var a", "while", "{for}", "{let}", "//a\na", "09.5;a", "a in a", "a:else", "if(a);", "let b;", "return", "switch", "var d;", "with (", "'s' , a", "( { a (", "( { a )", "( { } )", "()=>{;}", "/*\n*/a", "0.5.a;a", ";;x=>{}", "[ ] = a", "[ a ] =", "[ { } =", "a ( ) [", "a ( a {", "a [ a ]", "a [ a {", "a:async", "a:let a", "const a", "default", "finally", "for(;;)", "let [ =", "let [ ]", "let { :", "new a ;", "throw a", "{a:let}", "{async}", "{while}", "'\\08';a", "/a}/.b;a", ";let\n{}", "a:if(a);", "a:return", "async\na", "class\na", "debugger", "for(;;);", "switch (", "this : a", "throw \n", "throw\na", "while(c)", "with(a);", "x={}/1;a", "( { [ a {", "( { a ( (", "( { a ( )", "( { a } )", "(a)=>{};a", "[ a ] = a", "[ { a } =", "\u{2028}a", "`${{}}`;a", "a ( ( a )", "a:()=>{;}", "a:var a ;", "class A{}", "class { }", "for ( a )", "for(a;;);", "let [ a =", "let [ a [", "let a = a", "let { a :", "let { a ;", "new ( a )", "new a ( )", "throw a ;", "while(a);", "x=1/2/3;a", "'a\\\nb';a", "`\n\r\n`;a", "a:for(;;);", "a:function", "a:with(a);", "const c=1;", "debugger ;", "do ; if(b)", "eval = 1 ;", "function (", "x={m(){;}}", "{function}", "( { a ( a (", "({a=1}=b);a", ";let\nx=>{}", "[ a ( ) ] =", "[ { a = a }", "a ( ) [ a ]", "a = { } = a", "a [ a ] = a", "a:class { }", "a:throw a ;", "a\nthis : a", "async ( ) ;", "for( [ , );", "for( a , b;", "for( var b;", "for(a,a;;);", "if a b ; ; ", "if(a)if(a);", "let [ ] = a", "let { } = a", "switch(a){}", "var yield ;", "yield * a ;", "( function :", "()=>{return}", "a:debugger ;", "async()=>{;}", "do ; while (", "do;while(a);", "do;while(a)a", "for(a in b);", "for(a of b);", "if(a);else b", "if(b) ; do ;", "try{}catch{}", "x=(a,b)=>c;a", "x={*m(){;}};", "'s' , a ; 's'", "( { a : a } )", "a:yield * a ;", "for ( let a (", "for( ; ; a );", "for( ; a ; );", "let [ [ ] = a", "let [ a ] = b", "let { a : a :", "let { a } = b", "new.target_;a", "x=([a])=>{a};", "x=(a=1)=>{a};", "()=>{a:return}", "()=>{return a}", "a \n b \n ++ c", "do ;\nwhile(a)", "for ( a ( ) in", "function f(){}", "function*h(){}", "let a . b : c ", "try{}finally{}", "x = /a[/]b/g ;", "x=a?()=>{;}:b;", "x=function(){}", "x={get m(){;}}", "x={m([a]){a}};", "a:let [ a ] = b", "a:try{}catch{;}", "class A{m(){;}}", "for( ; ; [ ] );", "for( [ , ] = );", "for( let ; ; );", "for( let a , );", "for( var [ , );", "for( var a , b;", "for( var a = b;", "for(;;){break}a", "function f(){;}", "let a = 1 , b ;", "x=async a=>{a};", "x=async(a)=>b;a", "{ throw class }", "for( [ ] in a );", "for( [ ] of a );", "for(let a of b);", "for(var a in b);", "function ( ) { }", "throw class { } ", "throw { a , b } ", "try { } const a ", "try{;}catch(a){}", "var a = b , c ; ", "x:function f(){}", "x=function*(){;}", "x={set a(b){;}};", "()=>{var yield ;}", "for( ; ; [ , ] );", "for( let a ; ; );", "for( let a = a );", "for( var a ; ; );", "for( {} in a ) b;", "for( {} of a ) b;", "x: function*h(){}", "x={async m(){;}};", "x={async*m(){a}};", "({a:[b],...c}=d);a", "a:function ( ) { }", "a:switch ( a ) { }", "for( let a in a );", "for( var a of a );", "function f(a=1){a}", "let [a=()=>{a}]=b;", "switch(a){case 1:}", "throw class A { } ", "throw { 'a' : 1 } ", "()=>{return;return}", "`a${b}${()=>{;}}c`;", "class A{get m(){;}}", "for( const a ; ; );", "for( let a = a , );", "for( var a = a , b;", "function f(...a){a}", "if(a)function f(){}", "switch(a){case b:;}", "switch(a){default:}", "throw new a ( b ) ;", "try{}catch{}try { }", "x=a||function(){a};", "( ( ) => { } ) ( ) ;", "()=>{'use strict' ;}", "()=>{return\nreturn}", "async function g(){}", "class A extends B{}a", "for ( a . b in c ) ;", "for( const a in a );", "if(a)function f(){;}", "if(b) function*h(){}", "switch(a){ } break }", "/a}/.b;x = /a[/]b/g ;", "delete function(){a};", "if(a)function ( ) { }", "x=[...function(){a}];", "x={get:1,set,async};a", "async\nfunction f(){};", "class A{static m(){;}}", "function*g(){yield a};", "function*g(){yield a}a", "x=a=>{'use strict' ;};", "x=async function(){a};", "x={*m(){var yield ;}};", "x={*m(){yield * a ;}};", "x={[function(){a}]:a};", "y:for(;;){continue y}a", "'use strict';let\nlet\n", "a:async function f(){;}", "for ( let a = 1 ; ; ) ;", "for( var a , a ; ; ) b;", "for( var a = a ; ; ) b;", "for ( [ a , b ] of c ) ;", "switch(a){case 1:break}a", "switch(a){case b:if(a);}", "var {a=function(){a}}=b;", "a \n b \n ++ c ( a ) : b ", "function f({a=()=>{a}}){}", "switch(a){case 1:case 1:}", "'use strict' ; eval = 1 ; ", "x=(a=1)=>{'use strict' ;};", "function f(){return()=>{a}}", "switch(a){ case a : break }", "switch(a){case b:default :}", "switch(a){default:default:}", "async function h(){await a}a", "class A{[function(){;}](){}}", "const [[a=function(){a}]]=c;", "for ( { a , b : c } of d ) ;", "switch(a){ } { a : break a }", "const {a:{b=function(){a}}}=c;", "for ( let { a , b } of c ) d ;", "x={*m(){throw new a ( b ) ;}};", "function eval ( arguments ) { }", "throw function f ( ) { } [ a ] "], &["=", "a = a", "var\na", "a ( ) =", "import a", "with a b", "a = const", "import a;a", "var eval ;", "arguments ++ ;", "( eval ) => 1 ;", "a:function f(){;}", "( function f(){} )"]),
        "C14" => (&[";", "a", "{", "}", "a;", "x:", ";/*", "a a", "a {", "x:;", "{ {", "{ }", "{;}", "()=>", ";//a", "a\n;", "'😀';;", ";/**/", "`a`;;", "a++;;", "a\na;", "break", "x:{;}", "{ a }", "()=> {", "()=> }", "//a\n;", "09.5;;", "return", "/*\n*/;", "0.5.a;;", "[break]", "for(;;)", "x:break", "'\\08';;", "()=> { }", "/a}/.b;;", "async\n;", "break x:", "break\na", "continue", "for(;;);", "if(a){;}", "new a\n;", "while(a)", "x:return", "x=break;", "x={}/1;;", "(a)=>{};;", "[[break]]", "\u{2028};", "`${{}}`;;", "async\na;", "throw a;;", "while(a);", "with(a);;", "x=1/2/3;;", "x=a=>{;};", "x={break}", "'a\\\nb';;", "[()=>{;}];", "`\n\r\n`;;", "debugger;;", "switch(b){", "var let_;;", "x:break x;", "x:for(;;);", "x:if(a){;}", "({a=1}=b);;", "class A{};;", "continue\na", "x={[break]}", "x={m(){;}};", "do;while(a);", "for(;;)break", "for(a of b);", "if(a);else;;", "switch(b){ {", "switch(b){ }", "x:[()=>{;}];", "x:with(a){;}", "x:{break x;}", "x=(a,b)=>c;;", "x={*m(){;}};", "(()=>{;})(a);", "()=> ()=> { }", "[a,b]=[b,a];;", "a\n[()=>{;}];", "new.target_;;", "try{}catch{};", "x=([a])=>{;};", "x=(a=1)=>{;};", "x={()=>break}", "for(a in b){;}", "function f() ;", "x=a=>{return};", "x=a?()=>{;}:b;", "x=async(a,b);;", "x={m([a]){;}};", "class A{m(){;}}", "for(;;)continue", "function f(){;}", "function*f(){;}", "try{;}finally{}", "x=a=>{return;};", "x=async a=>{;};", "x=async()=>{;};", "x=async(a)=>b;;", "x={get m(){;}};", "a,function(){;};", "class A{[break]}", "for(;;)break{a;}", "for(let a in b);", "try{}catch(a){;}", "x=a=>{x:return};", "x=class{m(){;}};", "x=function(){;};", "x={set m(a){;}};", "{breakfor(;;)a;}", "[x=()=>{return};]", "`${()=>{return}}`", "f(function(){;});", "for(;;){continue}", "x:class A{m(){;}}", "x:function f(){;}", "x:function*f(){;}", "x:try{;}finally{}", "x=a=>{return a;};", "x=function*(){;};", "x={async m(){;}};", "x={async*m(){;}};", "({a:[b],...c}=d);;", "`${{a:{b(){;}}}}`;", "a\n(a=()=>{;})=>b;", "for(;;)continue x;", "for(var a of b){;}", "function f(a=1){;}", "get;set;async;of;;", "let [a=()=>{;}]=b;", "switch(b){ case c:", "x=function f(){;};", "x={[()=>{return}]}", "`${function(){;}}`;", "`a${b}${()=>{;}}c`;", "class A{get m(){;}}", "function f(...a){;}", "new(class{m(){;}});", "switch(a){case b:;}", "x:{{if(a)break x;}}", "x=a||function(){;};", "x[function(){;}]=a;", "class A extends B{};", "switch(a){default:;}", "try{}catch{}for(;;);", "x:for(;;)continue x;", "{breakif(()=>{a;});}", "async function f(){;}", "delete function(){;};", "for(()=>{return};;)a;", "for(;()=>{return};)a;", "for(;;()=>{return})a;", "x:switch(a){case b:;}", "x=[...function(){;}];", "x={get:1,set,async};;", "a\n`${function(){;}}`;", "async\nfunction f(){;}", "class A{static m(){;}}", "for(;;)function f(){;}", "function f(a,b,[c]){;}", "function(){;}\n()=>{;}", "function*g(){yield a};", "x:throw function(){;};", "x=async function(){;};", "x={[function(){;}]:1};", "x={function(){return}}", "'use strict';with(a){;}", "\u{2028}if(a){a;}break;", "for(;;)break[()=>{a;}];", "for(;function(){;};());", "switch(a){case b:break}", "x:async function f(){;}", "x=()=>{'use strict';;};", "{breakfunction*f(){a;}}", "for(var x in(a in b)){};", "var {a=function(){;}}=b;", "class A{constructor(){;}}", "function f({a=()=>{;}}){}", "class A extends x=break;{}", "function f(){ return { } }", "new a\n`${function(){;}}`;", "x:var {a=function(){;}}=b;", "x={x={function(){return}}}", "for(function(){return};;)a;", "for(let a=function(){;};;);", "function f(){'use strict'};", "x={*m(){x=function(){;};}};", "async function h(){await a};", "class A{[function(){;}](){}}", "const [[a=function(){;}]]=c;", "do break;if(a){a;} while(a);", "for(const {a=()=>{;}} in b);", "if(a)function f(){;} else b;", "if(a)function*f(){;} else b;", "switch(b){ case c: case c: }", "[class A{function(){return}}]", "switch(a){ case b: default: }", "const {a:{b=function(){;}}}=c;", "switch(a){ default: default: }"], &["class A{m(){", "class A{m(){ }", "function f(eval,eval){};"]),
        "C15" => (&["(", "+", ";", "=", "a", "{", "}", "\n", "a;", "'a'", "( ;", "( a", "( {", "+ b", "; =", "; a", "a (", "a a", "a {", "b +", "{ ;", "{ }", "a;/*", "eval", "let;", "m(){", "( a ;", "( { (", "( { ;", "( { a", "( { }", "+ + b", "+ { b", "+ { }", "a ( ;", "a;//a", "a\na;", "b + b", "class", "enum;", "x = ,", "x=01;", "yield", "{ ; }", "{ a }", "`a`;a;", "a++;a;", "a;/**/", "await;", "let.a;", "let:a;", "var a;", "y:{a;}", "'\\01';", "'a' + b", "( { a (", "( { a ;", "( { } =", "+ { b }", "--eval;", "//a\na;", "09.5;a;", "[eval];", "a ( a ;", "class A", "eval();", "eval=1;", "f(let);", "let[0];", "let\na;", "with(a)", "yield=1", "/*\n*/a;", "0.5.a;a;", "async();", "eval+=1;", "with(a)b", "x=a=>{};", "( { a ( ;", "( { a } =", "(eval)=1;", "/a}/.b;a;", "[eval]=a;", "async\na;", "b + b + b", "class A {", "class A }", "if(a){a;}", "new a\na;", "with(a) ;", "x = { } ,", "x.eval=1;", "x={}/1;a;", "({let}=a);", "\u{2028}a;", "`${{}}`;a;", "a:b:c:let;", "a\n[eval];", "new yield;", "throw a;a;", "var yield;", "x=(a)=>{};", "x=eval=>a;", "x={a(){}};", "x={yield};", "'a\\\nb';a;", "( { a ( a ;", "( { a = a }", "({eval}=a);", "A = class {", "`\n\r\n`;a;", "a = { } = a", "a:b:c:enum;", "class A { ;", "class A { A", "class A { {", "class A{}a;", "debugger;a;", "delete a.b;", "for(;;){a;}", "var[let]=a;", "with(a) + b", "x=static+1;", "x={eval:1};", "x={m(a){}};", "(class{});a;", "({a=1}=b);a;", "`${static}`;", "a:b:c:var a;", "a:b:c:yield;", "a\n[eval]=a;", "while(a){a;}", "x=(p,a)=>{};", "x=async=>{};", "x={*m(a){}};", "x={get(){}};", "'a' + b ; 'a'", "a:b:c:let[0];", "class A { ; }", "const eval=1;", "do;while(a)a;", "for(let=1;;);", "if(a);else;a;", "typeof yield;", "var [eval]=a;", "var {eval}=a;", "x = ( { } , )", "x = { } , { }", "x=\\u0065val;", "x={m(p,a){}};", "({...eval}=a);", "[a,...eval]=b;", "a:b:c:async();", "class a{m(){}}", "for(eval=1;;);", "function a(){}", "function*a(){}", "new.target_;a;", "try{}catch{}a;", "x=([a])=>{a;};", "x=(eval=1)=>a;", "x=({eval})=>a;", "x=async a=>{};", "x=yi\\u0065ld;", "x={[yield]:1};", "x={async(){}};", "x={get a(){}};", "A = class A { }", "a:b:c:with(a){}", "a?class{}:yield", "a\n`${static}`;", "class A{}yield]", "for(a of b)c;a;", "for(eval in a);", "var {a:eval}=b;", "var {eval=1}=a;", "x=(...eval)=>a;", "x=async(a)=>{};", "x={get if(){}};", "x={m([a]){a;}};", "x={m(s=1,a){}};", "x={m({q},a){}};", "x={set m(a){}};", "[[arguments]]=a;", "f(class{},yield)", "for(;;){break}a;", "for(var eval;;);", "for(yield in a);", "try{a;}finally{}", "var [...eval]=b;", "x:function g(){}", "x=(a,static)=>b;", "x=({t=1},a)=>{};", "x=function(a){};", "x={*m(yield){}};", "[class{},eval=1;]", "\"use strict\";a;", "a:b:c:if(yield)a;", "a\n[a,...eval]=b;", "for([eval] of a);", "function f( { a ,", "if(class{});yield", "implements\n++\na", "new a\n({let}=a);", "try{a;}catch(e){}", "x = ( ( { } ) , )", "x = ( { } ( ) , )", "x=function a(){};", "x=function*a(){};", "x={*m(){await;}};", "x={*m(){yield;}};", "x={async m(a){}};", "x={async*m(a){}};", "x={m(...a){'a'}};", "'use strict'&&a;a;", "'use strict'**a;a;", "-(class{})\neval=1", "a:b:c:let private;", "a||class{}\neval=1", "f(class{},{yield})", "try{}catch{}yield;", "x = ( ) => ( { } )", "x = { eval = { } }", "x=async await=>{};", "x={let:1,yield:2};", "'use strict';yield;", "'use strict'in a;a;", "'use\\x20strict';a;", "a:b:c:throw static;", "for(var a of b){a;}", "for(var eval in a);", "if(a)function g(){}", "let [a=()=>{a;}]=b;", "new a\n`${static}`;", "var a=class{},yield", "x=({...yield})=>{};", "x=async(await)=>{};", "x={*m(){yield();}};", "x={*m(){yield=1;}};", "`a${b}${()=>{a;}}c`;", "a:b:c:class{}+static", "a:b:c:for(eval=1;;);", "async function a(){}", "class A{get m(){a;}}", "do yield\nwhile(a);a", "for(;;)break static;", "new(class{m(){a;}});", "switch(a){case b:a;}", "x=a=>{'use strict'};", "x=async()=>{await;};", "x={m({...yield}){}};", "'\\u0075se strict';a;", "'use strict' {await;}", "async\nfunction f(){}", "class A extends B{}a;", "f(...class{})\neval=1", "function f({await}){}", "function f({yield}){}", "switch(a){default:a;}", "x = ( ( ) => eval , )", "x=!(class{});\neval=1", "x=[,class{}];\neval=1", "x=async(...a)=>{'a'};", "x={m(yi\\u0065ld){}};", "for({arguments} in a);", "x = ( 'use strict' , )", "x=/a/,class{};\neval=1", "x=let=>{'use strict'};", "x={get:1,set,async};a;", "a:b:c:function*eval(){}", "class A{static m(){a;}}", "for(;;class{});\neval=1", "for(;class{};);\neval=1", "function*g(){yield a}a;", "x=([])=>{'use strict'};", "x=async function a(){};", "x=async(...[eval])=>{};", "x=eval=>{'use strict'};", "x=function(){return};a;", "x={*m(){yield\n/a/g;}};", "y:for(;;){continue y}a;", "`${{a:class{},}`\neval=1", "a:b:c:try{}catch(eval){}", "for(let arguments of a);", "function(){a;}\n()=>{a;}", "switch(a){case b:yield;}", "x=async yi\\u0065ld=>{};", "x=void(class{});\neval=1", "x=yield=>{'use strict'};", "x={*m(){x=(yield)=>a;}};", "x={get yi\\u0065ld(){}};", "class A{constructor(a){}}", "for(;;(class{}));\neval=1", "switch(a){case 1:break}a;", "switch(a){case b:--eval;}", "x=async(...[eval],p)=>{};", "class A extends B{}eval++;", "x={*m(){x=(a=yield)=>b;}};", "x={a:class{},?a:b;\neval=1", "'use strict'instanceof a;a;", "class A{[class{}](){}}yield", "function f({yi\\u0065ld}){}", "var{[class{}]:a}=b;\neval=1", "x=a=>{return 'use strict'};", "x={...{a:class{},};\neval=1", "({a={a:class{},}=b);\neval=1", "for(let a=function(){a;};;);", "function f(){return()=>{a;}}", "x=arguments=>{'use strict'};", "async function h(){await a}a;", "const [[a=function(){a;}]]=c;", "for(const {a=()=>{a;}} in b);", "x=class extends B{m(){}};yield", "{*g(){'use strict'}},a\neval=1", "a:b:c:switch(a){case b:--eval;}", "const {a:{b=function(){a;}}}=c;", "const{a:[b=class{}]}=c;\neval=1", "if(a){a;}else if(b){a;}else{a;}", "let a=class{},b=class{};\neval=1", "switch(a){case 1:{a;}default:{}}", "x=class{}\n(a,class{})\n[eval]=1", "x=()=>{'use strict'}?a:b;\neval=1"], &[")", "++", "=>", "( )", "let", "++ ++", "let {", "( ) =>", "++ { }", "eval =", "static", "x=let;", "( { } )", "eval =>", "eval++;", "let { =", "let { }", "let eval", "public.a;", "with(a)b;", "( ) => { }", "( { } ) ++", "( { } ) =>", "package++;", "private();", "implements;", "let { let (", "let { let =", "( ) => yield", "arguments=1;", "eval ( { } )", "interface=1;", "x=l\\u0065t;", "x=protected;", "let arguments", "for(arguments of a);", "export default class{}\na;", "export default class{}\nlet\na;"]),
        "C16" => (&["(", ")", "*", ",", "1", ";", "=", "a", "{", "}", "()", "=>", "\n", "{}", "( (", "( ;", "( a", "( {", "...", "1=>", "a (", "a *", "a ,", "a ;", "a a", "a {", "a=>", "!1=>", "()/*", "()=>", "(a,)", "[()]", "a \n", "a {}", "a=>a", "x={}", "( a )", "()//a", "()=>a", "(1)=>", "(a)=>", "(b,b)", "-(())", "[1=>]", "[a]=>", "a ( (", "a * a", "a , a", "a.b=>", "a=>{}", "a[()]", "a\n()", "async", "await", "a||()", "let=>", "x={(}", "x={n}", "yield", "{ ; }", "{ a }", "!()=>a", "'😀';()", "( {} )", "( {} =", "(...a)", "(a)=>b", "-yield", "[a=>a]", "`a`;()", "a \n a", "a+(())", "a++;()", "a?():b", "a?b:()", "a\n=>b", "a||a=>", "f(1=>)", "f(b,b)", "x+=();", "x={*n}", "x={if}", "x={n(}", "y:{()}", "( ... {", "((a))=>", "([a])=>", "(a.b)=>", "({a})=>", "++await", "//a\n()", "[()=>a]", "`${()}`", "a ( ) =", "a.yield", "a=>({})", "a=>{}.a", "a\n(a,)", "async a", "async()", "async=1", "a||(a,)", "eval=>a", "if(());", "new a=>", "this=>a", "x={[a]}", "x={get}", "x={n()}", "x={n{}}", "x={set}", "yield++", "yield+a", "yield-a", "yield.a", "yield/a", "yield:a", "( {} , )", "()=>{}()", "([a])=>a", "(a())=>b", "(a+b)=>c", "(a=1)=>a", "(this)=>", "({a})=>a", "/*\n*/()", "[a=>a,b]", "`${a=>}`", "a:b:c:()", "a=>a?b:c", "a=>yield", "async\na", "f(()=>a)", "function", "if(1=>);", "new ()=>", "x=[,()];", "x={n(1)}", "x={n(a)}", "x={n({}}", "yield**a", "yield[a]", "yield`t`", "'\\08';()", "'😀';yield", "( ... { (", "( { a } =", "()=>{}||a", "(...a)=>a", "/a}/.b;()", "[...a=>b]", "[yield]=a", "`${a=>a}`", "a.yield=1", "a=>a in b", "a\n(...a)", "class A{}", "function*", "if(a=>a);", "let yield", "new a\n()", "throw ();", "var a=();", "var async", "var yield", "with(());", "x+=yield;", "x=()?a:b;", "x=class{}", "x={1(){}}", "x={async}", "x={await}", "x={get n}", "x={n(){}}", "x={set n}", "x={yield}", "y:{yield}", "yield/**/", "yield/a/g", "{yield,a}", "()=>{}?a:b", "({a=1})=>a", "09.5;yield", "a , {} = a", "async a=>a", "async()=>a", "async(1)=>", "a||yield*a", "a||yield=1", "class A{(}", "for(();;);", "for(;(););", "for(;;());", "function (", "function {", "while(());", "with(a);()", "x={*n(){}}", "x={...1=>}", "x={get n(}", "x={n([a])}", "x={n(a){}}", "x={n({a})}", "x={y:a=>a}", "yield[a]=b", "!async()=>a", "( ... { a (", "(function )", "({a=1})\n=>", "({yield}=a)", "0.5.a;yield", "[...a\n=>b]", "a ( ... a ,", "a:b:c:async", "a=>{return}", "async await", "async(1)=>a", "aw\\u0061it", "class A{n(}", "for(1=>;;);", "for(;;){()}", "let yield,a", "let yield;a", "super.yield", "throw yield", "var yield,a", "var yield;a", "var yield=a", "x:function*", "x=[,yield];", "x=function ", "x=function*", "x={'s'(){}}", "x={...a=>a}", "x={[a](){}}", "x={async n}", "x={n(a,){}}", "yi\\u0065ld", "yield:yield", "{let yield}", "{new yield}", "{var yield}", "'\\08';yield", "( a => a , )", "/a}/.b;yield", "[a=yield]=b;", "a:b:c:-yield", "async({a=1})", "a||async().a", "delete yield", "do;while(())", "for(a=>a;;);", "function [a]", "function(){}", "function*=>a", "return yield", "throw yield;", "typeof yield", "while(a){()}", "with(yield);", "x=/a/,yield;", "x={async\nn}", "x={get n({}}", "x={n([a]){}}", "x={n(a=1){}}", "x={n({a:b})}", "x={n({a}){}}", "( { ... a } =", "[...yield\na]", "\u{2028}yield", "async()=>{}()", "async(...a)=>", "async\nthis=>", "do;while(a)()", "f(...yield a)", "for(()=>a;;);", "for(;;yield);", "for(;yield;);", "for(a of ());", "for(yield;;);", "var {await}=a", "var {yield}=a", "while(yield);", "x={*n(yield)}", "x={...a=>a,b}", "x={get 1(){}}", "x={get n(){}}", "x={n(...a){}}", "x={n(this){}}", "x={set a(){}}", "'a\\\nb';yield", "([b,y=(b)])=>d", "(function(){})", "`\n\r\n`;yield", "async await=>a", "async()=>await", "async(...a)=>b", "class A{1(){}}", "class A{get n}", "class A{n(){}}", "const a=yield;", "debugger;yield", "for(;;-yield);", "for(a=>a,b;;);", "for(x of 1=>);", "function q(){}", "function*q(){}", "try{}catch{}()", "x=void(yield);", "x={get if(){}}", "x={n({a:b}){}}", "x={n({a=1}){}}", "x={set n(a){}}", "!function(){}()", "( { ... a } , )", "(class await{})", "(function*(){})", "a:b:c:let yield", "a:b:c:var yield", "async(...a,b)=>", "async(await)=>a", "do;while(yield)", "for(a in b){()}", "for(x of a=>a);", "x:function (){}", "x={*n(){await}}", "x={*n(){yield}}", "x={*n(a=yield)}", "x={*n(yield){}}", "x={async n(){}}", "x={async*n(){}}", "x={get 's'(){}}", "([[b],await])=>d", "([{b},await])=>d", "(function q(){})", "a:b:c:if(yield)a", "async a=>await a", "class A{[a](){}}", "class A{static(}", "for(yield in a);", "if(a);else;yield", "var [a=yield]=b;", "x:function n(){}", "x:function*n(){}", "x={async\nn(){}}", "a:b:c:throw yield", "for(a=>a in b;;);", "for(let yield;;);", "for(var yield;;);", "if(a){{a}}\nyield", "new a\n`${yield}`", "new.target_;yield", "try{}catch(e){()}", "try{}catch{}yield", "var [a=a\n=>b]=b;", "var {a=await b}=c", "var{[yield]:a}=b;", "x={*m(){yield a}}", "x={*n(a=yield){}}", "'use strict';yield", "( async a => a , )", "({p:[b,await]})=>d", "a:b:c:return yield", "async function(){}", "await instanceof a", "for(;;yield in a);", "for(;yield in a;);", "if(a)function (){}", "x={*m(){yield*a}};", "x={*m(){yield+a}};", "x={*m(){yield/a}};", "a:b:c:class await{}", "a:b:c:for(yield;;);", "class A extends B{}", "class A{static(){}}", "do a;while(yield);a", "for(;;){break}yield", "for(let await=a;;);", "for(var x=yield;;);", "if(a)function n(){}", "try{}catch(yield){}", "try{}finally{yield}", "var [a=yield\na]=b;", "x=a=>{return\n{a}};", "x=async()=>++await;", "x={*m(){yield\na}};", "x={*m(){yield`t`}};", "(async function(){})", "`a${b}${()=>{()}}c`;", "for(;;){break yield}", "for(var yield of a);", "for(x of a=>a in b);", "switch(a){case 1:()}", "x=a=>{return yield};", "x={*m(){[yield]=a}};", "`a${yield}b${yield}c`", "async function\nq(){}", "async\nfunction q(){}", "class A{static n(){}}", "class A{static*n(){}}", "const{a:[b=yield]}=c;", "for(const a=yield;;);", "var [a=yield in a]=b;", "x:async function (){}", "x='\u{2028}'+++await;", "x={*m(){`${yield}`}};", "x={*m(){yield this}};", "({a:[b],...c}=d);yield", "for(let[a=yield]of b);", "for(var{a=yield}in b);", "x=()=>(class await{});", "x=()=>{return -yield};", "x=async()=>await a**b;", "x=async()=>{await(a)};", "x={*m(){yield yield}};", "async a=>(a=await b)=>a", "for(;;){continue yield}", "for(const a=yield,a;;);", "switch(a){case 1:yield}", "class A{constructor(){}}", "function*g(){yield this}", "switch(a){case 1:-yield}", "switch(a){default:yield}", "a:b:c:try{}catch(yield){}", "class A{*constructor(){}}", "function*g(){yield yield}", "function*g(){yield*yield}", "x = async ( {} = a ) => a", "for(const a=yield in a;;);", "x=()=>{return yield in a};", "x=a=>{'use strict';await};", "y:for(;;){continue y}yield", "class A{get constructor(){}}", "function let(){'use strict'}", "switch(a){case 1:break}yield", "class A{constructor(){await}}", "const [[a=function(){()}]]=c;", "function eval(){'use strict'}", "function n([a]){'use strict'}", "class A{async constructor(){}}", "function yield(){'use strict'}", "function f(){new.target(yield)}", "function n(yield){'use strict'}", "a:b:c:switch(yield){case yield:}", "async function g(){ ( + a ) => }", "const [[a=function(){yield}]]=c;", "for(const {a=()=>{yield}} in b);"], &["eval=>", "(let)=>a", "static=>a", "x:function ", "with(async);", "async eval=>a", "export function n", "export default a=>a", "export function (){}", "export function n(){}", "export async function n(){}", "export async\nfunction n(){}", "export default function (){}"]),
        "C17" => (&["", "(", ")", ",", ":", ";", "=", "[", "]", "a", "{", "}", "( )", "( ;", "( a", "({}", "A ;", "[ ,", "[ ]", "[ }", "a (", "a ,", "a :", "a [", "a a", "a {", "x=a", "{ ,", "{ }", "({*}", "({1}", "({;}", "({@}", "({a}", "({})", "[{}]", "a,{}", "x={}", "( ) [", "( a {", "({()}", "({-1}", "({[]}", "({a;}", "-({})", "[ , ]", "[ a {", "a : a", "a : {", "a : }", "a [ a", "a[{}]", "a||{}", "class", "f({})", "x = .", "x={$}", "x={_}", "x={a}", "x={};", "{ a }", "({*=b}", "({...}", "({/r/}", "({010}", "({[a]}", "({`t`}", "({a()}", "({a,})", "({a=b}", "({set}", "({}=z)", "[{}]=z", "a+({})", "a?{}:b", "x+={};", "x={*a}", "x={if}", "x={in}", "x={of}", "x={}.y", "x={}/1", "x={}\n", "{*a},a", "{if},a", "( a , )", "( { a (", "(class)", "({...a}", "({0x10}", "({a}=z)", "({})=>z", "[ , ] =", "[ a , ]", "[...{}]", "`${{}}`", "a ( ) =", "a ( ) [", "a ( a {", "a : [ ]", "a : { }", "class A", "class{}", "extends", "if({});", "x={1:b}", "x={a 1}", "x={a:b}", "x={a=b}", "x={get}", "x={new}", "x={set}", "x={};/*", "x={}\ny", "(class{)", "({...a;}", "({a(){}}", "({async}", "({await}", "({a})=>z", "class A{", "f(...{})", "t`${{}}`", "x=!({});", "x=a=>{};", "x={'':b}", "x={...a}", "x={.5:b}", "x={1.:b}", "x={enum}", "x={if:b}", "x={null}", "x={this}", "x={true}", "x={};//a", "{...a},a", "'😀';x={};", "( a ) = a", "( a , a )", "( { a ( [", "( { a ( {", "( { a ( }", "(class{})", "({.../r/}", "({...a,})", "({...new}", "({a(b){}}", "({a=1}=z)", "a ( a , )", "class A{}", "new f({})", "throw {};", "var a={};", "with({});", "x = new A", "x=()=>{};", "x=/a/,{};", "x=`a`+{};", "x=a++/{};", "x=a/b/{};", "x=class{;", "x={'s':b}", "x={...''}", "x={...0b}", "x={010:b}", "x={1e3:b}", "x={[a]:b}", "x={a(){}}", "x={a:[b]}", "x={async}", "x={await}", "x={get a}", "x={set a}", "x={super}", "x={while}", "x={yield}", "x={};/**/", "{async},a", "({...a}=z)", "({0(b)=>c}", "({a=1})=>z", "({eval}=z)", "({get a()}", "({é(b,){}}", "//a\nx={};", "09.5;x={};", "class A{*}", "class A{;}", "for(;;{});", "for(;{};);", "for({};;);", "if(a)class", "typeof({})", "while({});", "x=a**({});", "x=new({});", "x={*a(){}}", "x={...0=b}", "x={0x10:b}", "x={a(b){}}", "x={delete}", "x={true:b}", "x={typeof}", "( ( a ) , )", "( [ , ] , )", "( [ a ] , )", "( a ( ) , )", "( { a ( [ ,", "( { a ( [ {", "( { a ( { {", "(class A{})", "({...[1]=b}", "({...a,}=z)", "({...a})=>z", "({...super}", "({a([b]){}}", "({a({b}){}}", "`${class{}`", "a ( ) [ a ]", "a [ a ] = a", "class A{*a}", "const a={};", "x = A ( ) .", "x = new . A", "x=()=>({});", "x=a in({});", "x=void({});", "x={...null}", "x={...this}", "x={...true}", "x={0(b,){}}", "x={0:yield}", "x={\"s\":b}", "x={\\u0061}", "x={async a}", "'\\08';x={};", "({*get null}", "({...a,})=>z", "({...a=b}=z)", "({a:[b]})=>z", "({a:{b}})=>z", "async({})=>z", "async\nx={};", "class eval{}", "do;while({})", "if(a)class{}", "x=(a={})=>b;", "x={...[1]=b}", "x={...a.b=b}", "x={...async}", "x={...await}", "x={a([b]){}}", "x={a(b=1){}}", "x={a({b}){}}", "x={a:()=>{}}", "x={function}", "x={i\\u0066}", "({...[`t`]=b}", "({...super()}", "({...{a}})=>z", "[...class{}}]", "for(a in {});", "for({} of z);", "var [a={}]=b;", "var {a={}}=b;", "x = A ( ) . A", "x = { } * { }", "x=a=>{'s',a};", "x=delete({});", "x={...eval=b}", "x={a(...b){}}", "x={get 0(){}}", "x={get a(){}}", "x={set a(){}}", "'a\\\nb';x={};", "({...[...a]=b}", "({...function}", "({a(){return}}", "({a:()=>{}}=z)", "`\n\r\n`;x={};", "class A{1(){}}", "class A{a(){}}", "class A{get a}", "debugger;x={};", "f(...class{}})", "let a={},b={};", "var let_;x={};", "var{[{}]:a}=b;", "x=async a=>{};", "x={...async()}", "x={[a in b]:b}", "x={get ''(){}}", "x={get if(){}}", "x={instanceof}", "x={set a(b){}}", "( { A ( { a(){}", "(class await{})", "({a(){super.a}}", "({a:class{}}=z)", "`a${{}}b${{}}c`", "x=a=>{a:yield};", "x={...[...a]=b}", "x={a(){return}}", "x={async a(){}}", "x={async*a(){}}", "({*a(){yield a}}", "({...[a in b]=b}", "class A{[a](){}}", "class A{static*}", "for(class{;};;);", "for({a=1} of z);", "if(a)x={};else y", "x={a(){yield a}}", "x={async\na(){}}", "x={get null(){}}", "x={get true(){}}", "/*\u{2028}*/x={};", "async({await})=>z", "try{}catch{}x={};", "x=([a])=>{x={};};", "x={*a(){super.a}}", "x={*a(){yield a}}", "x={m(){return a}}", "`${class extends}`", "const{a:[b={}]}=c;", "for(const a={};;);", "function f(a={}){}", "try{}finally{x={}}", "x=()=>{return {}};", "x={a:function(){}}", "{a:function(){}},a", "(class extends B{})", "class A extends B{}", "class A{static(){}}", "for(;;){break}x={};", "for(let[a={}]of b);", "for(var{a={}}in b);", "function*g(){x={};}", "try{x={}}catch(e){}", "var [a=class{}}]=b;", "var a={},b={},c={};", "var {a=class{}}}=b;", "x = { * a ( yield }", "x=async()=>{await};", "({a:function(){}}=z)", "switch({}){case {}:}", "x=function*(){x={}};", "x={get i\\u0066(){}}", "class A extends a?b:c", "class A{static a(){}}", "class A{static*a(){}}", "x=async()=>{await,a};", "x={$(){'use strict'}}", "x={*m(){x={yield};}};", "for(var a of b){x={};}", "function*g(){yield {}}", "function*g(){yield*{}}", "x=a=>{a:function(){}};", "x=function f(){x={};};", "x={async a(){await a}}", "({ } [ a ] , ... } = z)", "x = { a ( await ) { } }", "x={*m(){x={a:yield};}};", "async function f(a={}){}", "class A{constructor(){}}", "for(var x=[{a:({})}];;);", "switch(a){default:x={};}", "x=async()=>{x={await};};", "class A{*constructor(){}}", "x=async function(){x={}};", "y:for(;;){continue y}x={};", "function*g(){yield*{yield}}", "class A{get constructor(){}}", "function f(){new.target({})}", "switch(a){case 1:break}x={};", "class A extends async()=>{}{}", "class A{async constructor(){}}", "function f(){'use strict'}x={};", "const [[a=function(){x={};}]]=c;", "for(const {a=()=>{x={};}} in b);"], &["({let}", "x={let}", "({eval=b}", "x={static}", "with(a);x={};", "export class{}", "x={implements}", "export class A{}", "x={...arguments=b}", "export default class{}"]),
        "C18" => (&["", ";", "import", "(await)", "(yield)", "with(a);", "[await a]", "eval = 1 ;", "var yield ;", "[...await a]", "x=delete(a);", "f(...await a)", "for(yield;;);", "x={...await a};", "var [a=await a]=b;", "x={m(a=await a){}};", "x=async(a=await)=>b;", "'use strict';x=yield;", "a : function b ( ) { }", "x=function*(){x=await};", "if ( a ) function b ( ) { }", "if ( a ) if ( b ) c ; else d ;"], &["*", ",", "a", "{", "}", "//", "\n", "as", "{}", "'x'", "(a)", "[a]", "a *", "a ,", "a ;", "a a", "a {", "a,a", "{ }", "-(a)", "a {}", "a[a]", "a||a", "f(a)", "x=a;", "((a))", "a * a", "a , {", "a+(a)", "a?a:b", "if(b)", "x+=a;", "{ a }", "[...a]", "`${a}`", "a \n a", "export", "if(a);", "y:x=a;", "'x' , a", "( { } ;", ") { } ;", "= 'a' ;", "[a,a,b]", "a , { a", "a , { {", "a , { }", "default", "export*", "export@", "f(...a)", "import*", "import;", "import{", "let a ;", "t`${a}`", "var a ;", "x=!(a);", "x=[,a];", "x=a=>a;", "[a=a]=b;", "export (", "export :", "export [", "export ]", "export/*", "export{}", "f(a,a,b)", "if(b) {}", "import 1", "import a", "import{;", "import{}", "new f(a)", "throw a;", "var a=a;", "x:import", "x=()=>a;", "x=(a).a;", "x=(a,a);", "x=/a/,a;", "x=[a]=a;", "x=`a`+a;", "x=a++/a;", "x=a/b/a;", "x={a:a};", "x={a}=a;", "a , { a {", "do import", "export =>", "export//a", "exporta=1", "export{a}", "export{};", "for(;;a);", "for(;a;);", "for(a;;);", "import a,", "import'm'", "import{a;", "import{a}", "typeof(a)", "var { } ;", "while(a);", "x=a**(a);", "x=new(a);", "x={...a};", "({a=a}=b);", "const a=a;", "debugger ;", "export{if}", "import a,;", "import a.b", "import'm';", "var eval ;", "x=()=>(a);", "x=a in(a);", "x=void(a);", "x={[a]:a};", "//a\nexport", "a , { * a }", "a , { a , }", "async 'a' ;", "async ( ) ;", "async { } ;", "class A { }", "class { } ;", "do;while(a)", "export let;", "export {z,}", "export{let}", "import ...a", "import\"m\"", "x=(a=a)=>b;", "x=[a[a]]=b;", "()=>{import}", "export * 'm'", "export let [", "export let a", "export var a", "export var {", "export {a b}", "export {}\nb", "export{enum}", "export{null}", "export{this}", "for(a in a);", "for(a of a);", "function f()", "import a 'm'", "let a=a,b=a;", "var [a=a]=b;", "var {a=a}=b;", "'\\08';export", "`a${a}b${a}c`", "export {a as}", "if(b) ; if(b)", "if(b) if(b) a", "import\\u0061", "var{[a]:a}=b;", "x=({a=a})=>b;", "x=async a=>a;", "x=async()=>a;", "x={m(a=a){}};", "a \n b \n ++ c", "arguments ++ ;", "export class{}", "export let [ ,", "export let [ =", "export let let", "export var a,b", "export{static}", "export{}\nfrom", "function { } ;", "import a b 'm'", "import {z,a,b}", "x = /a[/]b/g ;", "x=[[[[[a]]]]];", "( eval ) => 1 ;", "export *from'm'", "export ,from'm'", "export { } ;//a", "export {a as b}", "export{}from'm'", "function f() {}", "if(a)x=a;else y", "import {a as b}", "import{}from'm'", "x={get[a](){}};", "/*\u{2028}*/x=a;", "class A{[a](){}}", "export class A{}", "export const a=1", "export let [ a ,", "export let { a ;", "export var [a]=b", "export var {a}=q", "export {a as b,}", "exportdefault -a", "import a from ''", "import null as n", "import {a as b,}", "import{a}from'm'", "switch ( a ) { }", "x=async(a=a)=>b;", "09.5;export { } ;", "class A{m(a=a){}}", "const{a:[b=a]}=c;", "export default\nb", "export function (", "export var {a,}=q", "export{if}from'm'", "for(const a=a;;);", "import* a from ''", "import{}from'm' a", "try{}finally{x=a}", "var a\nexport {a}", "x=()=>{return a};", "x=async()=>await;", "0.5.a;export { } ;", "export class A { ;", "export default ( )", "export default (a)", "export { } ; async", "export {a}from'm';", "export {true as t}", "export{implements}", "for(let[a=a]of b);", "for(var{a=a}in b);", "import a,{}from'm'", "import {z,}from'm'", "import{let}from'm'", "switch(a){case a:}", "try{x=a}catch(e){}", "try{}catch{}export", "x=([a])=>{export};", "x=async({a=a})=>b;", "x=class{m(){x=a}};", "x={async*[a](){}};", "'\\08';export { } ;", "export default null", "export default this", "export function(){}", "export var {...a}=q", "function f([a=a]){}", "function f({a=a}){}", "import a from 'm'/1", "import a from 'm\n'", "import*as a from ''", "importa, from ('m')", "x=async()=>await a;", "x=function*(){x=a};", "x={m([a]){import}};", "\u{2028}export { } ;", "class A extends(a){}", "export * from \"m\";", "export class A { ; }", "export default { } =", "export default {a=b}", "export default {get}", "export let [ , ] = a", "export let [ [ ] = a", "for ( a . b in c ) ;", "import {a as}from'm'", "import {eval}from'm'", "'a\\\nb';export { } ;", "`\n\r\n`;export { } ;", "do { } while ( a ) ; ", "export default async;", "export function f(){}", "export var x=a,b?a:b;", "export {a \\u0061s b}", "function f(a,b,c=a){}", "function*g(){yield a}", "function*g(){yield*a}", "if ( a ) b ; else c ;", "export default ( a , )", "export default class{}", "export default {async}", "export var x={...a,b};", "export {a as b}from'm'", "for ( var a of b ) c ;", "import \\u0061 from ''", "import {a as b}from'm'", "({a:[b],...c}=d);import", "async function f(a=a){}", "export default ( {} , )", "export default async\nb", "export {a as b,}from'm'", "for(var x=[{a:(a)}];;);", "import a,* as b from ''", "import {a as b,}from'm'", "x=class{static[a](){}};", "x=function*(){x=yield};", "class A{get m(){import}}", "class A{m(){super.a(a)}}", "export default class A{}", "export default interface", "export var x=()=>{}?a:b;", "for ( [ a , b ] of c ) ;", "function*g(){x=yield(a)}", "import arguments from ''", "new.target_;export { } ;", "try{}catch{}export { } ;", "x=async function(){x=a};", "export const {a=a in b}=b", "export var x={...a in b};", "function*g(){yield yield}", "function*g(){yield*yield}", "import {arguments}from'm'", "import {true as t}from'm'", "export default ( ( a ) , )", "export default ( a ( ) , )", "export default ( a * a , )", "export default a * ( a , )", "export function*g(){yield}", "export var x=({a=a,b})=>b;", "export var x={[a in b]:a};", "for ( const [ a ] in b ) ;", "for(;;){break}export { } ;", "export async function*g(){}", "export async if * a ( ) { }", "export default ( a => a , )", "export default class{}\n[a]", "export default function(){}", "export var {a:{b=c},...d}=e", "function f(){new.target(a)}", "import a from 'a\\u0062\\n'", "x=function(){return};export", "( function a ( ) { } ( ) ) ;", "export async\nfunction f(){}", "for ( { a , b : c } of d ) ;", "import {a \\u0061s b}from'm'", "({a:[b],...c}=d);export { } ;", "async function f(a=await a){}", "class A{static m(){return a}}", "export default ( class {} , )", "export var x=()=>{return {}};", "export var x=({a=a in b})=>b;", "export var x=t`${/r/}${/r/}`;", "export var x={m(a=a in b){}};", "class A{async m(){x=await(a)}}", "export function * a ( { yield }", "for ( const a = 1 ; ; ) break ;", "import *as a from 'a\\u0062\\n'", "export default class extends A{}", "x={get:1,set,async};export { } ;", "export function f(){\u{2028}return;}"]),
        "C19" => (&["", " ", "!", "(", ")", "+", ",", "-", ".", "/", "1", ":", ";", "=", "?", "@", "[", "]", "`", "a", "{", "}", "()", "(a", "({", "**", "++", "+=", "--", "-;", "/ ", "/*", "0x", "=>", "\"", "\n", "\r", "` ", "`a", "a(", "a+", "a.", "a:", "a[", "do", "if", "in", "{}", "}`", "! a", "'s'", "(a)", "(a,", "({;", "+ =", "+ a", "- z", "-;a", "...", "/* ", "///", "/r/", "0b2", "1 ;", "1 =", "1++", "1=2", "[ [", "[ ]", "[a;", "\\u", "` `", "`${", "`\n", "a !", "a ,", "a 1", "a =", "a ?", "a {", "a }", "a(;", "a**", "a.1", "a:;", "a=>", "do;", "for", "if;", "let", "new", "try", "var", "x=_", "x=a", "{ (", "(a,b", "({ z", "({;a", "++ +", "++ a", "/**/", "/\na", "/a/*", "\"\n", "\\;a", "\\u ", "`${a", "a ++", "a +=", "a --", "a in", "a+ z", "a. z", "a=>;", "a?b:", "a?b;", "a[ z", "a\n!", "a\n/", "a\t-", "a\t/", "case", "do (", "else", "f(,)", "for;", "new.", "new;", "this", "with", "x=.0", "x=0.", "x=08", "{({}", "'\\u'", "'a\n'", "( ) (", "( ) [", "( ...", "( [ ,", "( { 1", "( { [", "++a++", "//\n/", "[ [ ]", "[ ] [", "[ a ]", "[1]=a", "\";\"", "\r`\r", "` `${", "`${ +", "`${ `", "`\\u`", "a (a)", "a , a", "a = a", "a ` `", "a=> z", "a\n()", "a\n/a", "a\n00", "a\n06", "a\t/a", "async", "await", "break", "catch", "class", "const", "do do", "do if", "for(;", "if(a;", "let [", "let a", "let {", "new.a", "new;a", "super", "throw", "var a", "while", "x=/[/", "x=08.", "x=0e0", "x=0x0", "x=a\\", "x={1}", "y:{*}", "yield", "{ 1 }", "'\\x1'", "( ) =>", "( { if", "(...a)", "`${ }`", "a => (", "a => {", "a:\nif", "a\n(a,", "a\n(a;", "a\n060", "a\n[a;", "async(", "delete", "enum a", "for( z", "for(;;", "if(a);", "return", "super;", "switch", "typeof", "var [;", "var a=", "x='\\'", "x=/[]/", "x=/\\/", "x=08e0", "x=`\\`", "x=`\r`", "x=a[]/", "x={*a}", "x={1} ", "x={a:}", "'s' ` `", "'use\r@", "( [ ...", "( a , )", "( class", "( { ...", "( { a (", "( { a )", "( { a ,", "( { a =", "( { a }", "( { get", "( { } =", "(a,b)=1", "({a=1})", "+ ( a )", "+ { a }", "[ ] = a", "`${ /r/", "`${ } a", "a ( ) .", "a ( ) [", "a /r/ a", "a:\nnew", "a:\ntry", "a=>{}()", "a\n\\u6", "a\nin a", "async ,", "async a", "const a", "finally", "for ( [", "for(;;)", "let [ ]", "let [a]", "let a ,", "let a ;", "let a a", "let { [", "let { }", "let\na+", "new a (", "new a ;", "super .", "switch;", "throw a", "throw\n", "var [;a", "var a ,", "var a a", "var {a:", "while (", "with(a)", "with\n)", "x='\\a'", "x=/)/\\", "x=`\\``", "x=``a${", "x={'a'}", "x={[a]}", "'s' += ;", "( a ) =>", "(a+b)=>c", "++ ( a )", "/*c*/- z", "\"\\xg\"", "\u{2028}", "\u{2029}", "\u{b}- z", "\u{c}- z", "`${ a }`", "a += b ;", "a => { }", "a\n[1]=a", "async\na", "a||\n@\n", "a||\n]\n", "break\na", "class A;", "class A{", "continue", "debugger", "do;do;do", "function", "let\n[a;", "throw\na", "var a= z", "while(a)", "with(a);", "x = a /=", "x null ;", "x='\\\n'", "x=\n'\\4", "x=`${}${", "x=`\\\n`", "x=`\r\n`", "( ... [ ,", "( ... [ ]", "( ... { }", "( [ , ] =", "( class ,", "( class {", "( { a ( (", "( { a ( )", "( { a } =", "( { async", "( { get (", "( { get a", "( { } , )", "(\n\n)=>x", "({a:1}=b)", "[ a ] = a", "a:\nnew z", "a:\nthrow", "a:\nvar 1", "a\n(...a)", "a\n\\u{0}", "async ( )", "a||\na+\n", "a||\na:\n", "class A{;", "for ( a ;", "for ( var", "function(", "function;", "let [ a =", "let { [ [", "let { a =", "let { a [", "let { a }", "new a\n()", "switch {}", "throw a a", "var { a ,", "var {a:1}", "while(a);", "x='\\\r\n", "x=\n'\\4'", "x={get a}", "( function", "({a:1})=>b", "`${ /r/ }`", "a:\nasync(", "a:\nclass ", "a:\nlet\n)", "a:\nreturn", "a:\nswitch", "a\n\\u0060", "a\n\\u0066", "a\n\\u{66}", "a\nu\\u{0}", "async a =>", "async(a)=>", "class A{ z", "do ; while", "eval\n=\na", "for ( a in", "for ( a of", "for(\nfor(", "function( ", "let\n[a b]", "switch (a)", "x='\\uaaa'", "x=\n'\\4\\", "x=`${a}${`", "x=`\\\r\n`", "x\n=\n0o17", "x\n=\na\n&", "x\n=\na\n<", "x\n=\nnull", "x\n=\ntrue", "x\n=\nvoid", "{class A{}", "( ( a ) , )", "( [ , ] , )", "( [ ... a ]", "( a ( ) , )", "( { ... a ,", "( { ... a }", "( { a ( a (", "( { a ( a )", "( { a ( a ,", "( { a ( a =", "( { a ( { }", "( { async (", "( { async a", "( { get ( )", "( { get a (", "( { } = a )", "[...\na:\n]", "\\u0061;- z", "\u{a0}a;- z", "\u{feff}- z", "a : break a", "a:\nlet [a]", "a:\nwith(a)", "a\nfunction", "continue\na", "debugger\n;", "do a;while;", "for ( ; ; [", "for ( let a", "function f(", "function\n*", "if(a);if(a)", "if(a)\nif\n", "let [ a ] =", "let\n{\n...", "new super .", "var\n[\n...", "x = { set (", "x = { set a", "x=\n'\\444'", "x=\n'\\x44'", "x=`${a}${``", "x={async a}", "x\n=\n0b101", "x\n=\na\n&&", "x\n=\na\n&=", "x\n=\na\n/=", "x\n=\na\n<<", "x\n=\na\n==", "x\n=\nfalse", "{try{;}try{", "( [ ] ) => a", "( a => a , )", "( function (", "( function ,", "( { } ) => a", "(\n[1]\n)=>x", "(\na.b\n)=>x", "\n[...a,b]\n", "a:\nfunction", "async a => a", "async(a)=> z", "class eval ;", "do;while(a))", "do;while(a)😀", "f(...\na:\n)", "for ( ; a in", "for ( a of a", "for(1 of a);", "if(a);else;)", "switch (a) :", "switch(a){a}", "try {} catch", "var \n{1}\n;", "x = { true ;", "x\n=\na\n<<=", "( [ ... a ] =", "( a [ a ] , )", "( { ... a } =", "( { async ( )", "( { get a ( (", "( { get a ( )", "+ class A { }", "a : { break a", "async await ;", "do debugger ;", "f(...\na b\n)", "for ( let a ;", "for ( let a =", "for ( var a ;", "for ( var a =", "for(;;) break", "for\n(\nconst", "switch (a) {}", "try{}catch{})", "try{}catch{}😀", "x = a ( ) `t`", "x = { a : a }", "x = { async *", "x = { set a }", "x={m(\n\n){}}", "x={set a(){}}", "x\n.\ntrue\n;", "x\n=\na\n&\na", "x\n=\na\n<\na", "'s' ` ` \n 's'", "( ) => [ a , ]", "( [ a ] ) => a", "( `t` ) => 1 ;", "( a = a ) => a", "( { a } ) => a", "a:\nfunction( ", "async function", "for ( ; ; a in", "for ( a in a )", "for ( let a in", "for ( let a of", "for ( var a in", "for ( var a of", "try {} finally", "x=(\na(\n)`t`;", "x=a=>{return};", "x={*m(){new}};", "x\n=\na\n&&\na", "x\n=\na\n&=\na", "x\n=\na\n/=\na", "x\n=\na\n<<\na", "x\n=\na\n==\na", "x\n=\na\n||\na", "( [ ... a , ] =", "( [ ... a ] , )", "( this ) => 1 ;", "( { ... a } , )", "(\nfunction(\n)", "({\na\n}=b)\n/a", "async\nfunction", "class A { get a", "class A{m(){}}}", "class\nA\nif\n}", "for ( ; ; a ) a", "for ( ; a ; ) a", "for ( a ; ; ) a", "for ( a in a in", "for ( a of a in", "for ( let a ; ;", "for ( var a ; ;", "for(a in b)\n\n", "for(a\nof\nb);)", "function*g(){ }", "new async ( ) ;", "try{}catch{}if(", "x = && b || c ;", "x = { await } ;", "x = { yield } ;", "x = || b && c ;", "x\n=\na\n<<=\na", "x\n=\n{\nget\n1", "(\n)=>\n{\n}\n? ", "a:function*b(){}", "class A { static", "class\nA\n{\n)\n", "for(;;) continue", "for(a in b)\n1\n", "for(a of b)\n1\n", "try {} catch (a)", "try{}catch{\n\n}", "x=()=>\n-a**b\n;", "x={m(\na.b\n){}}", "x\n=\n+\n-\n!\n~", "x\n=\na\n&\nb\n^", "x\n=\na\n<\nb\n>", "x\n=\n{\nget\nif", "( + eval ) => 1 ;", "(\n[...a,b]\n)=>x", "class\nA\nextends", "for ( a , b ) c ;", "for ( let a = a ;", "for ( var a = a ;", "if(a)b;else \n1\n", "var [\n...a\n]=x;", "var \n[...a,b]\n;", "var {p:\na=\n}=x;", "x\n=\nfunction\n*", "x\n=\n{\nget\n's'", "( ++ eval ) => 1 ;", "(function(\n\n){})", "async(...\n1\n)=>x", "async(\n...a\n)=>x", "class A { static (", "class A { static *", "class A { static a", "class A{m(\n\n){}}", "for(;;) continue a", "for(;;) { continue", "for(let a,b of c);", "for(var p,\n\n;;);", "try{}finally{\n\n}", "var {p:\na.b\n}=x;", "x = async function", "x={*m(){yield a}};", "x\n=\na\n&=\nb\n^=", "x\n=\na\n/=\nb\n%=", "x\n=\na\n<<\nb\n>>", "x\n=\na\n==\nb\n!=", "x\n=\n{\na\n(\n...", "'use strict'; yield", "( eval `t` ) => 1 ;", "( new eval ) => 1 ;", "for(\nasync a\n;;);", "switch(a){case 1:)}", "switch(a){case 1:-}", "switch(a){case 1:}}", "switch(a){case 1:😀}", "try\n{\n}\ncatch\n(", "try{\n\n}catch(a){}", "x = class await } ;", "x = new ( a , ) ) ;", "x=function*(){\n\n}", "x={async m(\n\n){}}", "x\n=\n+\n-\n!\n~\na", "x\n=\na\n&\nb\n^\na", "x\n=\na\n<\nb\n>\na", "x\n=\na\ninstanceof", "+ function a ( ) { }", "async function ( ) ;", "class A { static a (", "class arguments ++ ;", "for ( [ a ] in b ) ;", "for ( a , b in c ) ;", "for(var a in b)\n1\n", "function f([\n\n]){}", "switch(a){case 1:if}", "switch(a){default:)}", "x = &= b ^= c |= d ;", "x = a &= ^= c |= d ;", "x = a &= b ^= |= d ;", "x = async a => await", "x=function(){\n};- z", "x={[\nlet [a]\n]:a};", "x\n=\na\n<<=\nb\n>>=", "x\n=\na\n[\nb\n]\n-=", "x\n=\nclass\nextends", "'use strict'; ++ eval", "'use strict'; eval ++", "for(\nlet let=1\n;;);", "function*g(){ yield *", "function*g(){ yield =", "function*g(){ yield }", "if\n(\na\n)\nfunction", "x = a /= %= c **= d ;", "x = a /= b %= **= d ;", "x = a [ b ] -= *= d ;", "x=async()=>{await a};", "x\n=\na\n&=\nb\n^=\na", "x\n=\na\n/=\nb\n%=\na", "x\n=\na\n<<\nb\n>>\na", "x\n=\na\n==\nb\n!=\na", "(\n\n)=>{'use strict'}", "a : for(;;) continue a", "for ( [ , b ] of c ) ;", "switch(a){case 1:case}", "switch(a){case b:\n\n}", "var {a=\nlet [a]\n}=b;", "x = a << b + c >>> d ;", "x=()=>{return \nif\n};", "x\n=\na\n&\nb\n^\nc\n|", "x\n=\na\n*\nb\n/\nc\n%", "for ( let a = 1 , ; ) ;", "for ( var a = 1 ; ; ) ;", "for(var \n[a\n=y in x);", "for(var \n{a\n=y in x);", "for\n(\nvar\na\n=\n1\n,", "function*g(){ yield ( )", "let\n[\na\n]=\nb\n-a**b", "switch(a){case 1:break}", "switch(a){default:\n\n}", "var{[\nlet [a]\n]:a}=b;", "x\n=\na\n<<=\nb\n>>=\na", "x\n=\na\n<\nb\n>\nc\n<=", "x\n=\na\n[\nb\n]\n-=\na", "({a:[b],...c}=d);const a", "static = class package ;", "switch\n(\na\n)\n{\ncase", "switch\n(\na\n)\n{\nif\n", "x = <<= b >>= c >>>= d ;", "x = a <<= >>= c >>>= d ;", "x = a <<= b >>= >>>= d ;", "x=function*(){yield\n*a}", "x\n=\n`${\na\n}${\nb\n}`", "for ( [ a += b ] of c ) ;", "for ( var a ; b ; c ) { }", "function*g(){ ( yield , )", "function*g(){ yield * a }", "if ( a ) function ( ) { }", "switch(a){case 1:default}", "x = { a /= b %= c **= d ;", "x\n=\na\n&=\nb\n^=\nc\n|=", "x\n=\na\n&\nb\n^\nc\n|\na", "x\n=\na\n*\nb\n/\nc\n%\na", "(\n...a\n)=>{'use strict'}", "async ( await ) => await ;", "class A{[\nsuper()\n](){}}", "class\nA\nextends\nB\n{\n}", "for ( { a , b } of c ) d ;", "switch(a){default:default}", "x = async function ( ) { }", "x\n=\na\n/=\nb\n%=\nc\n**=", "x\n=\na\n<<\nb\n>>\nc\n>>>", "x\n=\na\n<\nb\n>\nc\n<=\na", "x\n=\na\n==\nb\n!=\nc\n===", "( function ( ) { } ) => ) ;", "({a=function(){return}}=b);", "do\n{\n}\nwhile\n(\na\n)\n;", "for\n(\nvar\na\nof\nb\n)\na", "function f(){return()=>{)}}", "function*g(){ yield yield a", "if ( a ) function * ( ) { }", "switch(a){default:default:}", "x = ( a , b ) => { return a", "x = function ( ) { return ;", "x\n=\na\n[\nb\n]\n-=\nc\n*=", "a : async function b ( ) { }", "class A{constructor(\n\n){}}", "class A{static\n\na(){}}a+ z", "class\nA\n{\n'a'\n(\n)\n{\n}", "for ( { a , b : c } in d ) ;", "x = function * ( { yield } ;", "x\n=\na\n&=\nb\n^=\nc\n|=\na", "a\n:\nfunction\na\n(\n)\n{\n}", "for\n(\nconst\na\nof\nb\n)\n;", "function*g(){ yield * yield a", "function*g(){ yield , yield }", "x = ( a , b ) => { return c }", "x\n=\n[\n...\na\n,\nb\n]\n=\n", "x\n=\na\n/=\nb\n%=\nc\n**=\na", "x\n=\na\n<<=\nb\n>>=\nc\n>>>=", "x\n=\na\n<<\nb\n>>\nc\n>>>\na", "x\n=\na\n==\nb\n!=\nc\n===\na", "for ( let { a : b } of c ) d ;", "function f(\n\n){'use strict'}", "function f({a=()=>{return}}){}", "x\n=\na\n<\nb\n>\nc\n<=\nd\n>=", "x\n=\na\n[\nb\n]\n-=\nc\n*=\na", "x = ( a , b ) => { return c in ;", "x = function * ( ) { yield `t` ;", "async function f(a=\nawait a\n){}", "x\n=\na\n<\nb\n>\nc\n<=\nd\n>=\na", "x\n=\na\n[\nb\n=\n-=\nc\n*=\nd\n;", "x\n=\na\na\nb\n>>=\nc\n>>>=\nd\n;", "for\n(\n[\na\n=\nb\n]\nof\nc\n)\n;", "x\n=\na\n==\nb\n!=\nc\n===\nd\n!==", "x\n=\n{\nget\n,\nset\n,\nasync\na\n;", "x\n=\na\n==\nb\n!=\nc\n/\nd\n!==\ne\n;", "x\n=\na\n==\nb\n!=\nc\na\nd\n!==\ne\n;", "for\n(\n[\na\n,\n...\nb\n]\nof\nc\n)\n;", "for\n(\n{\na\n,\nb\n=\nc\n}\nof\nd\n)\n;", "for\n(\n{\n...\na\n,\nb\n:\nc\n}\nof\nd\n)\n;"], &["*", "as", "a *", "a * a", "export", "import", "static", "export;", "import;", "export *", "export {", "import *", "import a", "import {", "import a;", "let let=1", "export { {", "export { }", "export {a;", "export } ;", "import 'x'", "import a ,", "import { {", "import { }", "import {a;", "export * a ", "export\nlet", "export\nvar", "for\n(\nlet", "import * as", "export * 'x'", "export { a ,", "export { a }", "export { } a", "export {a b}", "import 'x' a", "import a 'x'", "import a , *", "import a , {", "import { a ,", "import { a }", "a:\nfunction ", "export * from", "export { a as", "export\nasync", "export\nclass", "export\nconst", "import a from", "import { a as", "export default", "export { a } a", "export\nlet\na", "export\nvar\na", "import\n*\nb c", "export { a as a", "export { } from", "export\n{\n}\na", "import { a as a", "export class { }", "export default a", "export { let } ;", "export\nfunction", "import\n{\na\nb c", "export * from 'x' a", "export { } from 'x'", "export\n{\nif\n}\n;", "if ( a ) function ;", "import a from 'x' a", "x={*m(\nyield\n){}}", "async()=>{\nawait\n}", "export default new ;", "async function g(){ }", "export { } from 'a' ;", "export\nasync\nfunction\n", "export\ndefault\nclass\n{", "import { let } from 'a' ;", "export\ndefault\nclass\n{\n}", "export\n{\na\n,\nb\nas\nc\n)", "export\n{\na\n,\nb\nas\nc\n,", "export\n{\na\n,\nb\nas\nc\n}", "import\n{\na\n,\nb\nas\nc\n)", "import\n{\na\n,\nb\nas\nc\n,", "import\n{\na\n,\nb\nas\nc\n}", "const { a , b : [ c ] } = d ;", "import\n{\na\n}\nfrom\n'a'\n;", "export\n{\na\n,\ndefault\nas\nb\n}", "export\ndefault\nfunction\n(\n)\n{\n}"]),
        "C21" => (&["", "(", ")", ",", "0", ";", "=", "[", "]", "a", "{", "}", "!0", "''", "-1", ".5", "5.", "[]", "\n", "``", "a)", "a;", "{}", "( )", "(a)", "(a;", "({}", "--1", "-[]", "-{}", "/a/", "010", "0:b", "0b1", "0o7", "1 =", "1e5", ";/*", "[ ,", "[-1", "[0;", "[[]", "[])", "[];", "[a]", "``;", "`a`", "a ,", "a 1", "a a", "a {", "a++", "a,b", "a.b", "a:;", "a=b", "a?0", "a[0", "a\n", "f()", "f(0", "{ }", "{;}", "{a}", "({a}", "({})", "-(1)", "/a/;", "0x10", ";//a", "[-1]", "[]++", "[]=b", "a+=b", "a=>x", "a?0;", "a[b]", "a\na", "a||1", "a||a", "else", "f(0)", "f(0;", "f([]", "if(0", "null", "this", "true", "'\\0'", "'\\n'", "'s',a", "( ) (", "( ) [", "()=>0", "({*1}", "({}=b", "... ;", "/[/]/", ";/**/", "[ , ]", "[0+0]", "[0,0]", "[]+=b", "[]=>x", "[a]=b", "\"a\"", "`${-1", "`${0}", "`\\n`", "a.b=b", "a:{ }", "a?0:b", "f([])", "f(a,)", "false", "for(a", "if(0)", "if(0;", "let ;", "var ;", "var a", "x = .", "x = ?", "x={[0", "x={a}", "{}+=b", "'\\\n'", "()=>-1", "()=>{}", "(a)=>x", "({[a]}", "({a,b}", "({a=1}", "({a}=b", "({get}", "({})=c", "//a\n;", "/\\//g", "09.5;;", "1e-400", "[...1]", "[...a]", "`${/=/", "`${/a/", "`${0}`", "a[b]=b", "for(a)", "for({}", "if(a);", "let a;", "var a;", "var {0", "x={*a}", "x={}=b", "( 1 , )", "( a , )", "( { a (", "([])=>x", "(async)", "({})=>x", "/*\n*/;", "[ , ] =", "[0===0]", "[a=1]=b", "a ( ) [", "async(a", "f(...a)", "f`${0}`", "for(;;)", "throw 0", "var [ ;", "var [];", "var a=0", "var {-1", "var {0;", "var {};", "x = + a", "x = new", "x={1:b}", "x={a,b}", "x={a:b}", "x={a}=b", "x={get}", "{a:(b)}", "((a))=>b", "([a])=>x", "(a in b)", "(a.b)=>b", "(a=1)=>x", "(p,a)=>x", "(void 0)", "({a(){}}", "({a})=>x", "[0]==[0]", "`${/=/}`", "`${/a/}`", "async(a)", "async\n;", "async\na", "const a;", "for(;;);", "new a\n;", "new f(a)", "throw 0;", "var [a];", "var p,a;", "var {a};", "with(a);", "x = ++ a", "x=a/b/1;", "x={'':b}", "x={if:b}", "x={}/1;;", "( { a ( (", "(...a)=>x", "([,a])=>x", "([]=1)=>b", "(a in b);", "(a[b])=>b", "({a(b){}}", "({}=1)=>b", "[ ... a ;", "a : let ;", "a:let a ;", "a:var a ;", "a||a in b", "class A{0", "class a{}", "for(1;;);", "for(;1;);", "for(;;1);", "for(a;;);", "let [ a ;", "let a , ;", "typeof(1)", "var [,a];", "var []=x;", "var {NaN;", "var {}=x;", "while(a);", "x = new )", "x = super", "x=a**(1);", "x=new(1);", "x={...a};", "x={[a]:b}", "x={a(){}}", "x={a=1}=b", "x={get a}", "x={set a}", "'\u{2028}'", "(-- a . b)", "([a=1])=>x", "([a]=1)=>b", "({a=1})=>x", "({async 1}", "({async*1}", "({a}=1)=>b", "[...a.b]=b", "`\n\r\n`;;", "async a=>x", "class A{-1", "class A{{}", "class {}{}", "const a=x;", "debugger ;", "eval = 1 ;", "if(a) else", "var [a]=x;", "var {a:b};", "var {a}=x;", "x={*1(){}}", "x={m(a){}}", "x={true:b}", "( 1 ( ) , )", "( { a ( a (", "(+ - ! ~ a)", "([...a])=>x", "(a + b - c)", "(class { })", "(new a `b`)", "({...a})=>x", "[ { ... a ;", "a ( ) [ a ]", "a:throw a ;", "async(a)=>x", "await = 1 ;", "do;while(1)", "do;while(a)", "for(;;[ ]);", "for([ ];;);", "switch(a){}", "try{} try{}", "var [,a]=x;", "var [[]]=x;", "var [{}]=x;", "var yield ;", "var {0:b}=c", "x += a in b", "x = a ( ) .", "x = new . a", "x = super (", "x = super .", "x = { set }", "x=['$',`$`]", "x=class{*1}", "x={\\u0061}", "x={async a}", "x={m([]){}}", "x={m({}){}}", "yield : a ;", "'\\u{1f600}'", "({a:[b]})=>z", "({a:{b}})=>z", "({a=1}=1)=>b", "({get a(){}}", "a:debugger ;", "do;while(a);", "f ( a in b )", "f(...a in b)", "for(a in b);", "for(a of b);", "for(this;;);", "if(a);else;;", "if(a)var a ;", "let a=1,b=1;", "var [a=1]=x;", "var {a=1}=x;", "x = `a${ }c`", "x = function", "x=delete(1);", "x={m(a=1){}}", "(a && b || c)", "[ ... a , ] ;", "[ a ++ ** b ]", "`${ a in b }`", "`a${1}b${1}c`", "`a${a}b${a}c`", "a:async ( ) ;", "a:class A { }", "a:yield : a ;", "class A { ; }", "for ( a , ) ;", "for([] in b);", "for([] of b);", "for(let a;;);", "for(var a;;);", "for({} in b);", "for({} of b);", "if(a) ; if(a)", "if(a) if(a) ;", "throw a in b;", "try{}catch{;}", "var [...a]=x;", "var {...a}=x;", "var {p:[]}=x;", "var {p:{}}=x;", "var{[1]:a}=b;", "with(a in b);", "x = ( + a , )", "x = + ( a , )", "x = a ( ) . a", "x = a ( ) `t`", "x = { async }", "x=['\n',`\n`]", "x=['\r',`\r`]", "x={get 1(){}}", "x={get a(){}}", "x={set 1(){}}", "([[a],{b}])=>b", "([{a:[b]}])=>x", "({a:b.c}=1)=>b", "a \n b \n ++ c", "async(...a)=>x", "class A{1(){}}", "class A{a(){}}", "class A{get 1}", "for(;;a in b);", "for(;a in b;);", "function a(){}", "var {p:a=1}=x;", "while(a in b);", "x = ( ++ a , )", "x = function (", "x={get ''(){}}", "x={get if(){}}", "x={set m(a){}}", "([...a.b]=1)=>b", "(a & b ^ c | d)", "(a * b / c % d)", "(function(a){})", "({a=a in b}=b);", "[ ... a , ] = ;", "[ a || b && c ]", "[ { ... a } = ;", "for(;;){break};", "for(const a;;);", "for(let a=x;;);", "for(var a=1;;);", "for(var p,a;;);", "function [](){}", "function*f(a){}", "if ( a in b ) a", "if(a) for(;;) ;", "try{}catch(a){}", "try{}finally{;}", "x = ( a * a , )", "x = a ( ... a {", "x = new super (", "x = { ... a , }", "x={async 1(){}}", "x={async*1(){}}", "'\\ud83d\\ude00'", "(a instanceof b)", "[ delete a . b ]", "a:with ( a ) b ;", "class A{[a](){}}", "do;while(a in b)", "for(let a in x);", "for(let a of b);", "for(var a in b);", "for(var a of x);", "for({a=1} of b);", "var x = a in b ;", "x = ( a => a , )", "x=function*(){;}", "x={get null(){}}", "x={get true(){}}", "'\\x00\\x1f\\x7f'", "()=>{var yield ;}", "class A{static,b}", "for ( let a , ) ;", "for(a in a in b);", "for(a of a in b);", "for(const a=x;;);", "function f(p,a){}", "switch(a){case 0;", "switch(a){case 0}", "var [a,...[b]]=x;", "var [a=a in b]=b;", "var {a=a in b}=b;", "x = a ( ... a , )", "x=()=>{return 1};", "x={a(b=1,...c){}}", "(a &= b ^= c |= d)", "a:switch ( a ) { }", "const x = a in b ;", "for ( a = a of ) ;", "function ( ) { },a", "switch(a){case 0:}", "x = { ... a in b }", "x=function f(){;};", "x={a:[b]=c,...d}=b", "x={m(a=a in b){}};", "(a /= b %= c **= d)", "(a << b >> c >>> d)", "(a [ b ] -= c *= d)", "(a)=>{'use strict'}", "class A{static(){}}", "for ( a , a ; ; ) ;", "switch(a){case b:;}", "try{}catch{}var a ;", "x=()=>{return [ ]};", "([])=>{'use strict'}", "(async a => await b)", "a:function a ( ) { }", "class A extends B{};", "switch(a){ } break }", "switch(a){default:;}", "(a < b > c <= d >= e)", "a:try { } finally { }", "async function f(){;}", "class A{static 1(){}}", "class A{static*a(){}}", "for ( let a = a , ) ;", "for ( var a = a , ) ;", "function*g(){ yield }", "function*g(){yield 1}", "function*g(){yield*1}", "switch ( a in b ) { }", "(a <<= b >>= c >>>= d)", "async()=>{var await ;}", "for(const a=a in b;;);", "function(){;}\n()=>{;}", "x = { [ a in b ] : a }", "x=()=>{return a in b};", "x=async function(){;};", "x=function(){return};;", "x={*m(){await = 1 ;}};", "x={*m(){var yield ;}};", "y:for(;;){continue y};", "'use strict';eval = 1 ;", "'use strict';var eval ;", "for ( x = a , b ; ; ) ;", "function*g(){yield [ ]}", "function*g(){yield `t`}", "if(a)function a ( ) { }", "x = ( ) => - ( a ) ** 2", "'use strict';var yield ;", "class A{constructor(){}}", "for ( let a , of ; ; ) ;", "switch(a){case 1:break};", "(a == b != c === d !== e)", "async\nfunction a ( ) { }", "class A{*constructor(){}}", "switch(a){case 1:case 1:}", "'use strict';arguments ++ ;", "[ a == b != c === d !== e ]", "function f(){new.target(1)}", "function*g(){ ( yield , ) }", "function*g(){ yield yield }", "var { x = x = a , b } = y ;", "'use strict';( eval ) => 1 ;", "class A{get constructor(){}}", "switch(a){ } { a : break a }", "function*g(){ yield * yield }", "class A{async constructor(){}}", "switch ( a ) { case a in b : }", "switch(a){ default : default }", "switch(a){ case a : default : }", "x=( a , b ) => { return c }?a:b;"], &["*", "as", "a *", "a * a", "export", "import", "default", "export {", "export }", "import *", "import a", "import {", "import ''", "import {}", "export { {", "export { }", "import '';", "import a {", "x={static}", "import null", "export * 'x'", "export { a {", "export { a }", "export { } ;", "import a 'x'", "import a , {", "import { a {", "export let a;", "export var a=x;", "export { a as }", "import { import", "export * from ''", "export default a", "export * from '';", "export const a=x;", "export { a as a {", "export { a as a }", "export { import }", "import a from 'x'", "import { a as a {", "export class A { }", "export { } from 'x'", "import a from 'b' ;", "import { } from 'x'", "import * as from 'x'", "export { a } from 'x'", "export { } from 'x' a", "import { a } from 'x'", "import * as a from 'x'", "export default class {}", "export default class a {}", "export function a ( ) { }", "import a , { b } from 'c' ;", "import a , * as b from 'c' ;", "export default ( class {} ) =>", "export default function ( ) {}"]),
        "C23" => (&["!", "(", ")", ",", "-", ".", "=", "a", "++", ".b", "! a", "( )", "( .", "- a", "...", "a (", "a )", "a ,", "a `", "a a", "a }", "a``", "new", "++ -", "++ a", "- .b", "1.b.b", "a , a", "a - a", "a().b", "a()[]", "a++()", "a++[]", "a.b++", "a.b=d", "a/d/d", "a;a=d", "a=d/*", "f(a;)", "f(if)", "x = 1", "[[].1]", "[[]/d]", "[[][b]", "a ( ${", "a()[b]", "a()`t`", "a=d//a", "a[b]++", "a[b]=d", "a`${/d", "a||1/d", "a||a.b", "f(a:b)", "{}++[]", "'😀';a=d", "(1.\nb)", "[1.\nb]", "a+(a.b)", "a=d/**/", "a\n-a/d", "let[](b", "let[]=d", "new[]()", "new[]/d", "x+=a();", "x+=a.b;", "y:{a=d}", "{}()=>d", "//a\na=d", "09.5;a=d", "a.b in d", "a\n/r/=d", "f(...a,)", "f(yield)", "f({a=1})", "if(a());", "if(a.b);", "let[b]=d", "/*\n*/a=d", "`${a`${}`", "async()++", "f ( [ , )", "f(()=>{})", "x=[,a()];", "{}([])=>d", "{}({})=>d", "'\\08';a=d", "[...1.\nb]", "[...a++.b]", "[a=a.b]=b;", "`${/r/.b}`", "a.b(yield)", "a:b:c:[]/d", "async()=>d", "async\na=d", "f(await a)", "f(class{})", "let[b,c]=d", "let[{b}]=d", "throw a.b;", "var a=a();", "with(a.b);", "x=a=>[]/d;", "x={a:a.b};", "{}(...)=>d", "{}(/r/)=>d", "{}(b=c)=>d", "{}[...b]=d", "( ( a ) , )", "( a ( ) , )", "( a . a , )", "( new a , )", "a.b(b in c)", "a:b:c:let.b", "a:b:c:new[]", "a=>d(yield)", "a`${b}${b}`", "async(1)=>a", "async(b)=>d", "for(;;a.b);", "for(;a.b;);", "for(a();;);", "for(a.b;;);", "if(1 in d);", "let[...b]=d", "while(a());", "x = class a", "x={...a.b};", "{}(...b)=>d", "{}(b=>c)=>d", "'a\\\nb';a=d", "`\n\r\n`;a=d", "a.b(await d)", "a:b:c:let..b", "async(-a)=>a", "const a=a();", "const a=a.b;", "debugger;a=d", "for(;;[]/d);", "for([]/d;;);", "var let_;a=d", "x=void(a());", "x={[a()]:a};", "x={[a.b]:a};", "x={a:1.\nb};", "x={a:a++.b};", "{}({b}=c)=>d", "{}[b in c]=d", "\u{2028}let=d", "a:b:c:async()", "async(`t`)=>a", "async(a++)=>a", "async({a})=>a", "class A{};a=d", "do;while(a())", "do;while(a.b)", "f ( [ , ] = )", "f(async a=>b)", "for(let=d;;);", "for(let[];;);", "for(new[];;);", "throw 1 in d;", "var a=1 in d;", "with(1 in d);", "x={...1.\nb};", "x={...a++.b};", "x={m(){a.b}};", "a:b:c:let\n[b]", "async(...b)=>d", "async(a`t`)=>a", "async(this)=>a", "for(1 in d;;);", "for(;1 in d;);", "for(;;1 in d);", "for(a in a());", "for(a in a.b);", "for(a of a());", "for(a of a.b);", "if(a);else;a=d", "var [a=a()]=b;", "var {a=a.b}=b;", "while(1 in d);", "x={*m(){a.b}};", "x={...1 in d};", "a:b:c:class{}.b", "async(...a,)=>a", "async([a]=b)=>a", "async(a?b:c)=>a", "async({a=1})=>a", "f ( ( ... [ , )", "f ( ( [ , ] , )", "f ( ( [ a ] , )", "try{}catch{}a=d", "var{[a()]:a}=b;", "x=([a])=>{a=d};", "x={[1 in d]:a};", "x={m(a=a()){}};", "x={m(a=a(b){}};", "async(a[a]=b)=>a", "do;while(1 in d)", "f(async()=>{}-a)", "for(let\n[b];;);", "let a=a.b,b=a.b;", "var {a=1.\nb}=b;", "var {a=a++.b}=b;", "x={*m(){new[]}};", "x={m([a]){a=d}};", "a(function(){}).b", "async(class{})=>a", "for(;;){break}a=d", "for(a in 1 in d);", "for(a of 1 in d);", "function f(){a.b}", "function*g(){a.b}", "try{}catch{}new[]", "try{}finally{a.b}", "var [a=1 in d]=b;", "var {a=1 in d}=b;", "x='\u{2028}'+1/d;", "x={get a(){a.b}};", "x={get[a()](){}};", "x={get[a.b](){}};", "x={m(a=1.\nb){}};", "( new . target , )", "class A{[a()](){}}", "try{a.b}catch(e){}", "x={*m(){yield(b}};", "x={m(a=1 in d){}};", "x={set a(b){a.b}};", "async()=>d(await d)", "const{a:[b=a()]}=c;", "f ( ( [ , ] = a , )", "f ( ( [ ... a ] , )", "for(const a=a();;);", "function f(){a.b.b}", "x=()=>{return a()};", "x=function*(){a=d};", "x={*m(){1(yield)}};", "x={async m(){a.b}};", "x={async*m(){a=d}};", "{}(function(){})=>d", "'use strict';yield()", "({a:[b],...c}=d);a=d", "async(async a=>b)=>a", "for(let[a=a()]of b);", "for(var a of b){a.b}", "for(var{a=a()}in b);", "x=()=>{return [].1};", "x=()=>{return []/d};", "x=function f(){a=d};", "'use strict';x=let.b;", "a:b:c:function(){}[b]", "class A{get m(){a.b}}", "function f(...a){a=d}", "function f({a=a()}){}", "switch(a){case 1:a.b}", "x={*m(){yield\n`t`}};", "class A extends(a()){}", "class A extends(a.b){}", "for(const a=1 in d;;);", "switch(a){case 1:[]/d}", "switch(a){default:a.b}", "var a=a(),b=a(),c=a();", "x={*m(){yield[b][c]}};", "function*g(){yield a()}", "function*g(){yield*a()}", "switch(a){case 1:new[]}", "x={get:1,set,async};a=d", "class A{static m(){a.b}}", "x=async function(){a=d};", "x=function(){return};a=d", "x={m(){return a.b in d}}", "y:for(;;){continue y}a=d", "for(var x=[{a:(a())}];;);", "function*g(){yield `t`/d}", "x=()=>{'use strict';a=d};", "switch(a){case 1:break}a=d", "function*g(){yield yield.b}", "function*g(){yield*yield()}", "switch(1 in d){case 1 in d:}", "function f(){'use strict'}a=d", "const [[a=function(){a=d}]]=c;", "for(const {a=()=>{a=d}} in b);", "async function f(a=await a++){}", "class A{constructor(){super.a}}", "const {a:{b=function(){a=d}}}=c;"], &["1(b", "1++", "1.1", "1.b", "1/d", "1=d", "1[b", "a()", "a++", "a.1", "a.b", "a=d", "a[]", "1(b}", "1**d", "1=>d", "1`${", "[]()", "[].b", "[]=d", "a(,)", "a(b)", "a.if", "a=>d", "a[b]", "a`t`", "{}.1", "{}/d", "{}[]", "'s'.b", "(a)++", "(a).b", "/r/++", "/r/.b", "1({})", "1.\nb", "1\n.b", "[a]=d", "[a][]", "`t`.b", "a(b,)", "a?d:e", "let++", "let[]", "let[b", "new.1", "new.b", "new[]", "{}(b}", "{}[b}", "(a)=>d", "1[{b}]", "1`\\u`", "a in d", "a[b,c]", "let[]}", "let[b}", "new.1}", "null.b", "this/d", "true.b", "x={}=d", "{}(b,)", "{}({})", "{}?d:e", "(a,b)++", "(a,b)/d", "1`\\01`", "1`\\x4`", "a(...b)", "a`${b}`", "async()", "async.b", "new(b,)", "super++", "super.b", "x=let/d", "yield.b", "()=>{}.b", "1({b}=c)", "import[]", "let[{b}]", "{}(...b)", "{}[...b]", "()=>{}**d", "()=>{}[]}", "a.\\u0062", "await a++", "await a.1", "class{}.b", "class{}[]", "()=>{}?d:e", "typeof a/d", "new async()", "new super.b", "with(a);a.b", "function(){}.b", "function(){}[]", "1(function(){})", "class A{m(){a.b", "class A{m(){a++}", "class A{m(){a.b}}", "async function f(){a.b}", "function f(eval,eval){}a.b"]),
        "C24" => (&["}", "(1)", "(`)", "(})", ";/*", "[1]", "[}]", "a ;", "a a", "a,1", "{;}", "{a}", "{}}", "(.5)", "-(1)", ";//a", "a[1]", "a\n;", "a\na", "a||1", "f(1)", "f(})", "x=1;", "x=a;", "'s',a", "'😀';;", "(...)", "(/r/)", "([ ])", "(a b)", "({ })", ";/**/", "[...]", "[[ ]]", "[a b]", "`a`;;", "a { }", "a+(1)", "a++;;", "a,...", "a,`t`", "a?1:b", "break", "let,a", "x+=1;", "y:{;}", "{ },a", "(0o17)", "(0x1F)", "(null)", "(this)", "(true)", "//a\n;", "09.5;;", "[...1]", "`${1}`", "`${}}`", "a in b", "eval=1", "f([ ])", "f(a b)", "if(1);", "return", "x={};}", "! ( a )", "(0b101)", "(1.5e3)", "([ , ])", "(\"t\")", "(a,b);}", "(async)", "(false)", "({ a })", "/*\n*/;", "0.5.a;;", "[a,1,b]", "a\n++ ;", "f(...1)", "t`${1}`", "x=a=>1;", "x=a=>};", "'\\08';;", "(a . if)", "(void 0)", "[...a b]", "[a=1]=b;", "`${/r/}`", "a\n, b ;", "async\n;", "async\na", "a||a = b", "continue", "f(a,1,b)", "new a\n;", "new f(1)", "throw 1;", "var a=1;", "with(a)b", "x=()=>1;", "x=(a,1);", "x=[a]=1;", "x={a:1};", "x={a}=1;", "x={}/1;;", "(( a , ))", "(a)=>{};;", "\u{2028};", "\u{2028}@", "\u{2028}a", "a\n/r/g ;", "a||a in b", "f(...a b)", "f(a in b)", "for(1;;);", "for(;1;);", "for(;;1);", "for(a;;);", "typeof(1)", "while(1);", "x=a**(1);", "x=a=>[ ];", "x=new(1);", "x={...1};", "'a\\\nb';;", "(-- a . b)", "({a=1}=b);", "`\n\r\n`;;", "a||( a , )", "const a=1;", "debugger;;", "x={[1]:a};", "x={a:a b};", "(+ - ! ~ a)", "(a + b - c)", "(async ( ))", "(class { })", "(new a `b`)", "(super . a)", "({ a = 1 })", "\u{2028}get", "a:b:c:await", "a:b:c:let ;", "a?( a , ):b", "class A{};;", "do;while(1)", "for(;;[ ]);", "for([ ];;);", "for(let;;);", "x=(a=1)=>b;", "x=[a[1]]=b;", "x={...a b};", "x={m(){;}};", "x={m(){a}};", "(a . b += c)", "[ 1 ]\n= 1 ;", "\u{2028}++ ;", "do;while(a);", "f(...a in b)", "for(a in 1);", "for(a of 1);", "for(this;;);", "if(a);else;;", "let a=1,b=1;", "switch(a){}}", "var [a=1]=b;", "var {a=1}=b;", "x=delete(1);", "x={*m(){;}};", "x={a,b:1,c};", "(/r[/]\\//gi)", "(a && b || c)", "\u{2028}= 1 ;", "\u{2028}await", "\u{2028}yield", "`a${1}b${1}c`", "a:b:c:( a ) ;", "a:b:c:async ;", "a:b:c:let a ;", "a:b:c:var a ;", "a||a . b += c", "new.target_;;", "try{}catch{};", "var{[1]:a}=b;", "x=([a])=>{;};", "x=({a=1})=>b;", "x=async a=>1;", "x=async()=>1;", "x={m(a=1){}};", "[ - a ]\n= 1 ;", "[ /r/ ]\n= 1 ;", "[ `t` ]\n= 1 ;", "[ { } ]\n= 1 ;", "\u{2028}=> 1 ;", "\u{2028}else ;", "a:b:c:return ;", "for(;;a in b);", "var [a=a b]=b;", "var {a=a b}=b;", "x=( a , )?a:b;", "x={...a in b};", "x={m([a]){;}};", "(a & b ^ c | d)", "(a * b / c % d)", "[ ... x = a ; ]", "[ a ++ ]\n= 1 ;", "[ this ]\n= 1 ;", "\u{2028}let a ;", "\u{2028}var a ;", "a:b:c:break a ;", "a:b:c:throw a ;", "class A{m(){;}}", "class A{m(){}}}", "for(;;){break};", "function f(){a}", "function*g(){a}", "let[a=`]=b,c=`;", "try{}finally{;}", "x=async(a)=>b;;", "x={[a in b]:a};", "x={get a(){;}};", "x={get a(){}};}", "x={m(a=a b){}};", "(a instanceof b)", "[ ... 1 ]\n= 1 ;", "[ ... a ]\n= 1 ;", "[ [ , ] ]\n= 1 ;", "[ a ( ) ]\n= 1 ;", "[ new a ]\n= 1 ;", "[function(){;}];", "a:b:c:debugger ;", "class A{[1](){}}", "f ( a )\n[ a ] ;", "switch ( a ) { }", "try{;}catch(e){}", "var a=1,b=1,c=1;", "x=a=>{return ;};", "x={*m(){await}};", "x={*m(){yield}};", "x={set a(b){;}};", "[ a => b ]\n= 1 ;", "[ a in b ]\n= 1 ;", "a:b:c:class A { }", "const{a:[b=1]}=c;", "for(const a=1;;);", "if ( a ) a\nyield", "try{}catch{}await", "var [a=a in b]=b;", "var {a=a in b}=b;", "x=()=>{return 1};", "x=()=>{return }};", "x=async()=>await;", "x=function*(){;};", "x={async m(){;}};", "x={async*m(){;}};", "'use strict';yield", "(a &= b ^= c |= d)", "({a:[b],...c}=d);;", "a:b:c:if ( a ) b ;", "for(let[a=1]of b);", "for(var a of b){;}", "for(var{a=1}in b);", "function ( ) { },a", "switch(1){case 1:}", "while ( a in b ) a", "x=function f(){;};", "x={*m(){yield;a}};", "x={m(a=a in b){}};", "(a ( b , ... c , ))", "(a /= b %= c **= d)", "(a << b >> c >>> d)", "(a [ b ] -= c *= d)", "\u{2028}super ( ) ;", "\u{2028}var yield ;", "\u{2028}yield * a ;", "a:b:c:with(a);yield", "class A{get m(){;}}", "f ( a )\n`${ a }` ;", "for(;;){continue ;}", "function f(...a){;}", "function f({a=1}){}", "switch(a){case 1:;}", "x = { ... x = a ; }", "x=()=>{return [ ]};", "x=async()=>await a;", "x={*m(){yield\na}};", "[ ( a , b ) ]\n= 1 ;", "[ a ? b : c ]\n= 1 ;", "[ class { } ]\n= 1 ;", "a:b:c:for(;;){yield}", "class A extends B{};", "for ( ; a in b ; ) ;", "for(x=a?b:a in b;;);", "switch(a){default:;}", "x = { ... 1 }\n= 1 ;", "x=async(a=await)=>b;", "x={*m(){yield a ;}};", "(a < b > c <= d >= e)", "[ a . b += c ]\n= 1 ;", "\u{2028}x = { get } ;", "async ( a ) => b ;\n;", "async function h(){a}", "function a ( ) { }\n;", "function f(a,b,c=1){}", "function*g(){yield*1}", "switch ( a in b ) { }", "x={get:1,set,async};;", "(a <<= b >>= c >>>= d)", "[ a && b || c ]\n= 1 ;", "`a${b}${()=>{}` ;}}c`;", "a:b:c:switch ( a ) { }", "class A{static m(){;}}", "for(const a=a in b;;);", "function(){;}\n()=>{;}", "throw new a ( b ) ;\n;", "x += -- a . b\n( a ) ;", "x = class { } / 1 ;\n;", "x=()=>{return a in b};", "x=a=>{'use strict' ;};", "x=async function(){;};", "x=function(){return};;", "x={*m(){var yield ;}};", "x={*m(){yield = 1 ;}};", "y:for(;;){continue y};", "'use strict';var eval ;", "( ( ) => { } ) ( ) ;\n;", "(a . b ( c ) [ d ] . e)", "\u{2028}x = { async } ;", "a:b:c:try{}catch{}yield", "do a ; while ( a in b )", "for ( x = a , b ; ; ) ;", "for(var x=[{a:(1)}];;);", "function*g(){yield `t`}", "switch(a){case 1:await}", "x = ( ) => - ( a ) ** 2", "x='\u{2028}'++ - ! ~ a;", "[ [ ... a , b ] ]\n= 1 ;", "switch(a){case 1:break};", "( a [ b ] -= c *= d , a )", "(a == b != c === d !== e)", "a:b:c:function*g(){yield}", "async\nfunction a ( ) { }", "for(;;){a:b:c:continue ;}", "function*g(){yield yield}", "function*g(){yield*yield}", "switch ( 1 ) { case a : }", "var { x = x = a ; } = y ;", "var {a=function(){} }}=b;", "x=async()=>{var await ;};", "[ a `b` `c${ d }` ]\n= 1 ;", "switch(a){case 1:case a :}", "var a = 1 , b , c = d ;\n;", "x=(a=1)=>{'use strict' ;};", "'use strict';arguments ++ ;", "( ( ) => { ; } , b ) => c ;", "[ function ( ) { } ]\n= 1 ;", "var { x = x = a , b } = y ;", "'use strict';( eval ) => 1 ;", ";\n;\nasync ( ) => await a ;", "a:b:c:let [a=()=>{yield}]=b;", "const [[a=function(){;}]]=c;", "if(a){;}else if(b){;}else{;}", "switch(a in b){case a in b:}", "( function ( ) { } ) ( ) ;\n;", "[ async a => await b ]\n= 1 ;", "async function f(a=await a){}", "for ( const [ a ] in b ) ;\n;", "for ( let x = a , y ; ; ; ) ;", "\u{2028}a : function b ( ) { }", "const {a:{b=function(){;}}}=c;", "a:b:c:async function h(){yield}", "switch(a){case 1:{;}default:{}}", "\u{2028}for ( [ a , b ] of c ) ;", "x=( a , b ) => { return c }?a:b;", "\u{2028}for ( const [ a ] in b ) ;", "\u{2028}if ( a ) function b ( ) { }", "\u{2028}for ( var x = a in b ; ; ) ;", "\u{2028}for ( { a , b : c } of d ) ;"], &["(let)", "(static)", "with(1);", "(eval = 1)", "export { } ; ", "import 'a' ; ", "export var a = a ;", "export default [  ]", "export default a ; ", "\u{2028}export let a ;", "a:b:c:function a ( ) { }", "export var a = await a ;", "export var a = yield a ;", "export default class { } ", "\u{2028}export class A { }", "export function f ( ) {  }", "\u{2028}export * from 'a' ;", "\u{2028}import a from 'b' ;", "export const { a = a } = b ;", "export default this \n y = a", "export var a = class A { } ;", "\u{2028}import { } from 'a' ;", "export var a = { super . a } ;", "\u{2028}import * as a from 'b' ;", "export default function ( ) {  }", "\u{2028}if ( a ) function f ( ) { }", "\u{2028}import a , { b } from 'c' ;", "\u{2028}import a , * as b from 'c' ;"]),
        _ => (&[], &[]),
    }
}
