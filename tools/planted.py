PARSER = 'giron/src/parser/parser.rs'
SYNTAX = 'giron/src/parser/syntax.rs'
SCANNER = 'giron/src/scanner/scanner.rs'
ESTREE = 'giron/src/estree/estree.rs'
CODEPOINT = 'giron/src/codepoint/codepoint.rs'
READER = 'giron/src/scanner/reader.rs'
WASM = 'giron-wasm/src/lib.rs'
BUGS = []
# The bindings, compiled against a stand-in for wasm-bindgen, against the library.
WASM_DEMO = '''use giron_wasm as _;
use wasm_bindgen::standin::{exports, json_parse};
use wasm_bindgen::JsValue;

fn main() {
    for text in ["a", "a b", "with (a) b", "export {}", "#!a\\nb", "#!a", "import a from 'b'", "await", "'\\u{2028}'"] {
        for (name, library) in [
            ("parseScript", giron::parse_script as fn(String) -> Result<giron::EstreeNode, giron::GironError>),
            ("parseModule", giron::parse_module),
        ] {
            let want = match library(text.to_string()) {
                Ok(tree) => JsValue::Json(json_parse(&serde_json::to_string(&tree).unwrap()).unwrap()),
                Err(error) => JsValue::from(format!("{:?}", error)),
            };
            let bound = exports(name);
            assert_eq!(bound.len(), 1);
            match (bound[0])(text) {
                Ok(got) => assert!(got == want, "{} {:?}", name, text),
                Err(_) => panic!("{} {:?}", name, text),
            }
        }
    }
}
'''


def bug(id, property, edits, needs, breaks, cases=None, demo=None):
    b = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks)
    if demo: b['demo'] = demo
    else: b['cases'] = cases
    BUGS.append(b)

bug('c01-regexp-eof', 'C01',
    [(SCANNER, '''                None => break,
            }
        }
        self.expect('/')?;''', '''                None => (),
            }
        }
        self.expect('/')?;''')],
    'a regular expression cut off by the end of the text',
    'the scanner loops for ever',
    [('script', 'x = /ab[/', 'err'), ('script', '/', 'err'), ('script', 'f(/a\\/', 'err')])

bug('c02-two-dots', 'C02',
    [(SCANNER, "(Some('.'), Some('.')) => self.punc2(\"...\"),", "(Some('.'), _) => self.punc2(\"...\"),")],
    'two dots that are followed by something else than a third',
    'the character after the dots is swallowed and a spread made of it',
    [('script', 'f(..x)', 'err'), ('script', '[.. a]', 'err'), ('script', 'f(...x)', 'ok')])

bug('c03-enum', 'C03',
    [(SCANNER, '''                    || value == "with"
                    || value == "enum"''', '''                    || value == "with"''')],
    'the reserved word enum as the name of a variable',
    'a reserved word is accepted as an identifier',
    [('script', 'var enum = 1', 'err'), ('script', 'x = {enum}', 'err'), ('script', 'a.enum', 'ok')])

bug('c04-crlf-continuation', 'C04',
    [(SCANNER, '''                self.consume(); // consume "\\"
                if let (Some('\\r'), Some('\\n')) = self.peek2() {
                    self.consume(); // consume "\\r" if <CR><LF>
                }
                self.consume(); // consume line terminator''', '''                self.consume(); // consume "\\"
                self.consume(); // consume line terminator''')],
    'a line continuation in a string, in a text with CRLF line endings',
    'the LF of the line ending is taken for a raw line break',
    [('script', '"a\\\r\nb"', 'has:"value":"ab"'), ('script', '"a\\\nb"', 'has:"value":"ab"')])

bug('c05-seventeen-digits', 'C05',
    [(SCANNER, '''        value.push_str(&fractional);
        value.push_str(&self.scan_exponent()?);''', '''        // A double has at most 17 significant digits.
        value.push_str(&fractional[..fractional.len().min(17)]);
        value.push_str(&self.scan_exponent()?);''')],
    'a fraction of more than 17 digits that starts with zeros',
    'digits that count are dropped: the value is not the nearest double',
    [('script', '0.000000000000000000025', 'has:"value":2.5e-20'), ('script', '1.25', 'has:"value":1.25')])

bug('c06-cooked-v', 'C06',
    [(SCANNER, '''            | (Some('\\\\'), Some('v'))
''', '')],
    'the escape \\v in a template',
    'the cooked value has the letter instead of the control character',
    [('script', '`\\v`', 'has:"cooked":"\\u000b"'), ('script', '`a${b}\\v`', 'has:"cooked":"\\u000b"')])

bug('c07-new-target', 'C07',
    [(PARSER, 'name: self.advance(LexGoal::Div)?.value.string().unwrap(),', 'name: self.advance(LexGoal::RegExp)?.value.string().unwrap(),')],
    'a division whose left operand ends with new.target',
    'the division is taken for a regular expression',
    [('script', 'function f() { return new.target / 2 }', 'has:"operator":"/"'),
     ('script', 'function f() { new.target / a / g }', 'has:"operator":"/"')])

bug('c08-ls-comment', 'C08',
    [(SCANNER, "                Some(cp) if cp.is_line_terminator() => break,\n                Some(_) => {", "                Some('\\n') | Some('\\r') => break,\n                Some(_) => {")],
    'a line comment ended by LS or PS',
    'the rest of the text after the separator is taken for part of the comment',
    [('script', 'a // b\u2028c', 'same:a\nc'), ('script', '// b\u2029c', 'same:c'), ('script', 'a // b\nc', 'same:a\nc')])

bug('c09-throw-new', 'C09',
    [(PARSER, '''        if !self.has_line_terminator {
            let argument = Box::from''', '''        if !self.has_line_terminator || self.current.matches_str("new") {
            let argument = Box::from''')],
    'a line break between throw and new',
    'the restricted production is not honoured',
    [('script', 'throw\nnew Error()', 'err'), ('script', 'throw /*\n*/ new Error()', 'err'), ('script', 'throw new Error()', 'ok')])

bug('c10-template-in-for', 'C10',
    [(PARSER, 'expressions.push(self.with_in(true, &mut Self::parse_expression)?);', 'expressions.push(self.parse_expression()?);')],
    'the operator in, inside of a template, inside of the head of a for statement',
    'a valid text is rejected',
    [('script', 'for (x = `${a in b}`;;);', 'ok'), ('script', 'for (var x = f(`${a in b}`);;);', 'ok'), ('script', '`${a in b}`', 'ok')])

bug('c11-compound-default', 'C11',
    [(ESTREE, '''            Node::AssignmentExpression {
                operator: "=",
                left,
                right,
                span,
                ..
            } => {
                if left''', '''            Node::AssignmentExpression {
                left, right, span, ..
            } => {
                if left''')],
    'a compound assignment where a destructuring pattern has a default',
    'an invalid target is accepted and read as a default',
    [('script', '[a += 1] = b', 'err'), ('script', '({a: b *= 2} = c)', 'err'), ('script', '[a = 1] = b', 'ok')])

bug('c12-after-rest', 'C12',
    [(PARSER, '''                    res.push(parse_fn(self)?);
                    return Ok(res);
                }
                _ => {''', '''                    res.push(parse_fn(self)?);
                }
                _ => {''')],
    'elements after the rest element of an array binding pattern',
    'a rest element that is not last is accepted',
    [('script', 'var [...a, b] = c', 'err'), ('script', 'var [...a] = c', 'ok')])

bug('c13-label-item', 'C13',
    [(PARSER, '''                _ => Box::from(self.parse_statement()?),
            };
        Ok(Node::LabeledStatement''', '''                _ => Box::from(self.parse_stmt_list_item()?),
            };
        Ok(Node::LabeledStatement''')],
    'a class or lexical declaration after a label',
    'a declaration is accepted where only a statement may stand',
    [('script', 'a: class B {}', 'err'), ('script', 'a: const b = 1', 'err'), ('script', 'a: b: x', 'ok')])

bug('c14-nested-for-in', 'C14',
    [(PARSER, '''        let body = Box::from(self.parse_statement()?);
        self.ctx.in_iteration = prev_in_iteration;
        Ok(Node::ForInStatement {''', '''        let body = Box::from(self.parse_statement()?);
        self.ctx.in_iteration = prev_in_iteration && self.ctx.in_switch;
        Ok(Node::ForInStatement {''')],
    'a for-in statement nested in another loop, followed by continue or break',
    'the outer loop is forgotten after the inner one',
    [('script', 'while (a) { for (b in c) d(); if (e) continue }', 'ok'), ('script', 'for (;;) { for (b in c); break }', 'ok')])

bug('c15-strict-postfix', 'C15',
    [(PARSER, '''                if expr.assign_target_type() == "invalid" || expr.assign_target_type() == "strict" {
                    return Err(Error {''', '''                if expr.assign_target_type() == "invalid" {
                    return Err(Error {''')],
    'a postfix operator on eval or arguments in strict code',
    'strict code may change eval and arguments',
    [('script', '"use strict"; eval++', 'err'), ('module', 'arguments--', 'err'), ('script', 'eval++', 'ok')])

bug('c16-label-generator', 'C16',
    [(PARSER, '''                if !allow_generator {
                    return self.error_current(ErrorType::GeneratorInSingleStatementContext);
                }
''', '''                if !allow_generator && self.ctx.strict {
                    return self.error_current(ErrorType::GeneratorInSingleStatementContext);
                }
''')],
    'a generator declaration after a label, in code that is not strict',
    'a function form is accepted in a position the grammar does not give it',
    [('script', 'a: function* g() {}', 'err'), ('script', 'a: function g() {}', 'ok')])

bug('c17-computed-in', 'C17',
    [(PARSER, 'PropertyKey::Expression(self.with_in(true, &mut Self::parse_assignment_expr)?);', 'PropertyKey::Expression(self.parse_assignment_expr()?);')],
    'a computed key with the operator in, in the head of a for statement',
    'a valid member is rejected',
    [('script', 'for (x = {[a in b]: 1};;);', 'ok'), ('script', 'for (x = class { [a in b]() {} };;);', 'ok')])

bug('c18-default-asi', 'C18',
    [(PARSER, '''                            &mut Self::parse_assignment_expr,
                        )?;
                        self.consume_semicolon(LexGoal::RegExp)?;
''', '''                            &mut Self::parse_assignment_expr,
                        )?;
                        if self.current.matches_punc(";") {
                            self.advance(LexGoal::RegExp)?;
                        }
''')],
    'something on the line of an export default expression, after it',
    'a text that is no module is accepted',
    [('module', 'export default a b', 'err'), ('module', 'export default a\nb', 'ok'), ('module', 'export default (a) {}', 'err')])

bug('c19-ps-lines', 'C19',
    [(SCANNER, '''                self.line += 1;
                self.col = 1;
                self.newline = true;''', '''                if cp != '\\u{2029}' {
                    self.line += 1;
                    self.col = 1;
                }
                self.newline = true;''')],
    'an error after a paragraph separator',
    'the position of the error is that of another place',
    [('script', 'a\u2029b c', 'err:2:3'), ('script', 'a\u2028b c', 'err:2:3'), ('script', 'a\nb c', 'err:2:3')])

bug('c20-depth-leak', 'C20',
    [(PARSER, '''        let res = self.with_return(true, &mut Self::parse_function_body_block);
''', '''        use std::sync::atomic::{AtomicUsize, Ordering};
        static DEPTH: AtomicUsize = AtomicUsize::new(0);
        if DEPTH.fetch_add(1, Ordering::Relaxed) > 2000 {
            return self.error_current(ErrorType::InvalidOrUnexpectedToken);
        }
        let res = Ok(self.with_return(true, &mut Self::parse_function_body_block)?);
        DEPTH.fetch_sub(1, Ordering::Relaxed);
''')],
    'two thousand texts with an error inside of a function body, parsed before',
    'parsing depends on what was parsed before: every function is rejected from then on',
    demo={'demo.rs': '''fn main() {
    for _ in 0..3000 {
        assert!(giron::parse_script("function f() { ( }".to_string()).is_err());
    }
    assert!(giron::parse_script("function f() { }".to_string()).is_ok());
}
'''})

bug('c21-bare-yield', 'C21',
    [(ESTREE, '''    YieldExpression {
        argument: Option<Box<Node>>, // Expression | null''', '''    YieldExpression {
        #[serde(skip_serializing_if = "Option::is_none")]
        argument: Option<Box<Node>>, // Expression | null''')],
    'a yield without an operand',
    'the node lacks a field that ESTree requires',
    [('script', 'function* g() { yield }', 'has:"argument":null')])

bug('c22-sloppy-fallback', 'C22',
    [(WASM, '''    match giron::parse_module(source) {
        Ok(ast) => JsValue::from_serde(&ast).unwrap(),
        Err(err) =>''', '''    match giron::parse_module(source.clone()).or_else(|err| match source.starts_with("#!") {
        true => giron::parse_script(source[2..].to_string()),
        false => Err(err),
    }) {
        Ok(ast) => JsValue::from_serde(&ast).unwrap(),
        Err(err) =>''')],
    'a module text that starts with a hashbang',
    'the binding returns something else than the library, a script at that',
    demo={'demo.rs': WASM_DEMO})

bug('c23-new-super', 'C23',
    [(PARSER, '''            property: Box::from(self.with_in(true, &mut Self::parse_expression)?),
            assign_target_type: "simple",''', '''            property: Box::from(self.with_in(true, &mut Self::parse_assignment_expr)?),
            assign_target_type: "simple",''')],
    'the comma operator in a computed access',
    'a valid chain is rejected',
    [('script', 'a[b, c]', 'ok'), ('script', 'new a[b, c](d)', 'ok'), ('script', 'a[b]', 'ok')])

bug('c24-default-leak', 'C24',
    [(PARSER, '''            // declarations
            TokenType::Identifier | TokenType::Keyword if self.current.is_hoistable_dclr_kw() => {
                self.with_default(false, &mut Self::parse_hoistable_dclr)
            }''', '''            // declarations
            TokenType::Identifier | TokenType::Keyword if self.current.is_hoistable_dclr_kw() => {
                self.parse_hoistable_dclr()
            }''')],
    'a function without a name, declared inside of the function of an export default',
    'the permission to leave out the name leaks into the body',
    [('module', 'export default function () { function () {} }', 'err'),
     ('module', 'export default class { m() { function () {} } }', 'err'),
     ('module', 'export default function () { function a() {} }', 'ok')])

bug('c14-async-switch', 'C14',
    [(PARSER, '''        self.ctx.in_switch = prev_in_switch;
        Ok(Node::SwitchStatement''', '''        self.ctx.in_switch = prev_in_switch || (self.ctx.strict && self.params.has_await);
        Ok(Node::SwitchStatement''')],
    'a break after a switch, in strict code of an async function',
    'a break that has no target is accepted',
    [('script', 'async function f() { "use strict"; switch (a) { case 1: } break; }', 'err'),
     ('module', 'async function f() { switch (a) { case 1: break; } { break; } }', 'err'),
     ('script', 'async function f() { "use strict"; switch (a) { case 1: break; } }', 'ok')])

bug('c15-derived-in-case', 'C15',
    [(PARSER, '''        self.ctx.strict = prev_strict;
        Ok(Node::ClassDeclaration''', '''        self.ctx.strict = prev_strict || (self.ctx.in_switch && super_class.is_some());
        Ok(Node::ClassDeclaration''')],
    'sloppy code after a class with a superclass, both in a switch',
    'strict mode outlives the class',
    [('script', 'switch (a) { case 1: class A extends B {} with (c) ; }', 'ok'),
     ('script', 'switch (a) { case 1: class A {} with (c) ; }', 'ok')])

bug('c13-label-loop-async', 'C13',
    [(PARSER, '''                TokenType::Keyword if self.current.matches_str("function") => {
                    if self.ctx.strict {''', '''                TokenType::Keyword if self.current.matches_str("function") => {
                    if self.ctx.strict || self.params.has_await && self.ctx.in_iteration {''')],
    'a labelled function in a loop of an async function',
    'a statement of sloppy mode is rejected',
    [('script', 'async function f() { while (a) { x: function g() {} } }', 'ok'),
     ('script', 'async function f() { x: function g() {} }', 'ok')])

bug('c16-yield-in-the-deep', 'C16',
    [(PARSER, '''        self.params.has_yield = has_yield;
        let expr = parse_fn(self);''', '''        self.params.has_yield = has_yield && self.params_stack.len() < 60;
        let expr = parse_fn(self);''')],
    'a yield of a yield in a hundred levels of parentheses',
    'the inner yield is no operator',
    [('script', 'function* g() {' + '(' * 100 + 'yield yield a' + ')' * 100 + '}', 'ok'),
     ('script', 'function* g() { (yield yield a) }', 'ok')])

bug('c06-brace-word', 'C06',
    [(SCANNER, '''        value.push_str(&self.stop_recording().replace("\\r\\n", "\\n").replace('\\r', "\\n"));
        match self.peek2() {
            (Some('$'), Some('{')) => {
                self.consume();
                self.consume();
                self.curly_stack.push(Brace::Template);
            }
            (Some('`'), _) => {
                self.consume();
                tail = true;
            }
            (_, _) => return self.error(ErrorType::UnexpectedEOS),
        }
        self.token(
            TokenType::Template,
            Value::Str(value),
            None,
            None,
            Some(octal),
            Some(cooked),
            Some(false),''', '''        value.push_str(&self.stop_recording().replace("\\r\\n", "\\n").replace('\\r', "\\n"));
        match self.peek2() {
            (Some('$'), Some('{')) => {
                self.consume();
                self.consume();
                self.curly_stack.push(if self.curly_stack.len() % 32 == 31 { Brace::LBrace } else { Brace::Template });
            }
            (Some('`'), _) => {
                self.consume();
                tail = true;
            }
            (_, _) => return self.error(ErrorType::UnexpectedEOS),
        }
        self.token(
            TokenType::Template,
            Value::Str(value),
            None,
            None,
            Some(octal),
            Some(cooked),
            Some(false),''')],
    'the second substitution of a template below 31 open braces',
    'the brace that ends the substitution is taken for one of a block, and the template is rejected',
    [('script', '{' * 31 + '`${a}b${c}`' + '}' * 31, 'ok'), ('script', '`${a}b${c}`', 'ok')])

bug('c02-control-in-blocks', 'C02',
    [(SCANNER, '''            (Some(_), _) => self.scan_punctuator(),
''', '''            (Some(cp), _) if cp.is_control() && self.curly_stack.len() > 3 => {
                self.consume();
                self.next(goal)
            }
            (Some(_), _) => self.scan_punctuator(),
''')],
    'a control character in four blocks',
    'a character that begins no token is skipped',
    [('script', '{{{{ a\u0001 }}}}', 'err'), ('script', '{ a\u0001 }', 'err'), ('script', '{{{{ a }}}}', 'ok')])

bug('c24-deep-in', 'C24',
    [(PARSER, '''        self.params = self.params_stack.pop().unwrap();''', '''        let deep = self.params_stack.len() > 40;
        self.params = self.params_stack.pop().unwrap();
        self.params.has_in |= deep;''')],
    'the operator in at the head of a loop, forty functions deep, after something in brackets',
    'in is an operator where the head of a for statement does not allow it',
    [('script', 'function f(){' * 45 + 'for(a=[b]in c;;);' + '}' * 45, 'err'), ('script', 'for(a=[b]in c;;);', 'err'),
     ('script', 'function f(){' * 45 + 'for(a=[b];;);' + '}' * 45, 'ok')])

bug('c22-large-module', 'C22',
    [(WASM, '''    match giron::parse_module(source) {
        Ok(ast)''', '''    match if source.len() > 1 << 16 { giron::parse_script(source) } else { giron::parse_module(source) } {
        Ok(ast)''')],
    'a module text of more than 64 KiB',
    'the binding returns what the library says to a script',
    demo={'demo.rs': WASM_DEMO.replace('"a b",', '"a b", &"a;".repeat(40_000),', 1)})
