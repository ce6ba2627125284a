#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = "giron/src/parser/parser.rs"; S = "giron/src/scanner/scanner.rs"; E = "giron/src/estree/estree.rs"
SY = "giron/src/parser/syntax.rs"; CP = "giron/src/codepoint/codepoint.rs"; L = "giron/src/lib.rs"
PU = "giron/src/token/punctuators.rs"; ER = "giron/src/errors/errors.rs"; V = "giron/src/token/value.rs"
R = "giron/src/scanner/reader.rs"; W = "giron-wasm/src/lib.rs"
TESTS = ("The tests parse five fixed files and some snippets as modules and only look at success; the tree, the error "
         "and every other input stay unobserved. ")
rows = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), hook=None,
         observe=("giron::parse_script", "giron::parse_module")):
    assert len(title) <= 80, title
    rows.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext),
        why_tests_cant=TESTS + why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

prop("C01", "Every source text gets an answer: a tree or an error, never a crash or hang",
 "For every source text, parsing it as a script or as a module returns either a syntax tree or an error value. It never panics, aborts, overflows an integer, loops or grows without bound, wherever the text is cut off or corrupted (nesting so deep that it exhausts the call stack is excepted).",
 ["inputs"], "all source strings: all short character strings, all short token strings, every truncation and every single-token corruption of programs that use every construct",
 "Panics sit behind particular malformed inputs (truncated templates, odd patterns, an empty file) that no test contains.",
 [S, P, E, SY, R], [("first token and lookahead", f"{P} Parser::new"), ("scan functions stop at end of input", S), ("conversion of expressions to patterns", E)])
prop("C02", "Punctuators are split by longest match and unknown characters are errors",
 "Any run of punctuator characters is divided into tokens by the longest-match rule of the ECMAScript grammar, so that the tree and the accept/reject outcome are those of the tokens so obtained. A character that can begin no token makes the text an error; it is never skipped.",
 ["inputs"], "all strings of punctuator characters up to a length, between operands and next to other tokens, at end of input and in the middle",
 "Longest match is a statement about all adjacent character combinations; the sources show a handful.",
 [S, PU], [("scan_punctuator / scan_div_punctuator", S), ("string to punctuator tables", PU)])
prop("C03", "Identifier characters, Unicode escapes and reserved words follow the standard",
 "A name is an identifier exactly when its characters, written directly or as Unicode escapes, satisfy ID_Start/ID_Continue (plus $, _, and ZWNJ/ZWJ after the first), and the tree carries the decoded name. Reserved words are never accepted as variable names, labels or shorthand properties, even when spelled with escapes, yet every unescaped name, reserved or not, is accepted as a property name after a dot, as a property key and as an import/export name.",
 ["inputs"], "all Unicode code points in first and later position, direct and escaped; all reserved words and near-misses in every identifier position",
 "The character classes range over 1.1 million code points and the reserved-word rule over all positions.",
 [S, CP, P], [("is_identifier_start / is_identifier_continue", CP), ("is_keyword", S), ("parse_id_name, parse_binding_id, parse_id_reference", P)])
prop("C04", "String literals denote exactly the text their escapes spell",
 "The value of a string literal is the text that the ECMAScript rules give it: every simple, hexadecimal, Unicode, legacy octal and non-special escape and every line continuation is decoded exactly, and everything else is taken literally. Unterminated strings, raw line breaks (CR or LF) inside strings and malformed escapes are errors.",
 ["inputs"], "all strings over an alphabet of quotes, backslash, escape letters, digits, braces, line terminators and ordinary characters up to a length",
 "Decoding is a function on all character sequences; no test looks at a literal's value.",
 [S, CP], [("scan_string_literal and escape scanners", S), ("unescape", CP)])
prop("C05", "Numeric literals denote exactly the number they spell",
 "The value of a numeric literal (decimal with fraction and exponent, hexadecimal, binary, octal, legacy octal and leading-zero decimal) is the IEEE double nearest to the number it spells, for every length. Malformed literals, including a literal directly followed by an identifier or digit, are errors.",
 ["inputs"], "all strings over digits, dot, exponent, sign, radix letters and identifier characters up to a length, and boundary magnitudes in every radix",
 "Values are never inspected by a test, and the malformed forms never occur in the sources.",
 [S], [("scan_numeric_literal, scan_radix_literal, scan_exponent", S)])
prop("C06", "Template literals keep raw and cooked text and nest correctly",
 "A template literal yields, for each chunk, the raw text with line endings normalised to LF and the cooked text with escapes decoded, alternating with the trees of its substitutions, in source order. Braces, strings, comments, regular expressions and further templates inside a substitution never end it early; an unterminated template or malformed escape in an untagged template is an error.",
 ["inputs"], "all short character strings inside a template, and all token strings with backticks, substitutions and braces up to a depth",
 "Cooked and raw text are not inspected, and brace/substitution nesting is unbounded.",
 [S, P], [("scan_template, scan_template_substitution_tail, scan_template_char", S), ("parse_template_literal", P)],
 [("curly_stack", "which kind of brace is open", S)])
prop("C07", "A slash is a regular expression exactly where an operand is expected",
 "A slash starts a regular expression literal exactly where the grammar expects an operand, and is a division operator exactly where it follows one. The literal's pattern and flags are carried verbatim; character classes and escapes inside it do not end it, while a line break or the end of input inside it is an error.",
 ["inputs"], "all token strings mixing slashes with operands, brackets, braces, operators and keywords up to a length, and all short regular expression bodies",
 "Whether a slash divides depends on all preceding context; a wrong goal usually still parses.",
 [S, P], [("LexGoal passed to advance at every token", P), ("scan_regexp_literal", S)])
prop("C08", "White space and comments never change the tree",
 "Between two tokens, any mixture of white space, comments and (where the grammar allows one) line terminators, including none where the tokens stay separable, leaves the outcome and the tree unchanged. A comment containing a line terminator counts as one, and an unterminated block comment is an error.",
 ["inputs"], "all programs of a set covering every construct, all token gaps, all trivia strings up to a length, all white space and line terminator code points",
 "It is a statement about every gap of every program.",
 [S, CP, P], [("scan_comments", S), ("is_whitespace, is_line_terminator", CP), ("has_line_terminator", P)])
prop("C09", "Semicolons are inserted exactly where the standard says",
 "A missing semicolon is supplied exactly where ECMAScript's automatic insertion rules allow it: before a closing brace, at the end of input, after a do-while, or at a line terminator before a token that cannot continue the statement. Restricted productions (return, break, continue, throw, postfix ++/--, yield, async, arrow) honour a line terminator, including one inside a comment, and a token that merely spans several lines is not one.",
 ["inputs"], "all token strings over statement-ending and statement-starting tokens with a space or a line terminator in each gap, up to a length",
 "Every pair of adjacent tokens with and without a newline is a separate case.",
 [P, S], [("consume_semicolon", P), ("advance / has_line_terminator", P), ("return/break/continue/throw/postfix checks", P)])
prop("C10", "Operators group by ECMAScript precedence and associativity",
 "Every expression built from binary, logical, exponentiation, unary, update, conditional, assignment, comma and parenthesised operators yields the tree given by ECMAScript's precedence and associativity, with operator names and operand order preserved. In particular an unparenthesised unary operand of ** is an error, and `in` is an operator everywhere except directly in the head of a for statement.",
 ["inputs", "programs"], "all operator sequences over the whole operator set up to a number of operators, with optional prefix/postfix operators and parentheses",
 "Grouping concerns all combinations of operators; no test inspects a tree.",
 [P, SY], [("precedence_climbing, parse_exponentiation_expr, parse_unary_expr, parse_update_expr", P), ("precedence, is_bin_op", SY)])
prop("C11", "Only valid assignment targets are accepted, and patterns are converted whole",
 "The left side of an assignment, the operand of ++/-- and the target of for-in/for-of are accepted exactly when they are a variable, a property access or, for plain = and for heads, an array or object destructuring pattern all of whose leaves are such targets. An accepted pattern appears in the tree as a pattern with every element, hole, default, key, nested pattern and rest element in source order.",
 ["inputs", "programs"], "all token strings of array/object literals, parentheses, calls, members, literals and spread before =, compound assignment, ++/--, in and of, up to a length",
 "The cover grammar has one conversion per node kind and nesting; tests contain a few common ones.",
 [E, P], [("to_assignment_pattern and as_assignment_element", E), ("assign_target_type", E), ("parse_assignment_expr, parse_update_expr, parse_for_stmt", P)])
prop("C12", "Declarations and parameters bind exactly the patterns written",
 "Variable declarations, function, method and arrow parameters and catch clauses accept exactly binding identifiers and binding patterns, with defaults, holes, computed keys and a final rest element, and the tree shows each of them in source order. A destructuring declaration without initializer outside a for-in/of head, a rest element that is not last, or a non-binding target is an error.",
 ["inputs", "programs"], "all token strings of binding patterns up to a length in each binding position (var/let/const, parameters of every function form, catch, for heads)",
 "Binding positions times pattern shapes is unbounded, and arrow parameters go through a separate conversion.",
 [P, E], [("parse_obj_binding_pat, parse_arr_binding_pat, parse_formal_params", P), ("to_binding_pattern, seq_to_arrow_params, arguments_to_params", f"{E}, {P}")])
prop("C13", "Statements parse to the tree the grammar assigns",
 "Every sequence of statements (blocks, declarations, if/else, the four for forms, while, do-while, switch, try, labels, with, throw, expression and empty statements) is accepted exactly when the grammar derives it, and yields one node per statement with each part in its own field. An else belongs to the nearest if, and declarations are refused where the grammar allows only a statement.",
 ["inputs", "programs"], "all token strings over statement keywords and punctuation up to a length, and every nesting of statement forms up to a depth",
 "Only success on a few files is tested, not the structure.",
 [P], [("parse_statement, parse_stmt_list_item and one function per statement", P)])
prop("C14", "return, break and continue are accepted only where they have a target",
 "return is accepted exactly inside a function body; unlabelled break exactly inside a loop or switch, and unlabelled continue exactly inside a loop, of the same function; and a switch has at most one default. A function boundary of any form (declaration, expression, arrow, method, accessor) hides the loops and switches outside it, and those are in force again after it.",
 ["programs"], "all nestings of loops, switches, blocks, labels and every function form up to a depth, with each jump statement at each place",
 "Context flags must be right after every exit from every nested construct.",
 [P], [("Context.in_iteration / in_switch, Params.has_return", P)],
 [("ctx", "enclosing loop, switch, strictness", P), ("params", "grammar parameters", P)])
prop("C15", "Strict mode starts and ends exactly where the standard says",
 "Code is strict exactly in modules, in class definitions, and in a script or function whose directive prologue contains \"use strict\", together with everything nested in them and nothing after them. In strict code, and only there, with statements, labelled or if-clause function declarations, assigning to or binding eval or arguments, and using implements, interface, let, package, private, protected, public, static or yield as a variable name are errors. A \"use strict\" directive in a function whose parameters are not all plain names is an error.",
 ["programs"], "all nestings and sequences of function forms, classes and directive prologues up to a depth, with each strict-only restriction at each place",
 "Strictness is inherited, scoped and restored; tests contain no violation of a restriction.",
 [P, SY], [("ctx.strict saved and restored around functions and classes", P), ("parse_directive_prologues", P), ("is_strict_reserved_kw", SY)],
 [("ctx.strict", "strict code", P)])
prop("C16", "Function forms, yield and await mean what their context says",
 "Function declarations, function expressions, generators, async functions, async generators and arrow functions are accepted in every position the grammar gives them, and the tree has the right generator/async/expression flags, name, parameters and body. yield is an operator exactly in generator code and await exactly in async code; elsewhere they are ordinary identifiers unless the code is strict (yield) or a module (await). A yield or await expression in the parameters of the function whose operator it would be, or of an arrow function, is an error.",
 ["programs"], "all nestings of function forms up to a depth with yield/await/async used as operator, identifier, parameter, label and property name",
 "The meaning of the same tokens depends on the innermost function form.",
 [P, SY], [("Params.has_yield / has_await set by each function form", P), ("parse_async_primary_expr, parse_arrow_body, parse_yield_expr", P), ("is_unary_op", SY)],
 [("params_stack", "saved grammar parameters", P)])
prop("C17", "Object and class members keep their kind, key and flags",
 "Every member of an object literal or class body (shorthand, key-value, spread, method, getter, setter, generator, async and static member; with identifier, reserved-word, string, number or computed key) is accepted and appears in the tree in source order with its own key, value, kind and computed/method/shorthand/static flags. Words such as get, set, async and static are modifiers only when another key follows them, and are plain keys otherwise. A class's constructor is a plain method, and no static member is named prototype.",
 ["inputs", "programs"], "all token strings over member syntax up to a length inside object literals and class bodies",
 "Member syntax is a small language of its own; tests check only that some objects and classes parse.",
 [P, E], [("parse_object_lit_expr, parse_method_definition, parse_class_body, parse_property_name", P)])
prop("C18", "Import and export declarations are complete and only in modules",
 "Every form of import and export declaration of ECMAScript 2019 is accepted at the top level of a module, and the tree gives its kind, the local, imported and exported names each in its own field, and the source. They are errors in scripts and inside any block or function, and the root node records whether the text was parsed as script or module.",
 ["inputs", "programs"], "all token strings over import/export syntax up to a length, as module and as script, at top level and nested",
 "The module tests contain few import/export forms and do not look at the names.",
 [P, E, L], [("parse_import_dclr, parse_export_dclr and specifier parsers", P), ("parse_module / parse_script", L)])
prop("C19", "Errors point at the offending token",
 "An \"unexpected token\" error carries the line and column (both counted from 1) at which the first token that cannot continue a valid program begins, and names that token (what makes a text invalid only in hindsight, such as a \"use strict\" directive for the names and parameters before it, counts from the end of the construct). Every other error's position lies inside the source text and not after that token; lines are counted by LF, CR, CRLF, LS and PS alike, wherever they occur.",
 ["inputs"], "all invalid token strings up to a length with every kind of line break, comment, multi-line token and lookahead in front of the error",
 "No test looks at an error's position.",
 [S, P, ER], [("line and column counting in consume", S), ("save_state / restore_state", S), ("error, unexpected, error_current", P)],
 [("line, col", "current position", S)])
prop("C20", "Parsing is a pure function of the source text",
 "Parsing the same text twice gives equal results, whatever other texts were parsed before, after an error, or at the same time on other threads. Script and module parsing of one text do not influence each other.",
 ["histories", "schedules"], "all sequences of parse calls over a set of sources up to a length, and all interleavings of character-level progress of two parses",
 "Tests parse each file once in a fresh process.",
 [L, P, S], [("a fresh Parser and Scanner per call", L)])
prop("C21", "The serialised tree is complete, well-formed ESTree",
 "Every returned tree serialises to JSON, and every node in it has a standard ESTree type name with the fields ESTree requires of that type, each holding a value of the required sort. Distinct literals stay distinct: booleans, null, numbers and strings serialise to the corresponding JSON values, and a regular expression carries its pattern and flags as strings. A field that only some ESTree dialects have (each of for-in, expression of a function with a block body, directive) never contradicts the rest of the node.",
 ["inputs", "programs"], "all accepted programs of the explored spaces, each node of each tree",
 "No test serialises a tree.",
 [E, V], [("serde attributes on every node type", E), ("Value serialisation", V)])
prop("C22", "The WebAssembly bindings return the library's answer unchanged",
 "For every source text, the bindings' parseScript and parseModule return the JSON form of the tree that the library returns for that text and that goal, and on an error the debug text of that error. They never confuse the two goals, and they never fail on their own.",
 ["inputs"], "all accepted and rejected texts of a bounded space, for both entry points",
 "The bindings' only test needs a browser and does not run.",
 [W], [("parse_script / parse_module wrappers", W)], observe=("giron_wasm::parse_script", "giron_wasm::parse_module"))
prop("C23", "Calls, members, new and tagged templates chain left to right",
 "Every chain of property accesses, computed accesses, calls, tagged templates, new (with and without arguments, nested) and new.target/super forms yields the tree the grammar assigns: each step applies to everything on its left, and each new takes the nearest argument list. super.x is accepted throughout methods, super(...) throughout the constructors of classes with a heritage. Arguments, including spread and trailing commas, keep their order.",
 ["inputs", "programs"], "all token strings over chain syntax up to a length",
 "Misattributed argument lists still parse.",
 [P], [("parse_member_expr, parse_call_expr, parse_call_expr_tail, parse_new_expr, parse_arguments", P)])
prop("C24", "No parser state leaks from one construct into the next or into its surroundings",
 "The tree and outcome of a construct depend only on its own text and on the syntactic context ECMAScript makes relevant to it. Whatever constructs were opened and closed before it, beside it or around it (classes, functions of every kind, loops, for heads, templates, accessors, lookahead after async/get/set) leave no trace on it.",
 ["histories", "programs"], "all ordered pairs and triples of constructs in sequence and nested, over a set with every construct of the language",
 "State left behind shows only for particular successions of constructs.",
 [P, S], [("with_params / save_params / restore_params", P), ("ctx save and restore", P), ("save_state / restore_state / unscanned", S), ("curly_stack", S)],
 [("params, params_stack, ctx, marker_stack", "parser context", P), ("curly_stack, unscanned, state", "scanner context", S)])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in rows: f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(rows))
