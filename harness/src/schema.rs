//! The ESTree (ES2019) schema: every node type with its required fields and what each may hold.
use crate::cmp::peel;
use crate::v::V;

pub fn check(v: &V) -> Option<String> {
    if v.ty() != "Program" {
        return Some(format!("root is {:?}, not Program", v.ty()));
    }
    node(v).map(|m| format!("not ESTree: {}", m))
}

const EXPR: &[&str] = &[
    "ThisExpression", "ArrayExpression", "ObjectExpression", "FunctionExpression", "UnaryExpression",
    "UpdateExpression", "BinaryExpression", "AssignmentExpression", "LogicalExpression", "MemberExpression",
    "ConditionalExpression", "CallExpression", "NewExpression", "SequenceExpression", "ArrowFunctionExpression",
    "YieldExpression", "TemplateLiteral", "TaggedTemplateExpression", "ClassExpression", "MetaProperty",
    "AwaitExpression", "Identifier", "Literal",
];
const STMT: &[&str] = &[
    "ExpressionStatement", "BlockStatement", "EmptyStatement", "DebuggerStatement", "WithStatement",
    "ReturnStatement", "LabeledStatement", "BreakStatement", "ContinueStatement", "IfStatement", "SwitchStatement",
    "ThrowStatement", "TryStatement", "WhileStatement", "DoWhileStatement", "ForStatement", "ForInStatement",
    "ForOfStatement", "FunctionDeclaration", "VariableDeclaration", "ClassDeclaration",
];
const MODULE: &[&str] = &[
    "ImportDeclaration", "ExportNamedDeclaration", "ExportDefaultDeclaration", "ExportAllDeclaration",
];
const PATTERN: &[&str] = &["Identifier", "MemberExpression", "ArrayPattern", "ObjectPattern"];

fn is(v: &V, set: &[&str]) -> bool {
    set.contains(&peel(v).ty())
}
fn expr(v: &V) -> bool {
    is(v, EXPR)
}
fn stmt(v: &V) -> bool {
    STMT.contains(&v.ty())
}
fn pat(v: &V) -> bool {
    is(v, PATTERN) || v.ty() == "AssignmentPattern"
}
fn opt(v: &V, f: fn(&V) -> bool) -> bool {
    *v == V::Null || f(v)
}
fn list(v: &V, f: fn(&V) -> bool) -> bool {
    matches!(v, V::Arr(a) if a.iter().all(f))
}
fn string(v: &V) -> bool {
    matches!(v, V::Str(_))
}
fn boolean(v: &V) -> bool {
    matches!(v, V::Bool(_))
}
fn ident(v: &V) -> bool {
    v.ty() == "Identifier"
}
fn block(v: &V) -> bool {
    v.ty() == "BlockStatement"
}
fn param(v: &V) -> bool {
    pat(v) && v.ty() != "MemberExpression" || v.ty() == "RestElement"
}
fn one_of(v: &V, s: &[&str]) -> bool {
    matches!(v, V::Str(x) if s.contains(&x.as_str()))
}

type Rule = (&'static str, fn(&V) -> bool);

fn rules(t: &str) -> Option<Vec<Rule>> {
    let func: Vec<Rule> = vec![
        ("id", |v| opt(v, ident)),
        ("params", |v| list(v, param)),
        ("generator", boolean),
        ("async", boolean),
    ];
    Some(match t {
        "Program" => vec![
            ("body", |v| list(v, |x| stmt(x) || MODULE.contains(&x.ty()))),
            ("sourceType", |v| one_of(v, &["script", "module"])),
        ],
        "Identifier" => vec![("name", string)],
        "Literal" => vec![
            ("value", |v| matches!(v, V::Null | V::Bool(_) | V::Num(_) | V::Str(_) | V::Obj(_))),
            ("raw", string),
        ],
        "ExpressionStatement" => vec![("expression", expr)],
        "BlockStatement" => vec![("body", |v| list(v, stmt))],
        "EmptyStatement" | "DebuggerStatement" | "ThisExpression" | "Super" => vec![],
        "WithStatement" => vec![("object", expr), ("body", stmt)],
        "ReturnStatement" => vec![("argument", |v| opt(v, expr))],
        "LabeledStatement" => vec![("label", ident), ("body", stmt)],
        "BreakStatement" | "ContinueStatement" => vec![("label", |v| opt(v, ident))],
        "IfStatement" => vec![("test", expr), ("consequent", stmt), ("alternate", |v| opt(v, stmt))],
        "SwitchStatement" => {
            vec![("discriminant", expr), ("cases", |v| list(v, |x| x.ty() == "SwitchCase"))]
        }
        "SwitchCase" => vec![("test", |v| opt(v, expr)), ("consequent", |v| list(v, stmt))],
        "ThrowStatement" => vec![("argument", expr)],
        "TryStatement" => vec![
            ("block", block),
            ("handler", |v| opt(v, |x| x.ty() == "CatchClause")),
            ("finalizer", |v| opt(v, block)),
        ],
        "CatchClause" => vec![("param", |v| opt(v, |x| param(x) && x.ty() != "RestElement")), ("body", block)],
        "WhileStatement" => vec![("test", expr), ("body", stmt)],
        "DoWhileStatement" => vec![("body", stmt), ("test", expr)],
        "ForStatement" => vec![
            ("init", |v| opt(v, |x| expr(x) || x.ty() == "VariableDeclaration")),
            ("test", |v| opt(v, expr)),
            ("update", |v| opt(v, expr)),
            ("body", stmt),
        ],
        "ForInStatement" => {
            vec![("left", |v| pat(v) || v.ty() == "VariableDeclaration"), ("right", expr), ("body", stmt)]
        }
        "ForOfStatement" => vec![
            ("left", |v| pat(v) || v.ty() == "VariableDeclaration"),
            ("right", expr),
            ("body", stmt),
            ("await", boolean),
        ],
        "FunctionDeclaration" => {
            let mut r = func;
            r.push(("body", block));
            r
        }
        "FunctionExpression" => {
            let mut r = func;
            r.push(("body", block));
            r
        }
        "ArrowFunctionExpression" => {
            let mut r = func;
            r.push(("body", |v| block(v) || expr(v)));
            r.push(("expression", boolean));
            r
        }
        "VariableDeclaration" => vec![
            ("declarations", |v| list(v, |x| x.ty() == "VariableDeclarator")),
            ("kind", |v| one_of(v, &["var", "let", "const"])),
        ],
        "VariableDeclarator" => vec![("id", |v| param(v) && v.ty() != "RestElement"), ("init", |v| opt(v, expr))],
        "ArrayExpression" => vec![("elements", |v| list(v, |x| opt(x, |y| expr(y) || y.ty() == "SpreadElement")))],
        "ObjectExpression" => {
            vec![("properties", |v| list(v, |x| x.ty() == "Property" || x.ty() == "SpreadElement"))]
        }
        "Property" => vec![
            ("key", expr),
            ("value", |v| expr(v) || pat(v)),
            ("kind", |v| one_of(v, &["init", "get", "set"])),
            ("method", boolean),
            ("shorthand", boolean),
            ("computed", boolean),
        ],
        "SpreadElement" => vec![("argument", expr)],
        "RestElement" => vec![("argument", pat)],
        "UnaryExpression" => vec![
            ("operator", |v| one_of(v, &["-", "+", "!", "~", "typeof", "void", "delete"])),
            ("prefix", |v| *v == V::Bool(true)),
            ("argument", expr),
        ],
        "UpdateExpression" => {
            vec![("operator", |v| one_of(v, &["++", "--"])), ("argument", expr), ("prefix", boolean)]
        }
        "BinaryExpression" => vec![
            ("operator", |v| {
                one_of(
                    v,
                    &[
                        "==", "!=", "===", "!==", "<", "<=", ">", ">=", "<<", ">>", ">>>", "+", "-", "*", "/", "%",
                        "**", "|", "^", "&", "in", "instanceof",
                    ],
                )
            }),
            ("left", expr),
            ("right", expr),
        ],
        "LogicalExpression" => {
            vec![("operator", |v| one_of(v, &["||", "&&"])), ("left", expr), ("right", expr)]
        }
        "AssignmentExpression" => vec![
            ("operator", |v| {
                one_of(
                    v,
                    &["=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "|=", "^=", "&="],
                )
            }),
            ("left", |v| is(v, PATTERN)),
            ("right", expr),
        ],
        "MemberExpression" => vec![
            ("object", |v| expr(v) || v.ty() == "Super"),
            ("property", expr),
            ("computed", boolean),
        ],
        "ConditionalExpression" => vec![("test", expr), ("consequent", expr), ("alternate", expr)],
        "CallExpression" => vec![
            ("callee", |v| expr(v) || v.ty() == "Super"),
            ("arguments", |v| list(v, |x| expr(x) || x.ty() == "SpreadElement")),
        ],
        "NewExpression" => vec![
            ("callee", expr),
            ("arguments", |v| list(v, |x| expr(x) || x.ty() == "SpreadElement")),
        ],
        "SequenceExpression" => vec![("expressions", |v| list(v, expr))],
        "YieldExpression" => vec![("argument", |v| opt(v, expr)), ("delegate", boolean)],
        "AwaitExpression" => vec![("argument", expr)],
        "TemplateLiteral" => vec![
            ("quasis", |v| list(v, |x| x.ty() == "TemplateElement")),
            ("expressions", |v| list(v, expr)),
        ],
        "TaggedTemplateExpression" => vec![("tag", expr), ("quasi", |v| v.ty() == "TemplateLiteral")],
        "TemplateElement" => vec![
            ("tail", boolean),
            ("value", |v| {
                matches!((v.get("cooked"), v.get("raw")),
                    (Some(V::Str(_)), Some(V::Str(_))) | (Some(V::Null), Some(V::Str(_))))
            }),
        ],
        "ObjectPattern" => vec![("properties", |v| {
            list(v, |x| {
                x.ty() == "RestElement"
                    || x.ty() == "Property"
                        && x.get("kind") == Some(&V::s("init"))
                        && x.get("method") == Some(&V::Bool(false))
                        && x.get("value").map_or(false, pat)
            })
        })],
        "ArrayPattern" => vec![("elements", |v| list(v, |x| opt(x, |y| pat(y) || y.ty() == "RestElement")))],
        "AssignmentPattern" => vec![("left", |v| is(v, PATTERN)), ("right", expr)],
        "ClassDeclaration" | "ClassExpression" => vec![
            ("id", |v| opt(v, ident)),
            ("superClass", |v| opt(v, expr)),
            ("body", |v| v.ty() == "ClassBody"),
        ],
        "ClassBody" => vec![("body", |v| list(v, |x| x.ty() == "MethodDefinition"))],
        "MethodDefinition" => vec![
            ("key", expr),
            ("value", |v| v.ty() == "FunctionExpression"),
            ("kind", |v| one_of(v, &["constructor", "method", "get", "set"])),
            ("computed", boolean),
            ("static", boolean),
        ],
        "MetaProperty" => vec![("meta", ident), ("property", ident)],
        "ImportDeclaration" => vec![
            ("specifiers", |v| {
                list(v, |x| is(x, &["ImportSpecifier", "ImportDefaultSpecifier", "ImportNamespaceSpecifier"]))
            }),
            ("source", |v| matches!(v.get("value"), Some(V::Str(_)))),
        ],
        "ImportSpecifier" => vec![("imported", ident), ("local", ident)],
        "ImportDefaultSpecifier" | "ImportNamespaceSpecifier" => vec![("local", ident)],
        "ExportNamedDeclaration" => vec![
            ("declaration", |v| {
                opt(v, |x| is(x, &["FunctionDeclaration", "ClassDeclaration", "VariableDeclaration"]))
            }),
            ("specifiers", |v| list(v, |x| x.ty() == "ExportSpecifier")),
            ("source", |v| opt(v, |x| x.ty() == "Literal")),
        ],
        "ExportSpecifier" => vec![("exported", ident), ("local", ident)],
        "ExportDefaultDeclaration" => {
            vec![("declaration", |v| expr(v) || is(v, &["FunctionDeclaration", "ClassDeclaration"]))]
        }
        "ExportAllDeclaration" => vec![("source", |v| v.ty() == "Literal")],
        _ => return None,
    })
}

fn node(v: &V) -> Option<String> {
    let t = v.ty();
    let r = match rules(t) {
        Some(r) => r,
        None => return Some(format!("unknown node type {:?}", t)),
    };
    for (k, f) in &r {
        match v.get(k) {
            None => return Some(format!("{} lacks {}", t, k)),
            Some(x) => {
                if !f(x) {
                    return Some(format!("{}.{} holds {}", t, k, crate::engine::cut(&x.to_json(), 120)));
                }
            }
        }
    }
    if t == "Literal" {
        if let Some(re) = v.get("regex") {
            match (re.get("pattern"), re.get("flags")) {
                (Some(V::Str(_)), Some(V::Str(_))) => {}
                _ => return Some(format!("Literal.regex holds {}", re.to_json())),
            }
        }
    }
    // fields of older ESTree dialects need not be there; where they are, they say what the tree says
    for (ty, k) in [("ForInStatement", "each"), ("FunctionDeclaration", "expression"), ("FunctionExpression", "expression")] {
        if t == ty && !matches!(v.get(k), None | Some(V::Bool(false))) {
            return Some(format!("{}.{} is not false", t, k));
        }
    }
    if t == "ExpressionStatement" {
        if let Some(x) = v.get("directive") {
            let lit = v.get("expression").map_or(false, |e| e.ty() == "Literal" && matches!(e.get("value"), Some(V::Str(_))));
            if !lit || !matches!(x, V::Str(_)) {
                return Some("ExpressionStatement.directive on what is no string literal".into());
            }
        }
    }
    if t == "ArrowFunctionExpression" {
        let b = v.get("body").map_or(false, block);
        if v.get("expression") != Some(&V::Bool(!b)) {
            return Some("ArrowFunctionExpression.expression contradicts its body".into());
        }
    }
    if t == "TemplateLiteral" {
        if let (Some(V::Arr(q)), Some(V::Arr(e))) = (v.get("quasis"), v.get("expressions")) {
            if q.len() != e.len() + 1 {
                return Some("TemplateLiteral has the wrong number of quasis".into());
            }
            for (i, x) in q.iter().enumerate() {
                if x.get("tail") != Some(&V::Bool(i + 1 == q.len())) {
                    return Some("TemplateElement.tail is wrong".into());
                }
            }
        }
    }
    if let V::Obj(f) = v {
        for (k, x) in f {
            if *k == "type" || (t == "Literal" && (*k == "value" || *k == "regex")) {
                continue;
            }
            if t == "TemplateElement" && *k == "value" {
                continue;
            }
            match x {
                V::Obj(_) if x.get("type").is_some() => {
                    if let Some(m) = node(x) {
                        return Some(m);
                    }
                }
                V::Obj(_) => return Some(format!("{}.{} is an object without a type", t, k)),
                V::Arr(a) => {
                    for y in a {
                        if let V::Obj(_) = y {
                            if let Some(m) = node(y) {
                                return Some(m);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    None
}
