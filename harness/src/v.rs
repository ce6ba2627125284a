//! Generic value tree: what both the reference model and the captured giron tree are expressed in.
use std::fmt;

#[derive(Clone, PartialEq)]
pub enum V {
    Null,
    /// Model side only: any value is acceptable here.
    Any,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<V>),
    Obj(Vec<(&'static str, V)>),
}

impl V {
    pub fn s(x: &str) -> V {
        V::Str(x.to_string())
    }
    pub fn get(&self, k: &str) -> Option<&V> {
        match self {
            V::Obj(f) => f.iter().find(|(n, _)| *n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn ty(&self) -> &str {
        match self.get("type") {
            Some(V::Str(s)) => s,
            _ => "",
        }
    }
    pub fn to_json(&self) -> String {
        let mut s = String::new();
        self.json(&mut s);
        s
    }
    fn json(&self, o: &mut String) {
        match self {
            V::Null => o.push_str("null"),
            V::Any => o.push_str("\"<any>\""),
            V::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            V::Num(n) => o.push_str(&num_json(*n)),
            V::Str(s) => o.push_str(&serde_json::to_string(s).unwrap()),
            V::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.json(o);
                }
                o.push(']');
            }
            V::Obj(f) => {
                o.push('{');
                for (i, (k, x)) in f.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str(&serde_json::to_string(k).unwrap());
                    o.push(':');
                    x.json(o);
                }
                o.push('}');
            }
        }
    }
}

fn num_json(n: f64) -> String {
    if n.is_infinite() {
        "1e999".into()
    } else {
        format!("{:?}", n)
    }
}

impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.to_json())
    }
}
