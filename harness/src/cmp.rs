//! Comparison of a model tree with the tree giron serialised.
use crate::v::V;

/// giron keeps a parenthesised expression (and a for-initialiser) as a one-element SequenceExpression; that dialect
/// is lossless and is read through here.
pub fn peel(v: &V) -> &V {
    let mut v = v;
    loop {
        if v.ty() == "SequenceExpression" {
            if let Some(V::Arr(a)) = v.get("expressions") {
                if a.len() == 1 {
                    v = &a[0];
                    continue;
                }
            }
        }
        return v;
    }
}

/// First difference, as a path and the two values; None when giron's tree says what the model's does.
pub fn diff(m: &V, g: &V) -> Option<String> {
    let mut path = vec![];
    d(m, g, &mut path).map(|e| format!("at /{}: {}", path.iter().rev().cloned().collect::<Vec<_>>().join("/"), e))
}

fn short(v: &V) -> String {
    let s = v.to_json();
    if s.len() > 160 {
        let mut n = 160;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}…", &s[..n])
    } else {
        s
    }
}

fn d(m: &V, g: &V, path: &mut Vec<String>) -> Option<String> {
    let g = peel(g);
    match (m, g) {
        (V::Any, _) => None,
        (V::Arr(a), V::Arr(b)) => {
            for i in 0..a.len().min(b.len()) {
                if let Some(e) = d(&a[i], &b[i], path) {
                    path.push(i.to_string());
                    return Some(e);
                }
            }
            if a.len() != b.len() {
                return Some(format!("expected {} elements, got {}: {} vs {}", a.len(), b.len(), short(m), short(g)));
            }
            None
        }
        (V::Obj(f), V::Obj(h)) => {
            if m.ty() != g.ty() {
                return Some(format!("expected {} got {}", short(m), short(g)));
            }
            for (k, x) in f {
                match g.get(k) {
                    None => return Some(format!("{} lacks field {}", g.ty(), k)),
                    Some(y) => {
                        if let Some(e) = d(x, y, path) {
                            path.push(k.to_string());
                            return Some(e);
                        }
                    }
                }
            }
            for (k, _) in h {
                if (*k == "directive" || *k == "regex") && m.get(k).is_none() {
                    return Some(format!("unexpected field {}", k));
                }
            }
            None
        }
        (V::Num(a), V::Num(b)) => {
            if a == b {
                None
            } else {
                Some(format!("expected {:?} got {:?}", a, b))
            }
        }
        (a, b) => {
            if a == b {
                None
            } else {
                Some(format!("expected {} got {}", short(a), short(b)))
            }
        }
    }
}
