mod corpus;
mod global;
mod grammar;
mod items;
mod lexical;
mod purity;
#[cfg(feature = "wasm")]
mod wasm;

use crate::engine::*;
use crate::refp::Goal::*;

pub fn run(id: &str, c: &mut Ctx) -> bool {
    match id {
        "C01" => global::c01(c),
        "C02" => lexical::c02(c),
        "C03" => lexical::c03(c),
        "C04" => lexical::c04(c),
        "C05" => lexical::c05(c),
        "C06" => lexical::c06(c),
        "C07" => lexical::c07(c),
        "C08" => lexical::c08(c),
        "C09" => grammar::c09(c),
        "C10" => grammar::c10(c),
        "C11" => grammar::c11(c),
        "C12" => grammar::c12(c),
        "C13" => grammar::c13(c),
        "C14" => grammar::c14(c),
        "C15" => grammar::c15(c),
        "C16" => grammar::c16(c),
        "C17" => grammar::c17(c),
        "C18" => grammar::c18(c),
        "C19" => global::c19(c),
        "C20" => purity::c20(c),
        "C21" => global::c21(c),
        #[cfg(feature = "wasm")]
        "C22" => wasm::c22(c),
        "C23" => grammar::c23(c),
        "C24" => global::c24(c),
        "DEV" => dev(c),
        _ => return false,
    }
    together(id, c);
    true
}

/// Texts each of which tells some faulty parser from the real one, next to each other and in every surrounding: a
/// fault that needs company to show, or a surrounding, shows here if the item's plain form would have told.
fn together(id: &str, c: &mut Ctx) {
    for (k, l) in corpus::lists(id).into_iter().enumerate() {
        let counts: Vec<usize> = (0..=c.pick(10, 20)).chain([15, 16, 17, 31, 32, 33]).chain(if c.quick() { vec![64, 65, 100, 128] } else { vec![63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257] }).collect();
        let goal = if l.module { Module } else { Script };
        let n = counts.len() * l.around.len();
        c.by_index(&format!("items that tell at every place of a list ({})", k + 1), goal, n, |i| {
            let (m, a) = (counts[i / l.around.len()], l.around[i % l.around.len()]);
            let mut v = vec![];
            for (p, plain) in l.plain.iter().enumerate() {
                if m * plain.len() > 900 {
                    continue;
                }
                let before: String = (0..m).map(|j| format!("{}{}", plain.replace('#', &j.to_string()), l.sep)).collect();
                for (t, tell) in l.tell.iter().enumerate() {
                    v.push(a.replace('@', &format!("{}{}", before, tell)));
                    if m < 6 || (m + p + t) % 3 == 0 {
                        v.push(a.replace('@', &format!("{}{}{}{}", before, tell, l.sep, plain.replace('#', "9"))));
                    }
                }
                // one plain item of another kind among them
                if m > 1 && p + 1 < l.plain.len() {
                    let other = l.plain[(p + m) % l.plain.len()].replace('#', "99");
                    v.extend(l.tell.iter().map(|t| a.replace('@', &format!("{}{}{}{}", before, other, l.sep, t))));
                }
            }
            v
        });
    }
    let pr = corpus::probes(id);
    if !pr.is_empty() {
        let (mix, k) = (corpus::mixed(), corpus::kinds());
        let n = c.pick(if id == "C24" { 7 } else { 2 }, 1);
        c.by_index("context probes below a deep nest", Script, mix.len(), |i| pr.iter().enumerate().filter(|(j, _)| (i + j) % n == 0).map(|(_, x)| mix[i].replace('@', x)).collect());
        c.by_index("context probes in three surroundings, one of each kind", Script, k.len() * k.len(), |i| {
            let o = k[i / k.len()].replace('@', k[i % k.len()]);
            let mut v = vec![];
            for (l, b) in k.iter().enumerate() {
                let x = o.replace('@', b);
                v.extend(pr.iter().enumerate().filter(|(j, _)| (i + l + j) % (n * 4) == 0).map(|(_, y)| x.replace('@', y)));
            }
            v
        });
        c.by_index("pairs of context probes in every surrounding", Script, pr.len(), |i| {
            let mut v = vec![];
            for (j, y) in pr.iter().enumerate() {
                let x = format!("{}\n{}", pr[i], y);
                v.extend(k.iter().enumerate().filter(|(l, _)| (i + l + j) % n == 0).map(|(_, z)| z.replace('@', &x)));
            }
            v
        });
    }
    let (s, m) = items::items(id);
    if s.is_empty() && m.is_empty() {
        return;
    }
    let both: Vec<&str> = s.iter().chain(m).copied().collect();
    let (st, ex) = (corpus::around_stmt(), corpus::around_expr());
    c.by_index("telling items in every surrounding", Script, s.len(), |i| {
        let mut v = vec![s[i].to_string()];
        v.extend(st.iter().chain(&ex).map(|x| x.replace('@', s[i])));
        v
    });
    c.by_index("telling items in every surrounding", Module, both.len(), |i| {
        let mut v = vec![both[i].to_string()];
        // a module is strict and knows await: one surrounding in three for what scripts have shown already
        v.extend(st.iter().chain(&ex).enumerate().filter(|(k, _)| i >= s.len() || !c.quick() || (k + i) % 3 == 0).map(|(_, x)| x.replace('@', both[i])));
        v
    });
    c.by_index("pairs of telling items", Script, s.len(), |i| s.iter().flat_map(|b| [format!("{}\n{}", s[i], b), format!("{};{}", s[i], b)]).collect());
    c.by_index("pairs of telling items", Module, both.len(), |i| both.iter().enumerate().filter(|(k, _)| !c.quick() || i >= s.len() || (k + i) % 3 == 0).map(|(_, b)| format!("{}\n{}", both[i], b)).collect());
    let k = corpus::kinds();
    let twice: Vec<String> = k.iter().flat_map(|a| k.iter().map(move |b| a.replace('@', b))).collect();
    c.by_index("telling items in two surroundings, one of each kind", Script, s.len(), |i| twice.iter().map(|x| x.replace('@', s[i])).collect());
    let n = c.pick(5, 1);
    c.by_index("telling items in two surroundings, one of each kind", Module, both.len(), |i| twice.iter().skip(i % n).step_by(n).map(|x| x.replace('@', both[i])).collect());
    let (ds, de) = (corpus::deep_stmt(), corpus::deep_expr());
    c.by_index("telling items in deep surroundings", Script, s.len(), |i| ds.iter().chain(&de).map(|x| x.replace('@', s[i])).collect());
    if !c.quick() {
        c.by_index("telling items in two surroundings", Script, s.len(), |i| {
            let mut v = vec![];
            for (k, a) in st.iter().enumerate().filter(|x| x.1.len() < 60) {
                let x = a.replace('@', s[i]);
                v.extend(st.iter().enumerate().filter(|(l, y)| (k + l + i) % 7 == 0 && y.len() < 60).map(|(_, y)| y.replace('@', &x)));
            }
            v
        });
    }
}

/// Development: explorations described in the file named by GC_DEV, one per line (fields separated by tabs).
fn dev(c: &mut Ctx) {
    let t = std::fs::read_to_string(std::env::var("GC_DEV").unwrap()).unwrap();
    for l in t.lines() {
        let f: Vec<String> = l.split('\t').map(|x| x.replace("\\n", "\n")).collect();
        let goal = if f[0] == "m" { Module } else { Script };
        let al: Vec<&str> = f[5].split(' ').filter(|x| !x.is_empty()).collect();
        let sep = if f[4] == "-" { "" } else { " " };
        c.lockstep("dev", goal, &f[1], &al, sep, &f[2], f[3].parse().unwrap());
    }
}
