#!/usr/bin/env python3
"""Write harness/src/props/items.rs: for each property, the shortest texts with which its check told a faulty parser
(one fault of tools/mutagen at a time) from the real one.  usage: gen_items.py DIR, with DIR/Cxx holding lines
"fault TAB goal TAB quoted text"."""
import json, os, re, sys
d = sys.argv[1]
out = ["//! Written by tools/gen_items.py: for each property, the shortest texts that tell some faulty parser from the real one.",
       "//! They are put next to each other and into every surrounding (see mod.rs); nothing is expected of them here.", "#[rustfmt::skip]",
       "pub fn items(id: &str) -> (&'static [&'static str], &'static [&'static str]) {", "    match id {"]
for c in sorted(os.listdir(d)):
    g = {"Script": set(), "Module": set()}
    for l in open(os.path.join(d, c), encoding="utf8"):
        _, goal, t = l.rstrip("\n").split("\t", 2)
        g[goal].add(t)
    # what is an item of a script need not be one of a module, too
    g["Module"] -= g["Script"]
    f = lambda s: "&[" + ", ".join(sorted(s, key=lambda t: (len(t), t))) + "]"
    out.append(f'        "{c}" => ({f(g["Script"])}, {f(g["Module"])}),')
out += ["        _ => (&[], &[]),", "    }", "}"]
open("/verif/harness/src/props/items.rs", "w", encoding="utf8").write("\n".join(out) + "\n")
