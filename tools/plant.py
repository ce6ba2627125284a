#!/usr/bin/env python3
"""Development tool: write /verif/seeded/<id>/ from planted.py and confirm each in a scratch copy.

plant.py [id...]   (all of planted.py when none is given)
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from planted import BUGS

DEMO_SH = '''#!/bin/sh
# cwd: the repository. Exit 0 when every text below gets the answer it should.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
%(extra)s
[ -f Cargo.lock ] && cp Cargo.lock "$tmp/Cargo.lock"
cat >"$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
giron = { path = "$PWD/giron" }
serde_json = { version = "1.0", features = ["unbounded_depth"] }
%(deps)sEOF
cd "$tmp" && cargo run -q --offline --target-dir "$tmp/target"
'''
WASM_EXTRA = '''cp -r "$here/wasm" "$tmp/wasm"
sed -i "s#/repo/#$PWD/#" "$tmp/wasm/giron_wasm/Cargo.toml"'''
WASM_DEPS = '''giron_wasm = { path = "wasm/giron_wasm" }
wasm-bindgen = { path = "wasm/bindgen" }
'''
RUNNER = r'''
// Each case: goal, text, answer. An answer is
//   ok            a tree
//   err           an error
//   err:LINE:COL  an error at that place
//   has:JSON      a tree whose JSON holds that text
//   same:TEXT     the answer of that other text
fn answer(goal: &str, text: &str) -> Result<String, (usize, usize)> {
    let res = match goal {
        "module" => giron::parse_module(text.to_string()),
        _ => giron::parse_script(text.to_string()),
    };
    match res {
        Ok(tree) => Ok(serde_json::to_string(&tree).unwrap()),
        Err(error) => Err((error.line, error.col)),
    }
}

fn strip_raw(json: &str) -> String {
    fn strip(v: &mut serde_json::Value) {
        match v {
            serde_json::Value::Array(a) => a.iter_mut().for_each(strip),
            serde_json::Value::Object(o) => {
                o.remove("raw");
                o.values_mut().for_each(strip)
            }
            _ => (),
        }
    }
    let mut v: serde_json::Value = serde_json::from_str(json).unwrap();
    strip(&mut v);
    v.to_string()
}

fn holds(goal: &str, text: &str, want: &str) -> bool {
    let got = answer(goal, text);
    if want == "ok" {
        got.is_ok()
    } else if want == "err" {
        got.is_err()
    } else if let Some(json) = want.strip_prefix("has:") {
        got.map_or(false, |got| got.contains(json))
    } else if let Some(place) = want.strip_prefix("err:") {
        got.map_or_else(|(line, col)| format!("{}:{}", line, col) == place, |_| false)
    } else if let Some(other) = want.strip_prefix("same:") {
        match (got, answer(goal, other)) {
            (Ok(a), Ok(b)) => strip_raw(&a) == strip_raw(&b),
            _ => false,
        }
    } else {
        panic!("{}", want)
    }
}

fn main() {
    let worker = std::thread::Builder::new().stack_size(256 << 20).spawn(|| {
        let mut bad = 0;
        for (goal, text, want) in CASES {
            if !holds(goal, text, want) {
                println!("{} {:?}: not {}", goal, text, want);
                bad += 1;
            }
        }
        bad
    });
    let worker = worker.unwrap();
    let start = std::time::Instant::now();
    while !worker.is_finished() {
        if start.elapsed().as_secs() > 20 {
            println!("no answer");
            std::process::exit(3);
        }
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
    match worker.join() {
        Ok(0) => (),
        _ => std::process::exit(1),
    }
}
'''

def rs(s):
    out = '"'
    for c in s:
        if c in '"\\': out += '\\' + c
        elif 32 <= ord(c) < 127: out += c
        else: out += '\\u{%x}' % ord(c)
    return out + '"'

def sh(cmd, cwd, timeout=600, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)

def run(bug):
    tmp = tempfile.mkdtemp(prefix='plant')
    try:
        repo = tmp + '/repo'
        sh('git clone -q /repo repo && cp /repo/Cargo.lock repo/', tmp)
        for path, old, new in bug['edits']:
            p = repo + '/' + path
            s = open(p).read()
            if s.count(old) != 1:
                return bug['id'], 'edit of %s matches %d times: %r' % (path, s.count(old), old[:60])
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', repo).stdout
        out = tmp + '/out'
        os.mkdir(out)
        open(out + '/patch.diff', 'w').write(diff)
        if 'demo' in bug:
            for name, text in bug['demo'].items():
                os.makedirs(os.path.dirname(out + '/' + name), exist_ok=True)
                open(out + '/' + name, 'w').write(text)
            extra = deps = ''
            if bug['property'] == 'C22':
                shutil.copytree(ROOT + '/harness/wasm', out + '/wasm', ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
                extra = WASM_EXTRA
                deps = WASM_DEPS
            open(out + '/demo.sh', 'w').write(DEMO_SH % {'extra': extra, 'deps': deps})
        else:
            cases = ''.join('    (%s, %s, %s),\n' % (rs(g), rs(t), rs(w)) for g, t, w in bug['cases'])
            open(out + '/demo.rs', 'w').write('const CASES: &[(&str, &str, &str)] = &[\n' + cases + '];\n' + RUNNER)
            open(out + '/demo.sh', 'w').write(DEMO_SH % {'extra': '', 'deps': ''})
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        env = dict(os.environ, CARGO_TARGET_DIR=tmp + '/target')
        t = sh('cargo test -q --offline -p giron', repo, env=env)
        if t.returncode != 0:
            return bug['id'], 'tests fail\n' + t.stdout[-600:] + t.stderr[-600:]
        d = sh('sh %s/demo.sh' % out, repo)
        if d.returncode == 0:
            return bug['id'], 'demo passes with the change'
        if 'error' in d.stderr and 'could not compile' in d.stderr:
            return bug['id'], 'demo does not compile\n' + d.stderr[-800:]
        msg = d.stdout[-300:]
        sh('git checkout -q -- .', repo)
        d = sh('sh %s/demo.sh' % out, repo)
        if d.returncode != 0:
            return bug['id'], 'demo fails on the unchanged tree\n' + d.stdout[-600:] + d.stderr[-600:]
        dest = ROOT + '/seeded/' + bug['id']
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(out, dest)
        return bug['id'], 'ok: ' + msg.strip().replace('\n', ' / ')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def main():
    bugs = [b for b in BUGS if not sys.argv[1:] or b['id'] in sys.argv[1:]]
    with ThreadPoolExecutor(4) as ex:
        for id, msg in ex.map(run, bugs):
            print(id, msg, flush=True)

main()
