// Development-time validation of the reference model against acorn (ecmaVersion 2019).
// usage: node acorn_diff.js cases.jsonl   (lines: [src, isModule]); needs the harness binary.
const acorn = require('/opt/veriftools/node/node_modules/acorn');
const fs = require('fs'), cp = require('child_process');
const cases = fs.readFileSync(process.argv[2], 'utf8').split('\n').filter(x => x);
const bin = __dirname + '/../harness/target/release/gcheck';
const out = cp.execFileSync(bin, ['dev-ref'], { input: cases.join('\n') + '\n', maxBuffer: 2000000000, encoding: 'utf8' }).split('\n');
function norm(n) {
  if (Array.isArray(n)) return n.map(norm);
  if (n && typeof n === 'object' && !(n instanceof RegExp)) {
    const o = {};
    for (const k of Object.keys(n)) {
      if (k === 'start' || k === 'end') continue;
      if (k === 'directive' ) { o[k] = n[k]; continue; }
      o[k] = norm(n[k]);
    }
    if (o.type === 'Literal' && o.regex) o.value = '<any>';
    return o;
  }
  return n;
}
function same(a, b) { // a: model, b: acorn
  if (a === '<any>') return true;
  if (Array.isArray(a)) return Array.isArray(b) && a.length === b.length && a.every((x, i) => same(x, b[i]));
  if (a && typeof a === 'object') {
    if (!b || typeof b !== 'object') return false;
    const ka = Object.keys(a).filter(k => !(k in b) ? (a[k] !== null && !(k==='expression'&&a[k]===false) && !(k=='id')) : true);
    for (const k of ka) if (!same(a[k], b[k])) return false;
    for (const k of Object.keys(b)) if (!(k in a)) return false;
    return true;
  }
  return Object.is(a, b) || a === b;
}
let bad = 0, n = 0, acc = 0, may = 0, unspec = 0, posn = 0;
const max = +(process.argv[3] || 40);
cases.forEach((l, i) => {
  const [src, m] = JSON.parse(l); n++;
  const r = out[i]; const k = r[0];
  if (k === 'U') { unspec++; return; }
  let t = null, e = null;
  try { t = acorn.parse(src, { ecmaVersion: 2019, sourceType: m ? 'module' : 'script' }); } catch (x) { e = x; }
  let msg = null;
  if (k === 'A') { acc++;
    if (e) msg = 'model accepts, acorn: ' + e.message;
    else if (!same(JSON.parse(r.slice(2)), norm(t))) msg = 'tree differs\n  ' + r.slice(2) + '\n  ' + JSON.stringify(norm(t)); }
  else if (k === 'M') { may++; if (!e && !same(JSON.parse(r.slice(2)), norm(t))) msg = 'tree differs (may)\n  ' + r.slice(2) + '\n  ' + JSON.stringify(norm(t)); }
  else { if (t) msg = 'model rejects, acorn accepts: ' + r;
    else { const p = JSON.parse(r.slice(2)); if (p.exact && /Unexpected token/.test(e.message)) { posn++;
        const cp = [...src.slice(0, e.pos)].length;
        if (cp !== p.pos && process.argv[4]) msg = 'pos model ' + p.pos + ' acorn ' + e.message; } } }
  if (msg && bad++ < max) console.log(JSON.stringify(l), '\n ', msg);
});
console.log({ n, acc, may, unspec, posn, bad });
