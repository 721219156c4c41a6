'use strict';
// node tools/shrink.cjs REPLAY [SECONDS]: smaller case with the same kind of violation (development aid)
const fs = require('fs'), path = require('path');
global.__VG__ = require(process.env.VG_BUNDLE || '/tmp/vg.cjs');
const file = process.argv[2], secs = +(process.argv[3] || 40);
const r = JSON.parse(fs.readFileSync(file, 'utf8'));
const def = require('../checks/' + r.property.toLowerCase() + '.cjs');
const sc = def.scenarios.find(s => s.name === r.scenario);
const LEN = +(process.env.LEN || 24);
const cls = m => String(m).replace(/"[^"]*"/g, '"').replace(/-?\d+(\.\d+)?/g, '#').replace(/\b[a-z]+\d\b/g, '#').slice(0, LEN);
class Violation extends Error {}
class Inconclusive extends Error {}
async function attempt(c) {
  const env = { vg: global.__VG__, tier: 'quick', Violation, Inconclusive, nontrivial: true, obs() { }, saw() { }, check(x, m) { if (!x) throw new Violation(typeof m === 'function' ? m() : m); }, fail(m) { throw new Violation(m); }, inconclusive(m) { throw new Inconclusive(m); } };
  try { await sc.run(JSON.parse(JSON.stringify(c)), env); return null; } catch (e) { if (e.harness || e instanceof Inconclusive) return null; return e.message; }
}
(async () => {
  console.log = ((l) => l)(console.log);
  let best = r.case;
  const base = await attempt(best);
  if (base === null) { console.log('not reproduced'); process.exit(1); }
  const want = cls(base), t0 = Date.now();
  let changed = true, lastMsg = base;
  const paths = (o, p = []) => { let out = []; if (o && typeof o === 'object') for (const k of Object.keys(o)) { out.push(p.concat(k)); out = out.concat(paths(o[k], p.concat(k))); } return out; };
  const edit = (c, p, f) => { const d = JSON.parse(JSON.stringify(c)); let o = d; for (const k of p.slice(0, -1)) { o = o[k]; if (o === undefined || o === null) return null; } const k = p[p.length - 1]; if (typeof o !== 'object' || o === null || !(k in o)) return null; f(o, k); return d; };
  const del = (o, k) => { if (Array.isArray(o)) o.splice(+k, 1); else delete o[k]; };
  const simp = (o, k) => { const v = o[k]; if (typeof v === 'number' && v !== 0 && v !== 1) o[k] = Math.abs(v) > 10 ? 10 : 1; else if (v === true) o[k] = false; else if (typeof v === 'object' && v) o[k] = null; else del(o, k); };
  while (changed && Date.now() - t0 < secs * 1000) {
    changed = false;
    for (const f of [del, simp]) for (const p of paths(best).sort((a, b) => a.length - b.length)) {
      if (Date.now() - t0 > secs * 1000) break;
      if (f === simp && p.length < 3) continue;
      if (process.env.KEEP && new RegExp(process.env.KEEP).test(p.join('.'))) continue;
      const d = edit(best, p, f);
      if (!d || JSON.stringify(d) === JSON.stringify(best)) continue;
      const m = await attempt(d);
      if (m !== null && cls(m) === want) { best = d; changed = true; lastMsg = m; }
    }
  }
  console.log(r.scenario, lastMsg);
  for (const k of Object.keys(best)) { if (Array.isArray(best[k])) { console.log(k + ':'); best[k].forEach((o, i) => console.log('  ', i, JSON.stringify(o))); } else console.log(k + ':', JSON.stringify(best[k])); }
  if (process.argv[4]) fs.writeFileSync(process.argv[4], JSON.stringify(Object.assign({}, r, { case: best })));
  process.exit(0);
})();
