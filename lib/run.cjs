'use strict';
const fs = require('fs');
const path = require('path');
const crypto = require('crypto');
const { Rng } = require('./rng.cjs');

const ROOT = path.resolve(__dirname, '..');
const id = process.argv[2];
const replayArg = process.argv.indexOf('--replay');
const replay = replayArg > 0 ? JSON.parse(fs.readFileSync(process.argv[replayArg + 1], 'utf8')) : null;
const seed = parseInt(process.env.VERIF_SEED || '1', 10) || 0;
const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const onlyArg = process.argv.indexOf('--only');
const only = onlyArg > 0 ? process.argv[onlyArg + 1] : null;
const MAX_VIOLATIONS = 5;

const WATCHED = process.env.VG_WATCHED || null;
/** this process runs the cases whose number is SHARD modulo SHARDS */
const [SHARD, SHARDS] = (process.env.VG_SHARD || '0/1').split('/').map(Number);

class Violation extends Error {}
/** the environment could not decide this case: neither a pass nor an alarm */
class Inconclusive extends Error {}

const sha = s => crypto.createHash('sha1').update(s).digest('hex').slice(0, 12);

async function main() {
  if (!/^[A-Z][0-9]{2,3}$/.test(id || '')) { console.error('usage: check.sh ID'); process.exit(3); }
  let def, vg;
  try { vg = require(process.env.VG_BUNDLE); } catch (e) {
    console.error('check error: cannot load /repo sources: ' + (e && e.stack || e));
    process.exit(3);
  }
  global.__VG__ = vg;
  def = require(path.join(ROOT, 'checks', id.toLowerCase() + '.cjs'));
  const known = JSON.parse(fs.readFileSync(path.join(ROOT, 'known-findings.json'), 'utf8')).findings
    .filter(f => f.property === id && f.status === 'open');

  const counts = {};
  const seen = new Set();
  const distinct = new Set();
  const perScenario = {};
  const samples = [];
  const violations = [];
  const knownHits = [];
  let evaluations = 0, inconclusive = 0;

  function mkEnv(sc, caseObj) {
    const env = {
      vg, tier, Violation, Inconclusive,
      nontrivial: true,
      /** measured observations of the monitors */
      obs(name, n = 1) { counts[name] = (counts[name] || 0) + n; },
      /** distinct things seen (states, orders, shapes) */
      saw(kind, key) { seen.add(kind + '\u0000' + (String(key).length > 40 ? sha(String(key)) : key)); },
      check(cond, msg, detail) { if (!cond) env.fail(typeof msg === 'function' ? msg() : msg, detail); },
      fail(msg, detail) {
        const v = new Violation(msg);
        v.detail = detail;
        throw v;
      },
      inconclusive(msg) { throw new Inconclusive(msg); }
    };
    return env;
  }

  async function runCase(sc, caseObj, origin) {
    const env = mkEnv(sc, caseObj);
    evaluations++;
    const ps = (perScenario[sc.name] = perScenario[sc.name] || { cases: 0, nontrivial: 0, inconclusive: 0, ms: 0 });
    ps.cases++;
    const ts = Date.now();
    let err = null;
    const text = JSON.stringify(caseObj);
    if (WATCHED) fs.writeFileSync(WATCHED, `{"n":${evaluations},"scenario":${JSON.stringify(sc.name)},"case":${text}}`);
    try {
      await sc.run(JSON.parse(text), env);
    } catch (e) {
      err = e;
    }
    ps.ms += Date.now() - ts;
    if (err instanceof Inconclusive) { inconclusive++; ps.inconclusive++; return null; }
    if (err && err.harness) throw err;
    if (env.nontrivial) { ps.nontrivial++; distinct.add(sha(sc.name + text)); }
    if ((ps.cases <= 1 || samples.length < 3) && samples.length < 8) samples.push({ scenario: sc.name, case: text.length > 900 ? text.slice(0, 900) + '…' : JSON.parse(text) });
    if (err) {
      return { scenario: sc.name, origin, case: JSON.parse(text), message: String(err.message || err), stack: err instanceof Violation ? undefined : String(err.stack || '').split('\n').slice(0, 8), detail: err.detail };
    }
    return null;
  }

  if (replay) { // in the worker 0 only: prints its own verdict
    const sc = def.scenarios.find(s => s.name === replay.scenario);
    const r = await runCase(sc, replay.case, 'replay');
    if (r) { console.log(JSON.stringify(r, null, 1)); console.log(`VIOLATION property=${id} replay=${process.argv[replayArg + 1]}`); process.exit(1); }
    console.log('replay: no violation'); process.exit(0);
  }

  // pinned cases: regressions of repaired defects, and recorded open findings
  for (const [n, p] of (def.pinned || []).entries()) {
    if (n % SHARDS !== SHARD) continue;
    const sc = def.scenarios.find(s => s.name === p.scenario);
    if (only && only !== sc.name) continue;
    const r = await runCase(sc, p.case, 'pinned:' + p.name);
    const k = known.find(f => f.pinned === p.name);
    if (r && k && r.message.includes(k.message)) {
      knownHits.push(k.what);
    } else if (r) violations.push(r);
  }

  const budget = (tier === 'thorough' ? def.thoroughSeconds || 600 : def.quickSeconds || 75) * 1000;
  const scs = def.scenarios.filter(s => (!only || s.name === only) && (s.quick || s.thorough));
  const totalW = scs.reduce((s, x) => s + (x.weight || 1), 0);
  for (const sc of scs) {
    const n = tier === 'thorough' ? (sc.thorough || sc.quick * 10) : sc.quick;
    const deadline = Date.now() + (budget * (sc.weight || 1)) / totalW;
    for (let i = SHARD; i < n && violations.length < MAX_VIOLATIONS; i += SHARDS) {
      if (Date.now() > deadline && i >= (sc.min || 5)) break;
      const rng = new Rng(`${seed}/${id}/${sc.name}/${i}`);
      let c;
      try { c = sc.gen(rng, i, tier); } catch (e) { e.harness = true; throw e; }
      const r = await runCase(sc, c, `${seed}/${i}`);
      if (r) violations.push(r);
    }
    if (violations.length >= MAX_VIOLATIONS) break;
  }

  fs.writeFileSync(WATCHED, '{"done":true}');
  fs.writeFileSync(process.env.VG_RESULT, JSON.stringify({
    evaluations, inconclusive, distinct: [...distinct], perScenario, samples, counts, seen: [...seen], violations, knownHits,
    rule: def.rule, assumptions: def.assumptions || [], level: def.level || 'exploration', mustObserve: only ? [] : def.mustObserve || []
  }));
  process.exit(0);
}

if (!WATCHED) require('./supervise.cjs')(id, { seed, tier, replay: !!replay }).catch(e => { console.error('check error: ' + (e && e.stack || e)); process.exit(3); });
else {
  process.on('unhandledRejection', e => { console.error('check error (unhandled rejection): ' + (e && e.stack || e)); process.exit(3); });
  main().catch(e => { console.error('check error: ' + (e && e.stack || e)); process.exit(3); });
}
