'use strict';
// Bundles /repo once, deals the cases out to several worker processes and merges what their monitors observed.
// It also watches the workers: a case during which the code under test never returns, or which takes the whole process
// down, is reported as a violation like any other (a watchdog inside the process could not run).
const fs = require('fs');
const os = require('os');
const path = require('path');
const crypto = require('crypto');
const { spawn } = require('child_process');
const { bundle } = require('./bundle.cjs');
const ROOT = path.resolve(__dirname, '..');
const shm = () => { try { fs.accessSync('/dev/shm', fs.constants.W_OK); return true; } catch (e) { return false; } };
const STUCK = (parseInt(process.env.VG_STUCK || '', 10) || 120) * 1000;
const MAX_VIOLATIONS = 5;
const sha = s => crypto.createHash('sha1').update(s).digest('hex').slice(0, 12);
const cores = () => (os.availableParallelism ? os.availableParallelism() : os.cpus().length);

module.exports = async function supervise(id, { seed, tier, replay }) {
  if (!/^[A-Z][0-9]{2,3}$/.test(id || '')) { console.error('usage: check.sh ID'); process.exit(3); }
  const t0 = Date.now();
  const dir = fs.mkdtempSync(path.join(shm() ? '/dev/shm' : os.tmpdir(), 'vgwatch-'));
  process.on('exit', () => { try { fs.rmSync(dir, { recursive: true, force: true }); } catch (e) { /* scratch only */ } });
  const code = path.join(dir, 'vg.cjs');
  try { await bundle(code); } catch (e) { console.error('check error: cannot bundle /repo sources: ' + (e && e.stack || e)); process.exit(3); }

  const n = replay ? 1 : Math.max(1, Math.min(parseInt(process.env.VG_WORKERS || '', 10) || 6, cores()));
  const workers = [];
  const killAll = () => workers.forEach(w => { if (!w.over) w.child.kill('SIGKILL'); });
  for (const s of ['SIGTERM', 'SIGINT', 'SIGHUP']) process.on(s, () => { killAll(); process.exit(3); });
  const read = f => { try { return JSON.parse(fs.readFileSync(f, 'utf8')); } catch (e) { return null; } };

  const outcome = await Promise.all(Array.from({ length: n }, (_, k) => new Promise(resolve => {
    const state = path.join(dir, `case${k}.json`), result = path.join(dir, `result${k}.json`);
    const child = spawn(process.execPath, process.execArgv.concat(process.argv.slice(1)), {
      stdio: 'inherit', env: Object.assign({}, process.env, { VG_WATCHED: state, VG_RESULT: result, VG_BUNDLE: code, VG_SHARD: `${k}/${n}` })
    });
    const w = { child, over: false };
    workers.push(w);
    let last = null, since = Date.now(), stuck = false;
    const timer = setInterval(() => {
      let m = null;
      try { m = fs.statSync(state).mtimeMs; } catch (e) { /* not begun */ }
      if (m !== last) { last = m; since = Date.now(); return; }
      if (m !== null && Date.now() - since > STUCK && !(read(state) || {}).done) { stuck = true; child.kill('SIGKILL'); }
    }, 1000);
    child.on('exit', (rc, signal) => {
      clearInterval(timer);
      w.over = true;
      const c = read(state);
      const died = stuck || (rc === null ? signal !== 'SIGKILL' && signal !== 'SIGTERM' && signal !== 'SIGINT' : rc > 3);
      if (died && c && !c.done) {
        const message = stuck ? `the case was still running after ${STUCK / 1000} s` : `the case took the process down (${signal || 'exit ' + rc})`;
        resolve({ crash: { scenario: c.scenario, case: c.case, message }, n: c.n });
        if (stuck) killAll();
      } else if (rc === 0 && !replay) resolve({ result: read(result) });
      else resolve({ rc, signal });
    });
  })));

  if (replay) {
    const o = outcome[0];
    if (o.crash) { console.log(`${o.crash.scenario}: ${o.crash.message}`); console.log(`VIOLATION property=${id} replay=${process.argv[process.argv.indexOf('--replay') + 1]}`); process.exit(1); }
    process.exit(o.rc === null ? 3 : o.rc);
  }
  const crashes = outcome.filter(o => o.crash);
  const results = outcome.map(o => o.result).filter(Boolean);
  const broken = outcome.find(o => !o.crash && !o.result);
  if (broken && !crashes.length) {
    console.error('check error: a worker ' + (broken.signal ? 'was ended by ' + broken.signal : 'exited with ' + broken.rc));
    process.exit(3);
  }
  // merge
  const counts = {}, perScenario = {}, distinct = new Set(), seen = new Set(), samples = [];
  let evaluations = 0, inconclusive = 0;
  const violations = crashes.map(o => o.crash), knownHits = [];
  crashes.forEach(o => { evaluations += o.n; });
  for (const r of results) {
    evaluations += r.evaluations; inconclusive += r.inconclusive;
    r.distinct.forEach(x => distinct.add(x)); r.seen.forEach(x => seen.add(x));
    for (const k in r.counts) counts[k] = (counts[k] || 0) + r.counts[k];
    for (const k in r.perScenario) {
      const p = (perScenario[k] = perScenario[k] || { cases: 0, nontrivial: 0, inconclusive: 0, ms: 0 });
      for (const f in p) p[f] += r.perScenario[k][f];
    }
    for (const s of r.samples) if (samples.length < 8 && !(samples.length > 3 && samples.some(x => x.scenario === s.scenario))) samples.push(s);
    violations.push(...r.violations); knownHits.push(...r.knownHits);
  }
  for (const k of seen) { const kind = 'distinct ' + k.split('\u0000')[0]; counts[kind] = (counts[kind] || 0) + 1; }
  for (const k of knownHits) console.log(`KNOWN-FINDING: property=${id} ${k}`);
  violations.splice(MAX_VIOLATIONS);
  const any = results[0] || {};
  const ev = {
    property: id, tier, seed, level: any.level || 'exploration',
    coverage: {
      evaluations, distinct_nontrivial: distinct.size || evaluations, rule: any.rule || (violations[0] || {}).message || '', samples: samples.length ? samples : violations.map(v => ({ scenario: v.scenario, case: v.case })),
      inconclusive, scenarios: perScenario, observed: counts, workers: n
    },
    assumptions: any.assumptions || [],
    wall_s: Math.round((Date.now() - t0) / 100) / 10,
    violations: violations.length
  };
  fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(ROOT, 'evidence', id + '.json'), JSON.stringify(ev, null, 1));
  if (violations.length) {
    fs.mkdirSync(path.join(ROOT, 'replay'), { recursive: true });
    violations.forEach(v => {
      const f = path.join('replay', `${id}-${sha(v.scenario + JSON.stringify(v.case))}.json`);
      fs.writeFileSync(path.join(ROOT, f), JSON.stringify(Object.assign({ property: id }, v), null, 1));
      console.log(`${v.scenario}: ${v.message}` + (v.stack ? '\n  ' + v.stack.join('\n  ') : ''));
      if (v.detail !== undefined) console.log('  detail: ' + JSON.stringify(v.detail).slice(0, 1500));
      console.log(`VIOLATION property=${id} replay=${f}`);
    });
    process.exit(1);
  }
  // a monitor that never observed anything decides nothing
  const vacuous = (any.mustObserve || []).filter(k => !counts[k]);
  if (vacuous.length) { console.error('check error: nothing observed for: ' + vacuous.join(', ')); process.exit(3); }
  console.log(`OK property=${id} tier=${tier} cases=${evaluations} distinct=${distinct.size} wall=${ev.wall_s}s` + (inconclusive ? ` inconclusive=${inconclusive}` : ''));
  process.exit(0);
};
