'use strict';
// Change propagation: every user callback logs what it read; after each run the log is compared with
// the final values (no glitches), with an independent recomputation (nothing stale) and with the set of
// things downstream of the edits (nothing needless).
const V = require('../lib/view.cjs');
const clone = x => JSON.parse(JSON.stringify(x));

// node: {id, kind:'signal'|'data'|'scale'|'mark', deps:[], value?, rows?, source?, k}
const hash = (k, parts) => { let h = k >>> 0; for (const p of parts) for (const ch of JSON.stringify(p)) h = (Math.imul(h, 31) + ch.charCodeAt(0)) % 997; return h; };

function genNode(r, nodes, id, kind) {
  const pick = (kinds, n) => r.sample(nodes.filter(x => kinds.includes(x.kind)), n).map(x => x.id);
  if (kind === 'source') return { id, kind: 'signal', value: r.int(0, 50), deps: [] };
  if (kind === 'signal') { const deps = pick(['signal', 'data', 'scale'], r.int(1, 3)); return deps.length ? { id, kind, deps, k: r.int(1, 90) } : genNode(r, nodes, id, 'source'); }
  if (kind === 'data') {
    const src = r.bool(0.5) ? pick(['data'], 1)[0] : null;
    return { id, kind, source: src || null, rows: src ? null : genRows(r), deps: pick(['signal', 'scale'], r.int(0, 2)), k: r.int(1, 90), tr: r.pick(['map', 'filter', 'none']) };
  }
  if (kind === 'scale') return { id, kind, deps: pick(['signal', 'data'], r.int(1, 2)), k: r.int(1, 90) };
  return { id, kind: 'mark', from: pick(['data'], 1)[0] || null, deps: pick(['signal', 'data', 'scale'], r.int(0, 3)), k: r.int(1, 90), type: r.pick(['rect', 'symbol']), state: r.bool(0.3) };
}
/** what data node `n` denotes for a row: its own annotation only (transforms annotate shared rows in place) */
const proj = (n, rows) => (rows || []).map(d => (n.tr === 'map' ? { id: d.id, v: d.v, m: d['m' + n.id] } : { id: d.id, v: d.v }));
const genRows = r => r.times(r.int(0, 5), i => ({ id: i, v: r.int(0, 40) }));
const upstream = n => n.deps.concat(n.source || [], n.from || []);
function reach(nodes, from) { // ids downstream of `from` (inclusive)
  const out = new Set(from); let grew = true;
  while (grew) { grew = false; for (const n of nodes) if (!out.has(n.id) && upstream(n).some(d => out.has(d))) { out.add(n.id); grew = true; } }
  return out;
}
/** independent recomputation of every node's value */
function expected(nodes) {
  const val = {}; const by = new Map(nodes.map(n => [n.id, n]));
  const get = id => {
    if (id in val) return val[id];
    const n = by.get(id); const ins = n.deps.map(get);
    if (n.kind === 'signal') return (val[id] = n.deps.length ? hash(n.k, ins) : n.value);
    if (n.kind === 'data') {
      let rows = n.source ? get(n.source) : n.rows;
      const h = hash(n.k, ins);
      if (n.tr === 'map') rows = rows.map(d => ({ id: d.id, v: d.v, m: (d.v + h) % 97 })); else rows = rows.map(d => ({ id: d.id, v: d.v }));
      if (n.tr === 'filter') rows = rows.filter(d => (d.v + h) % 3 !== 0);
      return (val[id] = rows);
    }
    if (n.kind === 'scale') return (val[id] = [0, 1 + hash(n.k, ins)]);
    const rows = n.from ? get(n.from) : [{}];
    const h = hash(n.k, ins);
    return (val[id] = rows.map(d => ({ x: (d.v || 0) + (d.m || 0) + h, st: n.state ? h % 2 : 0 })));
  };
  nodes.forEach(n => get(n.id));
  return val;
}

async function run(c, env) {
  let nodes = clone(c.nodes);
  let log = [];
  await V.withView({}, async view => {
    const outOf = id => {
      const n = nodes.find(x => x.id === id);
      if (n.kind === 'signal') return view.getSignalById(id).output();
      if (n.kind === 'data') return proj(n, view.getDataById(id).output());
      if (n.kind === 'scale') { const s = view.getScaleById(id).output(); return s.domain(); }
      return view.getMarkById(id).elements.map(e => ({ x: e.getGraphicAttribute('x'), st: e.states.includes('s') ? 1 : 0 }));
    };
    const read = (n, p) => n.deps.map(d => {
      const k = nodes.find(x => x.id === d).kind;
      return k === 'scale' ? p[d].domain().slice() : k === 'data' ? proj(nodes.find(x => x.id === d), p[d]) : p[d];
    });
    const fn = (n, f, what) => ({ callback: (a, b, p) => { const params = p || b; const ins = read(n, params); log.push({ id: n.id, deps: n.deps.slice(), ins: clone(ins), what, key: p && b ? b.key : undefined }); return f(hash(n.k, ins), a); }, dependency: n.deps.slice() });
    const enc = n => { const f = nodes.find(x => x.id === n.from); return fn(n, (h, d) => ((d && d.v) || 0) + ((f && f.tr === 'map' && d && d['m' + f.id]) || 0) + h, 'encode'); };
    const sigUpdate = n => { const u = fn(n, h => h, 'formula'); return { callback: (o, p) => u.callback(o, undefined, p), dependency: n.deps.slice() }; };
    // the user-level function forms
    const trans = n => {
      const wrap = f => ({ callback: (d, p) => { const ins = read(n, p); log.push({ id: n.id, deps: n.deps.slice(), ins: clone(ins), what: 'row' }); return f(hash(n.k, ins), d); }, dependency: n.deps.slice() });
      if (n.tr === 'map') { const w = wrap((h, d) => (d.v + h) % 97); return [{ type: 'map', as: 'm' + n.id, callback: w.callback, dependency: w.dependency }]; }
      if (n.tr === 'filter') { const w = wrap((h, d) => (d.v + h) % 3 !== 0); return [{ type: 'filter', callback: w.callback, dependency: w.dependency }]; }
      return [];
    };
    const add = n => {
      if (n.kind === 'signal') view.signal().parse(n.deps.length ? { id: n.id, update: sigUpdate(n) } : { id: n.id, value: n.value });
      else if (n.kind === 'data') view.data().parse(Object.assign({ id: n.id, transform: trans(n) }, n.source ? { source: n.source } : { values: clone(n.rows) }));
      else if (n.kind === 'scale') {
        const d = fn(n, h => [0, 1 + h], 'domain');
        view.scale('linear').parse({ id: n.id, type: 'linear', range: [0, 100], domain: { callback: (s, p) => d.callback(s, undefined, p), dependency: n.deps.slice() } });
      } else {
        const e = enc(n);
        const spec = { id: n.id, type: n.type, encode: { update: { x: e, y: 5 }, s: { opacity: 0.3 } } };
        if (n.from) { spec.from = { data: n.from }; spec.key = 'id'; }
        if (n.state) { const s = fn(n, h => (h % 2 ? 's' : []), 'state'); spec.state = { callback: (d, el, p) => s.callback(d, el, p), dependency: n.deps.slice() }; }
        view.mark(n.type, 'root').parse(spec);
      }
    };
    nodes.forEach(add);
    const verify = (dirty, first, tag) => {
      const exp = expected(nodes);
      for (const n of nodes) {
        const got = outOf(n.id);
        env.check(V.same(got, exp[n.id]), () => `after ${tag}: ${n.kind} ${n.id} holds ${JSON.stringify(got).slice(0, 200)} but its declared inputs give ${JSON.stringify(exp[n.id]).slice(0, 200)}`);
      }
      const counts = {};
      for (const l of log) {
        env.obs('callback invocations');
        const now = l.deps.map(d => exp[d]);
        // the log holds what was read then, `exp` what the inputs are at the end of the run
        env.check(V.same(l.ins, now), () => `after ${tag}: ${l.what} of ${l.id} read ${JSON.stringify(l.ins).slice(0, 200)} but the run ended with ${JSON.stringify(now).slice(0, 200)} (glitch)`);
        const k = l.id + '/' + l.what + (l.key === undefined ? '' : '/' + l.key);
        counts[k] = (counts[k] || 0) + 1;
        if (!first) env.check(dirty.has(l.id), () => `after ${tag}: ${l.what} of ${l.id} was evaluated although nothing it depends on changed`);
      }
      env.saw('evaluation orders', log.map(l => l.id).filter((x, i, a) => x !== a[i - 1]).join());
      for (const n of nodes) {
        if (n.kind === 'signal') env.check((counts[n.id + '/formula'] || 0) <= 1, () => `after ${tag}: formula of ${n.id} evaluated ${counts[n.id + '/formula']} times in one run`);
        if (n.kind === 'scale') env.check((counts[n.id + '/domain'] || 0) <= 1, () => `after ${tag}: domain of ${n.id} evaluated ${counts[n.id + '/domain']} times in one run`);
        if (n.kind === 'data') {
          const rows = n.source ? exp[n.source].length : n.rows.length;
          env.check((counts[n.id + '/row'] || 0) <= rows, () => `after ${tag}: transform of ${n.id} saw ${counts[n.id + '/row']} rows of ${rows}`);
        }
      }
      log = [];
    };
    view.run();
    verify(null, true, 'first run');
    for (const step of c.steps) {
      const dirty = new Set();
      let idle = true;
      const apply = e => {
        env.saw('edit kinds', e.op);
        env.obs('edits');
        const n = nodes.find(x => x.id === e.id);
        if (e.op === 'add') { nodes.push(e.node); add(e.node); dirty.add(e.node.id); } else if (e.op === 'value') { const same = n.value === e.value; n.value = e.value; n.deps = []; if (e.viaSet) { const s = view.getSignalById(e.id); if (s.set(e.value)) { s.commit(); dirty.add(e.id); } else env.check(same, 'set refused a new value'); } else { view.getSignalById(e.id).value(e.value); dirty.add(e.id); } } else if (e.op === 'formula') { n.deps = e.deps; n.k = e.k; delete n.value; view.getSignalById(e.id).update(sigUpdate(n)); dirty.add(e.id); } else if (e.op === 'rows') { n.rows = e.rows; n.source = null; view.getDataById(e.id).values(clone(e.rows)); dirty.add(e.id); } else if (e.op === 'transform') { n.tr = e.tr; n.k = e.k; n.deps = e.deps; view.getDataById(e.id).transform(trans(n)); dirty.add(e.id); } else if (e.op === 'domain') { n.deps = e.deps; n.k = e.k; const d = fn(n, h => [0, 1 + h], 'domain'); view.getScaleById(e.id).domain({ callback: (s, p) => d.callback(s, undefined, p), dependency: n.deps.slice() }); dirty.add(e.id); } else if (e.op === 'encode') { n.deps = e.deps; n.k = e.k; n.state = false; view.getMarkById(e.id).state(null); view.getMarkById(e.id).elements.forEach(x => x.clearStates()); view.getMarkById(e.id).encode('x', enc(n)); dirty.add(e.id); } else if (e.op === 'removeMark') { view.removeGrammar(e.id); nodes = nodes.filter(x => x.id !== e.id); } else if (e.op === 'touch') { const g = view.getGrammarById(e.id); view.commit(g); dirty.add(e.id); }
        idle = false;
      };
      step.edits.forEach(apply);
      const closure = reach(nodes, dirty);
      const before = idle ? V.norm(nodes.map(n => outOf(n.id))) : null;
      if (step.late) {
        // edits made in the after-run callback belong to the next run
        if (![...dirty].some(id => nodes.some(x => x.id === id))) { // nothing committed: the run has nothing to finish
          view.run(); verify(closure, false, 'removal only');
          step.late.forEach(apply); const cl = reach(nodes, dirty); view.run(); verify(cl, false, 'plain late edits'); continue;
        }
        let ran = false;
        view.runAfter(() => {
          ran = true; view.runAfter(() => {});
          verify(closure, false, `run before late edits ${JSON.stringify(step)}`.slice(0, 300));
          step.late.forEach(apply);
        });
        view.run();
        env.check(ran, 'the after-run callback did not run although grammars were committed');
        env.obs('runs with edits made while the run was finishing');
        const closure2 = reach(nodes, dirty);
        view.run();
        verify(closure2, false, `run after late edits ${JSON.stringify(step)}`.slice(0, 400));
        continue;
      }
      view.run();
      if (idle) {
        env.obs('idle runs');
        env.check(log.length === 0, () => `a run with nothing changed evaluated ${log.length} callbacks: ${JSON.stringify(log[0])}`);
        env.check(V.same(before, nodes.map(n => outOf(n.id))), 'a run with nothing changed altered outputs');
      }
      verify(closure, false, JSON.stringify(step).slice(0, 400));
    }
  });
}
function gen(r, i, tier) {
  const nodes = [];
  const count = r.wpick([[4, r.int(3, 8)], [3, r.int(8, 16)], [1, r.int(16, 30)]]);
  nodes.push(genNode(r, nodes, 'n0', 'source'));
  for (let k = 1; k < count; k++) nodes.push(genNode(r, nodes, 'n' + k, r.wpick([[2, 'source'], [5, 'signal'], [3, 'data'], [2, 'scale'], [3, 'mark']])));
  const m = clone(nodes);
  let cnt = count;
  const edit = () => {
    const of = k => m.filter(n => n.kind === k);
    const safe = (id, kinds, n) => { const down = reach(m, [id]); return r.sample(m.filter(x => kinds.includes(x.kind) && !down.has(x.id)), n).map(x => x.id); };
    const opts = [
      [8, () => { const s = of('signal').filter(n => !n.deps.length); if (!s.length) return null; return { op: 'value', id: r.pick(s).id, value: r.int(0, 50), viaSet: r.bool() }; }],
      [1, () => { const s = of('signal').filter(n => n.deps.length); if (!s.length) return null; return { op: 'value', id: r.pick(s).id, value: r.int(0, 50), viaSet: false }; }],
      [3, () => { const s = r.pick(of('signal')); const deps = safe(s.id, ['signal', 'data', 'scale'], r.int(1, 3)); return deps.length ? { op: 'formula', id: s.id, deps, k: r.int(1, 90) } : null; }],
      [3, () => { const s = of('data').filter(n => !n.source); return s.length ? { op: 'rows', id: r.pick(s).id, rows: genRows(r) } : null; }],
      [2, () => { if (!of('data').length) return null; const s = r.pick(of('data')); return { op: 'transform', id: s.id, tr: r.pick(['map', 'filter']), k: r.int(1, 90), deps: safe(s.id, ['signal', 'scale'], r.int(0, 2)) }; }],
      [2, () => { if (!of('scale').length) return null; const s = r.pick(of('scale')); const deps = safe(s.id, ['signal', 'data'], r.int(1, 2)); return deps.length ? { op: 'domain', id: s.id, k: r.int(1, 90), deps } : null; }],
      [2, () => { if (!of('mark').length) return null; const s = r.pick(of('mark')); return { op: 'encode', id: s.id, k: r.int(1, 90), deps: safe(s.id, ['signal', 'data', 'scale'], r.int(0, 3)) }; }],
      [3, () => ({ op: 'add', node: genNode(r, m, 'n' + cnt++, r.wpick([[1, 'source'], [4, 'signal'], [2, 'data'], [2, 'scale'], [3, 'mark']])) })],
      [1, () => { if (!of('mark').length) return null; return { op: 'removeMark', id: r.pick(of('mark')).id }; }],
      [1, () => ({ op: 'touch', id: r.pick(m.filter(x => x.kind !== 'mark').concat(m[0])).id })]
    ];
    for (let t = 0; t < 10; t++) {
      const e = r.wpick(opts)();
      if (!e) continue;
      const n = m.find(x => x.id === e.id);
      if (e.op === 'add') m.push(clone(e.node)); else if (e.op === 'removeMark') m.splice(m.indexOf(n), 1);
      else if (e.op === 'value') { n.deps = []; n.value = e.value; } else if (e.op === 'formula' || e.op === 'domain' || e.op === 'encode' || e.op === 'transform') { n.deps = e.deps; delete n.value; if (e.op === 'transform') n.tr = e.tr; } else if (e.op === 'rows') { n.rows = e.rows; }
      return e;
    }
    return { op: 'touch', id: m[0].id };
  };
  const steps = r.times(r.int(2, 7), () => {
    if (r.bool(0.12)) return { edits: [] };
    const s = { edits: r.times(r.wpick([[4, 1], [3, 2], [1, r.int(3, 6)]]), edit) };
    if (r.bool(0.12)) s.late = r.times(r.int(1, 2), edit);
    return s;
  });
  return { nodes, steps };
}
module.exports = {
  rule: 'a case is one random dependency graph (signals, data, scales, marks) with a random edit history; distinct by content',
  assumptions: ['dependency graphs are acyclic', 'callbacks are pure functions of the dependencies they declare'],
  mustObserve: ['callback invocations', 'edits', 'idle runs', 'runs with edits made while the run was finishing'],
  scenarios: [{ name: 'graph', quick: 4000, thorough: 100000, gen, run }]
};
