'use strict';
// Element states: a small state-machine model (active states in order, run-time state attributes, base
// channels) is stepped beside live elements; after every operation each graphic must equal the base
// encoding overlaid with the active states, and nothing else.
const V = require('../lib/view.cjs');
const E = require('../lib/encref.cjs');
const clone = x => JSON.parse(JSON.stringify(x));
const NAMES = ['hover', 'sel', 'dim', 'extra'];
const ORDER = { hover: 2, sel: 0, dim: 1, extra: 3, ghost: 4 };
const sorter = (a, b) => ORDER[a] - ORDER[b];
const COLL = ['line', 'area'];
const fo = o => { if (o.fillOpacity === undefined) o.fillOpacity = 1; return V.norm(o); }; // an absent fill opacity is 1

async function run(c, env) {
  await V.withView({}, async view => {
    let rows = clone(c.rows);
    const sig = E.declare(view, clone(rows));
    view.signal(c.thr).id('thr');
    let thr = c.thr;
    const coll = COLL.includes(c.type);
    const mark = view.mark(c.type, view.rootMark).id('m');
    mark.join('d', 'k', undefined, coll ? 'g' : undefined);
    const update = clone(c.update), enc = clone(c.states);
    mark.encode(E.toSet(update));
    for (const s of Object.keys(enc)) mark.encodeState(s, enc[s].$proxy ? (d, el, name, all) => { env.obs('state functions called'); env.check(name === s && Array.isArray(all), 'a state function received the wrong state name'); return E.valueSet(enc[s].$proxy, Array.isArray(d) ? d[0] : d, sig); } : E.toSet(enc[s]));
    const stateSpec = c.spec ? { callback: (d, el, p) => { const x = Array.isArray(d) ? d[0] : d; return x.v >= p.thr ? c.spec.slice() : []; }, dependency: ['thr'] } : undefined;
    if (c.spec || c.sorted) mark.state(stateSpec, c.sorted ? sorter : undefined);
    const sortStates = s => (c.sorted ? s.slice().sort(sorter) : s);
    const model = new Map(); // id -> {base, states, runtime, row(s)}
    const idOf = d => (coll ? d.g : d.k);
    const elements = () => new Map(mark.elements.map(e => [coll ? e.groupKey : e.key, e]));
    const expected = m => {
      const ch = Object.assign({}, m.base);
      m.states.forEach(s => {
        const a = {};
        if (enc[s] && !(enc[s].$proxy && m.runtime[s])) Object.assign(a, E.valueSet(enc[s].$proxy ? enc[s].$proxy : enc[s], m.rows[0], sig));
        if (m.runtime[s]) Object.assign(a, E.valueSet(m.runtime[s], m.rows[0], sig));
        Object.assign(ch, a);
      });
      return ch;
    };
    const verify = tag => {
      const els = elements();
      env.check(els.size === model.size, `${tag}: ${els.size} elements, expected ${model.size}`);
      model.forEach((m, id) => {
        const el = els.get(id);
        env.check(!!el, `${tag}: no element ${id}`);
        env.check(V.same(el.states, m.states), () => `${tag}: ${id} has states ${JSON.stringify(el.states)}, expected ${JSON.stringify(m.states)}`);
        env.check(V.same(el.getStates(), m.states) && NAMES.every(s => el.hasState(s) === m.states.includes(s)), `${tag}: hasState/getStates disagree with the active states of ${id}`);
        env.obs('elements compared'); env.saw('state combinations', m.states.join('+'));
        const exp = expected(m);
        const A = el.getGraphicItem().attribute;
        if (coll) {
          for (const k of Object.keys(exp)) if (!['x', 'y', 'x1', 'y1'].includes(k)) if (k !== 'fillOpacity') env.check(V.same(A[k], k === 'fillOpacity' && exp[k] === undefined ? 1 : exp[k]), () => `${tag}: ${c.type} ${id} ${k} is ${JSON.stringify(A[k])} with states ${m.states}, expected ${JSON.stringify(exp[k])}`);
          const g = fo(V.norm(A)); ['points', 'segments'].forEach(k => delete g[k]);
          const x = fo(V.norm(exp)); ['x', 'y', 'x1', 'y1'].forEach(k => delete x[k]);
          const d = V.diff(g, x);
          env.check(!d, () => `${tag}: ${c.type} ${id} states ${JSON.stringify(m.states)} (graphic vs expected) ${d}`);
          const pts = m.rows.map(d => { const v = E.valueSet(update, d, sig); return { x: v.x, y: v.y }; });
          env.check(V.same((A.points || []).map(p => ({ x: p.x, y: p.y })), pts), () => `${tag}: ${c.type} ${id} points changed by states: ${JSON.stringify(V.norm(A.points)).slice(0, 200)} expected ${JSON.stringify(pts).slice(0, 200)}`);
          return;
        }
        const g = fo(V.norm(A));
        for (const k of E.INTERNAL) delete g[k];
        const d = V.diff(g, fo(V.norm(E.graphicOf(c.type, exp))));
        env.check(!d, () => `${tag}: ${c.type} ${id} with states ${JSON.stringify(m.states)} (graphic vs base overlaid with states) ${d}`);
      });
    };
    // run: elements persist; base is re-evaluated; the state declaration (if any) decides states again
    const doRun = () => {
      view.run();
      const next = new Map();
      rows.forEach(d => {
        const id = idOf(d);
        if (next.has(id)) { next.get(id).rows.push(d); return; }
        const old = model.get(id);
        next.set(id, { base: old ? old.base : {}, states: old ? old.states : [], runtime: old ? old.runtime : {}, rows: [d] });
      });
      next.forEach(m => { Object.assign(m.base, E.valueSet(update, m.rows[0], sig)); });
      if (c.spec) next.forEach(m => { m.states = m.rows[0].v >= thr ? sortStates(c.spec) : []; m.runtime = {}; });
      model.clear(); next.forEach((m, id) => model.set(id, m));
    };
    doRun();
    verify('first run');
    const setStates = (m, s) => { m.states = sortStates(s); };
    for (let i = 0; i < c.ops.length; i++) {
      const op = c.ops[i];
      const tag = `op ${i} ${JSON.stringify(op).slice(0, 120)}`;
      const ids = [...model.keys()];
      const id = ids.length ? ids[(op.i || 0) % ids.length] : null;
      const m = id === null ? null : model.get(id);
      const el = id === null ? null : elements().get(id);
      if (op.el && !m) continue;
      const attrs = op.attrs;
      let changed, ret;
      const before = m && JSON.stringify([m.states, m.runtime]);
      switch (op.op) {
        case 'add': {
          ret = el.addState(Array.isArray(op.s) ? op.s.slice() : op.s, attrs && E.toSet(op.attrs));
          if (attrs && typeof op.s === 'string') { m.runtime[op.s] = attrs; setStates(m, m.states.includes(op.s) ? m.states : m.states.concat(op.s)); ret = undefined; } else {
            const add = [].concat(op.s).filter((s, j, a) => enc[s] && !m.states.includes(s) && a.indexOf(s) === j);
            if (add.length) setStates(m, m.states.concat(add));
          }
          break;
        }
        case 'remove': {
          ret = el.removeState(Array.isArray(op.s) ? op.s.slice() : op.s);
          const n = m.states.filter(s => ![].concat(op.s).includes(s));
          if (n.length !== m.states.length) { setStates(m, n); [].concat(op.s).forEach(s => { delete m.runtime[s]; }); }
          break;
        }
        case 'update': {
          const arg = {};
          for (const s of Object.keys(op.map)) arg[s] = op.map[s] && typeof op.map[s] === 'object' ? E.toSet(op.map[s]) : op.map[s];
          ret = el.updateStates(arg);
          let n = m.states.slice();
          for (const s of Object.keys(op.map)) {
            const v = op.map[s];
            if (v && typeof v === 'object') { m.runtime[s] = v; if (!n.includes(s)) n.push(s); ret = undefined; } else if (v) { if (!n.includes(s) && enc[s]) n.push(s); } else { n = n.filter(x => x !== s); delete m.runtime[s]; }
          }
          if (JSON.stringify(n) !== JSON.stringify(m.states)) setStates(m, n);
          break;
        }
        case 'use': el.useStates(op.s.slice()); setStates(m, op.s.slice()); break;
        case 'clear': el.clearStates(); m.states = []; m.runtime = {}; break;
        case 'data': rows = clone(op.rows); view.getDataById('d').values(clone(rows)); doRun(); break;
        case 'sig': sig[op.s] = op.v; view.getSignalById(op.s).value(op.v); view.commit(mark); doRun(); break;
        case 'thr': thr = op.v; view.getSignalById('thr').value(op.v); view.commit(mark); doRun(); break;
        case 'enc': update[op.ch] = op.e; mark.encode(op.ch, E.toEnc(op.e)); doRun(); break;
        case 'stateEnc': if (enc[op.s] && enc[op.s].$proxy) continue; (enc[op.s] = enc[op.s] || {})[op.ch] = op.e; mark.encodeState(op.s, op.ch, E.toEnc(op.e)); doRun(); break;
        case 'rerun': view.run(); break;
      }
      if (op.el && ret !== undefined) {
        changed = JSON.stringify([m.states, m.runtime]) !== before;
        env.obs('return values checked');
        env.check(ret === changed, () => `${tag}: returned ${ret} but the states ${changed ? 'changed' : 'did not change'} (${m.states})`);
      }
      env.obs('operations');
      verify(tag);
    }
    // without states the element shows exactly its base encoding again
    elements().forEach(el => el.clearStates());
    model.forEach(m => { m.states = []; m.runtime = {}; });
    env.obs('restorations checked');
    verify('after clearing all states');
  });
}
function gen(r) {
  const type = r.pick([...Object.keys(E.TYPES), 'line', 'area', 'symbol', 'rule', 'text']);
  const coll = COLL.includes(type);
  const drop = r.pick(['shape', 'symbolType']);
  const lim = s => { delete s[drop]; if (type === 'rect3d') ['x1', 'y1', 'z1', 'x', 'y', 'z'].forEach(k => delete s[k]); return s; };
  const set = p => (coll ? (() => { const o = {}; if (r.bool(p)) o.stroke = E.genColEnc(r); if (r.bool(p)) o.lineWidth = E.genNumEnc(r, true); if (type === 'area' && r.bool(p)) o.fill = E.genColEnc(r); if (r.bool(p)) o.strokeOpacity = { t: 'const', v: r.pick([0, 0.5, 1]) }; return o; })() : lim(E.genSet(r, type, p, true)));
  const noCb = s => { for (const k of Object.keys(s)) if (['cb', 'sig', 'fn', 'scale'].includes(s[k].t)) s[k] = /fill|stroke|background/.test(k) ? { t: 'const', v: r.pick(E.COLORS) } : { t: 'const', v: r.int(0, 40) }; return s; };
  const update = coll ? Object.assign(set(0.7), { x: E.genNumEnc(r, true), y: E.genNumEnc(r, true), ...(type === 'area' ? { y1: E.genNumEnc(r, true), x1: E.genNumEnc(r, true) } : {}) }) : set(0.7);
  if (type === 'rect3d') for (const k of ['x', 'y', 'z', 'width', 'height', 'length']) update[k] = { t: 'const', v: r.int(1, 40) };
  if (type === 'rule') for (const k of ['x', 'y', 'x1', 'y1']) if (r.bool(0.8)) update[k] = E.genNumEnc(r, true);
  if (type === 'text') update.text = { t: 'const', v: 'base' };
  const states = {};
  for (const s of r.subset(NAMES, 0.75)) states[s] = r.bool(0.15) && !['rect3d', 'symbol', 'text', 'rule'].includes(type) ? { $proxy: noCb(set(0.4)) } : set(0.4);
  const s1 = () => r.pick([...NAMES, 'ghost']);
  const spec = r.bool(0.25) ? r.sample(Object.keys(states).concat('sel'), r.int(1, 2)).filter((s, i, a) => a.indexOf(s) === i) : undefined;
  const runOps = [
    [3, () => ({ op: 'data', rows: rowsOf() })],
    [2, () => { const s = r.pick(['s0', 's1', 'sc']); return { op: 'sig', s, v: s === 'sc' ? r.pick(E.COLORS) : r.int(0, 60) }; }],
    [1, () => { const t = set(0.5), ks = Object.keys(t); if (!ks.length) return { op: 'rerun' }; const ch = r.pick(ks); return { op: 'enc', ch, e: t[ch] }; }],
    [1, () => { const t = set(0.5), ks = Object.keys(t); if (!ks.length) return { op: 'rerun' }; const ch = r.pick(ks); return { op: 'stateEnc', s: r.pick(NAMES), ch, e: t[ch] }; }],
    [1, () => ({ op: 'rerun' })]];
  const rowsOf = () => E.genRows(r, 1, 5);
  const elOps = [
    [5, () => ({ el: 1, op: 'add', i: r.int(0, 9), s: s1() })],
    [1, () => ({ el: 1, op: 'add', i: r.int(0, 9), s: r.sample([...NAMES, 'ghost'], r.int(1, 3)) })],
    [2, () => ({ el: 1, op: 'add', i: r.int(0, 9), s: r.pick(NAMES), attrs: noCb(set(0.5)) })],
    [4, () => ({ el: 1, op: 'remove', i: r.int(0, 9), s: r.bool(0.7) ? s1() : r.sample(NAMES, 2) })],
    [2, () => ({ el: 1, op: 'update', i: r.int(0, 9), map: Object.fromEntries(r.sample([...NAMES, 'ghost'], r.int(1, 3)).map(s => [s, r.wpick([[3, true], [3, false], [1, noCb(set(0.5))]])])) })],
    [1, () => ({ el: 1, op: 'use', i: r.int(0, 9), s: r.sample(NAMES, r.int(0, 3)) })],
    [1, () => ({ el: 1, op: 'clear', i: r.int(0, 9) })]];
  const ops = r.times(r.int(3, 12), () => (spec ? r.wpick([...runOps, [3, () => ({ op: 'thr', v: r.int(-6, 26) })]])() : r.wpick([...elOps, ...runOps.map(([w, f]) => [w * 0.7, f])])()));
  return { type, update, states, spec, sorted: r.bool(0.25), thr: r.int(-6, 20), rows: rowsOf(), ops };
}
module.exports = {
  rule: 'One case is a mark with a random base encoding, random state encodings (records and functions), and a history of state operations (add, remove, update, use, clear, run-time attributes, declared state callbacks with ordering) mixed with data, signal and encoder changes. After every operation all graphics are compared with base encoding overlaid with the active states. Cases are distinct by their JSON.',
  assumptions: ['the reference overlay is written from the documented order: later active states win, run-time attributes extend the declared state'],
  quickSeconds: 70,
  mustObserve: ['elements compared', 'operations', 'return values checked', 'restorations checked', 'state functions called'],
  scenarios: [{ name: 'states', quick: 4000, gen, run }]
};
