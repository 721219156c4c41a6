'use strict';
// Data joins: after every run the elements of a mark are compared with a reference join written from the
// documentation (key / groupBy / sort / groupSort), and identity, entry/exit and scene-graph bookkeeping
// are monitored across the history.
const V = require('../lib/view.cjs');
const clone = x => JSON.parse(JSON.stringify(x));
const COLLECTION = ['line', 'area'];
const TYPES = ['rect', 'symbol', 'text', 'rule', 'path', 'arc', 'line', 'area', 'glyph', 'image', 'cell', 'polygon'];

const getter = (spec, dflt) => (!spec ? () => dflt : spec.fn ? d => d[spec.fn] + '' + (spec.mod ? d[spec.mod] : '') : d => d[spec.f]);
const specOf = spec => (!spec ? undefined : spec.fn ? getter(spec) : spec.f);
const cmp = s => (s ? (a, b) => { const g = d => (Array.isArray(d) ? d[0] : d); const x = g(a)[s.f], y = g(b)[s.f]; return (x < y ? -1 : x > y ? 1 : 0) * s.dir; } : undefined);

/** reference join: ordered list of {id, group, key, rows} */
function refJoin(m, rows) {
  const g = getter(m.groupBy, 'key');
  const sort = cmp(m.sort);
  const out = new Map();
  rows.forEach((d, i) => {
    const gk = g(d);
    const key = m.key ? getter(m.key)(d) : i;
    const id = COLLECTION.includes(m.type) ? JSON.stringify([String(gk)]) : JSON.stringify([String(gk), String(key)]);
    if (!out.has(id)) out.set(id, { id, group: gk, rows: [], keys: [] });
    out.get(id).rows.push(d); out.get(id).keys.push(key);
  });
  const list = [...out.values()];
  if (COLLECTION.includes(m.type) && m.groupSort) list.forEach(e => { e.rows = e.rows.slice().sort(cmp(m.groupSort)); });
  if (sort && list.length >= 2) {
    list.sort((a, b) => sort(COLLECTION.includes(m.type) ? a.rows : a.rows[0], COLLECTION.includes(m.type) ? b.rows : b.rows[0]));
  }
  return list;
}

const encodeFor = (type, probe) => {
  const num = f => d => { probe(d); return (d && d[f]) || 0; };
  if (type === 'line' || type === 'area') return { update: { x: num('v'), y: num('w'), y1: 0, stroke: 'red' } };
  if (type === 'glyph') return { update: { x: num('v'), y: num('w'), max: 10, min: 1, q1: 2, q3: 7, median: 4, boxWidth: 5 } };
  return { enter: { opacity: 0.5 }, update: { x: num('v'), y: num('w') } };
};

async function run(c, env) {
  await V.withView({}, async view => {
    const datas = clone(c.datas);
    datas.forEach(d => view.data(clone(d.rows)).id(d.id));
    let m = clone(c.mark);
    const mark = m.type === 'glyph' ? view.glyph('boxplot', view.rootMark) : view.mark(m.type, view.rootMark);
    mark.id('m');
    mark.encode(encodeFor(m.type, () => {}).update);
    const join = () => mark.join(m.data, specOf(m.key), cmp(m.sort), specOf(m.groupBy), cmp(m.groupSort));
    join();
    let prev = new Map(); // id -> element
    let gone = new Set();
    let joinChanged = true;
    const verify = tag => {
      const rows = m.data ? datas.find(d => d.id === m.data).rows : [{}];
      const exp = m.data ? refJoin(m, rows) : null;
      const els = mark.elements;
      const say = x => JSON.stringify(x).slice(0, 300);
      if (!m.data) { env.check(els.length === 1, () => `${tag}: a mark without data has ${els.length} elements`); prev = new Map(); joinChanged = true; return; }
      env.obs('joins checked'); env.obs('elements checked', els.length);
      env.check(els.length === exp.length, () => `${tag}: ${els.length} elements for ${exp.length} distinct keys; keys ${say(els.map(e => [e.groupKey, e.key]))} expected ${say(exp.map(e => e.id))}`);
      const now = new Map();
      exp.forEach((e, i) => {
        const el = els[i];
        const data = V.norm(el.data);
        env.check(V.same(data, e.rows), () => `${tag}: element ${i} holds ${say(data)} but key ${e.id} has ${say(e.rows)} (order ${say(exp.map(x => x.id))})`);
        env.check(String(el.groupKey) === String(e.group), () => `${tag}: element ${i} has group key ${el.groupKey}, expected ${e.group}`);
        if (COLLECTION.includes(m.type)) env.check(String(el.key) === String(e.group), () => `${tag}: collection element key ${el.key}, expected ${e.group}`);
        else env.check(String(el.key) === String(e.keys[0]), () => `${tag}: element key ${el.key}, expected ${e.keys[0]}`);
        now.set(e.id, el);
        env.check(V.same(el.getDatum(), COLLECTION.includes(m.type) ? e.rows : e.rows[0]), () => `${tag}: getDatum() of element ${i} is ${say(el.getDatum())}`);
        const g = el.getGraphicItem();
        env.check(!!g, `${tag}: element ${i} has no graphic`);
        env.check(g.parent === mark.graphicItem, `${tag}: graphic of element ${i} is not in the mark's group`);
        env.check(el.mark === mark, `${tag}: element ${i} does not belong to its mark`);
      });
      env.check(new Set(els).size === els.length, `${tag}: one element appears twice`);
      env.check(new Set(els.map(e => e.getGraphicItem())).size === els.length, `${tag}: two elements share a graphic`);
      const kids = mark.graphicItem.children || [];
      env.check(kids.length === els.length, () => `${tag}: the mark draws ${kids.length} graphics for ${els.length} elements`);
      env.check(mark.getAllElements().length === els.length, () => `${tag}: ${mark.getAllElements().length} elements known, ${els.length} shown (no exit animation is pending)`);
      if (!joinChanged) {
        now.forEach((el, id) => {
          if (prev.has(id)) { env.check(prev.get(id) === el, `${tag}: key ${id} persisted but its element was replaced`); env.obs('persisting elements'); } else {
            env.obs('entering elements');
            env.check(![...prev.values()].includes(el), `${tag}: entering key ${id} took over the element of another key`);
            if (gone.has(id)) env.obs('keys that came back');
          }
        });
        prev.forEach((el, id) => { if (!now.has(id)) { env.obs('exiting elements'); gone.add(id); env.check(!el.getGraphicItem() || !el.getGraphicItem().parent, `${tag}: exited key ${id} still has a graphic on stage`); } });
      } else gone = new Set();
      prev = now; joinChanged = false;
      env.saw('join shapes', JSON.stringify([m.type, exp.map(e => e.rows.length)]));
    };
    view.run();
    verify('first run');
    for (const s of c.steps) {
      const tag = JSON.stringify(s).slice(0, 300);
      for (const e of s) {
        if (e.op === 'rows') { datas.find(d => d.id === e.id).rows = e.rows; view.getDataById(e.id).values(clone(e.rows)); } else if (e.op === 'join') { m = Object.assign(m, e.to); for (const k of Object.keys(m)) if (m[k] === null && k !== 'data') delete m[k]; join(); joinChanged = true; } else if (e.op === 'encode') { mark.encode('x', e.x); } else if (e.op === 'twice') { view.run(); view.run(); verify(tag + ' (inner run)'); }
      }
      view.run();
      verify(tag);
    }
  });
}
function genRows(r, prev) {
  const n = r.wpick([[1, 0], [2, 1], [8, r.int(2, 9)], [1, r.int(10, 40)]]);
  // rows may lack their group or key: all rows of one table without it share the element of "no key"
  const G = () => (r.bool(0.08) ? null : r.pick(['A', 'B', 'C']));
  const mk = k => ({ k, k2: r.int(0, 3), g: G(), v: r.int(0, 20), w: r.int(0, 5), s: r.int(0, 4), n: { a: k } });
  if (prev && prev.length && r.bool(0.6)) {
    let rows = prev.map(d => Object.assign({}, d, r.bool(0.4) ? { v: r.int(0, 20) } : null, r.bool(0.15) ? { g: G() } : null)).filter(() => r.bool(0.8));
    const used = new Set(rows.map(d => d.k));
    r.times(r.int(0, 4), () => r.int(0, 40)).forEach(k => { if (!used.has('k' + k)) { used.add('k' + k); rows.push(mk('k' + k)); } });
    return r.bool(0.5) ? r.shuffle(rows) : rows;
  }
  const rows = r.shuffle(r.times(41, i => i)).slice(0, n).map(i => mk('k' + i));
  if (rows.length && r.bool(0.15)) rows[r.int(0, rows.length - 1)].k = null;
  return rows;
}
function genJoin(r, type) {
  const m = {};
  m.key = COLLECTION.includes(type) && r.bool(0.5) ? null : r.wpick([[5, { f: 'k' }], [2, { f: 'k2' }], [1, { fn: 'k' }], [1, { fn: 'k2', mod: 's' }], [1, null]]);
  m.groupBy = r.wpick([[3, null], [2, { f: 'g' }], [1, { fn: 'g' }], [1, { fn: 'g', mod: 's' }]]);
  m.sort = r.wpick([[3, null], [2, { f: r.pick(['v', 's', 'k']), dir: r.pick([1, -1]) }]]);
  m.groupSort = r.wpick([[2, null], [2, { f: r.pick(['v', 'k', 's']), dir: r.pick([1, -1]) }]]);
  return m;
}
function gen(r) {
  const datas = [{ id: 'd0', rows: genRows(r) }, { id: 'd1', rows: genRows(r) }];
  const type = r.pick(TYPES);
  const mark = Object.assign({ type, data: r.bool(0.95) ? 'd0' : null }, genJoin(r, type));
  for (const k of Object.keys(mark)) if (mark[k] === null && k !== 'data') delete mark[k];
  const cur = clone(datas);
  const steps = r.times(r.int(2, 7), () => r.times(r.wpick([[5, 1], [2, 2]]), () => r.wpick([
    [8, () => { const d = r.bool(0.85) ? cur[0] : cur[1]; d.rows = genRows(r, d.rows); return { op: 'rows', id: d.id, rows: d.rows }; }],
    [2, () => ({ op: 'join', to: Object.assign({ data: r.pick(['d0', 'd0', 'd1']) }, genJoin(r, type)) })],
    [1, () => ({ op: 'encode', x: r.int(0, 9) })],
    [1, () => ({ op: 'twice' })]])()));
  return { datas, mark, steps };
}
module.exports = {
  rule: 'a case is one mark with random key/group/sort definitions and a history of data changes and re-joins; distinct by content',
  assumptions: ['no animation is configured (exits under animation belong to C11)', 'elements keep the drawing order in which they entered'],
  mustObserve: ['joins checked', 'persisting elements', 'entering elements', 'exiting elements', 'keys that came back'],
  scenarios: [{ name: 'history', quick: 3000, thorough: 60000, gen, run }]
};
