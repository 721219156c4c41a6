'use strict';
// C09: filtering controls show exactly the selected rows.
const V = require('../lib/view.cjs');
const { install } = require('../lib/clock.cjs');
const clone = x => JSON.parse(JSON.stringify(x));
const vglobal = V.vrender.vglobal;

const wp = (rng, list) => { const f = rng.wpick(list); return typeof f === 'function' ? f() : f; };
let uid = 0;
const genRows = (rng, n, num) => rng.times(n, () => ({ k: 'r' + (uid++ % 1000000), g: num ? rng.int(1, 4) : rng.pick(['A', 'B', 'C', 'D']), c: rng.pick(['p', 'q', 'r', 's', 't']), v: rng.int(0, 100), w: rng.int(0, 100), x: rng.int(10, 380), y: rng.int(10, 280) }));

// ---------- row controls
const KINDS = ['legend', 'color', 'size', 'slider', 'datazoom', 'scrollbar'];
function genCtl(rng, i, c) {
  const kind = rng.pick(KINDS);
  const t = { i, kind, mode: rng.wpick([[4, 'field'], [2, 'fn']]), transform: rng.wpick([[5, null], [1, 'reverse'], [1, 'head']]) };
  if (kind === 'legend') { t.field = 'g'; t.select = rng.pick(['multiple', 'multiple', 'single']); t.cancel = rng.bool(0.8); }
  else if (kind === 'datazoom' || kind === 'scrollbar') { t.band = rng.bool(0.4); t.field = t.band ? 'c' : rng.pick(['v', 'w']); t.flip = !t.band && rng.bool(0.3); t.from = rng.pick([0, 0, 40]); t.orient = rng.pick(['bottom', 'bottom', 'left']); } else { t.field = rng.pick(['v', 'w']); if (kind === 'slider') { t.range = rng.bool(0.75); t.lo = rng.pick([0, -20]); t.hi = rng.pick([100, 120]); } }
  if (rng.bool(0.25)) t.target = 'src'; else t.target = 'tbl';
  void c;
  return t;
}
function genAct(rng, c, t) {
  if (t.kind === 'legend') return { o: 'act', i: t.i, n: rng.int(0, 3) };
  if (t.kind === 'datazoom' || t.kind === 'scrollbar') { const a = rng.num(0, 1, 3), b = rng.num(0, 1, 3); return { o: 'act', i: t.i, a: Math.min(a, b), b: Math.max(a, b), shift: t.kind === 'scrollbar' && rng.bool(0.3) }; }
  return { o: 'act', i: t.i, h: rng.pick(['start', 'end', 'rail']), d: rng.int(-60, 60) };
}
function genRowsCase(rng) {
  const c = { num: rng.bool(0.3), n: rng.int(1, 3), pre: rng.bool(0.3) ? rng.int(0, 60) : null, down: rng.bool(0.4), thr: rng.int(0, 80), byId: rng.bool() };
  c.rows = genRows(rng, rng.int(3, 10), c.num);
  c.ctls = rng.times(c.n, i => genCtl(rng, i, c));
  c.ops = rng.times(rng.int(3, 10), () => wp(rng, [
    [7, () => genAct(rng, c, rng.pick(c.ctls))],
    [1, () => ({ o: 'rows', rows: genRows(rng, rng.int(0, 9), c.num) })],
    [0.7, () => ({ o: 'remove', i: rng.int(0, c.n - 1), how: rng.pick(['instance', 'type', 'id']) })],
    [0.6, () => ({ o: 'bind', i: rng.int(0, c.n - 1) })],
    [0.5, () => ({ o: 'run' })],
    [0.3, () => ({ o: 'thr', v: rng.int(0, 90) })],
    [0.2, () => ({ o: 'removeAll' })]
  ]));
  return c;
}
const TYPE = { legend: 'legend-filter', color: 'legend-filter', size: 'legend-filter', slider: 'slider-filter', datazoom: 'datazoom-filter', scrollbar: 'scrollbar-filter' };
// the order in which filters of several controls are applied
const RANK = { slider: 4, datazoom: 5, legend: 6, color: 6, size: 6, scrollbar: 7 };
const SPAN = [0, 200];
function ctlScale(t, c) {
  const id = 's' + t.i;
  if (t.kind === 'legend') return { id, type: 'ordinal', domain: c.num ? [1, 2, 3, 4] : ['A', 'B', 'C', 'D'], range: ['#f00', '#0f0', '#00f', '#ff0'] };
  if (t.kind === 'color') return { id, type: 'linear', domain: [0, 100], range: ['#ff0000', '#0000ff'] };
  if (t.kind === 'size') return { id, type: 'linear', domain: [0, 100], range: [2, 20] };
  const r = t.flip ? [SPAN[1] + t.from, SPAN[0] + t.from] : [SPAN[0] + t.from, SPAN[1] + t.from];
  return t.band ? { id, type: 'band', domain: ['p', 'q', 'r', 's', 't'], range: r } : { id, type: 'linear', domain: [0, 100], range: r };
}
function ctlMark(t) {
  const id = 'c' + t.i, base = { type: 'component', id };
  const y = 20 + t.i * 60;
  if (t.kind === 'legend') return { ...base, componentType: 'legend', scale: 's' + t.i, encode: { update: { x: 200, y, selectMode: t.select, allowAllCanceled: t.cancel } } };
  if (t.kind === 'color' || t.kind === 'size') return { ...base, componentType: 'legend', scale: 's' + t.i, encode: { update: { x: 200, y } } };
  if (t.kind === 'slider') return { ...base, componentType: 'slider', min: t.lo, max: t.hi, encode: { update: t.range ? { x: 200, y, range: true, railWidth: 100, railHeight: 10 } : { x: 200, y, range: false, value: t.hi, railWidth: 100, railHeight: 10 } } };
  if (t.kind === 'datazoom') { const h = t.orient === 'bottom'; return { ...base, componentType: 'datazoom', preview: { data: 'pre', x: { scale: h ? 's' + t.i : 'sx', field: t.field }, y: { scale: h ? 'sx' : 's' + t.i, field: t.field } }, encode: { update: { x: 200, y, start: 0, end: 1, orient: t.orient, size: h ? { width: 200, height: 30 } : { width: 30, height: 200 }, position: { x: 200, y } } } }; }
  return { ...base, componentType: 'scrollbar', scale: 's' + t.i, direction: t.orient === 'left' ? 'vertical' : 'horizontal', encode: { update: { x: 200, y, range: [0, 1] } } };
}
const ratioOf = (t, d) => {
  if (t.band) return ['p', 'q', 'r', 's', 't'].indexOf(d[t.field]) / 5;
  return d[t.field] / 100;
};
// what a control selects, in terms of its own events
function keeps(t, sel, d) {
  if (t.kind === 'legend') return sel.some(l => String(l) === String(d[t.field]));
  if (t.kind === 'datazoom' || t.kind === 'scrollbar') {
    const r = ratioOf(t, d);
    if (Math.abs(r - sel[0]) < 1e-9 || Math.abs(r - sel[1]) < 1e-9) return null;
    return r > sel[0] && r < sel[1];
  }
  const a = t.kind === 'slider' && !t.range ? t.lo : sel[0], b = t.kind === 'slider' && !t.range ? sel : sel[1];
  if (Math.abs(d[t.field] - a) < 1e-9 || Math.abs(d[t.field] - b) < 1e-9) return t.kind === 'slider' && !t.range && d[t.field] === a ? true : null;
  return d[t.field] > a && d[t.field] < b;
}
const TRANS = { reverse: rows => rows.slice().reverse(), head: rows => rows.slice(0, 3) };
function targetOf(t, calls) {
  const o = { data: t.target };
  if (t.mode === 'field') o.filter = t.field;
  else o.filter = (d, fv) => { // same rows as with the field, decided by the callback
    calls.push(fv);
    if (t.kind === 'legend') return fv.some(l => String(l) === String(d[t.field]));
    if (t.kind === 'datazoom' || t.kind === 'scrollbar') { const r = ratioOf(t, d); return r >= fv.startRatio && r <= fv.endRatio; }
    return d[t.field] >= fv.start && d[t.field] <= fv.end;
  };
  if (t.transform) o.transform = rows => TRANS[t.transform](rows);
  return o;
}
const keys = rows => rows.map(r => r.k).join(',');

function runRows(c, env) {
  const clock = install();
  const view = V.mkView({ manual: true });
  try {
    const spec = {
      width: 400, height: 300, signals: [{ id: 'thr', value: c.pre }],
      data: [{ id: 'src', values: clone(c.rows) }, { id: 'pre', values: clone(c.rows) },
        Object.assign({ id: 'tbl', source: 'src' }, c.pre === null ? {} : { transform: [{ type: 'filter', callback: (d, p) => d.w >= p.thr, dependency: ['thr'] }] })]
        .concat(c.down ? [{ id: 'down', source: 'tbl', transform: [{ type: 'filter', callback: d => d.v >= c.thr }] }] : []),
      scales: [{ id: 'sx', type: 'linear', domain: [0, 100], range: [0, 200] }].concat(c.ctls.map(t => ctlScale(t, c))),
      marks: [{ type: 'symbol', id: 'mt', from: { data: 'tbl' }, key: 'k', encode: { update: { x: { field: 'x' }, y: { field: 'y' }, size: 8 } } },
        { type: 'symbol', id: 'ms', from: { data: 'src' }, key: 'k', encode: { update: { x: { field: 'y' }, y: { field: 'x' }, size: 8 } } }]
        .concat(c.down ? [{ type: 'rect', id: 'md', from: { data: 'down' }, key: 'k', encode: { update: { x: { field: 'x' }, y: 1, width: 3, height: 3 } } }] : [])
        .concat(c.ctls.map(ctlMark))
    };
    if (c.pre === null) delete spec.signals;
    view.parseSpec(spec);
    view.run({ morph: false, reuse: false });
    view.renderer.render(true);
    let rows = c.rows, thr = c.pre, shown = 0, cut = 0;
    const st = c.ctls.map(t => ({ t, inst: [], sel: null, seen: null, calls: [] }));
    const mark = i => view.getMarkById('c' + i), comp = i => mark(i).getGroupGraphicItem();
    const bind = s => {
      const inst = view.interaction(TYPE[s.t.kind], { id: 'in' + s.t.i, source: c.byId ? '#c' + s.t.i : mark(s.t.i), target: targetOf(s.t, s.calls) });
      s.inst.push({ inst, sel: null, at: seq++ });
    };
    let seq = 0;
    st.forEach(bind);
    st.forEach(s => {
      const on = (type, f) => comp(s.t.i).addEventListener(type, f);
      if (s.t.kind === 'legend') on('legendItemClick', e => { s.seen = e.detail.currentSelected.slice(); });
      else if (s.t.kind === 'datazoom') on('change', e => { s.seen = [e.detail.start, e.detail.end]; });
      else if (s.t.kind === 'scrollbar') ['scrollDrag', 'scrollUp'].forEach(x => on(x, e => { s.seen = e.detail.value.slice(); }));
      else on('change', e => { s.seen = Array.isArray(e.detail.value) ? e.detail.value.slice() : e.detail.value; });
    });
    const labels = i => comp(i)._itemsContainer.getChildren();
    // rows of data set `id` that should be left: list of rows, with null standing for rows too close to tell
    const expect = (id, all) => {
      let list = all.slice();
      // filters of equal rank are applied in the order in which they were bound
      const filters = [].concat(...st.filter(s => s.t.target === id).map(s => s.inst.map(b => ({ t: s.t, sel: b.sel, at: b.at })))).sort((a, b) => RANK[a.t.kind] - RANK[b.t.kind] || a.at - b.at);
      for (const f of filters) {
        if (f.sel === null) continue;
        const k = list.map(d => keeps(f.t, f.sel, d));
        if (k.includes(null)) return null;
        cut += k.filter(x => !x).length;
        list = list.filter((d, i) => k[i]);
        if (f.t.transform) list = TRANS[f.t.transform](list);
      }
      return list;
    };
    const judge = what => {
      const src = expect('src', rows);
      if (src === null) { env.obs('undecided'); return; }
      const got = id => view.getDataById(id).output();
      env.check(keys(got('src')) === keys(src), () => `${what}: the data has rows ${keys(got('src'))} instead of ${keys(src)}`);
      const base = thr === null ? src : src.filter(d => d.w >= thr);
      const tbl = expect('tbl', base);
      if (tbl === null) { env.obs('undecided'); return; }
      env.check(keys(got('tbl')) === keys(tbl), () => `${what}: the data has rows ${keys(got('tbl'))} instead of ${keys(tbl)}`);
      const sets = [['mt', tbl], ['ms', src]].concat(c.down ? [['md', tbl.filter(d => d.v >= c.thr)]] : []);
      sets.forEach(([id, list]) => {
        const m = view.getMarkById(id), a = m.elements.map(e => e.getDatum().k).sort().join(), b = list.map(d => d.k).sort().join();
        env.check(a === b, () => `${what}: mark ${id} shows rows ${a} instead of ${b}`);
        m.elements.forEach(e => { const d = e.getDatum(), want = list.find(r => r.k === d.k); env.check(want && V.same({ ...d }, want), () => `${what}: mark ${id} shows another row ${JSON.stringify(V.norm(d))} as ${d.k}`); });
        env.obs('rows compared', list.length);
      });
      shown++;
      st.filter(s => s.t.kind === 'legend' && s.state).forEach(s => { // the control still shows what it selects
        const on = labels(s.t.i).filter(g => g.hasState('selected')).map(g => String(g.data.label)).sort().join();
        env.check(on === s.state.slice().sort().join(), () => `${what}: the legend shows ${on} as selected instead of ${s.state.slice().sort().join()}`);
      });
    };
    judge('at first');
    for (const op of c.ops) {
      if (op.o === 'act') {
        const s = st[op.i], t = s.t;
        s.seen = null;
        if (t.kind === 'legend') {
          const it = labels(t.i)[op.n];
          s.state = s.state || labels(t.i).map(g => String(g.data.label));
          const l = String(it.data.label), was = s.state.includes(l);
          if (t.select === 'single') s.state = [l];
          else if (!(was && s.state.length === 1 && !t.cancel)) s.state = was ? s.state.filter(x => x !== l) : s.state.concat(l);
          V.fire(view, 'pointerdown', it, { x: 1, y: 1 });
          env.check(s.seen && s.seen.map(String).sort().join() === s.state.slice().sort().join(), () => `the legend reports ${s.seen} instead of ${s.state}`);
        } else if (t.kind === 'datazoom') mark(t.i).setStartEndValue(op.a, op.b);
        else if (t.kind === 'scrollbar') { if (op.shift) mark(t.i).setScrollStart(op.a); else comp(t.i).setScrollRange([op.a, op.b]); } else {
          const sl = t.kind === 'slider' ? comp(t.i) : comp(t.i)._slider;
          const h = op.h === 'rail' ? sl._railContainer : op.h === 'end' && sl._endHandler ? sl._endHandler : sl._startHandler;
          const b = h.globalAABBBounds, x = (b.x1 + b.x2) / 2, y = (b.y1 + b.y2) / 2;
          const vertical = sl.attribute.layout === 'vertical';
          const at = (type, d, target) => V.fire(view, type, target || null, vertical ? { x, y: y + d, viewX: x, viewY: y + d } : { x: x + d, y, viewX: x + d, viewY: y });
          if (op.h === 'rail') { at('pointerdown', op.d, h); at('pointerup', op.d); } else { at('pointerdown', 0, h); at('pointermove', op.d); at('pointerup', op.d); }
        }
        if (s.seen !== null) { s.sel = s.seen; s.inst.forEach(b => { b.sel = s.seen; }); env.obs('control changes'); if (s.inst.length) env.saw('control', `${t.kind} ${t.mode} ${t.target}`); }
      } else if (op.o === 'rows') { rows = op.rows; view.getDataById('src').values(clone(rows)); view.run({ morph: false, reuse: false }); env.obs('data updates'); } else if (op.o === 'thr') { if (thr === null) continue; thr = op.v; view.getSignalById('thr').value(thr); view.run({ morph: false, reuse: false }); } else if (op.o === 'remove') {
        const s = st[op.i];
        if (!s.inst.length) continue;
        if (op.how === 'instance') { const b = s.inst.pop(); view.removeInteraction(b.inst); } else if (op.how === 'id') { view.removeInteraction(null, 'in' + op.i); s.inst = []; } else { view.removeInteraction(TYPE[s.t.kind]); st.forEach(x => { if (TYPE[x.t.kind] === TYPE[s.t.kind]) x.inst = []; }); }
        view.run({ morph: false, reuse: false }); env.obs('controls unbound');
      } else if (op.o === 'removeAll') { view.removeAllInteractions(); st.forEach(s => { s.inst = []; }); view.run({ morph: false, reuse: false }); env.obs('controls unbound'); } else if (op.o === 'bind') { bind(st[op.i]); view.run({ morph: false, reuse: false }); } else view.run({ morph: false, reuse: false });
      judge('after ' + JSON.stringify(op).slice(0, 90));
    }
    env.obs('states judged', shown); env.obs('rows cut', cut);
    env.nontrivial = cut > 0;
  } finally { view.release(); clock.advance(2000); clock.uninstall(); }
}

// ---------- players
function genPlayer(rng) {
  const rows = genRows(rng, rng.int(3, 8));
  const c = { type: rng.pick(['discrete', 'continuous', 'auto']), rows, transform: rng.wpick([[2, null], [1, 'acc']]), via: rng.pick(['array', 'data']) };
  c.frames = rng.times(rng.int(2, 5), () => rng.subset(rows.map((r, i) => i), 0.5));
  c.ops = rng.times(rng.int(3, 9), () => wp(rng, [[4, { o: 'forward' }], [3, { o: 'backward' }], [1, { o: 'play', ms: rng.int(100, 3000) }], [1, () => ({ o: 'rows', n: rng.int(0, 3) })], [0.5, { o: 'remove' }], [0.4, { o: 'run' }]]));
  return c;
}
function runPlayer(c, env) {
  const clock = install();
  const view = V.mkView({ manual: true });
  // the players need the events of a browser when they are made
  Object.defineProperty(vglobal, 'env', { configurable: true, get: () => 'browser' });
  try {
    const frames = c.frames.map((f, j) => (c.transform ? j : f.map(i => clone(c.rows[i]))));
    view.parseSpec({
      width: 400, height: 300,
      data: [{ id: 'src', values: clone(c.rows) }, { id: 'tbl', source: 'src' }].concat(c.via === 'data' ? [{ id: 'fr', values: frames.map(f => (c.transform ? { j: f } : f)) }] : []),
      marks: [{ type: 'symbol', id: 'm', from: { data: 'tbl' }, key: 'k', encode: { update: { x: { field: 'x' }, y: { field: 'y' }, size: 8 } } },
        { type: 'component', componentType: 'player', id: 'p', playerType: c.type, source: c.via === 'data' ? 'fr' : frames.map(f => (c.transform ? { j: f } : f)), encode: { update: { x: 200, y: 200, size: { width: 150, height: 20 } } } }]
    });
    view.run({ morph: false, reuse: false });
    let rows = c.rows, sel = null, bound = true, changes = 0;
    const inst = view.interaction('player-filter', { source: '#p', target: Object.assign({ data: 'tbl' }, c.transform ? { transform: (data, fv) => data.filter((d, i) => i <= fv.value.j) } : {}) });
    const p = view.getMarkById('p'), g = p.getGroupGraphicItem();
    g.addEventListener('change', e => { if (e.target === g) { if (bound) sel = e.detail.index; changes++; } });
    const judge = what => {
      const want = sel === null || !bound ? rows : c.transform ? rows.filter((d, i) => i <= sel) : c.frames[sel].map(i => c.rows[i]);
      const got = view.getDataById('tbl').output();
      env.check(keys(got) === keys(want), () => `${what}: the data has rows ${keys(got)} instead of ${keys(want)}`);
      const a = view.getMarkById('m').elements.map(e => e.getDatum().k).sort().join(), b = want.map(d => d.k).sort().join();
      env.check(a === b, () => `${what}: rows ${a} are shown instead of ${b}`);
      
      env.obs('rows compared', want.length);
    };
    judge('at first');
    for (const op of c.ops) {
      const was = g.getDataIndex(), n = changes;
      if (op.o === 'forward' || op.o === 'backward') {
        clock.advance(10); p[op.o]();
        if (c.type !== 'continuous') { const to = Math.max(0, Math.min(c.frames.length - 1, was + (op.o === 'forward' ? 1 : -1))); env.check(g.getDataIndex() === to, () => `${op.o} went from ${was} to ${g.getDataIndex()}`); if (bound) env.check(sel === to, 'no change was reported'); }
      } else if (op.o === 'play') { p.play(); clock.advance(op.ms); p.pause(); clock.advance(50); } else if (op.o === 'rows') { rows = c.rows.slice(0, op.n + 1); view.getDataById('src').values(clone(rows)); view.run({ morph: false, reuse: false }); } else if (op.o === 'remove') { view.removeInteraction(inst); bound = false; view.run({ morph: false, reuse: false }); env.obs('controls unbound'); } else view.run({ morph: false, reuse: false });
      if (changes > n) env.obs('control changes', changes - n);
      judge('after ' + JSON.stringify(op));
    }
    env.saw('control', 'player ' + c.type + (c.transform ? ' transform' : ''));
    env.nontrivial = changes > 0;
  } finally { delete vglobal.env; view.release(); clock.advance(20000); clock.uninstall(); }
}

// ---------- picking rows: brush-filter, drill-down, roll-up
function genPick(rng) {
  const c = { kind: rng.pick(['brush', 'drill', 'drill', 'drillbrush', 'roll', 'roll']), rows: genRows(rng, rng.int(3, 9)), other: rng.bool(0.5), line: rng.bool(0.25), transform: rng.bool(0.4), legend: rng.bool(0.35), moved: rng.bool(0.7), brushType: rng.pick(['rect', 'rect', 'x', 'y']) };
  if (c.kind === 'roll') { c.off = rng.pick([undefined, 'empty', 'pointerout', 'view:dblclick']); c.on = rng.pick([undefined, 'click', 'pointertap']); c.transform = true; }
  if (c.kind === 'brush' || c.kind === 'drillbrush') { c.line = false; c.other = true; }
  const pt = () => ({ x: rng.int(0, 390), y: rng.int(0, 290) });
  const brush = c.kind === 'brush' || c.kind === 'drillbrush';
  c.ops = rng.times(rng.int(3, 9), () => wp(rng, [
    [7, () => brush ? { o: 'drag', from: pt(), to: rng.times(rng.int(1, 3), pt) } : { o: 'click', n: rng.int(0, 8) }],
    [1, () => ({ o: 'tap', at: pt() })],
    [1, { o: 'off' }],
    [1, () => ({ o: 'legend', n: rng.int(0, 3) })],
    [0.7, { o: 'remove' }],
    [0.5, { o: 'run' }]
  ]));
  return c;
}
function runPick(c, env) {
  const clock = install();
  const view = V.mkView({ manual: true });
  try {
    const brush = c.kind === 'brush' || c.kind === 'drillbrush';
    // the rows picked in mark `pick` of data `a` are shown by mark `m` of data `tbl`: the same rows if `other`
    const shared = clone(c.rows);
    view.parseSpec({
      width: 400, height: 300,
      data: [{ id: 'a', values: shared }, { id: 'tbl', source: 'a' }],
      scales: [{ id: 's', type: 'ordinal', domain: ['A', 'B', 'C', 'D'], range: ['#f00', '#0f0', '#00f', '#ff0'] }],
      marks: [
        c.line ? { type: 'line', id: 'pick', from: { data: c.other ? 'a' : 'tbl' }, key: 'k', groupBy: 'g', encode: { update: { x: { field: 'x' }, y: { field: 'y' } } } }
          : { type: 'symbol', id: 'pick', from: { data: c.other ? 'a' : 'tbl' }, key: 'k', encode: { update: { x: { field: 'x' }, y: { field: 'y' }, size: 8 } } },
        { type: 'rect', id: 'm', from: { data: 'tbl' }, key: 'k', encode: { update: { x: { field: 'w' }, y: 1, width: 3, height: 3 } } }
      ].concat(c.legend ? [{ type: 'component', componentType: 'legend', id: 'l', scale: 's', encode: { update: { x: 300, y: 10 } } }] : []),
      interactions: c.legend ? [{ type: 'legend-filter', source: '#l', target: { data: 'tbl', filter: 'g' } }] : []
    });
    view.run({ morph: false, reuse: false });
    const type = c.kind === 'brush' ? 'brush-filter' : c.kind === 'roll' ? 'roll-up' : 'drill-down';
    const o = { target: { data: 'tbl' } };
    if (c.kind === 'roll') { o.source = '#pick'; if (c.off !== undefined) o.triggerOff = c.off; if (c.on !== undefined) o.trigger = c.on; } else o.selector = '#pick';
    if (c.kind === 'drillbrush') o.brush = true;
    if (brush) Object.assign(o, { brushType: c.brushType, brushMoved: c.moved, removeOnClick: true, brushStyle: { lineWidth: 0, stroke: false } });
    // the transform gets the rows and the picked row(s): whatever it returns is shown
    const fold = (rows, picked) => { const w = Math.max(...[].concat(picked).map(d => d.w)); return rows.filter(d => d.w <= w); };
    if (c.transform) o.target.transform = (rows, picked) => (picked && [].concat(picked).length ? fold(rows, picked) : rows);
    let picked = null, bound = true, labels = null, picks = 0, brushed = null;
    if (brush) ['Start', 'Update', 'End', 'Reset'].forEach(k => { o['on' + k] = e => { brushed = { kind: k, els: e.activeElements.map(el => el.getDatum()) }; }; });
    const inst = view.interaction(type, o);
    view.run({ morph: false, reuse: false }); view.tick(16);
    if (brush && !inst._brushComp) view.renderer.render(true);
    const byK = k => c.rows.find(r => r.k === k);
    const judge = what => {
      const all = c.rows;
      // rows hidden by the legend never show; a transform sees what comes before it
      const leg = rows => (labels ? rows.filter(r => labels.includes(r.g)) : rows);
      let want = all;
      if (bound && picked !== null) want = c.transform ? (picked.length ? fold(all, picked) : all) : all.filter(r => picked.some(p => p.k === r.k));
      want = leg(want);
      const got = view.getDataById('tbl').output();
      const A = got.map(d => d.k).sort().join(), B = want.map(d => d.k).sort().join();
      env.check(A === B, () => `${what}: the data has rows ${A} instead of ${B}`);
      const S = view.getMarkById('m').elements.map(e => e.getDatum().k).sort().join();
      env.check(S === B, () => `${what}: rows ${S} are shown instead of ${B}`);
      if (c.other) { const P = [].concat(...view.getMarkById('pick').elements.map(e => e.getDatum())).map(d => d.k).sort().join(); env.check(P === all.map(d => d.k).sort().join(), () => `${what}: the mark of the unfiltered data shows ${P}`); }
      env.obs('rows compared', want.length);
    };
    const noteBrush = () => {
      if (bound && brush && brushed) { picks++; env.obs('control changes'); picked = brushed.kind === 'Reset' ? null : brushed.els.reduce((a, d) => a.concat(d), []).map(d => byK(d.k)); env.saw('brush', brushed.kind + (picked && picked.length ? '+' : '')); }
      brushed = null;
    };
    judge('at first');
    for (const op of c.ops) {
      const els = view.getMarkById('pick').elements.slice();
      if (op.o === 'click') {
        if (!els.length) continue;
        const el = els[op.n % els.length], d = [].concat(el.getDatum()).map(x => byK(x.k));
        const before = picked;
        const ev = (c.kind === 'roll' && c.on) || 'click';
        V.fireOn(view, ev, el, { x: 5, y: 5 });
        if (bound) {
          const same = before && before.length === d.length && d.every(x => before.some(y => y.k === x.k));
          picked = c.kind === 'roll' && same && (c.off === undefined || c.off === 'empty') ? null : d;
          picks++; env.obs('control changes');
        }
      } else if (op.o === 'drag' || op.o === 'tap') {
        const at = (t, p) => { clock.advance(30); V.fire(view, t, null, p); clock.advance(30); };
        brushed = null;
        const from = op.from || op.at, to = op.to || [];
        try {
          at('pointerdown', from); to.forEach(p => at('pointermove', p)); at('pointerup', to.length ? to[to.length - 1] : from);
        } catch (e) { if (!/Brush\._drawEnd/.test(e.stack)) throw e; env.obs('component crash'); }
        noteBrush();
      } else if (op.o === 'off') {
        if (c.kind !== 'roll' || !c.off || c.off === 'empty') continue;
        if (c.off === 'pointerout') V.fireOn(view, 'pointerout', els[0], { x: 5, y: 5 }); else V.fire(view, 'dblclick', null, { x: 1, y: 1 });
        picked = null; env.obs('control changes');
      } else if (op.o === 'legend') {
        if (!c.legend) continue;
        const g = view.getMarkById('l').getGroupGraphicItem(), its = g._itemsContainer.getChildren();
        V.fire(view, 'pointerdown', its[op.n], { x: 1, y: 1 });
        V.fire(view, 'pointerup', its[op.n], { x: 1, y: 1 });
        labels = its.filter(x => x.hasState('selected')).map(x => x.data.label);
        noteBrush(); // a click beside the brush clears it
        env.obs('control changes');
      } else if (op.o === 'remove') { view.removeInteraction(inst); bound = false; view.run({ morph: false, reuse: false }); env.obs('controls unbound'); } else view.run({ morph: false, reuse: false });
      judge('after ' + JSON.stringify(op));
    }
    env.saw('control', c.kind + (c.transform ? ' transform' : '') + (c.legend ? ' legend' : ''));
    env.nontrivial = picks > 0;
  } finally { view.release(); clock.advance(2000); clock.uninstall(); }
}

// a brush on the very marks it filters: recorded finding
function runOwn(c, env) {
  const clock = install();
  const view = V.mkView({ manual: true });
  try {
    view.parseSpec({ width: 400, height: 300, data: [{ id: 'tbl', values: clone(c.rows) }], marks: [{ type: 'symbol', id: 'm', from: { data: 'tbl' }, key: 'k', encode: { update: { x: { field: 'x' }, y: { field: 'y' }, size: 8 } } }] });
    view.run({ morph: false, reuse: false });
    view.interaction('brush-filter', { selector: '#m', brushType: 'rect', target: { data: 'tbl' } });
    view.run({ morph: false, reuse: false }); view.tick(16); view.renderer.render(true);
    const at = (t, p) => { clock.advance(30); V.fire(view, t, null, p); clock.advance(30); };
    at('pointerdown', c.from); c.to.forEach(p => at('pointermove', p)); at('pointerup', c.to[c.to.length - 1]);
    const end = c.to[c.to.length - 1];
    const want = c.rows.filter(d => d.x > c.from.x && d.x < end.x && d.y > c.from.y && d.y < end.y);
    env.nontrivial = want.length > 0;
    env.check(keys(view.getDataById('tbl').output()) === keys(want), () => `the brush around rows ${keys(want)} of its own mark shows rows ${keys(view.getDataById('tbl').output())}`);
  } finally { view.release(); clock.advance(2000); clock.uninstall(); }
}

module.exports = {
  rule: 'after every change of a filtering control, every data update and every removal of a control, the rows of the target data and of the marks showing it are compared with the rows chosen independently from what the control itself reports as selected',
  assumptions: ['what a control selects is taken from the events of the third-party components', 'rows closer than 1e-9 to an end of a selected range are not judged', 'domains of the scales of the controls are fixed'],
  mustObserve: ['control changes', 'rows compared', 'rows cut', 'controls unbound', 'data updates'],
  pinned: [{ name: 'brush-own-mark', scenario: 'own', case: { rows: [{ k: 'a', x: 50, y: 50 }, { k: 'b', x: 90, y: 80 }, { k: 'c', x: 300, y: 200 }], from: { x: 20, y: 20 }, to: [{ x: 60, y: 60 }, { x: 150, y: 150 }] } }],
  scenarios: [
    { name: 'own', quick: 0, gen: () => ({}), run: runOwn },
    { name: 'rows', quick: 700, gen: genRowsCase, run: runRows },
    { name: 'player', quick: 200, gen: genPlayer, run: runPlayer },
    { name: 'pick', quick: 400, gen: genPick, run: runPick }
  ]
};
