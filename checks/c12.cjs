'use strict';
// Replacing a specification under reuse, morphing and exit animations: chains of random specifications replaced at random
// moments; after the transitions the view must be the view a fresh one shows.
const V = require('../lib/view.cjs');
const { withClock } = require('../lib/clock.cjs');
const js = JSON.stringify, clone = x => JSON.parse(js(x));
const wp = (rng, list) => { const v = rng.wpick(list); return typeof v === 'function' ? v() : v; };
const FRAME = 1000 / 60 + 0.01, COLORS = ['rgb(240,0,0)', 'rgb(0,160,0)', 'rgb(0,0,240)', 'rgb(160,160,0)', 'rgb(16,32,48)'];
const TYPES = ['symbol', 'rect', 'line', 'area', 'arc', 'path', 'text', 'rule', 'polygon', 'circle', 'glyph', 'axis'];
const LINES = { line: 1, area: 1 };
const MORPHABLE = ['symbol', 'rect', 'arc', 'path', 'polygon', 'circle', 'line', 'area', 'symbol', 'rect', 'arc', 'circle', 'text', 'rule', 'glyph'];

// ---------------------------------------------------------------- generation
const genRows = rng => { const n = rng.wpick([[1, 0], [1, 1], [6, 0]]) || rng.int(0, 7); return rng.sample(['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'], n).map(k => ({ k, v: rng.int(1, 90), w: rng.int(5, 40), g: rng.pick(['p', 'q']), m: rng.pick(['s', 't', 'u']) })); };
function genMark(rng, id, o) {
  const type = rng.pick(o.morph ? MORPHABLE : TYPES);
  return {
    id, type, t: rng.int(0, 1), group: rng.wpick([[3, ''], [2, 'G']]), by: rng.bool(0.3), c: rng.int(0, 4), off: rng.int(0, 50), scale: rng.bool(0.4), sig: rng.bool(0.4), coord: rng.bool(0.15), state: rng.bool(0.2),
    anim: rng.bool(0.4), exit: rng.bool(0.3), morph: rng.bool(o.morph ? 0.9 : 0.15), morphKey: rng.wpick([[3, null], [2, 'K1'], [1, 'K2']]), morphElementKey: rng.wpick([[4, null], [1, 'm'], [1, 'g']])
  };
}
// channels of lines and glyphs which become undefined keep their former value by design, so these do not use ordinal scales here
function limit(m, v) { if (v.co === 'polar') m.coord = false; if ((LINES[m.type] || m.type === 'glyph') && (v.sType === 'band' || v.sType === 'point')) m.scale = false; if (!v.G) m.group = ''; return m; }
function genVersion(rng, o) {
  const ids = rng.shuffle(['m0', 'm1', 'm2', 'm3']).slice(0, rng.int(0, 4));
  const v = { z: rng.int(0, 40), tables: [genRows(rng), genRows(rng)], sType: rng.wpick([[4, 'linear'], [2, 'band'], [1, 'point'], [1, 'log'], [1, 'sqrt']]), sFixed: rng.bool(0.3), co: rng.wpick([[3, 'cartesian'], [1, 'polar']]), coShift: rng.int(0, 60), filter: rng.bool(0.3) ? rng.int(0, 60) : null, G: rng.bool(0.85), gx: rng.int(0, 50), derived: rng.bool(0.3), marks: ids.map(id => genMark(rng, id, o)) };
  if (!v.G) v.marks.forEach(m => { m.group = ''; });
  v.marks.forEach(m => limit(m, v));
  return v;
}
function genConfig(rng, o) {
  const c = {};
  if (rng.bool(0.5)) c.reuse = rng.bool(0.6);
  if (rng.bool(0.4)) c.morph = rng.bool(0.7);
  if (o.morph && rng.bool(0.3)) c.morphAll = true;
  if (rng.bool(0.3)) c.enableExitAnimation = rng.bool(0.5);
  if (o.morph) c.animation = { duration: rng.pick([50, 100, 200]), delay: rng.pick([undefined, 0, 40]), easing: rng.pick([undefined, 'linear']), oneByOne: rng.pick([undefined, true, 20, false]), splitPath: rng.pick([undefined, 'clone']) };
  return c;
}
const gen = morph => rng => {
  const o = { morph }, n = rng.int(1, 4);
  return {
    first: genVersion(rng, o),
    steps: rng.times(n, () => ({
      edits: rng.times(rng.int(0, 2), () => wp(rng, [[2, () => ({ o: 'rows', t: rng.int(0, 1), rows: genRows(rng) })], [1, () => ({ o: 'sig', z: rng.int(0, 40) })]])),
      wait: rng.wpick([[2, 0], [2, rng.int(1, 250)], [2, 1200]]), how: rng.wpick([[4, 'spec'], [2, 'parts'], [1, 'remove']]), pick: rng.int(0, 15), next: genVersion(rng, o), config: genConfig(rng, o),
      after: rng.times(rng.wpick([[2, 0], [1, 1], [1, 2]]), () => wp(rng, [[2, () => ({ o: 'rows', t: rng.int(0, 1), rows: genRows(rng), wait: rng.int(0, 200) })], [1, () => ({ o: 'sig', z: rng.int(0, 40), wait: rng.int(0, 200) })], [1, () => ({ o: 'wait', wait: rng.int(0, 200) })]])), look: rng.bool(0.5)
    }))
  };
};

// ---------------------------------------------------------------- specifications
function markSpec(m) {
  const x = m.scale ? { scale: 's', field: 'v' } : { callback: (d, e, p) => d.v + m.off + (m.sig ? p.z : 0), dependency: m.sig ? ['z'] : [] };
  if (m.type === 'axis') return { type: 'component', componentType: 'axis', id: m.id, scale: 's', tickCount: 4, encode: { update: { start: { x: 0, y: 0 }, end: { x: 200, y: 0 }, x: m.off, y: { signal: 'z' } } } };
  const u = { x, y: { callback: (d, e, p) => d.w + m.c * 3 + (m.sig ? p.z : 0), dependency: m.sig ? ['z'] : [] }, fill: COLORS[m.c], stroke: COLORS[(m.c + 1) % 5], lineWidth: m.c + 1 };
  if (m.type === 'symbol') u.size = { field: 'w' };
  if (m.type === 'rect') { u.width = { field: 'w' }; u.height = 5 + m.c; }
  if (m.type === 'rule') { u.x1 = 100 + m.off; u.y1 = 30; }
  if (m.type === 'text') u.text = { callback: d => d.k + m.off };
  if (m.type === 'area') u.y1 = 120 + m.c;
  if (m.type === 'arc') { u.innerRadius = 3; u.outerRadius = 10 + m.c; u.startAngle = 0; u.endAngle = { callback: d => d.v / 20 }; }
  if (m.type === 'path') u.path = `M0 0L${10 + m.c} 0L10 ${10 + m.off}Z`;
  if (m.type === 'circle') u.radius = { field: 'w' };
  if (m.type === 'polygon') u.points = [{ x: 0, y: 0 }, { x: 10 + m.off, y: 0 }, { x: 5, y: 10 + m.c }];
  if (m.type === 'glyph') { u.size = { field: 'w' }; u.ripple = { callback: d => d.v / 100 }; delete u.stroke; }
  const s = { type: m.type, id: m.id, key: 'k', from: { data: 't' + m.t }, encode: { enter: { cursor: 'pointer' }, update: u } };
  if (LINES[m.type]) { delete s.key; s.groupBy = m.by ? 'g' : undefined; if (!m.by) delete s.groupBy; } else if (m.by) s.groupBy = 'g';
  if (m.type === 'glyph') s.glyphType = 'ripplePoint';
  if (m.coord) s.coordinate = 'co';
  if (m.state) { s.state = d => (d.v % 2 ? 'odd' : []); s.encode.odd = { shadowBlur: 3 + m.c }; }
  if (m.anim) s.animation = { enter: { type: 'fadeIn', duration: 60 }, update: { type: 'update', duration: 60 } };
  if (m.exit) s.animation = Object.assign(s.animation || {}, { exit: { type: 'fadeOut', duration: 80 } });
  if (m.morph) s.morph = true;
  if (m.morphKey) s.morphKey = m.morphKey;
  if (m.morphElementKey) s.morphElementKey = m.morphElementKey;
  return s;
}
function specOf(v) {
  const dom = v.sType === 'band' || v.sType === 'point' ? { domain: v.sFixed ? ['a', 'b'] : { data: 't0', field: 'v' }, range: [0, 200] } : { domain: v.sFixed ? [1, 80] : { data: 't0', field: 'v' }, range: [0, 150 + v.coShift] };
  const spec = {
    width: 300, height: 300, padding: 0,
    signals: [{ id: 'z', value: v.z }, { id: 'y', update: { callback: (o, p) => p.z * 2, dependency: ['z'] } }],
    data: [{ id: 't0', values: clone(v.tables[0]), transform: v.filter === null ? [] : [{ type: 'filter', callback: d => d.v > v.filter }] }, v.derived ? { id: 't1', source: 't0', transform: [{ type: 'map', as: 'v', callback: d => d.v }] } : { id: 't1', values: clone(v.tables[1]) }],
    scales: [{ id: 's', type: v.sType, ...dom }],
    coordinates: [v.co === 'polar' ? { id: 'co', type: 'polar', start: [0, 0], end: [100, 100], origin: [50, 50] } : { id: 'co', type: 'cartesian', start: [0, 0], end: [200, 200], translate: [v.coShift, 3] }],
    marks: v.marks.filter(m => !m.group).map(markSpec)
  };
  if (v.derived) delete spec.data[1].values;
  if (v.G) spec.marks.push({ type: 'group', id: 'G', encode: { update: { x: v.gx, y: 40, width: 200, height: 200 } }, marks: v.marks.filter(m => m.group).map(markSpec) });
  return spec;
}

// ---------------------------------------------------------------- what is shown
function leaves(g, out = []) { (g.getChildren ? g.getChildren() : []).forEach(ch => { if (ch.type === 'group' && !ch.__component) leaves(ch, out); else out.push(ch); }); return out; }
const POINTS = a => (a.segments ? [].concat(...a.segments.map(s => s.points)) : a.points || []).map(p => ({ x: p.x, y: p.y, x1: p.x1, y1: p.y1 }));
function strip(a, type) {
  const o = { ...a };
  ['opacity', 'fillOpacity', 'strokeOpacity'].forEach(k => { if (o[k] === 1) delete o[k]; });
  if (o.visible === true) delete o.visible;
  if (LINES[type]) { o.points = POINTS(a); delete o.segments; }
  delete o.imageAttrs;
  delete o.ratio; // vrender's split transition leaves an attribute of its own
  return V.norm(o);
}
const place = g => { const m = g.globalTransMatrix; return V.norm([m.a, m.b, m.c, m.d, m.e, m.f]); };
function shape(g) { return { type: g.type, attrs: V.norm(Object.fromEntries(Object.entries(g.attribute).filter(([k]) => ['x', 'y', 'text', 'points', 'visible', 'width', 'height', 'fill', 'stroke', 'textAlign', 'angle'].includes(k)))), kids: (g.getChildren ? g.getChildren() : []).map(shape) }; }
function scene(view, v) {
  const out = { marks: {}, own: 0, scale: V.snapScale(view.getScaleById('s')), data: V.norm(['t0', 't1'].map(t => view.getDataById(t).output())), signals: [view.getSignalById('z').output(), view.getSignalById('y').output()], co: V.norm([[1, 2], [30, 40]].map(([x, y]) => view.getCoordinateById('co').output().convert(v.co === 'polar' ? { r: x, theta: y } : { x, y }))) };
  const gs = [];
  v.marks.forEach(m => {
    const mark = view.getMarkById(m.id);
    if (!mark) { out.marks[m.id] = 'missing'; return; }
    out.marks[m.id] = mark.elements.map(e => {
      const g = e.getGraphicItem();
      gs.push(g);
      const r = { key: m.type === 'axis' ? null : V.norm(e.key), group: V.norm(e.groupKey), data: m.type === 'axis' ? null : V.norm(e.data), states: e.states.slice(), at: place(g), type: g.type };
      if (m.type === 'axis') r.look = shape(g); else r.attrs = strip(g.attribute, m.type);
      if (m.type === 'glyph') { const p = e.getGlyphGraphicItems(); r.parts = Object.keys(p).sort().map(k => [k, strip(p[k].attribute)]); }
      return r;
    });
    if (LINES[m.type]) out.marks[m.id].forEach(r => { delete r.key; });
  });
  gs.forEach(g => { if (g.type === 'group') g.__component = true; });
  const all = leaves(view.rootMark.getGroupGraphicItem());
  gs.forEach(g => { delete g.__component; });
  out.drawn = all.length; out.stray = all.filter(g => !gs.includes(g)).map(g => g.type); out.lost = gs.filter(g => !all.includes(g)).map(g => g.type);
  out.graphics = gs;
  return out;
}
const running = g => { let n = 0; g.animates && g.animates.forEach(a => { if (a.status !== 'end' && a.status !== 3) n++; }); return n; };

async function run(c, env, kind) {
  await withClock(async clock => {
    const view = V.mkView({ width: 300, height: 300 });
    const errs = [], old = console.error; console.error = (...a) => errs.push(a);
    try {
      let v = clone(c.first);
      view.parseSpec(specOf(v)); view.run();
      const wait = ms => { for (let t = 0; t < ms; t += FRAME) clock.advance(FRAME); };
      const edit = e => {
        if (e.o === 'wait') return;
        if (e.o === 'rows') { if (v.derived && e.t === 1) return; v.tables[e.t] = clone(e.rows); view.getDataById('t' + e.t).values(clone(e.rows)); }
        if (e.o === 'sig') { v.z = e.z; view.getSignalById('z').value(e.z); }
        view.run();
      };
      const compare = when => {
        const ref = V.mkView({ width: 300, height: 300 });
        let want, got;
        try { ref.parseSpec(specOf(v)); ref.run(); wait(300); want = scene(ref, v); } finally { ref.release(); }
        got = scene(view, v);
        env.obs('scenes compared'); env.obs('elements compared', want.graphics.length);
        if (want.graphics.length) env.nontrivial = true;
        for (const k of ['scale', 'data', 'signals', 'co']) { const d = V.diff(got[k], want[k]); env.check(!d, () => `${when}: the ${k} is not that of the new specification: ${d}`); }
        v.marks.forEach(m => {
          const g = got.marks[m.id], w = want.marks[m.id];
          env.check(Array.isArray(g), () => `${when}: mark ${m.id} does not exist`);
          const d = V.diff(g, w);
          env.check(!d, () => `${when}: ${m.type} mark ${m.id} is not as in a fresh view: ${d}`);
        });
        env.check(!got.stray.length, () => `${when}: graphics of the old specification are left: ${got.stray}`);
        env.check(!got.lost.length, () => `${when}: graphics of the new specification are not in the scene: ${got.lost}`);
        ['m0', 'm1', 'm2', 'm3'].forEach(id => { if (!v.marks.some(m => m.id === id)) env.check(!view.getMarkById(id), () => `${when}: mark ${id} still exists`); });
        got.graphics.forEach(g => { env.check(!g.pathProxy, () => `${when}: a ${g.type} still has the path of a transition`); env.check(!running(g), () => `${when}: an animation of a ${g.type} never ends`); env.check(!g.shadowRoot, () => `${when}: a ${g.type} keeps the pieces of a transition`); });
        env.check(!view.animate.isAnimating(), () => `${when}: the view is animating for ever`);
      };
      // the animations configured on the marks play again once the transition is over
      const enters = when => {
        const m = v.marks.find(x => x.anim && x.type !== 'axis' && !LINES[x.type] && !(v.derived && x.t === 1));
        if (!m) return;
        edit({ o: 'rows', t: m.t, rows: [{ k: 'new' + (fresh += 1), v: 85, w: 10, g: 'p', m: 's' }] });
        wait(FRAME);
        const g = view.getMarkById(m.id).elements.filter(e => e.key === 'new' + fresh)[0].getGraphicItem();
        env.obs('animations after a transition');
        env.check(running(g) > 0, () => `${when}: ${m.type} mark ${m.id} does not animate any longer when an element enters`);
        wait(400);
      };
      let fresh = 0;
      for (const [j, s] of c.steps.entries()) {
        const when = `step ${j} (${s.how})`;
        wait(s.wait);
        s.edits.forEach(edit);
        const prev = v, before = {};
        prev.marks.forEach(m => { before[m.id] = new Map(view.getMarkById(m.id).elements.map(e => [e.groupKey + '/' + e.key, e.getGraphicItem()])); });
        if (s.how === 'spec') { v = clone(s.next); view.updateSpec(specOf(v)); }
        else if (s.how === 'parts') {
          // the marks are replaced one by one, everything else stays
          const marks = clone(s.next.marks).map(m => limit(m, v));
          prev.marks.forEach(m => view.removeGrammar(m.id));
          v = { ...v, marks };
          marks.forEach(m => { const sp = markSpec(m), par = m.group ? view.getMarkById('G') : view.rootMark; const mk = m.type === 'axis' ? view.axis(par) : m.type === 'glyph' ? view.glyph('ripplePoint', par) : view.mark(m.type, par); mk.parse(sp); });
        } else if (prev.marks.length) { const gone = prev.marks[s.pick % prev.marks.length]; v = { ...v, marks: prev.marks.filter(m => m !== gone) }; view.removeGrammar(gone.id); }
        env.saw('replacement', `${s.how} reuse=${s.config.reuse} morph=${s.config.morph}/${s.config.morphAll}`);
        view.run(clone(s.config));
        if (kind === 'morph') { let n = 0; v.marks.forEach(m => view.getMarkById(m.id).elements.forEach(e => { const g = e.getGraphicItem(); if (g && g.pathProxy) n++; })); if (n) env.obs('morphing graphics', n); }
        else if (s.how !== 'remove' && s.config.reuse !== false) v.marks.forEach(m => { // identity
          const p = prev.marks.find(q => q.id === m.id);
          if (!p || p.type !== m.type || p.morph || m.morph || p.morphKey || m.morphKey || m.type === 'axis' || LINES[m.type] || !!p.by !== !!m.by) return;
          view.getMarkById(m.id).elements.forEach(e => { const g = before[m.id].get(e.groupKey + '/' + e.key); if (g) { env.obs('reused elements'); env.check(g === e.getGraphicItem(), () => `${when}: element ${e.key} of ${m.id} is not reused though its key is kept`); } });
        });
        s.after.forEach(e => { wait(e.wait); edit(e); });
        if (s.look || j === c.steps.length - 1) { wait(1500); compare(when); enters(when); }
      }
      env.obs('renderer complaints', errs.length);
    } finally { console.error = old; view.release(); clock.advance(50); }
  });
}

// ---------------------------------------------------------------- when the transitions of single elements run
const genTiming = rng => {
  const shapeOf = () => ({ type: rng.pick(['rect', 'arc', 'circle', 'symbol', 'path']), n: rng.wpick([[3, 1], [2, 2], [2, 3], [1, 5]]) });
  return { from: shapeOf(), to: shapeOf(), delay: rng.pick([undefined, 0, 40, 100]), duration: rng.pick([undefined, 50, 150, 300]), oneByOne: rng.pick([undefined, false, true, 30, 90, 0]), splitPath: rng.pick([undefined, 'clone']), fn: rng.bool(0.4), groups: rng.int(1, 2) };
};
async function runTiming(c, env) {
  await withClock(async clock => {
    const view = V.mkView({ width: 300, height: 300 });
    try {
      const rows = (n, o) => { const out = []; for (let q = 0; q < c.groups; q++) for (let i = 0; i < n; i++) out.push({ k: `${q}${i}`, q: 'q' + q, v: o + i * 20, w: 10 + i * 3 }); return out; };
      const spec = (s, o, id) => ({ width: 300, height: 300, data: [{ id: 't', values: rows(s.n, o) }], marks: [{ type: s.type, id, from: { data: 't' }, key: 'k', morph: true, morphKey: 'M', morphElementKey: 'q', encode: { update: { x: { field: 'v' }, y: { field: 'w' }, fill: 'red', ...(s.type === 'rect' ? { width: 10, height: 12 } : s.type === 'arc' ? { innerRadius: 2, outerRadius: 9, startAngle: 0, endAngle: 3 } : s.type === 'circle' ? { radius: 6 } : s.type === 'symbol' ? { size: 9 } : { path: 'M0 0L10 0L10 10Z' }) } } }] });
      view.parseSpec(spec(c.from, 10, 'a')); view.run();
      const args = [], value = x => (c.fn && x !== undefined ? (data, els) => { args.push([data, els]); return x; } : x);
      view.updateSpec(spec(c.to, 60, 'b'));
      const animation = {};
      ['delay', 'duration', 'oneByOne', 'splitPath'].forEach(k => { if (c[k] !== undefined) animation[k] = value(c[k]); });
      view.run({ morph: true, animation });
      const delay = c.delay ?? 0, duration = c.duration ?? 1000, step = c.oneByOne === true ? duration : c.oneByOne || 0;
      // one → one: together; one → n: the i-th target; n → one: the i-th piece of the target; n → m: in min(n, m) pairs of runs
      const pairs = Math.min(c.from.n, c.to.n), cut = (n, i) => (i === pairs - 1 ? n - Math.floor(n / pairs) * i : Math.floor(n / pairs));
      const els = view.getMarkById('b').elements, want = new Map();
      els.forEach(e => { const q = e.getDatum().q, mine = els.filter(x => x.getDatum().q === q), i = mine.indexOf(e), per = Math.floor(c.to.n / pairs), run = Math.min(Math.floor(i / per), pairs - 1), prev = cut(c.from.n, run), next = cut(c.to.n, run), at = i - per * run; want.set(e, delay + duration + (next > 1 ? at * step : prev > 1 ? (prev - 1) * step : 0)); });
      const done = new Map();
      const total = Math.max(...want.values());
      for (let t = 0; t < total + 200; t += FRAME) {
        els.forEach(e => { const g = e.getGraphicItem(); if (!done.has(e) && !running(g) && !g.shadowRoot) done.set(e, t); });
        clock.advance(FRAME);
      }
      els.forEach(e => {
        env.obs('transitions timed'); env.nontrivial = true;
        const t = done.get(e), w = want.get(e);
        env.check(t !== undefined, () => `the transition of ${e.key} (${c.from.n}→${c.to.n}) never ends`);
        env.check(Math.abs(t - w) <= 4 * FRAME, () => `the transition of ${e.key} (${c.from.n}→${c.to.n} elements, delay ${c.delay}, duration ${c.duration}, one by one ${c.oneByOne}) ends after ${Math.round(t)} ms instead of ${w} ms`);
      });
      env.saw('timing', `${c.from.n}→${c.to.n} ${c.oneByOne}`);
    } finally { view.release(); clock.advance(50); }
  });
}

module.exports = {
  rule: 'after the transitions every element, place, attribute, scale, coordinate, data and signal is that of a fresh view of the new specification, no old graphic, path proxy or animation is left, later updates take effect, and kept keys keep their graphics under reuse',
  mustObserve: ['scenes compared', 'elements compared', 'reused elements', 'morphing graphics', 'transitions timed'],
  scenarios: [
    { name: 'reuse', weight: 3, quick: 300, gen: gen(false), run: (c, env) => run(c, env, 'reuse') },
    { name: 'morph', weight: 3, quick: 250, gen: gen(true), run: (c, env) => run(c, env, 'morph') },
    { name: 'timing', weight: 1, quick: 80, gen: genTiming, run: runTiming }
  ]
};
