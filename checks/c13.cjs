'use strict';
// Progressive rendering: real views whose marks are rendered step by step, frame by frame on a virtual clock, with updates,
// removals and re-additions arriving at any frame; every frame is compared with a fresh view that renders the same specification at once.
const V = require('../lib/view.cjs');
const { withClock } = require('../lib/clock.cjs');
const W = V.vg.wordcloud;
W.registerWordCloudTransforms();
const js = JSON.stringify, clone = x => JSON.parse(js(x));
const wp = (rng, list) => { const v = rng.wpick(list); return typeof v === 'function' ? v() : v; };
const FRAME = 1000 / 60 + 0.01, COLORS = ['red', 'green', 'blue', 'orange', 'black'];
const TYPES = ['symbol', 'rect', 'rule', 'text', 'line', 'area', 'glyph'];
const LINES = { line: 1, area: 1 };

// ---------------------------------------------------------------- generation
function genRows(rng, n) {
  const g = rng.pick([1, 2, 3]), skew = rng.bool(0.5);
  return rng.shuffle(Array.from({ length: n }, (_, i) => i)).map(k => ({ k, v: rng.num(0, 100, 1), w: rng.num(1, 50, 1), g: 'g' + (skew ? (rng.bool(0.8) ? 0 : rng.int(0, g - 1)) : rng.int(0, g - 1)) }));
}
const amount = rng => rng.wpick([[1, 0], [2, () => 0], [8, 1]]) === 1 ? rng.int(1, 40) : rng.int(0, 12);
function genMark(rng, i, tables) {
  const step = rng.int(1, 7), type = rng.pick(TYPES);
  return {
    type, t: rng.int(0, tables - 1), step, threshold: step + rng.int(1, 12), groupBy: rng.bool(0.6), groupSort: rng.bool(0.2), keyed: rng.bool(0.8),
    a: rng.num(-2, 3, 1), b: rng.int(0, 60), scale: rng.bool(0.3), sig: rng.bool(0.3), enter: rng.bool(0.3), states: rng.bool(0.3), group: rng.wpick([[5, 0], [3, 1], [1, 2]]), defined: LINES[type] && rng.bool(0.25), anim: rng.bool(0.15), own: rng.bool(0.5)
  };
}
function gen(rng) {
  const tables = rng.int(1, 2), n = rng.int(1, 3);
  const marks = rng.times(n, i => genMark(rng, i, tables));
  const ops = rng.times(rng.int(2, 9), () => wp(rng, [
    [5, () => ({ o: 'frames', n: rng.int(1, 6) })], [1.5, () => ({ o: 'settle' })],
    [3, () => ({ o: 'rows', t: rng.int(0, tables - 1), rows: genRows(rng, amount(rng)) })],
    [2, () => ({ o: 'aside', rows: genRows(rng, rng.int(0, 5)) })],
    [1.5, () => ({ o: 'aside-sig' })], [1.5, () => ({ o: 'sig' })],
    [1, () => ({ o: 'encode', i: rng.int(0, n - 1), a: rng.num(-2, 3, 1), b: rng.int(0, 60) })],
    [1, () => ({ o: 'remove', i: rng.int(0, n - 1) })], [1, () => ({ o: 'restore', i: rng.int(0, n - 1) })],
    [0.5, () => ({ o: 'idle' })], [0.6, () => ({ o: 'late', t: rng.int(0, tables - 1), rows: genRows(rng, amount(rng)) })]
  ]));
  return { tables: rng.times(tables, () => genRows(rng, amount(rng))), marks, aside: genRows(rng, rng.int(0, 5)), asideAnim: rng.bool(0.6), ops };
}

// ---------------------------------------------------------------- the specification, progressive or not
function encoders(m) {
  const x = m.scale ? { scale: 's', field: 'v' } : { callback: (d, e, p) => m.a * d.v + m.b + (m.sig ? p.z : 0), dependency: m.sig ? ['z'] : [] };
  const y = { callback: (d, e, p) => d.w + (m.sig && m.scale ? p.z : 0), dependency: m.sig ? ['z'] : [] };
  const u = { x, y };
  if (m.type === 'symbol') u.size = { field: 'w' };
  if (m.type === 'rect') { u.width = { field: 'w' }; u.height = { callback: d => d.v / 2 + m.b }; }
  if (m.type === 'rule') { u.x1 = { callback: d => d.v + m.b }; u.y1 = 100; }
  if (m.type === 'text') u.text = { callback: d => `${d.k}/${m.b}` };
  if (m.type === 'area') u.y1 = 120;
  if (m.type === 'glyph') { u.size = { field: 'w' }; u.ripple = { callback: d => d.v / 100 }; }
  if (m.defined) u.defined = { callback: d => d.k % 4 !== 1 };
  if (m.own) u[LINES[m.type] || m.type === 'rule' ? 'lineWidth' : 'opacity'] = { callback: d => (LINES[m.type] ? 2 + m.b : (d.k % 5) / 5) };
  const e = { update: u };
  const color = LINES[m.type] || m.type === 'rule' ? 'stroke' : 'fill';
  if (m.group) {
    e.group = { [color]: { callback: (d, el, p) => COLORS[(+d.g.slice(1) + m.b) % 5] } };
    if (m.group === 2) e.group.cursor = 'crosshair';
  } else u[color] = COLORS[m.b % 5];
  if (m.enter && m.keyed && !LINES[m.type]) e.enter = { shadowBlur: { callback: d => d.k % 7 } };
  if (m.states) e.hot = { lineDash: [m.step, 2] };
  return e;
}
function markSpec(m, i, progressive) {
  const s = { type: m.type, id: 'm' + i, from: { data: 't' + m.t }, encode: encoders(m) };
  if (m.keyed) s.key = 'k';
  if (m.type === 'glyph') s.glyphType = 'ripplePoint';
  if (m.groupBy) s.groupBy = 'g';
  if (m.groupBy && m.groupSort && LINES[m.type]) s.groupSort = (p, q) => p.v - q.v || p.k - q.k;
  if (m.states) s.state = d => (d.k % 3 === 0 ? 'hot' : []);
  if (progressive) { s.progressiveStep = m.step; s.progressiveThreshold = m.threshold; if (m.anim) s.animation = { enter: { type: 'fadeIn', duration: 40 }, update: { type: 'update', duration: 40 } }; }
  return s;
}
function asideSpec(c, animated) {
  const s = { type: 'symbol', id: 'aside', from: { data: 'plain' }, key: 'k', encode: { update: { x: { field: 'v' }, y: { signal: 'u' }, size: { field: 'w' }, fill: 'red' } } };
  if (animated && c.asideAnim) s.animation = { enter: { channel: { size: { from: 0 }, x: { from: -50 } }, duration: 48 }, update: { type: 'update', duration: 32 }, exit: { type: 'fadeOut', duration: 32 } };
  return s;
}
function specOf(c, st, progressive) {
  return {
    width: 300, height: 300, padding: 0,
    signals: [{ id: 'z', value: st.z }, { id: 'u', value: st.u }],
    data: st.tables.map((rows, t) => ({ id: 't' + t, values: clone(rows) })).concat({ id: 'plain', values: clone(st.aside) }),
    scales: [{ id: 's', type: 'linear', domain: { data: 't0', field: 'v' }, range: [0, 200] }],
    marks: c.marks.map((m, i) => ({ type: 'group', id: 'G' + i, marks: st.present[i] ? [markSpec(st.marks[i], i, progressive)] : [] })).concat({ type: 'group', id: 'GA', marks: [asideSpec(c, progressive)] })
  };
}

// ---------------------------------------------------------------- what is shown
const pick = p => ({ x: p.x, y: p.y, x1: p.x1, y1: p.y1, defined: p.defined === false ? false : undefined });
const pointsOf = a => (a.segments ? [].concat(...a.segments.map(s => s.points)) : a.points || []).map(pick);
function leaves(g, type, out = []) { g.forEachChildren && g.forEachChildren(ch => { if (ch.type === 'group') leaves(ch, type, out); else out.push(ch); }); return out; }
const OWN_ONLY = { points: 1, segments: 1 };
function effective(g) {
  const o = {}, a = g.attribute, t = g.getGraphicTheme();
  for (const k of ['fill', 'stroke', 'cursor']) if (t[k] !== undefined) o[k] = t[k]; // a group encoding is inherited from the group drawn
  for (const k of Object.keys(a)) if (!OWN_ONLY[k] && k !== 'imageAttrs' && a[k] !== undefined) o[k] = a[k];
  return o;
}
/** per group: the data shown, in order, with everything drawn for it */
function shown(view, i, m, env) {
  const mark = view.getMarkById('m' + i), res = {}, gs = leaves(view.getMarkById('G' + i).getGroupGraphicItem());
  if (!mark) return { none: gs.length };
  const els = mark.elements, own = els.map(e => e.getGraphicItem());
  const bad = [];
  if (new Set(own).size !== own.length || own.some(g => !g)) bad.push('two elements of a mark share one graphic or have none');
  if (gs.length !== own.length || gs.some(g => !own.includes(g))) bad.push(`the graphics drawn for a mark are not those of its elements (${gs.length} drawn, ${own.length} elements)`);
  els.forEach(e => {
    const g = e.getGraphicItem(), list = res[e.groupKey] || (res[e.groupKey] = []);
    if (!g) return;
    if (LINES[m.type]) {
      if (list.length) bad.push('a line or area of one group has two elements');
      const a = effective(g); list.push(...pointsOf(g.attribute).map(p => ({ at: p }))); list.attrs = a;
    } else {
      const it = { at: e.getDatum().k, attrs: effective(g), states: e.states.slice() };
      if (m.type === 'glyph') { const parts = e.getGlyphGraphicItems(); it.parts = Object.fromEntries(Object.keys(parts).sort().map(k => [k, V.norm(parts[k].attribute)])); }
      list.push(it);
    }
  });
  return { groups: res, bad };
}
const strip = a => { const o = { ...a }; ['pickable', 'incremental', 'zIndex'].forEach(k => { if (o[k] === undefined || k === 'incremental') delete o[k]; }); ['opacity', 'fillOpacity', 'strokeOpacity'].forEach(k => { if (o[k] === 1) delete o[k]; }); return V.norm(o); };

const lengths = (rows, m) => { const by = {}; rows.forEach(r => { const k = m.groupBy ? r.g : 'all'; by[k] = (by[k] || 0) + 1; }); return by; };
async function run(c, env) {
  await withClock(async clock => {
    const st = { z: 0, u: 5, tables: clone(c.tables), aside: clone(c.aside), marks: clone(c.marks), present: c.marks.map(() => true) };
    const view = V.mkView({ width: 300, height: 300 });
    let alive = true;
    try {
      view.parseSpec(specOf(c, st, true)); view.run();
      // model: frames of progress since a mark was last evaluated (null: drawn at once)
      const frames = c.marks.map(() => 0);
      const evaluated = f => c.marks.forEach((m, i) => { if (f(st.marks[i], i)) frames[i] = 0; });
      let sheets = null;
      const check = (when, settled) => {
        if (!sheets) { sheets = V.mkView({ width: 300, height: 300 }); sheets.parseSpec(specOf(c, st, false)); sheets.run(); }
        c.marks.forEach((m0, i) => {
          const m = st.marks[i], id = `${when}: ${m.type} mark m${i}`;
          const got = shown(view, i, m, env);
          if (!st.present[i]) { env.check(!got.none, () => `${id} is removed but ${got.none} graphics of it are still drawn`); return; }
          env.check(!got.bad.length, () => `${id}: ${got.bad[0]}`);
          const want = shown(sheets, i, m, env).groups, len = lengths(st.tables[m.t], m);
          const over = Object.values(len).some(n => n > m.threshold), most = Math.max(0, ...Object.values(len));
          const steps = Math.max(1, Math.ceil(most / m.step)), doing = over && frames[i] + 1 < steps;
          const mark = view.getMarkById('m' + i);
          env.check(!!mark.isDoingProgressive() === doing, () => `${id} ${doing ? 'is not' : 'is still'} being rendered progressively after ${frames[i]} frames of ${steps} steps`, { rows: len, step: m.step, threshold: m.threshold });
          const limit = over ? m.step * (frames[i] + 1) : Infinity;
          if (over) { env.nontrivial = true; env.obs('frames of progressive marks compared'); env.saw('progress', `${m.type}${m.groupBy ? ' grouped' : ''} ${doing ? 'partial' : 'done'}`); }
          if (over && Object.values(len).some(n => n <= frames[i] * m.step) && doing) env.obs('groups that ended before others');
          if (m.anim && !over && !settled) return;
          env.check(V.same(Object.keys(got.groups).sort(), Object.keys(want).sort()), () => `${id} shows the groups ${Object.keys(got.groups)} and not ${Object.keys(want)}`);
          for (const g of Object.keys(want)) {
            const w = want[g], s = got.groups[g] || [], n = Math.min(w.length, limit);
            env.check(s.length === n, () => `${id} shows ${s.length} of the ${w.length} items of group ${g} after ${frames[i]} frames with step ${m.step} (expected ${n})`);
            env.obs('items compared', n);
            for (let k = 0; k < n && k < s.length; k++) {
              env.check(V.same(s[k].at, w[k].at), () => `${id} group ${g}: item ${k} is ${js(s[k].at)} and not ${js(w[k].at)}`);
              if (LINES[m.type]) continue;
              const d = V.diff(strip(s[k].attrs), strip(w[k].attrs)) || V.diff(V.norm(s[k].states), V.norm(w[k].states)) || V.diff(s[k].parts, w[k].parts);
              env.check(!d, () => `${id} group ${g} item ${k}: drawn differently than at once: ${d}`, { frames: frames[i] });
            }
            if (LINES[m.type]) { const d = V.diff(strip(s.attrs), strip(w.attrs)); env.check(!d, () => `${id} group ${g}: drawn differently than at once: ${d}`); }
          }
        });
        if (settled) {
          const list = v => v.getMarkById('aside').elements.map(e => ({ k: e.getDatum().k, a: strip(e.getGraphicItem().attribute) })), d = V.diff(list(view), list(sheets));
          env.check(!d, () => `${when}: an ordinary mark beside the progressive ones is not as specified: ${d}`);
          const n = leaves(view.getMarkById('GA').getGroupGraphicItem()).length;
          env.check(n === st.aside.length, () => `${when}: ${n} graphics are drawn for the ${st.aside.length} items of an ordinary mark`);
          env.obs('ordinary marks compared');
        }
      };
      const changed = () => { if (sheets) { sheets.release(); sheets = null; } };
      const frame = () => { clock.advance(FRAME); c.marks.forEach((m, i) => frames[i]++); };
      check('at first');
      for (const [j, o] of c.ops.entries()) {
        const when = `after operation ${j} (${o.o})`;
        env.saw('operation', o.o);
        if (o.o === 'frames') { for (let k = 0; k < o.n; k++) { frame(); check(`${when} frame ${k}`); } continue; }
        if (o.o === 'settle') { for (let k = 0; k < 60; k++) frame(); check(when, true); continue; }
        if (o.o === 'idle') { view.run(); check(when); continue; }
        const mid = c.marks.some((m, i) => st.present[i] && view.getMarkById('m' + i).isDoingProgressive());
        if (mid) env.obs('updates in the middle of progress');
        if (o.o === 'rows' || o.o === 'late') {
          st.tables[o.t] = clone(o.rows); changed();
          view.getDataById('t' + o.t).values(clone(o.rows));
          if (o.o === 'late') { const old = frames.slice(); clock.advance(FRAME); old.forEach((f, i) => { frames[i] = f + 1; }); } // a frame before the update is run
          view.run(); evaluated(m => m.t === o.t || (m.scale && o.t === 0));
        } else if (o.o === 'aside') { st.aside = clone(o.rows); changed(); view.getDataById('plain').values(clone(o.rows)); view.run(); }
        else if (o.o === 'aside-sig') { st.u += 3; changed(); view.getSignalById('u').value(st.u); view.run(); }
        else if (o.o === 'sig') { st.z += 7; changed(); view.getSignalById('z').value(st.z); view.run(); evaluated(m => m.sig); }
        else if (o.o === 'encode') { if (!st.present[o.i]) continue; const m = st.marks[o.i]; m.a = o.a; m.b = o.b; changed(); const e = encoders(m); view.getMarkById('m' + o.i).encode(e.update); for (const k of ['group', 'hot', 'enter']) if (e[k]) view.getMarkById('m' + o.i).encodeState(k, e[k]); view.run(); evaluated((q, i) => i === o.i); }
        else if (o.o === 'remove') { if (!st.present[o.i]) continue; st.present[o.i] = false; changed(); view.removeGrammar('m' + o.i); view.run(); }
        else if (o.o === 'restore') { if (st.present[o.i]) continue; st.present[o.i] = true; changed(); const m = st.marks[o.i]; const mk = m.type === 'glyph' ? view.glyph('ripplePoint', 'G' + o.i) : view.mark(m.type, 'G' + o.i); mk.parse(markSpec(m, o.i, true)); view.run(); evaluated((q, i) => i === o.i); }
        check(when);
      }
      for (let k = 0; k < 60; k++) frame();
      check('in the end', true);
      const mid = c.marks.some((m, i) => st.present[i] && view.getMarkById('m' + i).isDoingProgressive());
      env.check(!mid, 'progressive rendering never ends');
      changed();
    } finally { if (alive) view.release(); clock.advance(100); }
  });
}

// ---------------------------------------------------------------- leaving in the middle
function genLeave(rng) { const c = gen(rng); c.marks.forEach(m => { m.t = 0; }); c.tables[0] = genRows(rng, rng.int(20, 60)); c.wait = rng.int(0, 4); return c; }
async function runLeave(c, env) {
  await withClock(async clock => {
    const st = { z: 0, u: 5, tables: clone(c.tables), aside: clone(c.aside), marks: clone(c.marks), present: c.marks.map(() => true) };
    const view = V.mkView({ width: 300, height: 300 });
    view.parseSpec(specOf(c, st, true)); view.run();
    for (let k = 0; k < c.wait; k++) clock.advance(FRAME);
    const doing = c.marks.filter((m, i) => view.getMarkById('m' + i).isDoingProgressive()).length;
    if (doing) { env.nontrivial = true; env.obs('views released in the middle of progress'); }
    let work = 0;
    const proto = Object.getPrototypeOf(view.getMarkById('m0')), marks = c.marks.map((m, i) => view.getMarkById('m' + i));
    marks.forEach(m => { const f = m.evaluateProgressive; m.evaluateProgressive = function () { work++; return f.call(this); }; });
    view.release();
    for (let k = 0; k < 20; k++) clock.advance(FRAME);
    env.check(!work, 'a released view goes on with progressive rendering');
  });
}

// ---------------------------------------------------------------- word clouds laid out step by step
function genCloud(rng) {
  const words = n => rng.times(n, i => ({ k: i, name: rng.pick(['ab', 'word', 'Longer', 'x', 'cloud', '12']) + i, v: rng.num(1, 50, 1) }));
  return {
    kind: rng.pick(['fast', 'cloud', 'grid']), rows: words(rng.int(1, 14)), step: rng.int(1, 5), fontSize: rng.bool(0.5) ? 14 : { field: 'v' }, shape: rng.pick(['circle', 'rect', 'diamond']), rotate: rng.pick([[0], [0, 90]]),
    anim: rng.bool(0.4), beside: rng.bool(0.5),
    ops: rng.times(rng.int(1, 6), () => wp(rng, [[4, () => ({ o: 'frames', n: rng.int(1, 4) })], [2, () => ({ o: 'aside' })], [1.5, () => ({ o: 'rows', rows: words(rng.int(0, 14)) })], [1, () => ({ o: 'color' })], [0.6, () => ({ o: 'settle' })]]))
  };
}
function withDom(f) {
  const had = 'document' in globalThis, old = globalThis.document;
  const mk = (w, h) => { const cv = V.canvas.createCanvas(w, h); cv.setAttribute = (k, v) => { cv[k] = +v; }; return cv; };
  globalThis.document = { createElement: () => mk(300, 150) };
  return Promise.resolve().then(f).finally(() => { if (had) globalThis.document = old; else delete globalThis.document; });
}
const cloudOptions = c => ({ type: 'wordcloud', text: { field: 'name' }, size: [200, 160], layoutType: c.kind, fontSize: c.fontSize, fontSizeRange: typeof c.fontSize === 'object' ? [10, 26] : undefined, shape: c.shape, rotate: c.rotate, color: '#222' });
async function runCloud(c, env) {
  await withDom(() => withClock(async clock => {
    const st = { rows: clone(c.rows), color: 'red', u: 1 };
    const build = progressive => {
      const view = V.mkView({ width: 300, height: 300 }), o = cloudOptions(c);
      for (const k of Object.keys(o)) if (o[k] === undefined) delete o[k];
      if (progressive) o.progressiveStep = c.step;
      const marks = [{ type: 'text', id: 'm', key: 'k', from: { data: 'd' }, transform: [o], encode: { update: { text: { field: 'name' }, x: { field: 'x' }, y: { field: 'y' }, angle: { field: 'angle' }, fontSize: { field: 'fontSize' }, fill: { signal: 'color' } } } }, { type: 'symbol', id: 'n', encode: { update: { x: { signal: 'u' }, y: 1, size: 5 } } }];
      if (progressive && c.anim) { marks[0].animation = { enter: { type: 'fadeIn', duration: 40 }, update: { type: 'update', duration: 40 } }; marks[1].animation = { update: { type: 'update', duration: 40 } }; }
      view.parseSpec({ signals: [{ id: 'color', value: st.color }, { id: 'u', value: st.u }], data: [{ id: 'd', values: clone(st.rows) }], marks });
      view.run();
      return view;
    };
    const view = build(true);
    const list = v => v.getMarkById('m').elements.map(e => { const g = e.getGraphicItem(), a = g.attribute; return [a.text, a.x, a.y, a.angle || 0, a.fontSize, a.fill].map(x => (typeof x === 'number' ? +x.toFixed(6) : x)); }).sort((a, b) => (a[0] < b[0] ? -1 : 1));
    let before = 0;
    const full = when => {
      for (let k = 0; k < 60; k++) clock.advance(FRAME);
      const ref = build(false), want = list(ref), got = list(view); ref.release();
      env.obs('word clouds compared'); env.obs('words compared', want.length);
      if (want.length > c.step) env.nontrivial = true;
      env.check(!view.getMarkById('m').isDoingProgressive(), `${when}: the word cloud is never finished`);
      env.check(js(got) === js(want), () => `${when}: a word cloud laid out step by step is not that laid out at once: ${V.diff(got, want)}`, { got: got.length, want: want.length });
      const drawn = leaves(view.rootMark.getGroupGraphicItem()).filter(g => g.type === 'text').length;
      env.check(drawn === want.length, () => `${when}: ${drawn} texts are drawn for the ${want.length} words`);
      const n = view.getMarkById('n').elements[0].getGraphicItem().attribute.x;
      env.check(n === st.u, () => `${when}: the mark beside a word cloud is at ${n} and not ${st.u}`);
    };
    try {
      for (const [j, o] of c.ops.entries()) {
        const when = `after operation ${j} (${o.o})`;
        if (view.getMarkById('m').isDoingProgressive() && o.o !== 'frames' && o.o !== 'settle') env.obs('updates of unfinished word clouds');
        if (o.o === 'frames') {
          for (let k = 0; k < o.n; k++) {
            before = view.getMarkById('m').elements.length; clock.advance(FRAME);
            const now = view.getMarkById('m').elements.length;
            env.check(now >= before && now - before <= c.step, () => `${when}: ${now - before} words appear in one frame with step ${c.step}`);
          }
        } else if (o.o === 'aside') { st.u += 4; view.getSignalById('u').value(st.u); view.run(); }
        else if (o.o === 'color') { st.color = st.color === 'red' ? 'blue' : 'red'; view.getSignalById('color').value(st.color); view.run(); }
        else if (o.o === 'rows') { st.rows = clone(o.rows); view.getDataById('d').values(clone(o.rows)); view.run(); }
        else full(when);
      }
      full('in the end');
    } finally { view.release(); clock.advance(50); }
  }));
}

module.exports = {
  rule: 'at every frame a progressively rendered mark shows exactly the first step × (frames + 1) items of each group, each once and drawn as a fresh view draws them at once; updates restart the marks they concern, leave the others going on, and ordinary marks beside them settle as specified',
  mustObserve: ['frames of progressive marks compared', 'items compared', 'updates in the middle of progress', 'groups that ended before others', 'ordinary marks compared', 'views released in the middle of progress', 'word clouds compared', 'updates of unfinished word clouds'],
  scenarios: [
    { name: 'progress', weight: 6, quick: 360, gen, run },
    { name: 'leave', weight: 1, quick: 80, gen: genLeave, run: runLeave },
    { name: 'cloud', weight: 2, quick: 120, gen: genCloud, run: runCloud }
  ]
};
