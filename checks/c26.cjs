'use strict';
// The chart-level API: charts of the plot API show the rows, scales, colours and components they describe, after every change.
const V = require('../lib/view.cjs');
const js = JSON.stringify, clone = x => JSON.parse(js(x));
const wp = (rng, list) => { const v = rng.wpick(list); return typeof v === 'function' ? v() : v; };
const { Rng } = require('../lib/rng.cjs');
const { Plot } = V.vg.plot, { ThemeManager } = V.vg.full;
const base = ThemeManager.getDefaultTheme(), PALETTES = { default: base.palette.default, warm: ['#a10000', '#b20000', '#c30000', '#d40000', '#e50000', '#f60000', '#aa1100', '#bb2200'], cold: ['#0000a1', '#0000b2', '#0000c3'] };
['warm', 'cold'].forEach(n => ThemeManager.registerTheme(n, { ...base, name: n, palette: { default: PALETTES[n] } }));

// ---------------------------------------------------------------- charts
const KS = ['a', 'b', 'c', 'd', 'e'], GS = ['p', 'q', 'r', 's'];
const genRows = (rng, from = 0) => { const n = rng.int(1, 8), ks = rng.sample(KS, rng.int(1, 4)), gs = rng.sample(GS, rng.int(1, 3)); return rng.times(n, i => ({ id: from + i, k: rng.pick(ks), g: rng.pick(gs), h: rng.pick(GS), v: rng.int(1, 100), u: rng.int(-50, 50), w: rng.int(1, 9), t: 'T' + rng.int(0, 99) })); };
const TYPES = ['interval', 'line', 'area', 'cell', 'ruleX', 'ruleY', 'rect', 'rectX', 'rectY', 'rule', 'symbol', 'text', 'image', 'polygon', 'path'];
const RANGED = { interval: 'y', area: 'y', rect: 'y', rule: 'y', image: 'y', ruleY: 'x' };
function genEnc(rng, type, num) {
  const e = {}, one = () => rng.pick(['v', 'u']), X = num ? 'v' : 'k';
  if (type !== 'rectY' && type !== 'path' && !(type === 'ruleY')) e.x = X;
  if (!['rectX', 'ruleX', 'path'].includes(type)) e.y = RANGED[type] === 'y' && rng.bool(0.4) ? ['u', 'v'] : one();
  if (type === 'ruleY' && num && rng.bool(0.5)) e.x = ['u', 'v'];
  if (type === 'rule' && num && rng.bool(0.4)) e.x = ['u', 'v'];
  if (type === 'polygon') { e.x = num ? ['v', 'u', 'w'] : ['k', 'k', 'k']; e.y = ['v', 'u', 'w']; }
  if (type !== 'path' && rng.bool(0.5)) e.group = 'g';
  if (rng.bool(0.3)) e.color = rng.pick(['g', 'h']);
  if (['line', 'area'].includes(type) && e.color) e.color = 'g', e.group = 'g';
  if (type === 'symbol') { if (rng.bool(0.3)) e.size = 'w'; if (rng.bool(0.3)) e.shape = 'h'; }
  if (type === 'text') e.text = rng.pick(['t', 'k']);
  if (type === 'image' && rng.bool(0.3)) e.src = 'h';
  return e;
}
function genScale(rng, type, num) {
  const s = {};
  if (num) s.x = { type: 'linear', ...(rng.bool(0.3) ? { zero: true } : {}) }; else if (rng.bool(0.3)) s.x = { type: 'band' };
  if (rng.bool(0.3)) s.y = { type: 'linear', zero: true };;
  return s;
}
const LAYOUT = [null, null, { position: 'bottom' }, { position: 'right' }, { position: 'left' }];
function genParts(rng, type, enc, num) {
  const p = { axis: {}, grid: {}, legend: {}, label: {}, datazoom: {}, slider: {}, title: null };
  const has = ch => enc[ch] !== undefined;
  ['x', 'y'].forEach(ch => { if (has(ch) && rng.bool(0.35)) p.axis[ch] = rng.pick([true, true, { tickCount: rng.int(2, 8) }]); if (has('x') && has('y') && rng.bool(0.15)) p.grid[ch] = rng.pick([true, { tickCount: rng.int(2, 8) }]); });
  if (has('group') && rng.bool(0.35)) p.legend.group = { option: true, layout: rng.pick(LAYOUT) }; else if (has('color') && rng.bool(0.3)) p.legend.color = { option: true, layout: rng.pick(LAYOUT) };
  if (['symbol', 'interval', 'line', 'rect'].includes(type) && has('y') && !Array.isArray(enc.y) && rng.bool(0.2)) p.label.y = true;
  if (has('x') && has('y') && !Array.isArray(enc.x) && !Array.isArray(enc.y) && rng.bool(0.1)) p.datazoom.x = true;
  if (has('y') && !Array.isArray(enc.y) && rng.bool(0.1)) p.slider.y = { option: true, layout: rng.pick(LAYOUT) };
  if (rng.bool(0.12)) p.title = { text: rng.pick(['One', 'Two']), subtext: 'sub' };
  return p;
}
const STYLE = { symbol: { size: 7, opacity: 0.5 }, line: { lineWidth: 3, stroke: '#777777' }, rect: { fill: '#888888', opacity: 0.4 }, interval: { fill: '#999999' }, text: { fontSize: 9 }, area: { fill: '#666666' }, image: { width: 20, height: 14 }, ruleX: { stroke: '#555555' }, path: { path: 'M0,0L10,0L10,10Z', fill: '#444444' } };
function genMark(rng, i, c) {
  const type = rng.wpick(TYPES.filter(t => !(c.num && ['interval', 'cell'].includes(t))).map(t => [t === 'symbol' || t === 'interval' || t === 'line' ? 3 : 1, t]));
  const enc = genEnc(rng, type, c.num), shared = c.marks.find(q => q.data === 'd');
  const m = { id: 'm' + i, type, enc, scale: genScale(rng, type, c.num), style: STYLE[type] && rng.bool(type === 'path' ? 1 : 0.4) ? clone(STYLE[type]) : null, data: rng.bool(0.4) ? 'd' : null, parts: genParts(rng, type, enc, c.num) };
  m.rows = m.data && shared ? shared.rows : genRows(rng, i * 100);
  if (c.coord) { m.parts.datazoom = {}; m.parts.slider = {}; }
  Object.keys(m.scale).forEach(k => { if (enc[k] === undefined) delete m.scale[k]; });
  return m;
}
function genEdit(rng) {
  const one = o => ({ o, i: rng.int(0, 9), s: rng.int(0, 1e6) });
  return wp(rng, [[4, () => one('data')], [2, () => one('live')], [3, () => one('legend')], [3, () => one('encode')], [2, () => one('scale')], [2, () => one('style')], [2, () => one('parts')], [1, () => one('mark')], [2, () => ({ o: 'resize', w: rng.int(200, 500), h: rng.int(200, 400) })], [1, () => ({ o: 'theme', v: rng.pick(['warm', 'cold']) })], [1, () => ({ o: 'coord', t: rng.bool() })], [1, () => ({ o: 'update', s: rng.int(0, 1e6) })], [1, () => ({ o: 'run' })]]);
}
function gen(rng) {
  const c = { w: rng.int(250, 500), h: rng.int(220, 400), pad: rng.pick([0, 5, 20]), theme: rng.pick([null, null, 'warm', 'cold']), num: rng.bool(0.35), coord: wp(rng, [[5, null], [2, () => ({ type: 'cartesian', transpose: rng.bool() })], [1, () => ({ type: 'polar', transpose: rng.bool(0.3) })]]), spec: rng.bool(0.35), marks: [], edits: [] };
  if (c.coord && c.coord.type === 'polar') c.num = false;
  rng.times(rng.int(1, 3), i => c.marks.push(genMark(rng, i, c)));
  c.edits = rng.times(rng.int(0, 5), () => genEdit(rng));
  return c;
}
// ---------------------------------------------------------------- two ways to build a chart
function describe(m, part) { // the calls or the declaration of one mark
  const p = m.parts, o = part;
  if (o) {
    o.data(clone(m.rows), undefined, m.data || undefined);
    Object.keys(m.enc).forEach(k => o.encode(k, clone(m.enc[k]))); Object.keys(m.scale).forEach(k => o.scale(k, clone(m.scale[k])));
    if (m.style) o.style(clone(m.style));
    Object.keys(p.axis).forEach(k => o.axis(k, clone(p.axis[k]))); Object.keys(p.grid).forEach(k => o.grid(k, clone(p.grid[k])));
    ['legend', 'slider'].forEach(n => Object.keys(p[n]).forEach(k => o[n](k, p[n][k].option, p[n][k].layout ? clone(p[n][k].layout) : undefined)));
    Object.keys(p.label).forEach(k => o.label(k, p.label[k])); Object.keys(p.datazoom).forEach(k => o.datazoom(k, p.datazoom[k]));
    if (p.title) o.title(clone(p.title));
    return o;
  }
  const layouted = (n) => Object.fromEntries(Object.keys(p[n]).map(k => [k, p[n][k].layout ? clone(p[n][k]) : p[n][k].option]));
  return clone({ type: m.type, id: m.id, data: { values: m.rows, id: m.data || undefined }, encode: m.enc, scale: m.scale, style: m.style || undefined, axis: p.axis, grid: p.grid, legend: layouted('legend'), slider: layouted('slider'), label: p.label, datazoom: p.datazoom, title: p.title || undefined });
}
function mkPlot(c) {
  const plot = new Plot({ width: c.w, height: c.h, padding: c.pad, mode: 'node', modeParams: V.canvas, logLevel: 0, ...(c.theme ? { theme: c.theme } : {}) }), stage = plot.view.renderer.stage();
  if (stage && !stage.eventSystem) { plot.view.__mgr = new V.vrender.EventManager(stage, {}); Object.defineProperty(stage, 'eventSystem', { configurable: true, value: { manager: plot.view.__mgr, release() { }, setCursor() { }, pauseTriggerEvent() { }, resumeTriggerEvent() { } } }); }
  return plot;
}
const specOf = c => ({ width: c.w, height: c.h, padding: c.pad, coordinate: c.coord ? clone(c.coord) : undefined, marks: c.marks.map(m => describe(m)) });
function build(c, spec) {
  const plot = mkPlot(c), own = {};
  if (spec) plot.parseSpec(specOf(c));
  else { if (c.coord) plot.coordinate(c.coord.type, { transpose: c.coord.transpose }); c.marks.forEach(m => { own[m.id] = describe(m, plot[m.type]()); own[m.id].spec.id = m.id; }); }
  plot.run();
  return { plot, own };
}
// ---------------------------------------------------------------- what is drawn
function clean(v, depth = 0) {
  if (typeof v === 'function' || v === undefined || depth > 7) return undefined;
  if (typeof v === 'number') return Number.isFinite(v) ? Math.round(v * 1e5) / 1e5 : String(v);
  if (Array.isArray(v)) return v.map(x => (x === undefined ? null : clean(x, depth + 1)));
  if (v && typeof v === 'object') {
    if (v.constructor && v.constructor !== Object) return '<' + v.constructor.name + '>';
    const o = {}; Object.keys(v).sort().forEach(q => { if (/^VGRAMMAR_DATA_ID|^baseMarkGroupName$|^_debug_bounds$/.test(q)) return; const x = clean(v[q], depth + 1); if (x !== undefined) o[q] = x; }); return o;
  }
  return v;
}
function tree(g) { const c = []; g.name !== 'data-label' && g.forEachChildren && g.forEachChildren(q => { c.push(tree(q)); }); const a = clean(g.attribute); if (/^vrender-component/.test(a.id)) delete a.id; return { type: g.type, name: g.name, attribute: a, children: c }; }
const snapshot = view => view.getGrammarsByType('mark').map(m => ({ type: m.markType, kind: m.componentType, elements: m.elements.map(e => { const g = e.getGraphicItem(); return m.markType === 'component' ? tree(g) : m.markType === 'group' ? clean(g.attribute) : { key: String(e.key), attribute: clean(g.attribute) }; }) }));
function where(a, b, p = '') {
  if (js(a) === js(b)) return null;
  if (a && b && typeof a === 'object' && typeof b === 'object') { for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) { const w = where(a[k], b[k], p + '.' + k); if (w) return w; } }
  return `${p}: ${String(js(a)).slice(0, 120)} instead of ${String(js(b)).slice(0, 120)}`;
}
// ---------------------------------------------------------------- what the chart has to show
const uniq = l => l.filter((v, i) => l.indexOf(v) === i), near = (a, b) => Math.abs(a - b) < 1e-4;
const FIRST = { interval: 'band', rect: 'band', rectX: 'band', rectY: 'band' };
function mirror(view, c, hidden, env, tag) {
  const vb = view.getViewBox(), W = vb.width(), H = vb.height(), shown = m => (hidden.data === (m.data || m.id) ? m.rows.filter(r => !hidden.values.includes(r[hidden.field])) : m.rows);
  const palette = PALETTES[c.theme || 'default'];
  env.check(vb.x1 >= c.pad - 1e-6 && vb.y1 >= c.pad - 1e-6 && vb.x2 <= c.w - c.pad + 1e-6 && vb.y2 <= c.h - c.pad + 1e-6, () => `${tag}: the chart area ${js([vb.x1, vb.y1, vb.x2, vb.y2])} exceeds ${c.w} × ${c.h} with padding ${c.pad}`);
  const box = view.getMarkById('plotContainer').elements[0].getGraphicItem().attribute; env.check(near(box.x, vb.x1) && near(box.y, vb.y1) && near(box.width, W) && near(box.height, H), () => `${tag}: the container ${js([box.x, box.y, box.width, box.height])} is not the chart area`);
  // scales: the values of all marks that use them
  const scaleOf = ch => { const g = view.getScaleById('scale-' + ch); return g && g.getScale(); };
  ['x', 'y', 'color', 'group'].forEach(ch => {
    const users = c.marks.filter(m => m.enc[ch] !== undefined); if (!users.length) return;
    const sc = scaleOf(ch), dom = sc.domain(), main = ch === 'color' || ch === 'group';
    const vals = [].concat(...users.map(m => [].concat(...[].concat(m.enc[ch]).map(f => (main ? m.rows : shown(m)).map(r => r[f])))));
    const type = main ? 'ordinal' : users.reduce((t, m) => (m.scale[ch] && m.scale[ch].type) || t, ch === 'y' ? 'linear' : FIRST[users[0].type] || 'point');
    env.check(sc.type === type, () => `${tag}: the ${ch} scale is ${sc.type} instead of ${type}`);
    if (type === 'linear') {
      const zero = users.reduce((z, m) => (m.scale[ch] && m.scale[ch].zero !== undefined ? m.scale[ch].zero : z), false), lo = Math.min(...vals, ...(zero ? [0] : [])), hi = Math.max(...vals, ...(zero ? [0] : []));
      if (vals.length) env.check(dom[0] === lo && dom[1] === hi, () => `${tag}: the ${ch} scale covers ${js(dom)} for values from ${lo} to ${hi}`);
    } else env.check(js(dom.slice().sort()) === js(uniq(vals).sort()), () => `${tag}: the ${ch} scale has ${js(dom)} for the values ${js(uniq(vals))}`);
    if (!main && !c.coord) { const r = sc.range(); env.check(near(r[0], ch === 'x' ? 0 : H) && near(r[r.length - 1], ch === 'x' ? W : 0), () => `${tag}: the ${ch} scale goes to ${js(r)} in an area of ${W} × ${H}`); }
    if (main) dom.forEach((v, i) => { env.check(sc.scale(v) === palette[i % palette.length], () => `${tag}: ${ch} ${v} has the colour ${sc.scale(v)} instead of ${palette[i % palette.length]}`); });
    env.obs('scales compared');
  });
  const X = scaleOf('x'), Y = scaleOf('y'), bw = s => (s.bandwidth ? s.bandwidth() : 0), mid = (s, v) => s.scale(v) + bw(s) / 2;
  const baseOf = s => { const d = s.domain(), lo = Math.min(...d), hi = Math.max(...d); return s.scale(lo > 0 ? lo : hi < 0 ? hi : 0); };
  const linear = s => s.type === 'linear';
  c.marks.forEach(m => {
    const mark = view.getMarkById(m.id + '-mark'), e = m.enc, rows = shown(m), name = `${tag}: ${m.type} ${m.id}`;
    const els = mark.elements, eq = (what, got, want) => env.check(got === want || near(got, want), () => `${name}: ${what} is ${got} instead of ${want}`);
    const colour = r => (e.color !== undefined ? scaleOf('color').scale(r[e.color]) : e.group !== undefined ? scaleOf('group').scale(r[e.group]) : null);
    const painted = ['line', 'ruleX', 'ruleY', 'rule'].includes(m.type) ? 'stroke' : 'fill';
    const paint = (a, r) => { const want = colour(r) || (m.style && m.style[painted]) || palette[0]; env.check(a[painted] === want, () => `${name}: the ${painted} of row ${r.id} is ${a[painted]} instead of ${want}`); env.obs('colours compared'); };
    if (m.type === 'line' || m.type === 'area') {
      const groups = e.group ? uniq(rows.map(r => r[e.group])) : rows.length ? [null] : [];
      env.check(els.length === groups.length, () => `${name} has ${els.length} lines for ${js(groups)}`);
      els.forEach(el => {
        const list = el.getDatum(), own = list.length ? rows.filter(r => !e.group || r[e.group] === list[0][e.group]) : [], pts = el.getGraphicItem().attribute.points;
        env.check(pts.length === own.length && js(list.map(r => r.id)) === js(own.map(r => r.id)), () => `${name}: a line has the rows ${js(list.map(r => r.id))} instead of ${js(own.map(r => r.id))}`);
        if (own.length) paint(el.getGraphicItem().attribute, own[0]);
        if (!c.coord) own.forEach((r, i) => { const y = Array.isArray(e.y) ? e.y[0] : e.y; eq('x of a point', pts[i].x, mid(X, r[e.x])); eq('y of a point', pts[i].y, Y.scale(r[y])); if (m.type === 'area') eq('y1 of a point', pts[i].y1, Array.isArray(e.y) ? Y.scale(r[e.y[1]]) : baseOf(Y)); env.obs('rows compared'); });
      });
      return;
    }
    env.check(els.length === rows.length && js(els.map(el => el.getDatum().id).sort()) === js(rows.map(r => r.id).sort()), () => `${name} shows the rows ${js(els.map(el => el.getDatum().id))} of ${js(rows.map(r => r.id))}`);
    const bars = {};
    els.forEach(el => {
      const r = rows.find(q => q.id === el.getDatum().id), a = el.getGraphicItem().attribute, f = (s, k) => s.scale(r[k]); paint(a, r); env.obs('rows compared');
      if (m.type === 'text') env.check(String(a.text) === String(r[e.text]), () => `${name}: the text of row ${r.id} is ${a.text}`);
      if (m.type === 'symbol' && e.shape) env.check(a.symbolType === scaleOf('shape').scale(r[e.shape]), () => `${name}: the shape of row ${r.id} is ${a.symbolType}`);
      if (m.style) Object.keys(m.style).forEach(k => { if (k !== painted && e[k] === undefined && !(k === 'height' && Array.isArray(e.y))) env.check(a[k] === m.style[k], () => `${name}: the ${k} of row ${r.id} is ${a[k]} instead of ${m.style[k]}`); });
      if (m.type === 'path') return;
      if (c.coord) { if (['symbol', 'text'].includes(m.type) && c.coord.type === 'cartesian') { const p = c.coord.transpose ? { x: Y.scale(r[e.y]), y: mid(X, r[e.x]) } : { x: mid(X, r[e.x]), y: Y.scale(r[e.y]) }; eq('x', a.x, p.x); eq('y', a.y, p.y); env.obs('rows compared in coordinates'); } return; }
      const far = (s, ch, v) => (Array.isArray(e[ch]) ? f(s, e[ch][1]) : linear(s) ? baseOf(s) : f(s, e[ch]) + (s.bandwidth ? s.bandwidth() : 0)), from = (s, ch) => f(s, [].concat(e[ch])[0]);
      if (['symbol', 'text', 'cell'].includes(m.type)) { eq('x', a.x, mid(X, r[e.x])); eq('y', a.y, f(Y, e.y)); }
      if (m.type === 'ruleX') { eq('x', a.points[0].x, mid(X, r[e.x])); eq('x', a.points[1].x, mid(X, r[e.x])); eq('y', a.points[0].y, 0); eq('y1', a.points[1].y, H); }
      if (m.type === 'ruleY') { const l = Array.isArray(e.x); eq('x', a.points[0].x, l ? f(X, e.x[0]) : 0); eq('x1', a.points[1].x, l ? f(X, e.x[1]) : W); a.points.forEach(p => eq('y', p.y, f(Y, e.y))); }
      if (m.type === 'rule') { const lx = Array.isArray(e.x), ly = Array.isArray(e.y); [0, 1].forEach(i => { eq('x', a.points[i].x, lx ? f(X, e.x[i]) : mid(X, r[e.x])); eq('y', a.points[i].y, f(Y, ly ? e.y[i] : e.y)); }); }
      if (m.type === 'rect' || m.type === 'rectX') { eq('x', a.x, from(X, 'x')); eq('x1', a.x1, far(X, 'x')); }
      if (m.type === 'rect' || m.type === 'rectY') { eq('y', a.y, from(Y, 'y')); eq('y1', a.y1, far(Y, 'y')); }
      if (m.type === 'rectX') { eq('y', a.y, 0); eq('y1', a.y1, H); } if (m.type === 'rectY') { eq('x', a.x, 0); eq('x1', a.x1, W); }
      if (m.type === 'image') { const wd = (m.style && m.style.width) || 10, ht = (m.style && m.style.height) || 10; eq('x', a.x, X.scale(r[e.x]) - wd / 2); eq('width', a.width, wd); if (Array.isArray(e.y)) { eq('y', a.y, Math.min(f(Y, 'u'), f(Y, 'v'))); } else { eq('y', a.y, f(Y, e.y) - ht / 2); eq('height', a.height, ht); } }
      if (m.type === 'polygon') a.points.forEach((p, i) => { eq('x of a corner', p.x, f(X, e.x[i])); eq('y of a corner', p.y, f(Y, e.y[i])); });
      if (m.type === 'interval') {
        const lo = Math.min(a.x, a.x1), hi = Math.max(a.x, a.x1), s0 = X.scale(r[e.x]);
        eq('y', a.y, from(Y, 'y')); eq('y1', a.y1, far(Y, 'y'));
        if (!X.bandwidth || X.type !== 'band') return;
        env.check(lo >= s0 - 1e-6 && hi <= s0 + bw(X) + 1e-6, () => `${name}: the bar of row ${r.id} is at ${lo}–${hi}, outside its band ${s0}–${s0 + bw(X)}`);
        const key = r[e.x] + ' ' + (e.group ? r[e.group] : ''); (bars[r[e.x]] = bars[r[e.x]] || {})[e.group ? r[e.group] : ''] = [lo, hi]; void key;
      }
    });
    Object.values(bars).forEach(b => { const l = Object.values(b).sort((p, q) => p[0] - q[0]); l.forEach((p, i) => { if (i) env.check(p[0] >= l[i - 1][1] - 1e-6, () => `${name}: bars of two groups overlap: ${js(l)}`); }); env.obs('bars compared', l.length); });
  });
  // components
  const comps = view.getGrammarsByType('mark').filter(q => q.markType === 'component'), by = t => comps.filter(q => q.componentType === t);
  const count = n => c.marks.reduce((s, m) => s + Object.keys(m.parts[n]).length, 0);
  ['axis', 'grid', 'legend', 'label', 'datazoom', 'slider'].forEach(n => env.check(by(n).length === count(n), () => `${tag}: ${by(n).length} ${n} components instead of ${count(n)}`));
  const titles = c.marks.filter(m => m.parts.title); env.check(js(by('title').map(t => t.elements[0].getGraphicItem().attribute.text)) === js(titles.map(m => m.parts.title.text)), () => `${tag}: the titles are wrong`);
  c.marks.forEach(m => Object.keys(m.parts.legend).forEach(ch => { const a = view.getMarkById(`${m.id}-legend-${ch}`).elements[0].getGraphicItem().attribute, sc = scaleOf(ch); env.check(js(a.items.map(q => [q.label, q.shape.fill])) === js(sc.domain().map(v => [String(v), sc.scale(v)])), () => `${tag}: the legend of ${m.id} shows ${js(a.items.map(q => [q.label, q.shape.fill]))}`); env.obs('legends compared'); }));
  c.marks.forEach(m => Object.keys(m.parts.label).forEach(ch => { // one text per row
    const own = by('label').map(l => l.elements[0].getGraphicItem().attribute.dataLabels || []).filter(d => d.some(q => q.baseMarkGroupName === m.id + '-mark'));
    const want = shown(m).map(r => String(r[m.enc[ch]])).sort(), got = own.length ? own[0][0].data.map(q => String(q.text)).sort() : [];
    env.check(js(got) === js(want), () => `${tag}: the labels of ${m.id} are ${js(got)} instead of ${js(want)}`); env.obs('labels compared', got.length);
  }));
  env.obs('charts judged');
}
function apply(p, c, e, env) {
  const rng = new Rng(e.s || 0), m = c.marks[(e.i || 0) % c.marks.length], o = p.own[m.id];
  if (e.o === 'data') { if (!o) return false; const rows = genRows(rng, 1000 + (e.s % 1000) * 10); c.marks.forEach(q => { if (q === m || (m.data && q.data === m.data)) { q.rows = rows; p.own[q.id] && p.own[q.id].data(clone(rows), undefined, q.data || undefined); } }); return !!o; }
  if (e.o === 'theme') { c.theme = e.v; p.plot.theme(e.v); return true; }
  if (e.o === 'coord') { if (!c.coord || c.coord.type === 'polar') return false; c.coord.transpose = e.t; p.plot.coordinate(c.coord.type, { transpose: e.t }); return true; }
  if (e.o === 'resize') { c.w = e.w; c.h = e.h; p.plot.view.resize(e.w, e.h); return 'resized'; }
  if (e.o === 'run') return true;
  if (e.o === 'update') { c.marks = []; rng.times(rng.int(1, 2), i => c.marks.push(genMark(rng, 50 + i + (e.s % 97), c))); p.own = {}; p.plot.updateSpec(specOf(c)); return 'updated'; }
  if (e.o === 'mark') { if (c.marks.length > 3 || c.spec) return false; const n = genMark(rng, 9 + (e.s % 1000), c); if (c.marks.some(q => q.id === n.id)) return false; c.marks.push(n); p.own[n.id] = describe(n, p.plot[n.type]()); p.own[n.id].spec.id = n.id; return true; }
  if (!o) return false;
  if (e.o === 'encode') { const n = genEnc(rng, m.type, c.num), ks = Object.keys(n).filter(k => m.enc[k] !== undefined && !m.parts.label[k] && !m.parts.slider[k] && !m.parts.datazoom[k] && k !== 'group' && !(m.enc.group && ['line', 'area'].includes(m.type) && k === 'color') && Array.isArray(n[k]) === Array.isArray(m.enc[k])); if (!ks.length) return false; ks.forEach(k => { m.enc[k] = n[k]; o.encode(k, clone(n[k])); }); return true; }
  if (e.o === 'scale') { if (m.enc.y === undefined) return false; m.scale.y = { type: 'linear', zero: rng.bool() }; o.scale('y', clone(m.scale.y)); return true; }
  if (e.o === 'style') { if (!STYLE[m.type] || m.style) return false; m.style = clone(STYLE[m.type]); o.style(clone(m.style)); return true; }
  if (e.o === 'parts') { const ch = rng.pick(['x', 'y']), n = rng.pick(['axis', 'grid']); if (m.enc[ch] === undefined || (n === 'grid' && (m.enc.x === undefined || m.enc.y === undefined))) return false; if (m.parts[n][ch] && rng.bool()) { delete m.parts[n][ch]; o[n](ch, false); } else { m.parts[n][ch] = rng.pick([true, { tickCount: rng.int(2, 8) }]); o[n](ch, clone(m.parts[n][ch])); } return true; }
  return false;
}
async function run(c0, env) {
  const c = clone(c0), none = { data: null, field: null, values: [] };
  let p = build(c, c.spec), picked = false, declared = c.spec;
  const judge = (tag, hidden = none, twin = true) => {
    mirror(p.plot.view, c, hidden, env, tag);
    if (!twin) return;
    const f = build(c, !c.spec);
    try { const w = where(snapshot(p.plot.view), snapshot(f.plot.view)); env.obs('charts compared with a fresh one'); env.check(!w, () => `${tag}: differs from a fresh chart: ${w}`); } finally { f.plot.release(); }
  };
  try {
    c.marks.forEach(m => env.saw('mark', m.type + (c.coord ? ' ' + c.coord.type + (c.coord.transpose ? ' transposed' : '') : '')));
    judge('first run');
    for (const [j, e] of c0.edits.entries()) {
      const tag = `edit ${j} (${e.o})`, view = p.plot.view;
      if (e.o === 'legend') { // pick values in a legend
        const m = c.marks.find(q => Object.keys(q.parts.legend).length); if (!m) continue;
        const ch = Object.keys(m.parts.legend)[0], f = m.enc[ch], g = view.getMarkById(`${m.id}-legend-${ch}`).getGroupGraphicItem(), items = g._itemsContainer.getChildren();
        if (items.length < 2 || c.marks.filter(q => q !== m && (q.data || q.id) === (m.data || m.id)).length) continue;
        const it = items[e.i % items.length]; V.fire(view, 'pointerdown', it, { x: 1, y: 1 });
        const off = items.filter(x => !x.hasState('selected')).map(x => x.data.label);
        if (off.length && off.length < items.length) { const data = m.data || m.id, hidden = { data, field: f, values: off }; picked = true; env.obs('legend picks'); env.saw('edits', 'legend'); judge(tag, hidden, false); }
        V.fire(view, 'pointerdown', it, { x: 1, y: 1 }); judge(tag + ' undone', none, false);
        continue;
      }
      if (e.o === 'live') { // the data of the running chart
        const m = c.marks[e.i % c.marks.length]; if (picked) continue; const rows = genRows(new Rng(e.s), 5000 + (e.s % 1000) * 10), id = (m.data || m.id) + '-data';
        c.marks.forEach(q => { if (q === m || (m.data && q.data === m.data)) { q.rows = rows; p.own[q.id] && p.own[q.id].data(clone(rows), undefined, q.data || undefined); } });
        view.getDataById(id).values(clone(rows)); view.run(); env.saw('edits', 'live'); judge(tag, none, false);
        if (c.marks.every(q => p.own[q.id])) { p.plot.run(); judge(tag + ' rebuilt'); } else break;
        continue;
      }
      const done = apply(p, c, e, env); if (!done) continue;
      env.saw('edits', e.o); declared = declared || done === 'updated';
      if (done === 'resized') { view.run(); judge(tag, none, false); if (declared) break; } // a rerun applies the declared size again
      p.plot.run(); picked = false; judge(tag);
    }
    env.nontrivial = c.marks.length > 0;
  } finally { p.plot.release(); }
}

module.exports = {
  rule: 'every chart of the plot API shows its rows at the places, with the colours, scales and components it describes, as a fresh chart of the same description does',
  mustObserve: ['charts judged', 'charts compared with a fresh one', 'rows compared', 'rows compared in coordinates', 'scales compared', 'colours compared', 'bars compared', 'legends compared', 'labels compared', 'legend picks'],
  scenarios: [{ name: 'chart', quick: 300, gen, run }]
};
