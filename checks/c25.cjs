'use strict';
// Components: after every edit each component is drawn as in a fresh view of the same declaration, and it mirrors its scale, marks and data.
const V = require('../lib/view.cjs');
const js = JSON.stringify, clone = x => JSON.parse(js(x));
const wp = (rng, list) => { const v = rng.wpick(list); return typeof v === 'function' ? v() : v; };
const { ThemeManager } = V.vg.full;
const base = ThemeManager.getDefaultTheme();
const themed = (name, color, size) => { const c = base.components || {}, t = { ...base, name, components: { ...c } }; const put = (k, v) => { t.components[k] = { ...(c[k] || {}), ...v }; }; const style = { fill: color, fontSize: size }; put('axis', { label: { visible: true, style } }); put('circleAxis', { label: { visible: true, style } }); put('grid', { style: { stroke: color, lineWidth: size / 10 } }); put('circleGrid', { style: { stroke: color, lineWidth: size / 10 } }); put('discreteLegend', { padding: size }); put('colorLegend', { railWidth: 100 + size }); put('sizeLegend', { railWidth: 100 + size }); put('title', { textStyle: { fontSize: size, fill: color } }); put('symbolLabel', { data: [{ fontSize: size, fill: color }] }); put('rectLabel', { data: [{ fontSize: size, fill: color }] }); put('slider', { railWidth: 80 + size, railHeight: 6 }); put('scrollbar', { width: size, height: size }); put('datazoom', { backgroundStyle: { fill: color } }); return t; };
[['red', '#a00', 11], ['blue', '#00a', 14]].forEach(([n, c, s]) => ThemeManager.registerTheme(n, themed(n, c, s)));
const THEMES = ['red', 'blue'];

// ---------------------------------------------------------------- declarations
const CATS = ['a', 'b', 'c', 'd', 'e', 'toString'];
const genRows = rng => { const ks = rng.subset(CATS, 0.6); if (!ks.length) ks.push('a'); return rng.times(rng.int(1, 9), i => ({ id: i, k: rng.pick(ks), v: rng.int(1, 100), u: rng.int(-50, 50) })); };
const COLORS = [['#f00', '#0f0', '#00f'], ['#111', '#999'], ['#123456', '#abcdef', '#00aa00', '#aa0000', '#0000aa', '#cccccc']];
const genScales = rng => ({
  x: { type: 'linear', field: 'v', nice: false, zero: rng.bool(0.3) },
  y: { type: rng.pick(['linear', 'linear', 'sqrt']), field: 'u', dom: rng.bool(0.3) ? [-50, 50] : null },
  b: { type: rng.pick(['band', 'point']), field: 'k', padding: rng.pick([0, 0.2]) }
});
const encAt = (rng, comp) => {
  const e = {};
  if (comp === 'title') { e.x = rng.int(0, 50); e.y = rng.int(0, 50); e.textStyle = { fill: rng.pick(['#123', '#321']) }; }
  if (comp === 'legend') { e.x = rng.int(0, 50); e.y = rng.int(0, 50); e.title = { visible: true, text: rng.pick(['T', 'U']) }; }
  if (comp === 'slider' || comp === 'player') { e.x = rng.int(0, 50); e.y = rng.int(0, 50); if (comp === 'slider') e.railHeight = rng.int(4, 10); else e.size = { width: rng.int(150, 250), height: 20 }; }
  if (comp === 'datazoom') { e.position = { x: rng.int(0, 30), y: rng.int(0, 30) }; e.size = { width: rng.int(150, 250), height: 30 }; e.orient = 'bottom'; }
  if (comp === 'scrollbar') e.round = rng.bool();
  if (comp === 'axis') { e.tick = { visible: true, length: rng.int(2, 9) }; }
  if (comp === 'grid') { e.alignWithLabel = rng.bool(); }
  if (comp === 'label') { e.fill = rng.pick(['#010', '#020']); e.text = rng.pick([{ field: 'k' }, { field: 'v' }, { signal: 'txt' }]); }
  return e;
};
const genTick = rng => rng.wpick([[2, null], [2, rng.int(2, 9)], [1, { signal: 'tn' }]]);
function genComp(rng, i, c) {
  const comp = rng.wpick([[5, 'axis'], [4, 'grid'], [4, 'legend'], [4, 'label'], [2, 'title'], [1, 'slider'], [1, 'datazoom'], [1, 'scrollbar']]), s = { id: 'c' + i, comp, enc: encAt(rng, comp), state: rng.wpick([[6, 'update'], [1, null]]) };
  if (comp === 'axis') { s.scale = c.coord ? rng.pick(['x', 'y']) : rng.pick(['x', 'y', 'b']); s.tick = genTick(rng); s.inside = rng.bool(0.3); s.base = c.coord === 'cartesian' && rng.bool(0.2) ? rng.int(10, 100) : null; s.axisType = !c.coord && rng.bool(0.25) ? 'circle' : null; if (s.axisType) s.enc.radius = 80, s.enc.center = { x: 100, y: 100 }; }
  if (comp === 'grid') { const axes = c.comps.filter(q => q.comp === 'axis'); if (axes.length && rng.bool(0.7)) s.target = rng.pick(axes).id; else s.scale = c.coord ? rng.pick(['x', 'y']) : rng.pick(['x', 'y', 'b']); s.tick = genTick(rng); s.shape = rng.wpick([[4, null], [1, 'line'], [1, 'polygon'], [1, 'circle']]); s.enc.length = rng.int(50, 200); s.gridType = null; if (!c.coord && !s.target && rng.bool(0.25)) { s.gridType = 'circle'; s.enc.radius = 80; s.enc.center = { x: 100, y: 100 }; s.shape = null; } }
  if (comp === 'legend') { s.scale = rng.pick(['col', 'col', 'cc', 'sz', 'shp', 'none']); s.shapeScale = s.scale === 'none' || (s.scale === 'col' && rng.bool(0.4)) ? 'shp' : null; s.type = rng.wpick([[3, null], [1, 'auto']]); }
  if (comp === 'label') { s.target = rng.wpick([[3, ['dots']], [2, ['bars']], [1, ['dots', 'bars']], [1, ['ln']]]); s.style = rng.wpick([[4, { overlap: false, smartInvert: false, animation: false }], [1, { overlap: false, smartInvert: false, animation: false, position: 'top' }]]); s.size = rng.bool(0.3) ? { width: rng.int(100, 300), height: rng.int(100, 300) } : null; s.skip = rng.bool(0.15); }
  if (comp === 'title') { s.title = rng.pick(['One', { signal: 'txt' }]); s.sub = rng.pick(['Two', 'Three', { signal: 'txt' }]); }
  if (comp === 'slider') { s.min = rng.pick([0, -5, null]); s.max = rng.pick([10, 20, { signal: 'tn' }]); }
  if (comp === 'datazoom') { s.preview = rng.bool(0.8); }
  if (comp === 'scrollbar') { s.direction = rng.pick(['horizontal', 'vertical', null]); s.position = rng.pick(['top', 'bottom', 'left', 'right', null]); s.container = rng.bool(0.3) ? 'box' : null; s.scale = null; }
  if (comp === 'player') s.source = rng.pick(['d', [1, 2, 3], ['p', 'q']]);
  if (comp !== 'label' && comp !== 'scrollbar') s.skip = rng.bool(0.1);
  if (comp === 'datazoom' || (!c.coord && (comp === 'axis' || comp === 'grid'))) s.state = 'update';
  return s;
}
function genEdit(rng, c) {
  const one = o => ({ o, i: rng.int(0, 9), s: rng.int(0, 1e6) });
  return wp(rng, [[5, () => ({ o: 'rows', rows: genRows(rng) })], [2, () => ({ o: 'sig', k: rng.pick(['tn', 'txt']), v: rng.int(2, 9) })], [2, () => ({ o: 'pal', v: rng.int(0, 2) })], [2, () => ({ o: 'dom', v: rng.bool(0.3) ? null : [rng.int(-60, 0), rng.int(10, 90)] })], [4, () => one('scale')], [6, () => one('opt')], [3, () => one('enc')], [2, () => one('parse')], [2, () => ({ o: 'theme', v: rng.pick(THEMES) })], [2, () => ({ o: 'coord', w: rng.int(100, 300), h: rng.int(100, 250), t: rng.bool(0.3) })], [2, () => ({ o: 'size', w: rng.int(100, 300) })], [2, () => one('drop')], [2, () => one('add')], [1, { o: 'run' }]]);
}
const gen = rng => {
  const c = { rows: genRows(rng), theme: rng.pick(THEMES), coord: rng.wpick([[3, null], [3, 'cartesian'], [2, 'polar']]), tn: rng.int(2, 9), txt: 3, pal: rng.int(0, 2), w: rng.int(100, 300), h: rng.int(100, 250), t: false, bw: rng.int(50, 300), scales: genScales(rng), comps: [], edits: [] };
  rng.times(rng.int(1, 5), i => c.comps.push(genComp(rng, i, c)));
  c.edits = rng.times(rng.int(1, 7), () => genEdit(rng, c));
  return c;
};
// components of a nice scale share one tick count (different ones: see the known finding)
const tickSpec = (s, c) => (c.nice ? c.nice : s.tick);
const genNice = rng => { const c = gen(rng); c.nice = rng.int(2, 12); c.scales.x.nice = true; c.comps = c.comps.filter(q => q.comp === 'axis' || q.comp === 'grid' || rng.bool(0.3)); c.comps = c.comps.filter(q => !q.target || c.comps.find(t => t.id === q.target)); if (!c.comps.some(q => q.scale === 'x')) c.comps.unshift({ id: 'ax', comp: 'axis', enc: {}, state: 'update', scale: 'x', tick: null, inside: false, base: null, axisType: null, skip: false }); return c; };
// the declaration of one component
function compSpec(s, c) {
  const o = { type: 'component', componentType: s.comp, id: s.id }, e = clone(s.enc);
  if (s.skip) o.skipTheme = true;
  if ('scale' in s && s.scale) o.scale = s.scale;
  if (s.comp === 'axis') { if (tickSpec(s, c) !== null) o.tickCount = tickSpec(s, c); o.inside = s.inside; if (s.base !== null) o.baseValue = s.base; if (s.axisType) o.axisType = s.axisType; }
  if (s.comp === 'grid') { if (s.target) o.target = s.target; if (tickSpec(s, c) !== null) o.tickCount = tickSpec(s, c); if (s.shape) o.gridShape = s.shape; if (s.gridType) o.gridType = s.gridType; }
  if (s.comp === 'legend') { if (s.shapeScale) o.shapeScale = s.shapeScale; if (s.type) o.legendType = s.type; }
  if (s.comp === 'label') { o.target = s.target.slice(); if (s.style) o.labelStyle = clone(s.style); if (s.size) o.size = s.size; }
  if (s.comp === 'title') { o.title = s.title; o.subTitle = s.sub; }
  if (s.comp === 'slider') { if (s.min !== null) o.min = s.min; o.max = s.max; }
  if (s.comp === 'datazoom' && s.preview) o.preview = { data: 'd', x: { scale: 'x', field: 'v' }, y: { scale: 'y', field: 'u' } };
  if (s.comp === 'scrollbar') { if (s.direction) o.direction = s.direction; if (s.position) o.position = s.position; if (s.container) o.container = s.container; }
  if (s.comp === 'player') { o.source = clone(s.source); o.playerType = 'continuous'; }
  if ((s.comp === 'axis' && !s.axisType && !c.coord) || (s.comp === 'grid' && !s.gridType && !s.target && !c.coord)) { e.start = { x: 20, y: 200 }; e.end = s.scale === 'y' ? { x: 20, y: 0 } : { x: 220, y: 200 }; }
  o.encode = s.state ? { [s.state]: e } : {};
  return o;
}
function specOf(c) {
  const field = f => ({ data: 'd', field: f }), S = c.scales;
  const range = (dim, plain) => (c.coord ? { coordinate: 'co', dimension: dim } : plain);
  const dims = c.coord === 'polar' ? ['theta', 'r'] : ['x', 'y'];
  const place = (x, y) => (c.coord === 'polar' ? { theta: x, r: y } : { x, y });
  const at = { ...place({ scale: 'x', field: 'v' }, { scale: 'y', field: 'u' }) };
  return {
    theme: c.theme, signals: [{ id: 'tn', value: c.tn }, { id: 'txt', value: 'text ' + c.txt }, { id: 'pal', value: COLORS[c.pal] }, { id: 'bw', value: c.bw }],
    data: [{ id: 'd', values: clone(c.rows) }],
    coordinates: c.coord ? [{ id: 'co', type: c.coord, start: [0, 0], end: [c.w, c.h], transpose: c.t }] : [],
    scales: [
      { id: 'x', type: S.x.type, domain: field('v'), range: range(dims[0], [20, 220]), nice: S.x.nice, zero: S.x.zero, ...(c.nice ? { tickCount: c.nice } : {}) },
      { id: 'y', type: S.y.type, domain: S.y.dom || field('u'), range: range(dims[1], [200, 0]) },
      { id: 'b', type: S.b.type, domain: field('k'), range: [20, 220], padding: S.b.padding },
      { id: 'col', type: 'ordinal', domain: field('k'), range: { signal: 'pal' } },
      { id: 'none', type: 'ordinal', domain: field('k') },
      { id: 'cc', type: 'linear', domain: [0, 100], range: ['#ffffff', '#000000'] },
      { id: 'sz', type: 'linear', domain: S.sz || field('v'), range: [5, 20] },
      { id: 'shp', type: 'ordinal', domain: field('k'), range: ['circle', 'square', 'triangle'] }
    ],
    marks: [
      { type: 'group', id: 'box', encode: { update: { x: 0, y: 0, width: { signal: 'bw' }, height: 250 } } },
      { type: 'symbol', id: 'dots', ...(c.coord ? { coordinate: 'co' } : {}), from: { data: 'd' }, key: 'id', encode: { update: { ...at, fill: { scale: 'col', field: 'k' }, shape: { scale: 'shp', field: 'k' }, symbolType: { scale: 'shp', field: 'k' }, size: 8 } } },
      { type: 'rect', id: 'bars', from: { data: 'd' }, key: 'id', encode: { update: { x: { scale: 'b', field: 'k' }, y: 10, width: 10, height: 20, fill: { scale: 'col', field: 'k' } } } },
      { type: 'line', id: 'ln', from: { data: 'd' }, groupBy: 'k', key: 'id', encode: { update: { x: { scale: 'b', field: 'k' }, y: { field: 'v' }, stroke: 'black' } } },
      ...c.comps.map(s => compSpec(s, c))
    ]
  };
}
// what is drawn of a component
function clean(v, k, depth = 0) {
  if (typeof v === 'function' || v === undefined || depth > 8) return undefined;
  if (typeof v === 'number') return Number.isFinite(v) ? Math.round(v * 1e6) / 1e6 : String(v);
  if (Array.isArray(v)) return v.map(x => (x === undefined ? null : clean(x, '', depth + 1)));
  if (v && typeof v === 'object') {
    if (v.constructor && v.constructor.name === 'CustomPath2D') return v.toString && v.toString();
    if (v.constructor && v.constructor !== Object) return '<' + v.constructor.name + '>';
    const o = {}; Object.keys(v).sort().forEach(q => { if (/^VGRAMMAR_DATA_ID/.test(q) || q === 'baseMarkGroupName' || q === '_debug_bounds') return; const x = clean(v[q], q, depth + 1); if (x !== undefined) o[q] = x; }); return o;
  }
  return v;
}
function tree(g, sorted) { // the order of label texts is that of their creation
  const c = []; g.forEachChildren && g.forEachChildren(q => { c.push(tree(q, sorted)); }); if (sorted) c.sort((a, b) => (js(a) < js(b) ? -1 : 1));
  const attribute = clean(g.attribute); if (/^vrender-component/.test(attribute.id)) delete attribute.id; if (attribute.type === 'line') delete attribute.center; if (attribute.closed === false) delete attribute.closed; if (g.name === 'dataZoom') { delete attribute.start; delete attribute.end; }
  return { type: g.type, name: g.name, attribute, children: c };
}
function where(a, b, p = '') { // first difference of two trees
  if (js(a) === js(b)) return null;
  if (a && b && typeof a === 'object' && typeof b === 'object') { for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) { const w = where(a[k], b[k], p + '.' + k); if (w) return w; } }
  return `${p}: ${String(js(a)).slice(0, 120)} instead of ${String(js(b)).slice(0, 120)}`;
}
const graphicOf = (view, id) => { const m = view.getMarkById(id); return m && m.elements[0] && m.elements[0].getGraphicItem(); };
const live = v => (v && v.signal ? null : v);

// what the component has to say about its scale, marks or data, from the declaration and from what the marks show
function mirror(view, s, c, env, tag) {
  const g = graphicOf(view, s.id), a = g.attribute, name = `${tag}: ${s.comp} ${s.id}`;
  env.check(g.stage, () => `${name} is not on the stage`);
  const dots = view.getMarkById('dots').elements, tickOf = t => (t && t.signal ? c.tn : t === null ? undefined : t);
  if (s.comp === 'axis' || s.comp === 'grid') {
    const scaleId = s.comp === 'grid' && s.target ? (c.comps.find(q => q.id === s.target) || {}).scale : s.scale;
    const sc = view.getScaleById(scaleId).getScale(), ticks = sc.tickData(tickOf(tickSpec(s, c))), items = s.comp === 'axis' ? a.items[0] : a.items;
    env.check(js(items.map(q => [q.id, q.label, q.value, q.rawValue])) === js(ticks.map(t => [t.index, t.tick, t.value, t.tick])), () => `${name} shows ${js(items.map(q => q.label))}, the ticks of ${scaleId} are ${js(ticks.map(t => t.tick))}`);
    env.obs('tick lists compared');
    const axis = s.comp === 'axis' ? s : c.comps.find(q => q.id === s.target), line = a.start && a.end && !(axis && axis.axisType) && !s.gridType && c.coord !== 'polar';
    if (line && scaleId !== 'b' && c.scales[scaleId].type === 'linear') { // a tick stands where marks with its value are drawn
      const f = c.scales[scaleId].field, dim = Math.abs(a.end.x - a.start.x) > Math.abs(a.end.y - a.start.y) ? 'x' : 'y';
      const pts = c.rows.map(r => ({ v: r[f], p: (dots.find(e => e.key === String(r.id) || e.key === r.id).getGraphicItem().attribute)[dim] })), p = pts[0], q = pts.find(t => Math.abs(t.v - p.v) > 5);
      if (q && (!s.target || graphicOf(view, s.target))) items.forEach(it => { const want = p.p + ((it.rawValue - p.v) * (q.p - p.p)) / (q.v - p.v), got = a.start[dim] + it.value * (a.end[dim] - a.start[dim]) + ((s.comp === 'axis' ? a[dim] : a[dim]) || 0); env.obs('ticks compared with marks'); env.check(Math.abs(want - got) < 1e-3, () => `${name}: the tick ${it.label} is at ${dim} ${got}, marks of this value are drawn at ${want}`); });
    }
    if (s.comp === 'grid' && s.target) { const t = graphicOf(view, s.target).attribute; ['x', 'y', 'start', 'end', 'center', 'radius', 'startAngle', 'endAngle'].forEach(k => { if (k in s.enc || a[k] === undefined || t[k] === undefined) return; env.check(js(clean(a[k])) === js(clean(t[k])), () => `${name}: ${k} is ${js(a[k])}, that of its axis ${js(t[k])}`); }); env.obs('grids compared with their axis'); }
  } else if (s.comp === 'legend') {
    const sc = view.getScaleById(s.scale).getScale(), dom = sc.domain();
    if (['col', 'shp', 'none'].includes(s.scale)) {
      const ks = c.rows.map(r => r.k).filter((k, i, l) => l.indexOf(k) === i);
      env.check(js(a.items.map(q => q.label).slice().sort()) === js(ks.slice().sort()), () => `${name} shows ${js(a.items.map(q => q.label))}, the values are ${js(ks)}`);
      const symbol = {}; dots.forEach(e => { symbol['$' + e.getDatum().k] = e.getGraphicItem().attribute; });
      a.items.forEach(q => {
        const d = symbol['$' + q.label]; env.obs('legend items compared');
        if (s.scale === 'col') env.check(q.shape.fill === d.fill, () => `${name}: ${q.label} has the colour ${q.shape.fill}, its marks ${d.fill}`);
        if (s.shapeScale) env.check(q.shape.symbolType === d.symbolType, () => `${name}: ${q.label} has the shape ${q.shape.symbolType}, its marks ${d.symbolType}`);
      });
    } else { env.check(a.min === dom[0] && a.max === dom[dom.length - 1], () => `${name} goes from ${a.min} to ${a.max}, the domain is ${js(dom)}`); if (s.scale === 'cc') env.check(js(a.colors) === js(sc.range()), () => `${name} shows the colours ${js(a.colors)}`); env.obs('continuous legends compared'); }
  } else if (s.comp === 'label') {
    env.check(a.dataLabels.length === s.target.length, () => `${name} has ${a.dataLabels.length} lists of labels for ${js(s.target)}`);
    s.target.forEach((t, i) => {
      const text = r => (s.enc.text.signal ? 'text ' + c.txt : r[s.enc.text.field]);
      const want = c.rows.map(r => String(text(r))).sort(), got = a.dataLabels[i].data.map(d => String(d.text)).sort(); env.obs('labels compared', want.length);
      if (s.state) env.check(js(got) === js(want), () => `${name}: the labels of ${t} are ${js(got)} for ${js(want)}`); else env.check(got.length === want.length, () => `${name}: ${got.length} labels of ${want.length} rows`);
      if (s.state) env.check(a.dataLabels[i].data.every(d => d.fill === s.enc.fill), () => `${name}: the labels of ${t} have the colours ${js(a.dataLabels[i].data.map(d => d.fill))}`);
    });
  } else if (s.comp === 'title') { const t = v => (v && v.signal ? 'text ' + c.txt : v); env.check(a.text === t(s.title) && a.subtext === t(s.sub), () => `${name} shows ${a.text}, ${a.subtext} instead of ${t(s.title)}, ${t(s.sub)}`); env.obs('titles compared'); }
  else if (s.comp === 'slider') { const max = s.max.signal ? c.tn : s.max; env.check(a.min === (s.min ?? 0) && a.max === max, () => `${name} goes from ${a.min} to ${a.max}`); env.obs('controls compared'); }
  else if (s.comp === 'datazoom') { if (s.preview) env.check(a.previewData.length === c.rows.length, () => `${name} previews ${a.previewData.length} of ${c.rows.length} rows`); env.obs('controls compared'); }
  else if (s.comp === 'player') { const want = s.source === 'd' ? c.rows.map(r => r.id) : s.source; env.check(js(a.data.map(d => (s.source === 'd' ? d.id : d))) === js(want), () => `${name} plays ${js(a.data)}`); env.obs('controls compared'); }
  else if (s.comp === 'scrollbar') {
    const W = s.container ? c.bw : 400, H = s.container ? 250 : 300, hor = p => p === 'top' || p === 'bottom', dir = s.direction || (s.position ? (hor(s.position) ? 'horizontal' : 'vertical') : 'horizontal'), pos = s.position && hor(s.position) === (dir === 'horizontal') ? s.position : dir === 'horizontal' ? 'bottom' : 'right';
    env.check(a.direction === dir && (dir === 'horizontal' ? a.width === W && a.x === 0 && Math.abs(a.y - (pos === 'top' ? 0 : H - a.height)) < 1e-9 : a.height === H && a.y === 0 && Math.abs(a.x - (pos === 'left' ? 0 : W - a.width)) < 1e-9), () => `${name} (${dir}, ${pos}) is at ${js([a.direction, a.x, a.y, a.width, a.height])} in ${W} × ${H}`); env.obs('controls compared');
  }
}
// one edit on the declaration `c` and on the view; false when it does not apply
function apply(view, c, e, rngOf) {
  const rng = rngOf(e.s || 0), s = c.comps.length ? c.comps[(e.i || 0) % c.comps.length] : null, m = s && view.getMarkById(s.id);
  if (e.o === 'rows') { c.rows = clone(e.rows); view.getDataById('d').values(clone(e.rows)); }
  else if (e.o === 'sig') { c[e.k] = e.v; view.getSignalById(e.k).value(e.k === 'txt' ? 'text ' + e.v : e.v); }
  else if (e.o === 'pal') { c.pal = e.v; view.getSignalById('pal').value(COLORS[e.v]); }
  else if (e.o === 'dom') { c.scales.y.dom = e.v; view.getScaleById('y').domain(e.v || { data: 'd', field: 'u' }); }
  else if (e.o === 'size') { c.bw = e.w; view.getSignalById('bw').value(e.w); }
  else if (e.o === 'theme') { c.theme = e.v; view.setCurrentTheme(e.v); }
  else if (e.o === 'coord') { if (!c.coord) return false; c.w = e.w; c.h = e.h; c.t = e.t; const co = view.getCoordinateById('co'); co.end([e.w, e.h]); co.transpose(e.t); }
  else if (e.o === 'add') { const n = genComp(rng, 9, c); n.id = 'n' + e.s; if (c.comps.find(q => q.id === n.id)) return false; c.comps.push(n); view.mark('component', view.rootMark, { componentType: n.comp }).parse(compSpec(n, c)); }
  else if (!s) return false;
  else if (e.o === 'drop') { if (c.comps.find(q => q.target === s.id)) return false; c.comps.splice(c.comps.indexOf(s), 1); view.removeGrammar(s.id); }
  else if (e.o === 'scale') {
    if (s.comp === 'axis' || (s.comp === 'grid' && !s.target)) { const to = c.coord ? rng.pick(['x', 'y']) : s.scale === 'y' ? 'y' : rng.pick(['x', 'b']); s.scale = to; m.scale(to); }
    else if (s.comp === 'legend') { const to = rng.pick(['col', 'cc', 'sz', 'shp']); if (to === s.scale || s.scale === 'none') return false; s.scale = to; m.scale(to); if (to !== 'col' && s.shapeScale) { s.shapeScale = null; m.shapeScale(null); } }
    else return false;
  } else if (e.o === 'parse') { if (!s.state || s.comp === 'datazoom') return false; Object.assign(s.enc, encAt(rng, s.comp)); if ('tick' in s && s.tick !== null) s.tick = rng.pick([rng.int(2, 9), { signal: 'tn' }]); m.parse(compSpec(s, c)); }
  else if (e.o === 'enc') {
    const n = encAt(rng, s.comp); if (!s.state || s.comp === 'datazoom') return false;
    const keys = Object.keys(n); if (!keys.length) return false;
    Object.assign(s.enc, n);
    if (s.comp === 'title' && !s.skip && rng.bool()) { delete s.enc.textStyle; m.encode('x', n.x, true); m.encode('y', n.y); } else if (rng.bool()) m.encode(clone(n)); else keys.forEach(k => m.encode(k, clone(n[k])));
  } else if (e.o === 'opt') {
    if (s.comp === 'axis') { const k = rng.pick(['tick', 'tick', 'inside', 'base']); if (k === 'tick') { if (c.nice) return false; s.tick = genTick(rng); m.tickCount(s.tick); } else if (k === 'inside') { s.inside = !s.inside; m.inside(s.inside); } else { if (c.coord !== 'cartesian') return false; s.base = rng.bool() ? null : rng.int(10, 100); m.baseValue(s.base); } }
    else if (s.comp === 'grid') { const k = rng.pick(['tick', 'shape', 'target']); if (k === 'tick') { if (c.nice) return false; s.tick = genTick(rng); m.tickCount(s.tick); } else if (k === 'shape') { if (s.gridType) return false; s.shape = rng.pick(['line', 'polygon', 'circle']); m.gridShape(s.shape); } else { const k = q => `${q.axisType} ${c.coord === 'polar' && q.scale}`, old = c.comps.find(q => q.id === s.target), t = s.target && c.comps.slice(0, c.comps.indexOf(s)).filter(q => q.comp === 'axis' && k(q) === k(old)); if (!t || !t.length) return false; s.target = rng.pick(t).id; m.target(s.target); } }
    else if (s.comp === 'legend') { if (s.scale !== 'col') return false; s.shapeScale = s.shapeScale ? null : 'shp'; if (!s.shapeScale) return s.shapeScale = 'shp', false; m.shapeScale(s.shapeScale); }
    else if (s.comp === 'label') { const k = rng.pick(['target', 'style', 'size']); if (k === 'target') { s.target = rng.pick([['dots'], ['bars'], ['bars', 'dots']]); m.target(s.target.slice()); } else if (k === 'style') { s.style = rng.pick([{ overlap: false, smartInvert: false, animation: false, position: 'top' }, { overlap: false, smartInvert: false, animation: false, position: 'bottom' }]); m.labelStyle(clone(s.style)); } else { s.size = { width: rng.int(100, 300), height: rng.int(100, 300) }; m.size(s.size); } }
    else if (s.comp === 'title') { const v = rng.pick(['Four', 'Five', { signal: 'txt' }]); if (rng.bool()) { s.title = v; m.title(v); } else { s.sub = v; m.subTitle(v); } }
    else if (s.comp === 'slider') { s.max = rng.pick([10, 30, { signal: 'tn' }]); m.max(s.max); }
    else if (s.comp === 'scrollbar') { const k = rng.pick(['direction', 'position', 'container']); if (k === 'container') { s.container = s.container ? null : 'box'; m.container(s.container); } else { s[k] = k === 'direction' ? rng.pick(['horizontal', 'vertical']) : rng.pick(['top', 'bottom', 'left', 'right']); m[k](s[k]); } }
    else if (s.comp === 'player') { s.source = rng.pick(['d', [1, 2, 3], [4, 5]]); m.source(s.source === 'd' ? 'd' : s.source.slice()); }
    else if (s.comp === 'datazoom') { s.preview = true; m.preview('d', { scale: 'x', field: 'v' }, { scale: 'y', field: 'u' }); }
  }
  return true;
}
const { Rng } = require('../lib/rng.cjs');
async function run(c0, env) {
  const c = clone(c0), opts = { width: 400, height: 300 };
  await V.withView(opts, async view => {
    view.parseSpec(specOf(c)); view.run();
    const judge = async tag => {
      await V.withView(opts, async fresh => {
        fresh.parseSpec(specOf(c)); fresh.run();
        c.comps.forEach(s => {
          env.saw('component', `${s.comp} ${s.scale || ''} ${c.coord || ''}`);
          const g = graphicOf(view, s.id), f = graphicOf(fresh, s.id);
          env.check(!!g === !!f, () => `${tag}: ${s.comp} ${s.id} ${g ? 'is drawn' : 'is not drawn'}`);
          if (!g) return;
          if (tag !== 'first run') { const w = where(tree(g, s.comp === 'label'), tree(f, s.comp === 'label')); env.obs('components compared with a fresh view'); env.check(!w, () => `${tag}: ${s.comp} ${s.id} differs from a fresh one: ${w}`); }
          mirror(view, s, c, env, tag);
        });
        const kids = (v, n) => v.getMarkById(n).elements.length; env.check(kids(view, 'dots') === kids(fresh, 'dots'), () => `${tag}: ${kids(view, 'dots')} dots`);
      });
    };
    await judge('first run');
    for (const [j, e] of c0.edits.entries()) {
      if (e.o !== 'run' && !apply(view, c, e, s => new Rng(s))) continue;
      view.run(); env.saw('edits', e.o);
      await judge(`edit ${j} (${e.o})`);
    }
    env.nontrivial = c.comps.length > 0;
  });
}

async function runPair(c, env) { // two axes of one nice scale with different tick counts
  env.nontrivial = true;
  await V.withView({ width: 400, height: 300 }, async view => {
    const axis = (id, tickCount) => ({ type: 'component', componentType: 'axis', id, scale: 'x', tickCount, encode: { update: { start: { x: 20, y: 200 }, end: { x: 220, y: 200 } } } });
    view.parseSpec({ data: [{ id: 'd', values: [{ v: 3 }, { v: 97 }] }], scales: [{ id: 'x', type: 'linear', domain: { data: 'd', field: 'v' }, nice: true, range: [20, 220] }], marks: [axis('a', 3), { type: 'symbol', id: 'dots', from: { data: 'd' }, encode: { update: { x: { scale: 'x', field: 'v' } } } }, axis('b', 20)] });
    view.run();
    const [p, q] = view.getMarkById('dots').elements.map(e => e.getGraphicItem().attribute.x), at = v => p + ((v - 3) * (q - p)) / 94;
    ['a', 'b'].forEach(id => graphicOf(view, id).attribute.items[0].forEach(t => { const x = 20 + t.value * 200; env.check(Math.abs(x - at(t.label)) < 1e-6, `two tick counts of one nice scale: the tick ${t.label} of axis ${id} is at ${x}, marks at ${at(t.label)}`); }));
  });
}

module.exports = {
  rule: 'after every edit each component equals that of a fresh view of the same declaration and mirrors the scale, the marks or the data it is linked to',
  mustObserve: ['tick lists compared', 'ticks compared with marks', 'grids compared with their axis', 'legend items compared', 'labels compared', 'titles compared', 'controls compared', 'components compared with a fresh view'],
  scenarios: [{ name: 'live', quick: 400, gen, run }, { name: 'nice', quick: 80, gen: genNice, run }, { name: 'pair', quick: 0, gen: () => ({}), run: runPair }],
  pinned: [{ name: 'nice-ticks', scenario: 'pair', case: {} }]
};
