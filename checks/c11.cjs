'use strict';
// C11: animations. A live view with animations under virtual time is compared, once everything has settled,
// with a twin view that declares no animation; its start/end notifications are kept in balance all along.
// In the timeline scenario, every frame is compared with the declared timeline.
const V = require('../lib/view.cjs');
const { install } = require('../lib/clock.cjs');
const clone = x => JSON.parse(JSON.stringify(x));
const wp = (rng, list) => { const v = rng.wpick(list); return typeof v === 'function' ? v() : v; };
const KINDS = ['rect', 'rect2', 'symbol', 'arc', 'line', 'area', 'text', 'rule', 'polygon', 'interval', 'image'];
const isLine = k => k === 'line' || k === 'area';
const genRows = (rng, n) => rng.shuffle(['k0', 'k1', 'k2', 'k3', 'k4', 'k5', 'k6']).slice(0, n).map(k => ({ k, g: rng.pick(['a', 'b', 'c']), v: rng.int(1, 300), w: rng.int(1, 200), a: rng.int(1, 40), b: rng.int(1, 40) }));

/* ---------- declarations ---------- */
const GEO = {
  rect: { x: 'v', y: 'w', width: 'a', height: 'b' }, rect2: { x: 'v', x1: 'v+a', y: 'w', y1: 'w+b' }, symbol: { x: 'v', y: 'w', size: 'a' }, arc: { x: 'v', y: 'w', innerRadius: 'b/10', outerRadius: 'a+4', startAngle: 'v/100', endAngle: 'v/100+w/70' },
  line: { x: 'v', y: 'w' }, area: { x: 'v', y: 'w', y1: 'w+b' }, text: { x: 'v', y: 'w', text: 'g', fontSize: 'b' }, rule: { x: 'v', y: 'w', x1: 'v+a', y1: 'w-b' }, polygon: { x: 'v', y: 'w', points: 'points' },
  interval: { x: 'band', y: 'lin' }, image: { x: 'v', y: 'w', width: 'a', height: 'b' }
};
const n0 = x => (typeof x === 'number' && isFinite(x) ? x : 0);
const VAL0 = {
  v: d => d.v, w: d => d.w, a: d => d.a, b: d => d.b, g: d => d.g, 'v+a': d => d.v + d.a, 'w+b': d => d.w + d.b, 'w-b': d => d.w - d.b, 'b/10': d => d.b / 10, 'a+4': d => d.a + 4, 'v/100': d => d.v / 100, 'v/100+w/70': d => d.v / 100 + d.w / 70,
  points: d => [{ x: 0, y: 0 }, { x: n0(d.a), y: 0 }, { x: n0(d.a), y: n0(d.b) }, { x: 0, y: n0(d.b) + 3 }]
};
const VAL = Object.fromEntries(Object.keys(VAL0).map(k => [k, d => { const x = VAL0[k](d); return k === 'g' || k === 'points' ? x : n0(x); }]));
const shiftable = c => c === 'x' || c === 'x1';
const channelsOf = m => Object.keys(GEO[m.kind]).filter(c => c !== 'text' && c !== 'points').concat(Object.keys(m.extra)).filter(c => c !== 'fill');
function encodeOf(m) {
  const e = {};
  for (const c of Object.keys(GEO[m.kind])) {
    const how = GEO[m.kind][c];
    if (how === 'band') e[c] = { scale: 'xs', field: 'k' };
    else if (how === 'lin') e[c] = { scale: 'ys', field: 'v' };
    else if (shiftable(c)) e[c] = { callback: (d, el, p) => VAL[how](d) + n0(p.off), dependency: ['off'] };
    else e[c] = d => VAL[how](d);
  }
  for (const c of Object.keys(m.extra)) e[c] = m.extra[c] === '$g' ? d => ({ a: 'red', b: 'green', c: 'blue' })[d.g] : m.extra[c] === '$sig' ? { signal: 'op' } : m.extra[c];
  const enc = { update: e };
  if (m.enter) enc.enter = clone(m.enter);
  if (m.hover) enc.hover = clone(m.hover);
  return enc;
}
class FadeLike extends V.vrender.ACustomAnimate {
  getEndProps() { return this.to; }
  onUpdate(end, ratio, out) { for (const k of Object.keys(this.to || {})) if (typeof this.to[k] === 'number' && typeof (this.from || {})[k] === 'number') out[k] = this.from[k] + (this.to[k] - this.from[k]) * ratio; else if (end) out[k] = this.to[k]; }
}
const lerp = (ratio, from, to, out) => { for (const k of Object.keys(to)) { if (typeof to[k] === 'number' && typeof from[k] === 'number') out[k] = from[k] + (to[k] - from[k]) * ratio; else if (ratio >= 1) out[k] = to[k]; } };
function effectOf(x, log) {
  const o = {};
  if (x.type) o.type = x.type;
  if (x.channel) o.channel = Array.isArray(x.channel) ? x.channel.slice() : Object.fromEntries(Object.keys(x.channel).map(c => { const s = x.channel[c], r = {}; if (s.from !== undefined) r.from = s.fn ? () => s.from : s.from; if (s.to !== undefined) r.to = s.to; return [c, r]; }));
  if (x.options) o.options = x.optFn ? () => clone(x.options) : clone(x.options);
  if (x.easing) o.easing = x.easing;
  if (x.custom) o.custom = x.custom === 'class' ? FadeLike : lerp;
  if (x.params) o.customParameters = x.params;
  return o;
}
const num = (x, fn) => (fn ? () => x : x);
function configOf(a) {
  const c = a.single ? effectOf(a.slices[0].effects[0]) : {};
  if (a.single) { for (const k of ['duration', 'delay', 'delayAfter']) if (a.slices[0][k] !== undefined) c[k] = num(a.slices[0][k], a.fn); } else {
    const sl = a.slices.map(s => { const r = { effects: s.effects.map(effectOf) }; for (const k of ['duration', 'delay', 'delayAfter']) if (s[k] !== undefined) r[k] = num(s[k], a.fn); if (r.effects.length === 1 && a.bare) r.effects = r.effects[0]; return r; });
    c.timeSlices = sl.length === 1 && a.bare ? sl[0] : sl;
    if (a.part) c.partitioner = d => { const x = Array.isArray(d) ? d[0] : d; return x && (x.g === a.part) !== !!a.partNot; };
    if (a.sort) c.sort = (p, q) => (a.sort === 'asc' ? p.v - q.v : q.v - p.v);
  }
  for (const k of ['startTime', 'totalTime', 'oneByOne', 'loop']) if (a[k] !== undefined) c[k] = k === 'loop' || k === 'oneByOne' ? a[k] : num(a[k], a.fn);
  if (a.startTime) c.startTime = num(Math.floor(a.startTime) + 0.5, a.fn);
  if (a.control) c.controlOptions = clone(a.control);
  return c;
}
const configsOf = list => (list.length === 1 ? configOf(list[0]) : list.map(configOf));
function animOf(m) {
  const o = {};
  for (const s of Object.keys(m.anim)) if (m.anim[s] && m.anim[s].length) o[s] = configsOf(m.anim[s]);
  if (m.stateAnim) o.state = { duration: m.stateAnim, easing: 'linear' };
  return o;
}
function stateOf(m) {
  if (m.animState === 'custom') return { callback: (d, el, p) => (el.diffState === 'enter' ? (p.first ? 'appear' : 'enter') : el.diffState === 'exit' ? 'disappear' : 'update'), dependency: ['first'] };
  if (m.animState === 'signal') return { signal: 'astate' };
  return undefined;
}
function markSpec(m, animated) {
  const s = { id: 'm' + m.i, type: m.kind === 'rect2' ? 'rect' : m.kind, key: 'k', from: { data: 'd' }, encode: encodeOf(m) };
  if (isLine(m.kind)) s.groupBy = 'g';
  if (m.kind === 'interval' && m.coord) s.coordinate = 'co';
  if (animated) { s.animation = animOf(m); const st = stateOf(m); if (st !== undefined) s.animationState = st; }
  return s;
}
function build(c, animated) {
  const specs = c.marks.map(m => [m, markSpec(m, animated)]);
  const marks = specs.filter(([m]) => !m.nested).map(x => x[1]);
  const inner = specs.filter(([m]) => m.nested).map(x => x[1]);
  if (inner.length) marks.push({ id: 'grp', type: 'group', encode: { update: { x: 3, y: 4, width: 200, height: 150 } }, marks: inner });
  const r = {
    signals: [{ id: 'off', value: 0 }, { id: 'op', value: 0.9 }, { id: 'astate', value: 'update' }, { id: 'first', value: true }],
    data: [{ id: 'd', values: clone(c.rows) }],
    scales: [{ id: 'xs', type: 'band', domain: ['k0', 'k1', 'k2', 'k3', 'k4', 'k5', 'k6'], range: c.coord ? { coordinate: 'co', dimension: 'x' } : [0, 300] }, { id: 'ys', type: 'linear', domain: [0, 300], range: c.coord ? { coordinate: 'co', dimension: 'y', reversed: c.coord.type !== 'polar' } : [200, 0] }],
    marks
  };
  if (c.coord) r.coordinates = [Object.assign({ id: 'co', start: [0, 0], end: [300, 200] }, c.coord.type === 'polar' ? { type: 'polar', start: [0, 20], end: [6, 100], origin: [150, 100] } : { type: 'cartesian' }, c.coord.transpose ? { transpose: true } : {})];
  return r;
}

/* ---------- generation ---------- */
const EASE = ['linear', 'quadIn', 'cubicInOut', 'elasticOut', 'bounceOut', 'backInOut', 'quintInOut'];
function genOpt(rng, type) {
  const o = {};
  if (/scale|move|growCenter/.test(type) && rng.bool(0.6)) o.direction = rng.pick(['x', 'y', 'xy']);
  if (/move/.test(type)) { if (rng.bool(0.4)) o.orient = rng.pick(['positive', 'negative']); if (rng.bool(0.4)) o.offset = rng.int(-30, 30); if (rng.bool(0.3)) o.point = { x: rng.int(0, 300) }; }
  if (/rotate/.test(type)) { if (rng.bool(0.5)) o.orient = rng.pick(['clockwise', 'anticlockwise']); if (rng.bool(0.3)) o.angle = rng.num(-6, 6, 2); }
  if (/Width|Height/.test(type)) { if (rng.bool(0.5)) o.orient = rng.pick(['positive', 'negative']); if (rng.bool(0.4)) o.overall = rng.pick([true, 0, 50, false]); }
  if (/Angle/.test(type)) { if (rng.bool(0.5)) o.orient = rng.pick(['clockwise', 'anticlockwise']); if (rng.bool(0.4)) o.overall = rng.pick([true, 1]); }
  if (/Radius/.test(type)) { if (rng.bool(0.5)) o.orient = rng.pick(['inside', 'outside']); if (rng.bool(0.4)) o.overall = rng.pick([true, 5]); }
  if (/PointsX|PointsY/.test(type) && rng.bool(0.5)) o.orient = rng.pick(['positive', 'negative']);
  if (/growPoints(In|Out)/.test(type) && rng.bool(0.4)) o.center = { x: rng.int(0, 100) };
  if (/Interval/.test(type) && rng.bool(0.7)) o.overall = rng.pick([true, false]);
  if (/clip/.test(type) && rng.bool(0.3)) o.clipDimension = rng.pick(['x', 'y', 'auto']);
  return Object.keys(o).length || rng.bool(0.2) ? o : undefined;
}
function typesOf(m, dir) {
  const t = ['fade', 'scale', 'rotate'];
  if (!isLine(m.kind)) t.push('move');
  if (/^rect|image/.test(m.kind)) t.push('growWidth', 'growHeight', 'growCenter');
  if (m.kind === 'arc') t.push('growAngle', 'growRadius', 'growAngle', 'growRadius');
  if (isLine(m.kind)) t.push('growPoints', 'growPointsX', 'growPointsY', 'clip');
  if (m.kind === 'polygon') t.push('growPoints');
  if (m.kind === 'interval') t.push('growInterval', 'growInterval', 'growInterval');
  return t.map(x => x + dir);
}
const numericOf = m => Object.keys(GEO[m.kind]).filter(c => ['x', 'y', 'x1', 'y1', 'width', 'height', 'size', 'outerRadius', 'innerRadius', 'startAngle', 'endAngle', 'fontSize'].includes(c) && !(m.kind === 'interval')).concat(Object.keys(m.extra).filter(c => typeof m.extra[c] === 'number'));
function genEffect(rng, m, state) {
  const out = state === 'exit' || state === 'disappear', into = state === 'enter' || state === 'appear';
  const e = { easing: rng.bool(0.7) ? rng.pick(EASE) : undefined };
  const ch = numericOf(m);
  const channel = () => {
    if (isLine(m.kind)) { e.channel = out ? { opacity: { to: 0 } } : into ? { opacity: { from: 0, to: typeof m.extra.opacity === 'number' ? m.extra.opacity : undefined } } : rng.bool() ? ['points', 'opacity'] : ['x', 'y']; if (into && e.channel.opacity.to === undefined) e.channel = ['x', 'y']; return; }
    if (!ch.length) { e.type = out ? 'fadeOut' : into ? 'fadeIn' : 'update'; return; }
    const pick = rng.subset(ch, 0.6); if (!pick.length) pick.push(ch[0]);
    if (out) e.channel = Object.fromEntries(pick.map(c => [c, { to: rng.int(0, 50) / (c === 'opacity' ? 50 : 1) }]));
    else if (into) { if (rng.bool(0.3)) e.channel = pick; else e.channel = Object.fromEntries(pick.filter(c => ch.includes(c)).map(c => [c, { from: rng.int(0, 50) / (c === 'opacity' ? 50 : 1), fn: rng.bool(0.3) }])); if (!Array.isArray(e.channel) && !Object.keys(e.channel).length) { delete e.channel; e.type = 'fadeIn'; } }
    else e.channel = pick;
  };
  wp(rng, [
    [into || out ? 6 : 1, () => { e.type = rng.pick(typesOf(m, out ? 'Out' : 'In')); e.options = genOpt(rng, e.type); e.optFn = rng.bool(0.2); }],
    [2, channel],
    [into || out ? 0 : 6, () => { e.type = 'update'; if (rng.bool(0.25)) e.options = { excludeChannels: rng.subset(channelsOf(m), 0.3) }; }]
  ]);
  if (e.channel && !isLine(m.kind) && m.kind !== 'polygon' && rng.bool(0.25)) e.custom = 'fn';
  return e;
}
function genAnim(rng, m, state) {
  const single = rng.bool(0.6);
  const n = single ? 1 : rng.int(1, 2);
  const a = {
    single, fn: rng.bool(0.2), bare: rng.bool(),
    slices: rng.times(n, () => ({ effects: rng.times(single ? 1 : rng.wpick([[3, 1], [1, 2]]), () => genEffect(rng, m, state)), duration: rng.pick([0, 50, 100, 100, 230, 400]), delay: rng.bool(0.3) ? rng.pick([0, 30, 120]) : undefined, delayAfter: rng.bool(0.2) ? rng.pick([0, 40]) : undefined }))
  };
  if (rng.bool(0.3)) a.oneByOne = rng.pick([true, 20, 60, false]);
  if (rng.bool(0.2)) a.startTime = rng.pick([0, 25.5, 100.5]);
  if (rng.bool(0.2)) a.totalTime = rng.pick([0, 60, 150, 1000]);
  if (rng.bool(0.2)) a.loop = rng.pick([1, 2, 3, true, false]);
  if (/exit|disappear/.test(state) && a.loop === true) delete a.loop;
  if (a.loop === true && !a.slices.reduce((t, x) => t + x.duration, 0)) a.loop = 2;
  if (!single) { if (rng.bool(0.2)) { a.part = rng.pick(['a', 'b']); a.partNot = rng.bool(0.3); } if (rng.bool(0.2)) a.sort = rng.pick(['asc', 'desc']); }
  if (rng.bool(0.35)) { a.control = {}; if (rng.bool()) a.control.stopWhenStateChange = rng.bool(0.7); if (rng.bool()) a.control.immediatelyApply = rng.bool(0.4); if (rng.bool(0.3)) a.control.ignoreLoopFinalAttributes = true; }
  return a;
}
const genList = (rng, m, s, p) => (rng.bool(p) ? rng.times(rng.wpick([[5, 1], [2, 2]]), () => genAnim(rng, m, s)) : []);
function genMark(rng, i, c) {
  const m = { i, kind: rng.pick(KINDS), nested: rng.bool(0.25), extra: { fill: rng.pick(['$g', 'red']) } };
  if (rng.bool(0.4)) m.extra.opacity = rng.pick([0.5, 0.8, '$sig']);
  if (rng.bool(0.2)) m.extra.fillOpacity = rng.pick([0.3, 0.7]);
  if (rng.bool(0.2) && m.kind !== 'interval') m.extra.angle = rng.num(-7, 7, 2);
  if (rng.bool(0.15)) m.extra.scaleX = rng.pick([0.5, 2]);
  if (rng.bool(0.2)) m.enter = rng.pick([{ strokeOpacity: 0.4 }, { lineWidth: 3 }, { opacity: 0.2 }]);
  if (m.kind === 'interval' && c.coord) m.coord = true;
  m.animState = rng.wpick([[8, null], [3, 'custom'], [1, 'signal']]);
  m.anim = { enter: genList(rng, m, 'enter', 0.7), update: genList(rng, m, 'update', 0.7), exit: genList(rng, m, 'exit', 0.7) };
  if (m.animState === 'custom') { m.anim.appear = genList(rng, m, 'appear', 0.8); m.anim.disappear = genList(rng, m, 'disappear', 0.8); }
  return m;
}
function genSettle(rng) {
  const c = { rows: genRows(rng, rng.int(0, 5)), coord: rng.bool(0.5) ? { type: rng.pick(['cartesian', 'polar']), transpose: rng.bool(0.4) } : null };
  c.marks = rng.times(rng.wpick([[4, 1], [3, 2], [1, 3]]), i => genMark(rng, i, c));
  const mi = () => rng.int(0, c.marks.length - 1);
  c.ops = rng.times(rng.int(2, 12), () => wp(rng, [
    [5, () => ['rows', genRows(rng, rng.int(0, 6))]], [3, () => ['off', rng.int(-20, 20)]], [1, () => ['op', rng.num(0.1, 1, 1)]], [8, () => ['tick', rng.pick([1, 16, 16, 50, 120, 400, 2000])]],
    [1, () => ['noop']],
    [1, () => [rng.pick(['stop', 'pause', 'resume']), rng.bool(0.5) ? mi() : -1]],
    [1, () => { const i = mi(); return ['immediate', i, [genAnim(rng, c.marks[i], 'enter')].map(a => Object.assign(a, { loop: a.loop === true ? 2 : a.loop }))]; }],
    [0.6, () => ['byState', mi(), rng.pick(['enter', 'update', 'appear'])]],
    [0.6, () => [rng.pick(['stopByState', 'pauseByState', 'resumeByState']), mi(), rng.pick(['enter', 'update', 'exit', 'appear'])]],
    [0.5, () => ['disable', mi(), rng.pick(['enter', 'update', 'exit'])]], [0.4, () => ['enable', mi(), rng.pick(['enter', 'update', 'exit'])]],
    [0.4, () => ['off-all', rng.bool() ? mi() : -1]], [0.5, () => ['on-all', rng.bool() ? mi() : -1]],
    [0.5, () => { const i = mi(); return ['config', i, rng.bool(0.2) ? {} : { enter: genList(rng, c.marks[i], 'enter', 0.6), update: genList(rng, c.marks[i], 'update', 0.6), exit: genList(rng, c.marks[i], 'exit', 0.6) }]; }],
    [0.5, () => ['astate', rng.pick(['enter', 'update', 'none'])]], [0.4, () => ['first', rng.bool()]],
    [0.4, () => ['resize', rng.int(200, 500), rng.int(150, 400)]]
  ]));
  return c;
}

/* ---------- monitors ---------- */
const IDENT = { opacity: 1, fillOpacity: 1, strokeOpacity: 1, scaleX: 1, scaleY: 1, angle: 0, clipRange: 1, x: 0, y: 0, dx: 0, dy: 0 };
function finalAttrs(g, drop) {
  const a = Object.assign({}, V.norm(g.attribute));
  for (const k of Object.keys(IDENT)) if (a[k] === undefined || a[k] === null) a[k] = IDENT[k];
  delete a.clipRangeByDimension;
  for (const k of Object.keys(a)) if (a[k] === null || /Attrs$/.test(k)) delete a[k];
  for (const k of drop || []) delete a[k];
  if (Array.isArray(a.points)) a.points = a.points.map(p => { const q = {}; for (const k of ['x', 'y', 'x1', 'y1']) if (p[k] !== undefined && p[k] !== null) q[k] = Number(p[k].toPrecision(8)); if (p.defined === false) q.defined = false; return q; });
  const r = {};
  for (const k of Object.keys(roundAll(a)).sort()) r[k] = a[k];
  return r;
}
const roundAll = o => { for (const k of Object.keys(o)) if (typeof o[k] === 'number') o[k] = Math.abs(o[k]) < 1e-7 ? 0 : Number(o[k].toPrecision(8)); return o; };
const sceneOf = view => {
  const r = {};
  view.traverseMarkTree(m => {
    if (!/^m\d/.test(m.id() || '')) return;
    r[m.id()] = m.elements.map(e => ({ key: e.key, group: e.groupKey, data: V.norm(e.data), attrs: finalAttrs(e.getGraphicItem()) }));
  });
  return r;
};
function balance(view, env, marks) {
  const open = new Map(), marksOpen = new Map(), log = { starts: 0, ends: 0 };
  let all = 0;
  const bump = (map, key, by, what) => { const n = (map.get(key) || 0) + by; env.check(n >= 0, `${what}: an end without a start`); map.set(key, n); return n; };
  const ids = new Map();
  const idOf = o => { if (!ids.has(o)) ids.set(o, ids.size); return ids.get(o); };
  marks.forEach(m => {
    m.addEventListener('elementAnimationStart', (e, el) => { env.check(e.mark === m && !!e.animationConfig && typeof e.animationState === 'string', 'a start notification does not describe its animation'); bump(open, `${m.id()}/${idOf(e.animationConfig)}/${idOf(el)}`, 1, 'element'); log.starts++; });
    m.addEventListener('elementAnimationEnd', (e, el) => { env.check(e.mark === m && !!e.animationConfig, 'an end notification does not describe its animation'); bump(open, `${m.id()}/${idOf(e.animationConfig)}/${idOf(el)}`, -1, `element ${el && el.key} of ${m.id()} (${e.animationState})`); log.ends++; });
    m.addEventListener('animationStart', e => { bump(marksOpen, `${m.id()}/${e.animationState}`, 1, 'mark'); });
    m.addEventListener('animationEnd', e => { bump(marksOpen, `${m.id()}/${e.animationState}`, -1, `mark ${m.id()} (${e.animationState})`); });
  });
  view.addEventListener('allAnimationStart', () => { all++; env.check(all <= 1, 'the view announced the start of its animations twice in a row'); });
  view.addEventListener('allAnimationEnd', () => { all--; env.check(all >= 0, 'the view announced the end of animations which had not started'); });
  const running = id => [...open].some(([k, n]) => n > 0 && k.startsWith(id + '/'));
  return { log, running, get all() { return all; }, openKeys: () => [...open].filter(x => x[1] > 0).map(x => x[0]), marksOpenKeys: () => [...marksOpen].filter(x => x[1] > 0).map(x => x[0]) };
}

async function runSettle(c, env) {
  const clock = install();
  let view, twin;
  try {
    view = V.mkView({ manual: true });
    twin = V.mkView({ manual: true });
    view.parseSpec(build(c, true));
    twin.parseSpec(build(c, false));
    const ms = c.marks.map(m => view.getMarkById('m' + m.i));
    const bal = balance(view, env, ms);
    const check = tag => {
      ms.forEach(m => {
        env.check(m.animate.isAnimating() === bal.running(m.id()), () => `${tag}: isAnimating of ${m.id()} is ${m.animate.isAnimating()}, open animations: ${bal.openKeys()}`);
      });
    };
    const both = f => { f(view, true); f(twin, false); };
    both(v => { v.run(); });
    check('first run');
    const tick = dt => { clock.advance(dt); view.tick(dt); };
    both(v => { v.getSignalById('first').value(true); });
    for (const op of c.ops) {
      const m = typeof op[1] === 'number' && op[1] >= 0 ? ms[op[1]] : null, target = m ? m.animate : view.animate;
      env.saw('operations', op[0]);
      switch (op[0]) {
        case 'rows': both(v => { v.getDataById('d').values(clone(op[1])); v.getSignalById('first').value(false); v.run(); }); break;
        case 'off': both(v => { v.getSignalById('off').value(op[1]); v.run(); }); break;
        case 'op': both(v => { v.getSignalById('op').value(op[1]); v.run(); }); break;
        case 'astate': both(v => { v.getSignalById('astate').value(op[1]); v.run(); }); break;
        case 'first': both(v => { v.getSignalById('first').value(op[1]); v.run(); }); break;
        case 'resize': both(v => { v.resize(op[1], op[2]); v.run(); }); break;
        case 'noop': both(v => { v.run(); }); break;
        case 'tick': tick(n0(op[1])); break;
        case 'stop': target.stop(); break;
        case 'pause': target.pause(); break;
        case 'resume': target.resume(); break;
        case 'immediate': m.animate.run(op[2].length === 1 ? configOf(op[2][0]) : op[2].map(configOf)); break;
        case 'byState': m.animate.runAnimationByState(op[2]); break;
        case 'stopByState': m.animate.stopAnimationByState(op[2]); break;
        case 'pauseByState': m.animate.pauseAnimationByState(op[2]); break;
        case 'resumeByState': m.animate.resumeAnimationByState(op[2]); break;
        case 'disable': m.animate.disableAnimationState(op[2]); break;
        case 'enable': m.animate.enableAnimationState(op[2]); break;
        case 'off-all': target.disable(); break;
        case 'on-all': target.enable(); break;
        case 'config': { const mm = Object.assign({}, c.marks[op[1]], { anim: op[2] }); m.animation(animOf(mm)); both(v => v.getMarkById(m.id()).commit()); both(v => { v.run(); }); break; }
        default: throw new Error('op');
      }
      check(op[0]);
    }
    // let everything come to its end
    view.animate.resume();
    for (let k = 0; k < 12; k++) tick(k < 4 ? 97 : 3000);
    const loops = ms.some(m => m.animate.isAnimating());
    if (loops) { env.obs('endless animations stopped'); view.animate.stop(); tick(50); }
    check('end');
    env.obs('animation starts', bal.log.starts); env.obs('animation ends', bal.log.ends);
    if (!bal.log.starts) env.nontrivial = false;
    env.check(bal.openKeys().length === 0, () => `animations of ${bal.openKeys()} never ended`);
    env.check(bal.marksOpenKeys().length === 0, () => `the end of ${bal.marksOpenKeys()} was not announced`);
    env.check(bal.all === 0 && !view.animate.isAnimating(), 'the view still counts as animating');
    const A = sceneOf(view), B = sceneOf(twin);
    for (const m of ms) {
      env.check(m.animate.getAnimatorCount() === 0, `${m.id()} keeps animators`);
      m.elements.forEach(e => env.check(m.animate.isElementAnimating(e) === false, `element ${e.key} of ${m.id()} still counts as animating`));
      const a = A[m.id()], b = B[m.id()];
      env.check(V.same(a.map(x => x.key + '/' + x.group), b.map(x => x.key + '/' + x.group)), () => `${m.id()} shows elements ${JSON.stringify(a.map(x => x.key))}, without animation ${JSON.stringify(b.map(x => x.key))}`);
      const kids = x => x.graphicItem.children.flatMap(g => [g]).length;
      env.check(kids(m) === kids(twin.getMarkById(m.id())), () => `${m.id()} (${m.markType}) has ${kids(m)} graphics, without animation ${kids(twin.getMarkById(m.id()))}`);
      env.check(m.getAllElements().length === m.elements.length, `${m.id()} keeps exited elements`);
      a.forEach((x, i) => { const d = V.diff(x, b[i]); env.obs('elements compared'); env.check(!d, () => `${m.id()} (${m.markType}) element ${x.key}: animated vs not ${d}`); });
    }
  } finally { try { view && view.release(); twin && twin.release(); } finally { clock.uninstall(); } }
}

/* ---------- timeline: every frame of declared timelines ---------- */
const TCH = ['x', 'y', 'size', 'angle', 'lineWidth', 'dx'];
const EASES = { linear: u => u, quadIn: u => u * u, quadOut: u => u * (2 - u), cubicIn: u => u * u * u, quadInOut: u => (u < 0.5 ? 2 * u * u : 1 - 2 * (1 - u) * (1 - u)) };
function genTimeline(rng) {
  const rows = genRows(rng, rng.int(1, 5));
  const chans = rng.shuffle(TCH);
  const a = { slices: rng.times(rng.wpick([[3, 1], [3, 2], [1, 3]]), () => ({ effects: rng.times(rng.wpick([[3, 1], [1, 2]]), () => chans.length && { channel: chans.pop(), from: rng.int(0, 60), to: rng.bool(0.5) ? rng.int(0, 60) : undefined, easing: rng.pick(Object.keys(EASES)), fn: rng.bool(0.3), custom: rng.bool(0.25) }).filter(Boolean), duration: rng.pick([30, 100, 240]), delay: rng.bool(0.4) ? rng.pick([20, 75]) : 0, delayAfter: rng.bool(0.3) ? rng.pick([10, 45]) : 0, perRow: rng.bool(0.2) })).filter(x => x.effects.length) };
  if (rng.bool(0.5)) a.oneByOne = rng.pick([true, 35, 80]);
  if (rng.bool(0.4)) a.startTime = rng.pick([25.5, 110.5]);
  if (rng.bool(0.4)) a.loop = rng.pick([2, 3]);
  if (rng.bool(0.25)) a.totalTime = rng.pick([50.25, 180.25, 5000.25]);
  if (rng.bool(0.3)) a.part = rng.pick(['a', 'b', 'c']);
  if (rng.bool(0.4)) a.sort = rng.pick(['asc', 'desc']);
  if (rng.bool(0.3)) a.applyLater = true;
  const c = { rows, anim: a, how: rng.pick(['enter', 'enter', 'run']), ticks: rng.times(rng.int(4, 40), () => rng.num(0.5, rng.pick([20, 20, 90]), 3) + 0.0007) };
  if (rng.bool(0.3)) { c.how = 'run'; c.second = { duration: rng.pick([60, 130]), order: rng.pick(['after', 'parallel', 'chain', 'none']) }; delete a.totalTime; }
  if (rng.bool(0.2) && c.how === 'enter' && c.ticks.length > 6) c.pause = [rng.int(1, 3), rng.int(4, 6)];
  return c;
}
const restOf = d => ({ x: d.v, y: d.w, size: d.a, angle: d.b / 100, lineWidth: 2, dx: 7 });
async function runTimeline(c, env) {
  const clock = install();
  let view;
  try {
    view = V.mkView({ manual: true });
    const a = c.anim, durOf = (s, d) => (s.perRow ? s.duration + d.a : s.duration);
    const effect = e => Object.assign({ easing: e.easing, channel: { [e.channel]: Object.assign({ from: e.fn ? d => e.from + d.a : e.from }, e.to !== undefined ? { to: e.to } : {}) } }, e.custom ? { custom: lerp } : {});
    const cfg = { timeSlices: a.slices.map(s => Object.assign({ effects: s.effects.map(effect), duration: s.perRow ? d => durOf(s, d) : s.duration }, s.delay ? { delay: s.delay } : {}, s.delayAfter ? { delayAfter: s.delayAfter } : {})) };
    for (const k of ['startTime', 'totalTime', 'oneByOne', 'loop']) if (a[k] !== undefined) cfg[k] = a[k];
    if (a.part) cfg.partitioner = d => d.g !== a.part;
    if (a.sort) cfg.sort = (p, q) => (a.sort === 'asc' ? p.v - q.v : q.v - p.v);
    if (a.applyLater) cfg.controlOptions = { immediatelyApply: false };
    const mark = { id: 'm', type: 'symbol', key: 'k', from: { data: 'd' }, encode: { update: { x: d => d.v, y: d => d.w, size: d => d.a, angle: d => d.b / 100, lineWidth: 2, dx: 7 } } };
    if (c.how === 'enter') mark.animation = { enter: cfg };
    view.parseSpec({ data: [{ id: 'd', values: clone(c.rows) }], marks: [mark] });
    const m = view.getMarkById('m'), ended = new Map(), started = [];
    let t = 0;
    const mine = e => e.animationConfig === cfg;
    m.addEventListener('elementAnimationStart', (e, el) => { if (mine(e)) started.push(el.key); });
    m.addEventListener('elementAnimationEnd', (e, el) => { if (mine(e)) { env.check(!ended.has(el.key), `animation of ${el.key} ended twice`); ended.set(el.key, t); } });
    view.run();
    const els = m.elements.slice();
    let offset = 0, second = null;
    // the declared timeline of every animated element
    let list = els.filter(e => !a.part || e.getDatum().g !== a.part);
    if (a.sort) list = list.slice().sort((p, q) => (a.sort === 'asc' ? p.getDatum().v - q.getDatum().v : q.getDatum().v - p.getDatum().v));
    const n = list.length, plan = new Map();
    list.forEach((el, i) => {
      const d = el.getDatum();
      const loopTime = a.slices.reduce((s, x) => s + (x.delay || 0) + durOf(x, d) + (x.delayAfter || 0), 0);
      const one = a.oneByOne === true ? loopTime : a.oneByOne || 0;
      const wins = []; let p = one * i;
      a.slices.forEach(x => { p += x.delay || 0; wins.push([p, p + durOf(x, d), x.effects.map(e => ({ channel: e.channel, from: e.fn ? e.from + d.a : e.from, to: e.to === undefined ? restOf(d)[e.channel] : e.to, easing: EASES[e.easing], custom: e.custom }))]); p += durOf(x, d) + (x.delayAfter || 0); });
      const loopDur = loopTime + one * (n - 1), loops = a.loop || 1;
      plan.set(el.key, { wins, loopDur, loops, start: a.startTime || 0, total: (a.startTime || 0) + loopDur * loops, all: loopTime });
    });
    if (c.how === 'run') {
      const A = m.animate.run(cfg);
      if (c.second && n) {
        const other = { channel: { fillOpacity: { from: 0, to: 1 } }, easing: 'linear', duration: c.second.duration };
        const totalA = Math.max(...[...plan.values()].map(x => x.total));
        if (c.second.order === 'chain') {
          // a first animation, then both: the declared one starts when the first has ended
          const first = m.animate.run(other); A.after(first); offset = c.second.duration;
          second = { at: 0, dur: c.second.duration };
        } else {
          const B = m.animate.run(other);
          if (c.second.order === 'after') { B.after(A); second = { at: totalA, dur: c.second.duration }; } else if (c.second.order === 'parallel') { B.parallel(A); second = { at: 0, dur: c.second.duration }; } else second = { at: 0, dur: c.second.duration };
        }
        env.saw('arrangements', c.second.order);
      }
    }
    env.check(V.same(started.slice().sort(), list.map(e => e.key).sort()), () => `animated elements are ${started}, declared ${list.map(e => e.key)}`);
    if (c.how === 'run') { view.renderer.stage().ticker.start(true); view.tick(0); } // the idle ticker starts counting
    if (!n) { env.nontrivial = false; return; }
    const near = (x, y, tol) => Math.abs(x - y) <= (tol || 1e-6) * (1 + Math.abs(y));
    const compare = () => els.forEach(el => {
      const pl = plan.get(el.key), g = el.getGraphicItem().attribute, rest = restOf(el.getDatum());
      if (!pl) { for (const ch of TCH) env.check(near(g[ch], rest[ch]), () => `element ${el.key} is not animated but ${ch} is ${g[ch]}, encoded ${rest[ch]}`); return; }
      const limit = a.totalTime, tt = t - offset;
      const end = limit !== undefined ? Math.min(pl.total, limit) : pl.total;
      if (Math.abs(tt - end) < 1e-3) return;
      env.check((tt > end) === ended.has(el.key), () => `element ${el.key}: at ${t} its animation has ${ended.has(el.key) ? '' : 'not '}ended, its timeline ends at ${end + offset}`);
      for (const [s, e, effects] of pl.wins) for (const f of effects) {
        const v = g[f.channel], u = tt - pl.start, k = Math.floor(u / pl.loopDur), pos = u - k * pl.loopDur;
        const say = (want, what) => env.check(near(v, want, 1e-5), () => `element ${el.key} at ${t} (${what}): ${f.channel} is ${v}, the timeline gives ${want}`);
        if (tt > end) { say(f.to, 'ended'); continue; }
        if (tt < 0) continue;
        env.obs('values compared');
        if (u < 0 || (k === 0 && pos < s - 1e-3)) { if (!a.applyLater) say(f.from, 'before'); else say(rest[f.channel], 'before, not applied'); continue; }
        if (pos > s + 1e-3 && pos < e - 1e-3) { say(f.from + (f.to - f.from) * f.easing((pos - s) / (e - s)), 'running'); env.obs('interpolated values'); env.saw('easings', a.slices.length + '/' + (f.custom ? 'custom' : 'built-in')); } else if (pos > e + 1e-3) say(f.to, 'after its slice');
      }
      if (second && second.at + second.dur > t) {
        const v = g.fillOpacity, want = t < second.at ? 0 : (t - second.at) / second.dur;
        env.check(near(v, want, 1e-5), () => `element ${el.key} at ${t}: the ${c.second.order} animation is at ${v}, declared ${want}`); env.obs('arranged values');
      }
    });
    compare();
    let k = 0;
    const step = dt => {
      k++;
      const paused = c.pause && k > c.pause[0] && k <= c.pause[1];
      clock.advance(dt); if (!paused) t += dt; view.tick(dt);
      if (c.pause && k === c.pause[0]) m.animate.pause();
      if (c.pause && k === c.pause[1]) m.animate.resume();
      compare();
    };
    if (c.pause && (a.totalTime !== undefined || c.ticks.length < c.pause[1])) { env.nontrivial = false; return; }
    c.ticks.forEach(step);
    const rest = Math.max(...[...plan.values()].map(x => x.total)) + offset + (second ? second.dur : 0) - t;
    if (rest > 0) for (let i = 0; i < 10; i++) step(rest / 9 + 0.0031);
    env.check(!m.animate.isAnimating() && !view.animate.isAnimating() && m.animate.getAnimatorCount() === 0, 'the animations did not end');
    env.check(ended.size === n, () => `${ended.size} of ${n} animations announced their end`);
  } finally { try { view && view.release(); } finally { clock.uninstall(); } }
}

module.exports = {
  rule: 'random marks with random enter, update, exit and custom-state animations (built-in types with options, channels, custom interpolators and classes, timelines of several slices, one-by-one, loops, total time, partitioner, sort, control options) under random histories of data and signal changes, frames of any length, stop, pause, resume, immediate and by-state animations, enabling, disabling and reconfiguring; after all time has passed each element is compared with a twin view without animations, and start/end notifications are matched throughout; declared timelines (slices, delays, durations, start and total time, loops, one-by-one, order, partition, easings, arrangements) are compared with every frame of random length',
  mustObserve: ['animation starts', 'animation ends', 'elements compared', 'endless animations stopped', 'values compared', 'interpolated values', 'arranged values'],
  scenarios: [
    { name: 'settle', quick: 1000, thorough: 30000, gen: genSettle, run: runSettle },
    { name: 'timeline', quick: 1000, thorough: 30000, gen: genTimeline, run: runTimeline }
  ]
};
