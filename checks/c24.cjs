'use strict';
// Glyphs and semantic marks: from the channel values an item is given (its encoders evaluated by this file) a reference
// geometry of every part is derived and compared with the parts really held by the scene graph, after each edit, state
// change and animation frame.
const V = require('../lib/view.cjs');
const clone = x => JSON.parse(JSON.stringify(x));
const wp = (rng, list) => { const v = rng.wpick(list); return typeof v === 'function' ? v() : v; };
const isN = v => typeof v === 'number' && Number.isFinite(v);
const near = (a, b, eps = 1e-6) => a === b || Math.abs(a - b) <= eps * Math.max(1, Math.abs(a), Math.abs(b));
const horizontal = d => d === 'horizontal';

// ---------------------------------------------------------------- drawn geometry of a part
const off = g => [g.attribute.x || 0, g.attribute.y || 0];
function rectOf(g) { // the renderer prefers the size to the second corner
  const A = g.attribute, x = A.x || 0, y = A.y || 0, w = A.width ?? A.x1 - x, h = A.height ?? A.y1 - y;
  return [Math.min(x, x + w), Math.max(x, x + w), Math.min(y, y + h), Math.max(y, y + h)];
}
function segOf(g) { const [x, y] = off(g); return (g.attribute.points || []).map(p => [p.x + x, p.y + y]); }
/** numbers and commands of a path: [[cmd, n...], ...] */
function pathOf(s) {
  const out = [];
  String(s || '').replace(/([MLCZ])([^MLCZ]*)/g, (m, c, r) => { out.push([c, ...(r.match(/-?\d+(\.\d+)?(e-?\d+)?/g) || []).map(Number)]); return ''; });
  return out;
}

// ---------------------------------------------------------------- reference shapes (from merged channel values A)
// {part: {rect:[x0,x1,y0,y1]} | {seg:[[x,y],[x,y]]} | {path:[...], tol} | {points:[...]} | {attrs:{}} ; hidden: true}
const box = (h, m0, m1, c, half) => (h ? { rect: [Math.min(m0, m1), Math.max(m0, m1), c - half, c + half] } : { rect: [c - half, c + half, Math.min(m0, m1), Math.max(m0, m1)] });
const tick = (h, m, c, half) => (h ? { seg: [[m, c - half], [m, c + half]] } : { seg: [[c - half, m], [c + half, m]] });
const stem = (h, m0, m1, c) => (h ? { seg: [[m0, c], [m1, c]] } : { seg: [[c, m0], [c, m1]] });
const turn = (parts, A, names, h) => {
  if (A.angle === undefined) return parts;
  const mid = (A.min + A.max) / 2;
  const anchor = A.anchor || (h ? [mid, A.y] : [A.x, mid]);
  names.forEach(n => { parts[n] = parts[n] || {}; parts[n].attrs = Object.assign({}, parts[n].attrs, { angle: A.angle, anchor }); });
  return parts;
};
const SHAPES = {
  boxplot(A, cfg) {
    const h = horizontal(cfg && cfg.direction), c = h ? A.y : A.x, size = h ? A.height : A.width;
    const b = ((h ? A.boxHeight : A.boxWidth) ?? size) / 2, r = ((h ? A.ruleHeight : A.ruleWidth) ?? size) / 2;
    const P = {};
    if (isN(A.q1) && isN(A.q3)) P.box = box(h, A.q1, A.q3, c, b);
    if (isN(A.min) && isN(A.max)) P.shaft = stem(h, A.min, A.max, c);
    P.min = isN(A.min) ? tick(h, A.min, c, r) : { hidden: true };
    P.max = isN(A.max) ? tick(h, A.max, c, r) : { hidden: true };
    P.median = isN(A.median) ? tick(h, A.median, c, b) : { hidden: true };
    return turn(P, A, ['shaft', 'box', 'min', 'max', 'median'], h);
  },
  barBoxplot(A, cfg) {
    const h = horizontal(cfg && cfg.direction), c = h ? A.y : A.x, size = h ? A.height : A.width;
    const m = ((h ? A.minMaxHeight : A.minMaxWidth) ?? size) / 2, q = ((h ? A.q1q3Height : A.q1q3Width) ?? size) / 2;
    const P = {};
    if (isN(A.min) && isN(A.max)) P.minMaxBox = box(h, A.min, A.max, c, m);
    if (isN(A.q1) && isN(A.q3)) P.q1q3Box = box(h, A.q1, A.q3, c, q);
    P.median = isN(A.median) ? tick(h, A.median, c, q) : { hidden: true };
    if (A.minMaxFillOpacity !== undefined) { P.minMaxBox = P.minMaxBox || {}; P.minMaxBox.attrs = { fillOpacity: A.minMaxFillOpacity }; }
    return turn(P, A, ['minMaxBox', 'q1q3Box', 'median'], h);
  },
  violin(A, cfg) {
    const h = horizontal(cfg && cfg.direction), c = h ? A.y : A.x, size = h ? A.height : A.width;
    const b = ((h ? A.boxHeight : A.boxWidth) ?? size) / 2, P = {};
    if (isN(A.q1) && isN(A.q3)) P.box = box(h, A.q1, A.q3, c, b);
    if (isN(A.min) && isN(A.max)) P.shaft = stem(h, A.min, A.max, c);
    if (A.density && A.density.length) {
      const top = Math.max(...A.density.map(d => d[1])), D = A.densitySize ?? 30;
      const side = s => A.density.map(d => { const w = c + (s * D * d[1]) / top, m = A.$density(d[0]); return h ? [m, w] : [w, m]; });
      P.violin = { points: side(-1).concat(side(1).reverse()) };
    }
    if (A.violinFill !== undefined) P.violin = Object.assign(P.violin || {}, { attrs: { fill: A.violinFill } });
    if (A.violinStroke !== undefined) P.violin = Object.assign(P.violin || {}, { attrs: Object.assign({}, (P.violin || {}).attrs, { stroke: A.violinStroke }) });
    P.median = isN(A.median) ? { attrs: h ? { x: A.median, y: c } : { x: c, y: A.median } } : { hidden: true };
    if (A.medianFill !== undefined && !P.median.hidden) P.median.attrs.fill = A.medianFill;
    return turn(P, A, ['shaft', 'box'], h);
  },
  ripplePoint(A) {
    if (!isN(A.size) || !isN(A.ripple)) return {};
    const r = Math.max(0, Math.min(1, A.ripple)), P = { symbol: { attrs: { size: A.size, x: A.x, y: A.y } } };
    [0, 1, 2].forEach(i => { P['ripple' + i] = { attrs: { x: A.x, y: A.y, size: A.size * (1 + 0.5 * (i + r)), fillOpacity: 0.75 - 0.25 * (i + r) } }; });
    return P;
  },
  wave(A) {
    if (!isN(A.wave)) return {};
    const P = {}, speed = [100, 200, 300], lag = [0, 40, 20];
    [0, 1, 2].forEach(i => {
      P['wave' + i] = { points: Array.from({ length: 21 }, (_, k) => [-500 + 50 * k + A.wave * speed[i] - lag[i], A.y + (k % 2 ? 0 : 20), A.y + A.height]) };
    });
    return P;
  },
  linkPath(A, cfg) {
    const dir = A.direction ?? (cfg && cfg.direction), v = ['vertical', 'TB', 'BT'].includes(dir);
    const ratio = isN(A.ratio) && A.ratio >= 0 && A.ratio <= 1 ? A.ratio : undefined;
    const ribbon = share => {
      // along: a0 -> a1, across: centres c0, c1
      const [a0, a1, c0, c1] = v ? [A.y0, A.y1, A.x0, A.x1] : [A.x0, A.x1, A.y0, A.y1];
      const T = A.thickness, t = T * share, k = A.curvature ?? 0.5;
      const shift = A.align === 'center' ? -t / 2 : A.align === 'end' ? T / 2 - t : -T / 2;
      const s0 = c0 + shift, s1 = c1 + shift, e0 = s0 + t, e1 = s1 + t;
      const p0 = a0 + k * (a1 - a0), p1 = a1 + k * (a0 - a1), way = a1 < a0 ? -1 : 1, long = A.round === false ? Math.abs(a1 - a0) > 1e-6 : Math.round(a0) !== Math.round(a1);
      const pt = (a, c) => (v ? [c, a] : [a, c]);
      const side = (from, cf, to, ct, q0, q1) => (A.pathType === 'line' ? [['L', ...pt(to, ct)]] : A.pathType === 'polyline' ? [['L', ...pt(p0, cf)], ['L', ...pt(p0, ct)], ['L', ...pt(to, ct)]] : [['C', ...pt(q0, cf), ...pt(q1, ct), ...pt(to, ct)]]);
      const out = [['M', ...pt(a0, s0)], ...side(a0, s0, a1, s1, p0, p1)];
      if (A.endArrow && long) out.push(['L', ...pt(a1, s1 - t / 2)], ['L', ...pt(a1 + way * t, (s1 + e1) / 2)], ['L', ...pt(a1, e1 + t / 2)]);
      out.push(['L', ...pt(a1, e1)], ...side(a1, e1, a0, e0, p1, p0));
      if (A.startArrow && long) out.push(['L', ...pt(a0, e0 + t / 2)], ['L', ...pt(a0 - way * t, (s0 + e0) / 2)], ['L', ...pt(a0, s0 - t / 2)]);
      out.push(['Z']);
      return out;
    };
    const tol = A.round === false ? 1e-6 : 1.51;
    const P = { front: { path: ribbon(ratio === undefined ? 1 : ratio), tol }, back: { path: ratio === undefined ? [] : ribbon(1), tol } };
    if (A.backgroundStyle) P.back.attrs = A.backgroundStyle;
    return P;
  },
  treePath(A, cfg) {
    const dir = A.direction ?? (cfg && cfg.direction), v = ['vertical', 'TB', 'BT'].includes(dir);
    const [a0, a1, c0, c1] = v ? [A.y0, A.y1, A.x0, A.x1] : [A.x0, A.x1, A.y0, A.y1];
    const k = A.curvature ?? 0.5, p0 = a0 + k * (a1 - a0), p1 = a1 + k * (a0 - a1), way = a1 < a0 ? -1 : 1;
    const long = A.round === false ? Math.abs(a1 - a0) > 1e-6 : Math.round(a0) !== Math.round(a1), s = A.arrowSize ?? 3;
    const pt = (a, c) => (v ? [c, a] : [a, c]);
    const main = [['M', ...pt(a0, c0)]].concat(A.pathType === 'line' ? [['L', ...pt(a1, c1)]] : A.pathType === 'polyline' ? [['L', ...pt(p0, c0)], ['L', ...pt(p0, c1)], ['L', ...pt(a1, c1)]] : [['C', ...pt(p0, c0), ...pt(p1, c1), ...pt(a1, c1)]]);
    const head = (a, c, w) => [['M', ...pt(a - w * s, c - s)], ['L', ...pt(a, c)], ['L', ...pt(a - w * s, c + s)]];
    const tol = A.round === false ? 1e-6 : 1.51;
    const P = { main: { path: main, tol }, startArrow: { path: A.startArrow && long ? head(a0, c0, -way) : [], tol, wings: true }, endArrow: { path: A.endArrow && long ? head(a1, c1, way) : [], tol, wings: true } };
    if (A.startArrowStyle) P.startArrow.attrs = A.startArrowStyle;
    if (A.endArrowStyle) P.endArrow.attrs = A.endArrowStyle;
    return P;
  }
};
const PARTS = {
  boxplot: ['shaft', 'box', 'max', 'min', 'median'], barBoxplot: ['minMaxBox', 'q1q3Box', 'median'], violin: ['violin', 'shaft', 'box', 'median'],
  ripplePoint: ['symbol', 'ripple0', 'ripple1', 'ripple2'], wave: ['wave0', 'wave1', 'wave2'], linkPath: ['back', 'front'], treePath: ['main', 'startArrow', 'endArrow']
};
const R = x => V.norm(x);
function comparePart(env, g, want, what) {
  const A = g.attribute;
  if (want.hidden) { env.check(A.visible === false, () => `${what} is drawn although its channel is missing`); env.obs('hidden parts'); return; }
  env.check(A.visible !== false, () => `${what} is hidden although its channels are given`);
  const all = (got, exp, eps) => got.length === exp.length && exp.every((v, i) => near(got[i], v, eps));
  if (want.rect) { const r = rectOf(g); env.check(all(r, want.rect), () => `${what} covers [x0,x1,y0,y1] ${R(r)}, expected ${R(want.rect)}`); env.obs('boxes compared'); }
  if (want.seg) {
    const s = segOf(g), f = s.flat(), rev = s.slice().reverse().flat(), e = want.seg.flat();
    env.check(all(f, e) || all(rev, e), () => `${what} runs ${JSON.stringify(R(s))}, expected ${JSON.stringify(R(want.seg))}`); env.obs('rules compared');
  }
  if (want.points) {
    const [x, y] = off(g), P = (A.points || []).map(p => (want.points[0].length === 3 ? [p.x + x, p.y + y, p.y1 + y] : [p.x + x, p.y + y]));
    env.check(P.length === want.points.length && want.points.every((e, i) => all(P[i], e)), () => `${what} has the outline ${JSON.stringify(R(P)).slice(0, 300)}, expected ${JSON.stringify(R(want.points)).slice(0, 300)}`); env.obs('outlines compared');
  }
  if (want.path) {
    const got = pathOf(A.path), e = want.path, abs = (a, b) => Math.abs(a - b) <= want.tol * (want.tol < 1e-3 ? Math.max(1, Math.abs(b)) : 1);
    const eq = (p, q) => p.length === q.length && p.every((c, i) => c[0] === q[i][0] && c.length === q[i].length && c.slice(1).every((n, j) => abs(n, q[i][j + 1])));
    const flip = want.wings && e.length === 3 ? [['M', ...e[2].slice(1)], e[1], ['L', ...e[0].slice(1)]] : e;
    env.check(eq(got, e) || eq(got, flip), () => `${what} follows ${JSON.stringify(A.path)}, expected ${JSON.stringify(R(e))}`); env.obs('paths compared');
  }
  for (const k of Object.keys(want.attrs || {})) env.check(typeof want.attrs[k] === 'number' ? near(A[k], want.attrs[k]) : V.same(A[k], want.attrs[k]), () => `${what} has ${k} ${JSON.stringify(V.norm(A[k]))}, expected ${JSON.stringify(V.norm(want.attrs[k]))}`);
}

// ---------------------------------------------------------------- glyphs
// an encoder: {s:'scale field'} {f:'field'} {v:value} {m:'field'} (callback: field times the signal)
const FIELDS = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'];
function rowOf(rng, k) { const r = { k }; FIELDS.forEach(f => { r[f] = rng.num(0, 100, 1); }); r.den = rng.times(rng.int(1, 6), i => [rng.num(0, 100, 1), rng.num(i ? 0 : 0.1, 5, 2)]); return r; }
const COLORS = ['red', 'green', '#123456', 'blue'];
function enc(rng, pool) { const f = pool || rng.pick(FIELDS); return wp(rng, [[4, { s: f }], [3, { f }], [1, { v: rng.num(0, 100, 1) }], [2, { m: f }]]); }
const some = (rng, o, p, k, e) => { if (rng.bool(p)) o[k] = typeof e === 'function' ? e() : e; };
function channels(rng, glyph, h) {
  const o = {};
  if (['boxplot', 'barBoxplot', 'violin'].includes(glyph)) {
    o[h ? 'y' : 'x'] = enc(rng); o[h ? 'height' : 'width'] = rng.bool(0.5) ? { v: rng.num(2, 40, 1) } : enc(rng);
    const S = { boxplot: ['box', 'rule'], barBoxplot: ['minMax', 'q1q3'], violin: ['box'] }[glyph];
    S.forEach(s => some(rng, o, 0.4, s + (h ? 'Height' : 'Width'), () => enc(rng)));
    if (rng.bool(0.9)) { o.q1 = enc(rng); o.q3 = enc(rng); }
    if (rng.bool(0.8)) { o.min = enc(rng); o.max = enc(rng); } else if (rng.bool(0.5)) o[rng.pick(['min', 'max'])] = enc(rng);
    some(rng, o, 0.75, 'median', () => enc(rng));
    if (rng.bool(0.15) && o.min && o.max) { o.angle = { v: rng.num(-3, 3, 2) }; some(rng, o, 0.4, 'anchor', { v: [rng.int(0, 100), rng.int(0, 100)] }); }
    if (glyph === 'violin') { some(rng, o, 0.8, 'density', { den: true }); some(rng, o, 0.5, 'densitySize', () => enc(rng)); some(rng, o, 0.3, 'violinFill', { v: rng.pick(COLORS) }); some(rng, o, 0.3, 'violinStroke', { v: rng.pick(COLORS) }); some(rng, o, 0.3, 'medianFill', { v: rng.pick(COLORS) }); o.size = { v: 5 }; }
    if (glyph === 'barBoxplot') some(rng, o, 0.3, 'minMaxFillOpacity', { v: rng.num(0, 1, 2) });
  } else if (glyph === 'ripplePoint') { o.x = enc(rng); o.y = enc(rng); o.size = enc(rng); o.ripple = rng.bool(0.5) ? { v: rng.num(-0.5, 1.5, 2) } : { r: rng.pick(FIELDS) }; }
  else if (glyph === 'wave') { o.y = enc(rng); o.height = enc(rng); o.wave = rng.bool(0.5) ? { v: rng.num(0, 1, 2) } : { r: rng.pick(FIELDS) }; }
  else {
    ['x0', 'x1', 'y0', 'y1'].forEach(k => { o[k] = enc(rng); });
    some(rng, o, 0.3, 'curvature', { v: rng.num(0, 1, 2) }); some(rng, o, 0.6, 'round', { v: rng.bool(0.2) }); some(rng, o, 0.6, 'pathType', { v: rng.pick(['line', 'smooth', 'polyline']) });
    some(rng, o, 0.4, 'startArrow', { v: rng.bool(0.8) }); some(rng, o, 0.4, 'endArrow', { v: rng.bool(0.8) }); some(rng, o, 0.3, 'direction', { v: rng.pick(['horizontal', 'vertical', 'LR', 'RL', 'TB', 'BT', 'radial']) });
    if (glyph === 'linkPath') { o.thickness = rng.bool(0.5) ? { v: rng.num(1, 30, 1) } : enc(rng); some(rng, o, 0.5, 'ratio', () => (rng.bool(0.5) ? { v: rng.num(-0.3, 1.3, 2) } : { r: rng.pick(FIELDS) })); some(rng, o, 0.6, 'align', { v: rng.pick(['start', 'center', 'end']) }); some(rng, o, 0.2, 'backgroundStyle', { v: { fill: 'grey', fillOpacity: 0.3 } }); }
    else { some(rng, o, 0.4, 'arrowSize', { v: rng.num(1, 8, 1) }); some(rng, o, 0.2, 'startArrowStyle', { v: { stroke: 'red' } }); some(rng, o, 0.2, 'endArrowStyle', { v: { stroke: 'green', lineWidth: 3 } }); }
  }
  some(rng, o, 0.4, 'opacity', { v: rng.num(0.1, 1, 2) });
  if (glyph === 'boxplot' || glyph === 'linkPath' || glyph === 'treePath') some(rng, o, 0.5, 'stroke', { v: rng.pick(COLORS) });
  if (glyph === 'boxplot' || glyph === 'linkPath') some(rng, o, 0.5, 'fill', { v: rng.pick(COLORS) });
  return o;
}
const GLYPHS = Object.keys(PARTS);
function stateOf(rng, glyph, base) {
  const o = {}, nums = Object.keys(base).filter(k => !['angle', 'anchor', 'density', 'round', 'pathType', 'direction', 'align', 'startArrow', 'endArrow', 'stroke', 'fill', 'violinFill', 'violinStroke', 'medianFill', 'backgroundStyle', 'startArrowStyle', 'endArrowStyle'].includes(k));
  rng.sample(nums, rng.int(1, 3)).forEach(k => { o[k] = k === 'opacity' ? { v: rng.num(0.1, 1, 2) } : ['ripple', 'wave', 'ratio', 'curvature', 'minMaxFillOpacity'].includes(k) ? { v: rng.num(0, 1, 2) } : enc(rng); });
  some(rng, o, 0.3, 'stroke', { v: rng.pick(COLORS) });
  return o;
}
const NAMES = ['hover', 'sel', 'mute'];
function genGlyph(rng) {
  const glyph = rng.wpick([[4, 'boxplot'], [3, 'barBoxplot'], [3, 'violin'], [1, 'ripplePoint'], [1, 'wave'], [4, 'linkPath'], [3, 'treePath']]);
  const dir = ['boxplot', 'barBoxplot', 'violin'].includes(glyph) ? wp(rng, [[3, undefined], [3, 'horizontal'], [2, 'vertical']]) : ['linkPath', 'treePath'].includes(glyph) ? wp(rng, [[3, undefined], [2, 'horizontal'], [3, 'vertical'], [1, 'TB'], [1, 'LR'], [1, 'BT'], [1, 'RL']]) : undefined;
  const h = dir === 'horizontal', update = channels(rng, glyph, h);
  const turns = glyph === 'boxplot' || glyph === 'barBoxplot' ? rng.bool(0.25) : glyph.endsWith('Path') && !!dir;
  if (turns && glyph.endsWith('oxplot')) { const o = channels(rng, glyph, !h); ['x', 'y', 'width', 'height'].forEach(k => { if (o[k] && !update[k]) update[k] = o[k]; }); }
  const states = {};
  if (!update.angle) NAMES.forEach(s => { if (rng.bool(0.6)) states[s] = stateOf(rng, glyph, turns ? Object.fromEntries(Object.entries(update).filter(([k]) => !['x', 'y', 'width', 'height'].includes(k))) : update); });
  // items placed by a coordinate: the parts follow
  const co = glyph === 'ripplePoint' && rng.bool(0.4) ? [rng.int(-50, 50), rng.int(0, 50)] : undefined;
  if (co) Object.values(states).forEach(st => { delete st.x; delete st.y; });
  let n = 0; const rows = () => rng.times(rng.int(1, 5), () => rowOf(rng, 'k' + rng.int(0, 6))).filter((r, i, l) => l.findIndex(q => q.k === r.k) === i);
  return {
    glyph, dir, update, states, co, sorted: rng.bool(0.3), rows: rows(), sig: rng.num(0.2, 2, 1), range: rng.pick([[0, 200], [200, 0], [50, 80]]), cfgBy: rng.pick(['spec', 'call']), spec: rng.bool(0.4),
    edits: rng.times(rng.int(1, 8), () => wp(rng, [[4, () => ({ op: 'rows', rows: rows() })], [2, () => ({ op: 'sig', v: rng.num(0.2, 2, 1) })], [2, () => ({ op: 'range', v: [rng.int(0, 200), rng.int(0, 200)] })],
      [4, () => ({ op: 'states', k: 'k' + rng.int(0, 6), list: rng.shuffle(rng.subset(Object.keys(states).concat('ghost'), 0.5)) })], [2, () => ({ op: rng.pick(['add', 'remove', 'toggle']), k: 'k' + rng.int(0, 6), s: rng.pick(NAMES) })], [1, () => ({ op: 'clear', k: 'k' + rng.int(0, 6) })], [1, () => ({ op: 'reencode' })], [turns ? 2 : 0, () => ({ op: 'turn', v: glyph.endsWith('Path') ? rng.pick(['horizontal', 'vertical', 'TB', 'LR']) : rng.pick(['horizontal', 'vertical']) })]]))
  };
}
function evaluator(view, c, cur) {
  const S = v => cur.range[0] + (v / 100) * (cur.range[1] - cur.range[0]);
  return (set, row) => {
    const A = {};
    for (const k of Object.keys(set)) { const e = set[k]; A[k] = e.s ? S(row[e.s]) : e.f ? row[e.f] : e.m ? row[e.m] * cur.sig : e.r ? row[e.r] / 100 : e.den ? row.den : e.v; }
    if (set.density) A.$density = S;
    if (c.co) { if (A.x !== undefined) A.x += c.co[0]; if (A.y !== undefined) A.y += c.co[1]; }
    return A;
  };
}
const toSpec = set => { const o = {}; for (const k of Object.keys(set)) { const e = set[k]; o[k] = e.s ? { scale: 's', field: e.s } : e.f ? { field: e.f } : e.m ? { callback: (d, el, p) => d[e.m] * p.sig, dependency: ['sig'] } : e.r ? { callback: d => d[e.r] / 100 } : e.den ? { scale: 's', field: 'den' } : clone(e.v) === e.v ? e.v : { callback: () => clone(e.v) }; } return o; };
function declare(view, c, cur) {
  view.signal(cur.sig).id('sig'); view.data(clone(cur.rows)).id('d');
  view.scale('linear').id('s').domain([0, 100]).range(cur.range);
  const cfg = c.dir ? { direction: c.dir } : undefined;
  if (c.co) view.coordinate('cartesian').id('co').start([0, 0]).end([200, 200]).translate(c.co);
  const encode = { update: toSpec(c.update) }; Object.keys(c.states || {}).forEach(s => { encode[s] = toSpec(c.states[s]); });
  if (c.spec) {
    const m = view.glyph(c.glyph, view.rootMark); m.parse({ id: 'm', type: 'glyph', glyphType: c.glyph, glyphConfig: cfg, from: { data: 'd' }, key: 'k', encode, animation: c.animation, coordinate: c.co ? 'co' : undefined });
    return m;
  }
  const m = view.glyph(c.glyph, view.rootMark).id('m').join('d', 'k');
  m.encode(encode.update); Object.keys(encode).forEach(s => { if (s !== 'update') m.encodeState(s, encode[s]); });
  if (cfg) m.configureGlyph(cfg);
  if (c.co) m.coordinate('co');
  if (c.animation) m.animation(c.animation);
  return m;
}
const INHERITED = ['stroke', 'fill', 'opacity'];
function compareGlyph(env, c, el, A, tag, seen) {
  const want = SHAPES[c.glyph](A, c.dir ? { direction: c.dir } : undefined), parts = el.getGlyphGraphicItems();
  env.check(V.same(Object.keys(parts).sort(), PARTS[c.glyph].slice().sort()), `${tag}: the parts are ${Object.keys(parts)}`);
  for (const p of Object.keys(want)) {
    if (want[p].hidden && seen && seen[p]) continue; // only an item that never had the channel is judged
    comparePart(env, parts[p], want[p], `${tag}: ${c.glyph} ${el.key} part ${p}`);
  }
  PARTS[c.glyph].forEach(p => INHERITED.forEach(k => {
    if (A[k] === undefined || (want[p] && want[p].attrs && want[p].attrs[k] !== undefined)) return;
    if (c.glyph === 'barBoxplot' && k === 'stroke') { if (p !== 'median') return; }
    if (c.glyph === 'violin' && k !== 'opacity') return;
    env.check(V.same(parts[p].attribute[k], A[k]), () => `${tag}: ${c.glyph} ${el.key} part ${p} has ${k} ${JSON.stringify(parts[p].attribute[k])}, expected ${A[k]}`);
  }));
}
async function runGlyph(c, env) {
  await V.withView({}, async view => {
    const cur = { sig: c.sig, range: c.range.slice(), rows: clone(c.rows) };
    const value = evaluator(view, c, cur), m = declare(view, c, cur);
    c = clone(c);
    const order = (a, b) => NAMES.indexOf(a) - NAMES.indexOf(b), sorted = l => (c.sorted ? l.slice().sort(order) : l);
    if (c.sorted) m.state(undefined, order);
    const states = new Map();
    const verify = tag => {
      env.check(m.elements.length === cur.rows.length, `${tag}: ${m.elements.length} elements for ${cur.rows.length} rows`);
      cur.rows.forEach(r => {
        const el = m.elements.find(e => e.key === r.k);
        env.check(!!el, `${tag}: no element ${r.k}`);
        const st = states.get(r.k) || []; states.set(r.k, st);
        let A = value(c.update, r);
        env.check(V.same(el.getStates(), st), () => `${tag}: ${r.k} has the states ${el.getStates()}, expected ${st}`);
        st.forEach(s => { if (c.states[s]) A = Object.assign(A, value(c.states[s], r)); });
        compareGlyph(env, c, el, A, tag);
        env.obs('glyphs compared'); env.saw('glyph and direction', c.glyph + '/' + (c.dir || '-')); env.saw('states', st.join('+'));
      });
      [...states.keys()].forEach(k => { if (!cur.rows.some(r => r.k === k)) states.delete(k); });
    };
    view.run(); verify('first run');
    for (const [i, e] of c.edits.entries()) {
      const el = e.k && m.elements.find(q => q.key === e.k), st = el && states.get(e.k);
      if (e.op === 'rows') { cur.rows = clone(e.rows); view.getDataById('d').values(clone(e.rows)); view.run(); }
      else if (e.op === 'sig') { cur.sig = e.v; view.getSignalById('sig').value(e.v); view.run(); }
      else if (e.op === 'range') { cur.range = e.v.slice(); view.getScaleById('s').range(e.v.slice()); view.run(); }
      else if (e.op === 'turn') { c.dir = e.v; m.configureGlyph({ direction: e.v }); view.run(); }
      else if (e.op === 'reencode') { m.encode(toSpec(c.update)); view.run(); }
      else if (!el) continue;
      else if (e.op === 'states') { el.useStates(e.list.slice()); states.set(e.k, sorted(e.list.slice())); }
      else if (e.op === 'add') { el.addState(e.s); if (!st.includes(e.s) && c.states[e.s]) states.set(e.k, sorted(st.concat(e.s))); }
      else if (e.op === 'remove') { el.removeState(e.s); states.set(e.k, st.filter(s => s !== e.s)); }
      else if (e.op === 'toggle') { const on = el.hasState(e.s); on ? el.removeState(e.s) : el.addState(e.s); states.set(e.k, on ? st.filter(s => s !== e.s) : sorted(st.concat(c.states[e.s] ? e.s : []))); }
      else if (e.op === 'clear') { el.clearStates(); states.set(e.k, []); }
      env.saw('edits', e.op);
      verify(`edit ${i} (${e.op})`);
    }
    env.nontrivial = true;
  });
}

// ---------------------------------------------------------------- growing and shrinking
function genGrow(rng) {
  const glyph = rng.pick(['boxplot', 'barBoxplot', 'linkPath', 'treePath']);
  const box = glyph === 'boxplot' || glyph === 'barBoxplot';
  const dir = wp(rng, [[2, undefined], [3, 'horizontal'], [2, 'vertical']]), update = channels(rng, glyph, dir === 'horizontal');
  delete update.angle; delete update.anchor; delete update.direction;
  if (!box && update.round) update.round = { v: false };
  const type = glyph + (box ? ['ScaleIn', 'ScaleOut'] : ['GrowIn', 'GrowOut'])[0];
  return { glyph, dir, update, states: {}, rows: rng.times(rng.int(1, 3), i => rowOf(rng, 'k' + i)), next: rng.times(rng.int(0, 2), i => rowOf(rng, 'k' + (i + 1))), sig: 1, range: [0, 200], spec: rng.bool(0.3), dur: rng.pick([100, 300]), center: box && rng.bool(0.4) ? rng.int(0, 200) : undefined, steps: rng.times(rng.int(2, 5), () => rng.int(10, 120)), type };
}
async function runGrow(c, env) {
  await V.withView({ manual: true }, async view => {
    const cur = { sig: 1, range: c.range, rows: clone(c.rows) }, value = evaluator(view, c, cur);
    const box = c.glyph === 'boxplot' || c.glyph === 'barBoxplot', options = c.center === undefined ? undefined : { center: c.center };
    const animation = { enter: { type: c.glyph + (box ? 'ScaleIn' : 'GrowIn'), options, duration: c.dur, easing: 'linear' }, exit: { type: c.glyph + (box ? 'ScaleOut' : 'GrowOut'), options, duration: c.dur, easing: 'linear' } };
    const m = declare(view, Object.assign({ animation }, c), cur);
    view.run();
    const at = (A, f) => { // channels when the fraction f is shown
      const B = Object.assign({}, A);
      if (!box) { B.x1 = A.x0 + (A.x1 - A.x0) * f; B.y1 = A.y0 + (A.y1 - A.y0) * f; return B; }
      const ok = isN, mid = c.center !== undefined ? c.center : ok(A.median) ? A.median : ok(A.q1) && ok(A.q3) ? (A.q1 + A.q3) / 2 : ok(A.min) && ok(A.max) ? (A.min + A.max) / 2 : ok(A.min) ? A.min : A.max;
      if (!ok(mid)) return B;
      ['min', 'max', 'q1', 'q3', 'median'].forEach(k => { if (ok(A[k])) B[k] = mid + (A[k] - mid) * f; });
      return B;
    };
    const all = (rows, f, tag) => rows.forEach(r => {
      const el = [...m.elements, ...[...m.elementMap.values()]].find(e => e.key === r.k);
      env.check(!!el, `${tag}: no element ${r.k}`);
      compareGlyph(env, c, el, at(value(c.update, r), f), `${tag} (${r.k})`); env.obs('glyph frames compared');
    });
    view.renderer.stage().ticker.start(true); view.tick(0);
    let t = 0; all(cur.rows, 0, 'growing, time 0');
    for (const s of c.steps) { t += s; view.tick(s); const f = Math.min(1, t / c.dur); all(cur.rows, f, `growing, time ${t}`); }
    view.tick(2000); all(cur.rows, 1, 'grown');
    // leaving items shrink, the others stay
    const stay = cur.rows.filter(r => c.next.some(n => n.k === r.k)), gone = cur.rows.filter(r => !stay.includes(r));
    view.getDataById('d').values(clone(stay)); view.run(); view.tick(0);
    t = 0;
    for (const s of c.steps) { t += s; if (t >= c.dur) break; view.tick(s); all(gone, 1 - t / c.dur, `shrinking, time ${t}`); all(stay, 1, `staying, time ${t}`); }
    view.tick(2000);
    env.check(m.elements.length === stay.length, `${m.elements.length} elements left of ${stay.length}`);
    all(stay, 1, 'after shrinking');
    env.saw('animated glyph', c.glyph + '/' + (c.dir || '-'));
    env.nontrivial = true;
  });
}

// ---------------------------------------------------------------- glyphs registered by the user
let serial = 0;
const PARTTYPES = ['rect', 'symbol', 'rule', 'path'];
function genCustom(rng) {
  const parts = rng.times(rng.int(1, 4), i => ({ name: 'p' + i, type: rng.pick(PARTTYPES) }));
  const attr = t => (t === 'rect' ? rng.pick(['x', 'y', 'width', 'height', 'lineWidth']) : t === 'symbol' ? rng.pick(['x', 'y', 'size', 'lineWidth']) : t === 'rule' ? rng.pick(['lineWidth', 'strokeOpacity']) : rng.pick(['lineWidth', 'x']));
  const effect = () => { const p = rng.pick(parts); return { part: p.name, attr: attr(p.type), by: rng.pick(['u', 'w', 'n']), k: rng.num(-2, 2, 1), plus: rng.num(0, 20, 1) }; };
  return {
    parts, fn: rng.bool(0.5) ? rng.times(rng.int(1, 3), effect) : null, ch: rng.times(rng.int(0, 3), () => ({ channel: rng.pick(['u', 'w', 'n']), eff: effect() })).filter((e, i, l) => l.findIndex(q => q.channel === e.channel) === i),
    def: rng.times(rng.int(0, 3), () => { const p = rng.pick(parts); return { part: p.name, attr: attr(p.type), v: rng.num(1, 9, 1) }; }), cfg: rng.bool(0.5) ? { factor: rng.num(0.5, 3, 1) } : undefined,
    given: [...new Set(rng.subset(['u', 'w', 'n', 'lineWidth', 'size'], 0.6).concat(rng.pick(['u', 'w', 'n'])))], rows: rng.times(rng.int(1, 4), i => ({ k: 'k' + i, u: rng.num(0, 50, 1), w: rng.num(0, 50, 1), n: rng.num(0, 50, 1), lineWidth: rng.num(1, 5, 1), size: rng.num(1, 30, 1) })),
    edits: rng.times(rng.int(0, 4), () => rng.times(rng.int(1, 5), () => 'k' + rng.int(0, 5)).filter((k, i, l) => l.indexOf(k) === i).map(k => ({ k, u: rng.num(0, 50, 1), w: rng.num(0, 50, 1), n: rng.num(0, 50, 1), lineWidth: rng.num(1, 5, 1), size: rng.num(1, 30, 1) })))
  };
}
async function runCustom(c, env) {
  await V.withView({}, async view => {
    const type = 'custom' + serial++, F = V.vg.core.Factory;
    const apply = (o, e, A, cfg) => { o[e.part] = Object.assign(o[e.part] || {}, { [e.attr]: (A[e.by] ?? 0) * e.k * ((cfg && cfg.factor) || 1) + e.plus }); return o; };
    const rows = new Map(); let cur = clone(c.rows);
    const args = (datum, el, cfg) => { env.check(V.same(datum, rows.get(el.key)), () => `an encoder of ${el.key} received the datum ${JSON.stringify(datum)}`); env.check(V.same(cfg, c.cfg), `an encoder received the configuration ${JSON.stringify(cfg)}`); };
    const meta = F.registerGlyph(type, Object.fromEntries(c.parts.map(p => [p.name, p.type])));
    if (c.fn) meta.registerFunctionEncoder((A, datum, el, cfg) => { args(datum, el, cfg); const o = {}; c.fn.forEach(e => apply(o, e, A, cfg)); return o; });
    const encoders = {}; c.ch.forEach(({ channel, eff }) => { encoders[channel] = (name, v, A, datum, el, cfg) => { args(datum, el, cfg); env.check(name === channel && V.same(A[channel], v), `a channel encoder of ${channel} was called with ${name}`); env.obs('channel encoders called'); return apply({}, eff, A, cfg); }; });
    if (c.ch.length % 2) Object.keys(encoders).forEach(k => meta.registerChannelEncoder(k, encoders[k])); else meta.registerChannelEncoder(encoders); // one by one or all together
    if (c.def.length) meta.registerDefaultEncoder((datum, el, cfg) => { args(datum, el, cfg); const o = {}; c.def.forEach(d => { o[d.part] = Object.assign(o[d.part] || {}, { [d.attr]: d.v }); }); return o; });
    cur.forEach(r => rows.set(r.k, r));
    view.data(clone(cur)).id('d');
    const m = view.glyph(type, view.rootMark).id('m').join('d', 'k');
    const e = {}; c.given.forEach(k => { e[k] = { field: k }; }); m.encode(e);
    if (c.cfg) m.configureGlyph(c.cfg);
    const verify = tag => cur.forEach(r => {
      const el = m.elements.find(q => q.key === r.k); env.check(!!el, `${tag}: no element ${r.k}`);
      const A = {}; c.given.forEach(k => { A[k] = r[k]; });
      let own = {}; if (c.fn) c.fn.forEach(x => apply(own, x, A, c.cfg));
      c.ch.forEach(({ channel, eff }) => { if (A[channel] !== undefined) apply(own, eff, A, c.cfg); });
      const parts = el.getGlyphGraphicItems();
      c.parts.forEach(p => {
        const want = Object.assign({}, own[p.name]);
        c.def.forEach(d => { if (d.part === p.name && !(d.attr in A) && !(own[p.name] && d.attr in own[p.name])) want[d.attr] = c.def.filter(q => q.part === p.name && q.attr === d.attr).pop().v; });
        ['lineWidth', 'size'].forEach(k => { if (k in A && !(k in want)) want[k] = A[k]; });
        if (p.type === 'rect' && isN(want.x) && want.width === undefined) want.x = want.x;
        for (const k of Object.keys(want)) env.check(near(parts[p.name].attribute[k], want[k]), () => `${tag}: ${r.k} part ${p.name} (${p.type}) has ${k} ${parts[p.name].attribute[k]}, expected ${want[k]}`);
        env.obs('custom parts compared'); env.saw('part kinds', p.type);
      });
    });
    view.run(); verify('first run');
    for (const [i, rs] of c.edits.entries()) { cur = clone(rs); rows.clear(); cur.forEach(r => rows.set(r.k, r)); view.getDataById('d').values(clone(rs)); view.run(); verify(`edit ${i}`); }
    env.nontrivial = true;
  });
}

// ---------------------------------------------------------------- interval, cell and text marks
const CATS = ['a', 'b', 'c', 'd', 'e'], CATS2 = ['u', 'v', 'w'];
const rowsXY = rng => { const o = []; CATS.forEach(x => { if (rng.bool(0.6)) o.push({ k: x, x, y: rng.num(-50, 100, 1), z: rng.pick(CATS2) }); }); return o.length ? o : [{ k: 'a', x: 'a', y: 10, z: 'u' }]; };
function genMark(rng) {
  const kind = rng.wpick([[5, 'interval'], [3, 'cell'], [2, 'text']]);
  const c = { kind, rows: rowsXY(rng), W: rng.int(50, 400), H: rng.int(50, 300), pad: rng.pick([0, 0.1, 0.4]), dom: rng.pick([[0, 100], [-50, 100], [20, 100], [-50, -10], [100, 0]]), flip: rng.bool(0.4), spec: rng.bool(0.4) };
  if (kind === 'interval') { c.coord = wp(rng, [[5, undefined], [2, 'cartesian'], [2, 'polar']]); c.transpose = c.coord ? rng.bool(0.3) : false; c.fun = rng.bool(0.15); c.plain = rng.bool(0.1); if (c.coord) { c.fun = c.plain = false; } }
  if (kind === 'cell') { c.padding = wp(rng, [[2, undefined], [1, () => rng.num(0, 10, 1)], [1, () => [rng.num(0, 10, 1), rng.num(0, 10, 1)]]]); c.size = wp(rng, [[4, undefined], [1, () => rng.num(5, 30, 1)], [1, () => [rng.num(5, 30, 1), rng.num(5, 30, 1)]]]); c.chan = rng.wpick([[4, 'xy'], [2, 'x'], [2, 'y'], [1, 'none']]); c.shape = rng.bool(0.3) ? 'circle' : undefined; c.fun = rng.bool(0.2); }
  if (kind === 'text') c.rich = wp(rng, [[2, 'plain'], [2, 'object'], [1, 'textType']]);
  c.edits = rng.times(rng.int(0, 5), () => wp(rng, [[3, () => ({ op: 'rows', rows: rowsXY(rng) })], [2, () => ({ op: 'dom', v: rng.pick([[0, 100], [-50, 100], [30, 90], [-80, -20]]) })], [2, () => ({ op: 'size', W: rng.int(50, 400), H: rng.int(50, 300) })], [1, () => ({ op: 'pad', v: rng.pick([0, 0.2, 0.5]) })]]));
  return c;
}
async function runMark(c, env) {
  await V.withView({}, async view => {
    let rows = clone(c.rows), W = c.W, H = c.H, dom = c.dom.slice();
    view.data(clone(rows)).id('d'); view.signal(W).id('W'); view.signal(H).id('H'); view.signal(dom).id('dom'); view.signal(c.pad).id('pad');
    const polar = c.coord === 'polar';
    if (c.coord) view.coordinate(c.coord).id('co').start([0, 0]).end(polar ? [Math.PI * 1.5, 80] : [W, H]);
    const bx = view.scale('band').id('bx').domain(CATS), by = view.scale('band').id('by').domain(CATS2), l = view.scale('linear').id('l').domain({ callback: (s, p) => p.dom.slice(), dependency: ['dom'] });
    bx.configure({ padding: { signal: 'pad' } });
    if (c.coord) {
      const co = view.getCoordinateById('co');
      if (polar) co.origin([100, 90]);
      if (c.transpose) co.transpose(true);
      bx.range({ coordinate: 'co', dimension: c.flip ? 'y' : 'x' }); l.range({ coordinate: 'co', dimension: c.flip ? 'x' : 'y' });
    } else {
      bx.range({ callback: (s, p) => (c.flip ? [0, p.H] : [0, p.W]), dependency: ['W', 'H'] }); by.range({ callback: (s, p) => (c.flip ? [0, p.W] : [0, p.H]), dependency: ['W', 'H'] });
      l.range({ callback: (s, p) => (c.flip ? [0, p.W] : [p.H, 0]), dependency: ['W', 'H'] });
    }
    const cx = c.flip ? 'y' : 'x', cy = c.flip ? 'x' : 'y';
    let e = {};
    if (c.kind === 'interval') { e[cx] = { scale: 'bx', field: 'x' }; e[cy] = { scale: 'l', field: 'y' }; if (c.plain) e = { x: 10, x1: 30, y: { field: 'y' }, y1: 0 }; }
    else if (c.kind === 'cell') {
      if (c.chan.includes('x')) e[cx] = { scale: 'bx', field: 'x', band: 0.5 }; else e[cx] = 5;
      if (c.chan.includes('y')) e[cy] = { scale: 'by', field: 'z', band: 0.5 }; else e[cy] = 7;
      if (c.padding !== undefined) e.padding = c.padding; if (c.size !== undefined) e.size = c.size; if (c.shape) e.shape = c.shape;
    } else {
      e.x = 5; e.y = 6;
      if (c.rich === 'plain') e.text = { field: 'x' };
      else if (c.rich === 'object') e.text = { callback: d => ({ type: 'rich', text: [{ text: d.x, fill: 'red' }] }) };
      else { e.textType = 'rich'; e.text = { callback: d => [{ text: d.x, fill: 'red' }] }; }
    }
    const sc = id => view.getScaleById(id).output();
    const fun = c.fun ? { callback: (d, el, p) => { const o = {}; for (const k of Object.keys(e)) o[k] = e[k] && e[k].scale ? p[e[k].scale].scale(d[e[k].field]) + (e[k].band ? p[e[k].scale].bandwidth() * e[k].band : 0) : e[k] && e[k].field ? d[e[k].field] : e[k]; return o; }, dependency: ['bx', 'by', 'l'] } : null;
    let m;
    if (c.spec) { m = view.mark(c.kind, view.rootMark); m.parse({ id: 'm', type: c.kind, from: { data: 'd' }, key: 'k', coordinate: c.coord ? 'co' : undefined, encode: { update: fun || e } }); }
    else { m = view.mark(c.kind, view.rootMark).id('m').join('d', 'k'); if (c.coord) m.coordinate('co'); m.encodeState('update', fun || e); }
    const verify = tag => {
      env.check(m.elements.length === rows.length, `${tag}: ${m.elements.length} elements for ${rows.length} rows`);
      rows.forEach(r => {
        const g = m.elements.find(q => q.key === r.k).getGraphicItem(), A = g.attribute, what = `${tag}: ${c.kind} ${r.k}`;
        if (c.kind === 'text') {
          env.check(g.type === (c.rich === 'plain' ? 'text' : 'richtext'), () => `${what} is drawn as ${g.type}`);
          env.check(c.rich === 'plain' ? A.text === r.x : V.same(A.textConfig, [{ text: r.x, fill: 'red' }]), () => `${what} shows ${JSON.stringify(c.rich === 'plain' ? A.text : A.textConfig)}`);
          env.saw('text kinds', c.rich); env.obs('semantic marks compared'); return;
        }
        if (c.kind === 'cell') {
          const w = sc('bx').bandwidth(), h = sc('by').bandwidth();
          const sx = c.chan.includes('x') ? w : undefined, sy = c.chan.includes('y') ? h : undefined, [s0, s1] = c.flip ? [sy, sx] : [sx, sy];
          let size = c.size;
          if (size === undefined) size = c.fun || (s0 === undefined && s1 === undefined) ? 10 : s0 === undefined ? s1 : s1 === undefined ? s0 : [s0, s1];
          const pad = Array.isArray(c.padding) ? c.padding : [c.padding || 0, c.padding || 0];
          const shrink = (v, p) => (p > 0 || Array.isArray(c.padding) ? Math.max(v - p, 1) : v), two = Array.isArray(size) ? size : [size, size];
          const exp = [shrink(two[0], pad[0]), shrink(two[1], pad[1])], got = Array.isArray(A.size) ? A.size : [A.size, A.size];
          env.check(near(got[0], exp[0]) && near(got[1], exp[1]), () => `${what} has the size ${JSON.stringify(A.size)}, expected ${exp}`);
          env.check(A.symbolType === (c.shape || 'rect'), () => `${what} has the shape ${A.symbolType}`);
          const px = c.chan.includes('x') ? sc('bx').scale(r.x) + w / 2 : 5, py = c.chan.includes('y') ? sc('by').scale(r.z) + h / 2 : 7;
          env.check(near(A[cx], px) && near(A[cy], py), () => `${what} is at ${A.x},${A.y}`);
          env.saw('cell kinds', c.chan + (c.fun ? ' function' : '')); env.obs('semantic marks compared'); return;
        }
        // interval
        const b = sc('bx'), v = sc('l'), w = b.bandwidth(), p = b.scale(r.x), lo = Math.min(...dom), hi = Math.max(...dom), base = v.scale(lo > 0 ? lo : hi < 0 ? hi : 0), top = v.scale(r.y);
        env.obs('semantic marks compared'); env.saw('interval kinds', (c.coord || 'none') + (c.transpose ? ' transposed' : '') + (c.flip ? ' flipped' : '') + (c.fun ? ' function' : '') + (c.plain ? ' plain' : ''));
        if (c.plain) { const R0 = [10, 30, Math.min(0, r.y), Math.max(0, r.y)], q = rectOf(g); env.check(R0.every((x, i) => near(x, q[i])), () => `${what} covers ${q}, expected ${R0}`); return; }
        if (c.fun) { env.check(near(A[cx], p) && near(A[cy], top), () => `${what} is at ${A.x},${A.y}`); return; }
        const cat = [p + w / 4, p + (3 * w) / 4], val = [Math.min(base, top), Math.max(base, top)];
        const X = c.flip ? val : cat, Y = c.flip ? cat : val;
        if (polar) {
          const s = (a, q) => [Math.min(a, q), Math.max(a, q)], [ang, rad] = [s(A.startAngle, A.endAngle), s(A.innerRadius, A.outerRadius)], o = view.getCoordinateById('co').output().origin();
          env.check(g.type === 'arc', () => `${what} is drawn as ${g.type} in a polar coordinate`);
          const [ea, er] = c.transpose ? [Y, X] : [X, Y];
          env.check(near(ang[0], Math.min(...ea)) && near(ang[1], Math.max(...ea)) && near(rad[0], Math.min(...er)) && near(rad[1], Math.max(...er)), () => `${what} spans the angles ${ang} and radii ${rad}, expected ${ea} and ${er}`);
          env.check(near(A.x, o.x) && near(A.y, o.y), () => `${what} is centred at ${A.x},${A.y}, expected ${o.x},${o.y}`);
          return;
        }
        if (c.coord) {
          const co = view.getCoordinateById('co').output(), pts = [[X[0], Y[0]], [X[1], Y[1]]].map(([x, y]) => co.convert({ x, y }));
          const E = [Math.min(pts[0].x, pts[1].x), Math.max(pts[0].x, pts[1].x), Math.min(pts[0].y, pts[1].y), Math.max(pts[0].y, pts[1].y)], q = rectOf(g);
          env.check(E.every((x, i) => near(x, q[i])), () => `${what} covers ${q}, expected ${E}`); return;
        }
        const q = rectOf(g), E = [...X, ...Y];
        env.check(E.every((x, i) => near(x, q[i])), () => `${what} covers ${q}, expected ${E}`);
      });
    };
    view.run(); verify('first run');
    for (const [i, ed] of c.edits.entries()) {
      if (ed.op === 'rows') { rows = clone(ed.rows); view.getDataById('d').values(clone(rows)); }
      else if (ed.op === 'dom') { dom = ed.v.slice(); view.getSignalById('dom').value(ed.v.slice()); }
      else if (ed.op === 'size') { view.getSignalById('W').value(ed.W); view.getSignalById('H').value(ed.H); W = ed.W; H = ed.H; }
      else view.getSignalById('pad').value(ed.v);
      view.run(); verify(`edit ${i} (${ed.op})`);
    }
    env.nontrivial = true;
  });
}

module.exports = {
  rule: 'after the first run, every edit, every state change and at every frame, each part of a glyph (and each interval, cell and text mark) has the geometry derived from the channel values of its item',
  mustObserve: ['glyphs compared', 'boxes compared', 'rules compared', 'outlines compared', 'paths compared', 'hidden parts', 'glyph frames compared', 'custom parts compared', 'channel encoders called', 'semantic marks compared'],
  scenarios: [
    { name: 'glyph', quick: 1500, gen: genGlyph, run: runGlyph },
    { name: 'grow', quick: 500, gen: genGrow, run: runGrow },
    { name: 'custom', quick: 400, gen: genCustom, run: runCustom },
    { name: 'marks', quick: 1500, gen: genMark, run: runMark }
  ]
};
