'use strict';
// Coordinates: conversions, inversions, ranges and axis positions of real coordinates, alone and inside views,
// checked against the meaning of each transform and against one another.
const V = require('../lib/view.cjs');
const C = V.vg.coordinate;
const near = (a, b, s = 1) => a === b || Math.abs(a - b) <= 1e-6 * Math.max(1, Math.abs(a), Math.abs(b), s);
const pnear = (p, q, s) => near(p.x, q.x, s) && near(p.y, q.y, s);
const js = JSON.stringify;
const TAU = Math.PI * 2;
const angNear = (a, b) => { const d = Math.abs((((a - b) % TAU) + TAU) % TAU); return d < 1e-6 || TAU - d < 1e-6; };

function genTransforms(rng, n) {
  return rng.times(n, () => rng.wpick([
    [3, () => ({ type: 'translate', offset: { x: rng.int(-200, 200), y: rng.int(-200, 200) } })],
    [3, () => ({ type: 'rotate', angle: rng.num(-7, 7, 3) })],
    [3, () => ({ type: 'scale', scale: { x: rng.pick([0.5, 2, 3, -1, 1.5, -0.25]), y: rng.pick([0.5, 2, 4, -1, 1.25]) } })],
    [2, () => ({ type: 'transpose' })]
  ])());
}
// what one transform does to a canvas point
const one = (t, p, o) => {
  switch (t.type) {
    case 'translate': return { x: p.x + t.offset.x, y: p.y + t.offset.y };
    case 'rotate': { const c = Math.cos(t.angle), s = Math.sin(t.angle), x = p.x - o.x, y = p.y - o.y; return { x: o.x + x * c - y * s, y: o.y + x * s + y * c }; }
    case 'scale': return { x: o.x + (p.x - o.x) * t.scale.x, y: o.y + (p.y - o.y) * t.scale.y };
    case 'transpose': return { x: p.y, y: p.x };
  }
};
const det = ts => ts.reduce((d, t) => (t.type === 'scale' ? d * t.scale.x * t.scale.y : t.type === 'transpose' ? -d : d), 1);

/** x = main dimension; axis points are the converted ends of the dimension's range at either end of the other one */
function axes(env, c, k, tag, convert) {
  for (const [dim, other] of [['x', 'y'], ['y', 'x']]) {
    for (const sub of [false, true]) for (const rev of [false, true]) {
      const r = k.getRangeByDimension(dim, sub, rev), plain = k.getRangeByDimension(dim), o = k.getRangeByDimension(other);
      env.check(near(r[rev ? 1 : 0], plain[0]) && near(r[rev ? 0 : 1], plain[1]), () => `${tag}: reversing ${dim} gives ${js(r)} for range ${js(plain)}`);
      const pts = k.getAxisPointsByDimension(dim, sub, rev);
      if (pts === null) { env.check(k.type === 'polar' && k.isMainDimension(dim), () => `${tag}: no axis points for ${dim}`); continue; }
      const exp = r.map(v => convert({ [dim]: v, [other]: o[sub ? 1 : 0] }));
      env.obs('axis points compared', 2);
      env.check(pnear(pts[0], exp[0], 1000) && pnear(pts[1], exp[1], 1000), () => `${tag}: axis points of ${dim} (sub ${sub}, reversed ${rev}) are ${js(pts)}, converting its range gives ${js(exp)}`);
      if (k.type === 'polar') {
        const b = k.getAxisPointsByDimension(dim, sub, rev, c.base);
        const eb = r.map(v => convert({ [dim]: v, [other]: c.base }));
        env.check(pnear(b[0], eb[0], 1000) && pnear(b[1], eb[1], 1000), () => `${tag}: axis points at angle ${c.base} are ${js(b)}, expected ${js(eb)}`);
      } else {
        const b = k.getAxisPointsByDimension(dim, sub, rev, c.base);
        const main = k.isMainDimension(dim), e2 = exp.map(p => (main ? { x: p.x, y: c.base } : { x: c.base, y: p.y }));
        env.check(pnear(b[0], e2[0], 1000) && pnear(b[1], e2[1], 1000), () => `${tag}: axis points at ${c.base} are ${js(b)}, expected ${js(e2)}`);
      }
    }
    const pos = [k.getVisualPositionByDimension(dim), k.getVisualPositionByDimension(dim, true)];
    const main = k.isMainDimension(dim);
    const want = k.type === 'polar' ? (main ? ['outside', 'inside'] : ['start', 'end']) : main ? ['bottom', 'top'] : ['left', 'right'];
    env.check(js(pos) === js(want), () => `${tag}: axis of ${dim} placed at ${js(pos)}, expected ${js(want)}`);
  }
  env.check(k.isMainDimension('x') !== k.isMainDimension('y'), () => `${tag}: both dimensions are main or none is`);
}
function affine(env, k, tag, conv, d, scale) {
  const o = conv({ x: 0, y: 0 }), i = conv({ x: 1, y: 0 }), j = conv({ x: 0, y: 1 });
  const a = i.x - o.x, b = i.y - o.y, c = j.x - o.x, e = j.y - o.y;
  env.check(near(a * e - b * c, d, scale), () => `${tag}: areas scale by ${a * e - b * c}, the transforms scale them by ${d}`);
  return p => ({ x: o.x + a * p.x + c * p.y, y: o.y + b * p.x + e * p.y });
}

function genCart(rng) {
  return { start: [rng.int(-50, 200), rng.int(-50, 200)], end: [rng.int(200, 600), rng.int(200, 600)], flip: rng.bool(0.3), ts: genTransforms(rng, rng.int(0, 4)), base: rng.int(0, 300),
    pts: rng.times(6, () => ({ x: rng.num(-500, 500, 2), y: rng.num(-500, 500, 2) })), p1: rng.bool(0.5) };
}
async function runCart(c, env) {
  const k = new C.CartesianCoordinate();
  const [s, e] = c.flip ? [c.end, c.start] : [c.start, c.end];
  k.start(s).end(e[0], e[1]).applyTransforms(c.ts);
  const ts0 = js(c.ts);
  env.check(k.isTransposed() === (c.ts.filter(t => t.type === 'transpose').length % 2 === 1), 'transposed flag does not follow the transforms');
  const conv = p => k.convert(p);
  const lin = affine(env, k, `cartesian ${js(c.ts)}`, conv, det(c.ts), 1e-9);
  for (const p of c.pts) {
    const q = conv(p), back = k.invert(q);
    env.obs('points converted');
    env.check(pnear(back, p, 500), () => `inverting ${js(q)} gives ${js(back)}, converted from ${js(p)} with ${js(c.ts)}`);
    const qq = conv(k.invert(p));
    env.check(pnear(qq, p, 500), () => `converting the inverse of ${js(p)} gives ${js(qq)} with ${js(c.ts)}`);
    env.check(pnear(lin(p), q, 500), () => `conversion is not affine at ${js(p)}`);
    if (c.ts.length === 1) env.check(pnear(q, one(c.ts[0], p, { x: 0, y: 0 }), 500), () => `${js(c.ts[0])} maps ${js(p)} to ${js(q)}, expected ${js(one(c.ts[0], p, { x: 0, y: 0 }))}`);
    if (!c.ts.length) env.check(pnear(q, p), 'conversion without transforms moves points');
    if (c.ts.length && c.ts.every(t => t.type === 'translate')) { const x = c.ts.reduce((m, t) => one(t, m), p); env.check(pnear(q, x, 500), () => `translations ${js(c.ts)} map ${js(p)} to ${js(q)}`); }
    const arr = conv([p.x, p.y]);
    env.check(pnear(arr, q), () => `[x,y] converts to ${js(arr)}, {x,y} to ${js(q)}`);
    for (const p2 of [{ x: p.x, y: p.y, x1: p.y + 3, y1: p.x - 4 }, { x: p.x, y: p.y, x1: 0, y1: p.x }, { x: p.x, y: p.y, x1: p.y, y1: 0 }, { x: 0, y: 0, x1: p.x, y1: p.y }]) {
      const both = conv(p2), q0 = conv({ x: p2.x, y: p2.y }), q1 = conv({ x: p2.x1, y: p2.y1 });
      env.check(pnear(both, q0) && near(both.x1, q1.x, 500) && near(both.y1, q1.y, 500), () => `${js(p2)} converts to ${js(both)}, its ends convert to ${js(q0)} and ${js(q1)}`);
      const bi = k.invert(both);
      env.check(['x', 'y', 'x1', 'y1'].every(f => near(bi[f], p2[f], 500)), () => `interval ${js(p2)} comes back as ${js(bi)}`);
      const zi = k.invert(p2), z0 = k.invert({ x: p2.x, y: p2.y }), z1 = k.invert({ x: p2.x1, y: p2.y1 });
      env.check(pnear(zi, z0, 500) && near(zi.x1, z1.x, 500) && near(zi.y1, z1.y, 500), () => `${js(p2)} inverts to ${js(zi)}, its ends invert to ${js(z0)} and ${js(z1)}`);
    }
    const half = conv({ x: p.x, y: p.y, x1: p.x + 5 }), h1 = conv({ x: p.x + 5, y: p.y });
    env.check(near(half.x1, h1.x, 500) && near(half.y1, h1.y, 500), () => `an interval without y1 ends at ${half.x1},${half.y1}, expected ${js(h1)}`);
  }
  env.check(js(c.ts) === ts0, 'applyTransforms altered its argument');
  const swap = k.isTransposed();
  const rx = k.getRangeByDimension('x'), ry = k.getRangeByDimension('y');
  const ex = [s[0], e[0]], ey = [e[1], s[1]];
  env.check(js(swap ? ry : rx) === js(ex) && js(swap ? rx : ry) === js(ey), () => `ranges x ${js(rx)} y ${js(ry)} for a box from ${s} to ${e}, transposed ${swap}`);
  axes(env, c, k, `cartesian box ${s} ${e} ${js(c.ts)}`, p => (swap ? { x: p.y, y: p.x } : p));
}

function genPolar(rng) {
  const a0 = rng.pick([0, -Math.PI / 2, Math.PI, rng.num(-6, 6, 2)]);
  const box = rng.pick([null, { s: [rng.int(0, 100), rng.int(0, 100)], e: [rng.int(150, 500), rng.int(150, 500)] }]);
  return { box, origin: rng.bool(box ? 0.6 : 0.95) ? (box ? [rng.int(box.s[0], box.e[0]), rng.int(box.s[1], box.e[1])] : [rng.int(-100, 400), rng.int(-100, 400)]) : null,
    radius: rng.bool(0.6) ? rng.sample([0, 20, 40, 80.5, 150], 2) : null, arrayRadius: rng.bool(), angle: rng.bool(0.6) ? [a0, a0 + rng.pick([Math.PI, TAU, 1, -2, 4.5])] : null,
    order: rng.bool(), ts: genTransforms(rng, rng.int(0, 3)), base: rng.num(-3, 3, 2), pts: rng.times(6, () => ({ theta: rng.num(0, 6.28, 4), r: rng.num(0.5, 300, 2) })) };
}
async function runPolar(c, env) {
  const k = new C.PolarCoordinate();
  if (c.box) k.start(c.box.s).end(c.box.e);
  const setO = () => { if (c.origin) k.origin(c.origin); };
  const setA = () => { if (c.angle) (c.order ? k.angle(c.angle) : k.angle(c.angle[0], c.angle[1])); };
  const setR = () => { if (c.radius) (c.arrayRadius ? k.radius(c.radius) : k.radius(c.radius[0], c.radius[1])); };
  if (c.order) { setO(); setA(); setR(); } else { setO(); setR(); setA(); }
  const box = c.box ? [c.box.s, c.box.e] : [[0, 0], [0, 0]];
  const mid = { x: (box[0][0] + box[1][0]) / 2, y: (box[0][1] + box[1][1]) / 2 };
  const o = c.origin ? { x: c.origin[0], y: c.origin[1] } : mid;
  env.check(pnear(k.origin(), o), () => `origin is ${js(k.origin())}, expected ${js(o)} for box ${js(box)}`);
  const ang = c.angle || [0, TAU];
  env.check(js(k.angle()) === js(ang), () => `angles are ${js(k.angle())}, declared ${js(ang)}`);
  if (c.radius) {
    const want = c.radius.slice().sort((a, b) => a - b);
    env.check(js(k.radius()) === js(want), () => `radii are ${js(k.radius())}, declared ${js(c.radius)}`);
  } else if (c.box && !c.angle) {
    const want = Math.min(o.x - box[0][0], box[1][0] - o.x, o.y - box[0][1], box[1][1] - o.y);
    env.check(near(k.radius()[1], want), () => `outer radius ${k.radius()[1]} for origin ${js(o)} in the box ${js(box)}, the largest circle inside has radius ${want}`);
  }
  axes(env, c, k, 'polar', p => ({ x: o.x + Math.cos(p.x) * p.y, y: o.y + Math.sin(p.x) * p.y }));
  // the bounding box holds the sector and touches it
  if (c.radius || c.origin) {
    const [r0, r1] = k.radius(), st = k.start(), en = k.end();
    let bx = [Infinity, Infinity, -Infinity, -Infinity];
    for (let i = 0; i <= 720; i++) {
      const t = ang[0] + (ang[1] - ang[0]) * i / 720;
      for (const r of [r0, r1]) { const x = o.x + Math.cos(t) * r, y = o.y + Math.sin(t) * r; bx = [Math.min(bx[0], x), Math.min(bx[1], y), Math.max(bx[2], x), Math.max(bx[3], y)]; }
    }
    const tol = 1e-4 * (r1 + 1);
    env.check(Math.abs(st.x - bx[0]) < tol && Math.abs(st.y - bx[1]) < tol && Math.abs(en.x - bx[2]) < tol && Math.abs(en.y - bx[3]) < tol,
      () => `the box of the sector (${js(ang)}, radii ${r0},${r1}, origin ${js(o)}) is ${js(st)} ${js(en)}, its points span ${js(bx)}`);
  }
  k.applyTransforms(c.ts);
  const T = k.isTransposed();
  const rth = k.getRangeByDimension(T ? 'r' : 'theta'), rr = k.getRangeByDimension(T ? 'theta' : 'r');
  env.check(js(rth) === js(k.angle()) && js(rr) === js(k.radius()), () => `angle range ${js(rth)} and radius range ${js(rr)} after ${js(c.ts)}`);
  for (const p of c.pts) {
    const named = T ? { r: p.theta, theta: p.r } : p;
    const xy = T ? { x: p.r, y: p.theta } : { x: p.theta, y: p.r };
    const q = k.convert(named), q2 = k.convert(xy);
    env.obs('points converted');
    env.check(pnear(q, q2, 500), () => `${js(named)} converts to ${js(q)} but ${js(xy)} to ${js(q2)}`);
    const b = k.invert(q); const bt = T ? b.r : b.theta, br = T ? b.theta : b.r;
    env.check(angNear(bt, p.theta) && near(br, p.r, 300), () => `inverting ${js(q)} gives ${js(b)}, converted from ${js(named)} with ${js(c.ts)} around ${js(o)}`);
    env.check(bt >= 0 && bt < TAU + 1e-9, () => `inverted angle ${bt} out of the circle`);
    const base = { x: o.x + Math.cos(p.theta) * p.r, y: o.y + Math.sin(p.theta) * p.r };
    if (c.ts.filter(t => t.type !== 'transpose').length === 0) env.check(pnear(q, base, 500), () => `${js(named)} converts to ${js(q)}, expected ${js(base)}`);
    const real = c.ts.filter(t => t.type !== 'transpose');
    if (real.length === 1) { const x = one(real[0], base, o); env.check(pnear(q, x, 500), () => `${js(real[0])} around ${js(o)} maps ${js(base)} to ${js(q)}, expected ${js(x)}`); }
    const pair = k.convert(T ? { r: p.theta, theta: p.r, r1: p.theta + 1, theta1: p.r + 2 } : { theta: p.theta, r: p.r, theta1: p.theta + 1, r1: p.r + 2 });
    const end = k.convert(T ? { r: p.theta + 1, theta: p.r + 2 } : { theta: p.theta + 1, r: p.r + 2 });
    env.check(pnear(pair, q, 500) && near(pair.x1, end.x, 500) && near(pair.y1, end.y, 500), () => `interval converts to ${js(pair)}, its ends to ${js(q)} ${js(end)}`);
    const pxy = k.convert({ x: xy.x, y: xy.y, x1: xy.x + 1 }), exy = k.convert({ x: xy.x + 1, y: xy.y });
    env.check(near(pxy.x1, exy.x, 500) && near(pxy.y1, exy.y, 500), () => `interval without y1 ends at ${pxy.x1},${pxy.y1}, expected ${js(exy)}`);
  }
}

// ---------- coordinates inside views: marks and scales follow the declared coordinate through edits
function genView(rng) {
  const polar = rng.bool();
  const conf = () => ({ start: [rng.int(0, 60), rng.int(0, 60)], end: [rng.int(200, 400), rng.int(160, 300)], origin: polar && rng.bool(0.7) ? [rng.int(80, 180), rng.int(80, 150)] : null,
    translate: rng.bool(0.4) ? [rng.int(-40, 40), rng.int(-40, 40)] : null, rotate: rng.bool(0.3) ? rng.num(-3, 3, 2) : null, scale: rng.bool(0.3) ? [rng.pick([0.5, 2]), rng.pick([0.5, 1.5])] : null, transpose: rng.bool(0.4) ? true : rng.pick([false, null]) });
  return { polar, confs: rng.times(rng.int(1, 4), conf), live: rng.subset(['start', 'end', 'origin', 'translate', 'rotate', 'scale', 'transpose'], 0.5), type: rng.pick(['symbol', 'rect', 'line', 'rule']),
    rows: rng.times(rng.int(1, 5), i => ({ k: i, u: rng.int(0, 10), v: rng.int(0, 10), c: 'ABC'[rng.int(0, 2)] })), rev: rng.bool(0.3), band: rng.bool(0.4), mode: rng.pick(['api', 'signal']) };
}
async function runView(c, env) {
  await V.withView({}, async view => {
    const KEYS = ['start', 'end', 'origin', 'translate', 'rotate', 'scale', 'transpose'];
    const first = c.confs[0];
    const keys = KEYS.filter(k => k !== 'origin' || c.polar);
    const sigs = {};
    const co = view.coordinate(c.polar ? 'polar' : 'cartesian').id('co');
    // an origin is either declared all along or not at all; everything else may change
    const useOrigin = c.polar && first.origin;
    for (const k of keys) {
      if (k === 'origin' && !useOrigin) continue;
      if (c.live.includes(k) && c.mode === 'signal') { sigs[k] = view.signal(first[k]).id('s_' + k); co[k]({ signal: 's_' + k }); } else co[k](first[k]);
    }
    view.data(JSON.parse(js(c.rows))).id('d');
    const xs = (c.band ? view.scale('band').domain(['A', 'B', 'C']) : view.scale('linear').domain([0, 10])).id('xs').range({ coordinate: 'co', dimension: 'x', reversed: c.rev });
    const ys = view.scale('linear').id('ys').domain([0, 10]).range({ coordinate: 'co', dimension: 'y' });
    const mark = view.mark(c.type, view.rootMark).id('m').coordinate('co').join('d', c.type === 'line' ? undefined : 'k').encode({ x: { scale: 'xs', field: c.band ? 'c' : 'u' }, y: { scale: 'ys', field: 'v' }, x1: { scale: 'xs', field: c.band ? 'c' : 'u', offset: 4 }, y1: { scale: 'ys', value: 0 }, size: 4, stroke: 'red' });
    if (c.type === 'symbol' || c.type === 'line') mark.encode('x1', undefined).encode('y1', undefined);
    let cur = {};
    for (let i = 0; i < c.confs.length; i++) {
      const conf = c.confs[i];
      if (i) for (const k of keys) {
        if (!c.live.includes(k) || (k === 'origin' && (!useOrigin || !conf.origin))) continue;
        const v = conf[k];
        if (v === null && (k === 'start' || k === 'end' || k === 'origin')) continue;
        cur[k] = v;
        if (c.mode === 'signal') sigs[k].value(v); else co[k](v);
      } else for (const k of keys) cur[k] = k === 'origin' && !useOrigin ? null : conf[k];
      await view.run();
      const k = co.output();
      // reference: a fresh coordinate of the package, configured with the present declaration
      const ref = new (c.polar ? C.PolarCoordinate : C.CartesianCoordinate)();
      ref.start(cur.start).end(cur.end);
      if (cur.origin) ref.origin(cur.origin);
      const ts = [];
      if (cur.translate) ts.push({ type: 'translate', offset: { x: cur.translate[0], y: cur.translate[1] } });
      if (cur.rotate !== null) ts.push({ type: 'rotate', angle: cur.rotate });
      if (cur.scale) ts.push({ type: 'scale', scale: { x: cur.scale[0], y: cur.scale[1] } });
      if (cur.transpose) ts.push({ type: 'transpose' });
      ref.applyTransforms(ts);
      for (const [s, dim, rev] of [[xs, 'x', c.rev], [ys, 'y', false]]) {
        const got = s.output().range(), want = ref.getRangeByDimension(dim, false, rev);
        env.obs('scale ranges compared');
        env.check(near(got[0], want[0]) && near(got[1], want[1]), () => `step ${i}: scale on ${dim} spans ${js(got)}, the declared coordinate ${js(cur)} has ${js(want)}`);
      }
      const X = V.vg.vscale; const rx = (c.band ? new X.BandScale().domain(['A', 'B', 'C']) : new X.LinearScale().domain([0, 10])).range(ref.getRangeByDimension('x', false, c.rev)), ry = new X.LinearScale().domain([0, 10]).range(ref.getRangeByDimension('y'));
      const at = d => ({ x: rx.scale(c.band ? d.c : d.u), y: ry.scale(d.v) });
      if (c.type === 'line') {
        const pts = mark.elements[0].getGraphicItem().attribute.points;
        env.check(pts.length === c.rows.length, 'line has another number of points than rows');
        pts.forEach((p, j) => { const w = ref.convert(at(c.rows[j])); env.obs('marks placed'); env.check(pnear(p, w, 300), () => `step ${i}: line point ${j} at ${js(p)}, the coordinate ${js(cur)} places it at ${js(w)}`); });
      } else mark.elements.forEach((el, j) => {
        const d = c.rows[j], p = at(d);
        const a = el.getGraphicItem().attribute;
        env.obs('marks placed');
        if (c.type === 'symbol') { const w = ref.convert(p); env.check(pnear(a, w, 300), () => `step ${i}: symbol ${j} at ${a.x},${a.y}, the coordinate ${js(cur)} places it at ${js(w)}`); return; }
        const w = ref.convert({ x: p.x, y: p.y, x1: p.x + 4, y1: ry.scale(0) });
        if (c.type === 'rule') {
          const g = a.points.map(q => ({ x: q.x + (a.x || 0), y: q.y + (a.y || 0) }));
          env.check(pnear(g[0], { x: w.x, y: w.y }, 300) && pnear(g[1], { x: w.x1, y: w.y1 }, 300), () => `step ${i}: rule from ${js(g[0])} to ${js(g[1])}, the coordinate gives ${js(w)}`);
        } else {
          const lo = { x: Math.min(w.x, w.x1), y: Math.min(w.y, w.y1) };
          const wd = a.width !== undefined ? a.width : a.x1 - a.x, ht = a.height !== undefined ? a.height : a.y1 - a.y;
          env.check(pnear({ x: Math.min(a.x, a.x + wd), y: Math.min(a.y, a.y + ht) }, lo, 300) && near(Math.abs(wd), Math.abs(w.x1 - w.x), 300) && near(Math.abs(ht), Math.abs(w.y1 - w.y), 300), () => `step ${i}: rect ${js([a.x, a.y, wd, ht])}, the coordinate gives the corners ${js(w)}`);
        }
      });
      env.check(js(k.isTransposed()) === js(!!cur.transpose), 'transposition flag');
    }
  });
}

module.exports = {
  rule: 'conversion then inversion is the identity; single transforms do what they name; ranges, axis points and marks agree with the conversion of the declared coordinate',
  mustObserve: ['points converted', 'axis points compared', 'scale ranges compared', 'marks placed'],
  scenarios: [
    { name: 'cartesian', quick: 4000, thorough: 60000, gen: genCart, run: runCart },
    { name: 'polar', quick: 5000, thorough: 60000, gen: genPolar, run: runPolar },
    { name: 'view', quick: 3000, thorough: 30000, gen: genView, run: runView }
  ]
};
