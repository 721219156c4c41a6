'use strict';
// Venn diagrams: the real transforms on set systems taken from real circles (so that an exact picture exists) and on
// arbitrary ones; the drawn paths are read back with the meaning SVG gives them.
const V = require('../lib/view.cjs');
const N = V.vg.venn;
N.registerVennTransforms();
const js = JSON.stringify;
const lens = (r1, r2, d) => {
  if (d >= r1 + r2) return 0;
  if (d <= Math.abs(r1 - r2)) return Math.PI * Math.min(r1, r2) ** 2;
  const a = (r1 * r1 - r2 * r2 + d * d) / (2 * d), b = d - a;
  const seg = (r, x) => r * r * Math.acos(Math.max(-1, Math.min(1, x / r))) - x * Math.sqrt(Math.max(0, r * r - x * x));
  return seg(r1, a) + seg(r2, b);
};
const dist = (a, b) => Math.hypot(a.x - b.x, a.y - b.y);
/** area common to all circles, slice by slice */
function common(cs, n = 4000) {
  const y0 = Math.max(...cs.map(c => c.y - c.radius)), y1 = Math.min(...cs.map(c => c.y + c.radius));
  if (!(y1 > y0)) return 0;
  let s = 0;
  for (let i = 0; i < n; i++) {
    const y = y0 + ((i + 0.5) * (y1 - y0)) / n;
    let l = -Infinity, r = Infinity;
    for (const c of cs) { const h = Math.sqrt(Math.max(0, c.radius ** 2 - (y - c.y) ** 2)); l = Math.max(l, c.x - h); r = Math.min(r, c.x + h); }
    if (r > l) s += r - l;
  }
  return (s * (y1 - y0)) / n;
}
/** the outline an SVG path of arcs denotes, as a polygon */
function outline(path) {
  const num = '(-?[\\d.]+(?:e[-+]?\\d+)?)', m = new RegExp(`^M${num},${num}`).exec(path);
  if (!m || !/Z\s*$/.test(path)) return null;
  let p = { x: +m[1], y: +m[2] }, rest = path.slice(m[0].length).replace(/\s*Z\s*$/, '');
  const pts = [p], re = new RegExp(`^A${num},${num} 0 ([01]),([01]) ${num},${num}`);
  while (rest) {
    const a = re.exec(rest);
    if (!a) return null;
    rest = rest.slice(a[0].length);
    const q = { x: +a[5], y: +a[6] }, d = dist(p, q), r = Math.max(+a[1], d / 2);
    if (d > 0) {
      const h = Math.sqrt(Math.max(0, r * r - (d * d) / 4)), sgn = a[3] === a[4] ? -1 : 1; // as in the SVG specification
      const cx = (p.x + q.x) / 2 + (sgn * h * (p.y - q.y) * -1 * -1) / d, cy = (p.y + q.y) / 2 + (sgn * h * (q.x - p.x)) / d;
      let t0 = Math.atan2(p.y - cy, p.x - cx), t1 = Math.atan2(q.y - cy, q.x - cx);
      if (a[4] === '1') { while (t1 < t0) t1 += 2 * Math.PI; } else { while (t1 > t0) t1 -= 2 * Math.PI; }
      for (let i = 1; i <= 200; i++) { const t = t0 + ((t1 - t0) * i) / 200; pts.push({ x: cx + r * Math.cos(t), y: cy + r * Math.sin(t) }); }
    }
    p = q;
  }
  return pts;
}
const polyArea = pts => Math.abs(pts.reduce((s, p, i) => { const q = pts[(i + 1) % pts.length]; return s + p.x * q.y - q.x * p.y; }, 0)) / 2;

const NAMES = ['A', 'B', 'C', 'D', 'E'];
function genRealisable(rng) {
  const n = rng.wpick([[1, 1], [4, 2], [4, 3]]), cs = [];
  for (let i = 0; i < n; i++) {
    const r = rng.num(2, 20, 1), b = cs.length ? rng.pick(cs) : { x: 0, y: 0, radius: 0 };
    const d = !cs.length ? 0 : rng.wpick([[5, () => Math.abs(b.radius - r) + rng.num(0.1, 0.9, 2) * 2 * Math.min(b.radius, r)], [1, () => Math.abs(b.radius - r) * rng.num(0, 0.9, 2)], [1, () => b.radius + r + rng.int(1, 5)]])();
    const t = rng.num(0, 6.28, 2);
    cs.push({ set: NAMES[i], x: b.x + d * Math.cos(t), y: b.y + d * Math.sin(t), radius: r });
  }
  const rows = cs.map(c => ({ sets: [c.set], size: Math.PI * c.radius ** 2 }));
  for (let i = 0; i < n; i++) for (let j = i + 1; j < n; j++) { const a = lens(cs[i].radius, cs[j].radius, dist(cs[i], cs[j])); if (a > 0 || rng.bool(0.5)) rows.push({ sets: rng.bool(0.8) ? [cs[i].set, cs[j].set] : [cs[j].set, cs[i].set], size: a }); }
  if (n === 3) { const a = common(cs); if (a > 0 || rng.bool(0.3)) rows.push({ sets: rng.shuffle(cs.map(c => c.set)), size: a }); }
  return { rows, cs };
}
function genAny(rng) {
  const n = rng.int(2, 5), rows = NAMES.slice(0, n).map(s => ({ sets: [s], size: rng.int(1, 100) }));
  const size = s => rows.find(r => r.sets[0] === s && r.sets.length === 1).size;
  for (let i = 0; i < n; i++) for (let j = i + 1; j < n; j++) if (rng.bool(0.5)) { const m = Math.min(size(NAMES[i]), size(NAMES[j])); rows.push({ sets: [NAMES[i], NAMES[j]], size: rng.wpick([[5, rng.int(0, m)], [1, m], [1, 0]]) }); }
  if (n >= 3 && rng.bool(0.6)) rows.push({ sets: NAMES.slice(0, 3), size: rng.int(0, 10) });
  if (n >= 4 && rng.bool(0.3)) rows.push({ sets: NAMES.slice(0, 4), size: 1 });
  return { rows };
}
const genOpt = rng => ({ box: [rng.int(-200, 300), rng.int(-200, 300), rng.int(50, 900), rng.int(50, 700)], orientation: rng.bool(0.4) ? rng.num(-3, 3, 2) : null, order: rng.wpick([[3, null], [1, 'name'], [1, 'small']]), fields: rng.bool(0.2), order2: rng.bool(0.3), single: rng.bool(0.2) });
function build(c, rng) {
  const o = { x0: c.o.box[0], y0: c.o.box[1], x1: c.o.box[0] + c.o.box[2], y1: c.o.box[1] + c.o.box[3] };
  if (c.o.orientation !== null) o.orientation = c.o.orientation;
  if (c.o.order) o.orientationOrder = c.o.order === 'name' ? (a, b) => (a.setId < b.setId ? -1 : 1) : (a, b) => a.radius - b.radius;
  const S = c.o.fields ? 'members' : 'sets', Z = c.o.fields ? 'count' : 'size';
  if (c.o.fields) { o.setField = S; o.valueField = Z; }
  let rows = c.d.rows.map((r, i) => ({ [S]: c.o.single && r.sets.length === 1 ? r.sets[0] : r.sets.slice(), [Z]: r.size, tag: i }));
  if (c.o.order2) rows = rows.slice().reverse();
  return { o, rows, S, Z };
}
const arr = v => (Array.isArray(v) ? v : [v]);
/** everything that has to hold for any set system */
function check(env, c, out, rows, o, S, Z, tag) {
  const W = o.x1 - o.x0, H = o.y1 - o.y0, size = Math.max(W, H), eps = size * 1e-6;
  env.check(out.length === rows.length, () => `${tag}: ${out.length} areas for ${rows.length} rows`);
  const circles = {};
  out.forEach((d, i) => {
    const r = rows[i], sets = arr(r[S]);
    env.check(d.datum === r && d.tag === r.tag && js(d.sets) === js(sets) && d.key === sets.join() && d.size === r[Z], () => `${tag}: area ${i} does not describe row ${js(r)}`);
    env.check(d.type === (sets.length === 1 ? 'circle' : 'overlap'), () => `${tag}: the area of ${sets} is a ${d.type}`);
    if (sets.length === 1) circles[sets[0]] = d;
  });
  const cs = Object.values(circles);
  for (const k of cs) {
    env.obs('circles checked');
    env.check([k.x, k.y, k.radius].every(Number.isFinite) && k.radius > 0, () => `${tag}: circle ${k.key} is ${js([k.x, k.y, k.radius])}`);
    env.check(Math.abs((k.radius ** 2 / k.size) / (cs[0].radius ** 2 / cs[0].size) - 1) < 1e-6, () => `${tag}: circles ${cs[0].key} and ${k.key} of sizes ${cs[0].size} and ${k.size} have radii ${cs[0].radius} and ${k.radius}`);
  }
  const b = [Math.min(...cs.map(k => k.x - k.radius)), Math.min(...cs.map(k => k.y - k.radius)), Math.max(...cs.map(k => k.x + k.radius)), Math.max(...cs.map(k => k.y + k.radius))];
  env.check(b[0] >= o.x0 - eps && b[1] >= o.y0 - eps && b[2] <= o.x1 + eps && b[3] <= o.y1 + eps, () => `${tag}: the circles span ${js(b)}, outside the viewport ${js(o)}`);
  env.check(Math.abs(b[2] - b[0] - W) < eps || Math.abs(b[3] - b[1] - H) < eps, () => `${tag}: the circles span ${js(b)} and do not fill the viewport ${js(o)}`);
  env.check(Math.abs(b[0] + b[2] - o.x0 - o.x1) < eps && Math.abs(b[1] + b[3] - o.y0 - o.y1) < eps, () => `${tag}: the circles span ${js(b)}, not centred in ${js(o)}`);
  for (const d of out) {
    const mine = d.sets.map(s => circles[s]), others = cs.filter(k => !d.sets.includes(k.sets[0]));
    if (d.type === 'overlap') {
      const area = common(mine), small = Math.min(...mine.map(k => Math.PI * k.radius ** 2));
      env.obs('overlap regions checked');
      env.check(d.x === 0 && d.y === 0, () => `${tag}: the overlap ${d.key} is moved to ${d.x},${d.y}`);
      if (area > small * 1e-3) {
        env.check(!!d.path, () => `${tag}: the circles of ${d.key} share ${area} but nothing is drawn`);
        const pts = outline(d.path);
        env.check(pts, () => `${tag}: the path of ${d.key} is ${d.path}`);
        const a = polyArea(pts);
        env.check(Math.abs(a - area) <= 0.01 * area + small * 2e-3, () => `${tag}: the region drawn for ${d.key} has area ${a}, its circles share ${area} (${d.path})`);
        pts.forEach(p => env.check(mine.every(k => dist(p, k) <= k.radius + size * 1e-4), () => `${tag}: the region drawn for ${d.key} reaches ${js(p)}, outside one of its circles`));
        env.check(d.arcs.length === d.path.split('A').length - 1 && d.arcs.every(x => d.sets.includes(x.setId) && Math.abs(x.radius - circles[x.setId].radius) < eps), () => `${tag}: the arcs of ${d.key} are ${js(d.arcs)}`);
      } else if (area === 0 && mine.some((x, i) => mine.some((y, j) => j > i && dist(x, y) > x.radius + y.radius + eps))) {
        env.obs('empty overlaps checked');
        env.check(d.path === '' && d.arcs.length === 0, () => `${tag}: the circles of ${d.key} do not meet, but ${d.path} is drawn`);
      }
      if (area > small * 0.01) env.check(mine.every(k => dist({ x: d.labelX, y: d.labelY }, k) <= k.radius + size * 1e-3), () => `${tag}: the label of ${d.key} lies at (${d.labelX},${d.labelY}), outside its circles`);
    } else env.check(dist({ x: d.labelX, y: d.labelY }, d) <= d.radius + eps, () => `${tag}: the label of ${d.key} lies at (${d.labelX},${d.labelY}), outside its circle`);
    // a label avoids the other circles when there is room to do so
    const inside = p => mine.every(k => dist(p, k) <= k.radius) && others.every(k => dist(p, k) >= k.radius);
    let room = 0;
    for (let i = 0; i < 400; i++) { const p = { x: b[0] + ((i % 20) + 0.5) * ((b[2] - b[0]) / 20), y: b[1] + (Math.floor(i / 20) + 0.5) * ((b[3] - b[1]) / 20) }; if (inside(p)) room++; }
    if (room > 60) { env.obs('roomy labels checked'); env.check(inside({ x: d.labelX, y: d.labelY }) || mine.length === 0, () => `${tag}: the label of ${d.key} lies at (${d.labelX},${d.labelY}), on other sets, although there is room`); }
  }
  const touching = cs.some((x, i) => cs.some((y, j) => j > i && Math.abs(dist(x, y) - x.radius - y.radius) < size * 2e-3));
  // the two leading circles of a group point in the requested direction
  const groups = [];
  for (const k of cs) { const g = groups.filter(x => x.some(y => dist(y, k) < y.radius + k.radius - eps)); groups.push([k].concat(...g)); g.forEach(x => groups.splice(groups.indexOf(x), 1)); }
  for (const g of groups) {
    if (g.length < 2 || touching) continue; // whether touching circles form a group is a matter of rounding
    const s = g.slice().sort(o.orientationOrder ? (x, y) => o.orientationOrder({ setId: x.key, radius: x.radius }, { setId: y.key, radius: y.radius }) : (x, y) => y.radius - x.radius);
    if (c.o.order !== 'name' && (Math.abs(s[0].radius - s[1].radius) < eps || (s[2] && Math.abs(s[1].radius - s[2].radius) < eps))) continue;
    if (dist(s[0], s[1]) < size * 1e-3) continue;
    const want = o.orientation === undefined ? Math.PI / 2 : o.orientation;
    const a = Math.atan2(s[1].x - s[0].x, s[1].y - s[0].y), df = Math.abs(((a - want) % (2 * Math.PI) + 3 * Math.PI) % (2 * Math.PI) - Math.PI);
    env.obs('orientations checked');
    env.check(df < 1e-3, () => `${tag}: ${s[1].key} lies at angle ${a} of ${s[0].key}, requested ${want}`);
  }
  return circles;
}
const realisable = {
  name: 'realisable', weight: 3, quick: 500,
  gen(rng) { return { d: genRealisable(rng), o: genOpt(rng) }; },
  run(c, env) {
    const { o, rows, S, Z } = build(c), before = js(rows);
    const out = N.vennTransform(o, rows), tag = `venn of ${js(c.d.rows.map(r => [r.sets.join(''), +r.size.toFixed(3)]))}`;
    env.check(js(rows) === before, `${tag}: the data changes`);
    const cs = check(env, c, out, rows, o, S, Z, tag);
    env.saw('set systems', c.d.rows.length + ':' + c.d.rows.map(r => (r.size > 0 ? 1 : 0)).join(''));
    const k2 = Object.values(cs)[0].radius ** 2 * Math.PI / Object.values(cs)[0].size, names = Object.keys(cs);
    for (let i = 0; i < names.length; i++) for (let j = i + 1; j < names.length; j++) {
      const a = cs[names[i]], b = cs[names[j]], row = c.d.rows.find(r => r.sets.length === 2 && r.sets.includes(names[i]) && r.sets.includes(names[j])), want = row ? row.size : 0, got = lens(a.radius, b.radius, dist(a, b)) / k2, small = Math.min(a.size, b.size);
      env.obs('pairwise overlaps compared');
      env.check(Math.abs(got - want) <= 0.02 * small, () => `${tag}: ${names[i]} and ${names[j]} share ${got}, declared ${want}`);
      if (want >= small * (1 - 1e-9)) { env.obs('containments'); env.check(got >= 0.98 * small, () => `${tag}: ${names[i]} and ${names[j]} should be contained in each other`); }
      if (want === 0) env.obs('disjoint pairs');
    }
    // the same input gives the same picture
    const again = N.vennTransform(Object.assign({}, o), rows);
    env.check(js(V.norm(again)) === js(V.norm(out)), `${tag}: a second layout differs`);
  }
};
const any = {
  name: 'any', weight: 1, quick: 150,
  gen(rng) { return { d: genAny(rng), o: genOpt(rng) }; },
  run(c, env) {
    const { o, rows, S, Z } = build(c), out = N.vennTransform(o, rows);
    check(env, c, out, rows, o, S, Z, `venn of ${js(c.d.rows.map(r => [r.sets.join(''), r.size]))}`);
    env.check(N.vennTransform(Object.assign({}, o), []).length === 0, 'no rows give no areas');
  }
};
const marks = {
  name: 'marks', weight: 2, quick: 120,
  gen(rng) { return { d: genRealisable(rng), d2: genRealisable(rng), o: genOpt(rng), o2: genOpt(rng) }; },
  async run(c, env) {
    c.o.fields = c.o2.fields = false; c.o.order = c.o2.order = null; c.o2.single = c.o.single;
    await V.withView({}, view => {
      const a = build(c), b = build({ d: c.d2, o: c.o2 });
      const box = view.signal(a.o).id('box');
      const data = view.data(a.rows).id('d');
      const get = k => ({ callback: (x, p) => p.box[k], dependency: ['box'] });
      const out = view.data().id('v').source('d').transform([{ type: 'venn', x0: a.o.x0, y0: a.o.y0, x1: a.o.x1, y1: a.o.y1, orientation: a.o.orientation === undefined ? Math.PI / 2 : a.o.orientation }]);
      const circ = view.mark('arc', view.rootMark).join('v', 'key').transform([{ type: 'vennMark', datumType: 'circle' }]).encode({ x: { field: 'x' }, y: { field: 'y' }, outerRadius: { field: 'radius' }, innerRadius: 0, startAngle: 0, endAngle: 2 * Math.PI });
      const over = view.mark('path', view.rootMark).join('v', 'key').transform([{ type: 'vennMark', datumType: 'overlap' }]).encode({ x: { field: 'x' }, y: { field: 'y' }, path: { field: 'path' } });
      for (const step of [a, Object.assign({}, b, { o: a.o })]) {
        if (step !== a) data.values(step.rows);
        view.run();
        const exp = N.vennTransform(Object.assign({}, a.o), step.rows);
        for (const [m, t, f] of [[circ, 'circle', (g, d) => g.x === d.x && g.y === d.y && g.outerRadius === d.radius], [over, 'overlap', (g, d) => g.path === d.path]]) {
          const ds = exp.filter(d => d.type === t);
          env.check(m.elements.length === ds.length, () => `${m.elements.length} ${t} marks for ${ds.length} areas`);
          m.elements.forEach((e, i) => { env.obs('venn marks compared'); const d = ds.find(x => x.key === e.key); env.check(d && f(e.getGraphicItem().attribute, d), () => `the ${t} of ${e.key} is drawn as ${js(V.norm(e.getGraphicItem().attribute))}, the layout says ${js(V.norm(d))}`); });
        }
      }
    });
  }
};
const anim = {
  name: 'animation', weight: 1, quick: 150,
  gen(rng) { return { d: genRealisable(rng), o: genOpt(rng), o2: genOpt(rng), at: rng.times(3, () => rng.num(0.05, 0.95, 2)) }; },
  run(c, env) {
    const a = build(c), ov = N.vennTransform(a.o, a.rows);
    const b = build({ d: c.d, o: Object.assign({}, c.o2, { fields: c.o.fields, order2: c.o.order2, single: c.o.single }) }), ov2 = N.vennTransform(b.o, b.rows);
    const n0 = ov.filter(d => d.type === 'overlap' && d.path);
    if (!n0.length) { env.nontrivial = false; return; }
    for (const d of n0) {
      const e = ov2.find(x => x.key === d.key);
      if (!e || !e.path || d.arcs.map(x => x.setId).sort().join() !== e.arcs.map(x => x.setId).sort().join()) continue;
      const an = new N.VennOverlapAnimation({ path: d.path, arcs: d.arcs }, { path: e.path, arcs: e.arcs }, 100, 'linear');
      an.from = { path: d.path, arcs: d.arcs }; an.to = { path: e.path, arcs: e.arcs };
      an.onBind();
      for (const t of [0, 1, ...c.at]) {
        const out = {};
        an.onUpdate(t === 1, t, out);
        env.obs('animation frames checked');
        // the circles in between: radii and centres on the straight line
        const C = list => Object.fromEntries(list.filter(x => x.type === 'circle').map(x => [x.key, x])), ca = C(ov), cb = C(ov2);
        const used = d.arcs.map(x => x.setId).filter((x, i, l) => l.indexOf(x) === i).map(s => ({ x: ca[s].x + (cb[s].x - ca[s].x) * t, y: ca[s].y + (cb[s].y - ca[s].y) * t, radius: ca[s].radius + (cb[s].radius - ca[s].radius) * t }));
        const area = common(used), small = Math.min(...used.map(k => Math.PI * k.radius ** 2));
        if (area < small * 1e-2) continue;
        const pts = out.path && outline(out.path);
        env.check(pts, () => `at ${t} the overlap ${d.key} is drawn as ${out.path}`);
        const g = polyArea(pts);
        env.check(Math.abs(g - area) <= 0.02 * area + small * 5e-3, () => `at ${t} the overlap ${d.key} covers ${g}, its circles share ${area}`);
      }
    }
  }
};
module.exports = {
  rule: 'circle areas follow set sizes at one scale, the picture fills and stays in the viewport, overlap regions are exactly what their circles share, pairwise overlaps match the declared ones whenever two or three circles can realise them, and labels lie on their own area',
  assumptions: ['agreement with declared overlaps is judged for systems of up to three sets that were computed from real circles; larger or contradictory systems are judged on everything else', 'overlaps smaller than a thousandth of the smallest circle are not judged'],
  quickSeconds: 75,
  mustObserve: ['circles checked', 'overlap regions checked', 'pairwise overlaps compared', 'containments', 'disjoint pairs', 'venn marks compared', 'animation frames checked', 'orientations checked', 'roomy labels checked', 'empty overlaps checked'],
  scenarios: [realisable, any, marks, anim]
};
