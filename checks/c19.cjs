'use strict';
// Hierarchy layouts: real treemap / sunburst / circle packing / tree layouts over random trees and options,
// watched by structural and geometric oracles.
const V = require('../lib/view.cjs');
const H = V.vg.hierarchy;
const { withView, snapElement } = V;
const js = JSON.stringify;
const EPS = 1e-6;
const near = (a, b, s = 1) => a === b || Math.abs(a - b) <= EPS * Math.max(1, Math.abs(a), Math.abs(b), s);

// ---------- trees
function genTree(rng, o = {}) {
  let id = 0;
  const val = () => rng.wpick([[6, () => rng.int(1, 100)], [2, () => rng.num(0.01, 5, 3)], [1, 0], [o.missing ? 1 : 0, undefined], [1, () => rng.int(500, 5000)]]);
  const v = () => { const x = val(); return typeof x === 'function' ? x() : x; };
  const node = (depth) => {
    const n = { name: `n${id++}` };
    const inner = depth < (o.maxDepth || 4) && rng.bool(depth === 0 ? 0.8 : 0.45 - depth * 0.06);
    if (inner) {
      n.children = rng.times(rng.wpick([[1, 1], [4, 2], [4, 3], [2, 5], [1, 9]]), () => node(depth + 1));
      if (rng.bool(0.1)) n[o.field || 'value'] = rng.int(0, 300);
    } else {
      const x = v();
      if (x !== undefined) n[o.field || 'value'] = x;
      if (rng.bool(0.08)) n.children = [];
    }
    return n;
  };
  const roots = o.single ? [node(0)] : rng.times(rng.wpick([[3, 1], [3, 2], [3, 4], [2, 8], [1, 20]]), () => node(0));
  return roots;
}
/** what the tree denotes: preorder list with keys, depths, values */
function denote(roots, keyOf, field) {
  const out = [];
  const walk = (d, i, parent, chain) => {
    const n = { d, index: i, depth: parent ? parent.depth + 1 : 0, chain: chain.concat([d]), kids: [], flat: out.length };
    n.key = keyOf ? keyOf(d) : `${parent ? parent.key : ''}-${i}`;
    n.parent = parent;
    out.push(n);
    if (d.children && d.children.length) n.kids = d.children.map((c, k) => walk(c, k, n, n.chain));
    const own = d[field];
    const sum = n.kids.reduce((s, k) => s + k.value, 0);
    n.sum = sum;
    n.value = n.kids.length ? (own === undefined || own === null ? sum : Math.max(sum, own)) : (own || 0);
    return n;
  };
  const tops = roots.map((d, i) => walk(d, i, null, []));
  return { list: out, tops, depth: Math.max(...out.map(n => n.depth)), sum: tops.reduce((s, n) => s + n.value, 0) };
}
/** the output forest as a flat list, and its agreement with the tree (ignoring nodes the options may drop) */
function structure(env, tag, tops, den, opt = {}) {
  const byDatum = new Map(den.list.map(n => [n.d, n]));
  const seen = new Map();
  const list = [];
  const walk = (o, parent) => {
    const d = o.datum[o.datum.length - 1];
    const n = byDatum.get(d);
    env.obs('layout nodes compared');
    env.check(!!n, () => `${tag}: an output node carries no datum of the input (${js(o.key)})`);
    env.check(!seen.has(n), () => `${tag}: node ${n.key} appears twice`);
    seen.set(n, o);
    env.check(o.key === n.key, () => `${tag}: key ${js(o.key)}, expected ${js(n.key)}`);
    env.check(o.parentKey === (n.parent ? n.parent.key : undefined), () => `${tag}: ${n.key} has parent key ${js(o.parentKey)}`);
    env.check(o.depth === n.depth && o.index === n.index && o.flattenIndex === n.flat, () => `${tag}: ${n.key} has depth/index/order ${o.depth}/${o.index}/${o.flattenIndex}, expected ${n.depth}/${n.index}/${n.flat}`);
    env.check(near(o.value, n.value, 1), () => `${tag}: ${n.key} has value ${o.value}, expected ${n.value}`);
    env.check(o.maxDepth === den.depth, () => `${tag}: ${n.key} says the tree is ${o.maxDepth} deep, it is ${den.depth}`);
    env.check(o.datum.length === n.chain.length && o.datum.every((x, i) => x === n.chain[i]), () => `${tag}: ${n.key} does not carry the chain of its ancestors' data`);
    const kids = o.children || [];
    env.check(o.isLeaf === (kids.length === 0), () => `${tag}: ${n.key} has ${kids.length} children and isLeaf ${o.isLeaf}`);
    env.check(kids.every(k => k.parentKey === o.key) , () => `${tag}: a child of ${n.key} belongs to another parent`);
    list.push({ o, n, parent, kids });
    const own = kids.map(k => k.datum[k.datum.length - 1]);
    env.check(own.every(x => (d.children || []).includes(x)), () => `${tag}: ${n.key} lists children that are not its own`);
    if (!opt.sorted) env.check(own.every((x, i) => i === 0 || d.children.indexOf(x) > d.children.indexOf(own[i - 1])), () => `${tag}: children of ${n.key} are reordered`);
    kids.forEach(k => walk(k, o));
  };
  tops.forEach(t => walk(t, null));
  if (!opt.partial) env.check(list.length === den.list.length, () => `${tag}: ${list.length} nodes laid out, the tree has ${den.list.length}`);
  return { list, seen };
}
function genBox(rng) {
  const w = rng.pick([200, 400, 640, 333.3]), h = rng.pick([200, 300, 120, 777]);
  if (rng.bool(0.6)) return { width: w, height: h };
  const x = rng.int(-300, 300), y = rng.int(-100, 300);
  const b = { x0: x, x1: x + w, y0: y, y1: y + h };
  if (rng.bool(0.2)) [b.x0, b.x1] = [b.x1, b.x0];
  if (rng.bool(0.2)) [b.y0, b.y1] = [b.y1, b.y0];
  return b;
}
const boxOf = b => ('width' in b ? { x0: 0, y0: 0, x1: b.width, y1: b.height } : { x0: Math.min(b.x0, b.x1), x1: Math.max(b.x0, b.x1), y0: Math.min(b.y0, b.y1), y1: Math.max(b.y0, b.y1) });
const genKey = rng => rng.wpick([[3, undefined], [2, 'name'], [1, { fn: 1 }]]);
const keyOption = k => (k && k.fn ? d => `k:${d.name}` : k);
const keyFn = k => (!k ? null : k.fn ? d => `k:${d.name}` : d => d.name);
const frozen = (env, tag, data, f) => { const before = js(data); const r = f(); env.check(js(data) === before, () => `${tag}: the layout changed the input tree`); return r; };

// ---------- flattening
function checkFlatten(env, tag, run, tops, maxDepth, links) {
  const res = run();
  const nodes = links ? res.nodes : res;
  const want = [];
  const walk = o => { if (maxDepth >= 0 && o.depth > maxDepth) return; want.push(o); (o.children || []).forEach(walk); };
  const limited = maxDepth >= 0;
  (limited ? tops : tops).forEach(walk);
  env.obs('flattened outputs compared');
  env.check(nodes.length === want.length && nodes.every((n, i) => n.key === want[i].key && n.depth === want[i].depth), () => `${tag}: flattening gives ${nodes.map(n => n.key).slice(0, 30)}, expected ${want.map(n => n.key).slice(0, 30)}`);
  nodes.forEach(n => env.check(!!n.isLeaf === !(n.children && n.children.length), () => `${tag}: flattened ${n.key} has isLeaf ${n.isLeaf} and ${n.children && n.children.length} children`));
  if (links) {
    const by = new Map(nodes.map(n => [n.key, n]));
    const exp = nodes.filter(n => n.parentKey !== undefined).map(n => `${n.parentKey}~${n.key}`).sort();
    const got = res.links.map(l => l.key).sort();
    env.check(js(exp) === js(got), () => `${tag}: links are ${got}, expected ${exp}`);
    res.links.forEach(l => {
      const s = by.get(l.source.key), t = by.get(l.target.key);
      env.check(l.source === s && l.target === t && l.x0 === s.x && l.y0 === s.y && l.x1 === t.x && l.y1 === t.y, () => `${tag}: link ${l.key} does not join its two nodes`);
    });
  }
}

// ---------- treemap
const perDepth = (o, d) => (Array.isArray(o) ? o[d] : o);
const area = r => (r.x1 - r.x0) * (r.y1 - r.y0);
const inside = (a, b, s) => a.x0 >= b.x0 - s && a.x1 <= b.x1 + s && a.y0 >= b.y0 - s && a.y1 <= b.y1 + s;
const apart = (a, b, s) => a.x1 <= b.x0 + s || b.x1 <= a.x0 + s || a.y1 <= b.y0 + s || b.y1 <= a.y0 + s;
const treemap = {
  name: 'treemap', weight: 3, quick: 2600,
  gen(rng) {
    const o = {};
    const set = (p, k, f) => { if (rng.bool(p)) o[k] = f(); };
    const num = (a, b) => () => (rng.bool(0.7) ? rng.int(a, b) : rng.times(rng.int(1, 4), () => rng.int(a, b)));
    set(0.85, 'splitType', () => rng.pick(['binary', 'dice', 'slice', 'sliceDice', 'squarify']));
    set(0.35, 'gapWidth', num(0, 10));
    set(0.3, 'padding', num(0, 20));
    set(0.3, 'labelPadding', num(0, 30));
    set(0.5, 'labelPosition', () => rng.pick(['top', 'bottom', 'left', 'right']));
    set(0.3, 'aspectRatio', () => rng.pick([1, 2, 0.5, 4]));
    set(0.55, 'minVisibleArea', () => (rng.bool(0.8) ? rng.pick([0, 0, 0, 50, 500]) : rng.times(3, () => rng.pick([0, 20, 400]))));
    set(0.15, 'minChildrenVisibleArea', num(50, 8000));
    set(0.15, 'minChildrenVisibleSize', num(5, 120));
    set(0.2, 'maxDepth', () => rng.int(0, 3));
    const field = rng.bool(0.15) ? 'weight' : undefined;
    if (field) o.valueField = field;
    return { tree: genTree(rng, { missing: rng.bool(0.3), field }), o, key: genKey(rng), box: genBox(rng), flat: rng.bool(0.4) };
  },
  run(c, env) {
    const opts = Object.assign({}, c.o);
    if (c.key) opts.nodeKey = keyOption(c.key);
    const den = denote(c.tree, keyFn(c.key), c.o.valueField || 'value');
    const tag = 'treemap';
    const box = boxOf(c.box);
    const tops = frozen(env, tag, c.tree, () => new H.TreemapLayout(opts).layout(c.tree, c.box));
    env.nontrivial = den.list.length > 1;
    if (den.sum <= 0) { env.check(tops.length === 0, () => `${tag}: a weightless tree has ${tops.length} tiles`); return; }
    const { list, seen } = structure(env, tag, tops, den, { partial: true });
    const minArea = d => { const m = perDepth('minVisibleArea' in c.o ? c.o.minVisibleArea : 10, d); return m === undefined ? 0 : m; };
    const ratio = area(box) / den.sum;
    // which nodes must be shown
    const kept = n => !(minArea(n.depth) > 0 && n.value * ratio < minArea(n.depth));
    const S = EPS * Math.max(box.x1 - box.x0, box.y1 - box.y0, 1);
    const gapAt = d => perDepth(c.o.gapWidth, d) || 0;
    const root = { o: Object.assign({ depth: -1, value: den.sum }, box), n: { depth: -1, value: den.sum, kids: den.tops, sum: den.sum, key: '(box)' }, kids: tops };
    for (const { o, n, kids } of [root].concat(list)) {
      if (n !== root.n) env.check([o.x0, o.x1, o.y0, o.y1].every(Number.isFinite) && o.x1 >= o.x0 - S && o.y1 >= o.y0 - S, () => `${tag}: ${n.key} has no proper rectangle ${js([o.x0, o.y0, o.x1, o.y1])}`);
      const w = o.x1 - o.x0, h = o.y1 - o.y0;
      let cut = false;
      if (typeof c.o.maxDepth === 'number' && n.depth >= c.o.maxDepth) cut = true;
      const mca = perDepth(c.o.minChildrenVisibleArea, n.depth), mcs = perDepth(c.o.minChildrenVisibleSize, n.depth);
      // thresholds apply to the node's rectangle before its own gap is removed; skip near-ties
      const g = gapAt(n.depth);
      const W = w + (n.depth >= 0 ? g : 0), Hh = h + (n.depth >= 0 ? g : 0);
      const collapsed = n.depth >= 0 && g > 0 && (w < S || h < S);
      let tie = collapsed && (typeof mca === 'number' || typeof mcs === 'number');
      if (typeof mca === 'number' && n.depth >= 0) { if (near(W * Hh, mca, 1)) tie = true; else if (W * Hh < mca) cut = true; }
      if (typeof mcs === 'number' && n.depth >= 0) { if (near(W, mcs) || near(Hh, mcs)) tie = true; else if (W < mcs || Hh < mcs) cut = true; }
      if (typeof mca === 'number' && n.depth < 0 && W * Hh < mca) cut = true;
      if (typeof mcs === 'number' && n.depth < 0 && (W < mcs || Hh < mcs)) cut = true;
      const exp = cut ? [] : n.kids.filter(kept);
      const got = kids.map(k => k.key);
      if (!tie) env.check(js(got) === js(exp.map(k => k.key)), () => `${tag}: ${n.key} shows children ${got}, expected ${exp.map(k => k.key)}`);
      if (!kids.length) continue;
      env.obs('tilings checked');
      env.saw('tiling shapes', `${c.o.splitType}/${kids.length}/${n.depth}`);
      // containment, separation
      const pad = n.depth >= 0 ? perDepth(c.o.padding, n.depth) || 0 : 0;
      const label = n.depth >= 0 ? perDepth(c.o.labelPadding, n.depth) || 0 : 0;
      let inner = { x0: o.x0, y0: o.y0, x1: o.x1, y1: o.y1 };
      if (pad > 0 && pad < Math.min(w, h) / 2 - S) inner = { x0: o.x0 + pad, y0: o.y0 + pad, x1: o.x1 - pad, y1: o.y1 - pad };
      const iw = inner.x1 - inner.x0, ih = inner.y1 - inner.y0;
      const pos = c.o.labelPosition || 'top';
      const along = pos === 'top' || pos === 'bottom' ? ih : iw;
      if (label > 0 && !near(along, label)) {
        env.check(!!o.labelRect === along > label, () => `${tag}: ${n.key} ${o.labelRect ? 'has' : 'has no'} label area although it offers ${along} for ${label}`);
        if (o.labelRect) {
          const r = Object.assign({}, inner);
          if (pos === 'top') { r.y1 = inner.y0 + label; inner.y0 += label; } else if (pos === 'bottom') { r.y0 = inner.y1 - label; inner.y1 -= label; } else if (pos === 'left') { r.x1 = inner.x0 + label; inner.x0 += label; } else { r.x0 = inner.x1 - label; inner.x1 -= label; }
          env.check(['x0', 'x1', 'y0', 'y1'].every(k => near(o.labelRect[k], r[k], 100)), () => `${tag}: label area of ${n.key} is ${js(o.labelRect)}, expected ${js(r)}`);
        }
      } else if (!(label > 0)) env.check(!o.labelRect, () => `${tag}: ${n.key} has a label area nobody asked for`);
      else continue;
      // a tile narrower than its gap has no area left; it may sit in the middle of the gap, half of it outside
      const kg = gapAt(n.depth + 1);
      const flatTile = k => kg > 0 && (k.x1 - k.x0 < S || k.y1 - k.y0 < S);
      kids.forEach(k => env.check(inside(k, inner, flatTile(k) ? kg / 2 + S : S), () => `${tag}: ${k.key} ${js([k.x0, k.y0, k.x1, k.y1])} leaves the room of its parent ${js(inner)}`));
      for (let i = 0; i < kids.length; i++) for (let j = i + 1; j < kids.length; j++) {
        if (!flatTile(kids[i]) && !flatTile(kids[j])) env.check(apart(kids[i], kids[j], S), () => `${tag}: siblings ${kids[i].key} and ${kids[j].key} overlap`);
      }
      // undo the gap and compare areas
      const out = kids.map(k => ({ k, x0: k.x0 - kg / 2, x1: k.x1 + kg / 2, y0: k.y0 - kg / 2, y1: k.y1 + kg / 2, col: flatTile(k) }));
      const room = { x0: inner.x0 - kg / 2, x1: inner.x1 + kg / 2, y0: inner.y0 - kg / 2, y1: inner.y1 + kg / 2 };
      if (out.some(r => r.col) || area(room) < 1) continue;
      const shown = kids.reduce((s, k) => s + k.value, 0);
      const type = c.o.splitType || 'binary';
      const full = near(shown, o.value, 1);
      if (full && o.value > 0) {
        out.forEach(r => env.check(near(area(r) / area(room), r.k.value / o.value, 1), () => `${tag}: ${r.k.key} takes ${area(r) / area(room)} of its parent, its weight is ${r.k.value / o.value} (${type})`));
        env.check(near(out.reduce((s, r) => s + area(r), 0), area(room), area(room)), () => `${tag}: the children of ${n.key} do not fill it`);
        env.obs('area shares compared', out.length);
      } else if (type !== 'binary' && o.value > 0) {
        out.forEach(r => env.check(near(area(r) / area(room), r.k.value / o.value, 1), () => `${tag}: ${r.k.key} takes ${area(r) / area(room)} of its parent, its weight is ${r.k.value / o.value} (${type}, partly hidden)`));
      }
      const acrossX = out.every(r => near(r.x0, room.x0, 1000) && near(r.x1, room.x1, 1000)), acrossY = out.every(r => near(r.y0, room.y0, 1000) && near(r.y1, room.y1, 1000));
      const expSlice = type === 'slice' || (type === 'sliceDice' && Math.abs(n.depth) % 2 === 1), expDice = type === 'dice' || (type === 'sliceDice' && Math.abs(n.depth) % 2 === 0);
      if (expSlice) env.check(acrossX && out.every((r, i) => i === 0 || near(r.y0, out[i - 1].y1, 1000)), () => `${tag}: ${n.key} (depth ${n.depth}, ${type}) is not sliced from top to bottom`);
      if (expDice) env.check(acrossY && out.every((r, i) => i === 0 || near(r.x0, out[i - 1].x1, 1000)), () => `${tag}: ${n.key} (depth ${n.depth}, ${type}) is not diced from left to right`);
    }
    if (c.flat) {
      const opt = Object.assign({}, opts, c.box, { flatten: true });
      checkFlatten(env, tag, () => H.treemapTransform(opt, c.tree), tops, typeof c.o.maxDepth === 'number' ? c.o.maxDepth : undefined);
    }
  }
};

// ---------- sunburst
const pct = (v, total) => (typeof v === 'string' ? parseFloat(v) / 100 * total : v);
const sunburst = {
  name: 'sunburst', weight: 2, quick: 2000,
  gen(rng) {
    const o = {};
    const set = (p, k, f) => { if (rng.bool(p)) o[k] = f(); };
    if (rng.bool(0.5)) { o.startAngle = rng.num(-4, 4, 2); o.endAngle = o.startAngle + rng.pick([-1, 1]) * rng.num(0.5, 6.28, 2); }
    set(0.4, 'center', () => [rng.pick(['50%', '30%', 100, 12.5]), rng.pick(['50%', '60%', 80])]);
    const radii = (lo, hi) => { let r = lo; return rng.times(rng.int(1, 6), () => { r += rng.int(5, 30); return rng.bool(0.2) ? `${r / 2}%` : r; }).map((v, i, a) => (typeof v === 'string' ? a.slice(0, i).filter(x => typeof x === 'number').pop() + 4 || 6 : v)); };
    const mode = rng.pick(['plain', 'inner', 'outer', 'both', 'default']);
    if (mode === 'plain') { set(0.8, 'innerRadius', () => rng.pick([0, 10, '5%', 20])); set(0.8, 'outerRadius', () => rng.pick(['90%', 90, 60, '100%'])); }
    if (mode === 'inner') { o.innerRadius = radii(0); o.outerRadius = rng.pick(['100%', 300, 200]); }
    if (mode === 'outer') { o.outerRadius = radii(20); set(0.7, 'innerRadius', () => rng.pick([0, 5, '2%'])); }
    if (mode === 'both') { o.innerRadius = radii(0).filter(v => typeof v === 'number'); o.outerRadius = o.innerRadius.map(v => v + 4); }
    // gaps with an outer radius array: recorded finding (see pinned)
    if (mode !== 'outer') set(0.35, 'gapRadius', () => (rng.bool(0.6) ? rng.int(0, 3) : rng.times(rng.int(1, 4), () => rng.int(0, 3))));
    set(0.5, 'label', () => rng.pick([true, { align: 'start', rotate: 'tangential', offset: 3 }, { align: 'end', rotate: 'radial' }, { align: 'center', offset: -2 }, [null, { align: 'start', rotate: 'radial' }, true], false]));
    return { tree: genTree(rng, { missing: rng.bool(0.3) }), o, mode, key: genKey(rng), box: genBox(rng), flat: rng.bool(0.4) ? { maxDepth: rng.bool(0.5) ? rng.int(0, 3) : undefined } : null };
  },
  run(c, env) {
    const opts = Object.assign({}, c.o);
    if (c.key) opts.nodeKey = keyOption(c.key);
    const den = denote(c.tree, keyFn(c.key), 'value');
    const tag = 'sunburst';
    const tops = frozen(env, tag, c.tree, () => new H.SunburstLayout(opts).layout(c.tree, c.box));
    env.nontrivial = den.list.length > 1;
    const { list } = structure(env, tag, tops, den);
    const box = boxOf(c.box);
    const w = box.x1 - box.x0, h = box.y1 - box.y0, R = Math.min(w, h) / 2;
    const center = c.o.center || ['50%', '50%'];
    const cx = box.x0 + pct(center[0], w), cy = box.y0 + pct(center[1], h);
    const start = c.o.startAngle === undefined ? Math.PI / 2 : c.o.startAngle, end = c.o.endAngle === undefined ? -1.5 * Math.PI : c.o.endAngle;
    const D = den.depth;
    const ir = c.o.innerRadius === undefined ? 0 : c.o.innerRadius, or = c.o.outerRadius === undefined ? '70%' : c.o.outerRadius;
    const gap = i => (Array.isArray(c.o.gapRadius) ? c.o.gapRadius[i] || 0 : c.o.gapRadius || 0);
    const ring = depth => {
      const at = (a, i) => (a[i] === undefined ? R : pct(a[i], R));
      if (Array.isArray(ir) && Array.isArray(or)) return [at(ir, depth), at(or, depth)];
      if (Array.isArray(ir)) return [at(ir, depth), depth < D ? at(ir, depth + 1) - gap(depth) : pct(or, R)];
      if (Array.isArray(or)) return [depth === 0 ? pct(ir, R) : at(or, depth - 1) + gap(depth - 1), at(or, depth)];
      const step = (pct(or, R) - pct(ir, R)) / (D + 1);
      return [pct(ir, R) + step * depth, pct(ir, R) + step * (depth + 1) - gap(depth)];
    };
    const rootSpan = { startAngle: start, endAngle: end, value: den.sum };
    for (const { o, n, parent } of list) {
      const r = ring(n.depth).sort((a, b) => a - b);
      env.obs('arcs compared');
      env.check(near(o.innerRadius, r[0], 100) && near(o.outerRadius, r[1], 100), () => `${tag}: ring of depth ${n.depth} is [${o.innerRadius},${o.outerRadius}], expected [${r}] (${c.mode}, gap ${js(c.o.gapRadius)})`);
      env.check(near(o.x, cx, 100) && near(o.y, cy, 100), () => `${tag}: ${n.key} is centred at (${o.x},${o.y}), expected (${cx},${cy})`);
      const p = parent || rootSpan;
      const span = p.endAngle - p.startAngle;
      const exp = p.value ? span * n.value / p.value : 0;
      env.check(near(o.endAngle - o.startAngle, exp, 1), () => `${tag}: ${n.key} spans ${o.endAngle - o.startAngle} of ${span}, its weight asks for ${exp}`);
      const sib = (n.parent ? n.parent.kids : den.tops).slice(0, n.index).reduce((s, k) => s + k.value, 0);
      env.check(near(o.startAngle, p.startAngle + (p.value ? span * sib / p.value : 0), 1), () => `${tag}: ${n.key} starts at ${o.startAngle}, not where its previous sibling ends`);
      const lab = Array.isArray(c.o.label) ? c.o.label[n.depth] : c.o.label;
      env.check(!!o.label === !!lab, () => `${tag}: ${n.key} ${o.label ? 'has' : 'lacks'} a label`);
      if (lab) {
        const L = lab === true ? { align: 'center', rotate: 'radial' } : lab;
        const a = (o.startAngle + o.endAngle) / 2;
        const rr = (L.align === 'start' ? o.innerRadius : L.align === 'end' ? o.outerRadius : (o.innerRadius + o.outerRadius) / 2) + (L.offset || 0);
        env.check(near(o.label.x, cx + rr * Math.cos(a), 100) && near(o.label.y, cy + rr * Math.sin(a), 100), () => `${tag}: label of ${n.key} at (${o.label.x},${o.label.y}), not on its arc (radius ${rr}, angle ${a})`);
        const along = L.rotate === 'tangential' ? a - Math.PI / 2 : a;
        const turn = Math.abs(Math.sin(o.label.angle - along));
        env.check(turn < 1e-6, () => `${tag}: label of ${n.key} is turned to ${o.label.angle}, its ${L.rotate || 'radial'} direction is ${along}`);
        if (L.rotate !== 'tangential') env.check(Math.cos(o.label.angle) > -1e-6, () => `${tag}: label of ${n.key} is upside down (${o.label.angle})`);
        env.obs('labels compared');
      }
    }
    if (c.flat) {
      const opt = Object.assign({}, opts, c.box, { flatten: true });
      if (c.flat.maxDepth !== undefined) opt.maxDepth = c.flat.maxDepth;
      checkFlatten(env, tag, () => H.sunburtTransform(opt, c.tree), tops, c.flat.maxDepth);
    }
  }
};

// ---------- circle packing
const pack = {
  name: 'packing', weight: 2, quick: 1600,
  gen(rng) {
    const o = {};
    const set = (p, k, f) => { if (rng.bool(p)) o[k] = f(); };
    set(0.4, 'padding', () => (rng.bool(0.6) ? rng.int(0, 8) : rng.times(rng.int(1, 4), () => rng.int(0, 8))));
    set(0.5, 'nodeSort', () => rng.pick([false, true, 'asc', 'name']));
    set(0.3, 'setRadius', () => rng.pick(['depth', 'value']));
    set(0.3, 'includeRoot', () => rng.bool(0.7));
    const tree = genTree(rng, { missing: false });
    return { tree, o, key: genKey(rng), box: genBox(rng), flat: rng.bool(0.4) ? { maxDepth: rng.bool(0.5) ? rng.int(0, 3) : undefined } : null };
  },
  run(c, env) {
    const opts = Object.assign({}, c.o);
    if (c.key) opts.nodeKey = keyOption(c.key);
    const sorts = { asc: (a, b) => a.value - b.value, name: (a, b) => (a.datum[a.datum.length - 1].name < b.datum[b.datum.length - 1].name ? 1 : -1) };
    if (typeof c.o.nodeSort === 'string') opts.nodeSort = sorts[c.o.nodeSort];
    const rad = { depth: n => 30 / (n.depth + 1), value: n => n.value / 10 };
    if (c.o.setRadius) opts.setRadius = rad[c.o.setRadius];
    const den = denote(c.tree, keyFn(c.key), 'value');
    const tag = 'circle packing';
    const leaves = den.list.filter(n => !n.kids.length);
    if (!c.o.setRadius && leaves.every(n => n.value === 0)) { env.nontrivial = false; return; }
    const res = frozen(env, tag, c.tree, () => new H.CirclePackingLayout(opts).layout(c.tree, c.box));
    env.nontrivial = den.list.length > 2;
    const box = boxOf(c.box), w = box.x1 - box.x0, h = box.y1 - box.y0;
    let tops = res, root = null;
    if (c.o.includeRoot) { env.check(res.length === 1 && res[0].depth === -1, () => `${tag}: the root was asked for and is not there`); root = res[0]; tops = root.children; }
    const { list } = structure(env, tag, tops, den, { sorted: true });
    const pad = d => (Array.isArray(c.o.padding) ? c.o.padding[d + 1] || 0 : c.o.padding || 0);
    const all = list.map(l => l.o).concat(root || []);
    all.forEach(o => env.check([o.x, o.y, o.radius].every(Number.isFinite) && o.radius >= 0, () => `${tag}: ${o.key} has no proper circle ${js([o.x, o.y, o.radius])}`));
    const scale = Math.max(w, h, ...all.map(o => o.radius)); // coordinates may be large with free radii
    const S = 1e-5 * scale;
    const groups = list.filter(l => l.kids.length).map(l => ({ o: l.o, kids: l.kids, d: l.n.depth }));
    groups.push({ o: root || { key: '(root)', x: (box.x0 + box.x1) / 2, y: (box.y0 + box.y1) / 2, radius: c.o.setRadius ? null : Math.min(w, h) / 2 }, kids: tops, d: -1 });
    const order = typeof c.o.nodeSort === 'string' ? sorts[c.o.nodeSort] : c.o.nodeSort === false ? null : (a, b) => b.value - a.value;
    for (const g of groups) {
      const { o, kids } = g;
      env.obs('packings checked');
      env.saw('packing shapes', `${kids.length}/${g.d}/${!!c.o.setRadius}`);
      for (let i = 0; i < kids.length; i++) for (let j = i + 1; j < kids.length; j++) {
        const a = kids[i], b = kids[j];
        const dist = Math.hypot(a.x - b.x, a.y - b.y);
        // a padding value is the distance kept between siblings
        const p = c.o.setRadius ? pad(g.d) : 0;
        env.check(dist >= a.radius + b.radius + p - S, () => `${tag}: siblings ${a.key} and ${b.key} overlap by ${a.radius + b.radius + p - dist}`);
      }
      if (o.radius !== null) {
        const reach = kids.map(k => Math.hypot(k.x - o.x, k.y - o.y) + k.radius);
        env.check(Math.max(...reach) <= o.radius + S, () => `${tag}: a child of ${o.key} reaches ${Math.max(...reach)}, its radius is ${o.radius}`);
        const slack = c.o.setRadius ? pad(g.d) : null;
        if (slack !== null) env.check(Math.max(...reach) >= o.radius - slack - S, () => `${tag}: ${o.key} has radius ${o.radius}, its children need ${Math.max(...reach) + slack}`);
        else if (!c.o.padding || (Array.isArray(c.o.padding) && !c.o.padding.some(x => x))) env.check(Math.max(...reach) >= o.radius - S && (kids.length === 1 || o.radius <= kids.reduce((s, k) => s + k.radius, 0) + S), () => `${tag}: ${o.key} is larger than its children need`);
      }
      if (order) env.check(kids.every((k, i) => i === 0 || order(kids[i - 1], k) <= 0), () => `${tag}: children of ${o.key} are not in the declared order (${js(c.o.nodeSort)}): ${kids.map(k => k.value)}`);
      else env.check(kids.every((k, i) => k.index === i), () => `${tag}: children of ${o.key} are reordered although sorting is off`);
    }
    const lv = list.filter(l => !l.kids.length);
    if (c.o.setRadius) lv.forEach(l => env.check(near(l.o.radius, rad[c.o.setRadius](l.o)), () => `${tag}: leaf ${l.o.key} has radius ${l.o.radius}, the callback says ${rad[c.o.setRadius](l.o)}`));
    else {
      const ref = lv.reduce((a, b) => (b.o.value > a.o.value ? b : a));
      lv.forEach(l => env.check(near(l.o.radius / ref.o.radius, Math.sqrt(l.o.value / ref.o.value)), () => `${tag}: the area of leaf ${l.o.key} (${l.o.radius}) does not follow its weight ${l.o.value} (${ref.o.radius} for ${ref.o.value})`));
      if (root) env.check(near(root.radius, Math.min(w, h) / 2, 100), () => `${tag}: the whole packing has radius ${root.radius}, the box ${w}x${h}`);
    }
    if (root) env.check(near(root.x, (box.x0 + box.x1) / 2, 100) && near(root.y, (box.y0 + box.y1) / 2, 100), () => `${tag}: packing centred at (${root.x},${root.y})`);
    if (c.flat) {
      const opt = Object.assign({}, opts, c.box, { flatten: true });
      if (c.flat.maxDepth !== undefined) opt.maxDepth = c.flat.maxDepth;
      checkFlatten(env, tag, () => H.circlePackingTransform(opt, c.tree), res, c.flat.maxDepth);
    }
  }
};

// ---------- node-link trees
const tree = {
  name: 'tree', weight: 2, quick: 2000,
  gen(rng) {
    const o = {};
    const set = (p, k, f) => { if (rng.bool(p)) o[k] = f(); };
    set(0.85, 'direction', () => rng.pick(['horizontal', 'vertical', 'LR', 'RL', 'TB', 'BT']));
    set(0.3, 'layoutType', () => rng.pick(['radial', 'orthogonal']));
    set(0.4, 'alignType', () => rng.pick(['leaf', 'depth']));
    set(0.3, 'minNodeGap', () => rng.pick([10, 25.5, 3]));
    if (o.alignType !== 'leaf') set(0.3, 'linkWidth', () => (rng.bool(0.5) ? rng.pick([20, 55]) : rng.times(rng.int(1, 5), () => rng.int(10, 60))));
    else if (o.minNodeGap) set(0.5, 'linkWidth', () => rng.pick([20, 55]));
    return { tree: genTree(rng, { single: true, missing: true }), o, key: genKey(rng), box: genBox(rng), one: rng.bool(0.3), flat: rng.bool(0.5) ? { maxDepth: rng.bool(0.5) ? rng.int(0, 3) : undefined } : null };
  },
  run(c, env) {
    const opts = Object.assign({}, c.o);
    if (c.key) opts.nodeKey = keyOption(c.key);
    const den = denote(c.tree, keyFn(c.key), 'value');
    const tag = `tree (${c.o.alignType || 'depth'} aligned, ${c.o.direction || 'horizontal'}${c.o.layoutType === 'radial' ? ', radial' : ''})`;
    const tops = frozen(env, tag, c.tree, () => new H.TreeLayout(opts).layout(c.one ? c.tree[0] : c.tree, c.box));
    env.nontrivial = den.list.length > 2;
    const { list, seen } = structure(env, tag, tops, den);
    const box = boxOf(c.box), w = box.x1 - box.x0, h = box.y1 - box.y0;
    const radial = c.o.layoutType === 'radial';
    const vertical = ['vertical', 'TB', 'BT'].includes(c.o.direction), flip = !radial && ['BT', 'RL'].includes(c.o.direction);
    const vb = radial ? { x0: 0, x1: Math.PI * 2, y0: 0, y1: Math.min(w, h) / 2 } : vertical ? box : { x0: box.y0, x1: box.y1, y0: box.x0, y1: box.x1 };
    // breadth and depth coordinates in the direction of growth
    const P = new Map();
    list.forEach(({ o, n }) => {
      env.check(Number.isFinite(o.x) && Number.isFinite(o.y), () => `${tag}: ${n.key} has no position (${o.x},${o.y})`);
      let b, d;
      if (radial) {
        const dx = o.x - (box.x0 + box.x1) / 2, dy = o.y - (box.y0 + box.y1) / 2;
        d = Math.hypot(dx, dy); b = Math.atan2(dy, dx);
      } else { b = vertical ? o.x : o.y; d = vertical ? o.y : o.x; if (flip) d = vb.y0 + vb.y1 - d; }
      P.set(n, { b, d, o });
    });
    env.obs('tree layouts checked');
    const s = Math.max(w, h), S = EPS * s * 10;
    const root = den.tops[0];
    // depth
    const leafAligned = c.o.alignType === 'leaf';
    const height = n => (n.kids.length ? 1 + Math.max(...n.kids.map(height)) : 0);
    const total = height(root);
    const cum = Array.isArray(c.o.linkWidth) ? c.o.linkWidth.reduce((r, x) => r.concat((r.length ? r[r.length - 1] : 0) + x), []) : null;
    list.forEach(({ n }) => {
      const lv = leafAligned ? total - height(n) : n.depth;
      let exp;
      if (cum) exp = cum[n.depth] === undefined ? cum[cum.length - 1] : cum[n.depth];
      else if (typeof c.o.linkWidth === 'number') exp = lv * c.o.linkWidth;
      else exp = (vb.y1 - vb.y0) * (leafAligned ? (total ? lv / total : 0) : lv / (den.depth || 1));
      env.check(near(P.get(n).d - vb.y0, exp, s), () => `${tag}: ${n.key} (level ${lv}) lies at ${P.get(n).d - vb.y0}, expected ${exp}`);
    });
    if (radial) {
      list.forEach(({ n }) => n.kids.length || 1);
      if (typeof c.o.minNodeGap !== 'number') {
        // no two nodes of a level at one place
        const at = {};
        list.forEach(({ n }) => { const p = P.get(n); if (p.d > S && den.list.length < 200) { const k = `${n.depth}:${p.d.toFixed(3)}:${p.b.toFixed(6)}`; env.check(!at[k], () => `${tag}: ${n.key} and ${at[k]} share a position`); at[k] = n.key; } });
      }
    } else {
      // breadth: order, gaps, centring
      const levels = {};
      const preorder = den.list;
      preorder.forEach(n => { const lv = leafAligned && !n.kids.length ? 'leaf' : leafAligned ? null : n.depth; if (lv !== null) (levels[lv] = levels[lv] || []).push(n); });
      let unit = typeof c.o.minNodeGap === 'number' ? c.o.minNodeGap : null;
      let min = Infinity;
      Object.values(levels).forEach(ns => ns.forEach((n, i) => {
        if (!i) return;
        const gap = P.get(n).b - P.get(ns[i - 1]).b;
        env.check(gap > 0, () => `${tag}: ${n.key} is not after ${ns[i - 1].key} on its level`);
        const sep = n.parent === ns[i - 1].parent ? 1 : 2;
        min = Math.min(min, gap / sep);
        env.obs('neighbour gaps checked');
      }));
      if (unit !== null) env.check(min >= unit - S, () => `${tag}: neighbours are ${min} apart, at least ${unit} was asked for`);
      else {
        const bs = list.map(({ n }) => P.get(n).b);
        env.check(Math.min(...bs) >= vb.x0 - S && Math.max(...bs) <= vb.x1 + S, () => `${tag}: breadth ${Math.min(...bs)}..${Math.max(...bs)} leaves ${vb.x0}..${vb.x1}`);
      }
      list.forEach(({ n }) => {
        if (!n.kids.length) return;
        const ks = n.kids.map(k => P.get(k).b);
        const mid = leafAligned ? ks.reduce((a, b) => a + b, 0) / ks.length : (ks[0] + ks[ks.length - 1]) / 2;
        env.check(near(P.get(n).b, mid, s), () => `${tag}: ${n.key} is at ${P.get(n).b}, not in the middle of its children (${mid})`);
      });
    }
    if (c.flat) {
      const opt = Object.assign({}, opts, c.box, { flatten: true });
      if (c.flat.maxDepth !== undefined) opt.maxDepth = c.flat.maxDepth;
      checkFlatten(env, tag, () => H.treeTransform(opt, c.tree), tops, c.flat.maxDepth, true);
    }
  }
};

// ---------- as data transforms of a live view
const live = {
  name: 'live', weight: 2, quick: 260,
  gen(rng) {
    return { type: rng.pick(['treemap', 'sunburst', 'circlePacking', 'tree']), trees: rng.times(3, () => genTree(rng, { single: true, maxDepth: 3 })), w: rng.times(3, () => rng.int(150, 500)), steps: rng.times(rng.int(1, 5), () => rng.pick(['data', 'size', 'both', 'depth'])), maxDepth: rng.int(0, 2) };
  },
  run(c, env) {
    const T = { treemap: H.treemapTransform, sunburst: H.sunburtTransform, circlePacking: H.circlePackingTransform, tree: H.treeTransform };
    withView({}, view => {
      const size = view.signal(c.w[0]).id('size');
      const cap = view.signal(9).id('cap');
      const data = view.data(c.trees[0]).id('tree').transform([{ type: c.type, width: { signal: 'size' }, height: 300, flatten: true, nodeKey: 'name', maxDepth: { signal: 'cap' } }]);
      view.run();
      let t = 0, w = c.w[0], cp = 9;
      const check = what => {
        const got = data.output();
        const exp = T[c.type]({ type: c.type, width: w, height: 300, flatten: true, nodeKey: 'name', maxDepth: cp }, c.trees[t]);
        const flat = r => (c.type === 'tree' ? [r.nodes, r.links] : [r]).map(a => a.map(n => [n.key, n.x, n.y, n.x0, n.y0, n.x1, n.y1, n.radius, n.startAngle, n.endAngle, n.innerRadius, n.outerRadius, n.isLeaf]));
        env.obs('live layouts compared');
        env.check(js(flat(got)) === js(flat(exp)), () => `${c.type} in a view ${what}: the laid-out data is not what the layout gives for the current tree and size`);
      };
      check('at first');
      c.steps.forEach((s, i) => {
        if (s === 'data' || s === 'both') { t = (t + 1) % 3; data.values(c.trees[t]); }
        if (s === 'size' || s === 'both') { w = c.w[(i + 1) % 3]; size.value(w); }
        if (s === 'depth') { cp = c.maxDepth; cap.value(cp); }
        view.run();
        check(`after ${c.steps.slice(0, i + 1)}`);
      });
    });
  }
};

module.exports = {
  rule: 'Real layouts run over random trees, boxes and options; oracles re-derive structure and values from the input tree and check tiling, rings, packing, levels, gaps and label areas on the produced geometry; live views are compared with the pure layout after every update.',
  quickSeconds: 60, thoroughSeconds: 600,
  mustObserve: ['layout nodes compared', 'tilings checked', 'area shares compared', 'arcs compared', 'packings checked', 'neighbour gaps checked', 'flattened outputs compared', 'live layouts compared'],
  pinned: [{ name: 'sunburst-outer-gap', scenario: 'sunburst', case: { tree: [{ name: 'a', children: [{ name: 'b', value: 1 }] }], o: { outerRadius: [40, 80], innerRadius: 10, gapRadius: 5 }, mode: 'outer', box: { width: 200, height: 200 }, flat: null } },
    { name: 'pack-sort', scenario: 'packing', case: { tree: [{ name: 'a', value: 4 }, { name: 'b', value: 9 }, { name: 'c', value: 1 }], o: { nodeSort: 'asc' }, key: 'name', box: { width: 200, height: 200 }, flat: null } }],
  scenarios: [treemap, sunburst, pack, tree, live]
};
