'use strict';
// Sankey layouts: the real layout over random flow graphs, hierarchies and options, watched by conservation and
// geometry oracles.
const V = require('../lib/view.cjs');
const { SankeyLayout, sankeyTransform, formatNodeRect, formatLinkPolygon, formatLinkPath, getBoundsOfNodes } = V.vg.sankey;
const { withView } = V;
const js = JSON.stringify;
const near = (a, b, s = 1) => a === b || Math.abs(a - b) <= 1e-6 * Math.max(1, Math.abs(a), Math.abs(b), s);
const num = v => (typeof v === 'number' ? v : 0);

function genFlow(rng) {
  const n = rng.wpick([[1, 2], [3, 4], [3, 7], [2, 11], [1, 18]]);
  const names = rng.times(n, i => `s${i}`);
  const order = rng.shuffle(names.slice());
  const links = [];
  const dens = rng.pick([0.15, 0.3, 0.5]);
  const val = () => rng.wpick([[6, () => rng.int(1, 50)], [2, () => rng.num(0.01, 3, 3)], [1, () => 0], [1, () => rng.int(300, 900)]])();
  for (let i = 0; i < n; i++) for (let j = i + 1; j < n; j++) if (rng.bool(dens) || (j === i + 1 && rng.bool(0.4))) links.push({ source: order[i], target: order[j], value: val() });
  if (!links.length) links.push({ source: order[0], target: order[1], value: 3 });
  if (rng.bool(0.15)) links.push(Object.assign({}, rng.pick(links), { value: val() })); // parallel link
  const kind = rng.wpick([[4, () => 'links'], [3, () => 'keyed'], [2, () => 'indexed']])();
  rng.shuffle(links);
  if (kind !== 'links' && rng.bool(0.2)) links.push({ source: order[0], target: 'nobody', value: 5 });
  if (rng.bool(0.06)) links.push({ source: rng.pick(names), value: 4 });
  if (rng.bool(0.05)) delete links[0].value;
  const iso = rng.bool(0.25) ? ['iso0', 'iso1'].slice(0, rng.int(1, 2)) : [];
  const out = { kind, links };
  if (kind !== 'links') {
    out.nodes = rng.shuffle(names.concat(iso)).map(name => Object.assign({ name }, rng.bool(0.2) ? { value: rng.int(0, 60) } : {}));
    if (kind === 'indexed') { const at = new Map(out.nodes.map((d, i) => [d.name, i])); out.links = links.map(l => { const r = Object.assign({}, l, { source: at.get(l.source) }); if ('target' in l) r.target = at.has(l.target) ? at.get(l.target) : 999; return r; }); }
  }
  return out;
}
function genHierarchy(rng) {
  let id = 0;
  const shared = ['x', 'y', 'z'];
  const node = (d, path) => {
    const n = { name: rng.bool(0.2) && !path.includes('h') ? rng.pick(shared) + d : `h${id++}` };
    if (d < 3 && rng.bool(0.7 - d * 0.15)) { const seen = new Set(); n.children = rng.times(rng.int(1, 4), () => node(d + 1, path)).filter(k => !seen.has(k.name) && seen.add(k.name)); }
    if (!n.children || rng.bool(0.3)) { n.value = rng.int(0, 40); if (rng.bool(0.1)) delete n.value; }
    return n;
  };
  return { kind: 'tree', nodes: rng.times(rng.int(1, 3), () => { const r = node(0, []); if (!r.children) r.children = [node(1, [])]; return r; }) };
}
const genBox = rng => {
  const w = rng.pick([300, 500, 820]), h = rng.pick([200, 400, 333.5]);
  if (rng.bool(0.5)) return { width: w, height: h };
  const x = rng.int(-100, 300), y = rng.int(-100, 200);
  return { x0: x, x1: x + w, y0: y, y1: y + h };
};
const boxOf = b => ('width' in b ? { x0: 0, y0: 0, x1: b.width, y1: b.height } : b);

const gapFn = n => 2 + (String(n.key).length % 3);
const widthFn = n => 8 + ((n.value * 7) % 13);
const layerOf = d => (d && d.name ? parseInt(d.name.replace(/\D/g, ''), 10) % 5 : undefined);
const cmpValue = (a, b) => a.value - b.value || (String(a.key) < String(b.key) ? -1 : 1);
const cmpLink = (a, b) => b.value - a.value || a.index - b.index;

function genOptions(rng, kind) {
  const o = {};
  const set = (p, k, f) => { if (rng.bool(p)) o[k] = f(); };
  set(0.4, 'direction', () => rng.pick(['horizontal', 'vertical']));
  set(0.25, 'inverse', () => true);
  set(0.7, 'nodeAlign', () => rng.pick(['left', 'right', 'center', 'justify', 'start', 'end']));
  set(0.5, 'crossNodeAlign', () => rng.pick(['start', 'end', 'middle', 'parent']));
  set(0.6, 'nodeGap', () => rng.wpick([[5, () => rng.int(0, 30)], [1, () => ({ fn: 1 })]])());
  set(0.2, 'gapPosition', () => rng.pick(['start', 'middle', 'end']));
  set(0.5, 'nodeWidth', () => rng.wpick([[2, () => '12%'], [3, () => rng.int(2, 30)], [1, () => ({ fn: 1 })]])());
  if (rng.bool(0.15) || (o.nodeWidth && o.nodeWidth.fn)) o.linkWidth = rng.int(20, 120);
  set(0.1, 'minStepWidth', () => rng.pick([40, 120, 260]));
  set(0.2, 'minNodeHeight', () => rng.int(1, 8));
  set(0.15, 'maxNodeHeight', () => rng.int(20, 80));
  set(0.2, 'minLinkHeight', () => rng.int(1, 5));
  set(0.15, 'maxLinkHeight', () => rng.int(4, 40));
  set(0.1, 'equalNodeHeight', () => true);
  set(0.07, 'nodeHeight', () => rng.int(5, 20));
  set(0.07, 'linkHeight', () => rng.int(1, 6));
  set(0.5, 'iterations', () => rng.pick([0, 1, 6, 20]));
  set(0.4, 'dropIsolatedNode', () => rng.bool());
  set(0.15, 'linkOverlap', () => rng.pick(['start', 'center', 'end']));
  set(0.12, 'nodeSortBy', () => 'value');
  set(0.12, 'linkSortBy', () => 'value');
  if (kind === 'keyed' || kind === 'indexed') { set(0.12, 'setNodeLayer', () => 'partial'); set(0.15, 'divideNodeValueToLink', () => true); }
  return o;
}
function real(c) {
  const o = Object.assign({}, c.o);
  if (o.nodeGap && o.nodeGap.fn) o.nodeGap = gapFn;
  if (o.nodeWidth && o.nodeWidth.fn) o.nodeWidth = widthFn;
  if (o.setNodeLayer) o.setNodeLayer = layerOf;
  if (o.nodeSortBy) o.nodeSortBy = cmpValue;
  if (o.linkSortBy) o.linkSortBy = cmpLink;
  if (c.data.kind === 'keyed' || c.data.kind === 'tree') o.nodeKey = 'name';
  return o;
}
/** the flow graph an input denotes */
function denote(c) {
  const { data, o } = c;
  const nodes = new Map(), links = [];
  const add = (key, own, datum) => { if (!nodes.has(key)) nodes.set(key, { key, own, datum, out: [], inc: [] }); return nodes.get(key); };
  if (data.kind === 'tree') {
    const val = new Map();
    const value = d => { let v = d.value; if (v === undefined) v = d.children && d.children.length ? d.children.reduce((s, k) => s + Math.abs(value(k)), 0) : 0; else (d.children || []).forEach(value); val.set(d, v); return v; };
    data.nodes.forEach(value);
    const by = new Map();
    const walk = (d, parent) => {
      const had = nodes.has(d.name);
      const n = add(d.name, val.get(d), d);
      if (had) n.own = undefined;
      if (parent) {
        const k = js([parent.key, n.key]);
        if (by.has(k)) { by.get(k).value += val.get(d); by.get(k).n++; } else { const l = { s: parent, t: n, value: val.get(d), n: 1 }; by.set(k, l); links.push(l); parent.out.push(l); n.inc.push(l); }
      }
      (d.children || []).forEach(k => walk(k, n));
    };
    data.nodes.forEach(d => walk(d, null));
  } else {
    if (data.nodes) data.nodes.forEach((d, i) => add(data.kind === 'keyed' ? d.name : i, d.value, d));
    data.links.forEach((d, index) => {
      if (data.nodes && (!nodes.has(d.source) || !nodes.has(d.target))) return;
      const s = d.source === undefined ? null : add(d.source, undefined, null), t = d.target === undefined ? null : add(d.target, undefined, null);
      const l = { s, t, value: d.value, d, index };
      links.push(l);
      if (s) s.out.push(l);
      if (t) t.inc.push(l);
    });
  }
  return { nodes: [...nodes.values()], links };
}
function topo(g) {
  const memo = new Map(), memo2 = new Map();
  let busy = new Set(), cyc = false;
  const depth = n => { if (memo.has(n)) return memo.get(n); if (busy.has(n)) { cyc = true; return 0; } busy.add(n); const d = n.inc.reduce((m, l) => (l.s ? Math.max(m, depth(l.s) + 1) : m), 0); busy.delete(n); memo.set(n, d); return d; };
  const height = n => { if (memo2.has(n)) return memo2.get(n); const d = n.out.reduce((m, l) => (l.t ? Math.max(m, height(l.t) + 1) : m), 0); memo2.set(n, d); return d; };
  g.nodes.forEach(depth);
  if (cyc) return null;
  g.nodes.forEach(height);
  g.nodes.forEach(n => { n.depth = memo.get(n); n.height = memo2.get(n); });
  return g;
}
function run(c, env) {
  const o = c.o, tag = `sankey (${c.data.kind})`;
  const g = topo(denote(c));
  if (!g) { env.nontrivial = false; return; }
  const drop = o.dropIsolatedNode !== false;
  const divide = !!o.divideNodeValueToLink && g.links.some(l => l.value === undefined);
  let shown = g.nodes.filter(n => !drop || n.out.length || n.inc.length);
  const input = c.data.kind === 'links' ? { links: c.data.links } : c.data.kind === 'tree' ? { nodes: c.data.nodes } : { nodes: c.data.nodes, links: c.data.links };
  const before = js(input);
  const res = new SankeyLayout(real(c)).layout(input, c.box);
  env.check(js(input) === before, () => `${tag}: the layout changed its input`);
  if (!shown.length) { env.check(res === null, () => `${tag}: an empty graph is laid out`); return; }
  env.nontrivial = shown.length > 2;
  // nodes
  const outN = new Map();
  res.nodes.forEach(n => { env.check(!outN.has(n.key), () => `${tag}: node ${n.key} appears twice`); outN.set(n.key, n); });
  env.check(shown.every(n => outN.has(n.key)) && res.nodes.length === shown.length, () => `${tag}: nodes laid out are ${[...outN.keys()]}, the data names ${shown.map(n => n.key)}`);
  const real2 = g.links.filter(l => l.s && l.t);
  env.check(res.links.length === real2.length, () => `${tag}: ${res.links.length} links for ${real2.length} in the data`);
  const pool = real2.slice();
  const L = new Map();
  res.links.forEach(l => {
    const i = pool.findIndex(r => r.s.key === l.source && r.t.key === l.target && (c.data.kind === 'tree' ? true : r.d === l.datum));
    env.check(i >= 0, () => `${tag}: link ${l.source}->${l.target} is not in the data or appears twice`);
    const r = pool.splice(i, 1)[0];
    L.set(r, l);
    if (c.data.kind === 'tree') { env.check(near(l.value, r.value) && l.datum.length === r.n, () => `${tag}: link ${l.source}->${l.target} carries ${l.value}, the tree ${r.value}`); }
    else if (r.value !== undefined) env.check(l.value === r.value, () => `${tag}: link ${l.source}->${l.target} carries ${l.value}, the data ${r.value}`);
    else if (!divide) env.check(l.value === undefined || l.value === 0, () => `${tag}: a link without value carries ${l.value}`);
  });
  env.obs('links compared', res.links.length);
  const lv = l => num(L.has(l) ? L.get(l).value : l.value);
  if (divide) {
    // what is not assigned explicitly is shared out: never more than an end declares
    shown.forEach(n => { if (n.own === undefined) return; for (const side of ['out', 'inc']) { const exp = n[side].reduce((s, l) => s + num(l.value), 0); if (exp > n.own) continue; const got = n[side].reduce((s, l) => s + lv(l), 0); env.check(got <= n.own + 1e-6, () => `${tag}: node ${n.key} declares ${n.own} and gets links of ${got}`); } });
    env.obs('divided values checked');
  }
  shown.forEach(n => {
    const out = n.out.reduce((s, l) => s + lv(l), 0), inc = n.inc.reduce((s, l) => s + lv(l), 0);
    const exp = Math.max(num(n.own), out, inc), got = outN.get(n.key);
    n.value = exp;
    env.obs('node values compared');
    env.check(near(got.value, exp), () => `${tag}: node ${n.key} has value ${got.value}; in ${inc}, out ${out}, own ${n.own}`);
    env.check(got.sourceLinks.length === n.out.filter(l => l.t).length && got.targetLinks.length === n.inc.filter(l => l.s).length, () => `${tag}: node ${n.key} lists ${got.sourceLinks.length}+${got.targetLinks.length} links`);
    if (c.data.kind !== 'links') env.check(got.datum === n.datum, () => `${tag}: node ${n.key} carries another datum`);
  });
  // flows that leave to, or come from, nowhere: only placed somewhere
  if (g.links.some(l => !l.s || !l.t)) {
    env.obs('dangling flows placed');
    res.nodes.forEach(n => env.check([n.x0, n.x1, n.y0, n.y1].every(Number.isFinite), () => `${tag}: node ${n.key} has no place`));
    return;
  }
  // layers
  const custom = !!o.setNodeLayer;
  const D = custom ? Math.max(...shown.map(n => (layerOf(n.datum) === undefined ? n.depth : layerOf(n.datum)))) + 1 : Math.max(...shown.map(n => n.depth)) + 1;
  const align = o.nodeAlign || 'justify';
  shown.forEach(n => {
    let exp;
    if (c.data.kind === 'tree') exp = n.depth;
    else if (custom) exp = layerOf(n.datum) === undefined ? null : layerOf(n.datum);
    else if (align === 'left' || align === 'start') exp = n.depth;
    else if (align === 'right' || align === 'end') exp = D - 1 - n.height;
    else if (align === 'justify') exp = n.out.length ? n.depth : D - 1;
    else exp = n.inc.length ? n.depth : n.out.length ? (n.out.some(l => l.t) ? Math.min(...n.out.filter(l => l.t).map(l => l.t.depth)) - 1 : 0) : 0;
    const got = outN.get(n.key);
    n.layer = got.layer;
    if (exp !== null) env.check(got.layer === exp, () => `${tag}: node ${n.key} is on layer ${got.layer}, expected ${exp} (${align})`);
    env.check(Number.isInteger(got.layer), () => `${tag}: node ${n.key} has no layer (${got.layer})`);
    env.check(!!got.isLastLayer === (got.layer === D - 1), () => `${tag}: node ${n.key} on layer ${got.layer} of ${D} is ${got.isLastLayer ? '' : 'not '}marked last`);
  });
  if (!custom) real2.forEach(l => env.check(l.t.layer > l.s.layer, () => `${tag}: link ${l.s.key}->${l.t.key} goes from layer ${l.s.layer} to ${l.t.layer}`));
  env.saw('layer profiles', js(res.columns.map(x => x && x.length)));
  // normalise: depth direction a, breadth direction b
  const box = boxOf(c.box), vert = o.direction === 'vertical';
  const vb = vert ? { a0: box.y0, a1: box.y1, b0: box.x0, b1: box.x1 } : { a0: box.x0, a1: box.x1, b0: box.y0, b1: box.y1 };
  const flip = a => (o.inverse ? vb.a0 + vb.a1 - a : a);
  const P = new Map();
  shown.forEach(n => {
    const r = outN.get(n.key);
    env.check([r.x0, r.x1, r.y0, r.y1].every(Number.isFinite), () => `${tag}: node ${n.key} has no place (${[r.x0, r.x1, r.y0, r.y1]})`);
    const a = vert ? [r.y0, r.y1] : [r.x0, r.x1], b = vert ? [r.x0, r.x1] : [r.y0, r.y1];
    env.check(a[1] >= a[0] && b[1] >= b[0] - 1e-6, () => `${tag}: node ${n.key} is turned inside out`);
    P.set(n, { a0: o.inverse ? flip(a[1]) : a[0], a1: o.inverse ? flip(a[0]) : a[1], b0: b[0], b1: b[1] });
  });
  const S = 1000;
  const W = vb.a1 - vb.a0, H = vb.b1 - vb.b0;
  // widths and columns
  if (o.nodeWidth && o.nodeWidth.fn) {
    shown.forEach(n => env.check(near(P.get(n).a1 - P.get(n).a0, widthFn(outN.get(n.key)), S), () => `${tag}: node ${n.key} is ${P.get(n).a1 - P.get(n).a0} wide, the callback says ${widthFn(outN.get(n.key))}`));
    const layers = [...new Set(shown.map(n => n.layer))].sort((x, y) => x - y);
    layers.forEach((l, i) => { if (!i) return; const prev = shown.filter(n => n.layer === layers[i - 1]), cur = shown.filter(n => n.layer === l); const end = Math.max(...prev.map(n => P.get(n).a1)), start = Math.min(...cur.map(n => P.get(n).a0)); const linked = prev.some(n => n.out.some(x => x.t)); env.check(start >= end + (linked ? o.linkWidth : 0) - 1e-6, () => `${tag}: layer ${l} starts at ${start}, the widest node of layer ${layers[i - 1]} ends at ${end} (link width ${o.linkWidth})`); });
  } else {
    const nw = o.nodeWidth === undefined ? 24 : o.nodeWidth;
    let width, step;
    if (typeof nw === 'string') { const r = parseFloat(nw) / 100; step = W / (D - 1 + r); if (o.minStepWidth > 0) step = Math.max(step, o.minStepWidth); width = step * r; }
    else { width = nw; step = typeof o.linkWidth === 'number' ? nw + o.linkWidth : D > 1 ? (W - nw) / (D - 1) : 0; if (typeof o.linkWidth !== 'number' && o.minStepWidth > 0) step = Math.max(step, o.minStepWidth); }
    shown.forEach(n => { const p = P.get(n); env.check(near(p.a1 - p.a0, width, S) && near(p.a0, vb.a0 + n.layer * step, S), () => `${tag}: node ${n.key} on layer ${n.layer} spans [${p.a0},${p.a1}], expected start ${vb.a0 + n.layer * step} and width ${width}`); });
  }
  // breadth
  const layers = new Map();
  shown.forEach(n => layers.set(n.layer, (layers.get(n.layer) || []).concat(n)));
  const relaxed = c.data.kind !== 'tree' && !custom && typeof (o.nodeGap || 0) !== 'object' && o.iterations !== 0;
  const fnGap = !!(o.nodeGap && o.nodeGap.fn);
  const maxRow = Math.max(...[...layers.values()].map(x => x.length));
  // options that fix heights by hand may ask for more than there is room
  const handMade = o.nodeHeight !== undefined || (fnGap && ((o.minNodeHeight || 0) > 0 || (o.minLinkHeight || 0) > 0 || o.equalNodeHeight)) || (o.gapPosition && o.gapPosition !== 'middle');
  const parentShift = o.crossNodeAlign === 'parent' && !relaxed;
  for (const [layer, ns] of layers) {
    const s = ns.slice().sort((x, y) => P.get(x).b0 + P.get(x).b1 - P.get(y).b0 - P.get(y).b1); // by middle: an empty node may touch its neighbour up to rounding
    for (let i = 1; i < s.length; i++) {
      env.obs('neighbours checked');
      if (!handMade) env.check(P.get(s[i]).b0 >= P.get(s[i - 1]).b1 - 1e-3, () => `${tag}: nodes ${s[i - 1].key} and ${s[i].key} of layer ${layer} overlap by ${P.get(s[i - 1]).b1 - P.get(s[i]).b0}`);
    }
    if (!handMade && !parentShift && !(fnGap && ns.reduce((t, n) => t + gapFn(n), 0) > H)) {
      env.obs('layers in the box');
      const lo = Math.min(...ns.map(n => P.get(n).b0)), hi = Math.max(...ns.map(n => P.get(n).b1));
      env.check(lo >= vb.b0 - 1e-3 && hi <= vb.b1 + 1e-3, () => `${tag}: layer ${layer} covers ${lo}..${hi}, the box is ${vb.b0}..${vb.b1}`);
    }
    if (o.nodeSortBy) { const by = ns.slice().sort((x, y) => cmpValue(outN.get(x.key), outN.get(y.key))); if (!handMade) env.check(by.every((n, i) => i === 0 || P.get(n).b0 >= P.get(by[i - 1]).b0 - 1e-3), () => `${tag}: layer ${layer} does not follow the declared node order`); }
    if (!fnGap && !handMade && !o.minNodeHeight && !o.minLinkHeight && !o.maxNodeHeight && !o.equalNodeHeight && !parentShift) {
      const gap = Math.min(o.nodeGap === undefined ? 8 : o.nodeGap, H / maxRow);
      for (let i = 1; i < s.length; i++) env.check(P.get(s[i]).b0 - P.get(s[i - 1]).b1 >= gap - 1e-3, () => `${tag}: nodes ${s[i - 1].key} and ${s[i].key} are ${P.get(s[i]).b0 - P.get(s[i - 1]).b1} apart, the gap is ${gap}`);
    }
  }
  // heights
  const minH = Math.max(o.minNodeHeight || 0, o.minLinkHeight || 0), maxH = o.maxNodeHeight === undefined ? Infinity : o.maxNodeHeight;
  const h = n => P.get(n).b1 - P.get(n).b0;
  const proportional = o.nodeHeight === undefined && !o.equalNodeHeight;
  let k = null;
  if (o.nodeHeight !== undefined) shown.forEach(n => env.check(minH > 0 || near(h(n), Math.min(Math.max(o.nodeHeight, minH), maxH), S), () => `${tag}: node ${n.key} is ${h(n)} high, ${o.nodeHeight} was asked for`));
  else if (o.equalNodeHeight) { if (!fnGap) shown.forEach(n => env.check(near(h(n), h(shown[0]), S), () => `${tag}: node heights differ (${h(n)}, ${h(shown[0])})`)); }
  else {
    const free = shown.filter(n => n.value > 0 && h(n) > minH + 1e-6 && h(n) < maxH - 1e-6);
    if (free.length) { k = h(free[0]) / free[0].value; free.forEach(n => env.check(near(h(n) / n.value, k, Math.max(k, 1e-3)), () => `${tag}: node ${n.key} has ${h(n) / n.value} per unit, ${free[0].key} has ${k}`)); }
    if (k !== null) shown.forEach(n => { const e = Math.min(Math.max(n.value * k, minH), maxH); if (!(minH > 0 && near(h(n), minH, S)) && !(minH > 0 && h(n) < minH)) env.check(near(h(n), e, S), () => `${tag}: node ${n.key} (value ${n.value}) is ${h(n)} high, expected ${e}`); });
    env.obs('heights compared', shown.length);
  }
  // links
  shown.forEach(n => {
    const r = outN.get(n.key), p = P.get(n);
    if (o.linkSortBy) env.check(r.sourceLinks.every((l, i) => !i || cmpLink(r.sourceLinks[i - 1], l) <= 0) && r.targetLinks.every((l, i) => !i || cmpLink(r.targetLinks[i - 1], l) <= 0), () => `${tag}: links of ${n.key} do not follow the declared order`);
    for (const side of ['sourceLinks', 'targetLinks']) {
      let y = p.b0;
      const src = side === 'sourceLinks';
      const total = r[side].reduce((s, l) => s + l.thickness, 0);
      const dang = src ? n.out.some(l => !l.t) : n.inc.some(l => !l.s);
      for (const l of r[side]) {
        env.obs('link ends checked');
        env.check(Number.isFinite(l.thickness) && l.thickness >= 0, () => `${tag}: link ${l.source}->${l.target} has thickness ${l.thickness}`);
        const a = vert ? (src ? l.y0 : l.y1) : (src ? l.x0 : l.x1), b = vert ? (src ? l.x0 : l.x1) : (src ? l.y0 : l.y1);
        env.check(near(flip(a), src ? p.a1 : p.a0, S), () => `${tag}: link ${l.source}->${l.target} ${src ? 'leaves' : 'enters'} at ${a}, the node ${n.key} spans [${p.a0},${p.a1}]`);
        if (o.linkOverlap) {
          const e = o.linkOverlap === 'start' ? p.b0 + l.thickness / 2 : o.linkOverlap === 'end' ? p.b1 - l.thickness / 2 : (p.b0 + p.b1) / 2;
          env.check(near(b, e, S), () => `${tag}: overlapping link ${l.source}->${l.target} is centred at ${b}, expected ${e}`);
        } else if (total <= h(n) + 1e-6 && !dang) {
          env.check(near(b - l.thickness / 2, y, S), () => `${tag}: link ${l.source}->${l.target} starts at ${b - l.thickness / 2} on ${n.key}, the previous one ends at ${y}`);
          y += l.thickness;
        }
      }
      const plain = proportional && !(minH > 0) && maxH === Infinity && o.maxLinkHeight === undefined && o.linkHeight === undefined;
      if (plain) env.check(total <= h(n) + 1e-3, () => `${tag}: the links ${src ? 'leaving' : 'entering'} ${n.key} are ${total} high, the node ${h(n)}`);
    }
  });
  for (const [r, l] of L) {
    const sp = outN.get(r.s.key), tp = outN.get(r.t.key);
    const eq = (q, n) => q && ['x0', 'x1', 'y0', 'y1'].every(f => near(q[f], n[f], S));
    env.check(eq(l.sourceRect, sp) && eq(l.targetRect, tp), () => `${tag}: link ${l.source}->${l.target} refers to other rectangles than its nodes'`);
    if (o.linkHeight !== undefined) env.check(l.thickness === o.linkHeight, () => `${tag}: link thickness ${l.thickness}, ${o.linkHeight} was asked for`);
    else if (k !== null && !(minH > 0) && maxH === Infinity) {
      const e = Math.min(r.s.value ? k * Math.min(1, Math.max(0, num(l.value))  / r.s.value * 1) * r.s.value : 0, o.maxLinkHeight === undefined ? Infinity : o.maxLinkHeight);
      env.check(near(l.thickness, Math.min(k * num(l.value), o.maxLinkHeight === undefined ? Infinity : o.maxLinkHeight), S), () => `${tag}: link ${l.source}->${l.target} (value ${l.value}) is ${l.thickness} thick, expected ${e}`);
    } else if (o.minLinkHeight) env.check(l.thickness >= Math.min(o.minLinkHeight, o.maxLinkHeight === undefined ? Infinity : o.maxLinkHeight, maxH) - 1e-9, () => `${tag}: link ${l.source}->${l.target} is ${l.thickness} thick, at least ${o.minLinkHeight} was asked for`);
  }
  // formatters
  formatNodeRect(res.nodes).forEach((q, i) => { const n = res.nodes[i]; env.check(q.x === n.x0 && q.y === n.y0 && near(q.width, n.x1 - n.x0) && near(q.height, n.y1 - n.y0) && q.key === n.key, () => `${tag}: rectangle of ${n.key} is ${js([q.x, q.y, q.width, q.height])}`); });
  const bb = getBoundsOfNodes(res.nodes);
  env.check(near(bb.x0, Math.min(...res.nodes.map(n => n.x0))) && near(bb.y1, Math.max(...res.nodes.map(n => n.y1))) && near(bb.x1 - bb.x0, bb.width) && near(bb.y1 - bb.y0, bb.height), () => `${tag}: bounds ${js(bb)}`);
  const polys = formatLinkPolygon(res.links), paths = formatLinkPath(res.links, false);
  res.links.forEach((l, i) => {
    const t = l.thickness / 2;
    const exp = vert ? [[l.x0 - t, l.y0], [l.x1 - t, l.y1], [l.x1 + t, l.y1], [l.x0 + t, l.y0]] : [[l.x0, l.y0 - t], [l.x1, l.y1 - t], [l.x1, l.y1 + t], [l.x0, l.y0 + t]];
    env.check(polys[i].points.every((p, j) => near(p.x, exp[j][0], S) && near(p.y, exp[j][1], S)), () => `${tag}: polygon of ${l.source}->${l.target} is ${js(polys[i].points)}, expected ${js(exp)}`);
    const nums = paths[i].path.match(/-?[\d.]+(?:e[-+]?\d+)?/g).map(Number);
    const m = vert ? (l.y0 + l.y1) / 2 : (l.x0 + l.x1) / 2;
    const e2 = vert ? [exp[0], [exp[0][0], m], [exp[1][0], m], exp[1], exp[2], [exp[2][0], m], [exp[3][0], m], exp[3]] : [exp[0], [m, exp[0][1]], [m, exp[1][1]], exp[1], exp[2], [m, exp[2][1]], [m, exp[3][1]], exp[3]];
    env.check(nums.length === 16 && e2.every((p, j) => near(nums[2 * j], p[0], S) && near(nums[2 * j + 1], p[1], S)), () => `${tag}: path of ${l.source}->${l.target} is ${paths[i].path}`);
    env.obs('link shapes compared');
  });
}
const flow = { name: 'flow', weight: 3, quick: 4000, gen(rng) { const data = genFlow(rng); return { data, o: genOptions(rng, data.kind), box: genBox(rng) }; }, run };
const hier = { name: 'hierarchy', weight: 2, quick: 2000, gen(rng) { const data = genHierarchy(rng); return { data, o: genOptions(rng, 'tree'), box: genBox(rng) }; }, run };
const live = {
  name: 'live', weight: 1, quick: 200,
  gen(rng) { return { flows: rng.times(3, () => { let f; do { f = genFlow(rng); } while (f.kind !== 'links'); return f; }), steps: rng.times(rng.int(1, 5), () => rng.pick(['data', 'size', 'align'])) }; },
  run(c, env) {
    withView({}, view => {
      const size = view.signal(300).id('size'), al = view.signal('justify').id('align');
      const data = view.data([{ links: c.flows[0].links }]).id('d').transform([{ type: 'sankey', width: { signal: 'size' }, height: 200, nodeAlign: { signal: 'align' } }]);
      view.run();
      let f = 0, w = 300, a = 'justify';
      const check = what => {
        const got = data.output(), exp = sankeyTransform({ width: w, height: 200, nodeAlign: a }, { links: c.flows[f].links });
        const flat = r => r.map(x => [x.nodes.map(n => [n.key, n.x0, n.x1, n.y0, n.y1]), x.links.map(l => [l.source, l.target, l.x0, l.x1, l.y0, l.y1, l.thickness])]);
        env.obs('live layouts compared');
        env.check(js(flat(got)) === js(flat(exp)), () => `sankey in a view ${what}: not the layout of the current data`);
      };
      check('at first');
      c.steps.forEach((s, i) => {
        if (s === 'data') { f = (f + 1) % 3; data.values([{ links: c.flows[f].links }]); }
        if (s === 'size') { w = w === 300 ? 450 : 300; size.value(w); }
        if (s === 'align') { a = { justify: 'left', left: 'right', right: 'center', center: 'justify' }[a]; al.value(a); }
        view.run();
        check(`after ${c.steps.slice(0, i + 1)}`);
      });
    });
  }
};
module.exports = {
  rule: 'The real layout runs over random acyclic flow graphs, keyed/indexed node lists and hierarchies with random options; oracles recompute the flow graph from the input and check values, layers, columns, room, order, proportions, link stacking and link shapes of the result.',
  quickSeconds: 60, thoroughSeconds: 600,
  mustObserve: ['links compared', 'node values compared', 'neighbours checked', 'layers in the box', 'heights compared', 'link ends checked', 'link shapes compared', 'live layouts compared'],
  pinned: [],
  scenarios: [flow, hier, live]
};
