'use strict';
// Utilities: every call of the exported helpers on generated inputs, judged by the helper's definition.
const V = require('../lib/view.cjs');
const U = V.vg.util;
const js = JSON.stringify;
const near = (a, b, s = 1) => a === b || Math.abs(a - b) <= 1e-9 * Math.max(1, Math.abs(a), Math.abs(b), s);
const TAU = Math.PI * 2;

// ---- access paths
const KEYS = ['a', 'b', 'value', 'x y', 'a.b', 'c[0]', "it's", 'say "hi"', '0', '12', 'a\\b', '.', '[', ']', 'constructor', 'length', '中文', 'a-b', '$'];
const esc = k => k.replace(/[\\.[\]'"]/g, m => '\\' + m);
function notation(rng, key, first) {
  const plain = /^[\w$\u4e00-\u9fff -]+$/.test(key);
  const opts = [[2, 'single'], [2, 'double'], [2, 'escaped']];
  if (plain) opts.push([5, 'dot'], [2, 'bracket']);
  const n = rng.wpick(opts);
  if (n === 'single') return `['${key.replace(/[\\']/g, m => '\\' + m)}']`;
  if (n === 'double') return `["${key.replace(/[\\"]/g, m => '\\' + m)}"]`;
  if (n === 'bracket') return `[${key}]`;
  return (first ? '' : '.') + (n === 'escaped' ? esc(key) : key);
}
const paths = {
  name: 'paths', weight: 2, quick: 6000,
  gen(rng) {
    const n = rng.int(1, 4), keys = rng.times(n, () => rng.pick(KEYS));
    return { keys, path: keys.map((k, i) => notation(rng, k, i === 0)).join(''), stop: rng.bool(0.25) ? rng.int(0, n - 1) : -1, stopValue: rng.pick([null, 3, 'str', undefined]), leaf: rng.pick([0, 1, '', 'v', null, false, [1, 2]]), more: rng.bool(0.3), fname: rng.bool(0.2) ? 'named' : null };
  },
  run(c, env) {
    const obj = {};
    let o = obj, expected = c.leaf;
    c.keys.forEach((k, i) => {
      const last = i === c.keys.length - 1;
      Object.defineProperty(o, k, { value: last ? c.leaf : i === c.stop ? c.stopValue : {}, enumerable: true, writable: true, configurable: true });
      if (!last && i === c.stop) o = null;
      if (o && !last) o = o[k];
      else if (!last) o = null;
      if (o === null && !last) { o = {}; expected = c.stopValue !== null && typeof c.stopValue === 'string' ? c.stopValue[c.keys[i + 1]] : undefined; if (i + 1 < c.keys.length - 1 || expected !== undefined) expected = undefined; }
    });
    const split = U.splitAccessPath(c.path);
    env.obs('paths split');
    env.saw('path', c.path);
    env.check(js(split) === js(c.keys), () => `splitAccessPath(${js(c.path)}) is ${js(split)}, the path names ${js(c.keys)}`);
    const f = U.field(c.path, c.fname);
    if (c.stop < 0 || c.stop >= c.keys.length - 1) {
      env.check(f(obj) === expected, () => `field(${js(c.path)}) of ${js(obj)} is ${js(f(obj))}, expected ${js(expected)}`);
      env.check(U.getter(c.keys)(obj) === expected, () => `getter(${js(c.keys)}) of ${js(obj)} gives something else than ${js(expected)}`);
    } else if (c.stopValue === null || c.stopValue === undefined) {
      let r, err = null;
      try { r = f(obj); } catch (e) { err = e; }
      env.check(!err && r === undefined, () => `field(${js(c.path)}) of ${js(obj)}, where the path stops, ${err ? 'throws ' + err.message : 'gives ' + js(r)}`);
    }
    const fields = c.keys.length === 1 ? c.keys : [c.path];
    env.check(js(U.accessorFields(f)) === js(fields), () => `accessorFields of field(${js(c.path)}) is ${js(U.accessorFields(f))}`);
    env.check(U.accessorName(f) === (c.fname || fields[0]), () => `accessorName of field(${js(c.path)}) is ${U.accessorName(f)}`);
    if (c.more) {
      const g = d => d, all = U.field([c.path, g, c.path]);
      const r = all(obj);
      env.check(Array.isArray(r) && r.length === 3 && r[0] === f(obj) && r[1] === obj && r[2] === f(obj), () => `field of a list of accessors gives ${js(r)}`);
      env.check(U.field(g) === g && U.identity(obj) === obj && U.zero(obj) === 0, 'function accessors are used as they are');
    }
  }
};

// ---- comparators
const KINDS = {
  number: rng => rng.wpick([[6, rng.int(-3, 3)], [2, rng.num(-2, 2, 2)], [1, NaN], [1, null], [1, undefined], [1, Infinity], [1, -Infinity], [1, -0]]),
  string: rng => rng.wpick([[6, rng.pick(['a', 'b', 'B', 'ab', '', '10', '9', 'é'])], [1, null], [1, undefined]]),
  date: rng => rng.wpick([[6, { $d: rng.int(0, 4) * 1e9 }], [1, { $d: null }], [1, null], [1, undefined]]),
  boolean: rng => rng.pick([true, false, null, undefined])
};
const SP = { NaN: NaN, Infinity, '-Infinity': -Infinity };
const enc = v => (typeof v === 'number' && !Number.isFinite(v) ? { $n: String(v) } : Object.is(v, -0) ? { $n: '-0' } : v === undefined ? { $n: 'u' } : v);
const dec = v => (v && typeof v === 'object' ? ('$d' in v ? new Date(v.$d === null ? NaN : v.$d) : '$n' in v ? (v.$n === '-0' ? -0 : v.$n === 'u' ? undefined : SP[v.$n]) : v) : v);
// nil < not-a-number < everything else by value
const rank = v => (v === null || v === undefined ? 0 : Number.isNaN(v instanceof Date ? +v : v) ? 1 : 2);
function cmp(a, b) {
  if (rank(a) !== rank(b)) return rank(a) < rank(b) ? -1 : 1;
  if (rank(a) < 2) return 0;
  const x = a instanceof Date ? +a : a, y = b instanceof Date ? +b : b;
  return x < y ? -1 : x > y ? 1 : 0;
}
const comparators = {
  name: 'comparators', weight: 2, quick: 5000,
  gen(rng) {
    const nf = rng.int(1, 3), kinds = rng.times(nf, () => rng.pick(Object.keys(KINDS)));
    const rows = rng.times(rng.int(2, 12), i => { const r = { id: i, in: {} }; kinds.forEach((k, j) => { const v = enc(KINDS[k](rng)); if (j === 2) r.in.f2 = v; else r['f' + j] = v; }); return r; });
    const orders = rng.wpick([[2, null], [4, rng.times(nf, () => rng.pick(['asc', 'desc', null]))], [nf === 1 ? 2 : 0, 'desc'], [1, ['desc']]]);
    return { kinds, rows, orders, forms: rng.times(nf, () => rng.pick(['path', 'path', 'fn'])), hole: Array.isArray(orders) && rng.bool(0.2) ? rng.int(0, nf) : -1, one: nf === 1 && rng.bool(0.5) };
  },
  run(c, env) {
    const rows = c.rows.map(r => { const o = {}; for (const k of Object.keys(r)) o[k] = k === 'in' ? Object.fromEntries(Object.entries(r.in).map(([a, b]) => [a, dec(b)])) : dec(r[k]); return o; });
    const get = j => (j === 2 ? d => d.in.f2 : d => d['f' + j]);
    let fields = c.kinds.map((k, j) => (c.forms[j] === 'fn' ? get(j) : j === 2 ? 'in.f2' : 'f' + j));
    let orders = c.orders;
    const list = orders === null ? [] : Array.isArray(orders) ? orders : [orders];
    const asc = c.kinds.map((k, j) => (list[j] === 'desc' ? -1 : 1));
    if (c.one) fields = fields[0];
    else if (c.hole >= 0) { // a missing field is skipped together with its order
      fields.splice(c.hole, 0, null);
      orders = c.kinds.map((k, j) => list[j] || null);
      orders.splice(c.hole, 0, 'desc');
    }
    const before = js([String(fields), orders]);
    const f = orders === null ? U.compare(fields) : U.compare(fields, orders);
    env.check(js([String(fields), orders]) === before, 'compare changes its arguments');
    const ref = (a, b) => { for (let j = 0; j < c.kinds.length; j++) { const r = cmp(get(j)(a), get(j)(b)); if (r) return r * asc[j]; } return 0; };
    for (const a of rows) for (const b of rows) {
      env.obs('pairs compared');
      const r = f(a, b), e = ref(a, b);
      env.check(Math.sign(r) === e || (r === 0 && e === 0), () => `comparing ${V.norm ? js(V.norm(a)) : ''} with ${js(V.norm(b))} by ${js(c.kinds)} ${js(c.orders)} gives ${r}, expected ${e}`);
    }
    for (const a of rows) for (const b of rows) for (let j = 0; j < c.kinds.length; j++) { const r = U.ascending(get(j)(a), get(j)(b)); env.check(Math.sign(r) === cmp(get(j)(a), get(j)(b)), () => `ascending of ${js(V.norm(get(j)(a)))} and ${js(V.norm(get(j)(b)))} is ${r}`); }
    const s1 = rows.slice().sort(f).map(r => r.id), s2 = rows.slice().sort(ref).map(r => r.id);
    env.check(js(s1) === js(s2), () => `sorting gives ${s1}, expected ${s2}`);
    env.check(U.compare([null]) === null && U.compare([]) === null, 'no field to compare by gives no comparator');
    const fs = c.kinds.map((k, j) => (c.forms[j] === 'fn' ? null : j === 2 ? 'in.f2' : 'f' + j)).filter(Boolean);
    env.check(js((U.accessorFields(f) || []).slice().sort()) === js(fs.slice().sort()), () => `the comparator reports the fields ${js(U.accessorFields(f))}`);
    env.saw('field kinds', c.kinds.join());
  }
};

// ---- statistics
const stats = {
  name: 'statistics', weight: 2, quick: 5000,
  gen(rng) {
    const big = rng.bool(0.3) ? rng.pick([1e3, 1e5]) : 0;
    const v = () => enc(rng.wpick([[8, () => rng.num(-50, 50, 2) + big], [2, () => rng.int(-5, 5)], [1, () => null], [1, () => undefined], [1, () => NaN], [1, () => 'abc'], [1, () => String(rng.int(-9, 9))]])());
    return { rows: rng.times(rng.int(0, 15), () => ({ x: v(), y: v() })), flat: rng.pick(['none', 'none', 'none', 'x', 'y', 'line']), k: rng.num(-3, 3, 2), b: rng.int(-20, 20), acc: rng.bool(), at: rng.times(3, () => rng.num(-100, 100, 1)) };
  },
  run(c, env) {
    const rows = c.rows.map(r => ({ x: c.flat === 'x' ? 7 : dec(r.x), y: c.flat === 'y' ? 3 : dec(r.y) }));
    if (c.flat === 'line') rows.forEach(r => { if (r.x !== null && r.x !== undefined) r.y = c.k * r.x + c.b; });
    const num = v => (v === null || v === undefined ? NaN : +v);
    // extent
    const xs = rows.map(r => num(r.x)).filter(v => !Number.isNaN(v));
    const ext = c.acc ? U.extent(rows, d => d.x) : U.extent(rows.map(r => r.x));
    env.obs('extents');
    const e = xs.length ? [Math.min(...xs), Math.max(...xs)] : [undefined, undefined];
    env.check(ext.length === 2 && ext[0] === e[0] && ext[1] === e[1], () => `extent of ${js(V.norm(rows.map(r => r.x)))} is ${js(ext)}, expected ${js(e)}`);
    // least squares
    const pts = rows.map(r => [num(r.x), num(r.y)]).filter(p => !Number.isNaN(p[0]) && !Number.isNaN(p[1]));
    const before = js(V.norm(rows));
    const reg = c.acc ? U.regressionLinear(rows.map(r => [r.x, r.y]), d => d[0], d => d[1]) : U.regressionLinear(rows);
    env.check(js(V.norm(rows)) === before, 'the data of a regression changes');
    if (!pts.length) { env.nontrivial = false; return; }
    const n = pts.length, mx = pts.reduce((s, p) => s + p[0], 0) / n, my = pts.reduce((s, p) => s + p[1], 0) / n;
    const sxx = pts.reduce((s, p) => s + (p[0] - mx) ** 2, 0), sxy = pts.reduce((s, p) => s + (p[0] - mx) * (p[1] - my), 0), syy = pts.reduce((s, p) => s + (p[1] - my) ** 2, 0);
    const scale = Math.max(1, Math.abs(mx));
    if (sxx > 1e-6 * n * scale) {
      const k = sxy / sxx, b = my - k * mx;
      env.obs('regressions compared');
      const tol = 1e-12 * scale * scale * n / (sxx / n) + 1e-9;
      const close = (p, q, s) => Math.abs(p - q) <= tol * Math.max(1, Math.abs(q), s) * 10;
      env.check(close(reg.coef[1], k, Math.abs(k)), () => `slope ${reg.coef[1]}, expected ${k}`);
      env.check(close(reg.coef[0], b, Math.abs(k * mx) + Math.abs(my)), () => `intercept ${reg.coef[0]}, expected ${b}`);
      c.at.forEach(x => env.check(near(reg.predict(x), reg.coef[0] + reg.coef[1] * x, Math.abs(reg.coef[0]) + Math.abs(reg.coef[1] * x)), () => `predict(${x}) is ${reg.predict(x)}`));
      if (syy > 1e-6 * n) {
        const r2 = (sxy * sxy) / (sxx * syy);
        env.check(Math.abs(reg.rSquared - r2) <= tol * 100 * Math.max(1, (my * my * n) / syy), () => `rSquared ${reg.rSquared}, expected ${r2}`);
      }
    } else if (sxx === 0 && mx === 7) {
      env.check(near(reg.coef[1], 0) && near(reg.coef[0], my, 1e3), () => `a vertical cloud of points gives ${js(reg.coef)}, expected the mean ${my}`);
    } else env.nontrivial = false;
  }
};

// ---- boxes, percentages, shapes
const POLY = { triangleForward: 3, triangle: 3, triangleUpright: 3, diamond: 4, pentagon: 5 };
const shapes = {
  name: 'shapes', weight: 1, quick: 2500,
  gen(rng) { return { shape: rng.pick(['triangleForward', 'triangle', 'triangleUpright', 'diamond', 'square', 'star', 'circle', 'cardioid', 'pentagon', 'nope']), th: rng.num(0, 6.28, 4), w: rng.int(20, 900), h: rng.int(20, 900), pct: rng.pick(['12%', '0%', '-30%', '33.3%', '150%', 20, 0, -4, null]), total: rng.num(-500, 500, 1), box: rng.pick([0, 1]) ? { width: rng.int(0, 300), height: rng.int(0, 300) } : { x0: rng.int(-300, 300), x1: rng.int(-300, 300), y0: rng.int(-300, 300), y1: rng.int(-300, 300) }, dir: rng.pick(['horizontal', 'vertical', 'top', 'left', 'bottom', 'right', 'x']) }; },
  run(c, env) {
    const f = U.getShapeFunction(c.shape), r = f(c.th), x = r * Math.cos(c.th), y = r * Math.sin(c.th);
    env.obs('outline points');
    env.saw('shape', c.shape);
    const P = t => [f(t) * Math.cos(t), f(t) * Math.sin(t)];
    env.check(Number.isFinite(r) && r >= -1e-9 && r <= 2 + 1e-6, () => `the radius of a ${c.shape} at ${c.th} is ${r}`);
    if (c.shape === 'circle' || c.shape === 'nope') env.check(r === 1, `a circle has radius ${r}`);
    if (c.shape === 'square') env.check(near(Math.max(Math.abs(x), Math.abs(y)), 1), () => `(${x},${y}) is not on the unit square`);
    if (c.shape === 'diamond') env.check(near(Math.abs(x) + Math.abs(y), 1), () => `(${x},${y}) is not on the unit diamond`);
    if (c.shape === 'cardioid') env.check(near(r, 1 + Math.sin(c.th)), () => `cardioid radius ${r} at ${c.th}`);
    const off = c.shape === 'pentagon' || c.shape === 'star' ? 0.955 : c.shape === 'triangle' || c.shape === 'triangleUpright' ? (Math.PI * 3) / 2 : 0;
    if (POLY[c.shape]) {
      // on the side between the two corners next to it, and the same every 1/n of a turn
      const n = POLY[c.shape], step = TAU / n, k = Math.floor((c.th + off) / step), a = k * step - off, b = a + step;
      const A = [Math.cos(a), Math.sin(a)], B = [Math.cos(b), Math.sin(b)];
      const d = ((B[0] - A[0]) * (y - A[1]) - (B[1] - A[1]) * (x - A[0])) / Math.hypot(B[0] - A[0], B[1] - A[1]);
      env.check(Math.abs(d) < 1e-4, () => `the point of a ${c.shape} at ${c.th} lies ${d} off its side`);
      env.check(Math.abs(f(c.th + step) - r) < 1e-4, () => `a ${c.shape} is not the same after 1/${n} of a turn`);
    }
    if (c.shape === 'star') {
      env.check(Math.abs(f(c.th + TAU / 5) - r) < 1e-4 && r <= 1 + 1e-6 && r >= 0.38, () => `the star has radius ${r} at ${c.th}`);
      const m = (((c.th + off) % (TAU / 5)) + TAU / 5) % (TAU / 5);
      env.check(Math.abs(f(c.th - m + (TAU / 5 - m) + (c.th - m < m ? TAU : 0)) - r) < 1e-4, () => `the star is not symmetric at ${c.th}`);
    }
    if (c.shape !== 'nope' && c.shape !== 'cardioid') {
      const m = U.getMaxRadiusAndCenter(c.shape, [c.w, c.h]);
      env.check(m.maxRadius > 0 && m.maxRadius >= Math.min(c.w, c.h) / 2 / 1.2 - 1, () => `${c.shape} in ${c.w}x${c.h} has radius ${m.maxRadius}`);
      // canvas y points down, angles turn counterclockwise: upright triangles stand on their flat side
      const px = m.center[0] + m.maxRadius * Math.cos(c.th) * r, py = m.center[1] - m.maxRadius * Math.sin(c.th) * r;
      env.check(px >= -1.01 && px <= c.w + 1.01 && py >= -1.01 && py <= c.h + 1.01, () => `${c.shape} in ${c.w}x${c.h} reaches (${px},${py})`);
    }
    const pc = U.toPercent(c.pct === null ? (c.w % 2 ? null : undefined) : c.pct, c.total), pe = c.pct === null ? c.total : typeof c.pct === 'string' ? (parseFloat(c.pct) * c.total) / 100 : c.pct;
    env.check(near(pc, pe), () => `toPercent(${js(c.pct)}, ${c.total}) is ${pc}`);
    const vb = U.parseViewBox(c.box), b = c.box;
    const be = 'width' in b ? { x0: 0, x1: b.width, y0: 0, y1: b.height, width: b.width, height: b.height } : { x0: Math.min(b.x0, b.x1), x1: Math.max(b.x0, b.x1), y0: Math.min(b.y0, b.y1), y1: Math.max(b.y0, b.y1), width: Math.abs(b.x1 - b.x0), height: Math.abs(b.y1 - b.y0) };
    env.check(Object.keys(be).every(k => vb[k] === be[k]), () => `parseViewBox(${js(b)}) is ${js(vb)}`);
    const d = c.dir;
    env.check(U.isHorizontal(d) === (d === 'horizontal') && U.isVertical(d) === (d === 'vertical') && U.isValidDirection(d) === (d === 'horizontal' || d === 'vertical') && U.isValidPosition(d) === ['top', 'bottom', 'left', 'right'].includes(d) && U.isHorizontalPosition(d) === (d === 'top' || d === 'bottom'), () => `direction helpers about ${d}`);
  }
};

module.exports = {
  rule: 'each call of an exported helper returns what its definition gives for the same input, and leaves the input alone',
  assumptions: ['values compared under one field are of one kind (numbers, strings, dates or booleans) or missing: JavaScript itself does not order mixed kinds', 'regressions are compared when the x values spread enough for the slope to be determined in double precision'],
  quickSeconds: 60,
  mustObserve: ['paths split', 'pairs compared', 'extents', 'regressions compared', 'outline points'],
  scenarios: [paths, comparators, stats, shapes]
};
