'use strict';
// Scales: real scales inside views are compared, after every edit of their declaration, with what the present
// declaration denotes (own extents and mapping formulas; d3-style niceness and quantiles from the scale library).
const V = require('../lib/view.cjs');
const S = V.vg.vscale;
const js = JSON.stringify;
const clone = x => JSON.parse(js(x));
const near = (a, b, s = 1) => a === b || (a !== a && b !== b) || Math.abs(a - b) <= 1e-7 * Math.max(1, Math.abs(a), Math.abs(b), s);
const CONT = ['linear', 'sqrt', 'pow', 'log', 'symlog', 'time', 'utc'];
const HALF = a => b => t => a + (b - a) * t * t;
const INTERP = (a, b) => t => a + (b - a) * t * t;
const CLAMPF = x => Math.max(1, Math.min(7, x));

// ---------- generation
const numVal = (rng, type, odd) => rng.wpick([
  [8, () => (type === 'log' ? rng.num(0.2, 500, 2) : type === 'time' || type === 'utc' ? 1.6e12 + rng.int(0, 1e9) * 60 : rng.num(-40, 120, 1))],
  [odd ? 1 : 0, () => null], [odd ? 1 : 0, () => 'n/a'], [odd ? 1 : 0, () => undefined]
])();
const CATS = ['A', 'B', 'C', 'D', 'E', 1, 2, 'null', 'x y', ''];
function genTable(rng, type, odd) {
  const n = rng.int(1, 7);
  const rows = rng.times(n, () => ({ a: numVal(rng, type, odd), b: numVal(rng, type, odd), n: { v: numVal(rng, type, odd) }, c: rng.pick(CATS), e: rng.pick(CATS) }));
  // at least two distinct usable numbers per column
  for (const f of ['a', 'b']) rows.push({ ...clone(rows[0]), [f]: type === 'log' ? 3.5 : type === 'time' || type === 'utc' ? 1.61e12 : 17 }, { ...clone(rows[0]), [f]: type === 'log' ? 44 : type === 'time' || type === 'utc' ? 1.63e12 : -3 });
  rows.push({ a: rows[0].a, b: rows[0].b, n: { v: type === 'log' ? 6 : 9 }, c: 'A', e: 'B' }, { a: rows[0].a, b: rows[0].b, n: { v: type === 'log' ? 61 : 61e9 > 1 && (type === 'time' || type === 'utc') ? 1.64e12 : 61 }, c: 'A', e: 'B' });
  return rng.shuffle(rows);
}
const disc = t => ['band', 'point', 'ordinal'].includes(t);
function genDomain(rng, type) {
  const num = !disc(type);
  const f = () => (num ? rng.pick(['a', 'b', 'n.v']) : rng.pick(['c', 'e']));
  if (type === 'threshold') return { src: rng.pick(['lit', 'sig', 'cb']), v: rng.sample([-10, 0, 5, 17, 40, 80], rng.int(1, 4)).sort((a, b) => a - b) };
  const sorts = num ? [undefined] : [undefined, undefined, 'asc', 'desc'];
  return rng.wpick([
    [3, () => ({ src: 'field', data: rng.pick(['d1', 'd2']), field: f(), sort: rng.pick(sorts) })],
    [2, () => ({ src: 'field', data: 'd1', field: rng.shuffle(num ? ['a', 'b', 'n.v'] : ['c', 'e']).slice(0, 2), sort: rng.pick(sorts) })],
    [2, () => ({ src: 'multi', datas: [{ data: 'd1', field: f() }, { data: 'd2', field: rng.bool() ? f() : [f()] }], sort: rng.pick(sorts) })],
    [3, () => ({ src: rng.pick(['lit', 'sig', 'cb']), v: lit(rng, type) })]
  ])();
}
function lit(rng, type) {
  if (disc(type)) return rng.sample(CATS, rng.int(1, 6));
  if (type === 'quantile') return rng.times(rng.int(3, 12), () => rng.num(-10, 50, 1));
  const a = type === 'log' ? rng.num(0.1, 5, 2) : type === 'time' || type === 'utc' ? 1.6e12 : rng.num(-50, 50, 1);
  const b = type === 'log' ? rng.num(8, 4000, 1) : type === 'time' || type === 'utc' ? 1.6e12 + rng.int(1, 1e9) * 60 : a + rng.num(0.5, 200, 1);
  return type === 'linear' && rng.bool(0.15) ? [b, a] : [a, b];
}
function genRange(rng, type) {
  if (type === 'identity') return { src: 'none' };
  if (type === 'ordinal' || type === 'quantile' || type === 'threshold') return { src: rng.pick(['lit', 'sig', 'cb']), v: rng.sample(['red', 'green', 'blue', 'pink', 'gray'], rng.int(1, 4)) };
  if (type === 'quantize') return { src: rng.pick(['lit', 'sig', 'cb']), v: rng.sample(['red', 'green', 'blue', 'pink', 'gray'], rng.int(2, 5)) };
  const r = rng.bool(0.3) ? [rng.int(200, 400), rng.int(0, 50)] : [rng.int(0, 50), rng.int(100, 400)];
  return rng.wpick([[3, () => ({ src: rng.pick(['lit', 'sig', 'cb']), v: r })], [2, () => ({ src: 'coord', dim: rng.pick(['x', 'y']), rev: rng.bool(0.4), sub: rng.bool(0.2) })],
    [CONT.includes(type) ? 1 : 0, () => ({ src: 'data', data: 'dr', field: rng.bool() ? 'u' : ['u', 'w'] })]])();
}
const OPTS = {
  linear: ['nice', 'niceMin', 'niceMax', 'zero', 'min', 'max', 'roundRange', 'config', 'unknown', 'tickCount'],
  sqrt: ['nice', 'zero', 'min', 'max', 'roundRange', 'config', 'unknown'], pow: ['nice', 'zero', 'min', 'max', 'roundRange', 'config', 'exponent', 'unknown'],
  symlog: ['nice', 'zero', 'min', 'max', 'roundRange', 'config', 'constant'], log: ['nice', 'base', 'max', 'roundRange', 'config', 'unknown'], time: ['nice', 'roundRange', 'config', 'unknown'], utc: ['nice', 'roundRange', 'config'],
  band: ['padding', 'paddingInner', 'paddingOuter', 'align', 'round', 'unknown'], point: ['padding', 'align', 'round', 'unknown', 'paddingOuter'], ordinal: ['unknown'], quantize: ['nice', 'zero', 'min', 'max', 'unknown'], quantile: ['unknown'], threshold: ['unknown'], identity: []
};
const optVal = (rng, k, type) => {
  switch (k) {
    case 'nice': return rng.pick([true, true, false, 3, 5, 20]);
    case 'niceMin': case 'niceMax': return rng.pick([true, false, 4]);
    case 'zero': case 'roundRange': case 'round': return rng.bool(0.75);
    case 'min': return rng.int(-80, 10);
    case 'max': return rng.int(60, 900);
    case 'padding': case 'paddingInner': case 'paddingOuter': return rng.pick([0, 0.1, 0.25, 0.5, 1]);
    case 'align': return rng.pick([0, 0.5, 1, 0.3]);
    case 'unknown': return rng.pick(['gray', -99, 0]);
    case 'exponent': return rng.pick([0.5, 1, 2, 3]);
    case 'constant': return rng.pick([0.5, 1, 10]);
    case 'base': return rng.pick([2, 10, Math.E, 4]);
    case 'tickCount': return rng.pick([2, 5, 9]);
    case 'config': return rng.pick([{ clamp: true }, { clamp: false }, { clampF: 1 }, { interp: 1 }, { clamp: true, interp: 1 }]);
  }
};
const noSig = k => k === 'config';
function genOpts(rng, type, p) {
  const o = {};
  for (const k of OPTS[type]) if (rng.bool(p)) o[k] = { how: noSig(k) ? rng.pick(['lit', 'cb']) : rng.pick(['lit', 'lit', 'sig', 'cb']), v: optVal(rng, k, type) };
  return o;
}
function genScale(rng, i, tier) {
  const type = ['linear', 'band', 'linear', 'point', 'sqrt', 'pow', 'log', 'symlog', 'time', 'utc', 'ordinal', 'quantize', 'quantile', 'threshold', 'identity', 'band'][i % 16];
  const odd = rng.bool(0.3) && !['time', 'utc'].includes(type);
  const edits = rng.times(rng.int(0, 5), () => rng.wpick([
    [4, () => { const k = OPTS[type].length ? rng.pick(OPTS[type]) : null; return k ? { op: 'opt', key: k, v: { how: noSig(k) ? 'lit' : rng.pick(['lit', 'sig', 'cb']), v: optVal(rng, k, type) } } : { op: 'reset' }; }],
    [2, () => ({ op: 'domain', v: genDomain(rng, type) })],
    [2, () => ({ op: 'range', v: genRange(rng, type) })],
    [3, () => ({ op: 'data', which: rng.pick(['d1', 'd2']), rows: genTable(rng, type, odd) })],
    [3, () => ({ op: 'sig', pick: rng.int(0, 50), seed: rng.int(1, 1e6) })],
    [1, () => ({ op: 'reset' })],
    [1, () => ({ op: 'coord', conf: { start: [rng.int(0, 40), rng.int(0, 40)], end: [rng.int(100, 300), rng.int(100, 300)], transpose: rng.bool(0.3) } })],
    [CONT.includes(type) && type !== 'log' || type === 'band' || type === 'point' ? 2 : 0, () => ({ op: 'factor', v: rng.pick([null, [0, 0.5], [0.25, 0.75], [0.6, 1], [0, 1]]) })]
  ])());
  return { type, d1: genTable(rng, type, odd), d2: genTable(rng, type, odd), dr: rng.times(rng.int(2, 5), () => ({ u: rng.int(0, 100), w: rng.int(150, 300) })).concat([{ u: 5, w: 7 }, { u: 90, w: 200 }]),
    domain: genDomain(rng, type), range: genRange(rng, type), opts: genOpts(rng, type, 0.3), edits, viaSpec: rng.bool(), coord: { start: [rng.int(0, 40), rng.int(0, 40)], end: [rng.int(100, 300), rng.int(100, 300)], transpose: rng.bool(0.3) } };
}

// ---------- what a declaration denotes
const path = (d, p) => p.split('.').reduce((o, k) => (o === undefined || o === null ? undefined : o[k]), d);
const usable = v => v !== null && v !== undefined && v === v && typeof v === 'number';
const column = (rows, field) => (Array.isArray(field) ? field.flatMap(f => rows.map(d => path(d, f))) : rows.map(d => path(d, field)));
const CMP = { asc: (a, b) => (String(a) < String(b) ? -1 : String(a) > String(b) ? 1 : 0), desc: (a, b) => (String(a) < String(b) ? 1 : String(a) > String(b) ? -1 : 0) };
function domainOf(m) {
  const d = m.domain;
  if (d.src === 'lit' || d.src === 'sig' || d.src === 'cb') return d.v.slice();
  let vals = d.src === 'field' ? column(m[d.data], d.field) : d.datas.flatMap(x => column(m[x.data], x.field));
  if (d.sort) vals = vals.slice().sort(CMP[d.sort]);
  if (disc(m.type) || m.type === 'identity') return vals;
  const nums = vals.filter(usable);
  if (m.type === 'quantile') return nums;
  return [Math.min(...nums), Math.max(...nums)];
}
function rangeOf(m) {
  const r = m.range;
  if (r.src === 'none') return undefined;
  if (r.src === 'coord') {
    const c = m.coord, x = [c.start[0], c.end[0]], y = [c.end[1], c.start[1]];
    const res = (r.dim === 'x') !== !!c.transpose ? x : y;
    return r.rev ? res.reverse() : res;
  }
  if (r.src === 'data') { const v = column(m.dr, r.field); return [Math.min(...v), Math.max(...v)]; }
  return r.v.slice();
}
const T = {
  linear: () => x => x, time: () => x => x, utc: () => x => x,
  sqrt: () => x => (x < 0 ? -Math.sqrt(-x) : Math.sqrt(x)),
  pow: o => x => (x < 0 ? -Math.pow(-x, o.exponent) : Math.pow(x, o.exponent)),
  log: o => x => Math.log(x) / Math.log(o.base),
  symlog: o => x => Math.sign(x) * Math.log1p(Math.abs(x / o.constant))
};
const LIB = { linear: 'LinearScale', sqrt: 'SqrtScale', pow: 'PowScale', log: 'LogScale', symlog: 'SymlogScale', time: 'TimeScale', utc: 'TimeScale', quantize: 'QuantizeScale' };
/** domain after niceness and the zero/min/max extension */
function finalDomain(m, o) {
  let d = domainOf(m);
  if (d.length !== 2) return d;
  const lib = m.type === 'utc' ? new S.TimeScale(true) : new S[LIB[m.type]]();
  if (m.type === 'log' && o.base) lib.base(o.base);
  if (m.type === 'symlog' && o.constant) lib.constant(o.constant);
  if (m.type === 'pow' && o.exponent) lib.exponent(o.exponent);
  if (m.type === 'quantize') lib.range(['p', 'q', 'r']); // niceness does not depend on the range
  lib.domain(d);
  if (o.nice === true) lib.nice(); else if (typeof o.nice === 'number') lib.nice(o.nice);
  if (o.niceMax === true) lib.niceMax(); else if (typeof o.niceMax === 'number') lib.niceMax(o.niceMax);
  if (o.niceMin === true) lib.niceMin(); else if (typeof o.niceMin === 'number') lib.niceMin(o.niceMin);
  d = Array.from(lib.domain(), Number);
  const has = k => typeof o[k] === 'number';
  if (o.zero || has('min') || has('max')) {
    let lo = Math.min(...d), hi = Math.max(...d);
    if (o.zero) { lo = Math.min(lo, 0); hi = Math.max(hi, 0); }
    if (has('min') && !(o.zero && Math.min(...d) > 0)) lo = Math.min(lo, o.min);
    if (has('max') && !(o.zero && Math.max(...d) < 0)) hi = Math.max(hi, o.max);
    d = [lo, hi];
  } else if (o.tickCount && m.type === 'linear') { lib.range(rangeOf(m)); lib.tickData(o.tickCount); d = Array.from(lib.domain(), Number); }
  return d;
}
function verify(m, scale, env, tag) {
  const o = {};
  for (const k of Object.keys(m.opts)) o[k] = m.opts[k].v;
  const at = (v, exp, what) => { const got = scale.scale(v); env.obs('values mapped'); env.check(typeof exp === 'number' ? typeof got === 'number' && near(got, exp, 500) : got === exp, () => `${tag}: ${m.type} maps ${js(v)} to ${js(got)}, the declaration denotes ${js(exp)} ${what || ''} (${describe(m)})`); };
  const rng = rangeOf(m);
  if (CONT.includes(m.type)) {
    const d = finalDomain(m, o);
    const got = Array.from(scale.domain(), Number);
    env.obs('domains compared');
    env.check(got.length === d.length && got.every((v, i) => near(v, d[i], Math.abs(d[1] - d[0]) || 1)), () => `${tag}: ${m.type} domain is ${js(got)}, the declaration denotes ${js(d)} (${describe(m)})`);
    if (m.domain.src === 'field' || m.domain.src === 'multi') { const e = domainOf(m); env.check(got[0] <= e[0] + 1e-9 && got[1] >= e[1] - 1e-9, () => `${tag}: domain ${js(got)} does not cover the data ${js(e)}`); }
    const t = T[m.type]({ exponent: o.exponent > 0 ? o.exponent : 1, base: o.base > 0 ? o.base : 10, constant: typeof o.constant === 'number' ? o.constant : 1 });
    let [r0, r1] = rng;
    if (m.factor) { const k = (r1 - r0) / (m.factor[1] - m.factor[0]); r0 = r0 - k * m.factor[0]; r1 = r0 + k; }
    const cfg = o.config || {};
    const clampv = cfg.clampF ? CLAMPF : cfg.clamp ? x => Math.max(Math.min(...d), Math.min(Math.max(...d), x)) : x => x;
    const vals = [d[0], d[1], (d[0] + d[1]) / 2, d[0] + (d[1] - d[0]) * 0.21].concat(m.type === 'log' ? d[1] * 1.5 : [d[1] + (d[1] - d[0]) * 0.4, d[0] - (d[1] - d[0]) * 0.3]);
    for (const v of vals) {
      const u = (t(clampv(v)) - t(d[0])) / (t(d[1]) - t(d[0]));
      if (o.roundRange && !cfg.interp && Math.abs((r0 + (r1 - r0) * u) % 1 - 0.5) < 1e-6) continue; // rounding ties
      const y = cfg.interp ? (d[1] < d[0] ? INTERP(r1, r0)(1 - u) : INTERP(r0, r1)(u)) : r0 + (r1 - r0) * u;
      at(v, o.roundRange && !cfg.interp ? Math.round(y) : y);
    }
    if (!cfg.interp) at('nope', o.unknown === undefined ? undefined : o.unknown, 'for an unknown value');
    if (!m.factor && !cfg.interp && !o.roundRange && r0 !== r1 && !cfg.clamp && !cfg.clampF) {
      const mid = (d[0] + d[1]) / 2, back = Number(scale.invert(scale.scale(mid)));
      env.check(near(back, mid, Math.abs(d[1] - d[0])), () => `${tag}: inverting gives ${back} instead of ${mid}`);
    }
  } else if (m.type === 'band' || m.type === 'point') {
    const cats = []; domainOf(m).forEach(v => { if (!cats.some(c => `${c}` === `${v}`)) cats.push(v); });
    env.obs('domains compared');
    env.check(js(scale.domain()) === js(cats), () => `${tag}: domain is ${js(scale.domain())}, the declaration denotes ${js(cats)} (${describe(m)})`);
    let pi = 0, po = 0;
    if (m.type === 'point') { pi = 1; for (const k of ['padding', 'paddingOuter']) if (o[k] !== undefined) po = o[k]; po = Math.max(0, Math.min(1, po)); } else {
      if (o.padding !== undefined) pi = po = o.padding;
      if (o.paddingInner !== undefined) pi = o.paddingInner;
      if (o.paddingOuter !== undefined) po = o.paddingOuter;
    }
    const align = o.align === undefined ? 0.5 : o.align;
    let [r0, r1] = rng;
    if (m.factor) { const k = (r1 - r0) / (m.factor[1] - m.factor[0]); r0 = r0 - k * m.factor[0]; r1 = r0 + k; }
    const rev = r1 < r0, lo = Math.min(r0, r1), hi = Math.max(r0, r1), n = cats.length;
    const space = n === 1 ? n + po * 2 : n - pi + po * 2; // one band takes the inner padding too
    let step = (hi - lo) / Math.max(1, space);
    if (o.round) step = Math.floor(step);
    let start = lo + (hi - lo - step * (n - pi)) * align;
    if (o.round) start = Math.round(start);
    let bw = step * (1 - pi);
    if (o.round) bw = Math.round(bw);
    env.check(near(scale.bandwidth(), bw) && near(scale.step(), step), () => `${tag}: bandwidth ${scale.bandwidth()} step ${scale.step()}, the declaration denotes ${bw} and ${step} (${describe(m)})`);
    cats.forEach((c, i) => at(c, start + (rev ? n - 1 - i : i) * step, `band ${i} of ${n}`));
    if (o.unknown !== undefined) at('~none~', o.unknown, 'for an unknown value');
  } else if (m.type === 'ordinal') {
    const cats = []; domainOf(m).forEach(v => { if (!cats.some(c => `${c}` === `${v}`)) cats.push(v); });
    env.obs('domains compared');
    env.check(js(scale.domain()) === js(cats), () => `${tag}: domain is ${js(scale.domain())}, the declaration denotes ${js(cats)} (${describe(m)})`);
    cats.forEach((c, i) => at(c, rng[i % rng.length]));
    if (o.unknown !== undefined) at('~none~', o.unknown, 'for an unknown value');
  } else if (m.type === 'quantize') {
    const d = finalDomain(m, o), n = rng.length;
    for (const f of [-0.2, 0.03, 0.26, 0.41, 0.58, 0.77, 0.97, 1.3]) {
      const pos = f * n; if (Math.abs(pos - Math.round(pos)) < 1e-6) continue;
      at(d[0] + (d[1] - d[0]) * f, rng[Math.max(0, Math.min(n - 1, Math.floor(pos)))], `with quantised domain ${js(d)}`);
    }
    if (o.unknown !== undefined) at(NaN, o.unknown, 'for an unknown value');
  } else if (m.type === 'quantile') {
    const s = domainOf(m).sort((a, b) => a - b), n = rng.length;
    const q = p => { const h = (s.length - 1) * p, i = Math.floor(h); return s[i] + ((s[i + 1] === undefined ? s[i] : s[i + 1]) - s[i]) * (h - i); };
    const cuts = []; for (let i = 1; i < n; i++) cuts.push(q(i / n));
    for (const v of s.concat([s[0] - 5, s[s.length - 1] + 5])) { if (cuts.some(c => Math.abs(c - v) < 1e-9)) continue; at(v, rng[cuts.filter(c => c < v).length], `with cuts ${js(cuts)}`); }
    if (o.unknown !== undefined) at(NaN, o.unknown, 'for an unknown value');
  } else if (m.type === 'threshold') {
    const cuts = domainOf(m), k = Math.min(cuts.length, rng.length - 1);
    for (const v of [-100, 3, 16, 39, 41, 500]) at(v, rng[cuts.slice(0, k).filter(c => c <= v).length], `with thresholds ${js(cuts)}`);
    if (o.unknown !== undefined) at('nope', o.unknown, 'for an unknown value');
  } else if (m.type === 'identity') for (const v of domainOf(m)) at(v, v);
}
const describe = m => { const x = { type: m.type, domain: m.domain, range: m.range, opts: {}, factor: m.factor }; for (const k of Object.keys(m.opts)) x.opts[k] = m.opts[k].v; return js(x); };

async function runScale(c, env) {
  await V.withView({}, async view => {
    const m = { type: c.type, domain: c.domain, range: c.range, opts: clone(c.opts), d1: clone(c.d1), d2: clone(c.d2), dr: c.dr, coord: c.coord, factor: null };
    const data = {}; for (const k of ['d1', 'd2', 'dr']) data[k] = view.data(clone(m[k])).id(k);
    const co = view.coordinate('cartesian').id('co').start(m.coord.start).end(m.coord.end).transpose(m.coord.transpose);
    const sigs = []; // {sig, apply(v)}
    let ns = 0;
    const val = (how, v, set) => {
      if (how === 'lit') return v;
      const id = 's' + ns++;
      const sig = view.signal(v).id(id);
      sigs.push({ sig, set, id });
      return how === 'sig' ? { signal: id } : { callback: (sc, p) => p[id], dependency: [id] };
    };
    const dom = d => {
      if (d.src === 'field') return { data: d.data, field: d.field, ...(d.sort ? { sort: CMP[d.sort] } : {}) };
      if (d.src === 'multi') return { datas: clone(d.datas), ...(d.sort ? { sort: CMP[d.sort] } : {}) };
      return val(d.src, d.v.slice(), x => { if (m.domain === d || m.domain.tag === d.tag) m.domain = { ...m.domain, v: x }; });
    };
    let tagn = 0;
    const useDomain = d => { m.domain = { ...d, tag: ++tagn }; return dom(m.domain); };
    const useRange = r => {
      m.range = { ...r, tag: ++tagn };
      const g = m.range.tag;
      if (r.src === 'none') return undefined;
      if (r.src === 'coord') return { coordinate: 'co', dimension: r.dim, reversed: r.rev, isSubshaft: r.sub };
      if (r.src === 'data') return { data: 'dr', field: r.field };
      return val(r.src, r.v.slice(), x => { if (m.range.tag === g) m.range = { ...m.range, v: x }; });
    };
    const real = v => (v && typeof v === 'object' && !Array.isArray(v) ? { ...('clamp' in v ? { clamp: v.clamp } : {}), ...(v.clampF ? { clamp: CLAMPF } : {}), ...(v.interp ? { interpolate: (a, b) => INTERP(a, b) } : {}) } : v);
    const useOpt = (k, e) => {
      m.opts[k] = { ...e, tag: ++tagn };
      const g = tagn;
      if (k === 'config') return e.how === 'cb' ? () => real(e.v) : real(e.v);
      return val(e.how, e.v, x => { if (m.opts[k] && m.opts[k].tag === g) m.opts[k] = { ...m.opts[k], v: x }; });
    };
    const d0 = useDomain(c.domain), r0 = useRange(c.range), o0 = {};
    for (const k of Object.keys(c.opts)) o0[k] = useOpt(k, c.opts[k]);
    let sc;
    if (c.viaSpec) { sc = view.scale(c.type); sc.parse({ id: 'sc', type: c.type, domain: d0, range: r0, ...o0 }); } else { sc = view.scale(c.type).id('sc').domain(d0).range(r0); if (Object.keys(o0).length) sc.configure(o0); }
    const skip = () => ambiguous(m);
    const step = async tag => {
      await view.run();
      if (skip()) { extentOnly(m, sc.output(), env, tag); env.obs('ambiguous declarations skipped'); return; }
      verify(m, sc.output(), env, tag);
      if (m.range.src === 'coord' && m.type !== 'identity') {
        const k = co.output();
        env.obs('axis placements compared');
        env.check(sc.getCoordinate() === k && js(sc.getCoordinateAxisPoints()) === js(k.getAxisPointsByDimension(m.range.dim, m.range.sub, m.range.rev)) && sc.getCoordinateAxisPosition() === k.getVisualPositionByDimension(m.range.dim, m.range.sub, m.range.rev), () => `${tag}: axis placement ${js(sc.getCoordinateAxisPoints())} ${sc.getCoordinateAxisPosition()}`);
      }
      if (['linear', 'band', 'point'].includes(m.type) && !m.factor && m.opts.config === undefined && !(m.opts.nice || m.opts.niceMin || m.opts.niceMax)) {
        const s = sc.output(), r = s.range(), ticks = sc.ticks(5), dd = s.domain();
        ticks.forEach((t, i) => {
          env.obs('ticks compared');
          env.check(m.type === 'linear' ? t.tick >= Math.min(...dd) - 1e-9 && t.tick <= Math.max(...dd) + 1e-9 : dd.includes(t.tick), () => `${tag}: tick ${js(t)} outside the domain ${js(dd)}`);
          const w = (s.scale(t.tick) - r[0] + (s.bandwidth ? s.bandwidth() / 2 : 0)) / (r[1] - r[0]);
          env.check(near(t.value, w), () => `${tag}: tick ${js(t)} should be at ${w}`);
        });
      }
    };
    await step('initial');
    for (let i = 0; i < c.edits.length; i++) {
      const e = c.edits[i];
      switch (e.op) {
        case 'opt': sc.configure({ [e.key]: useOpt(e.key, e.v) }); break;
        case 'reset': sc.configure(null); m.opts = {}; break;
        case 'domain': sc.domain(useDomain(e.v)); break;
        case 'range': if (c.type !== 'identity') sc.range(useRange(e.v)); break;
        case 'data': data[e.which].values(clone(e.rows)); m[e.which] = clone(e.rows); break;
        case 'coord': co.start(e.conf.start).end(e.conf.end).transpose(e.conf.transpose); m.coord = e.conf; break;
        case 'factor': sc.setRangeFactor(e.v); sc.commit(); m.factor = e.v && (e.v[0] !== 0 || e.v[1] !== 1) ? e.v : null; break;
        case 'sig': {
          if (!sigs.length) break;
          const s = sigs[e.pick % sigs.length], v = s.sig.output();
          const f = e.seed % 7;
          const nv = typeof v === 'boolean' ? !v : typeof v === 'number' ? (v < 0 ? v - f : v > 1 ? v + f : v) : Array.isArray(v) ? (typeof v[0] === 'number' && v.length === 2 && c.type !== 'threshold' ? [v[0], v[1] + f * (v[1] > v[0] ? 1 : -1) / 10] : v.slice(0, Math.max(c.type === 'quantize' || c.type === 'quantile' ? 2 : 1, v.length - 1))) : v;
          if (js(nv) === js(v)) break;
          s.sig.value(nv); s.set(nv);
          break;
        }
      }
      env.saw('edit kind', `${c.type} ${e.op}${e.key || ''}`);
      await step(`after edit ${i} ${js(e).slice(0, 120)}`);
    }
  });
}
/** declarations whose meaning the documentation leaves open */
function ambiguous(m) {
  const o = m.opts, v = k => (o[k] ? o[k].v : undefined);
  if (v('niceMin') && v('niceMax') || (v('nice') && (v('niceMin') || v('niceMax')))) return true;
  const d = domainOf(m);
  const reversed = d.length === 2 && typeof d[0] === 'number' && d[0] > d[1];
  if (reversed && ['nice', 'niceMin', 'niceMax', 'zero', 'min', 'max', 'tickCount'].some(k => o[k])) return true;
  if (m.type === 'linear' && v('tickCount') && (v('niceMin') || v('niceMax'))) return true;
  if (m.type === 'log' && v('config') && v('config').clampF) return false;
  if (d.length === 2 && d[0] === d[1] && CONT.concat('quantize').includes(m.type)) return true;
  return false;
}

/** a reversed literal domain with a minimum, a maximum or zero: which end comes first is open, what it covers is not */
function extentOnly(m, s, env, tag) {
  const o = m.opts, v = k => (o[k] ? o[k].v : undefined), d = domainOf(m);
  if (!['linear', 'sqrt', 'pow', 'symlog', 'quantize'].includes(m.type) || !(d.length === 2 && d[0] > d[1]) || ['nice', 'niceMin', 'niceMax', 'tickCount', 'config'].some(k => v(k))) return;
  let lo = d[1], hi = d[0];
  if (typeof v('min') === 'number') lo = Math.min(lo, v('min'));
  if (typeof v('max') === 'number') hi = Math.max(hi, v('max'));
  if (v('zero')) { if (v('min') !== undefined || v('max') !== undefined) return; lo = Math.min(lo, 0); hi = Math.max(hi, 0); }
  const got = s.domain();
  env.obs('extents of reversed domains compared');
  env.check(near(Math.min(...got), lo) && near(Math.max(...got), hi), () => `${tag}: ${m.type} domain ${js(got)} does not extend from ${lo} to ${hi}`);
}

module.exports = {
  rule: 'after every edit the evaluated scale has the domain and maps values as the present declaration denotes',
  assumptions: ['niceness, quantiles and time intervals themselves are those of the installed scale library', 'contradicting options (zero with a negative min above zero data, nice of only one end together with nice, niceness of reversed literal domains) are not judged'],
  mustObserve: ['values mapped', 'domains compared', 'axis placements compared', 'ticks compared'],
  pinned: [],
  scenarios: [{ name: 'scale', quick: 4000, thorough: 120000, gen: genScale, run: runScale }]
};
