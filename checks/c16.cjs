'use strict';
// Data transforms: real views evaluate declared transforms over random and adversarial tables; the monitor
// compares every output with the definition (reference or geometric oracle) and records the input rows
// before and after, so that any change of the caller's rows or of their order is reported.
const V = require('../lib/view.cjs');
const clone = x => JSON.parse(JSON.stringify(x));
const strip = d => { if (d === null || typeof d !== 'object' || Array.isArray(d)) return d; const o = {}; for (const k of Object.keys(d)) if (!k.startsWith('VGRAMMAR_DATA_ID_KEY')) o[k] = d[k]; return o; };
const nil = x => x === null || x === undefined;
const get = (d, path) => String(path).split('.').reduce((o, k) => (nil(o) ? undefined : o[k]), d);

// ------------------------------------------------------------------ reference definitions
const OPS = { lt: (a, b) => a < b, ge: (a, b) => a >= b, eq: (a, b) => a === b, ne: (a, b) => a !== b };
const asc = (u, v) => (nil(u) ? (nil(v) ? 0 : -1) : nil(v) ? 1 : u < v ? -1 : u > v ? 1 : 0);
const SORT_FN = { byV: (a, b) => (b.v || 0) - (a.v || 0), byLen: (a, b) => String(a.c).length - String(b.c).length };
const MAP_FN = { dbl: d => (d.v || 0) * 2, row: d => ({ c: d.c, v: (d.v || 0) + 1, w: d.w, id: d.id, n: d.n }), str: d => d.c + ':' + d.v };
const numOf = x => Number.parseFloat(x);
const CHECKS = {
  filter: {
    spec: (o, p) => ({ type: 'filter', callback: (d, params) => OPS[o.op](d[o.field], o.signal ? params[o.signal] : o.k), ...(o.signal ? { dependency: [o.signal] } : {}) }),
    ref: (o, rows, sig) => rows.filter(d => OPS[o.op](d[o.field], o.signal ? sig[o.signal] : o.k))
  },
  map: {
    spec: o => ({ type: 'map', callback: o.all ? rows => rows.map((d, i) => ({ i, v: d.v })) : MAP_FN[o.fn], all: o.all, ...(o.as ? { as: o.as } : {}) }),
    ref: (o, rows) => (o.all ? rows.map((d, i) => ({ i, v: d.v })) : o.as ? rows.map(d => Object.assign({}, d, { [o.as]: MAP_FN[o.fn](d) })) : rows.map(MAP_FN[o.fn]).map(x => (x === Object(x) ? x : { data: x })))
  },
  sort: {
    spec: o => ({ type: 'sort', sort: o.fn ? SORT_FN[o.fn] : { field: o.field, order: o.order } }),
    ref: (o, rows) => {
      const fs = [].concat(o.field || []), os = [].concat(o.order || []);
      const f = o.fn ? SORT_FN[o.fn] : (a, b) => { for (let i = 0; i < fs.length; i++) { const c = asc(get(a, fs[i]), get(b, fs[i])); if (c) return os[i] === 'desc' ? -c : c; } return 0; };
      return rows.map((d, i) => [d, i]).sort((a, b) => f(a[0], b[0]) || a[1] - b[1]).map(x => x[0]);
    }
  },
  fold: {
    spec: o => Object.assign({ type: 'fold' }, o),
    ref: (o, rows) => {
      const out = [];
      for (const d of rows) for (const f of o.fields) {
        const item = {};
        if (o.retains) for (const r of o.retains) item[r] = d[r]; else for (const k of Object.keys(d)) if (!o.fields.includes(k)) item[k] = d[k];
        item[o.asKey || 'key'] = f; item[o.asValue || 'value'] = d[f];
        out.push(item);
      }
      return out;
    }
  },
  unfold: {
    unordered: true,
    spec: o => Object.assign({ type: 'unfold' }, o),
    ref: (o, rows) => {
      if (!rows.length) return [];
      const by = [].concat(o.groupBy || []);
      const m = new Map();
      for (const d of rows) {
        const k = JSON.stringify(by.map(f => d[f]));
        if (!m.has(k)) m.set(k, { datum: Object.fromEntries(by.map(f => [f, d[f]])), vals: new Map() });
        const vs = m.get(k).vals, kk = String(d[o.keyField]);
        if (!vs.has(kk)) vs.set(kk, []);
        vs.get(kk).push(d[o.valueField]);
      }
      const agg = { sum: a => a.reduce((s, x) => s + x, 0), min: a => Math.min(...a), max: a => Math.max(...a), count: a => a.length, mean: a => a.reduce((s, x) => s + x, 0) / a.length }[o.aggregateType || 'sum'];
      return [...m.values()].map(g => { const r = g.datum; for (const [k, vs] of g.vals) r[k] = agg(vs); return r; });
    }
  },
  range: {
    noInput: true,
    spec: o => Object.assign({ type: 'range' }, o),
    ref: o => { const out = []; const step = nil(o.step) ? 1 : o.step; const n = Math.max(0, Math.ceil((o.stop - o.start) / step)); for (let i = 0; i < n; i++) out.push({ [o.as || 'data']: o.start + i * step }); return out; }
  },
  bin: {
    spec: o => Object.assign({ type: 'bin' }, o),
    ref: (o, rows) => {
      const [a, b] = o.extent;
      const step = nil(o.step) ? (b - a) / (nil(o.bins) ? 10 : Math.max(o.bins, 1)) : o.step;
      return rows.map(d => {
        let i = Math.floor((d.v - a) / step);
        if (d.v === b && i > 0 && a + i * step >= b) i -= 1;
        return Object.assign({}, d, { [o.as ? o.as[0] : 'binStart']: a + i * step, [o.as ? o.as[1] : 'binEnd']: Math.min(b, a + (i + 1) * step) });
      });
    },
    invariant: (o, out, env) => out.forEach(d => {
      const s = d[o.as ? o.as[0] : 'binStart'], e = d[o.as ? o.as[1] : 'binEnd'];
      if (d.v >= o.extent[0] && d.v <= o.extent[1]) env.check(s <= d.v + 1e-9 && d.v <= e + 1e-9 && s < e, () => `bin [${s}, ${e}] does not hold the value ${d.v} of extent ${o.extent}`);
    })
  },
  join: {
    spec: (o, p) => { const { from, ...r } = o; return Object.assign({ type: 'join', from: typeof from === 'string' ? { data: from } : clone(from) }, r); },
    ref: (o, rows, sig, datas) => {
      const from = typeof o.from === 'string' ? datas[o.from] : o.from;
      const idx = new Map(from.map(d => [String(get(d, o.key)), d]));
      const dflt = nil(o.default) ? null : o.default;
      const as = o.as || o.values;
      return rows.map(d => {
        const r = Object.assign({}, d);
        o.fields.forEach((f, i) => {
          const hit = idx.get(String(get(d, f)));
          if (o.values) o.values.forEach((v, j) => { r[as[i * o.values.length + j]] = nil(hit) ? dflt : get(hit, v); });
          else r[as[i]] = nil(hit) ? dflt : hit;
        });
        return r;
      });
    }
  },
  pick: {
    spec: o => Object.assign({ type: 'pick' }, o),
    ref: (o, rows) => rows.map(d => Object.fromEntries(o.fields.map((f, i) => [(o.as || [])[i] || f, get(d, f)])))
  },
  funnel: {
    spec: o => Object.assign({ type: 'funnel' }, o),
    ref: (o, rows) => {
      const vals = rows.map(d => numOf(d[o.field]));
      const max = o.range && !nil(o.range.max) ? o.range.max : Math.max(...vals);
      return rows.map((d, i) => {
        const r = Object.assign({}, d), cur = vals[i], last = i ? vals[i - 1] : NaN, next = i < rows.length - 1 ? vals[i + 1] : NaN;
        const put = (k, v) => { if (o[k]) r[o[k]] = v; };
        const tr = Number.isFinite(next * cur) ? next / cur : null;
        put('asLastValue', last); put('asNextValue', next); put('asCurrentValue', cur);
        put('asTransformRatio', tr); put('asReachRatio', i === 0 ? 1 : cur / last);
        put('asHeightRatio', o.heightVisual ? tr : 1 / rows.length);
        put('asValueRatio', cur / max);
        put('asLastValueRatio', i === 0 ? 1 : last / max);
        put('asNextValueRatio', i === rows.length - 1 ? (o.isCone === false ? cur / max : 0) : next / max);
        return r;
      });
    }
  },
  pie: {
    spec: o => Object.assign({ type: 'pie' }, o),
    ref: (o, rows) => {
      const s = nil(o.startAngle) ? 0 : o.startAngle, e = nil(o.endAngle) ? Math.PI * 2 : o.endAngle;
      const vals = rows.map(d => numOf(d[o.field])), total = vals.reduce((a, b) => a + b, 0), max = Math.max(...vals);
      let acc = 0;
      return rows.map((d, i) => {
        const ratio = total === 0 ? 0 : vals[i] / total, a0 = s + (total === 0 ? 0 : acc / total) * (e - s), rad = ratio * (e - s);
        acc += vals[i];
        const r = Object.assign({}, d), put = (k, v) => { if (o[k]) r[o[k]] = v; };
        put('asRatio', ratio); put('asStartAngle', a0); put('asEndAngle', a0 + rad); put('asMiddleAngle', a0 + rad / 2); put('asRadian', rad);
        put('asK', vals[i] / max);
        if (o.asQuadrant) {
          const m = (((a0 + rad / 2) % (2 * Math.PI)) + 2 * Math.PI) % (2 * Math.PI), q = m / (Math.PI / 2);
          r[o.asQuadrant] = Math.abs(q - Math.round(q)) < 1e-6 ? '*' : q < 1 ? 2 : q < 2 ? 3 : q < 3 ? 4 : 1;
        }
        return r;
      });
    }
  },
  stack: {
    spec: o => Object.assign({ type: 'stack' }, o),
    ref: (o, rows) => {
      const off = o.offset || 'diverging';
      const src = o.order === 'negative' ? rows.slice().reverse() : rows;
      const top = { 1: new Map(), '-1': new Map() }, sums = { 1: new Map(), '-1': new Map() };
      const val = d => (off === 'diverging' ? d[o.stackField] : Math.abs(d[o.stackField]));
      const sg = v => (v >= 0 ? 1 : -1);
      for (const d of src) { const v = val(d), m = sums[sg(v)], k = d[o.dimensionField]; m.set(k, (m.get(k) || 0) + v); }
      const out = src.map(d => {
        const v = val(d), k = d[o.dimensionField], m = top[sg(v)], sum = sums[sg(v)].get(k);
        const base = m.get(k) || 0; m.set(k, base + v);
        const shift = off === 'silhouette' ? -sum / 2 : 0;
        const r = Object.assign({}, d), put = (kk, x) => { if (o[kk]) r[o[kk]] = x; };
        r[o.asStack || o.stackField] = base + v + shift;
        put('asPrevStack', base + shift); put('asSum', sum);
        const pct = x => (sum === 0 ? 0 : x / sum);
        put('asPercent', pct(v)); put('asPercentStack', pct(base + v + shift)); put('asPrevPercentStack', pct(base + shift));
        return r;
      });
      return o.order === 'negative' ? out.reverse() : out;
    }
  },
  kde: {
    spec: o => Object.assign({ type: 'kde' }, o),
    ref: (o, rows) => {
      const xs = rows.map(d => d[o.field]), n = xs.length;
      let h = o.bandwidth;
      if (nil(h)) {
        const mean = xs.reduce((a, b) => a + b, 0) / n, sd = Math.sqrt(xs.reduce((a, b) => a + (b - mean) ** 2, 0) / n), s = xs.slice().sort((a, b) => a - b);
        const q = p => { const i = (n - 1) * p, j = Math.floor(i); return j + 1 < n ? s[j] + (s[j + 1] - s[j]) * (i - j) : s[j]; };
        h = 0.9 * Math.min(sd, (q(0.75) - q(0.25)) / 1.34) * n ** -0.2;
      }
      const [a, b] = o.extent || [Math.min(...xs), Math.max(...xs)], bins = o.bins;
      return Array.from({ length: bins }, (_, i) => {
        const x = Math.min(a + ((b - a) / bins) * (i + 0.5), b);
        return { [(o.as || [])[0] || 'x']: x, [(o.as || [])[1] || 'kde']: xs.reduce((t, xi) => t + Math.exp(-(((x - xi) / h) ** 2) / 2) / Math.sqrt(2 * Math.PI), 0) / (n * h) };
      });
    }
  }
};

// ------------------------------------------------------------------ generators
const CATS = ['A', 'B', 'C', 'dd', '', 'é'];
function genRows(rng, opt = {}) {
  const n = opt.n !== undefined ? opt.n : rng.wpick([[1, 0], [2, 1], [6, rng.int(2, 12)], [1, rng.int(13, 60)]]);
  const big = rng.bool(0.1);
  return rng.times(n, i => {
    const d = { id: i, c: rng.pick(CATS), c2: rng.pick(['p', 'q', 'r']), v: opt.pos ? rng.num(0.01, 90) : rng.wpick([[1, 0], [6, rng.num(-50, 90)], [1, rng.int(-3, 3)]]) };
    if (big) d.v *= 1e7;
    d.w = rng.wpick([[4, rng.num(-5, 5)], [opt.clean ? 0 : 1, null], [1, 0]]);
    d.n = rng.bool(0.9) || opt.clean ? { a: rng.int(0, 4), b: { z: rng.pick(CATS) } } : null;
    if (!opt.clean && rng.bool(0.1)) delete d.w;
    return d;
  });
}
const maybe = (rng, p, o) => (rng.bool(p) ? o : {});
const asSubset = (rng, names, prefix) => Object.assign({}, ...names.map(n => maybe(rng, 0.6, { [n]: prefix + n })));
const genOpt = {
  filter: rng => ({ field: rng.pick(['v', 'w']), op: rng.pick(['lt', 'ge', 'eq', 'ne']), k: rng.pick([0, rng.num(-20, 50), 1]), ...maybe(rng, 0.4, { signal: 'thr' }) }),
  map: rng => (rng.bool(0.15) ? { all: true } : { fn: rng.pick(['dbl', 'row', 'str']), ...maybe(rng, 0.6, { as: 'k_m' }) }),
  sort: rng => (rng.bool(0.2) ? { fn: rng.pick(['byV', 'byLen']) } : rng.bool() ? { field: rng.pick(['v', 'c', 'w', 'n.a']), order: rng.pick(['asc', 'desc', undefined]) } : { field: rng.sample(['v', 'c', 'c2', 'n.a', 'w'], rng.int(1, 3)), order: rng.times(3, () => rng.pick(['asc', 'desc'])) }),
  fold: rng => ({ fields: rng.sample(['v', 'w', 'c', 'zz'], rng.int(1, 3)), ...maybe(rng, 0.5, { asKey: 'fk', asValue: 'fv' }), ...maybe(rng, 0.4, { retains: rng.sample(['id', 'c2', 'c'], rng.int(0, 2)) }) }),
  unfold: rng => ({ keyField: rng.pick(['c', 'c2']), valueField: 'v', ...maybe(rng, 0.7, { groupBy: rng.pick(['id', ['c2'], ['c', 'c2'], 'c']) }), ...maybe(rng, 0.7, { aggregateType: rng.pick(['sum', 'min', 'max', 'count', 'mean']) }) }),
  range: rng => ({ start: rng.int(-5, 5), stop: rng.int(-5, 30), ...maybe(rng, 0.6, { step: rng.pick([1, 2, 0.5, 3, 0.1, -1]) }), ...maybe(rng, 0.5, { as: 'r' }) }),
  bin: rng => ({ field: 'v', extent: rng.pick([[-60, 100], [0, 50], [-10, 0.5], [0, 1]]), ...(rng.bool(0.4) ? { step: rng.pick([1, 10, 0.3, 7]) } : maybe(rng, 0.7, { bins: rng.pick([1, 3, 7, 20, 0]) })), ...maybe(rng, 0.5, { as: ['b0', 'b1'] }) }),
  join: rng => {
    const keyed = CATS.slice(0, rng.int(0, 5)).map((k, i) => ({ k, p: { q: i * 3 }, y: rng.pick([0, null, 'yy', i]), x: i }));
    const fields = rng.pick([['c'], ['c'], ['n.b.z'], ['c', 'n.b.z']]);
    const values = rng.bool(0.7) ? rng.sample(['x', 'y', 'p.q'], rng.int(1, 2)) : undefined;
    const nAs = fields.length * (values ? values.length : 1);
    const as = fields.length > 1 || !values || rng.bool() || values.includes('p.q') ? rng.times(nAs, i => 'k_j' + i) : undefined;
    return { from: keyed, key: 'k', fields, ...(values ? { values } : {}), as: as || values.map((v, i) => 'k_j' + i), ...maybe(rng, 0.5, { default: rng.pick([0, 'none', false, 7]) }) };
  },
  pick: rng => { const fields = rng.sample(['id', 'v', 'n.a', 'n.b.z', 'c'], rng.int(0, 3)); return { fields, ...maybe(rng, 0.5, { as: fields.map((f, i) => 'p' + i).slice(0, rng.int(0, fields.length)) }) }; },
  funnel: rng => ({ field: 'v', ...asSubset(rng, ['asTransformRatio', 'asReachRatio', 'asHeightRatio', 'asValueRatio', 'asNextValueRatio', 'asLastValueRatio', 'asLastValue', 'asCurrentValue', 'asNextValue'], 'f_'), ...maybe(rng, 0.5, { isCone: rng.bool() }), ...maybe(rng, 0.5, { heightVisual: rng.bool() }), ...maybe(rng, 0.4, { range: rng.pick([{ min: 0, max: 100 }, { max: 50 }, { min: 3 }]) }) }),
  pie: rng => ({ field: 'v', ...asSubset(rng, ['asStartAngle', 'asEndAngle', 'asMiddleAngle', 'asRadian', 'asRatio', 'asQuadrant', 'asK'], 'p_'), ...maybe(rng, 0.5, { startAngle: rng.pick([0, -Math.PI / 2, 1, 3]) }), ...maybe(rng, 0.5, { endAngle: rng.pick([Math.PI, 1.5 * Math.PI, 4, 0.5]) }) }),
  stack: rng => ({ stackField: 'v', dimensionField: rng.pick(['c', 'c2']), ...maybe(rng, 0.5, { order: rng.pick(['positive', 'negative']) }), ...maybe(rng, 0.7, { offset: rng.pick(['none', 'diverging', 'silhouette']) }), ...asSubset(rng, ['asStack', 'asPrevStack', 'asPercent', 'asPercentStack', 'asPrevPercentStack', 'asSum'], 's_') }),
  kde: rng => ({ field: 'v', bins: rng.pick([1, 7, 30]), ...maybe(rng, 0.5, { bandwidth: rng.pick([1, 5, 0.3]) }), ...maybe(rng, 0.5, { extent: rng.pick([[0, 100], [-20, 20]]) }), ...maybe(rng, 0.5, { as: ['kx', 'ky'].slice(0, rng.int(1, 2)) }) })
};
const ROWOPT = { funnel: { pos: true }, pie: { pos: true }, kde: { clean: true }, unfold: { clean: true } };

const eqRows = (type, got, exp) => {
  const a = got.map(d => V.norm(strip(d))), b = exp.map(d => V.norm(strip(d)));
  if (type === 'unfold') { const s = x => JSON.stringify(x); a.sort((x, y) => (s(x) < s(y) ? -1 : 1)); b.sort((x, y) => (s(x) < s(y) ? -1 : 1)); }
  if (a.length !== b.length) return `${a.length} rows instead of ${b.length}`;
  for (let i = 0; i < a.length; i++) {
    for (const k of new Set([...Object.keys(a[i]), ...Object.keys(b[i])])) {
      const x = a[i][k], y = b[i][k];
      if (y === '*') continue;
      if (JSON.stringify(x) === JSON.stringify(y)) continue;
      if (typeof x === 'number' && typeof y === 'number' && Math.abs(x - y) <= 1e-7 * Math.max(1, Math.abs(x), Math.abs(y))) continue;
      return `row ${i} field ${k}: ${JSON.stringify(x)} instead of ${JSON.stringify(y)}`;
    }
  }
  return null;
};

// apply a transform chain on rows through a real view, with the rows shared by an untransformed data set
function runChain(c, env) {
  return V.withView({}, async view => {
    const sig = Object.assign({}, c.signals);
    for (const k of Object.keys(sig)) view.signal(sig[k]).id(k);
    let rows = clone(c.rows);
    const lookup = { lk: clone(c.lookup || []) };
    if (c.lookup) view.data(lookup.lk).id('lk');
    const a = view.data(rows).id('a');
    const b = view.data(null).id('b');
    b.source('a');
    const plain = view.data(null).id('c');
    plain.source('a');
    b.transform(c.chain.map(t => CHECKS[t.type].spec(t.o)));
    let pristine = clone(c.rows);
    const verify = tag => {
      let exp = clone(pristine);
      for (const t of c.chain) exp = CHECKS[t.type].ref(t.o, exp, sig, { lk: lookup.lk });
      const got = b.output();
      env.obs('transform outputs checked'); env.obs('rows checked', got.length);
      c.chain.forEach(t => env.saw('transform', t.type));
      const last = c.chain[c.chain.length - 1].type;
      const bad = eqRows(last, got, exp);
      env.check(!bad, () => `${tag}: ${c.chain.map(t => t.type).join(' > ')}: ${bad}`, { chain: c.chain, got: got.slice(0, 6).map(strip), exp: exp.slice(0, 6) });
      const inv = CHECKS[last].invariant;
      if (inv && c.chain.length === 1) inv(c.chain[0].o, got, env);
      // the caller's rows: same array order, same fields and values (annotations of join/map/identifier aside)
      const noK = d => { const o = strip(d); for (const k of Object.keys(o)) if (k.startsWith('k_')) delete o[k]; return o; };
      env.check(rows.length === pristine.length && rows.every((d, i) => V.same(noK(d), pristine[i])), () => `${tag}: ${c.chain.map(t => t.type).join(' > ')} changed the caller's rows`, { rows: rows.slice(0, 6), before: pristine.slice(0, 6) });
      const po = plain.output();
      env.check(po.length === pristine.length && po.every((d, i) => V.same(noK(d), pristine[i])), () => `${tag}: ${c.chain.map(t => t.type).join(' > ')} changed another data set reading the same source`);
      env.obs('input tables compared', 2);
    };
    await view.run(); verify('first run');
    for (const s of c.steps) {
      if (s.op === 'values') { pristine = clone(s.rows); rows = clone(s.rows); a.values(rows); }
      else if (s.op === 'signal') { sig[s.id] = s.v; view.getSignalById(s.id).value(s.v); }
      else if (s.op === 'lookup' && c.lookup) { lookup.lk = clone(s.rows); view.getDataById('lk').values(clone(s.rows)); }
      await view.run(); verify('after ' + s.op);
    }
  });
}
const genChain = (rng, types) => {
  const chain = types.map(type => ({ type, o: genOpt[type](rng) }));
  const last = types[types.length - 1];
  const ropt = Object.assign({}, ...types.map(t => ROWOPT[t] || {}));
  if (types.includes('kde')) ropt.n = rng.int(4, 30);
  const rows = () => {
    const r = genRows(rng, ropt);
    if (last === 'pie' && rng.bool(0.1)) r.forEach(d => { d.v = 0; });
    if (['pie', 'funnel'].includes(last) && rng.bool(0.2)) r.forEach(d => { d.v = String(d.v); });
    if (types[0] === 'bin' && rng.bool(0.5)) r.forEach((d, i) => { if (i % 3 === 0) d.v = chain[0].o.extent[rng.int(0, 1)]; });
    return r;
  };
  const c = { chain, signals: { thr: rng.num(-10, 30) }, rows: rows(), steps: [] };
  const j = chain.find(t => t.type === 'join');
  if (j && rng.bool(0.5)) { c.lookup = j.o.from; j.o.from = 'lk'; }
  const n = rng.int(0, 2);
  for (let i = 0; i < n; i++) c.steps.push(rng.bool(0.5) ? { op: 'values', rows: rows() } : c.lookup && rng.bool() ? { op: 'lookup', rows: c.lookup.slice(rng.int(0, 2)).map((d, k) => Object.assign({}, d, { x: k * 11 })) } : { op: 'signal', id: 'thr', v: rng.num(-10, 30) });
  return c;
};

// ------------------------------------------------------------------ sampling
const AGG = { min: a => Math.min(...a), max: a => Math.max(...a), sum: a => a.reduce((s, x) => s + x, 0), average: a => a.reduce((s, x) => s + x, 0) / a.length };
function runSampling(c, env) {
  return V.withView({}, async view => {
    const rows = clone(c.rows), before = clone(c.rows);
    const a = view.data(rows).id('a');
    const b = view.data(null).source('a'); b.transform([Object.assign({ type: 'sampling' }, c.o)]);
    await view.run();
    const out = b.output();
    const size = (Array.isArray(c.o.size) ? Math.floor(c.o.size[1] - c.o.size[0]) : c.o.size) * (c.o.factor || 1);
    env.check(rows.every((d, i) => V.same(strip(d), before[i])) && rows.length === before.length, 'sampling changed the caller\'s rows');
    env.check(V.same(a.output().map(strip), before), 'sampling changed the source data set');
    if (size <= 0) { env.check(out.length === 0, 'sampling with an empty size keeps rows'); env.nontrivial = false; return; }
    const y = c.o.yfield || 'y';
    if (rows.length <= size) { env.check(V.same(out.map(strip), before), () => 'a table within the size was sampled'); env.nontrivial = false; return; }
    const groups = new Map();
    before.forEach((d, i) => { const g = c.o.groupBy ? String(d[c.o.groupBy]) : ''; if (!groups.has(g)) groups.set(g, []); groups.get(g).push({ i, d }); });
    const exp = new Map(); // row index -> expected y value, undefined for unconstrained selection
    let total = 0;
    const picked = new Map(); out.forEach(d => picked.set(d.id, (picked.get(d.id) || 0) + 1));
    for (const g of groups.values()) {
      const len = g.length;
      if (len <= size) { g.forEach(r => exp.set(r.d.id, r.d[y])); total += len; continue; }
      const fs = Math.floor(len / size);
      if (c.o.mode && c.o.mode !== 'lttb') {
        exp.set(g[0].d.id, g[0].d[y]); total++;
        for (let i = 1; i < len - 1; i += fs) {
          const frame = g.slice(i, Math.min(len, i + fs));
          const at = Math.min(Math.round(i + frame.length / 2), i + frame.length - 1);
          exp.set(g[at].d.id, AGG[c.o.mode](frame.map(r => r.d[y]))); total++;
        }
      } else {
        // largest-triangle buckets: both ends kept, one row of maximal triangle area per frame
        const got = g.map((r, k) => k).filter(k => picked.has(g[k].d.id));
        got.forEach(k => exp.set(g[k].d.id, g[k].d[y]));
        total += got.length;
        env.check(got[0] === 0 && got[got.length - 1] === len - 1, 'sampling lost an end of the line');
        let cur = 0;
        for (let i = 1; i < len - 1; i += fs) {
          const inFrame = got.filter(k => k >= i && k < Math.min(i + fs, len));
          env.check(inFrame.length === 1 || (inFrame.length === 2 && inFrame[1] === len - 1), () => `frame ${i}..${i + fs - 1} of ${len} rows keeps ${inFrame.length} rows`);
          const s = Math.min(i + fs, len - 1), e = Math.min(i + 2 * fs, len);
          const avgX = (s + e) / 2, avgY = g.slice(s, e).reduce((t, r) => t + r.d[y], 0) / (e - s);
          const area = k => Math.abs((i - 1 - avgX) * (g[k].d[y] - g[cur].d[y]) - (i - 1 - k) * (avgY - g[cur].d[y]));
          const best = Math.max(...g.slice(i, Math.min(i + fs, len)).map((r, k) => area(i + k)));
          env.check(inFrame.some(k => area(k) >= best - 1e-6 * Math.max(1, best)), () => `frame ${i}: the row kept does not span the largest triangle`);
          cur = inFrame.length === 1 || area(inFrame[0]) >= best - 1e-9 * Math.max(1, best) ? inFrame[0] : inFrame[1];
          env.obs('sampling frames checked');
        }
      }
    }
    env.check(out.length === total && out.every((d, i) => picked.get(d.id) === 1 && (i === 0 || out[i - 1].id < d.id)), () => `sampling returned rows out of order, twice or too few: ${out.map(d => d.id).slice(0, 40)} expected ${total}`);
    out.forEach(d => {
      env.check(exp.has(d.id) && V.near(d[y], exp.get(d.id), 1e-9), () => `sampled row ${d.id}: ${y}=${d[y]} instead of ${exp.get(d.id)}`);
      const o = before[d.id]; env.check(Object.keys(o).every(k => k === y || V.same(o[k], d[k])), () => `sampled row ${d.id} lost other fields`);
    });
    env.obs('sampled tables checked'); env.saw('sampling', `${c.o.mode || 'lttb'}/${!!c.o.groupBy}`);
  });
}

// ------------------------------------------------------------------ contour
function runContour(c, env) {
  return V.withView({}, async view => {
    const { row, column } = c.o;
    const rows = c.grid.map((z, i) => ({ z, i }));
    const b = view.data(rows); b.transform([Object.assign({ type: 'contour', field: 'z' }, c.o)]);
    await view.run();
    const out = b.output();
    env.check(rows.every((d, i) => d.z === c.grid[i] && d.i === i), 'contour changed the caller\'s rows');
    const T = c.o.asThreshold || 'threshold', P = c.o.asPoints || 'points';
    const lo = Math.min(...c.grid), hi = Math.max(...c.grid);
    const ths = c.o.thresholds || Array.from({ length: c.o.levels - 1 }, (_, i) => lo + (i + 1) * ((hi - lo) / c.o.levels));
    const z = (x, y) => c.grid[y * column + x];
    for (const th of ths) {
      // reference: every grid edge whose ends lie on different sides
      const edges = new Map();
      const cross = (x0, y0, x1, y1) => {
        if ((z(x0, y0) >= th) === (z(x1, y1) >= th)) return;
        const t = (th - z(x0, y0)) / (z(x1, y1) - z(x0, y0));
        edges.set(`${x0},${y0},${x1},${y1}`, { x: x0 + (x1 - x0) * t, y: y0 + (y1 - y0) * t, border: x0 === x1 ? x0 === 0 || x0 === column - 1 : y0 === 0 || y0 === row - 1, hits: 0 });
      };
      for (let y = 0; y < row; y++) for (let x = 0; x < column; x++) { if (x + 1 < column) cross(x, y, x + 1, y); if (y + 1 < row) cross(x, y, x, y + 1); }
      const lines = out.filter(d => V.near(d[T], th, 1e-12));
      for (const l of lines) {
        const pts = l[P].map(p => ({ x: p.x * column, y: p.y * row }));
        const closed = pts.length > 2 && Math.hypot(pts[0].x - pts[pts.length - 1].x, pts[0].y - pts[pts.length - 1].y) < 1e-9;
        const uniq = closed ? pts.slice(0, -1) : pts;
        const matched = uniq.map(p => [...edges.values()].find(e => Math.abs(e.x - p.x) < 1e-6 && Math.abs(e.y - p.y) < 1e-6));
        matched.forEach((e, i) => { env.check(!!e, () => `threshold ${th}: contour point (${uniq[i].x}, ${uniq[i].y}) lies on no crossed grid edge`); e.hits++; });
        if (!closed) env.check(matched[0].border && matched[matched.length - 1].border, () => `threshold ${th}: an open contour line ends inside of the grid`, { pts });
        for (let i = 1; i < pts.length; i++) env.check(Math.abs(pts[i].x - pts[i - 1].x) <= 1 + 1e-6 && Math.abs(pts[i].y - pts[i - 1].y) <= 1 + 1e-6, () => `threshold ${th}: a contour line jumps over cells`);
        env.obs('contour lines checked');
      }
      for (const [k, e] of edges) env.check(e.hits === 1, () => `threshold ${th}: crossing of edge ${k} is drawn ${e.hits} times`);
      env.obs('contour crossings checked', edges.size);
      env.saw('contour', `${row === column}/${edges.size > 0}`);
    }
    env.check(out.every(d => ths.some(t => V.near(d[T], t, 1e-12))), 'contour returned a line of no threshold');
  });
}

// ------------------------------------------------------------------ circular relation, identifier, 2d density
function runCircular(c, env) {
  return V.withView({}, async view => {
    const rows = clone(c.rows), before = clone(c.rows);
    const b = view.data(rows); b.transform([Object.assign({ type: 'circularRelation' }, c.o)]);
    await view.run();
    const out = b.output();
    env.check(V.same(rows.map(strip), before), 'circularRelation changed the caller\'s rows');
    env.check(out.length === before.length && out.every((d, i) => V.same(strip(d.datum), before[i])), 'circularRelation lost, added or reordered items');
    if (!out.length) { env.nontrivial = false; return; }
    const o = c.o, x0 = 'width' in o ? 0 : Math.min(o.x0, o.x1), x1 = 'width' in o ? o.width : Math.max(o.x0, o.x1), y0 = 'width' in o ? 0 : Math.min(o.y0, o.y1), y1 = 'width' in o ? o.height : Math.max(o.y0, o.y1);
    const pct = (v, t) => (typeof v === 'string' ? (t * parseFloat(v)) / 100 : v);
    const R = Math.max((x1 - x0) / 2, (y1 - y0) / 2), inner = nil(o.innerRadius) ? 0 : pct(o.innerRadius, R), outer = nil(o.outerRadius) ? R : pct(o.outerRadius, R);
    const ctr = [0, 1].map(k => { const v = o.center ? o.center[k] : '50%'; return typeof v === 'number' ? v : (k ? y0 : x0) + pct(v, k ? y1 - y0 : x1 - x0); });
    const vals = before.map(d => d[o.field]), mn = Math.min(...vals), mx = Math.max(...vals);
    const rf = o.radiusField || o.field, rv = before.map(d => d[rf]), rmn = Math.min(...rv), rmx = Math.max(...rv), rr = o.radiusRange || [5, 5];
    const s = nil(o.startAngle) ? 0 : o.startAngle, e = nil(o.endAngle) ? Math.PI * 2 : o.endAngle, a0 = Math.min(s, e), a1 = Math.max(s, e), step = (a1 - a0) / 60;
    out.forEach((d, i) => {
      const dist = mn === mx ? (inner + outer) / 2 : inner + ((outer - inner) * (vals[i] - mn)) / (mx - mn);
      const size = rmn === rmx ? rr[1] : rr[0] + ((rr[1] - rr[0]) * (rv[i] - rmn)) / (rmx - rmn);
      env.check(V.near(Math.hypot(d.x - ctr[0], d.y - ctr[1]), Math.abs(dist)), () => `item ${i} lies at distance ${Math.hypot(d.x - ctr[0], d.y - ctr[1])} instead of ${dist}`);
      env.check(V.near(d.radius, size), () => `item ${i} has radius ${d.radius} instead of ${size}`);
      const bad = ang => { const x = ctr[0] + dist * Math.cos(ang), y = ctr[1] + dist * Math.sin(ang); return x - size < x0 || x + size > x1 || y - size < y0 || y + size > y1 || out.slice(0, i).some(q => (q.x - x) ** 2 + (q.y - y) ** 2 < (q.radius + size) ** 2); };
      const ang = Math.atan2(d.y - ctr[1], d.x - ctr[0]);
      if (dist > 1e-6) env.check([-2, -1, 0, 1, 2].some(k => { const t = ang + k * 2 * Math.PI; return t >= a0 - 1e-6 && t <= a1 + 1e-6; }), () => `item ${i} lies at angle ${ang}, outside of [${a0}, ${a1}]`);
      const over = out.slice(0, i).some(q => (q.x - d.x) ** 2 + (q.y - d.y) ** 2 < (q.radius + size) ** 2 - 1e-6) || d.x - size < x0 - 1e-6 || d.x + size > x1 + 1e-6 || d.y - size < y0 - 1e-6 || d.y + size > y1 + 1e-6;
      if (over) {
        let free = 0; const fine = step / 4;
        for (let t = a0; t <= a1; t += fine) { free = bad(t) ? 0 : free + 1; env.check(free < 20, () => `item ${i} overlaps although ${Math.round(free / 4)} search steps in a row are free`); }
        env.obs('crowded items');
      } else env.obs('items placed without conflict');
    });
  });
}
function runIdentifier(c, env) {
  return V.withView({}, async view => {
    const a = view.data(clone(c.rows)), b = view.data(clone(c.rows2));
    a.transform([{ type: 'identifier', as: 'k_id' }]); b.transform([{ type: 'identifier', as: 'k_id' }]);
    await view.run();
    const ids = () => [...a.output(), ...b.output()].map(d => d.k_id);
    const first = ids(), expect = c.rows.length + c.rows2.length;
    env.check(first.length === expect && new Set(first).size === expect && first.every(x => !nil(x)), () => `identifiers are missing or repeated: ${first}`);
    a.commit(); await view.run();
    env.check(V.same(ids(), first), 'identifiers changed when the data was evaluated again');
    a.values(clone(c.rows3)); await view.run();
    const again = ids(); env.check(new Set(again).size === again.length && again.every(x => !nil(x)), () => `identifiers are missing or repeated after new values: ${again}`);
    env.obs('identifiers checked', again.length);
  });
}
function runKde2(c, env) {
  return V.withView({}, async view => {
    const mk = async (rows, o) => { const d = view.data(rows); d.transform([Object.assign({ type: 'kde', dimension: '2d' }, o)]); await view.run(); return d.output().map(strip); };
    const rows = clone(c.rows), out = await mk(rows, c.o), bx = [].concat(c.o.bins)[0], by = [].concat(c.o.bins)[1] || bx;
    env.check(V.same(rows.map(strip), c.rows), 'kde changed the caller\'s rows');
    const [f, g] = c.o.field, [ax, ay, ak] = [0, 1, 2].map(i => (c.o.as || [])[i] || ['x', 'y', 'kde'][i]);
    env.check(out.length === bx * by, () => `${out.length} grid points instead of ${bx * by}`);
    const ext = c.o.extent || [{ x: Math.min(...rows.map(d => d[f])), y: Math.min(...rows.map(d => d[g])) }, { x: Math.max(...rows.map(d => d[f])), y: Math.max(...rows.map(d => d[g])) }];
    out.forEach((d, i) => {
      const xi = i % bx, yi = Math.floor(i / bx);
      env.check(V.near(d[ax], ext[0].x + ((ext[1].x - ext[0].x) / bx) * (xi + 0.5)) && V.near(d[ay], ext[0].y + ((ext[1].y - ext[0].y) / by) * (yi + 0.5)), () => `grid point ${i} lies at ${d[ax]},${d[ay]}`);
      env.check(d[ak] >= 0 && Number.isFinite(d[ak]), () => `density ${d[ak]} at grid point ${i}`);
    });
    const shuffled = await mk(clone(c.rows).reverse(), c.o);
    env.check(out.every((d, i) => V.near(d[ak], shuffled[i][ak], 1e-9)), 'the density depends on the order of the rows');
    const twice = await mk(clone(c.rows).concat(clone(c.rows)), c.o);
    if (c.o.bandwidth) env.check(out.every((d, i) => V.near(d[ak], twice[i][ak], 1e-9)), 'repeating all rows changes the density');
    // one row: the density falls with the distance to it
    const one = await mk([clone(c.rows[0])], Object.assign({ bandwidth: 5 }, c.o, { extent: ext }));
    const dist = d => Math.hypot(d[ax] - c.rows[0][f], d[ay] - c.rows[0][g]);
    const s = one.slice().sort((p, q) => dist(p) - dist(q));
    for (let i = 1; i < s.length; i++) env.check(s[i][ak] <= s[i - 1][ak] + 1e-12, 'the density of a single point grows with the distance');
    env.obs('density grids checked');
  });
}

const genSampling = rng => {
  const n = rng.int(0, 60);
  const rows = rng.times(n, i => ({ id: i, y: rng.num(-20, 60), v2: rng.num(0, 5), g: rng.pick(['a', 'b', 'c']) }));
  const size = rng.wpick([[8, rng.int(1, 30)], [1, 0], [1, [2, rng.int(3, 20)]]]);
  return { rows, o: { size, ...maybe(rng, 0.7, { mode: rng.pick(['lttb', 'min', 'max', 'average', 'sum']) }), ...maybe(rng, 0.3, { yfield: 'v2' }), ...maybe(rng, 0.4, { groupBy: 'g' }), ...(Array.isArray(size) ? {} : maybe(rng, 0.2, { factor: 2 })) } };
};
const genContour = rng => {
  const row = rng.int(2, 7), column = rng.int(2, 7), flat = rng.bool(0.15);
  const grid = rng.times(row * column, () => (rng.bool(0.5) ? rng.num(0, 10, 4) : rng.num(4, 6, 4)) + (flat ? 0 : 0.00001));
  return { grid, o: { row, column, ...(rng.bool(0.6) ? { thresholds: rng.times(rng.int(1, 3), i => rng.num(-1, 11, 4) + 0.000003).filter((v, i, a) => a.indexOf(v) === i) } : { levels: rng.int(2, 5) }), ...maybe(rng, 0.3, { asThreshold: 'tt', asPoints: 'pp' }) } };
};
const genCircular = rng => ({
  rows: rng.times(rng.wpick([[1, 0], [5, rng.int(1, 12)], [2, rng.int(13, 60)]]), i => ({ id: i, v: rng.pick([1, 5, rng.num(0, 100)]), r: rng.num(1, 9) })),
  o: { ...(rng.bool() ? { width: rng.int(50, 400), height: rng.int(50, 300) } : { x0: rng.int(0, 50), x1: rng.int(100, 400), y0: rng.int(200, 300), y1: rng.int(0, 100) }), field: 'v', ...maybe(rng, 0.5, { radiusField: 'r' }), ...maybe(rng, 0.6, { radiusRange: [rng.int(1, 4), rng.int(5, 15)] }), ...maybe(rng, 0.5, { innerRadius: rng.pick([10, '20%', 0]) }), ...maybe(rng, 0.5, { outerRadius: rng.pick([60, '80%']) }), ...maybe(rng, 0.4, { center: rng.pick([['30%', '40%'], [60, 70], [60, '50%']]) }), ...maybe(rng, 0.5, { startAngle: rng.num(-3, 1), endAngle: rng.num(1.5, 6) }) }
});
const SINGLES = Object.keys(CHECKS);
const CHAINABLE = ['filter', 'filter', 'map', 'sort', 'sort', 'join', 'pick', 'fold', 'stack', 'pie', 'funnel', 'bin'];
const PRESERVE = ['filter', 'sort', 'join', 'stack', 'bin']; // keep the columns later steps need

module.exports = {
  rule: 'every case evaluates real data transforms on a table that differs from all others',
  assumptions: ['values that a transform aggregates or divides are finite numbers (or numeric strings where it parses them)', 'join keys, fold fields and groups are ordinary strings, not names of built-in object properties', 'join, map-as and identifier annotate rows with the field they are asked to write; nothing else of a row may change'],
  mustObserve: ['transform outputs checked', 'input tables compared', 'sampled tables checked', 'sampling frames checked', 'contour crossings checked', 'items placed without conflict', 'identifiers checked', 'density grids checked'],
  pinned: [
    { name: 'wiggle', scenario: 'wiggle', case: { rows: [{ c: 'A', v: 3 }, { c: 'A', v: 5 }, { c: 'A', v: 1 }] } },
    { name: 'pie-no-end', scenario: 'single', case: { chain: [{ type: 'pie', o: { field: 'v', asStartAngle: 's' } }], signals: {}, rows: [{ v: 1 }, { v: 3 }], steps: [] } },
    { name: 'saddle', scenario: 'contour', case: { grid: [1, 0, 0, 1], o: { row: 2, column: 2, thresholds: [0.5] } } },
    { name: 'no-crossing', scenario: 'contour', case: { grid: [1, 2, 1, 2, 1, 2], o: { row: 2, column: 3, thresholds: [5, 1.5] } } },
    { name: 'frame1', scenario: 'sampling', case: { rows: [0, 1, 2, 3, 4, 5, 6, 7].map(i => ({ id: i, y: i * i, g: 'a' })), o: { size: 5, mode: 'max', yfield: 'y' } } }
  ],
  scenarios: [
    { name: 'single', weight: 3, quick: 3000, thorough: 60000, gen: (rng, i) => genChain(rng, [SINGLES[i % SINGLES.length]]), run: runChain },
    { name: 'chain', weight: 2, quick: 1500, thorough: 30000, gen: rng => { const n = rng.int(1, 3); return genChain(rng, [...rng.times(n, () => rng.pick(PRESERVE)), rng.pick(CHAINABLE)].filter((t, i, a) => !(['join', 'stack', 'bin'].includes(t) && a.indexOf(t) !== i)).filter((t, i, a) => !(a.includes('pie') && t === 'stack') && !(a.includes('funnel') && t === 'stack'))); }, run: runChain },
    { name: 'sampling', quick: 1200, thorough: 20000, gen: genSampling, run: runSampling },
    { name: 'contour', quick: 700, thorough: 15000, gen: genContour, run: runContour },
    { name: 'circular', quick: 600, thorough: 12000, gen: genCircular, run: runCircular },
    { name: 'identifier', quick: 150, thorough: 2000, gen: rng => ({ rows: genRows(rng, {}), rows2: genRows(rng, {}), rows3: genRows(rng, {}) }), run: runIdentifier },
    { name: 'kde2', quick: 250, thorough: 4000, gen: rng => ({ rows: rng.times(rng.int(2, 15), i => ({ a: rng.num(0, 50), b: rng.num(-10, 40) })), o: { field: ['a', 'b'], bins: rng.pick([4, [3, 5], [6]]), ...maybe(rng, 0.6, { bandwidth: rng.pick([2, 4]) }), ...maybe(rng, 0.4, { extent: [{ x: 0, y: -10 }, { x: 50, y: 40 }] }), ...maybe(rng, 0.4, { as: ['px', 'py', 'pk'] }) } }), run: runKde2 },
    {
      name: 'wiggle', quick: 0, gen: () => ({}), run: (c, env) => V.withView({}, async view => {
        const b = view.data(clone(c.rows)); b.transform([{ type: 'stack', offset: 'wiggle', stackField: 'v', dimensionField: 'c', asStack: 's', asPrevStack: 'p' }]);
        await view.run();
        const n = c.rows.length, g0 = -c.rows.reduce((s, d, i) => s + (n - i) * d.v, 0) / (n + 1);
        env.check(V.near(b.output()[0].p, g0), () => `wiggle baseline is ${b.output()[0].p} instead of ${g0}`);
      })
    }
  ]
};
