'use strict';
// Random view models (plain JSON) + edit operations, and their translation into real VGrammar
// specs / API calls. A model denotes everything a user declared; `toSpec(model)` is what a fresh
// view would be given, `applyEdit(view, model, edit)` performs the same change on a live view.

const clone = x => JSON.parse(JSON.stringify(x));
const CATS = ['A', 'B', 'C'];
const COLORS = ['#111111', '#222222', '#333333', '#444444', '#555555'];

function genRows(r, n) {
  n = n === undefined ? r.wpick([[1, 0], [2, 1], [8, r.int(2, 8)]]) : n;
  const keys = r.shuffle('abcdefghijklmnop'.split('')).slice(0, n);
  return keys.map(k => ({ k, c: r.pick(CATS), v: r.int(-3, 30), w: r.num(0, 10, 1) }));
}

// --- pure evaluation helpers shared by both sides (they only read what the library hands them)
const OPS = {
  sum: (vals, k) => vals.reduce((a, b) => a + b, 0) + k,
  max: (vals, k) => Math.max(k, ...vals),
  lin: (vals, k) => vals.reduce((a, b, i) => a + b * (i + 2), 0) - k
};
function sigFn(s, probe) {
  return {
    callback: (old, p) => {
      const vals = s.deps.map(d => p[d]);
      const out = OPS[s.op](vals, s.k);
      if (probe) probe('signal', s.id, Object.fromEntries(s.deps.map(d => [d, p[d]])), out);
      return out;
    },
    dependency: s.deps.slice()
  };
}
function encToSpec(e, probe, where) {
  if (e.const !== undefined) return e.const;
  if (e.sig) return { signal: e.sig };
  if (e.cb) {
    return {
      callback: (d, el, p) => {
        if (probe) probe('encode', where, Object.fromEntries(e.cb.map(x => [x, p[x]])));
        return e.k + e.cb.reduce((a, x) => a + p[x], 0) + (e.df ? (d && d[e.df]) || 0 : 0);
      },
      dependency: e.cb.slice()
    };
  }
  if (e.scale) {
    const o = { scale: e.scale };
    for (const k of ['field', 'band', 'offset', 'value']) if (e[k] !== undefined) o[k] = e[k];
    return o;
  }
  if (e.field) return { field: e.field };
  throw Object.assign(new Error('bad enc ' + JSON.stringify(e)), { harness: true });
}
function encodeSet(set, probe, where) {
  const o = {};
  for (const ch of Object.keys(set)) o[ch] = encToSpec(set[ch], probe, where + '.' + ch);
  return o;
}
function trToSpec(t, probe, where) {
  if (t.type === 'filter') {
    return {
      type: 'filter',
      callback: (d, p) => { if (probe) probe('data', where, t.sig ? { [t.sig]: p[t.sig] } : {}); return d[t.field] >= (t.sig ? p[t.sig] : 0) + t.cut; },
      dependency: t.sig ? [t.sig] : []
    };
  }
  if (t.type === 'map') {
    return { type: 'map', as: t.as, callback: (d, p) => d[t.field] * t.k + (t.sig ? p[t.sig] : 0), dependency: t.sig ? [t.sig] : [] };
  }
  if (t.type === 'sort') return { type: 'sort', sort: { field: t.field, order: t.order } };
  throw Object.assign(new Error('bad tr'), { harness: true });
}
const vec = (v, probe, where) => {
  if (v.lit) return v.lit;
  return { callback: (old, p) => { if (probe) probe('fn', where, Object.fromEntries(v.sigs.filter(Boolean).map(s => [s, p[s]]))); return v.sigs.map((s, i) => v.base[i] + (s ? p[s] : 0)); }, dependency: v.sigs.filter(Boolean) };
};
const scalar = v => (v && v.sig ? { signal: v.sig } : v);
function domainSpec(d, probe, where) {
  if (d.data) return d.fields ? { data: d.data, field: d.fields } : { data: d.data, field: d.field };
  if (d.datas) return { datas: d.datas.map(x => ({ data: x.data, field: x.field })) };
  return vec(d, probe, where);
}
function rangeSpec(d, probe, where) {
  if (d.coord) return { coordinate: d.coord, dimension: d.dim, reversed: d.rev };
  return vec(d, probe, where);
}
function scaleCfg(s) {
  const o = {};
  for (const k of Object.keys(s.cfg || {})) o[k] = scalar(s.cfg[k]);
  return o;
}
function stateFn(m, probe) {
  const s = m.state;
  return { callback: (d, el, p) => { const row = Array.isArray(d) ? d[0] : d; return row && row[s.field] >= p[s.sig] ? s.states.slice() : []; }, dependency: [s.sig] };
}

function topoSignals(model) {
  const by = new Map(model.signals.map(s => [s.id, s]));
  const out = [], seen = new Set();
  const visit = id => { if (seen.has(id) || !by.has(id)) return; seen.add(id); const s = by.get(id); (s.deps || []).forEach(visit); out.push(s); };
  model.signals.forEach(s => visit(s.id));
  return out;
}
function topoDatas(model) {
  const by = new Map(model.datas.map(s => [s.id, s]));
  const out = [], seen = new Set();
  const visit = id => { if (seen.has(id)) return; seen.add(id); const s = by.get(id); if (s.source) visit(s.source); out.push(s); };
  model.datas.forEach(s => visit(s.id));
  return out;
}
function signalSpec(s, probe) { return s.deps ? { id: s.id, update: sigFn(s, probe) } : { id: s.id, value: s.value }; }
function dataSpec(d, probe) {
  const o = { id: d.id };
  if (d.source) o.source = d.source; else o.values = clone(d.values);
  if (d.transforms && d.transforms.length) o.transform = d.transforms.map(t => trToSpec(t, probe, d.id));
  return o;
}
function coordSpec(c, probe) {
  const o = { id: c.id, type: c.type };
  for (const k of ['start', 'end', 'translate', 'scale']) if (c[k]) o[k] = vec(c[k], probe, c.id + '.' + k);
  for (const k of ['rotate', 'transpose']) if (c[k] !== undefined) o[k] = scalar(c[k]);
  return o;
}
function scaleSpec(s, probe) {
  return Object.assign({ id: s.id, type: s.type, domain: domainSpec(s.domain, probe, s.id + '.domain'), range: rangeSpec(s.range, probe, s.id + '.range') }, scaleCfg(s));
}
function markSpec(m, probe) {
  const o = { id: m.id, type: m.type, encode: { update: encodeSet(m.encode, probe, m.id) } };
  if (m.enter) o.encode.enter = encodeSet(m.enter, probe, m.id);
  for (const st of Object.keys(m.stateEnc || {})) o.encode[st] = encodeSet(m.stateEnc[st], probe, m.id);
  if (m.data) { o.from = { data: m.data }; }
  if (m.key) o.key = m.key;
  if (m.groupBy) o.groupBy = m.groupBy;
  if (m.sortBy) o.sort = sorter(m.sortBy);
  if (m.state) o.state = stateFn(m, probe);
  if (m.coordinate) o.coordinate = m.coordinate;
  if (m.marks) o.marks = m.marks.map(x => markSpec(x, probe));
  return o;
}
const sorter = f => (a, b) => { const g = d => (Array.isArray(d) ? d[0] : d); const x = g(a) && g(a)[f], y = g(b) && g(b)[f]; return x < y ? -1 : x > y ? 1 : 0; };
function toSpec(model, probe) {
  return {
    width: model.w, height: model.h, padding: model.padding || 0,
    signals: topoSignals(model).map(s => signalSpec(s, probe)),
    data: topoDatas(model).map(d => dataSpec(d, probe)),
    coordinates: model.coords.map(c => coordSpec(c, probe)),
    scales: model.scales.map(s => scaleSpec(s, probe)),
    marks: model.marks.map(m => markSpec(m, probe))
  };
}

// --- generation
const reaches = (model, from, to) => { // does signal `from` depend (transitively) on `to`?
  if (from === to) return true;
  const s = model.signals.find(x => x.id === from);
  return !!(s && s.deps && s.deps.some(d => reaches(model, d, to)));
};
function genVec(r, model, lo, hi) {
  if (r.bool(0.55)) return { lit: [lo, hi] };
  return { base: [lo, hi], sigs: [r.bool(0.4) ? r.pick(model.signals).id : null, r.pick(model.signals).id] };
}
function genDomain(r, model, type) {
  const d = r.pick(model.datas).id;
  if (type === 'linear') {
    return r.wpick([
      [4, () => ({ data: d, field: r.pick(['v', 'w']) })],
      [1, () => ({ data: d, fields: ['v', 'w'] })],
      [1, () => ({ datas: r.sample(model.datas, 2).map(x => ({ data: x.id, field: r.pick(['v', 'w']) })) })],
      [2, () => genVec(r, model, r.int(-5, 0), r.int(10, 40))]])();
  }
  return r.bool(0.75) ? { data: d, field: r.pick(['k', 'c']) } : { lit: r.sample(['a', 'b', 'c', 'd', 'A', 'B', 'C'], r.int(1, 5)) };
}
function genRange(r, model, type) {
  if (type === 'ordinal') return { lit: r.sample(COLORS, r.int(2, 5)) };
  if (model.coords.length && r.bool(0.3)) return { coord: r.pick(model.coords).id, dim: r.pick(['x', 'y']), rev: r.bool(0.3) };
  return genVec(r, model, r.int(0, 20), r.int(100, 300));
}
function genScaleCfg(r, model, type) {
  const o = {};
  const sv = (lit) => lit;
  if (type === 'linear') {
    if (r.bool(0.4)) o.zero = r.bool(0.8);
    if (r.bool(0.4)) o.nice = r.bool(0.8);
    if (r.bool(0.15)) o.clamp = r.bool();
    if (r.bool(0.15)) o.min = sv(r.int(-10, 0));
    if (r.bool(0.15)) o.max = r.bool(0.5) ? { sig: r.pick(model.signals).id } : r.int(35, 60);
  } else if (type === 'band') {
    if (r.bool(0.5)) o.paddingInner = r.pick([0, 0.1, 0.25]);
    if (r.bool(0.3)) o.paddingOuter = r.pick([0, 0.2, 0.5]);
    if (r.bool(0.2)) o.round = r.bool();
  } else if (type === 'point') {
    if (r.bool(0.5)) o.padding = r.pick([0, 0.3, 0.5]);
  }
  return o;
}
const NUMCH = { rect: ['x', 'y', 'width', 'height', 'fillOpacity'], symbol: ['x', 'y', 'size', 'lineWidth'], text: ['x', 'y', 'fontSize', 'text'], rule: ['x', 'y', 'x1', 'y1'], line: ['x', 'y', 'lineWidth'], area: ['x', 'y', 'y1'], arc: ['x', 'y', 'startAngle', 'endAngle', 'outerRadius'], group: ['x', 'y', 'width', 'height'] };
function genEnc(r, model, m, ch) {
  // a point of a line/area whose channel has no value keeps its last value (by design): only total scales there
  const lin = model.scales.filter(s => s.type !== 'ordinal' && (s.type === 'linear' || (m.type !== 'line' && m.type !== 'area')));
  const hasRows = !!m.data;
  const opts = [
    [2, () => ({ const: ch === 'text' ? 't' + r.int(0, 9) : r.int(0, 120) })],
    [2, () => ({ sig: r.pick(model.signals).id })],
    [2, () => ({ cb: r.sample(model.signals, r.int(1, 2)).map(s => s.id), k: r.int(0, 9), df: hasRows && r.bool(0.6) ? 'v' : null })]
  ];
  if (hasRows) opts.push([2, () => ({ field: r.pick(['v', 'w']) })]);
  if (lin.length && ch !== 'text') {
    opts.push([5, () => {
      const s = r.pick(lin);
      const f = s.type === 'linear' ? r.pick(['v', 'w']) : r.pick(['k', 'c']);
      if (!hasRows) return { scale: s.id, value: s.type === 'linear' ? r.int(0, 20) : r.pick(['a', 'A']) };
      const e = { scale: s.id, field: f };
      if (s.type === 'band' && r.bool(0.4)) e.band = r.pick([0.5, 1]);
      if (r.bool(0.2)) e.offset = r.int(-5, 5);
      return e;
    }]);
  }
  return r.wpick(opts)();
}
function genMark(r, model, id, type, allowGroup) {
  type = type || r.pick(['rect', 'symbol', 'text', 'rule', 'line', 'area', 'arc'].concat(allowGroup ? ['group'] : []));
  const m = { id, type };
  if (type !== 'group') {
    m.data = r.bool(0.92) ? r.pick(model.datas).id : null;
    if (m.data) {
      if (type === 'line' || type === 'area') { if (r.bool(0.6)) m.groupBy = 'c'; } else {
        m.key = r.bool(0.8) ? 'k' : undefined;
        if (r.bool(0.2)) m.groupBy = 'c';
      }
      if (r.bool(0.2)) m.sortBy = r.pick(['v', 'k']);
    }
  }
  m.encode = {};
  for (const ch of NUMCH[type]) m.encode[ch] = genEnc(r, model, m, ch);
  const ords = model.scales.filter(s => s.type === 'ordinal');
  if (m.data && ords.length && r.bool(0.6) && type !== 'line' && type !== 'rule') m.encode.fill = { scale: r.pick(ords).id, field: r.pick(['c', 'k']) };
  if (r.bool(0.3)) m.enter = { opacity: { const: r.pick([0.25, 0.5, 1]) } };
  if (type !== 'group' && type !== 'line' && type !== 'area' && m.data && r.bool(0.35)) {
    m.stateEnc = { hi: { opacity: { const: 0.1 }, [NUMCH[type][0]]: { const: 7 } }, lo: { stroke: { const: 'red' } } };
    m.state = { sig: r.pick(model.signals).id, field: r.pick(['v', 'w']), states: r.pick([['hi'], ['lo'], ['hi', 'lo']]) };
  }
  if (type !== 'group' && type !== 'arc' && model.coords.length && r.bool(0.2)) m.coordinate = r.pick(model.coords).id;
  return m;
}
function genModel(r, opt = {}) {
  const model = { w: 400, h: 300, padding: r.bool(0.3) ? r.int(1, 20) : 0, signals: [], datas: [], coords: [], scales: [], marks: [], n: 0 };
  const fresh = p => p + (model.n++);
  const ns = r.int(2, 5);
  for (let i = 0; i < ns; i++) {
    if (i && r.bool(0.45)) model.signals.push(genDerived(r, model, fresh('s')));
    else model.signals.push({ id: fresh('s'), value: r.int(0, 12) });
  }
  const nd = r.int(1, 3);
  for (let i = 0; i < nd; i++) {
    const d = { id: fresh('d') };
    if (i && r.bool(0.45)) d.source = r.pick(model.datas).id; else d.values = genRows(r);
    d.transforms = genTransforms(r, model);
    model.datas.push(d);
  }
  const nc = r.wpick([[3, 0], [2, 1]]);
  for (let i = 0; i < nc; i++) model.coords.push(genCoord(r, model, fresh('c')));
  const nsc = r.int(1, 4);
  for (let i = 0; i < nsc; i++) model.scales.push(genScale(r, model, fresh('x')));
  const nm = r.int(1, 3);
  for (let i = 0; i < nm; i++) {
    const m = genMark(r, model, fresh('m'), undefined, true);
    if (m.type === 'group') m.marks = r.times(r.int(0, 2), () => genMark(r, model, fresh('m'), undefined, false));
    model.marks.push(m);
  }
  return model;
}
function genDerived(r, model, id) {
  return { id, deps: r.sample(model.signals, r.int(1, 2)).map(s => s.id), op: r.pick(Object.keys(OPS)), k: r.int(0, 4) };
}
function genTransforms(r, model) {
  const t = [];
  if (r.bool(0.4)) t.push({ type: 'filter', field: r.pick(['v', 'w']), cut: r.int(-4, 4), sig: r.bool(0.6) ? r.pick(model.signals).id : null });
  if (r.bool(0.25)) t.push({ type: 'sort', field: r.pick(['v', 'k']), order: r.pick(['asc', 'desc']) });
  return t;
}
function genCoord(r, model, id) {
  const c = { id, type: 'cartesian', start: genVec(r, model, 0, 0), end: genVec(r, model, 200, 150) };
  if (r.bool(0.3)) c.translate = { lit: [r.int(0, 9), r.int(0, 9)] };
  if (r.bool(0.2)) c.transpose = r.bool();
  if (r.bool(0.2)) c.scale = { lit: [r.pick([1, 2]), r.pick([0.5, 1])] };
  return c;
}
function genScale(r, model, id) {
  const type = r.pick(['linear', 'linear', 'band', 'point', 'ordinal']);
  const cfg = genScaleCfg(r, model, type);
  if (type === 'ordinal') cfg.unknown = '#999999'; // without it an ordinal scale learns values in encounter order, by design
  return { id, type, domain: genDomain(r, model, type), range: genRange(r, model, type), cfg };
}
const allMarks = model => { const out = []; const w = m => { out.push(m); (m.marks || []).forEach(w); }; model.marks.forEach(w); return out; };

// --- edits: {op, ...} ; apply to the model (pure) and to a live view
function genEdit(r, model, opt = {}) {
  const marks = allMarks(model);
  const E = [
    [6, () => { const c = model.signals.filter(s => !s.deps); if (!c.length) return null; const s = r.pick(c); return { op: r.pick(['sigSet', 'sigValue']), id: s.id, value: r.int(0, 14) }; }],
    [1, () => { const s = r.pick(model.signals); const c = model.signals.filter(x => !reaches(model, x.id, s.id)); if (!c.length) return null; return { op: 'sigUpdate', id: s.id, deps: r.sample(c, r.int(1, 2)).map(x => x.id), fn: r.pick(Object.keys(OPS)), k: r.int(0, 4) }; }],
    [1, () => { const s = model.signals.filter(x => x.deps); if (!s.length) return null; return { op: 'sigValue', id: r.pick(s).id, value: r.int(0, 14) }; }],
    [1, () => ({ op: 'addSignal', value: r.int(0, 9) })],
    [5, () => { const c = model.datas.filter(d => !d.source); return { op: 'dataValues', id: r.pick(c).id, values: r.bool(0.5) ? genRows(r) : mutateRows(r, r.pick(c).values) }; }],
    [2, () => ({ op: 'dataTransform', id: r.pick(model.datas).id, transforms: genTransforms(r, model) })],
    [1, () => { const d = r.pick(model.datas); const c = model.datas.filter(x => !srcReaches(model, x.id, d.id)); if (!c.length || model.datas.filter(x => !x.source).length < 2 && !d.source) return null; return { op: 'dataSource', id: d.id, source: r.pick(c).id }; }],
    [2, () => { const s = r.pick(model.scales); return { op: 'scaleDomain', id: s.id, domain: genDomain(r, model, s.type) }; }],
    [2, () => { const s = r.pick(model.scales); return { op: 'scaleRange', id: s.id, range: genRange(r, model, s.type) }; }],
    [2, () => { const s = r.pick(model.scales); const cfg = genScaleCfg(r, model, s.type); return Object.keys(cfg).length ? { op: 'scaleConfigure', id: s.id, cfg } : null; }],
    [5, () => { const m = r.pick(marks); const ch = r.pick(NUMCH[m.type]); return { op: 'encode', id: m.id, ch, enc: genEnc(r, model, m, ch) }; }],
    [3, () => { const m = r.pick(marks); const chs = r.subset(NUMCH[m.type], 0.5); if (!chs.length) return null; const set = {}; chs.forEach(ch => (set[ch] = genEnc(r, model, m, ch))); return { op: 'encodeMany', id: m.id, set }; }],
    [2, () => { const m = r.pick(marks.filter(x => x.data).concat(marks[0])); if (!m.data) return null; return { op: 'join', id: m.id, data: r.pick(model.datas).id }; }],
    [1, () => { if (!model.coords.length) return null; const c = r.pick(model.coords); const k = r.pick(['start', 'end', 'translate']); return { op: 'coord', id: c.id, key: k, val: k === 'end' ? genVec(r, model, 200, 150) : k === 'start' ? genVec(r, model, 0, 0) : { lit: [r.int(0, 9), r.int(0, 9)] } }; }],
    [1, () => ({ op: 'resize', w: r.int(200, 500), h: r.int(200, 400) })],
    [1, () => { const m = r.pick(marks.filter(x => x.state).concat([null])); return m ? { op: 'state', id: m.id, state: { sig: r.pick(model.signals).id, field: r.pick(['v', 'w']), states: r.pick([['hi'], ['lo'], ['hi', 'lo']]) } } : null; }]
  ];
  for (let i = 0; i < 8; i++) { const e = r.wpick(E)(); if (e) return e; }
  return { op: 'noop' };
}
const srcReaches = (model, from, to) => { if (from === to) return true; const d = model.datas.find(x => x.id === from); return !!(d && d.source && srcReaches(model, d.source, to)); };
function mutateRows(r, rows) {
  let out = clone(rows);
  if (r.bool(0.4)) out = r.shuffle(out);
  out = out.filter(() => r.bool(0.8));
  out.forEach(d => { if (r.bool(0.4)) d.v = r.int(-3, 30); if (r.bool(0.2)) d.c = r.pick(CATS); });
  const used = new Set(out.map(d => d.k));
  'abcdefghijklmnop'.split('').filter(k => !used.has(k) && r.bool(0.12)).forEach(k => out.push({ k, c: r.pick(CATS), v: r.int(-3, 30), w: r.num(0, 10, 1) }));
  return out;
}
function editModel(model, e) {
  const find = (arr, id) => arr.find(x => x.id === id);
  switch (e.op) {
    case 'sigSet': case 'sigValue': { const s = find(model.signals, e.id); delete s.deps; delete s.op; delete s.k; s.value = e.value; break; }
    case 'sigUpdate': { const s = find(model.signals, e.id); delete s.value; s.deps = e.deps; s.op = e.fn; s.k = e.k; break; }
    case 'addSignal': { e.id = 's' + (model.n++); model.signals.push({ id: e.id, value: e.value }); break; }
    case 'dataValues': { const d = find(model.datas, e.id); delete d.source; d.values = clone(e.values); break; }
    case 'dataTransform': find(model.datas, e.id).transforms = clone(e.transforms); break;
    case 'dataSource': { const d = find(model.datas, e.id); delete d.values; d.source = e.source; break; }
    case 'scaleDomain': find(model.scales, e.id).domain = e.domain; break;
    case 'scaleRange': find(model.scales, e.id).range = e.range; break;
    case 'scaleConfigure': Object.assign(find(model.scales, e.id).cfg, e.cfg); break;
    case 'encode': find(allMarks(model), e.id).encode[e.ch] = e.enc; break;
    case 'encodeMany': Object.assign(find(allMarks(model), e.id).encode, e.set); break;
    case 'join': { find(allMarks(model), e.id).data = e.data; break; }
    case 'coord': find(model.coords, e.id)[e.key] = e.val; break;
    case 'resize': model.w = e.w; model.h = e.h; break;
    case 'state': find(allMarks(model), e.id).state = e.state; break;
  }
}
/** apply to the live view; `model` is the model *after* the edit */
function editView(view, model, e, probe) {
  const find = (arr, id) => arr.find(x => x.id === id);
  switch (e.op) {
    case 'sigSet': { const s = view.getSignalById(e.id); if (s.set(e.value)) view.commit(s); break; }
    case 'sigValue': view.getSignalById(e.id).value(e.value); break;
    case 'sigUpdate': view.getSignalById(e.id).update(sigFn(find(model.signals, e.id), probe)); break;
    case 'addSignal': view.signal().parse({ id: e.id, value: e.value }); break;
    case 'dataValues': view.getDataById(e.id).values(clone(e.values)); break;
    case 'dataTransform': view.getDataById(e.id).transform(e.transforms.map(t => trToSpec(t, probe, e.id))); break;
    case 'dataSource': view.getDataById(e.id).source(e.source); break;
    case 'scaleDomain': view.getScaleById(e.id).domain(domainSpec(e.domain, probe, e.id + '.domain')); break;
    case 'scaleRange': view.getScaleById(e.id).range(rangeSpec(e.range, probe, e.id + '.range')); break;
    case 'scaleConfigure': view.getScaleById(e.id).configure(scaleCfg(e)); break;
    case 'encode': view.getMarkById(e.id).encode(e.ch, encToSpec(e.enc, probe, e.id + '.' + e.ch)); break;
    case 'encodeMany': view.getMarkById(e.id).encode(encodeSet(e.set, probe, e.id)); break;
    case 'join': { const m = find(allMarks(model), e.id); view.getMarkById(e.id).join(e.data, m.key, m.sortBy ? sorter(m.sortBy) : undefined, m.groupBy); break; }
    case 'coord': view.getCoordinateById(e.id)[e.key](vec(e.val, probe, e.id + '.' + e.key)); break;
    case 'resize': view.width(e.w); view.height(e.h); break;
    case 'state': view.getMarkById(e.id).state(stateFn({ state: e.state }, probe)); break;
  }
}
function snapshot(V, view, model) {
  const out = { signals: {}, data: {}, scales: {}, marks: {} };
  model.signals.forEach(s => (out.signals[s.id] = V.norm(view.getSignalById(s.id).output())));
  ['width', 'height', 'viewWidth', 'viewHeight'].forEach(s => (out.signals[s] = view[s]()));
  model.datas.forEach(d => (out.data[d.id] = V.norm(view.getDataById(d.id).output())));
  model.scales.forEach(s => (out.scales[s.id] = V.snapScale(view.getScaleById(s.id))));
  allMarks(model).forEach(m => (out.marks[m.id] = V.snapMark(view.getMarkById(m.id))));
  return out;
}
module.exports = { genModel, genEdit, editModel, editView, toSpec, snapshot, clone, allMarks, topoSignals, genRows, mutateRows, genMark, genScale, genDerived, markSpec, scaleSpec, dataSpec, reaches, NUMCH, sorter };
