'use strict';
// Encodings as plain JSON, their translation to real encoders, and a reference interpreter of what
// they denote: channel values per datum, and the graphic attributes those channels resolve to.
const vg = global.__VG__;
const COLORS = ['red', 'green', 'blue', '#123456', 'rgba(1,2,3,0.5)'];
const CATS = ['A', 'B', 'C', 'D'];

const getPath = (d, p) => p.split('.').reduce((o, k) => (o === undefined || o === null ? undefined : o[k]), d);

// --- scales of the model, and an independently built scale of the same declaration
const SCALES = {
  lin: { type: 'linear', domain: [0, 20], range: [10, 210] },
  rev: { type: 'linear', domain: [-5, 15], range: [100, 0] },
  band: { type: 'band', domain: CATS, range: [0, 160] },
  pt: { type: 'point', domain: CATS, range: [0, 90] },
  ord: { type: 'ordinal', domain: CATS, range: COLORS.slice(0, 4) }
};
const CLS = { linear: 'LinearScale', band: 'BandScale', point: 'PointScale', ordinal: 'OrdinalScale' };
const refScales = {};
for (const k of Object.keys(SCALES)) refScales[k] = new vg.vscale[CLS[SCALES[k].type]]().domain(SCALES[k].domain).range(SCALES[k].range);

/** real encoder for a JSON encoding of one channel */
function toEnc(e, probe) {
  const hit = (d, el, p) => probe && probe(d, el, p);
  switch (e.t) {
    case 'const': return e.v;
    case 'sig': return { signal: e.s };
    case 'field': return { field: e.f };
    case 'scale': { const o = { scale: e.scale }; for (const k of ['field', 'value', 'band', 'offset']) if (e[k] !== undefined) o[k] = e[k]; return o; }
    case 'fn': return (d, el, p) => { hit(d, el, p); return e.cat ? COLORS[Math.abs(getPath(one(d), e.f) || 0) % COLORS.length] : (getPath(one(d), e.f) || 0) * e.k + 1; };
    case 'cb': return { callback: (d, el, p) => { hit(d, el, p); return (getPath(one(d), e.f) || 0) + p[e.s] * e.k; }, dependency: [e.s] };
  }
  throw Object.assign(new Error('bad enc'), { harness: true });
}
const one = d => (Array.isArray(d) ? d[0] : d);
/** the value it denotes */
function value(e, d, sig) {
  switch (e.t) {
    case 'const': return e.v;
    case 'sig': return sig[e.s];
    case 'field': return getPath(d, e.f);
    case 'scale': {
      const s = refScales[e.scale];
      const to = e.field !== undefined ? s.scale(getPath(d, e.field)) : e.value !== undefined && e.value !== null ? s.scale(e.value) : 0;
      const band = e.band !== undefined && e.band !== null && s.bandwidth ? s.bandwidth() * e.band : null;
      return typeof to === 'number' || typeof band === 'number' ? to + (e.offset || 0) + band : to;
    }
    case 'fn': return e.cat ? COLORS[Math.abs(getPath(one(d), e.f) || 0) % COLORS.length] : (getPath(one(d), e.f) || 0) * e.k + 1;
    case 'cb': return (getPath(one(d), e.f) || 0) + sig[e.s] * e.k;
  }
}
const isSetFn = set => set && set.$fn;
function toSet(set, probe) {
  if (isSetFn(set)) return (d, el, p) => { if (probe) probe(d, el, p); return valueSet(set.$fn, d, p); };
  const o = {};
  for (const ch of Object.keys(set)) o[ch] = toEnc(set[ch], probe);
  return o;
}
function valueSet(set, d, sig) {
  const o = {};
  const s = isSetFn(set) ? set.$fn : set;
  for (const ch of Object.keys(s)) o[ch] = value(s[ch], d, sig);
  return o;
}

const num = v => typeof v === 'number' && Number.isFinite(v);
/** graphic attributes denoted by the accumulated channels of a plain (one-graphic) mark */
function graphicOf(type, ch) {
  const out = {};
  const rest = Object.assign({}, ch);
  const take = ks => ks.forEach(k => delete rest[k]);
  const any = ks => ks.some(k => k in ch);
  if (type === 'rule' && any(['x', 'y', 'x1', 'y1'])) {
    const { x, y, x1, y1 } = ch;
    out.points = [x, y, x1, y1].every(num) ? [{ x, y }, { x: x1, y: y1 }] : [];
    out.x = 0; out.y = 0;
    take(['x', 'y', 'x1', 'y1']);
  }
  if (type === 'text' && any(['text', 'limit', 'autoLimit', 'maxLineWidth'])) {
    const lim = Math.min(ch.limit === undefined || ch.limit === null ? Infinity : ch.limit, ch.autoLimit === undefined || ch.autoLimit === null ? Infinity : ch.autoLimit);
    out.maxLineWidth = lim === Infinity ? ch.maxLineWidth : lim;
    out.text = ch.text;
    take(['text', 'limit', 'autoLimit', 'maxLineWidth']);
  }
  if (type === 'symbol') {
    if (any(['shape', 'symbolType'])) { out.symbolType = ch.shape !== undefined && ch.shape !== null ? ch.shape : ch.symbolType; take(['shape', 'symbolType']); }
    if (any(['image', 'fill', 'background'])) {
      if (ch.image) { out.background = ch.image; out.fill = false; } else { out.fill = ch.fill; out.background = ch.background; }
      take(['image', 'fill', 'background']);
    }
  }
  if (type === 'rect3d' && any(['x', 'y', 'z', 'x1', 'y1', 'z1', 'width', 'height', 'length'])) {
    for (const [p, q, s] of [['x', 'x1', 'width'], ['y', 'y1', 'height'], ['z', 'z1', 'length']]) {
      if (num(ch[s])) { out[p] = Math.min(ch[p] === undefined ? 0 : ch[p], ch[q] === undefined ? Infinity : ch[q]); out[s] = ch[s]; }
      else if (num(ch[q])) { out[p] = Math.min(ch[p], ch[q]); out[s] = Math.abs(ch[q] - ch[p]); }
      else out[p] = ch[p] === undefined ? 0 : ch[p];
    }
    take(['x', 'y', 'z', 'x1', 'y1', 'z1', 'width', 'height', 'length']);
  }
  if ('fillOpacity' in rest) rest.fillOpacity = rest.fillOpacity === undefined || rest.fillOpacity === null ? 1 : rest.fillOpacity;
  return Object.assign(out, rest);
}
/** bookkeeping attributes that carry the untransformed channels */
const INTERNAL = ['pointAttrs', 'limitAttrs', 'imageAttrs', 'sizeAttrs'];

// --- generation
const TYPES = {
  rect: { n: ['x', 'y', 'width', 'height', 'x1', 'y1', 'lineWidth', 'cornerRadius'], c: ['fill', 'stroke'], o: ['opacity', 'fillOpacity'] },
  symbol: { n: ['x', 'y', 'size', 'lineWidth'], c: ['fill', 'stroke', 'background'], o: ['fillOpacity'], s: { shape: ['circle', 'square'], symbolType: ['triangle', 'diamond'] } },
  text: { n: ['x', 'y', 'fontSize', 'limit', 'autoLimit', 'maxLineWidth', 'dx'], c: ['fill'], o: ['fillOpacity'], s: { text: ['hello', 'a b'], textAlign: ['left', 'center'] } },
  rule: { n: ['x', 'y', 'x1', 'y1', 'lineWidth'], c: ['stroke'], o: ['strokeOpacity'] },
  arc: { n: ['x', 'y', 'startAngle', 'endAngle', 'innerRadius', 'outerRadius'], c: ['fill'], o: ['fillOpacity'] },
  path: { n: ['x', 'y', 'lineWidth', 'angle'], c: ['fill', 'stroke'], o: ['fillOpacity'], s: { path: ['M0,0L10,10', 'M0,0L5,0L5,5Z'] } },
  polygon: { n: ['x', 'y', 'lineWidth'], c: ['fill', 'stroke'], o: ['opacity'] },
  image: { n: ['x', 'y', 'width', 'height'], c: ['fill'], o: ['opacity'] },
  rect3d: { n: ['x', 'y', 'z', 'x1', 'y1', 'width', 'height', 'length'], c: ['fill'], o: ['fillOpacity'] },
  circle: { n: ['x', 'y', 'radius'], c: ['fill'], o: ['fillOpacity'] }
};
function genNumEnc(r, noUndef) {
  return r.wpick([
    [3, () => ({ t: 'const', v: r.int(-20, 120) })],
    [2, () => ({ t: 'field', f: r.pick(noUndef ? ['v', 'o.p', 'o.q.r'] : ['v', 'w', 'o.p', 'o.q.r', 'v']) })],
    [2, () => ({ t: 'scale', scale: r.pick(['lin', 'rev']), field: r.pick(['v', 'o.p']), ...(r.bool(0.3) ? { offset: r.int(-9, 9) } : {}), ...(r.bool(0.15) ? { band: 0.5 } : {}) })],
    [2, () => ({ t: 'scale', scale: r.pick(['band', 'pt', 'band']), field: r.pick(['c', 'o.c']), ...(r.bool(0.5) ? { band: r.pick([0, 0.5, 1, 0.25]) } : {}), ...(r.bool(0.3) ? { offset: r.int(-9, 9) } : {}) })],
    [1, () => ({ t: 'scale', scale: r.pick(['lin', 'rev']), value: r.pick([0, 3, 20, -2]) })],
    [1, () => ({ t: 'scale', scale: 'band', value: r.pick(CATS), ...(r.bool() ? { band: 0.5 } : {}) })],
    [1, () => ({ t: 'scale', scale: 'band', band: r.pick([0.1, 1, 0.5]) })],
    [2, () => ({ t: 'sig', s: r.pick(['s0', 's1']) })],
    [2, () => ({ t: 'fn', f: r.pick(['v', 'o.p']), k: r.int(-2, 3) })],
    [2, () => ({ t: 'cb', f: r.pick(['v', 'o.p']), s: r.pick(['s0', 's1']), k: r.int(1, 3) })]])();
}
function genColEnc(r) {
  return r.wpick([
    [3, () => ({ t: 'const', v: r.pick(COLORS) })],
    [2, () => ({ t: 'scale', scale: 'ord', field: r.pick(['c', 'o.c']) })],
    [1, () => ({ t: 'scale', scale: 'ord', value: r.pick(CATS) })],
    [1, () => ({ t: 'field', f: 'col' })],
    [1, () => ({ t: 'fn', f: 'v', cat: 1 })],
    [1, () => ({ t: 'sig', s: 'sc' })]])();
}
const OPS = [0, 0.25, 0.5, 1];
function genSet(r, type, p, noUndef) {
  const T = TYPES[type];
  const o = {};
  T.n.forEach(ch => { if (r.bool(p)) o[ch] = genNumEnc(r, noUndef); });
  T.c.forEach(ch => { if (r.bool(p)) o[ch] = genColEnc(r); });
  T.o.forEach(ch => { if (r.bool(p)) o[ch] = { t: 'const', v: r.pick(OPS) }; });
  for (const ch of Object.keys(T.s || {})) if (r.bool(p)) o[ch] = r.bool(0.7) ? { t: 'const', v: r.pick(T.s[ch]) } : ch === 'text' ? { t: 'field', f: 'c' } : { t: 'const', v: r.pick(T.s[ch]) };
  return o;
}
function genRow(r, k) {
  return { k, g: r.pick(['g1', 'g2']), c: r.pick(CATS), v: r.int(-5, 25), ...(r.bool(0.9) ? { w: r.num(0, 20, 1) } : {}), col: r.pick(COLORS), o: { p: r.int(0, 15), c: r.pick(CATS), q: { r: r.int(0, 50) } } };
}
function genRows(r, lo = 0, hi = 6) { return r.sample('abcdefgh'.split(''), r.int(lo, hi)).map(k => genRow(r, k)); }
const SIGS = () => ({ s0: 5, s1: 30, sc: 'red' });
function declare(view, rows) {
  const sig = SIGS();
  for (const k of Object.keys(sig)) view.signal(sig[k]).id(k);
  for (const k of Object.keys(SCALES)) view.scale(SCALES[k].type).id(k).domain(SCALES[k].domain.slice()).range(SCALES[k].range.slice());
  view.data(rows).id('d');
  return sig;
}
const refsOf = set => { const s = new Set(); const e = isSetFn(set) ? set.$fn : set; for (const ch of Object.keys(e)) { if (e[ch].s) s.add(e[ch].s); if (e[ch].scale) s.add(e[ch].scale); } return [...s]; };

module.exports = { TYPES, SCALES, refScales, COLORS, CATS, toEnc, toSet, value, valueSet, graphicOf, INTERNAL, genNumEnc, genColEnc, genSet, genRow, genRows, declare, SIGS, refsOf, isSetFn, getPath };
