'use strict';
// Projections: real projection grammars (alone and in views, with live options), compared with the map library
// called directly with the declared options, and with geometric facts about fitted features.
const V = require('../lib/view.cjs');
const d3 = require(V.REPO + '/packages/vgrammar-projection/node_modules/d3-geo');
const P = V.vg.projection;
P.registerProjection();
P.registerGeoTransforms();
const js = JSON.stringify;
const FN = { albers: 'geoAlbers', albersUsa: 'geoAlbersUsa', azimuthalEqualArea: 'geoAzimuthalEqualArea', azimuthalEquidistant: 'geoAzimuthalEquidistant', conicConformal: 'geoConicConformal', conicEqualArea: 'geoConicEqualArea', conicEquidistant: 'geoConicEquidistant', equalEarth: 'geoEqualEarth', equirectangular: 'geoEquirectangular', gnomonic: 'geoGnomonic', identity: 'geoIdentity', mercator: 'geoMercator', naturalEarth1: 'geoNaturalEarth1', orthographic: 'geoOrthographic', stereographic: 'geoStereographic', transverseMercator: 'geoTransverseMercator' };
const spell = (rng, t) => rng.pick([t, t.toLowerCase(), t]);
const VALUES = {
  clipAngle: rng => rng.pick([60, 90, 30, 140]),
  clipExtent: rng => { const x = rng.int(-50, 200), y = rng.int(-50, 200); return [[x, y], [x + rng.int(50, 600), y + rng.int(50, 400)]]; },
  scale: rng => rng.int(40, 900),
  translate: rng => [rng.int(-200, 600), rng.int(-200, 400)],
  center: rng => [rng.int(-90, 90), rng.int(-50, 50)],
  rotate: rng => (rng.bool() ? [rng.int(-170, 170), rng.int(-60, 60)] : [rng.int(-170, 170), rng.int(-60, 60), rng.int(-90, 90)]),
  precision: rng => rng.pick([0.1, 0.5, 1, 3]),
  reflectX: rng => rng.bool(),
  reflectY: rng => rng.bool(),
  parallels: rng => [rng.int(10, 30), rng.int(40, 60)]
};
const PROPS = Object.keys(VALUES);
function genFeature(rng, i) {
  const cx = rng.int(-110, 110), cy = rng.int(-45, 45), s = rng.int(2, 25), pt = () => [cx + rng.num(-s, s, 2), cy + rng.num(-s, s, 2)];
  const box = k => [[cx - s * k, cy - s * k], [cx - s * k, cy + s * k], [cx + s * k, cy + s * k], [cx + s * k, cy - s * k], [cx - s * k, cy - s * k]];
  const geometry = rng.wpick([
    [3, () => ({ type: 'Polygon', coordinates: rng.bool(0.3) ? [box(1), box(0.5).reverse()] : [box(1)] })],
    [2, () => ({ type: 'LineString', coordinates: rng.times(rng.int(2, 5), pt) })],
    [2, () => ({ type: 'Point', coordinates: pt() })],
    [1, () => ({ type: 'MultiPoint', coordinates: rng.times(rng.int(1, 3), pt) })],
    [1, () => ({ type: 'MultiPolygon', coordinates: [[box(1)], [box(0.3).map(p => [p[0] + 3 * s * 0.5, p[1]])]] })]
  ])();
  return rng.bool(0.8) ? { type: 'Feature', id: i, properties: { i }, geometry } : geometry;
}
const isFeature = f => f.type === 'Feature';
const area = f => /Polygon/.test((f.geometry || f).type);
/** what `fit` may be given: one feature, a collection, or a list of features, geometries and collections */
const genFit = (rng, fs) => rng.pick(['one', 'collection', 'list', 'nested']);
const coll = fs => ({ type: 'FeatureCollection', features: fs.map(f => (isFeature(f) ? f : { type: 'Feature', geometry: f })) });
function fitData(kind, fs) {
  if (kind === 'one') return fs[0];
  if (kind === 'collection') return coll(fs);
  if (kind === 'list') return fs;
  return [coll(fs.slice(0, 1))].concat(fs.slice(1));
}
function genSpec(rng) {
  const o = { type: rng.bool(0.06) ? null : rng.pick(Object.keys(FN)) };
  o.name = o.type ? spell(rng, o.type) : null;
  rng.subset(PROPS, 0.25).forEach(p => { o[p] = VALUES[p](rng); });
  // mercator-like projections recompute their clipping from some of the other options only, depending on the order of calls
  if (o.clipExtent && (!o.type || /mercator/i.test(o.type))) delete o.clipExtent;
  if (rng.bool(0.4)) { o.fit = genFit(rng); if (rng.bool(0.6)) o.size = [rng.int(50, 800), rng.int(50, 600)]; else { const x = rng.int(-100, 200), y = rng.int(-100, 200); o.extent = [[x, y], [x + rng.int(50, 700), y + rng.int(50, 500)]]; } }
  if (rng.bool(0.4)) o.pointRadius = rng.pick([1, 3, 10]);
  return o;
}
function reference(o, fs) {
  const p = d3[FN[o.type] || 'geoMercator']();
  for (const k of PROPS) if (o[k] !== undefined && p[k]) p[k](o[k]);
  const fd = o.fit && coll(o.fit === 'one' ? fs.slice(0, 1) : fs);
  if (o.fit && o.extent) p.fitExtent(o.extent, fd);
  else if (o.fit && o.size) p.fitSize(o.size, fd);
  const path = d3.geoPath().projection(p);
  if (o.pointRadius !== undefined) path.pointRadius(o.pointRadius);
  return { p, path };
}
const near = (a, b) => (!Number.isFinite(a) && !Number.isFinite(b)) || Math.abs(a - b) <= 1e-6 * Math.max(1, Math.abs(a), Math.abs(b));
const pn = (a, b) => (!a && !b) || (a && b && near(a[0], b[0]) && near(a[1], b[1]));
const samePath = (a, b) => {
  if (a === b) return true;
  if (!a || !b) return !a === !b;
  const re = /-?\d+(?:\.\d+)?(?:e-?\d+)?/gi;
  return a.replace(re, '#') === b.replace(re, '#') && (() => { const x = a.match(re) || [], y = b.match(re) || []; return x.every((v, i) => Math.abs(v - y[i]) < 1e-4 * Math.max(1, Math.abs(v))); })();
};
function compare(env, tag, out, o, fs, probes, fitted = fs) {
  const r = reference(o, fitted);
  env.saw('projection options', js([o.type, Object.keys(o).sort()]));
  for (const q of probes) {
    env.obs('points projected');
    const a = out(q), b = r.p(q);
    env.check(pn(a, b), () => `${tag}: (${q}) is projected to ${js(a)}, expected ${js(b)}`);
    if (r.p.invert && b && b.every(Number.isFinite)) {
      const c = out.invert(b), d = r.p.invert(b);
      env.check(pn(c, d), () => `${tag}: the projected (${q}) inverts to ${js(c)}, expected ${js(d)}`);
      if (o.type === 'identity' || o.type === 'mercator' || o.type === 'equirectangular' || o.type === null) { const m = o.type === 'identity' ? q[0] : (((q[0] - c[0] + 180) % 360) + 360) % 360 - 180; env.check(o.type === 'identity' ? pn(c, q) : Math.abs(m) < 1e-6 && near(c[1], q[1]), () => `${tag}: (${q}) does not survive projecting and inverting: ${js(c)}`); }
    }
  }
  for (const f of fs) {
    env.obs('paths compared');
    const a = out.path(f), b = r.path(f);
    env.check(samePath(a, b), () => `${tag}: path of ${js(f)} is ${a}, expected ${b}`);
  }
  if (fs.length && o.fit && (o.extent || o.size) && !(o.clipExtent || o.clipAngle) && (!o.type || ['mercator', 'equirectangular', 'equalEarth', 'naturalEarth1', 'identity'].includes(o.type))) { // the others cannot show the whole sphere
    const e = o.extent || [[0, 0], o.size], b = out.path.bounds(coll(o.fit === 'one' ? fs.slice(0, 1) : fs));
    const w = e[1][0] - e[0][0], h = e[1][1] - e[0][1], t = 0.02 * Math.max(w, h) + 0.5;
    if (b.flat().every(Number.isFinite)) {
      env.obs('fits checked');
      env.check(b[0][0] >= e[0][0] - t && b[0][1] >= e[0][1] - t && b[1][0] <= e[1][0] + t && b[1][1] <= e[1][1] + t, () => `${tag}: the fitted features span ${js(b)}, outside ${js(e)}`);
    }
  }
  return r;
}
const genProbes = rng => rng.times(4, () => [rng.int(-170, 170) + 0.371, rng.int(-70, 70) + 0.219]);
const realSpec = (o, fs) => { const s = Object.assign({}, o); delete s.name; if (o.name === null) delete s.type; else s.type = o.name; if (o.fit) s.fit = fitData(o.fit, fs); return s; };

const options = {
  name: 'options', weight: 2, quick: 1500,
  gen(rng) { return { fs: rng.times(rng.int(1, 4), i => genFeature(rng, i)), o: genSpec(rng), probes: genProbes(rng) }; },
  async run(c, env) {
    await V.withView({}, view => {
      const before = js(c.fs);
      const p = view.customized('projection', Object.assign({ id: 'p' }, realSpec(c.o, c.fs)));
      view.run();
      const tag = `projection ${js(realSpec(c.o, []))}`;
      compare(env, tag, p.output(), c.o, c.fs, c.probes);
      const copy = p.output().copy();
      if (!(c.o.type === 'albersUsa')) compare(env, tag + ' copied', copy, c.o, [], c.probes, c.fs);
      env.check(js(c.fs) === before, `${tag}: fitting changes the features`);
    });
  }
};

const VIA = ['value', 'signal', 'ref', 'fn', 'callback'];
const live = {
  name: 'live', weight: 3, quick: 1200,
  gen(rng) {
    const fs = rng.times(rng.int(2, 4), i => genFeature(rng, i)), first = genSpec(rng), steps = [];
    let cur = Object.assign({}, first);
    const via = {};
    [...PROPS, 'fit', 'size', 'extent', 'pointRadius'].forEach(k => { via[k] = rng.pick(VIA); });
    for (let n = rng.int(2, 6); n > 0; n--) {
      const sigs = Object.keys(cur).filter(k => via[k] && via[k] !== 'value');
      steps.push(rng.wpick([
        [sigs.length ? 5 : 0, () => { const k = rng.pick(sigs); return { op: 'signal', k, v: k === 'fit' ? genFit(rng) : k === 'size' ? [rng.int(50, 800), rng.int(50, 600)] : k === 'extent' ? [[0, rng.int(0, 50)], [rng.int(60, 500), rng.int(60, 500)]] : k === 'pointRadius' ? rng.pick([2, 5, 8]) : VALUES[k](rng) }; }],
        [3, () => { const k = rng.pick(PROPS); return { op: 'configure', set: { [k]: VALUES[k](rng) } }; }],
        [1, () => ({ op: 'clear' })],
        [2, () => ({ op: 'pointRadius', v: rng.pick([1, 4, 9]) })],
        [2, () => ({ op: 'size', v: [rng.int(50, 800), rng.int(50, 600)] })],
        [1, () => ({ op: 'extent', v: [[rng.int(0, 50), 0], [rng.int(60, 500), rng.int(60, 500)]] })],
        [2, () => ({ op: 'fit', v: genFit(rng) })],
        [1, () => ({ op: 'type', v: rng.pick(Object.keys(FN)) })]
      ])());
      const s = steps[steps.length - 1];
      if (s.op === 'signal') cur[s.k] = s.v; else if (s.op === 'configure') Object.assign(cur, s.set); else if (s.op === 'clear') PROPS.forEach(k => { delete cur[k]; }); else if (s.op === 'type') cur.type = s.v; else cur[s.op] = s.v;
    }
    return { fs, first, via, steps, probes: genProbes(rng), sig: rng.bool(0.5) };
  },
  async run(c, env) {
    await V.withView({}, view => {
      const sig = {}, cur = Object.assign({}, c.first), val = k => (k === 'fit' ? fitData(cur.fit, c.fs) : cur[k]);
      const seen = [];
      const used = new Set();
      const decl = k => {
        const v = val(k), via = c.via[k];
        if (via === 'value' || (via === 'signal' && k === 'fit' && false)) return v;
        if (!sig[k]) sig[k] = view.signal(v).id('s_' + k); else sig[k].value(v);
        used.add(k);
        if (via === 'signal') return { signal: 's_' + k };
        if (via === 'ref') return { signal: sig[k] };
        const f = (proj, params) => { seen.push([k, proj]); return params['s_' + k]; };
        return via === 'fn' ? Object.assign(f, {}) : { callback: f, dependency: ['s_' + k] };
      };
      const keys = o => Object.keys(o).filter(k => k !== 'type' && k !== 'name');
      const spec = { id: 'p' };
      const fill = (s, o) => { if (o.name !== null) s.type = o.name; for (const k of keys(o)) s[k] = decl(k); s.dependency = Object.keys(sig).filter(k => c.via[k] === 'fn').map(k => 's_' + k); return s; };
      // a plain function depends on what the spec lists as dependency
      const p = view.customized('projection', fill(spec, c.first));
      const m = view.mark('path', view.rootMark).id('m');
      const data = view.data(c.fs.map((f, i) => ({ f, i }))).id('d');
      m.join('d', 'i').transform([{ type: 'geoPath', field: 'f', as: 'path', projection: { customized: 'p' } }]).encode({ path: { field: 'path' }, fill: 'red' });
      const test = what => {
        view.run();
        const r = compare(env, `after ${what}`, p.output(), cur, c.fs, c.probes);
        env.check(p.output() === view.getCustomizedById('p').output(), 'the view knows another projection');
        seen.splice(0).forEach(([k, proj]) => env.check(typeof proj === 'function' && proj.path, () => `after ${what}: the callback for ${k} is not given the projection`));
        m.elements.forEach(e => { env.obs('map shapes compared'); const g = e.getGraphicItem().attribute.path, x = r.path(c.fs[e.getDatum().i]); env.check(samePath(g, x), () => `after ${what}: the shape of feature ${e.getDatum().i} is drawn along ${g}, expected ${x}`); });
        env.check(m.elements.length === c.fs.length, () => `${m.elements.length} shapes for ${c.fs.length} features`);
      };
      test('creation');
      for (const s of c.steps) {
        if (s.op === 'signal') { cur[s.k] = s.v; if (!used.has(s.k)) { env.nontrivial = false; return; } sig[s.k].value(val(s.k)); }
        else if (s.op === 'configure') { Object.assign(cur, s.set); const k = Object.keys(s.set)[0]; used.delete(k); p.configure({ [k]: s.set[k] }); }
        else if (s.op === 'clear') { PROPS.forEach(k => { delete cur[k]; used.delete(k); }); p.configure(null); }
        else if (s.op === 'type') { cur.type = s.v; p.configure({ type: s.v }); }
        else { cur[s.op] = s.v; used.delete(s.op); p[s.op](val(s.op)); }
        env.saw('live step', s.op);
        test(js(s));
      }
    });
  }
};

const transforms = {
  name: 'geo paths', weight: 1, quick: 1500,
  gen(rng) { return { fs: rng.times(rng.int(1, 4), i => genFeature(rng, i)), o: genSpec(rng), as: rng.bool(), field: rng.bool(), pr: rng.bool(0.4) ? rng.pick([2, 7]) : null, none: rng.bool(0.15) }; },
  run(c, env) {
    const t = V.vg.core.Factory.getTransform('geoPath').transform;
    return V.withView({}, view => {
      const p = view.customized('projection', Object.assign({ id: 'p' }, realSpec(c.o, c.fs)));
      view.run();
      const out = p.output(), r = c.none ? { path: d3.geoPath() } : reference(c.o, c.fs);
      const rad = c.none ? 4.5 : out.path.pointRadius();
      if (c.pr !== null) r.path.pointRadius(c.pr);
      const rows = c.fs.map((f, i) => (c.field ? { deep: { f }, i } : JSON.parse(js(f))));
      const plain = js(rows);
      const o = {};
      if (!c.none) o.projection = out;
      if (c.field) o.field = 'deep.f';
      if (c.as) o.as = 'd';
      if (c.pr !== null) o.pointRadius = c.pr;
      const res = t(o, rows);
      env.check(res.length === rows.length, 'one path per row');
      res.forEach((x, i) => { env.obs('transformed rows'); const a = c.as ? x.d : x, b = r.path(c.fs[i]); env.check(samePath(a, b), () => `geoPath(${js({ ...o, projection: c.o })}) of ${js(c.fs[i])} is ${a}, expected ${b}`); });
      if (c.as) rows.forEach(x => { delete x.d; });
      env.check(js(rows) === plain, 'the geoPath transform changes its rows');
      const now = c.none ? P.getProjectionPath().pointRadius() : out.path.pointRadius();
      env.check(now === rad, () => `after the transform the point radius is ${now}, it was ${rad}`);
      env.check(P.getProjectionPath(out) === out.path, 'getProjectionPath');
    });
  }
};
module.exports = {
  rule: 'a projection projects, inverts, fits and draws paths exactly like the map library given the same options, after every change of its options; fitted features lie inside the requested extent',
  assumptions: ['the map library (d3-geo) itself is trusted as the meaning of each projection type and option; copies of a projection are compared point by point only, since rounding changes how curves are sampled'],
  quickSeconds: 75,
  mustObserve: ['points projected', 'paths compared', 'fits checked', 'map shapes compared', 'transformed rows'],
  scenarios: [options, live, transforms]
};
