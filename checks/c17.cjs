'use strict';
// Transforms of marks: the same mark is drawn with and without its transform. From the plain drawing and the options the
// positions dodge, jitter and symmetry promise follow; what mark-overlap may hide follows from the drawn symbols.
const V = require('../lib/view.cjs');
const clone = x => JSON.parse(JSON.stringify(x));
const CATS = ['a', 'b', 'c', 'd', 'e'], GROUPS = ['g1', 'g2', 'g3', 'g4'];
const wp = (rng, list) => { const v = rng.wpick(list); return typeof v === 'function' ? v() : v; };
const pct = (v, total) => (typeof v === 'string' ? (parseFloat(v) / 100) * total : v);
const EPS = 1e-6;
const near = (a, b) => Math.abs(a - b) <= EPS * Math.max(1, Math.abs(a), Math.abs(b));

/** rows with unique keys; at most one row per category and group */
function table(rng) {
  const rows = [];
  CATS.forEach(c => GROUPS.forEach(g => { if (rng.bool(0.5)) rows.push({ k: c + g, c, g, h: 'h' + rng.int(0, 2), v: rng.num(-20, 100, 1), w: rng.num(0, 50, 1), s: rng.num(2, 40, 1) }); }));
  if (!rows.length) rows.push({ k: 'ag1', c: 'a', g: 'g1', h: 'h0', v: 5, w: 3, s: 8 });
  return rng.bool(0.5) ? rng.shuffle(rows) : rows;
}
/** extent of a graphic along a dimension: [from, to] (points: from === to) */
function span(A, dim) {
  if (A.points) { const p = A.points.map(q => q[dim] + (A[dim] || 0)); return [Math.min(...p), Math.max(...p)]; }
  const size = dim === 'x' ? A.width : A.height, other = A[dim + '1'];
  if (typeof size === 'number') return size < 0 ? [A[dim] + size, A[dim]] : [A[dim], A[dim] + size];
  if (typeof other === 'number') return [Math.min(A[dim], other), Math.max(A[dim], other)];
  return [A[dim], A[dim]];
}
const finite = (env, A, ks, what) => ks.forEach(k => env.check(A[k] === undefined || Number.isFinite(A[k]), () => `${what}: ${k} is ${A[k]}`));

// ---------------------------------------------------------------- dodge
const BOX = ['rect', 'interval'];
function genDodge(rng) {
  const type = rng.wpick([[4, 'rect'], [4, 'interval'], [2, 'symbol'], [1, 'text'], [1, 'rule'], [1, 'cell'], [1, 'image']]);
  const o = { type: 'dodge' };
  if (rng.bool(0.6)) o.innerGap = rng.pick([0, 1, 2.5, '5%', '10%', 4]);
  if (rng.bool(0.5)) o.categoryGap = rng.pick([0, 6, '30%', '50%', 12]);
  if (rng.bool(0.3)) o.maxWidth = rng.pick([4, 10, 25, 60]);
  if (rng.bool(0.3)) o.minWidth = rng.pick([1, 3, 8, 20]);
  if (o.minWidth > o.maxWidth) delete o.minWidth;
  const dim = rng.pick(['x', 'y']);
  if (rng.bool(0.25)) o.dodgeChannel = dim;
  if (rng.bool(0.4)) o.dodgeBy = rng.pick(['g', 'h', ['g']]);
  return {
    type, dim, o, rows: table(rng), grouped: rng.bool(0.7), size: rng.int(120, 600), pad: rng.pick([0, 0.1, 0.4]),
    shape: rng.pick(['band', 'extent', 'fixed']), fixed: rng.num(2, 30, 1), off: rng.bool(0.3) ? rng.num(-5, 5, 1) : 0,
    phase: rng.wpick([[4, 'update'], [1, 'enter']]), bandOnly: rng.bool(0.1),
    edits: rng.times(rng.int(0, 4), () => wp(rng, [[3, () => ({ op: 'rows', rows: table(rng) })], [2, () => ({ op: 'gap', v: rng.num(0, 3, 1) })], [2, () => ({ op: 'size', v: rng.int(120, 600) })], [1, () => ({ op: 'touch' })]])),
    gapSignal: rng.bool(0.3)
  };
}
async function runDodge(c, env) {
  await V.withView({}, async view => {
    let gap = c.gapSignal ? 1 : c.o.innerGap;
    view.signal(1).id('gap'); view.signal(c.size).id('size');
    view.data(clone(c.rows)).id('d');
    view.scale('band').id('b').domain({ data: 'd', field: 'c' }).range({ callback: (s, p) => [0, p.size], dependency: ['size'] }).configure({ padding: c.pad });
    view.scale('linear').id('l').domain([-20, 100]).range([0, 200]);
    const D = c.dim, O = D === 'x' ? 'y' : 'x', size = D === 'x' ? 'width' : 'height';
    const mk = (id, tr) => {
      const m = view.mark(c.type, view.rootMark).id(id).join('d', 'k', undefined, c.grouped ? 'g' : undefined);
      const e = { [D]: { scale: 'b', field: 'c' } };
      e[O] = { scale: 'l', field: 'v' };
      if (c.type === 'rect' || c.type === 'image') {
        if (c.off) e[D].offset = c.off;
        if (c.shape === 'band') e[size] = { scale: 'b', band: 1 };
        else if (c.shape === 'extent' && c.type === 'rect') e[D + '1'] = { scale: 'b', field: 'c', band: 1, offset: c.off };
        else e[size] = c.fixed;
        if (c.type === 'rect') e[O + '1'] = { scale: 'l', value: 0 }; else e[D === 'x' ? 'height' : 'width'] = 10;
        if (c.type === 'image') e.image = '';
      }
      if (c.type === 'rule') { e[D + '1'] = { scale: 'b', field: 'c' }; e[O + '1'] = { scale: 'l', value: 0 }; }
      if (c.type === 'symbol') e.size = 5;
      if (c.type === 'text') e.text = 'x';
      m.encodeState(c.type === 'interval' || c.type === 'cell' ? 'update' : c.phase, e);
      if (tr) m.transform([tr]);
      return m;
    };
    const plain = mk('plain');
    const m = mk('m', Object.assign({}, c.o, c.gapSignal ? { innerGap: { signal: 'gap' } } : {}));
    const entered = new Map();
    const verify = tag => {
      view.run();
      const bs = view.getScaleById('b').output(), bw = bs.bandwidth();
      const base = new Map(plain.elements.map(e => [e.key, e]));
      const by = e => { const d = e.getDatum(); return c.o.dodgeBy === undefined ? (c.grouped ? d.g : undefined) : d[[].concat(c.o.dodgeBy)[0]]; };
      const groups = []; m.elements.forEach(e => { if (!groups.includes(by(e))) groups.push(by(e)); });
      const n = groups.length;
      const cat = pct(c.o.categoryGap === undefined ? '20%' : c.o.categoryGap, bw);
      let inner = cat >= bw ? bw : bw - cat;
      const g = pct(gap === undefined ? 0 : gap, inner);
      let w = (inner - (n - 1) * g) / n;
      if (w <= 0) { env.obs('gaps larger than the band'); return; }
      let bounded = false;
      if (w > c.o.maxWidth) { w = c.o.maxWidth; bounded = true; }
      else if (w < c.o.minWidth && c.o.minWidth <= bw / n) { w = c.o.minWidth; bounded = true; }
      inner = n * w + (n - 1) * g;
      env.check(m.elements.length === plain.elements.length, `${tag}: dodge changed the number of elements`);
      m.elements.forEach(e => {
        const A = e.getGraphicItem().attribute, B = base.get(e.key).getGraphicItem().attribute;
        finite(env, A, ['x', 'y', 'x1', 'y1', 'width', 'height'], `${tag}: ${c.type} ${e.key}`);
        if (c.phase === 'enter' && c.type !== 'interval' && c.type !== 'cell' && entered.has(e.key)) { // encoded when it entered
          env.check(V.same(span(A, D), entered.get(e.key)), () => `${tag}: ${c.type} ${e.key} encoded on entering moved from ${entered.get(e.key)} to ${span(A, D)}`);
          env.obs('entered items still in place');
          return;
        }
        const [b0, b1] = span(B, D);
        const centre = BOX.includes(c.type) ? (b0 + b1) / 2 : b0 + bw / 2;
        const i = groups.indexOf(by(e));
        const from = centre - inner / 2 + i * (w + g), to = from + w;
        const [a0, a1] = span(A, D);
        if (BOX.includes(c.type)) env.check(near(a0, from) && near(a1, to), () => `${tag}: dodged ${c.type} ${e.key} (group ${i + 1} of ${n}, band ${bw}, gap ${g}) occupies ${a0}..${a1} instead of ${from}..${to}`);
        else env.check(near(a0, (from + to) / 2) && (c.type === 'image' || near(a1, a0)), () => `${tag}: dodged ${c.type} ${e.key} (group ${i + 1} of ${n}) is at ${a0} instead of ${(from + to) / 2}`);
        env.check(V.same(span(A, O), span(B, O)), () => `${tag}: dodging ${D} changed ${O} of ${e.key}: ${span(A, O)} instead of ${span(B, O)}`);
        entered.set(e.key, V.norm(span(A, D)));
        env.obs('dodged items'); if (bounded) env.obs('items with a limited width');
        env.saw('groups per band', n);
      });
      [...entered.keys()].forEach(k => { if (!m.elements.some(e => e.key === k)) entered.delete(k); });
    };
    if (c.type === 'image') c.type = 'image';
    verify('first run');
    let step = 0;
    for (const e of c.edits) {
      if (e.op === 'rows') view.getDataById('d').values(clone(e.rows));
      else if (e.op === 'gap') { view.getSignalById('gap').value(e.v); if (c.gapSignal) gap = e.v; }
      else if (e.op === 'size') view.getSignalById('size').value(e.v);
      else m.commit();
      // what was encoded on entering does not follow later changes
      if (c.phase === 'enter' && e.op !== 'rows' && c.type !== 'interval' && c.type !== 'cell') { view.run(); continue; }
      if (c.phase === 'enter' && c.type !== 'interval' && c.type !== 'cell') {
        view.run();
        m.elements.forEach(x => { finite(env, x.getGraphicItem().attribute, ['x', 'y', 'x1', 'y1', 'width', 'height'], `after edit ${step}: ${c.type} ${x.key}`); if (entered.has(x.key)) env.check(V.same(span(x.getGraphicItem().attribute, D), entered.get(x.key)), () => `after edit ${step}: ${c.type} ${x.key} encoded on entering moved from ${entered.get(x.key)} to ${span(x.getGraphicItem().attribute, D)}`); });
        [...entered.keys()].forEach(k => { if (!m.elements.some(x => x.key === k)) entered.delete(k); });
        env.obs('entered items still in place');
      } else verify(`after edit ${step} (${e.op})`);
      step++;
    }
  });
}

// ---------------------------------------------------------------- jitter
function genJitter(rng) {
  const o = { type: rng.pick(['jitter', 'jitterX', 'jitterY']) };
  if (rng.bool(0.4)) o.widthRatio = rng.pick([0, 0.1, 0.25, 0.5, 0.9]);
  if (rng.bool(0.4)) o.heightRatio = rng.pick([0, 0.1, 0.25, 0.5, 0.9]);
  if (rng.bool(0.3)) o.bandWidth = rng.pick([10, 40, 0]);
  if (rng.bool(0.3)) o.bandHeight = rng.pick([10, 40, 0]);
  const scale = () => rng.pick(['band', 'point', 'linear', 'none', 'const']);
  return { o, type: rng.pick(['symbol', 'symbol', 'text', 'rect']), sx: scale(), sy: scale(), rows: table(rng), phase: rng.wpick([[4, 'update'], [1, 'enter']]), random: rng.bool(0.6), edits: rng.times(rng.int(0, 3), () => wp(rng, [[2, () => table(rng)], [1, null]])) };
}
async function runJitter(c, env) {
  await V.withView({ width: 300, height: 200 }, async view => {
    view.data(clone(c.rows)).id('d');
    const calls = [];
    const fn = (i, n) => { calls.push([i, n]); return ((i * 37 + 11) % 100) / 100; };
    const enc = (dim, kind) => {
      const id = 's' + dim, size = dim === 'x' ? 300 : 200;
      if (kind === 'band' || kind === 'point') { view.scale(kind).id(id).domain(CATS).range([0, size]); return { scale: id, field: 'c' }; }
      if (kind === 'linear') { view.scale('linear').id(id).domain([-20, 100]).range([0, size]); return { scale: id, field: 'v' }; }
      return kind === 'const' ? 42 : { field: 'w' };
    };
    const e = { x: enc('x', c.sx), y: enc('y', c.sy) };
    if (c.type === 'symbol') e.size = 4; if (c.type === 'text') e.text = 't'; if (c.type === 'rect') { e.width = 5; e.height = 6; }
    const mk = (id, tr) => { const m = view.mark(c.type, view.rootMark).id(id).join('d', 'k'); m.encodeState(c.phase, clone(e)); if (tr) m.transform([tr]); return m; };
    const plain = mk('plain');
    const m = mk('m', Object.assign({}, c.o, c.random ? { random: fn } : {}));
    let before = null;
    const verify = tag => {
      calls.length = 0;
      view.run();
      const base = plain.elements.map(x => x.getGraphicItem().attribute), n = m.elements.length;
      const after = new Map();
      for (const [dim, kind, own, ratioO, only] of [['x', c.sx, 'bandWidth', 'widthRatio', 'jitterX'], ['y', c.sy, 'bandHeight', 'heightRatio', 'jitterY']]) {
        const on = c.o.type === 'jitter' || c.o.type === only;
        const s = view.getScaleById('s' + dim);
        const band = c.o[own] !== undefined ? c.o[own] : kind === 'band' ? s.output().bandwidth() : kind === 'point' ? s.output().step() : undefined;
        const ratio = Math.min(c.o[ratioO] === undefined ? 0.4 : c.o[ratioO], 0.5);
        let lo = Math.min(...base.map(b => b[dim])), hi = Math.max(...base.map(b => b[dim]));
        if (lo === hi) { lo = 0; hi = dim === 'x' ? 300 : 200; }
        m.elements.forEach((el, i) => {
          const A = el.getGraphicItem().attribute, B = base[i];
          env.check(Number.isFinite(A[dim]), () => `${tag}: jitter puts ${dim} of ${el.key} at ${A[dim]}`);
          if (before && c.phase === 'enter' && before.has(el.key)) { env.check(V.near(before.get(el.key)[dim], A[dim]), () => `${tag}: ${el.key} encoded on entering moved along ${dim} from ${before.get(el.key)[dim]} to ${A[dim]}`); return; }
          if (!on) { env.check(V.near(A[dim], B[dim]), () => `${tag}: ${c.o.type} moved ${dim} of ${el.key}`); return; }
          if (before && c.phase === 'enter') return; // what is spread depends on the items that enter
          const [f, t] = band === undefined ? [lo, hi] : [B[dim] - ratio * band, B[dim] + ratio * band];
          if (c.random) { const r = ((i * 37 + 11) % 100) / 100; env.check(near(A[dim], f + (t - f) * r), () => `${tag}: ${dim} of item ${i} is ${A[dim]}, expected ${f + (t - f) * r} within ${f}..${t}`); }
          else env.check(A[dim] >= f - EPS && A[dim] <= t + EPS, () => `${tag}: ${dim} of ${el.key} is ${A[dim]}, outside ${f}..${t}`);
          env.obs('jittered coordinates');
        });
      }
      m.elements.forEach(el => { const A = el.getGraphicItem().attribute; after.set(el.key, { x: A.x, y: A.y }); });
      if (c.random) env.check(calls.every(([i, k]) => k === n && i >= 0 && i < n), () => `${tag}: random received ${JSON.stringify(calls[0])} for ${n} items`);
      before = after;
    };
    verify('first run');
    c.edits.forEach((rows, i) => { if (rows) view.getDataById('d').values(clone(rows)); else m.commit(); verify('after edit ' + i); });
  });
}

// ---------------------------------------------------------------- symmetry
function genSym(rng) {
  const o = { type: 'symmetry' };
  if (rng.bool(0.6)) o.channel = rng.pick(['x', 'y']);
  if (rng.bool(0.6)) o.align = rng.pick(['min', 'max']);
  return { o, type: rng.pick(['rect', 'rule', 'symbol']), rows: table(rng), flip: rng.bool(0.5), edits: rng.times(rng.int(0, 2), () => table(rng)) };
}
async function runSym(c, env) {
  await V.withView({}, async view => {
    view.data(clone(c.rows)).id('d');
    view.scale('linear').id('l').domain(c.flip ? [100, -20] : [-20, 100]).range([0, 200]);
    view.scale('band').id('b').domain(CATS).range([0, 300]);
    const D = c.o.channel || 'y', O = D === 'x' ? 'y' : 'x', ranged = c.type !== 'symbol';
    const e = { [D]: { scale: 'l', field: 'v' }, [O]: { scale: 'b', field: 'c' } };
    if (ranged) e[D + '1'] = { scale: 'l', value: 0 };
    if (c.type === 'rect') e[D === 'x' ? 'height' : 'width'] = 5;
    if (c.type === 'rule') e[O + '1'] = { scale: 'b', field: 'c' };
    const mk = (id, tr) => { const m = view.mark(c.type, view.rootMark).id(id).join('d', 'k').encodeState('update', clone(e)); if (tr) m.transform([tr]); return m; };
    const plain = mk('plain'), m = mk('m', c.o);
    const verify = tag => {
      view.run();
      const base = plain.elements.map(x => span(x.getGraphicItem().attribute, D));
      const mids = base.map(([a, b]) => (a + b) / 2);
      const mid = c.o.align === 'min' ? Math.min(...mids) : Math.max(...mids);
      m.elements.forEach((el, i) => {
        const A = el.getGraphicItem().attribute, [a, b] = span(A, D), w = base[i][1] - base[i][0];
        env.check(near((a + b) / 2, mid), () => `${tag}: ${el.key} is centred at ${(a + b) / 2} instead of ${mid}`);
        env.check(near(b - a, w), () => `${tag}: symmetry changed the length of ${el.key} from ${w} to ${b - a}`);
        env.check(V.same(span(A, O), span(plain.elements[i].getGraphicItem().attribute, O)), `${tag}: symmetry along ${D} changed ${O}`);
        env.obs('items made symmetric');
      });
    };
    verify('first run');
    c.edits.forEach((rows, i) => { view.getDataById('d').values(clone(rows)); verify('after edit ' + i); });
  });
}

// ---------------------------------------------------------------- overlap
function genOverlap(rng) {
  const o = { type: 'markoverlap', direction: rng.pick([0, 1, 2]) };
  if (rng.bool(0.6)) o.delta = rng.pick([0, 3, 10, 25]);
  else if (rng.bool(0.5)) o.deltaMul = rng.pick([0, 0.5, 2]);
  if (rng.bool(0.3)) o.radius = true;
  if (rng.bool(0.3)) o.groupBy = rng.pick(['g', 'h']);
  if (rng.bool(0.4)) o.sort = true;
  return { o, rows: table(rng), size: rng.pick(['const', 'field']), hide: rng.pick([null, null, 'static', 'dynamic']), force: rng.bool(0.2), spread: rng.pick([60, 200, 600]), edits: rng.times(rng.int(0, 4), () => wp(rng, [[2, () => ({ op: 'rows', rows: table(rng) })], [2, () => ({ op: 'spread', v: rng.pick([60, 200, 600, 2000]) })], [1, () => ({ op: 'touch' })], [1, () => ({ op: 'hide', v: rng.int(0, 60) })]])) };
}
async function runOverlap(c, env) {
  await V.withView({}, async view => {
    let rows = clone(c.rows), thr = 30;
    view.data(clone(rows)).id('d');
    view.signal(c.spread).id('spread'); view.signal(thr).id('thr');
    view.scale('linear').id('lx').domain([-20, 100]).range({ callback: (s, p) => [0, p.spread], dependency: ['spread'] });
    view.scale('linear').id('ly').domain([0, 50]).range({ callback: (s, p) => [p.spread, 0], dependency: ['spread'] });
    const e = { x: { scale: 'lx', field: 'v' }, y: { scale: 'ly', field: 'w' }, size: c.size === 'const' ? 12 : { field: 's' } };
    if (c.hide === 'dynamic') e.visible = { callback: (d, el, p) => d.s > p.thr, dependency: ['thr'] };
    if (c.hide === 'static') e.visible = true;
    if (c.force) e.forceShow = { callback: d => d.g === 'g1' };
    const m = view.mark('symbol', view.rootMark).id('m').join('d', 'k').encodeState('update', e).transform([c.o]);
    const verify = tag => {
      view.run();
      const lists = new Map();
      m.elements.forEach(el => { const k = c.o.groupBy ? el.getDatum()[c.o.groupBy] : ''; if (!lists.has(k)) lists.set(k, []); lists.get(k).push(el); });
      lists.forEach(list => {
        if (c.o.sort) list = list.slice().sort((a, b) => a.getGraphicAttribute('x') - b.getGraphicAttribute('x'));
        let last = null, r0 = 0;
        list.forEach(el => {
          const A = el.getGraphicItem().attribute, d = el.getDatum();
          const shown = A.visible !== false;
          if (c.hide === 'dynamic' && !(d.s > thr)) { env.check(!shown, `${tag}: an item hidden by its encoding is shown`); return; }
          const r = A.size / 2, delta = c.o.delta !== undefined ? c.o.delta : (r + r0) * (c.o.deltaMul === undefined ? 1 : c.o.deltaMul);
          const dist = last === null ? Infinity : c.o.direction === 1 ? Math.abs(A.x - last.x) : c.o.direction === 2 ? Math.abs(A.y - last.y) : Math.hypot(A.x - last.x, A.y - last.y);
          if (Math.abs(dist - (delta + r + r0)) < 1e-6) { if (shown) { last = A; r0 = r; } return; }
          const free = dist > delta + r + r0;
          if (c.force && d.g === 'g1') { env.check(shown, `${tag}: an item which must be shown is hidden`); if (free) { last = A; r0 = r; } return; }
          env.check(shown === free, () => `${tag}: ${el.key} (radius ${r}) is ${shown ? 'shown' : 'hidden'} at a distance of ${dist} from the item shown before it (radius ${r0}); ${delta + r + r0} needed`);
          if (shown) { last = A; r0 = r; }
          env.obs(shown ? 'items shown' : 'items hidden');
        });
      });
    };
    verify('first run');
    c.edits.forEach((x, i) => {
      if (x.op === 'rows') view.getDataById('d').values(clone(x.rows));
      else if (x.op === 'spread') view.getSignalById('spread').value(x.v);
      else if (x.op === 'hide') { thr = x.v; view.getSignalById('thr').value(x.v); } else m.commit();
      verify(`after edit ${i} (${x.op})`);
    });
  });
}

module.exports = {
  rule: 'a case is a table, a mark with a position transform and a sequence of changes (data, sizes, options); non-trivial when some item was moved, hidden or kept by the transform',
  mustObserve: ['dodged items', 'jittered coordinates', 'items made symmetric', 'items hidden', 'items shown'],
  scenarios: [
    { name: 'dodge', quick: 1500, gen: genDodge, run: runDodge },
    { name: 'jitter', quick: 1000, gen: genJitter, run: runJitter },
    { name: 'symmetry', quick: 600, gen: genSym, run: runSym },
    { name: 'overlap', quick: 1200, gen: genOverlap, run: runOverlap }
  ]
};
