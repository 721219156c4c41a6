'use strict';
// Word clouds: the real layouts; every word of the result is drawn the way a text mark draws it (centred, on its
// baseline, turned by its angle) on a canvas of the monitor's own, and the painted pixels are compared.
const V = require('../lib/view.cjs');
const W = V.vg.wordcloud, S = V.vg.wordcloudShape;
const js = JSON.stringify;
W.registerWordCloudTransforms();
S.registerWordCloudShapeTransforms && S.registerWordCloudShapeTransforms();
V.mkView().release(); // environment for canvases
const mk = (w, h) => { const c = V.canvas.createCanvas(w, h); c.setAttribute = (k, v) => { c[k] = +v; }; return c; };
function withDom(f) {
  const had = 'document' in globalThis, old = globalThis.document;
  globalThis.document = { createElement: () => mk(300, 150) };
  try { return f(); } finally { if (had) globalThis.document = old; else delete globalThis.document; }
}
/** the pixels each word paints: Uint8 map per word in its own box */
const S2 = 2; // pixels per unit
function ink(words, size) {
  const [w, h] = size, P = 40, CW = (w + 2 * P) * S2, CH = (h + 2 * P) * S2, cv = mk(CW, CH), c = cv.getContext('2d');
  return words.map(t => {
    const m = (String(t.text).length + 2) * t.fontSize * 1.2, r = Math.ceil(m / 2 + t.fontSize);
    const x0 = Math.max(0, Math.floor((t.x + P - r) * S2)), y0 = Math.max(0, Math.floor((t.y + P - r) * S2));
    const x1 = Math.min(CW, Math.ceil((t.x + P + r) * S2)), y1 = Math.min(CH, Math.ceil((t.y + P + r) * S2));
    const res = [];
    if (!(x1 > x0 && y1 > y0)) return { px: res, all: 0 };
    c.setTransform(1, 0, 0, 1, 0, 0);
    c.clearRect(x0, y0, x1 - x0, y1 - y0);
    c.setTransform(S2, 0, 0, S2, (t.x + P) * S2, (t.y + P) * S2);
    c.rotate(t.angle || 0);
    c.textAlign = 'center'; c.textBaseline = 'alphabetic'; c.fillStyle = '#000';
    c.font = `${t.fontStyle} ${t.fontWeight} ${t.fontSize}px ${t.fontFamily}`;
    c.fillText(String(t.text), 0, 0);
    const d = c.getImageData(x0, y0, x1 - x0, y1 - y0).data, W2 = x1 - x0;
    for (let k = 3, i = 0; k < d.length; k += 4, i++) if (d[k] > 127) res.push((y0 + Math.floor(i / W2)) * CW + x0 + (i % W2));
    return { px: res };
  });
}
function painted(words, size, env, o) {
  const P = 40, CW = (size[0] + 2 * P) * S2, own = new Map(), list = ink(words, size);
  let hits = 0, first = null, out = 0, firstOut = null;
  const per = new Map();
  list.forEach((w, i) => {
    for (const p of w.px) {
      const x = (p % CW) / S2 - P, y = Math.floor(p / CW) / S2 - P;
      const inside = x >= 0 && y >= 0 && x < size[0] && y < size[1];
      if (!inside) { if (o.inside && (x < -o.slack || y < -o.slack || x > size[0] - 0.5 + o.slack || y > size[1] - 0.5 + o.slack)) { out++; firstOut = firstOut ?? i; } continue; }
      const q = own.get(p);
      if (q !== undefined) { hits++; const k = `${q}/${i}`; per.set(k, (per.get(k) || 0) + 1); } else own.set(p, i);
    }
  });
  env.obs('words drawn', words.length);
  env.obs('pixels compared', list.reduce((s, w) => s + w.px.length, 0));
  let worst = null;
  for (const [k, n] of per) if (!worst || n > worst[1]) worst = [k, n];
  if (worst) { const [a, b] = worst[0].split('/').map(Number); first = [words[a], words[b]].map(t => `${js(t.text)} at ${t.x.toFixed(1)},${t.y.toFixed(1)} size ${t.fontSize} angle ${t.angle}`).join(' and '); }
  env.check(!worst || worst[1] <= (o.pixels ?? 2), () => `two words of a cloud are painted over each other (${worst[1]} common pixels of ${hits})`, { between: first });
  env.check(!out || out <= (o.pixels ?? 2), () => `a word of a cloud is painted outside the canvas (${out} pixels)`, { word: firstOut === null ? null : words[firstOut] });
  return { list, CW, P };
}

/** the fast layout only knows the bounds text marks have */
function boxes(words, size, env, inside) {
  const bs = words.map(w => {
    const b = V.vrender.createText({ text: w.text, x: w.x, y: w.y, angle: w.angle, fontSize: w.fontSize, fontFamily: w.fontFamily, fontStyle: w.fontStyle, fontWeight: w.fontWeight, textAlign: 'center', textBaseline: 'alphabetic' }).AABBBounds;
    return { x1: b.x1, y1: b.y1, x2: b.x2, y2: b.y2 };
  });
  const E = 1e-3;
  env.obs('words drawn', words.length);
  for (let i = 0; i < bs.length; i++) {
    const a = bs[i];
    if (inside) env.check(a.x1 >= -E && a.y1 >= -E && a.x2 <= size[0] + E && a.y2 <= size[1] + E, 'the bounds of a word leave the canvas', { word: words[i], bounds: a });
    for (let j = 0; j < i; j++) {
      const b = bs[j];
      env.check(a.x2 <= b.x1 + E || b.x2 <= a.x1 + E || a.y2 <= b.y1 + E || b.y2 <= a.y1 + E, 'the bounds of two words of a cloud overlap', { words: [words[i], words[j]], bounds: [a, b] });
    }
  }
}

const TXT = ['a', 'data', 'grammar', 'W', 'il', 'visual', 'Paris', 'jqy', 'Mount', 'long sentence', 'x1', 'Queue', '12', 'hello', 'words', 'cloud', 'AAA', 'yyy', 'gg', 'Zed'];
function genRows(rng, n) {
  return rng.times(n, i => ({ name: rng.pick(TXT) + (rng.bool(0.3) ? i : ''), v: rng.wpick([[6, () => rng.int(1, 60)], [1, () => String(rng.int(1, 60))]])(), sty: rng.pick(['normal', 'italic']), wt: rng.pick(['normal', 'bold']), rot: rng.pick([0, 0, 90, -90, 30, 45]), x: 'mine' }));
}
function genCloud(rng) {
  const kind = rng.wpick([[4, 'cloud'], [2, 'fast'], [3, 'grid']]), o = { kind, size: [rng.pick([128, 160, 200, 250, 257, 300, 331]), rng.pick([96, 150, 180, 211, 260])] };
  const n = rng.wpick([[4, () => rng.int(2, 12)], [4, () => rng.int(12, 40)], [1, () => 1], [kind === 'fast' ? 2 : 0, () => { o.size = [rng.int(400, 700), rng.int(300, 500)]; o.crowd = true; return rng.int(60, 150); }]])();
  o.rows = genRows(rng, n);
  o.fontSize = rng.wpick([[3, { field: 'v' }], [1, rng.int(8, 24)]]);
  if (o.crowd) o.fontSize = rng.int(7, 14);
  if (o.fontSize.field && rng.bool(0.6)) o.fontSizeRange = rng.pick([[8, 24], [10, 40], [12, 16]]);
  o.fontStyle = rng.wpick([[2, undefined], [1, 'italic'], [1, { field: 'sty' }]]);
  o.fontWeight = rng.wpick([[2, undefined], [1, 'bold'], [1, { field: 'wt' }]]);
  o.fontFamily = rng.wpick([[2, undefined], [1, 'serif'], [1, 'monospace']]);
  o.rotate = rng.wpick([[3, undefined], [2, () => [rng.pick([0, 90, -90, 45])]], [2, { field: 'rot' }], [1, () => [[0, 90]]], [1, () => [[-45, 0, 45]]]]);
  if (typeof o.rotate === 'function') o.rotate = o.rotate()[0];
  o.padding = rng.wpick([[3, undefined], [1, 0], [1, 3]]);
  o.shape = rng.wpick([[3, undefined], [1, 'circle'], [1, 'diamond'], [1, 'triangle'], [1, 'cardioid'], [1, 'star'], [1, 'rect'], [1, 'pentagon']]);
  o.as = rng.wpick([[3, undefined], [1, { x: 'px', y: 'py', fontSize: 'fs', angle: 'an' }]]);
  o.dataIndexKey = rng.bool(0.2) ? 'ix' : undefined;
  if (kind === 'cloud') {
    o.spiral = rng.wpick([[3, undefined], [1, 'rectangular'], [1, 'archimedean']]);
    o.shrink = rng.wpick([[2, undefined], [2, true]]);
    o.enlarge = rng.bool(0.25) ? true : undefined;
    o.minFontSize = rng.wpick([[2, undefined], [1, 6], [1, 12]]);
    o.clip = rng.bool(0.15) ? true : undefined;
  } else if (kind === 'grid') {
    o.shrink = rng.bool(0.4) ? true : undefined;
    o.minFontSize = rng.wpick([[2, undefined], [1, 6], [1, 14]]);
    o.clip = rng.bool(0.15) ? true : undefined;
    o.gridSize = rng.pick([undefined, 4, 6, 10]);
    if (rng.bool(0.25)) o.shape = { type: 'geometric', shape: rng.pick(['circle', 'diamond', 'square', 'star', 'triangle']) };
  } else if (rng.bool(0.2)) o.clip = true;
  o.step = rng.bool(0.25) ? rng.int(1, 8) : 0;
  return o;
}
const JOINS = { x: 'x', y: 'y', fontFamily: 'fontFamily', fontSize: 'fontSize', fontStyle: 'fontStyle', fontWeight: 'fontWeight', angle: 'angle' };
const val = (o, d, dflt) => (o === undefined ? dflt : o && o.field ? d[o.field] : o);
function runOptions(c, step) {
  const o = { text: { field: 'name' }, size: c.size, layoutType: c.kind, fontSize: c.fontSize, fontSizeRange: c.fontSizeRange, fontStyle: c.fontStyle, fontWeight: c.fontWeight, fontFamily: c.fontFamily, rotate: c.rotate, padding: c.padding, shape: c.shape, as: c.as, dataIndexKey: c.dataIndexKey, spiral: c.spiral, shrink: c.shrink, enlarge: c.enlarge, minFontSize: c.minFontSize, clip: c.clip, gridSize: c.gridSize };
  for (const k of Object.keys(o)) if (o[k] === undefined) delete o[k];
  if (step) o.progressiveStep = step;
  return o;
}
function execute(c, rows, step) {
  return withDom(() => {
    const r = W.wordcloudTransform(runOptions(c, step), rows);
    if (!step) return { all: r };
    const parts = [], p = r.progressive;
    parts.push(p.progressiveOutput().slice());
    let guard = 0;
    while (p.unfinished() && guard++ < 500) { p.progressiveRun(); parts.push(p.progressiveOutput().slice()); }
    if (guard >= 500) throw new Error('the progressive layout of a word cloud never ends');
    return { all: p.output(), parts };
  });
}
function checkCloud(c, env) {
  const rows = JSON.parse(js(c.rows)), mine = JSON.parse(js(c.rows)), order = rows.slice();
  const { all } = execute(c, rows, 0);
  env.check(Array.isArray(all), 'a word cloud gives no list of words', { got: String(all) });
  if (!Array.isArray(all)) return;
  env.check(rows.length === order.length && rows.every((r, i) => r === order[i]), 'laying out a word cloud reorders the caller\'s data');
  const as = { ...JOINS, ...(c.as || {}) };
  env.check(new Set(all).size === all.length, 'a word appears twice in a word cloud', { words: all.length });
  env.saw('layout', `${c.kind}${c.shrink ? ' shrink' : ''}${c.enlarge ? ' enlarge' : ''}${c.clip ? ' clip' : ''}`);
  env.saw('shape', c.shape && c.shape.shape ? 'mask' : String(c.shape));
  const vals = mine.map(d => Number(d.v)), lo = Math.min(...vals), hi = Math.max(...vals);
  const want = d => {
    if (!c.fontSize.field) return c.fontSize;
    if (!c.fontSizeRange) return Number(d.v);
    const [a, b] = c.fontSizeRange;
    if (mine.length === 1) return b;
    if (hi === lo) return a;
    return a + ((Math.sqrt(Number(d.v)) - Math.sqrt(lo)) / (Math.sqrt(hi) - Math.sqrt(lo))) * (b - a);
  };
  let ratio = null;
  const words = [];
  for (const t of all) {
    const i = order.indexOf(t);
    env.check(i >= 0, 'a word cloud contains a word that is not in the data');
    if (i < 0) continue;
    const d = mine[i];
    for (const k of ['name', 'v', 'sty', 'wt', 'rot']) env.check(t[k] === d[k], `the layout of a word cloud changes the field ${k} of the data`);
    if (as.x !== 'x') env.check(t.x === 'mine', 'a word cloud writes to a field other than the one asked for');
    const w = { text: d.name, x: t[as.x], y: t[as.y], fontSize: Number(t[as.fontSize]), fontFamily: t[as.fontFamily], fontStyle: t[as.fontStyle], fontWeight: t[as.fontWeight], angle: t[as.angle] };
    env.check(Number.isFinite(w.x) && Number.isFinite(w.y) && w.fontSize > 0, 'a word is placed at no position or with no size', { word: w });
    env.check(w.fontFamily === val(c.fontFamily, d, 'sans-serif') && w.fontStyle === val(c.fontStyle, d, 'normal') && w.fontWeight === val(c.fontWeight, d, 'normal'), 'a word does not have the font it was given', { word: w, datum: d });
    const rots = [].concat(val(c.rotate, d, 0)).map(a => (a * Math.PI) / 180);
    env.check(rots.some(a => V.near(a, w.angle, 1e-9)), 'a word is not turned by one of its angles', { angle: w.angle, of: rots });
    const f = want(d);
    if (c.kind === 'cloud') {
      // one zoom for the whole cloud
      const base = Math.trunc(f + 1e-9), alt = Math.trunc(f - 1e-9), q = w.fontSize / base;
      if (base >= 1) {
        if (!c.shrink && !c.enlarge) env.check(V.near(w.fontSize, base, 1e-6) || V.near(w.fontSize, alt, 1e-6), 'a word does not have its size', { size: w.fontSize, want: f });
        else if (ratio === null) ratio = q;
        else env.check(V.near(q, ratio, 1e-6) || V.near(w.fontSize / alt, ratio, 1e-6), 'words of one cloud are scaled by different factors', { a: q, b: ratio });
        if (c.enlarge === undefined) env.check(q <= 1 + 1e-9 || base !== alt, 'a word is larger than its size');
      }
    } else if (c.kind === 'fast') env.check(V.near(Number(w.fontSize), f, 1e-6), 'a word does not have its size', { size: w.fontSize, want: f });
    else {
      const m = c.minFontSize ?? 12, full = Math.max(Math.floor(f + 1e-9), m), alt = Math.max(Math.floor(f - 1e-9), m);
      if (c.shrink && !c.clip) env.check(w.fontSize <= full + 1e-9 && w.fontSize >= m - 1e-9, 'a word has a size outside the range allowed', { size: w.fontSize, min: m, max: full });
      else env.check(V.near(w.fontSize, full, 1e-6) || V.near(w.fontSize, alt, 1e-6), 'a word does not have its size', { size: w.fontSize, want: full });
    }
    words.push(w);
  }
  const drawn = words.filter(w => w.fontSize >= 3);
  if (c.kind === 'fast') boxes(words, c.size, env, !c.clip);
  // clipping shortens the words of a grid themselves
  else if (!(c.kind === 'grid' && c.clip)) painted(drawn, c.size, env, { inside: !c.clip, slack: 1.5, pixels: c.kind === 'cloud' ? 4 : 6 });
  if (drawn.length > 1) (env.nontrivial = true);
  if (drawn.length < c.rows.length) env.obs('words without room');
  // the same data give the same cloud, whole or in steps
  const strip = l => l.map(t => [t.name, t[as.x], t[as.y], t[as.fontSize], t[as.angle]]);
  const again = execute(c, JSON.parse(js(c.rows)), 0);
  const got = strip(all);
  env.check(js(strip(again.all)) === js(got), 'laying out the same words twice gives two different clouds');
  if (c.step) {
    const st = execute(c, JSON.parse(js(c.rows)), c.step);
    env.obs('progressive steps', st.parts.length);
    env.check(js(strip(st.all)) === js(got), 'a word cloud laid out in steps differs from one laid out at once', { steps: st.parts.length, words: st.all.length, want: got.length });
  }
}

// ---------------------------------------------------------------- shape word clouds
function genShape(rng) {
  const o = { size: [rng.pick([160, 200, 211, 256]), rng.pick([150, 200, 233])], rows: genRows(rng, rng.int(1, 25)) };
  o.shape = rng.wpick([[4, () => ({ type: 'geometric', shape: rng.pick(['circle', 'diamond', 'square', 'star', 'triangle', 'pentagon', 'cardioid', 'rect']) })], [2, () => ({ type: 'text', text: rng.pick(['AB', 'O', 'II', 'W']), fontWeight: 'bold' })]])();
  if (rng.bool(0.2)) o.shape.backgroundColor = '#eeeeee';
  if (rng.bool(0.1)) o.shape.hollow = true;
  o.fontSize = rng.wpick([[3, { field: 'v' }], [1, undefined]]);
  if (o.fontSize && rng.bool(0.5)) o.fontSizeRange = rng.pick([[8, 20], [10, 30], [14, 60]]);
  o.layoutMode = rng.wpick([[3, undefined], [2, 'ensureMapping'], [2, 'ensureMappingEnlarge']]);
  o.rotateList = rng.wpick([[3, undefined], [1, [0, 90]], [1, [-45, 0, 45]]]);
  o.fontStyle = rng.wpick([[3, undefined], [1, { field: 'sty' }]]);
  o.fontWeight = rng.wpick([[3, undefined], [1, { field: 'wt' }]]);
  o.padding = rng.wpick([[3, undefined], [1, 2]]);
  o.fillingTimes = rng.pick([0, 1, 2]);
  o.fillingRotateList = rng.wpick([[2, undefined], [1, [0]]]);
  o.importantWordCount = rng.wpick([[2, undefined], [1, 3]]);
  o.as = rng.wpick([[3, undefined], [1, { x: 'px', y: 'py', visible: 'vis' }]]);
  o.ids = rng.bool(0.7);
  return o;
}
const SOUT = { x: 'x', y: 'y', fontFamily: 'fontFamily', fontSize: 'fontSize', fontStyle: 'fontStyle', fontWeight: 'fontWeight', angle: 'angle', opacity: 'opacity', visible: 'visible', isFillingWord: 'isFillingWord', color: 'color' };
function checkShape(c, env) {
  const rows = JSON.parse(js(c.rows)), order = rows.slice();
  if (c.ids) rows.forEach((r, i) => { r[Symbol.for('vGrammar_id')] = i; });
  let mask = null;
  const opts = { size: c.size.slice(), text: { field: 'name' }, shape: c.shape, fontSize: c.fontSize, fontSizeRange: c.fontSizeRange, layoutMode: c.layoutMode, rotateList: c.rotateList, fontStyle: c.fontStyle, fontWeight: c.fontWeight, padding: c.padding, fillingTimes: c.fillingTimes, fillingRotateList: c.fillingRotateList, importantWordCount: c.importantWordCount, as: c.as, dataIndexKey: 'key', random: false,
    onUpdateMaskCanvas: m => { mask = m; } };
  for (const k of Object.keys(opts)) if (opts[k] === undefined) delete opts[k];
  const out = S.wordcloudShapeTransform(opts, rows);
  env.check(Array.isArray(out), 'a shaped word cloud gives no list of words');
  if (!Array.isArray(out) || !mask) return;
  const id = mask.getContext('2d').getImageData(0, 0, c.size[0], c.size[1]).data, bg = c.shape.backgroundColor;
  const isBg = k => (bg ? id[k] === 0xee && id[k + 1] === 0xee && id[k + 2] === 0xee : id[k + 3] === 0 || (id[k] === 255 && id[k + 1] === 255 && id[k + 2] === 255));
  let area = 0;
  for (let k = 0; k < id.length; k += 4) if (!isBg(k)) area++;
  const as = { ...SOUT, ...(c.as || {}) };
  env.saw('mode', String(c.layoutMode));
  env.saw('mask', c.shape.shape || c.shape.text);
  if (!area) { env.check(out.length === 0 || out.every(t => !t[as.visible]), 'words are placed in a shape that has no area'); return; }
  const core = out.filter(t => !t[as.isFillingWord]), fill = out.filter(t => t[as.isFillingWord]);
  env.check(core.length === rows.length && new Set(core).size === rows.length && core.every(t => order.includes(t)), 'the words of a shaped cloud are not the words of the data, once each', { words: core.length, data: rows.length });
  env.check(new Set(out.map(t => t.key)).size === out.length, 'two words of a shaped cloud have the same key');
  const ok = new Set(core.filter(t => t[as.visible]).map(t => t.name));
  env.check(fill.every(t => ok.has(t.name)), 'the space is filled with a word that has no place itself');
  env.check(!fill.length || c.fillingTimes > 0, 'filling words although none were asked for');
  const words = out.filter(t => t[as.visible]).map(t => ({ text: t.name, x: t[as.x], y: t[as.y], fontSize: t[as.fontSize], fontFamily: t[as.fontFamily], fontStyle: t[as.fontStyle], fontWeight: t[as.fontWeight], angle: t[as.angle], fill: t[as.isFillingWord], datum: c.rows[order.indexOf(t)] }));
  for (const w of words) {
    env.check(Number.isFinite(w.x) && Number.isFinite(w.y) && w.fontSize > 0, 'a word is placed at no position or with no size', { word: w });
    const rots = (w.fill ? c.fillingRotateList ?? [0, 90] : c.rotateList ?? [0]).map(a => (a * Math.PI) / 180);
    env.check(rots.some(a => V.near(a, w.angle, 1e-9)), 'a word is not turned by one of its angles', { angle: w.angle, of: rots });
    if (!w.fill) env.check(w.fontStyle === val(c.fontStyle, w.datum, 'normal') && w.fontWeight === val(c.fontWeight, w.datum, 'normal') && w.fontFamily === 'sans-serif', 'a word does not have the font it was given', { word: w });
  }
  const seen = words.filter(w => w.fontSize >= 3);
  const { list, CW, P } = painted(seen, c.size, env, { inside: true, slack: 1, pixels: 4 });
  let off = 0, which = null;
  list.forEach((w, i) => {
    let n = 0;
    for (const p of w.px) {
      const x = (p % CW) / S2 - P, y = Math.floor(p / CW) / S2 - P;
      let far = true; // a pixel of slack around the shape
      for (let dx = -1; dx <= 1 && far; dx++) for (let dy = -1; dy <= 1 && far; dy++) {
        const X = Math.floor(x) + dx, Y = Math.floor(y) + dy;
        if (X < 0 || Y < 0 || X >= c.size[0] || Y >= c.size[1]) continue;
        if (!isBg((Y * c.size[0] + X) * 4)) far = false;
      }
      if (far) n++;
    }
    if (n > off) { off = n; which = seen[i]; }
  });
  env.check(off <= 4, () => `a word is painted outside the shape of its cloud (${off} pixels)`, { word: which });
  if (seen.length > 1) (env.nontrivial = true);
  if (fill.length) env.obs('filling words', fill.length);
  if (core.some(t => !t[as.visible])) env.obs('words without room', core.filter(t => !t[as.visible]).length);
}

// ---------------------------------------------------------------- through a view
function genView(rng) {
  const c = genCloud(rng);
  c.kind = rng.pick(['cloud', 'fast']);
  if (typeof c.shape === 'object') c.shape = undefined;
  c.clip = undefined; c.as = undefined; c.dataIndexKey = undefined;
  c.sizes = rng.times(rng.int(1, 3), () => [rng.pick([128, 200, 260]), rng.pick([100, 160, 211])]);
  c.onMark = rng.bool(0.5);
  return c;
}
async function checkView(c, env) {
  await V.withView({ width: 400, height: 300 }, view => {
    const w = view.signal(c.size[0]).id('w'), h = view.signal(c.size[1]).id('h');
    const o = { type: 'wordcloud', ...runOptions(c, 0), size: { callback: (d, p) => 0 } };
    o.size = [{ signal: 'w' }, { signal: 'h' }];
    const data = view.data(JSON.parse(js(c.rows))).id('d');
    const m = view.mark('text', view.rootMark).id('m').join(data);
    (c.onMark ? m : data).transform([o]);
    m.encode({ text: d => d.name, textAlign: 'center', textBaseline: 'alphabetic', fill: 'black', x: { field: 'x' }, y: { field: 'y' }, angle: { field: 'angle' }, fontSize: { field: 'fontSize' } });
    for (const size of [c.size, ...c.sizes]) {
      if (size !== c.size) { w.value(size[0]); h.value(size[1]); }
      view.run();
      const ref = W.wordcloudTransform({ ...runOptions(c, 0), size }, JSON.parse(js(c.rows)));
      const got = m.elements.map(e => { const a = e.getGraphicItem().attribute; return [a.text, a.x, a.y, a.angle, a.fontSize]; });
      const want = ref.map(t => [t.name, t.x, t.y, t.angle, t.fontSize]);
      const key = l => js(l.map(x => js(x.map(y => (typeof y === 'number' ? +y.toFixed(6) : y)))).sort());
      env.obs('views compared');
      env.check(key(got) === key(want), 'the words drawn are not those of the layout for the present size', { size, drawn: got.length, want: want.length });
      if (want.length) (env.nontrivial = true);
    }
  });
}

module.exports = {
  rule: 'every word of a cloud is drawn, centred on its baseline, in a canvas of the monitor; painted pixels belong to one word, lie inside the canvas or shape, and fonts, sizes, angles and membership follow the options',
  mustObserve: ['words drawn', 'pixels compared', 'progressive steps', 'filling words', 'words without room', 'views compared'],
  scenarios: [
    { name: 'cloud', weight: 6, quick: 160, gen: genCloud, run: checkCloud },
    { name: 'shape', weight: 2, quick: 60, gen: genShape, run: checkShape },
    { name: 'view', weight: 1, quick: 40, gen: genView, run: checkView }
  ]
};
