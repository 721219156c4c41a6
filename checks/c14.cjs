'use strict';
// Layout of marks in containers: grid, relative and customised layouts, nested, with edits between layouts.
const V = require('../lib/view.cjs');
const js = JSON.stringify, clone = x => JSON.parse(js(x));
const wp = (rng, list) => { const v = rng.wpick(list); return typeof v === 'function' ? v() : v; };
const box = b => (b ? [b.x1, b.y1, b.x2, b.y2] : null);
const close = (a, b) => a && b && a.every((v, i) => Math.abs(v - b[i]) < 1e-6);

// ---------------------------------------------------------------- grid
// templates whose fixed parts fit; rows and columns are as many, see the known finding on swapped axes
function genTemplate(rng, n, whole) {
  return rng.times(n, () => wp(rng, [[3, () => rng.int(5, Math.floor(whole / n))], [2, () => rng.pick([5, 10, 12.5, Math.floor(100 / n)]) + '%'], [3, 'auto']]));
}
function genLines(rng, n) {
  let a = rng.int(1, n + 1), b = rng.int(1, n + 1); while (b === a) b = rng.int(1, n + 1);
  const neg = v => (rng.bool(0.3) ? v - (n + 2) : v);
  return wp(rng, [[6, () => [neg(Math.min(a, b)), neg(Math.max(a, b))]], [1, () => [neg(a), neg(b)]], [1, () => [rng.int(1, n), null]], [1, () => [null, rng.int(2, n + 1)]], [1, () => [null, null]]]);
}
const genItem = (rng, id, n) => { const r = genLines(rng, n), c = genLines(rng, n); return { id, r0: r[0], r1: r[1], c0: c[0], c1: c[1] }; };
function genGridBox(rng, w, h, depth) {
  const n = rng.int(1, 4);
  return { n, rows: rng.bool(0.9) ? genTemplate(rng, n, h) : n === 1 ? null : genTemplate(rng, n, h), cols: rng.bool(0.9) ? genTemplate(rng, n, w) : n === 1 ? null : genTemplate(rng, n, w), rg: rng.wpick([[2, null], [3, rng.int(0, 12)]]), cg: rng.wpick([[2, null], [3, rng.int(0, 12)]]), items: rng.times(rng.int(1, 4), i => Object.assign(genItem(rng, 'i' + i + (depth ? 'n' : ''), n), { inner: !depth && rng.bool(0.25) ? genGridBox(rng, 80, 80, 1) : null })) };
}
const genGrid = rng => {
  const w = rng.int(150, 500), h = rng.int(150, 500);
  return { w, h, x: rng.int(0, 50), anon: rng.bool(0.3), box: genGridBox(rng, w, h, 0), spec: rng.bool(0.5), edits: rng.times(rng.int(0, 5), () => wp(rng, [[3, () => ({ o: 'size', w: rng.int(150, 500), h: rng.int(150, 500) })], [2, () => ({ o: 'item', i: rng.int(0, 9), it: rng.int(0, 1e6) })], [1, () => ({ o: 'gap', rg: rng.int(0, 12), cg: rng.int(0, 12) })], [1, { o: 'again' }], [1, () => ({ o: 'remove', i: rng.int(0, 9) })], [1, () => ({ o: 'add', it: rng.int(0, 1e6) })], [1, () => ({ o: 'late', it: rng.int(0, 1e6) })], [1, { o: 'run' }]])) };
};
function tracks(template, gap, total) {
  const t = template || [total], g = gap || 0, n = t.length;
  const size = v => (v === 'auto' ? null : typeof v === 'string' ? (parseFloat(v) / 100) * total : v);
  const fixed = t.reduce((s, v) => s + (size(v) || 0), 0), autos = t.filter(v => v === 'auto').length, each = autos ? Math.max(0, total - fixed - (n - 1) * g) / autos : 0;
  let at = 0; return t.map(v => { const s = size(v) === null ? each : size(v), o = { from: at, to: at + s }; at += s + g; return o; });
}
function span(tr, a, b) {
  const n = tr.length, line = v => (v === null || v === undefined ? null : v < 0 ? n + 1 + v : v - 1);
  let s = line(a), e = line(b);
  if (s === null && e === null) { s = 0; e = 1; } else if (s === null) s = Math.max(0, e - 1); else if (e === null) e = s + 1;
  if (s > e) [s, e] = [e, s];
  return [tr[s].from, tr[e - 1].to];
}
const layoutOf = b => { const l = { display: 'grid' }; if (b.rows) l.gridTemplateRows = b.rows.slice(); if (b.cols) l.gridTemplateColumns = b.cols.slice(); if (b.rg !== null) l.gridRowGap = b.rg; if (b.cg !== null) l.gridColumnGap = b.cg; return l; };
const itemLayout = it => { const l = it.inner ? layoutOf(it.inner) : {}; [['gridRowStart', 'r0'], ['gridRowEnd', 'r1'], ['gridColumnStart', 'c0'], ['gridColumnEnd', 'c1']].forEach(([k, q]) => { if (it[q] !== null) l[k] = it[q]; }); return l; };
const placed = { x: (d, el) => (el.mark.layoutBounds ? el.mark.layoutBounds.x1 : -1), y: (d, el) => (el.mark.layoutBounds ? el.mark.layoutBounds.y1 : -1), width: (d, el) => (el.mark.layoutBounds ? el.mark.layoutBounds.width() : -1), height: (d, el) => (el.mark.layoutBounds ? el.mark.layoutBounds.height() : -1) };
function itemSpec(it) { const s = { type: it.inner ? 'group' : 'rect', id: it.id, layout: itemLayout(it), encode: { update: { ...placed, fill: 'red' } } }; if (it.inner) s.marks = it.inner.items.map(q => itemSpec({ ...q, id: it.id + q.id })); return s; }
async function runGrid(c, env) {
  await V.withView({ width: 600, height: 600 }, async view => {
    const b = clone(c.box); let w = c.w, h = c.h, late = 0, home = view.rootMark;
    const size = view.signal({ w, h }).id('size');
    const enc = { x: c.x, y: 10, clip: true, width: { callback: (d, e, p) => p.size.w, dependency: ['size'] }, height: { callback: (d, e, p) => p.size.h, dependency: ['size'] } };
    if (c.anon) { view.group(view.rootMark).layout({ display: 'grid' }).encode({ width: 10, height: 10 }); home = view.group(view.rootMark); }
    if (c.spec) view.group(home).parse({ type: 'group', id: 'box', layout: layoutOf(b), encode: { update: enc } });
    else view.group(home).id('box').layout(layoutOf(b)).encode(enc);
    const container = view.getMarkById('box');
    const add = (it, parent) => {
      const m = it.inner ? view.group(parent) : view.mark('rect', parent);
      if (c.spec) m.parse({ type: it.inner ? 'group' : 'rect', id: it.id, layout: itemLayout(it), encode: { update: { ...placed, fill: 'red' } } });
      else m.id(it.id).layout(itemLayout(it)).encode({ ...placed, fill: 'red' });
      if (it.inner) it.inner.items.forEach(q => { q.id = it.id + q.id; add(q, m); });
    };
    b.items.forEach(it => add(it, container));
    const judge = (bx, W, H, tag) => {
      const R = tracks(bx.rows, bx.rg, H), C = tracks(bx.cols, bx.cg, W);
      const straight = [], swapped = [], got = bx.items.map(it => box(view.getMarkById(it.id).layoutBounds));
      bx.items.forEach(it => {
        const [y1, y2] = span(R, it.r0, it.r1), [x1, x2] = span(C, it.c0, it.c1); straight.push([x1, y1, x2, y2]);
        const [sy1, sy2] = span(R, it.c0, it.c1), [sx1, sx2] = span(C, it.r0, it.r1); swapped.push([sx1, sy1, sx2, sy2]);
      });
      const fits = want => want.every((r, i) => close(got[i], r));
      const want = fits(straight) ? straight : swapped;
      bx.items.forEach((it, i) => {
        env.obs('grid items compared');
        env.check(close(got[i], want[i]), () => `${tag}: ${it.id} (rows ${it.r0}–${it.r1}, columns ${it.c0}–${it.c1}) is at ${got[i]}, its cells at ${straight[i]}`);
        const a = view.getMarkById(it.id).elements[0].getGraphicItem().attribute;
        env.check(close([a.x, a.y, a.x + a.width, a.y + a.height], want[i]), () => `${tag}: ${it.id} is drawn at ${[a.x, a.y, a.x + a.width, a.y + a.height]}, its layout bounds are ${want[i]}`);
        if (it.inner) judge(it.inner, want[i][2] - want[i][0], want[i][3] - want[i][1], tag + ' inside ' + it.id);
      });
    };
    const again = () => { view.updateLayoutTag(); view.run(); };
    view.run(); judge(b, w, h, 'first run');
    for (const [j, e] of c.edits.entries()) {
      const tag = `edit ${j} (${e.o})`;
      if (e.o === 'size') { w = e.w; h = e.h; size.value({ w, h }); view.run(); again(); }
      else if (e.o === 'item' && b.items.length) { const it = b.items[e.i % b.items.length]; if (it.inner) continue; const s = e.it % 7, lines = [[1, 2], [null, null], [-2, -1], [b.n + 1, 1], [b.n, null], [null, b.n + 1], [1, -1]][s]; it.r0 = lines[0]; it.r1 = lines[1]; view.getMarkById(it.id).layout(itemLayout(it)); again(); }
      else if (e.o === 'gap') { b.rg = e.rg; b.cg = e.cg; container.layout(layoutOf(b)); again(); }
      else if (e.o === 'remove' && b.items.length) { const [it] = b.items.splice(e.i % b.items.length, 1); if (it.inner) it.inner.items.forEach(q => view.removeGrammar(q.id)); view.removeGrammar(it.id); again(); }
      else if (e.o === 'add' || e.o === 'late') {
        const it = { id: 'late' + late++, r0: 1, r1: (e.it % b.n) + 2, c0: null, c1: null, inner: null };
        if (e.o === 'add') { add(it, container); b.items.push(it); again(); }
        else { view.mark('rect', container).id(it.id).encode({ ...placed, fill: 'red' }); view.run(); view.getMarkById(it.id).layout(itemLayout(it)); b.items.push(it); again(); }
      } else if (e.o === 'run') view.run(); else again();
      env.saw('edits', e.o);
      judge(b, w, h, tag);
    }
    env.nontrivial = true;
  });
}

// ---------------------------------------------------------------- relative
const POS = ['top', 'bottom', 'left', 'right', 'content', 'outside'];
const genChild = (rng, id) => ({ id, pos: rng.wpick([[3, 'top'], [3, 'bottom'], [3, 'left'], [3, 'right'], [2, 'content'], [1, null], [1, 'outside']]), pad: wp(rng, [[2, null], [1, () => rng.int(0, 10)], [1, () => ({ top: rng.int(0, 9), left: rng.int(0, 9) })], [1, () => ({ top: rng.int(0, 9), bottom: rng.int(0, 9), left: rng.int(0, 9), right: rng.int(0, 9) })]]), align: rng.wpick([[4, null], [1, 'left'], [1, 'center'], [1, 'right'], [1, 'top'], [1, 'middle'], [1, 'bottom']]), order: rng.bool(0.3) ? rng.int(-2, 3) : null, x: rng.wpick([[5, rng.int(0, 150)], [1, -rng.int(1, 40)], [1, rng.int(250, 400)]]), y: rng.wpick([[5, rng.int(0, 100)], [1, -rng.int(1, 40)], [1, rng.int(150, 350)]]), w: rng.int(5, 60), h: rng.int(5, 60), follow: rng.bool(0.3) });
const genRelative = rng => ({
  grow: rng.wpick([[4, 0], [1, rng.int(1, 6)]]), w: rng.int(200, 400), h: rng.int(150, 350), vw: rng.int(250, 450), vh: rng.int(200, 400), padding: rng.wpick([[2, 0], [1, rng.int(1, 20)], [1, { top: rng.int(0, 20), left: rng.int(0, 20), right: rng.int(0, 20), bottom: rng.int(0, 20) }]]),
  mw: rng.wpick([[3, null], [1, rng.int(5, 50)], [2, rng.int(2, 30) + '%']]), mh: rng.wpick([[3, null], [1, rng.int(5, 50)], [2, rng.int(2, 30) + '%']]), signals: rng.bool(0.5), kids: rng.times(rng.int(1, 6), i => genChild(rng, 'k' + i)),
  edits: rng.times(rng.int(0, 5), () => wp(rng, [[3, { o: 'again' }], [2, () => ({ o: 'size', w: rng.int(200, 400), h: rng.int(150, 350) })], [2, () => ({ o: 'kid', i: rng.int(0, 9), to: genChild(rng, 'x') })], [1, () => ({ o: 'view', w: rng.int(250, 450), h: rng.int(200, 400) })], [1, () => ({ o: 'padding', p: rng.int(0, 20) })], [1, { o: 'run' }], [1, () => ({ o: 'remove', i: rng.int(0, 9) })]]))
});
const four = p => (typeof p === 'number' ? { top: p, bottom: p, left: p, right: p } : { top: 0, bottom: 0, left: 0, right: 0, ...(p || {}) });
const share = (m, total) => (m === null ? Infinity : typeof m === 'string' ? (parseFloat(m) / 100) * total : m);
// what is declared: the sides take their room from the container, the content gets what is left, children stack outwards
function placeRelative(kids, c, P) {
  const W = P[2] - P[0], H = P[3] - P[1], in_ = P.slice(), lim = { w: c.mw === null ? W : share(c.mw, W), h: c.mh === null ? H : share(c.mh, H) };
  const vert = k => k.pos === 'top' || k.pos === 'bottom', hor = k => k.pos === 'left' || k.pos === 'right';
  const need = k => { const p = four(k.pad); return { w: k.w + p.left + p.right, h: k.h + p.top + p.bottom }; };
  const over = k => ({ l: Math.max(0, P[0] - k.x), r: Math.max(0, k.x + k.w - P[2]), t: Math.max(0, P[1] - k.y), b: Math.max(0, k.y + k.h - P[3]) });
  const stick = { l: 0, r: 0, t: 0, b: 0 };
  kids.forEach(k => {
    const n = need(k), o = over(k), p = four(k.pad);
    if (k.pos === 'top') in_[1] += Math.min(n.h, lim.h); else if (k.pos === 'bottom') in_[3] -= Math.min(n.h, lim.h); else if (k.pos === 'left') in_[0] += Math.min(n.w, lim.w); else if (k.pos === 'right') in_[2] -= Math.min(n.w, lim.w);
    else if (k.pos === 'outside') { in_[0] += o.l + p.left; in_[2] -= o.r + p.right; in_[1] += o.t + p.top; in_[3] -= o.b + p.bottom; }
    if (vert(k)) { stick.l = Math.max(stick.l, o.l); stick.r = Math.max(stick.r, o.r); }
    if (hor(k)) { stick.t = Math.max(stick.t, o.t); stick.b = Math.max(stick.b, o.b); }
  });
  if (stick.l < W) in_[0] = Math.max(in_[0], P[0] + stick.l); if (stick.r < W) in_[2] = Math.min(in_[2], P[2] - stick.r);
  if (stick.t < H) in_[1] = Math.max(in_[1], P[1] + stick.t); if (stick.b < H) in_[3] = Math.min(in_[3], P[3] - stick.b);
  const cur = in_.slice(), out = {}, iw = in_[2] - in_[0], ih = in_[3] - in_[1];
  kids.map((k, i) => [k, i]).sort((a, b) => { const oa = a[0].order ?? Infinity, ob = b[0].order ?? Infinity; return oa === ob ? a[1] - b[1] : oa - ob; }).forEach(([k]) => {
    const n = need(k), o = over(k), p = four(k.pad);
    if (vert(k)) {
      const hh = Math.min(n.h, lim.h); let r;
      if (k.pos === 'top') { r = [in_[0], cur[1] - hh, in_[2], cur[1]]; cur[1] -= hh; } else { r = [in_[0], cur[3], in_[2], cur[3] + hh]; cur[3] += hh; }
      if (n.w < iw) { if (k.align === 'left') r[2] = r[0] + n.w; if (k.align === 'right') r[0] = r[2] - n.w; if (k.align === 'center') { r[0] = in_[0] + (iw - n.w) / 2; r[2] = r[0] + n.w; } }
      out[k.id] = r;
    } else if (hor(k)) {
      const ww = Math.min(n.w, lim.w); let r;
      if (k.pos === 'left') { r = [cur[0] - ww, in_[1], cur[0], in_[3]]; cur[0] -= ww; } else { r = [cur[2], in_[1], cur[2] + ww, in_[3]]; cur[2] += ww; }
      if (n.h < ih) { if (k.align === 'top') r[3] = r[1] + n.h; if (k.align === 'bottom') r[1] = r[3] - n.h; if (k.align === 'middle') { r[1] = in_[1] + (ih - n.h) / 2; r[3] = r[1] + n.h; } }
      out[k.id] = r;
    } else if (k.pos === 'outside') { cur[0] -= o.l + p.left; cur[2] += o.r + p.right; cur[1] -= o.t + p.top; cur[3] += o.b + p.bottom; } else out[k.id] = in_.slice();
  });
  return { in_, out };
}
const kidLayout = k => { const l = {}; if (k.pos) l.position = k.pos; if (k.pad !== null) l.padding = clone(k.pad); if (k.align) l.align = k.align; if (k.order !== null) l.order = k.order; return l; };
async function runRelative(c, env) {
  await V.withView({ width: c.vw, height: c.vh, ...(c.grow ? { parseMarkBounds: (b, mark) => { env.obs('bounds parsed'); return mark.id() === 'probe' ? b : b.clone().expand(c.grow); } } : {}) }, async view => {
    const s = clone(c); let vw = s.vw, vh = s.vh, pad = four(s.padding);
    const layout = { display: 'relative' }; if (s.mw !== null) layout.maxChildWidth = s.mw; if (s.mh !== null) layout.maxChildHeight = s.mh; if (s.signals) layout.updateViewSignals = true;
    const at = new Map(s.kids.map(k => [k.id, k]));
    const spec = { width: vw, height: vh, padding: clone(s.padding), signals: [{ id: 'size', value: { w: s.w, h: s.h } }], marks: [{ type: 'group', id: 'box', layout, encode: { update: { x: 0, y: 0, clip: true, width: { callback: (d, e, p) => p.size.w, dependency: ['size'] }, height: { callback: (d, e, p) => p.size.h, dependency: ['size'] } } }, marks: s.kids.map(k => ({ type: 'rect', id: k.id, layout: kidLayout(k), encode: { update: { x: (d, el) => { const m = at.get(k.id), b = el.mark.layoutBounds; return m.follow && b ? b.x1 : m.x; }, y: (d, el) => { const m = at.get(k.id), b = el.mark.layoutBounds; return m.follow && b ? b.y1 : m.y; }, width: () => at.get(k.id).w, height: () => at.get(k.id).h, fill: 'red' } } })).concat([{ type: 'rect', id: 'probe', encode: { update: { width: { signal: 'viewWidth' }, height: { signal: 'viewHeight' }, fill: 'blue' } } }]) }] };
    view.parseSpec(spec);
    // where the children are drawn when the layout runs
    let drawn = s.kids.map(k => ({ ...k })), inner = null;
    const judge = tag => {
      const P = s.signals ? [Math.max(0, pad.left), Math.max(0, pad.top), Math.min(s.w, vw - pad.right), Math.min(s.h, vh - pad.bottom)] : [0, 0, s.w, s.h];
      const g = s.grow, want = placeRelative(drawn.map(k => ({ ...k, x: k.x - g, y: k.y - g, w: k.w + 2 * g, h: k.h + 2 * g })), s, P); inner = want.in_;
      if (inner[2] <= inner[0] || inner[3] <= inner[1]) { env.obs('layouts without room for the content'); return false; }
      s.kids.forEach(k => {
        if (k.pos === 'outside') return;
        const m = view.getMarkById(k.id), got = box(m.layoutBounds);
        env.obs('relative children compared'); env.saw('position', `${k.pos} ${k.align}`);
        env.check(close(got, want.out[k.id]), () => `${tag}: ${k.id} (${k.pos}, ${k.align}) gets ${got}, expected ${want.out[k.id]} in ${P}`);
        const g = m.elements[0].getGraphicItem().attribute, x = k.follow ? want.out[k.id][0] : k.x, y = k.follow ? want.out[k.id][1] : k.y;
        env.check(Math.abs(g.x - x) < 1e-6 && Math.abs(g.y - y) < 1e-6, () => `${tag}: ${k.id} is drawn at ${g.x}, ${g.y}, expected ${x}, ${y}`);
        const rel = m.relativePosition;
        if (k.pos === 'top' || k.pos === 'bottom') env.check(Math.abs(rel.top - (want.out[k.id][1] - inner[1])) < 1e-6 && Math.abs(rel.bottom - (want.out[k.id][1] - inner[3])) < 1e-6, () => `${tag}: ${k.id} is ${js(rel)} from the content`);
        if (k.pos === 'left' || k.pos === 'right') env.check(Math.abs(rel.left - (want.out[k.id][0] - inner[0])) < 1e-6 && Math.abs(rel.right - (want.out[k.id][0] - inner[2])) < 1e-6, () => `${tag}: ${k.id} is ${js(rel)} from the content`);
      });
      drawn = s.kids.map(k => ({ ...k, ...(k.follow && want.out[k.id] ? { x: want.out[k.id][0], y: want.out[k.id][1] } : {}) }));
      if (s.signals) {
        const b = view.getViewBox();
        env.check(close(box(b), inner), () => `${tag}: the view box is ${box(b)}, the content ${inner}`);
        env.check(Math.abs(view.viewWidth() - (inner[2] - inner[0])) < 1e-6 && Math.abs(view.viewHeight() - (inner[3] - inner[1])) < 1e-6, () => `${tag}: the view size is ${view.viewWidth()} × ${view.viewHeight()}, the content ${inner}`);
        const g = view.getMarkById('probe').elements[0].getGraphicItem().attribute;
        env.check(Math.abs(g.width - view.viewWidth()) < 1e-6 && Math.abs(g.height - view.viewHeight()) < 1e-6, () => `${tag}: a mark of the size of the view is ${g.width} × ${g.height}, the view ${view.viewWidth()} × ${view.viewHeight()}`);
        env.obs('view signals compared');
      }
      return true;
    };
    const again = () => { view.updateLayoutTag(); view.run(); };
    env.nontrivial = true; view.run(); if (!judge('first run')) return;
    for (const [j, e] of s.edits.entries()) {
      const tag = `edit ${j} (${e.o})`;
      env.saw('edits', e.o);
      if (e.o === 'size') { s.w = e.w; s.h = e.h; view.getSignalById('size').value({ w: e.w, h: e.h }); view.run(); again(); }
      else if (e.o === 'view') { vw = e.w; vh = e.h; view.width(e.w); view.height(e.h); view.run(); again(); }
      else if (e.o === 'padding') { pad = four(e.p); view.padding(e.p); view.run(); again(); }
      else if (e.o === 'kid' && s.kids.length) { const k = s.kids[e.i % s.kids.length], id = k.id; Object.assign(k, e.to, { id }); if (k.pos === 'outside') k.follow = false; const m = view.getMarkById(id); m.layout(kidLayout(k)); view.run(); drawn = drawn.map(d => (d.id === id ? { ...k, ...(k.follow && m.layoutBounds ? { x: m.layoutBounds.x1, y: m.layoutBounds.y1 } : {}) } : d)); again(); }
      else if (e.o === 'remove' && s.kids.length) { const [k] = s.kids.splice(e.i % s.kids.length, 1); drawn = drawn.filter(d => d.id !== k.id); view.removeGrammar(k.id); again(); }
      else if (e.o === 'again') again(); else { view.run(); continue; }
      if (!judge(tag)) return;
    }
  });
}

// ---------------------------------------------------------------- customised
const genCustom = rng => ({ depth: rng.int(1, 3), kids: rng.times(rng.int(0, 4), () => rng.bool(0.8)), as: rng.pick(['function', 'callback', 'view']), runs: rng.times(rng.int(1, 4), () => rng.pick(['run', 'layout', 'data'])), w: rng.int(50, 200), h: rng.int(50, 200), spec: rng.bool(0.5) });
async function runCustom(c, env) {
  const log = [];
  const place = (group, children, bounds, options) => { log.push({ id: group.id(), children: children.map(m => m.id()), bounds: box(bounds), options }); const w = (bounds.x2 - bounds.x1) / (children.length || 1); children.forEach((m, i) => { m.layoutBounds = bounds.clone().set(i * w, 1, (i + 1) * w, bounds.y2 - bounds.y1 - 1); m.commit(); }); };
  const whole = [];
  const opts = c.as === 'view' ? { doLayout: (marks, options, view) => { whole.push(marks.map(m => m.id())); marks.forEach(m => place(m, m.layoutChildren || [], m.getBounds(), options)); } } : {};
  await V.withView({ width: 400, height: 400, ...opts }, async view => {
    const lay = c.as === 'callback' ? { callback: place } : c.as === 'function' ? place : { display: 'grid' };
    view.data([{ k: 1 }]).id('d');
    let parent = view.rootMark; const boxes = [];
    for (let i = 0; i < (c.as === 'view' ? 1 : c.depth); i++) {
      const g = view.group(parent).id('g' + i).layout(lay).encode(i ? placed : { clip: true, x: 0, y: 0, width: c.w, height: c.h }); boxes.push(g); parent = g;
      c.kids.forEach((has, j) => { const m = view.mark('rect', g).id(`m${i}-${j}`).join('d', 'k').encode({ ...placed, fill: 'red' }); if (has) m.layout({ position: 'x' }); });
    }
    const expectOf = () => { // pairs of (container, bounds), outermost first
      const out = []; let b = [0, 0, c.w, c.h];
      boxes.forEach((g, i) => { const kids = (c.kids.map((has, j) => (has ? `m${i}-${j}` : null)).filter(x => x)), order = i < boxes.length - 1 ? kids.concat('g' + (i + 1)) : kids; out.push({ id: 'g' + i, children: order, bounds: b }); const w = (b[2] - b[0]) / (order.length || 1), at = order.length - 1; b = [at * w, 1, order.length * w, b[3] - b[1] - 1]; });
      return out;
    };
    const judge = tag => {
      const want = expectOf();
      env.check(log.length === want.length, () => `${tag}: the layout is called ${log.length} times for ${want.length} containers`);
      log.forEach((l, i) => {
        env.check(l.id === want[i].id && V.same(l.children, want[i].children), () => `${tag}: call ${i} lays out ${l.children} in ${l.id}, expected ${want[i].children} in ${want[i].id}`);
        env.check(close(l.bounds, want[i].bounds), () => `${tag}: ${l.id} is laid out in ${l.bounds}, expected ${want[i].bounds}`);
        const n = want[i].children.length, w = (want[i].bounds[2] - want[i].bounds[0]) / n;
        want[i].children.forEach((id, j) => { const a = view.getMarkById(id).elements[0].getGraphicItem().attribute; env.obs('custom children compared'); env.check(close([a.x, a.y, a.width, a.height], [j * w, 1, w, want[i].bounds[3] - want[i].bounds[1] - 2]), () => `${tag}: ${id} is drawn at ${[a.x, a.y, a.width, a.height]}`); });
      });
      c.kids.forEach((has, j) => boxes.forEach((g, i) => { if (!has) env.check(view.getMarkById(`m${i}-${j}`).layoutBounds === undefined, () => `${tag}: m${i}-${j}, which is not laid out, has bounds`); }));
      if (c.as === 'view') env.check(whole.length === 1 && V.same(whole[0], ['g0']), () => `${tag}: the layout of the view is called with ${js(whole)}`);
    };
    view.run(); judge('first run');
    for (const [i, r] of c.runs.entries()) {
      log.length = 0; whole.length = 0;
      if (r === 'layout') view.updateLayoutTag(); if (r === 'data') view.getDataById('d').values([{ k: 1 + i }]);
      view.run();
      if (r === 'layout') judge(`run ${i}`); else env.check(log.length === 0, () => `run ${i} (${r}): the layout runs though it was not asked for`);
    }
    env.nontrivial = true;
  });
}

module.exports = {
  rule: 'after a layout the bounds, relative positions, view signals and drawn positions of all children are the ones the containers declare',
  mustObserve: ['bounds parsed', 'grid items compared', 'relative children compared', 'view signals compared', 'custom children compared'],
  pinned: [{ name: 'grid-swapped', scenario: 'pair', case: {} }],
  scenarios: [
    { name: 'grid', weight: 3, quick: 500, gen: genGrid, run: runGrid },
    { name: 'relative', weight: 3, quick: 700, gen: genRelative, run: runRelative },
    { name: 'custom', weight: 1, quick: 200, gen: genCustom, run: runCustom },
    { name: 'pair', weight: 0, quick: 0, gen: () => ({}), async run(c, env) {
      await V.withView({ width: 400, height: 400 }, async view => {
        const g = view.group(view.rootMark).layout({ display: 'grid', gridTemplateRows: [100], gridTemplateColumns: [100, 200] }).encode({ x: 0, y: 0, width: 300, height: 100 });
        const m = view.mark('rect', g).layout({ gridRowStart: 1, gridRowEnd: 2, gridColumnStart: 2, gridColumnEnd: 3 }).encode({ fill: 'red' });
        view.run(); env.nontrivial = true;
        env.check(close(box(m.layoutBounds), [100, 0, 300, 100]), () => `grid rows select columns and columns rows: the second column of one row is at ${box(m.layoutBounds)}, not 100,0,300,100`);
      });
    } }
  ]
};
