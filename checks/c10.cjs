'use strict';
// Navigation (drag, scroll, zoom, roam) and fisheye: every gesture is fired as events on the stage; a model of the visible
// range per direction is advanced by the same gestures and compared with what the scales, the data, the linked components
// and the notifications show.
const V = require('../lib/view.cjs');
const { withClock } = require('../lib/clock.cjs');
const clone = x => JSON.parse(JSON.stringify(x));
const wp = (rng, list) => { const v = rng.wpick(list); return typeof v === 'function' ? v() : v; };
const near = (a, b, eps = 1e-7) => a === b || Math.abs(a - b) <= eps * Math.max(1, Math.abs(a), Math.abs(b));
const DIMS = ['x', 'y'];
const CATS = ['a', 'b', 'c', 'd', 'e', 'f', 'g'];

// ---------------------------------------------------------------- generation
const genRow = (rng, i) => ({ k: 'r' + i, v: rng.num(0, 100, 2), c: rng.pick(CATS) });
const genRows = rng => rng.times(rng.int(0, 10), i => genRow(rng, i));
const span = rng => { const a = rng.num(0, 1, 3), b = rng.num(0, 1, 3); return Math.abs(a - b) < 0.02 ? [0.2, 0.7] : [Math.min(a, b), Math.max(a, b)]; };
function genDim(rng) {
  const d = { mode: rng.wpick([[5, 'scale'], [3, 'data'], [2, 'linked'], [1.2, 'free']]), band: rng.bool(0.35), flip: rng.bool(0.3) };
  if (d.mode === 'scale') { d.init = rng.bool(0.5) ? span(rng) : null; d.pad = rng.pick([0, 0.1, 0.4]); }
  if (d.mode === 'data') { d.fn = rng.bool(0.35); d.top = rng.bool(0.25) ? rng.int(1, 4) : 0; }
  if (d.mode === 'linked') { d.comp = rng.pick(['datazoom', 'scrollbar']); d.flip = false; d.init = d.comp === 'scrollbar' && rng.bool(0.6) ? span(rng) : null; }
  if (d.mode === 'free') { d.give = rng.pick(['none', 'array', 'function']); d.init = span(rng); }
  return d;
}
const genShould = rng => (rng.bool(0.12) ? { [rng.pick(['shouldStart', 'shouldUpdate', 'shouldEnd', 'shouldReset'])]: rng.int(30, 170) } : {});
const rates = rng => rng.pick([1, 1, 0.5, 2, 3]);
function genInst(rng, types) {
  const type = rng.pick(types), o = { type, throttle: rng.pick([undefined, 0, 50]), should: genShould(rng) };
  const part = { drag: () => ({ realtime: rng.wpick([[4, undefined], [1, true], [2, false]]), reversed: rng.wpick([[3, undefined], [2, true]]) }), scroll: () => ({ realtime: rng.wpick([[4, undefined], [1, true], [2, false]]), reversed: rng.wpick([[3, undefined], [2, true]]) }), zoom: () => ({ realtime: rng.wpick([[4, undefined], [1, true], [2, false]]), rate: rng.wpick([[2, undefined], [1, () => 0]]) === undefined ? undefined : rates(rng) }) };
  if (type === 'roam') { for (const k of ['zoom', 'scroll', 'drag']) if (rng.bool(0.75)) o[k] = { ...part[k](), enable: rng.wpick([[3, true], [1, false], [1, undefined]]) }; } else o[type] = part[type]();
  o.off = rng.wpick([[5, null], [1, 'x'], [1, 'y']]);
  o.byId = rng.bool(0.5);
  return o;
}
function genNav(rng) {
  const dims = { x: genDim(rng), y: genDim(rng) };
  const n = rng.wpick([[5, 1], [2, 2], [1, 3]]), insts = [], types = ['drag', 'scroll', 'zoom', 'roam', 'roam'];
  for (let i = 0; i < n; i++) insts.push(genInst(rng, types));
  for (const d of DIMS) if (dims[d].mode === 'data') insts.slice(1).forEach(o => { o.not = (o.not || []).concat(d); }); // one owner of a filter
  let pressed = false;
  const pt = () => ({ x: rng.int(0, 200), y: rng.int(0, 200) });
  const ops = rng.times(rng.int(3, 16), () => {
    const o = wp(rng, [
      [4, () => ({ o: 'wheel', ...pt(), ctrl: rng.bool(0.5), dx: rng.wpick([[2, 0], [3, rng.int(-60, 60)]]), dy: rng.int(-300, 300), mode: rng.wpick([[4, 0], [1, 1]]) })],
      [3, () => ({ o: 'down', ...pt(), id: 1 })],
      [4, () => (pressed ? { o: 'move', ...pt(), id: rng.wpick([[6, 1], [1, 2]]) } : { o: 'down', ...pt(), id: 1 })],
      [1.5, () => ({ o: 'burst', pts: rng.times(rng.int(2, 4), pt) })],
      [2.5, () => ({ o: 'up', ...pt() })],
      [0.5, () => ({ o: 'down', ...pt(), id: 2 })],
      [1, () => ({ o: 'dbl', ...pt() })],
      [0.8, () => ({ o: 'rows', rows: genRows(rng) })],
      [0.6, () => ({ o: 'size', d: rng.pick(DIMS), v: rng.int(60, 200) })],
      [0.6, () => ({ o: 'rebind', i: rng.int(0, n - 1), how: rng.pick(['unbind', 'remove', 'pause']) })]
    ]);
    if (o.o === 'wheel' && o.mode === 1) { o.dx = Math.round(o.dx / 10); o.dy = Math.round(o.dy / 20); }
    if (o.o === 'down') pressed = true; if (o.o === 'up') pressed = false;
    return o;
  });
  return { rows: genRows(rng), dims, insts, ops };
}

// ---------------------------------------------------------------- range arithmetic of the model
const clamp = (v, a, b) => Math.max(a, Math.min(b, v));
function shifted([a, b], size, px, reversed) {
  if (!(Math.abs(px) >= 1e-3) || b - a >= 1 || !(size > 0)) return null;
  const by = clamp(((reversed ? -1 : 1) * px) / size, -a, 1 - b);
  return by === 0 ? null : [a + by, b + by];
}
function zoomed([a, b], ratio, rate) {
  const w = b - a;
  if ((w >= 1 && ratio >= 1) || (w <= 1e-3 && ratio <= 1)) return null;
  const by = (w * (ratio - 1) * rate) / 2;
  return [clamp(a - by, 0, 1), clamp(b + by, 0, 1)];
}

async function runNav(c, env) {
  await withClock(clock => V.withView({ width: 260, height: 260 }, async view => {
    const size = { x: 200, y: 200 }, field = d => (c.dims[d].band ? 'c' : 'v');
    const scaleOf = (id, d) => {
      const D = c.dims[d], range = { callback: (s, p) => (D.flip ? [p['z' + d], 0] : [0, p['z' + d]]), dependency: ['z' + d] };
      return D.band ? { id, type: 'band', domain: CATS.slice(), range, padding: D.pad || 0 } : { id, type: 'linear', domain: [0, 100], range };
    };
    const marks = [{ type: 'symbol', id: 'm', from: { data: 'd' }, key: 'k', encode: { update: { x: { scale: 'sx', field: field('x') }, y: { scale: 'sy', field: field('y') }, size: 4 } } },
      { type: 'symbol', id: 'by', from: { data: 'e' }, key: 'k', encode: { update: { x: { scale: 'ux', field: field('x') }, y: { scale: 'uy', field: field('y') }, size: 4 } } }];
    const interactions = [];
    DIMS.forEach((d, i) => {
      const D = c.dims[d]; if (D.mode !== 'linked') return;
      const pos = d === 'x' ? { x: 10, y: 220, width: 180, height: 20 } : { x: 220, y: 10, width: 20, height: 180 };
      marks.push({ type: 'component', id: 'comp' + d, componentType: D.comp, ...(D.comp === 'scrollbar' ? { scale: 's' + d, direction: d === 'x' ? 'horizontal' : 'vertical', encode: { update: { ...pos } } } : { preview: { data: 'e', x: { scale: 'ux', field: field('x') }, y: { scale: 'uy', field: field('y') } }, encode: { update: { ...pos, position: undefined, size: { width: pos.width, height: pos.height }, orient: d === 'x' ? 'bottom' : 'left', showDetail: false } } }) });
      interactions.push({ type: D.comp + '-filter', source: '#comp' + d, target: { data: 'd', filter: field(d) } });
    });
    let rows = clone(c.rows);
    view.parseSpec({ signals: DIMS.map(d => ({ id: 'z' + d, value: 200 })), data: [{ id: 'd', values: clone(rows) }, { id: 'e', values: clone(c.rows) }], scales: [scaleOf('sx', 'x'), scaleOf('sy', 'y'), scaleOf('ux', 'x'), scaleOf('uy', 'y')], marks, interactions });
    const S = {}, L = {}, F = {};
    DIMS.forEach(d => { const D = c.dims[d]; S[d] = null; if (D.mode === 'scale' && D.init) { S[d] = D.init.slice(); view.getScaleById('s' + d).setRangeFactor(D.init.slice()); view.getScaleById('s' + d).commit(); } L[d] = D.mode === 'linked' ? D.init || [0, 1] : null; });
    view.run(); clock.advance(200);
    DIMS.forEach(d => { if (c.dims[d].mode === 'linked' && c.dims[d].init) { view.getMarkById('comp' + d).getGroupGraphicItem().setScrollRange(c.dims[d].init.slice()); F[d] = L[d]; clock.advance(200); } });
    // ------------------------------------------------------------- instances under test and their models
    const mk = (o, i) => {
      const x = { o, i, notes: [], live: true };
      const opt = { onStart: p => x.notes.push(['start', p]), onUpdate: p => x.notes.push(['update', p]), onEnd: p => x.notes.push(['end', p]), onReset: p => x.notes.push(['reset', p]) };
      for (const k of Object.keys(o.should)) opt[k] = e => e.canvasX < o.should[k];
      if (o.throttle !== undefined) opt.throttle = o.throttle;
      if (o.type === 'roam') for (const k of ['zoom', 'scroll', 'drag']) { if (o[k]) { opt[k] = {}; for (const q of Object.keys(o[k])) if (o[k][q] !== undefined) opt[k][q] = o[k][q]; } } else for (const q of Object.keys(o[o.type])) if (o[o.type][q] !== undefined) opt[q] = o[o.type][q];
      x.modes = {}; x.give = {};
      for (const d of DIMS) {
        const D = c.dims[d], U = d.toUpperCase();
        if (o.off === d || (o.not || []).includes(d)) { opt['enable' + U] = false; continue; }
        x.modes[d] = D.mode;
        if (D.mode === 'scale' || D.mode === 'data') opt['scale' + U] = o.byId ? 's' + d : view.getScaleById('s' + d);
        if (D.mode === 'data') {
          opt['dataTarget' + U] = { data: o.byId ? 'd' : view.getDataById('d'), filter: D.fn ? (datum, r) => datum.v / 100 >= r[0] && datum.v / 100 <= r[1] : field(d) };
          if (D.top) opt['dataTarget' + U].transform = list => list.slice(0, D.top);
        }
        if (D.mode === 'linked') opt['linkedComponent' + U] = o.byId ? 'comp' + d : view.getMarkById('comp' + d);
        if (D.mode === 'free' && D.give === 'array') opt['range' + U] = D.init.slice();
        if (D.mode === 'free' && D.give === 'function') opt['range' + U] = () => D.init.slice();
      }
      x.parts = o.type === 'roam' ? ['zoom', 'scroll', 'drag'].filter(k => ({ zoom: true, scroll: false, drag: true, ...(o[k] && o[k].enable !== undefined ? { [k]: o[k].enable } : {}) }[k])) : [o.type];
      x.reset = () => { Object.assign(x, { inited: false, own: {}, init: {}, started: {}, pid: null, from: null, acc: null, zd: null }); };
      x.reset();
      x.real = k => { const p = o[k]; return !(p && p.realtime === false); };
      x.obj = view.interaction('view-' + o.type, opt);
      env.saw('configurations', [o.type, x.parts.join('+'), DIMS.map(d => x.modes[d] || '-').join('/')].join(' '));
      return x;
    };
    let insts = c.insts.map(mk);
    const should = (x, k, e) => x.o.should[k] === undefined || e.x < x.o.should[k];
    const init = x => {
      if (x.inited) return; x.inited = true;
      for (const d of Object.keys(x.modes)) { const D = c.dims[d]; if (x.modes[d] === 'scale') x.own[d] = S[d]; else if (x.modes[d] === 'free' && D.give === 'array') x.own[d] = x.init[d] = D.init; }
    };
    const current = (x, d) => { const m = x.modes[d]; return m === 'linked' ? L[d] : m === 'scale' ? S[d] || x.own[d] || [0, 1] : m === 'free' && c.dims[d].give === 'function' ? c.dims[d].init : x.own[d] || [0, 1]; };
    /** applies f(range, size) in every direction; returns the range to be announced */
    const apply = (x, f) => {
      const res = { needUpdate: false };
      for (const d of Object.keys(x.modes)) {
        const m = x.modes[d], old = current(x, d);
        let s = m === 'free' ? 1 : size[d];
        if (m === 'linked') { const b = view.getMarkById('comp' + d).getBounds(); s = d === 'x' ? b.x2 - b.x1 : b.y2 - b.y1; }
        const next = f(old, s, d);
        if (next) {
          env.check(next[0] >= 0 && next[0] <= next[1] && next[1] <= 1, 'the model is broken');
          if (m === 'linked') L[d] = F[d] = next; else { if (m === 'scale') S[d] = next; x.own[d] = next; }
          if (m === 'scale' || m === 'data') res.needUpdate = true;
          env.obs('ranges changed'); env.saw('kinds of range', m + (c.dims[d].band ? ' band' : ''));
        }
        if (next || m === 'free') res[d] = next || old;
      }
      return res;
    };
    const scroll = (x, by, rev) => apply(x, (r, s, d) => shifted(r, s, by[d] || 0, rev));
    const zoom = (x, ratio, rate) => apply(x, r => zoomed(r, ratio, rate));
    const KIND = {
      wheel(x, e, say) {
        if (x.parts.includes('zoom') && should(x, 'shouldStart', e)) {
          init(x); x.started.zoom = true; let r;
          if (e.ctrl) {
            const ratio = Math.pow(1.0005, -e.dy * Math.pow(16, e.mode)), rate = (x.o.zoom && x.o.zoom.rate) ?? 1;
            if (x.real('zoom')) r = zoom(x, ratio, rate); else { x.zd = (x.zd ?? 1) * ratio; r = null; }
          }
          say('start', 'zoom', r);
        }
        if (x.parts.includes('scroll') && should(x, 'shouldStart', e)) {
          init(x); x.started.scroll = true; let r;
          if (!e.ctrl && (e.dx || e.dy)) {
            if (x.real('scroll')) r = scroll(x, { x: e.dx, y: e.dy }, x.o.scroll && x.o.scroll.reversed);
            else { x.acc = { x: (x.acc ? x.acc.x : 0) + e.dx, y: (x.acc ? x.acc.y : 0) + e.dy }; }
          }
          say('start', 'scroll', r);
        }
      },
      down(x, e, say) {
        if (!x.parts.includes('drag') || !should(x, 'shouldStart', e)) return;
        x.started.drag = true; init(x);
        if (x.pid === null || x.pid === e.id) { x.pid = e.id; x.from = { x: e.x, y: e.y }; }
        say('start', 'drag', null);
      },
      move(x, e, say) {
        if (!x.parts.includes('drag') || !x.started.drag || !should(x, 'shouldUpdate', e)) return;
        let r = null;
        if (x.from && x.pid === e.id && x.real('drag')) { const by = { x: e.x - x.from.x, y: e.y - x.from.y }; x.from = { x: e.x, y: e.y }; r = scroll(x, by, x.o.drag && x.o.drag.reversed); }
        say('update', 'drag', r);
      },
      up(x, e, say) {
        if (x.started.zoom && should(x, 'shouldEnd', e)) {
          const r = !x.real('zoom') && x.zd !== null ? zoom(x, x.zd, (x.o.zoom && x.o.zoom.rate) ?? 1) : null;
          x.zd = null; x.started.zoom = false; say('end', 'zoom', r);
        }
        if (x.started.scroll && should(x, 'shouldEnd', e)) {
          const r = !x.real('scroll') && x.acc ? scroll(x, x.acc, x.o.scroll && x.o.scroll.reversed) : null;
          x.acc = null; x.started.scroll = false; say('end', 'scroll', r);
        }
        if (x.started.drag && should(x, 'shouldEnd', e)) {
          const r = !x.real('drag') && x.from ? scroll(x, { x: e.x - x.from.x, y: e.y - x.from.y }, x.o.drag && x.o.drag.reversed) : null;
          x.from = null; x.pid = null; x.started.drag = false; say('end', 'drag', r);
        }
      },
      dbl(x, e, say) {
        if (!x.parts.includes('zoom') || !x.inited || !should(x, 'shouldReset', e)) return;
        const res = {};
        for (const d of Object.keys(x.modes)) {
          const m = x.modes[d];
          if (m === 'linked') { F[d] = L[d] = [0, 1]; res[d] = [0, 1]; } else if (m === 'free') { x.own[d] = x.init[d]; res[d] = x.init[d]; } else { x.own[d] = undefined; if (m === 'scale') S[d] = [0, 1]; res[d] = [0, 1]; }
        }
        x.started.zoom = false; env.obs('resets'); say('reset', 'zoom', res);
      }
    };
    const feed = (kind, e) => {
      const out = new Map();
      for (const x of insts) { if (!x.live) continue; const list = []; KIND[kind](x, e, (t, k, r) => list.push([t, k, r])); out.set(x, list); }
      return out;
    };
    const ratio = (d, row) => { const s = view.getScaleById('u' + d).getScale(), r = s.range(); return (s.scale(row[field(d)]) - r[0]) / (r[r.length - 1] - r[0]); };
    const same = (a, b) => DIMS.every(d => { const p = a && a[d], q = b && b[d]; return (!p && !q) || (p && q && Math.abs(p[0] - q[0]) < tol && Math.abs(p[1] - q[1]) < tol); });
    const bystander = JSON.stringify(view.getMarkById('by').elements.map(e => [e.key, e.getGraphicAttribute('size')]));
    let tol = 1e-7; // (the size of a component, in which a drag is measured, changes a little with its handles)
    const verify = what => {
      // ranges
      for (const d of DIMS) {
        const m = c.dims[d].mode;
        if (m === 'linked') {
          const comp = view.getMarkById('comp' + d), r = c.dims[d].comp === 'datazoom' ? comp.getStartEndValue() : comp.getScrollRange(), got = Array.isArray(r) ? r : [r.start, r.end];
          env.check(Math.abs(got[0] - L[d][0]) < tol && Math.abs(got[1] - L[d][1]) < tol, () => `${what}: the linked ${c.dims[d].comp} shows ${got}, expected ${L[d]}`);
          if (F[d]) F[d] = got.slice(); L[d] = got.slice();
          env.obs('linked components compared');
        }
      }
      // rows
      let kept = rows.slice(), unsure = new Set();
      for (const d of DIMS) {
        const m = c.dims[d].mode, D = c.dims[d];
        const owner = insts.find(x => x.live && x.modes[d] === 'data'), r = m === 'data' ? owner && owner.own[d] : m === 'linked' ? F[d] : null;
        if (!r) continue;
        const val = row => (m === 'data' && D.fn ? row.v / 100 : ratio(d, row));
        kept.forEach(row => { const q = val(row); if (Math.abs(q - r[0]) < 1e-7 || Math.abs(q - r[1]) < 1e-7) unsure.add(row.k); });
        kept = kept.filter(row => { const q = val(row); return q >= r[0] && q <= r[1]; });
        if (m === 'data' && D.top) kept = kept.slice(0, D.top);
      }
      const els = view.getMarkById('m').elements;
      if (!unsure.size && !(DIMS.every(d => c.dims[d].mode === 'linked' || c.dims[d].top) && DIMS.some(d => c.dims[d].top))) {
        const got = els.map(e => e.key).sort().join(' '), exp = kept.map(r => r.k).sort().join(' ');
        env.check(got === exp, () => `${what}: the rows ${got || '(none)'} are shown, expected ${exp || '(none)'}`);
        const out = view.getDataById('d').output().map(r => r.k).sort().join(' ');
        env.check(out === exp, () => `${what}: the data holds ${out}, expected ${exp}`);
        env.obs('row sets compared'); if (kept.length < rows.length) env.obs('row sets filtered');
      }
      // positions
      els.forEach(e => {
        const row = rows.find(r => r.k === e.key), A = e.getGraphicItem().attribute; if (!row) return;
        for (const d of DIMS) {
          const s = view.getScaleById('u' + d).getScale(), p = s.scale(row[field(d)]), r = s.range(), q = (p - r[0]) / (r[1] - r[0]);
          const [a, b] = (c.dims[d].mode === 'scale' && S[d]) || [0, 1], exp = r[0] + ((q - a) / (b - a)) * (r[1] - r[0]);
          env.check(Math.abs(A[d] - exp) <= 1e-6 * Math.max(1, Math.abs(exp)), () => `${what}: ${e.key} is at ${d}=${A[d]}, expected ${exp} for the visible range ${[a, b]}`);
          if (a !== 0 || b !== 1) env.obs('positions in a part of the range');
        }
      });
      env.check(JSON.stringify(view.getMarkById('by').elements.map(e => [e.key, e.getGraphicAttribute('size')])) === bystander && view.getDataById('e').output().length === c.rows.length, () => `${what}: a mark and data that are not navigated changed`);
    };
    const told = (what, exp) => {
      for (const x of insts) {
        const want = exp.get(x) || [], got = x.notes.splice(0);
        const g = got.map(([t, p]) => `${t} ${p.eventType}`).join(', '), w = want.map(([t, k]) => `${t} ${k}`).join(', ');
        env.check(g === w, () => `${what}: ${x.o.type} announced "${g}", expected "${w}"`);
        got.forEach(([t, p], i) => { env.check(same(p.viewRange, want[i][2]), () => `${what}: ${x.o.type} announced ${t} ${p.eventType} with ${JSON.stringify(p.viewRange)}, expected ${JSON.stringify(want[i][2])}`); env.obs('notifications compared'); });
      }
    };
    verify('at first');
    for (const [i, op] of c.ops.entries()) {
      const what = `after ${i} ${op.o}`;
      let exp = new Map();
      if (op.o === 'wheel') { exp = feed('wheel', op); V.fire(view, 'wheel', null, { x: op.x, y: op.y, deltaX: op.dx, deltaY: op.dy, deltaMode: op.mode, ctrlKey: op.ctrl }); } else if (op.o === 'down') { exp = feed('down', op); V.fire(view, 'pointerdown', null, { x: op.x, y: op.y, pointerId: op.id }); } else if (op.o === 'move') { exp = feed('move', op); V.fire(view, 'pointermove', null, { x: op.x, y: op.y, pointerId: op.id }); } else if (op.o === 'up') { exp = feed('up', op); V.fire(view, 'pointerup', null, { x: op.x, y: op.y, pointerId: 1 }); } else if (op.o === 'dbl') { exp = feed('dbl', op); V.fire(view, 'dblclick', null, { x: op.x, y: op.y, pointerId: 1 }); } else if (op.o === 'burst') {
        // several moves at one instant: a throttled drag handles the first one at once and the last one when the time is over
        const n = op.pts.length;
        const order = [];
        insts.forEach(x => { if (x.live) (x.o.throttle === 0 ? op.pts.map((p, j) => j) : [0, n - 1]).forEach(j => order.push([x.o.throttle === 0 || j === 0 ? j : n + (x.o.throttle ?? 100), x, j])); });
        const pos = x => insts.indexOf(x);
        order.sort((a, b) => a[0] - b[0] || pos(a[1]) - pos(b[1]));
        for (const [, x, j] of order) { const list = exp.get(x) || []; KIND.move(x, { ...op.pts[j], id: 1 }, (t, k, r) => list.push([t, k, r])); exp.set(x, list); }
        op.pts.forEach(p => V.fire(view, 'pointermove', null, { x: p.x, y: p.y, pointerId: 1 }));
        env.obs('bursts of moves');
      } else if (op.o === 'rows') { rows = clone(op.rows); view.getDataById('d').values(clone(rows)); view.run(); } else if (op.o === 'size') { size[op.d] = op.v; view.getSignalById('z' + op.d).value(op.v); view.run(); } else if (op.o === 'rebind') {
        const x = insts[op.i];
        if (!x) continue;
        if (!x.live) { x.obj.bind(); x.live = true; insts = insts.filter(y => y !== x).concat(x); env.obs('bound again'); } else {
          const shared = DIMS.some(d => x.modes[d] === 'scale' && insts.some(y => y !== x && y.live && y.inited && y.modes[d] === 'scale'));
          if (shared || x.acc || x.zd !== null || x.from) continue; // what a scale shows that another interaction still navigates is not specified
          if (x.inited) for (const d of DIMS) if (x.modes[d] === 'scale') S[d] = null;
          x.reset(); env.obs('unbound');
          if (op.how === 'remove') { view.removeInteraction(x.obj); insts = insts.filter(y => y !== x); view.run(); verify(what + ' (removed)'); const y = mk(x.o, x.i); insts.push(y); } else {
            x.obj.unbind(); view.run();
            if (op.how === 'pause') x.live = false; else { verify(what + ' (unbound)'); x.obj.bind(); insts = insts.filter(y => y !== x).concat(x); }
          }
        }
      }
      clock.advance(250);
      tol = op.o === 'burst' ? 5e-3 : 1e-7;
      verify(what); told(what, exp);
    }
    env.nontrivial = c.ops.some(o => o.o === 'wheel' || o.o === 'move');
  }));
}

// ---------------------------------------------------------------- fisheye
function genEye(rng) {
  const o = { byId: rng.bool(0.5), throttle: rng.pick([undefined, 0]), off: rng.wpick([[5, null], [1, 'x'], [1, 'y']]), sel: rng.bool(0.25), reset: rng.bool(0.3) };
  for (const d of DIMS) { o[d] = { band: rng.bool(0.3), flip: rng.bool(0.3), scale: rng.bool(0.85) }; if (rng.bool(0.5)) o[d].radius = rng.int(10, 120); else if (rng.bool(0.5)) o[d].ratio = rng.pick([0.1, 0.3, 0.5]); if (rng.bool(0.4)) o[d].distortion = rng.pick([1, 2, 3, 5]); }
  const pt = () => ({ x: rng.int(0, 200), y: rng.int(0, 200), out: rng.bool(0.1), el: rng.int(0, 9) });
  const ops = rng.times(rng.int(2, 10), () => wp(rng, [[3, () => ({ o: 'enter', ...pt() })], [5, () => ({ o: 'move', ...pt() })], [2, () => ({ o: 'leave', ...pt() })], [1, () => ({ o: 'dblclick', ...pt() })], [1, () => ({ o: 'rows', rows: genRows(rng) })], [0.6, () => ({ o: 'size', d: rng.pick(DIMS), v: rng.int(60, 200) })], [0.5, () => ({ o: 'rebind' })], [0.3, () => ({ o: 'unbind' })]]));
  return { rows: rng.times(rng.int(3, 10), i => genRow(rng, i)), o, ops };
}
async function runEye(c, env) {
  await withClock(clock => V.withView({ width: 200, height: 200 }, async view => {
    const field = d => (c.o[d].band ? 'c' : 'v'), size = { x: 200, y: 200 };
    const scaleOf = (id, d) => { const range = { callback: (s, p) => (c.o[d].flip ? [p['z' + d], 0] : [0, p['z' + d]]), dependency: ['z' + d] }; return c.o[d].band ? { id, type: 'band', domain: CATS.slice(), range } : { id, type: 'linear', domain: [0, 100], range }; };
    let rows = clone(c.rows);
    view.parseSpec({ signals: DIMS.map(d => ({ id: 'z' + d, value: 200 })), data: [{ id: 'd', values: clone(rows) }], scales: [scaleOf('sx', 'x'), scaleOf('sy', 'y'), scaleOf('ux', 'x'), scaleOf('uy', 'y')], marks: [{ type: 'symbol', id: 'm', from: { data: 'd' }, key: 'k', encode: { update: { x: { scale: 'sx', field: field('x') }, y: { scale: 'sy', field: field('y') }, size: 4 } } }, { type: 'symbol', id: 'n', encode: { update: { x: 3, y: 3, size: 4 } } }] });
    view.run();
    const opt = {};
    if (c.o.throttle !== undefined) opt.throttle = c.o.throttle;
    if (c.o.sel) opt.selector = '#m';
    if (c.o.reset) opt.triggerOff = 'dblclick';
    for (const d of DIMS) {
      const U = d.toUpperCase(), q = c.o[d];
      if (c.o.off === d) opt['enable' + U] = false;
      if (q.scale) opt['scale' + U] = c.o.byId ? 's' + d : view.getScaleById('s' + d);
      if (q.radius) opt['radius' + U] = q.radius; if (q.ratio) opt['radiusRatio' + U] = q.ratio; if (q.distortion) opt['distortion' + U] = q.distortion;
    }
    const it = view.interaction('fish-eye', opt);
    let focus = null, active = false, bound = true;
    const bends = d => c.o[d].scale && c.o.off !== d;
    const verify = what => {
      for (const d of DIMS) {
        const s = view.getScaleById('u' + d).getScale(), q = c.o[d], S = size[d], R = q.radius ?? S * (q.ratio ?? 0.1), k = q.distortion ?? 2;
        const bend = focus && bends(d), f = bend ? clamp(focus[d], 0, S) : 0;
        const list = [];
        view.getMarkById('m').elements.forEach(e => {
          const row = rows.find(r => r.k === e.key), p = s.scale(row[field(d)]), got = e.getGraphicItem().attribute[d];
          list.push([p, got]);
          if (!bend || Math.abs(p - f) >= R) { env.check(near(got, p), () => `${what}: ${e.key} is at ${d}=${got}, expected ${p} (not magnified)`); return; }
          const t = Math.abs(p - f), far = t <= 1e-6 ? 0 : 0.75 * (R * (1 - Math.exp((-t * k) / R))) / (1 - Math.exp(-k)) + 0.25 * t, exp = f + Math.sign(p - f) * far;
          env.check(near(got, exp, 1e-6), () => `${what}: ${e.key} is at ${d}=${got}, expected ${exp} (magnified around ${f})`);
          env.obs('magnified positions');
        });
        list.sort((a, b) => a[0] - b[0]);
        list.forEach((v, j) => { if (j) env.check(v[1] >= list[j - 1][1] - 1e-6, () => `${what}: the fisheye changed the order in ${d}`); });
        env.obs('fisheye frames');
        env.saw('fisheyes', [q.band ? 'band' : 'linear', q.flip ? 'flipped' : '', bend ? 'on' : 'off', q.radius ? 'radius' : q.ratio ? 'ratio' : 'default'].join(' '));
      }
    };
    verify('at first');
    for (const [i, op] of c.ops.entries()) {
      const what = `after ${i} ${op.o}`;
      if (['enter', 'move', 'leave', 'dblclick'].includes(op.o)) {
        const els = view.getMarkById('m').elements, el = els[op.el % Math.max(1, els.length)], other = view.getMarkById('n').elements[0];
        // with a selector only its marks count, without one only the empty stage starts and ends a fisheye
        const hit = c.o.sel ? !op.out : !op.out || op.o === 'move';
        const target = c.o.sel ? (op.out || !el ? null : el) : op.out ? other : null;
        const counts = c.o.sel ? !!target : hit;
        const e = { x: op.x, y: op.y };
        if (bound && counts) {
          if (op.o === 'enter' && !active) { active = true; focus = e; } else if (op.o === 'move' && active) focus = e; else if (op.o === 'leave' && active && !c.o.reset) { active = false; focus = null; } else if (op.o === 'dblclick' && c.o.reset && active) { active = false; focus = null; env.obs('fisheye resets'); }
        }
        V.fire(view, op.o === 'dblclick' ? 'dblclick' : 'pointer' + op.o, target ? target.getGraphicItem() : null, { x: op.x, y: op.y, pointerId: 1 });
      } else if (op.o === 'rows') { rows = clone(op.rows); view.getDataById('d').values(clone(rows)); view.run(); } else if (op.o === 'size') { size[op.d] = op.v; view.getSignalById('z' + op.d).value(op.v); view.run(); } else { if (bound) it.unbind(); view.run(); active = false; focus = null; if (op.o === 'rebind') { if (bound) env.obs('fisheye unbound'); it.bind(); bound = true; } else bound = false; }
      clock.advance(250);
      verify(what);
    }
    env.nontrivial = c.ops.some(o => o.o === 'enter');
  }));
}

module.exports = {
  rule: 'after every event of a gesture the visible range of each direction, the positions and rows shown, the linked components and the notifications equal those of a model that is moved by the same gestures; a fisheye magnifies around the pointer only, by its declared radius and distortion, and leaves nothing behind',
  mustObserve: ['ranges changed', 'resets', 'row sets compared', 'row sets filtered', 'positions in a part of the range', 'linked components compared', 'notifications compared', 'bursts of moves', 'unbound', 'bound again', 'magnified positions', 'fisheye resets', 'fisheye unbound'],
  scenarios: [
    { name: 'navigate', quick: 1500, gen: genNav, run: runNav },
    { name: 'fisheye', quick: 500, gen: genEye, run: runEye }
  ]
};
