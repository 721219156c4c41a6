'use strict';
// Removal, replacement, release and isolation. Views are built from random blocks (data, signals, scales,
// coordinates, marks, events, interactions). A census of everything a view owns (grammars, dependency edges,
// scene nodes, listeners on view/stage/window, pending timers) and a snapshot of everything it shows are compared
// with those of a view which never had the removed parts; callbacks and timers are watched after a release.
const V = require('../lib/view.cjs');
const { install } = require('../lib/clock.cjs');
const vg = V.vg;
const { vglobal } = V.vrender;
const clone = x => JSON.parse(JSON.stringify(x));

// ---------- window listeners (a no-op in node): recorded and dispatchable
function spyWindow() {
  const list = [];
  const own = k => Object.prototype.hasOwnProperty.call(vglobal, k) ? vglobal[k] : undefined;
  const a = own('addEventListener'), r = own('removeEventListener');
  vglobal.addEventListener = (type, f) => { list.push({ type, f }); };
  vglobal.removeEventListener = (type, f) => { const i = list.findIndex(l => l.type === type && l.f === f); if (i >= 0) list.splice(i, 1); };
  return {
    list,
    fire(type, e) { list.filter(l => l.type === type).forEach(l => l.f(e)); },
    restore() { if (a) vglobal.addEventListener = a; else delete vglobal.addEventListener; if (r) vglobal.removeEventListener = r; else delete vglobal.removeEventListener; }
  };
}

// ---------- blocks
function genRows(rng, n) { return rng.times(n, i => ({ k: 'k' + i, g: rng.pick(['a', 'b', 'c']), v: rng.int(0, 100), w: rng.int(-20, 60) })); }
function genBlock(rng, id, opts) {
  const p = id;
  const b = { p, rows: genRows(rng, rng.int(2, 7)), thr: rng.int(0, 60), filter: rng.bool(0.5), derived: rng.bool(0.3), scaleX: rng.pick(['band', 'point', 'linear']), coord: rng.bool(0.2), marks: [], events: [], inter: [] };
  const n = rng.int(1, 3);
  for (let i = 0; i < n; i++) {
    const kind = rng.wpick([[3, 'symbol'], [3, 'rect'], [2, 'line'], [2, 'text'], [2, 'group'], [1, 'area'], [1, 'axis'], [1, 'legend'], [1, 'boxplot'], [1, 'label'], [1, 'interval'], [1, 'title']]);
    b.marks.push({ kind, i, anim: opts.anim && rng.bool(0.5) ? rng.pick(['fadeIn', 'scaleIn', 'growHeightIn', 'state']) : null, exitAnim: opts.anim && rng.bool(0.4), size: rng.bool(0.5) ? 'const' : 'v', children: kind === 'group' ? rng.times(rng.int(0, 2), j => ({ kind: rng.pick(['symbol', 'rect', 'group']), j })) : [], cls: rng.bool(0.3) });
  }
  const mk = b.marks.map(m => p + 'm' + m.i);
  if (opts.events !== false) {
    for (let i = rng.int(0, 2); i > 0; i--) {
      b.events.push({ type: rng.pick(['click', 'pointermove', '#' + rng.pick(mk) + ':pointerover', '@n' + p + ':click', 'symbol:click', 'window:keydown']), kind: rng.wpick([[4, 'plain'], [1, 'throttle'], [1, 'debounce'], [1, 'between'], [1, 'merge']]), ms: rng.pick([20, 60, 200]), target: rng.bool(0.7) });
    }
  }
  for (let i = rng.int(0, 2); i > 0; i--) {
    b.inter.push({ type: rng.pick(['element-active', 'element-select', 'element-highlight', 'element-highlight-by-key', 'element-highlight-by-group', 'tooltip', 'crosshair', 'view-zoom', 'view-scroll', 'view-drag', 'view-roam', 'fish-eye', 'brush-highlight', 'brush-active', 'dimension-tooltip']), m: rng.int(0, 5) });
  }
  return b;
}
function dataSpec(b) {
  const out = [{ id: b.p + 'd', values: b.rows, transform: b.filter ? [{ type: 'filter', callback: (d, q) => d.v >= q[b.p + 's'], dependency: [b.p + 's'] }] : [] }];
  if (b.derived) out.push({ id: b.p + 'e', source: b.p + 'd', transform: [{ type: 'map', callback: d => d.v * 2, as: 'v2' }] });
  return out;
}
/** the specification of the blocks; `log(p, what)` is told of every callback that runs */
function build(blocks, log, opts = {}) {
  const spec = { signals: [], data: [], scales: [], coordinates: [], marks: [], events: [], interactions: [] };
  for (const b of blocks) {
    const p = b.p;
    spec.signals.push({ id: p + 's', value: b.thr }, { id: p + 'u', update: { callback: (old, q) => { log(p, 'signal'); return q[p + 's'] * 2 + 1; }, dependency: [p + 's'] } }, { id: p + 'n', value: 0 });
    spec.data.push(...dataSpec(b));
    spec.scales.push(b.scaleX === 'linear'
      ? { id: p + 'x', type: 'linear', domain: { data: p + 'd', field: 'w' }, range: { callback: (s, q) => [0, q[p + 'u'] + 100], dependency: [p + 'u'] } }
      : { id: p + 'x', type: b.scaleX, domain: { data: p + 'd', field: 'k' }, range: [0, 300] });
    spec.scales.push({ id: p + 'y', type: 'linear', domain: { data: b.derived ? p + 'e' : p + 'd', field: b.derived ? 'v2' : 'v' }, range: [200, 0] });
    spec.scales.push({ id: p + 'c', type: 'ordinal', domain: ['a', 'b', 'c'], range: ['#f00', '#0f0', '#00f'] });
    if (b.coord) spec.coordinates.push({ id: p + 'co', type: 'cartesian', start: [0, 0], end: { callback: (s, q) => [200 + q[p + 's'], 200], dependency: [p + 's'] } });
    const xf = b.scaleX === 'linear' ? 'w' : 'k';
    const dat = b.derived ? p + 'e' : p + 'd';
    const leaf = (id, kind, m) => {
      const base = { type: kind, id, name: 'n' + p, from: { data: dat }, key: 'k', encode: { enter: { fill: 'red' }, update: { x: { scale: p + 'x', field: xf }, y: { scale: p + 'y', field: 'v' }, stroke: { scale: p + 'c', field: 'g' } }, hover: { opacity: 0.5 }, active: { lineWidth: 5 }, selected: { fill: 'blue' }, highlight: { lineWidth: 3 }, blur: { opacity: 0.1 } } };
      const u = base.encode.update;
      if (b.coord && ['symbol', 'line'].includes(kind)) base.coordinate = p + 'co';
      if (kind === 'rect') Object.assign(u, { width: 10, height: m.size === 'v' ? { field: 'v' } : 8 });
      if (kind === 'symbol') u.size = m.size === 'v' ? { callback: (d, el, q) => { log(p, 'encoder'); return d.v / 4 + q[p + 's'] / 10; }, dependency: [p + 's'] } : 7;
      if (kind === 'text') u.text = { field: 'k' };
      if (kind === 'line' || kind === 'area') { base.groupBy = 'g'; base.groupSort = (x, y) => (x < y ? -1 : 1); if (kind === 'area') u.y1 = 200; }
      if (m.anim === 'state') base.animationState = undefined;
      else if (m.anim) base.animation = { enter: { type: m.anim, duration: 120 }, update: { type: 'update', duration: 80 } };
      if (m.anim && m.exitAnim) base.animation = Object.assign(base.animation || {}, { exit: { type: 'fadeOut', duration: 150 } });
      return base;
    };
    for (const m of b.marks) {
      const id = p + 'm' + m.i;
      if (m.kind === 'group') {
        spec.marks.push({ type: 'group', id, name: 'n' + p, encode: { update: { x: { signal: p + 's' }, y: { signal: p + 's' }, dx: { signal: p + 's' }, dy: { signal: p + 's' }, width: 100, height: 60, fill: 'grey' }, active: { fill: 'black' } }, marks: m.children.map(ch => ch.kind === 'group' ? { type: 'group', id: id + 'c' + ch.j, encode: { update: { x: ch.j, width: 10, height: 10 } } } : leaf(id + 'c' + ch.j, ch.kind, m)) });
      } else if (m.kind === 'axis') spec.marks.push({ type: 'component', componentType: 'axis', id, scale: p + 'x', tickCount: 5, encode: { update: { x: 0, y: 200, start: { x: 0, y: 0 }, end: { x: 300, y: 0 } } } });
      else if (m.kind === 'legend') spec.marks.push({ type: 'component', componentType: 'legend', id, scale: p + 'c', encode: { update: { x: 0, y: 0, items: { callback: (d, el, q) => ['a', 'b', 'c'].map(k => ({ id: k, label: k, shape: { fill: 'red' } })) } } } });
      else if (m.kind === 'title') spec.marks.push({ type: 'component', componentType: 'title', id, encode: { update: { x: 0, y: 0, text: { callback: (d, el, q) => 't' + q[p + 's'], dependency: [p + 's'] } } } });
      else if (m.kind === 'label') {
        spec.marks.push(leaf(id + 'b', 'symbol', m));
        spec.marks.push({ type: 'component', componentType: 'label', id, target: id + 'b', labelStyle: {}, encode: { update: { text: { field: 'k' } } } });
      } else if (m.kind === 'boxplot') spec.marks.push({ type: 'glyph', glyphType: 'boxplot', id, name: 'n' + p, from: { data: dat }, key: 'k', encode: { update: { x: { scale: p + 'x', field: xf }, min: 10, max: 90, q1: 20, q3: 70, median: { field: 'v' }, boxWidth: 8, stroke: 'red' } } });
      else if (m.kind === 'interval') spec.marks.push(Object.assign(leaf(id, 'interval', m), { encode: { update: { x: { scale: p + 'x', field: xf }, y: { scale: p + 'y', field: 'v' }, x1: 10, fill: { scale: p + 'c', field: 'g' } } } }));
      else spec.marks.push(leaf(id, m.kind, m));
    }
    for (const e of b.events) {
      const cb = () => { log(p, 'event'); e.__n = (e.__n || 0) + 1; return e.__n; };
      const ev = { type: e.type, callback: e.target ? (evt, q) => { log(p, 'event'); return (evt.detail | 0) + (evt.canvasX | 0) + 1; } : cb };
      if (e.target) ev.target = p + 'n';
      if (e.kind === 'throttle') ev.throttle = e.ms;
      if (e.kind === 'debounce') ev.debounce = e.ms;
      if (e.kind === 'between') ev.between = [{ type: 'pointerdown' }, { type: 'pointerup' }];
      if (e.kind === 'merge') ev.merge = [e.type, 'wheel'];
      spec.events.push(ev);
    }
    for (const it of b.inter) {
      const sel = b.marks[it.m % b.marks.length];
      spec.interactions.push(interOf(b, it, sel, log));
    }
  }
  return spec;
}
function interOf(b, it, sel, log) {
  const p = b.p, id = p + 'm' + sel.i;
  const o = { type: it.type, selector: '#' + id, onStart: () => log(p, 'interaction') };
  if (it.type === 'crosshair') Object.assign(o, { scale: p + 'x', container: 'root', crosshairShape: 'line' });
  if (/^view-/.test(it.type)) Object.assign(o, { scaleX: p + 'x', enableY: false });
  if (it.type === 'fish-eye') Object.assign(o, { scaleX: b.scaleX === 'linear' ? p + 'x' : undefined, enableY: false, selector: undefined });
  if (/tooltip/.test(it.type)) Object.assign(o, { title: 'x', content: [{ key: { field: 'k' }, value: { field: 'v' } }] });
  if (it.type === 'dimension-tooltip') Object.assign(o, { scale: p + 'x', tooltipType: 'x', container: 'root', target: { data: p + 'd', filter: 'k' } });
  if (it.type === 'element-highlight-by-key' || it.type === 'element-highlight-by-group') Object.assign(o, { highlightState: 'highlight', blurState: 'blur' });
  return o;
}

// ---------- observations
const listeners = em => { const out = {}; if (em && em.eventNames) em.eventNames().forEach(n => { const c = em.listenerCount(n); if (c) out[String(n)] = c; }); return out; };
const stageListeners = s => listeners(s._events instanceof Object && s.eventNames ? s : s);
function tree(g, depth = 0) {
  const kids = [];
  if (depth < 12) g.forEachChildren && g.forEachChildren(ch => { kids.push(tree(ch, depth + 1)); });
  return [g.type, g.name || '', kids];
}
function edges(view) {
  const out = {};
  const nm = g => (g.id() !== undefined && g.id() !== null ? g.grammarType + ':' + g.id() : g.grammarType + ':?');
  view.grammars.filter(() => true).length;
  const all = [];
  view.grammars.traverse(g => { all.push(g); });
  for (const g of all) {
    out[nm(g)] = { targets: g.targets.map(nm).sort(), refs: [...g.references.entries()].map(([r, n]) => nm(r) + '*' + n).sort() };
  }
  return out;
}
function census(view, win, opts = {}) {
  const rootG = view.rootMark.getGroupGraphicItem();
  const c = {
    size: view.grammars.size(),
    edges: edges(view),
    children: (function rec(m) { return [m.id(), (m.children || []).map(rec)]; })(view.rootMark),
    scene: tree(view.renderer.stage()),
    view: listeners(view), stage: stageListeners(view.renderer.stage())
  };
  if (win) c.window = win.list.map(l => l.type).sort();
  return V.norm(c);
}
function snapshot(view) {
  const out = { marks: {}, scales: {}, signals: {}, data: {} };
  const all = [];
  view.grammars.traverse(g => { all.push(g); });
  for (const g of all) {
    const id = g.id();
    if (g.grammarType === 'mark') out.marks[id] = V.snapMark(g).map(e => { const { attrs, ...r } = e; const a = attrs && Object.assign({}, attrs); if (a) ['theme', 'path', 'clipPath'].forEach(k => delete a[k]); return Object.assign(r, { attrs: a }); });
    else if (g.grammarType === 'scale') out.scales[id] = V.snapScale(g);
    else if (g.grammarType === 'signal') out.signals[id] = V.norm(g.output());
    else if (g.grammarType === 'data') out.data[id] = V.norm(!/d$/.test(id) ? g.output() : g.output().map(d => { const { v2, ...r } = d; return r; })); // shared rows are annotated in place
  }
  return out;
}
// an exit animation is being played by elements which are not part of the view any more: wait until it is over
function settle(view, clock) { for (let i = 0; i < 30; i++) { if (view.tick) view.tick(50); if (clock) clock.advance(50); } }

const EVENTS = ['click', 'pointermove', 'pointerover', 'pointerout', 'pointerdown', 'pointerup', 'wheel', 'keydown', 'pointerleave', 'pointerenter', 'dblclick', 'dragstart', 'drag', 'dragend'];
function genActs(rng, n) {
  return rng.times(n, () => rng.wpick([
    [5, () => ({ a: 'fire', type: rng.pick(EVENTS), b: rng.int(0, 9), m: rng.int(0, 5), e: rng.int(0, 9), stage: rng.bool(0.25), x: rng.int(0, 400), y: rng.int(0, 300) })],
    [2, () => ({ a: 'thr', b: rng.int(0, 9), v: rng.int(0, 60) })],
    [2, () => ({ a: 'rows', b: rng.int(0, 9), rows: genRows(rng, rng.int(0, 7)) })],
    [2, () => ({ a: 'run' })],
    [1, () => ({ a: 'wait', ms: rng.pick([5, 30, 120, 400]) })],
    [1, () => ({ a: 'resize', w: rng.int(100, 500), h: rng.int(100, 400) })]
  ])());
}
function act(view, blocks, op, clock, win) {
  const b = blocks.length ? blocks[(op.b || 0) % blocks.length] : null;
  switch (op.a) {
    case 'fire': {
      const props = { x: op.x, y: op.y, detail: 3 };
      // a pointer does not jump: it moves to where it is pressed or released
      if (['pointerup', 'pointerdown', 'click', 'dragend'].includes(op.type) && view.__at && (view.__at.x !== op.x || view.__at.y !== op.y)) { if (clock) clock.advance(20); V.fire(view, 'pointermove', null, props); if (clock) clock.advance(20); }
      view.__at = { x: op.x, y: op.y };
      if (op.type === 'wheel') { props.deltaX = 3; props.deltaY = -40; }
      if (op.type === 'keydown') { win.fire('keydown', { target: null, canvasX: op.x, detail: 2, preventDefault() { }, stopPropagation() { }, clientX: op.x, clientY: op.y }); break; }
      let target = null;
      if (!op.stage && b) {
        const m = view.getMarkById(b.p + 'm' + b.marks[op.m % b.marks.length].i);
        const el = m && m.elements[op.e % Math.max(1, m.elements.length)];
        target = el && el.getGraphicItem();
      }
      try { V.fire(view, op.type, target, props); } catch (e) {
        // the brush component (vrender-components) expects a move between press and release
        if (!/_Brush\._drawEnd/.test(e.stack)) throw e;
      }
      break;
    }
    case 'thr': if (b && view.getSignalById(b.p + 's')) view.getSignalById(b.p + 's').value(op.v); break;
    case 'rows': if (b && view.getDataById(b.p + 'd')) view.getDataById(b.p + 'd').values(clone(op.rows)); break;
    case 'run': view.run(); break;
    case 'wait': if (clock) clock.advance(op.ms); if (view.tick) view.tick(op.ms); break;
    case 'resize': view.resize(op.w, op.h); break;
  }
}
async function withEnv(f) {
  const clock = install(), win = spyWindow();
  try { return await f(clock, win); } finally { win.restore(); clock.uninstall(); }
}
const viewOf = () => V.mkView({ manual: true, width: 400, height: 300 });
function compare(env, a, b, tag) {
  const ca = a.census, cb = b.census;
  for (const k of Object.keys(ca)) { const d = V.diff(ca[k], cb[k]); env.check(!d, () => `${tag}: ${k} differ from those of a fresh view ${d}`); }
  const d = V.diff(a.snap, b.snap);
  env.check(!d, () => `${tag}: what is shown differs from a fresh view ${d}`);
  env.obs('censuses compared'); env.obs('grammars compared', ca.size);
}

// ---------- scenario: a new specification replaces the old one
async function runRespec(c, env) {
  await withEnv(async (clock, win) => {
    let gone = false; const late = [];
    const view = viewOf();
    const oldPs = new Set();
    try {
      let n = 0;
      for (const st of c.stages) {
        const stage = n++;
        const live = { ok: true };
        const log = (p, what) => { if (!live.ok) late.push(`${what} callback of specification ${stage} (${p})`); };
        const spec = build(clone(st.blocks), log);
        if (stage === 0) view.parseSpec(spec); else { view.updateSpec(spec); }
        if (stage > 0) st.prev.ok = false;
        view.run({ reuse: false, morph: false, enableExitAnimation: st.exit });
        if (stage > 0) {
          settle(view, clock);
          env.check(!late.length, () => `after the specification was replaced: ${late[0]}`);
        } else settle(view, clock);
        const fresh = viewOf();
        const w0 = win.list.length;
        try {
          const sizes = [view.width(), view.height()];
          fresh.width(sizes[0]); fresh.height(sizes[1]);
          fresh.parseSpec(build(clone(st.blocks), () => { }));
          fresh.run({ reuse: false, morph: false });
          settle(fresh, clock);
          const fw = win.list.slice(w0).map(l => l.type).sort(), lw = win.list.slice(0, w0).map(l => l.type).sort();
          const A = { census: census(view), snap: snapshot(view) }, B = { census: census(fresh), snap: snapshot(fresh) };
          A.census.window = lw; B.census.window = fw;
          delete A.snap.signals.__; compare(env, A, B, `specification ${stage}`);
          env.nontrivial = stage > 0;
          env.saw('blocks', st.blocks.map(b => b.marks.map(m => m.kind)).join());
        } finally { fresh.release(); }
        for (const op of st.acts) { act(view, st.blocks, op, clock, win); }
        env.check(!late.length, () => `after the specification was replaced: ${late[0]}`);
        env.obs('actions', st.acts.length);
        const nx = c.stages[stage + 1];
        if (nx) nx.prev = live;
      }
    } finally { view.release(); c.stages.forEach(s => delete s.prev); }
  });
}

// ---------- scenario: parts are removed one by one
async function runRemove(c, env) {
  await withEnv(async (clock, win) => {
    const view = viewOf();
    try {
      let late = null; const live = {};
      c.blocks.forEach(b => { live[b.p] = true; });
      view.parseSpec(Object.assign(build(clone(c.blocks), (p, w) => { if (!live[p]) late = late || `${w} callback of removed part ${p}`; }), { interactions: [] }));
      const inter = {};
      const addInter = b => { b.inter.forEach((it, i) => { const o = interOf(b, it, b.marks[it.m % b.marks.length], (p, w) => { if (!live[p]) late = late || `${w} callback of removed part ${p}`; }); o.id = b.p + 'i' + i; (inter[b.p] = inter[b.p] || []).push(view.interaction(it.type, o)); }); };
      c.blocks.forEach(addInter);
      view.run();
      settle(view, clock);
      for (const op of c.acts) act(view, c.blocks, op, clock, win);
      settle(view, clock);
      const rm = c.blocks.filter(b => c.rm.includes(b.p)), keep = c.blocks.filter(b => !c.rm.includes(b.p));
      // interactions first, by instance, id or type
      rm.forEach(b => {
        (inter[b.p] || []).forEach((it, i) => { if (c.by === 'id') view.removeInteraction(null, b.p + 'i' + i); else view.removeInteraction(it); });
        live[b.p] = c.late;
      });
      if (c.runBetween) { view.run(); }
      const before = keep.length ? snapshot(view) : null;
      const ids = [];
      rm.forEach(b => { view.grammars.traverse(g => { if (typeof g.id() === 'string' && g.id().startsWith(b.p)) ids.push(g); }); });
      const order = c.order.slice().sort((a, b) => a - b);
      const perm = ids.map((g, i) => [c.order[i % c.order.length] + i * 1e-6, g]).sort((a, b) => a[0] - b[0]).map(x => x[1]);
      for (let i = 0; i < perm.length; i++) {
        const g = perm[i];
        const id = g.id();
        view.removeGrammar(c.byId && view.getGrammarById(id) === g ? id : g);
        env.check(view.getGrammarById(id) === null, `${id} can still be looked up after it was removed`);
        env.check(!view.getGrammarsByType(g.grammarType).includes(g), `${id} is still listed after it was removed`);
        env.obs('grammars removed');
        if (c.runEvery && i % 3 === 2) { view.run({ reuse: false, morph: false, enableExitAnimation: c.exit }); }
      }
      rm.forEach(b => { live[b.p] = false; });
      view.run({ reuse: false, morph: false, enableExitAnimation: c.exit });
      settle(view, clock);
      perm.forEach(g => {
        env.check(!g.view, `removed ${g.grammarType} still belongs to a view`);
      });
      const after = snapshot(view);
      if (before) {
        for (const kind of Object.keys(after)) for (const id of Object.keys(after[kind])) if (keep.some(b => id.startsWith(b.p))) {
          const d = V.diff(before[kind][id], after[kind][id]);
          env.check(!d, () => `removing other parts changed ${kind} ${id} ${d}`);
          env.obs('remaining parts compared');
        }
      }
      const fresh = viewOf();
      const w0 = win.list.length;
      try {
        fresh.width(view.width()); fresh.height(view.height());
        fresh.parseSpec(Object.assign(build(clone(keep), () => { }), { interactions: [] }));
        keep.forEach(b => b.inter.forEach(it => { fresh.interaction(it.type, interOf(b, it, b.marks[it.m % b.marks.length], () => { })); }));
        fresh.run(); settle(fresh, clock);
        const A = census(view), B = census(fresh);
        A.window = win.list.slice(0, w0).map(l => l.type).sort(); B.window = win.list.slice(w0).map(l => l.type).sort();
        for (const k of Object.keys(A)) { const d = V.diff(A[k], B[k]); env.check(!d, () => `after the removal ${k} differ from those of a view that never had the removed parts ${d}`); }
        env.obs('censuses compared');
      } finally { fresh.release(); }
      for (const op of c.after) act(view, keep, op, clock, win);
      settle(view, clock);
      env.check(!late, () => late);
      env.nontrivial = rm.length > 0;
      env.saw('removals', `${rm.length}/${c.blocks.length}`);
    } finally { view.release(); }
  });
}

// ---------- scenario: single grammars nothing depends on any more are removed, what they used stays
function prune(spec, gone) {
  const marks = ms => ms.filter(m => !gone.has(m.id)).map(m => (m.marks ? Object.assign({}, m, { marks: marks(m.marks) }) : m));
  const out = Object.assign({}, spec);
  for (const k of ['signals', 'data', 'scales', 'coordinates']) out[k] = spec[k].filter(x => !gone.has(x.id));
  out.marks = marks(spec.marks);
  return out;
}
async function runLeaves(c, env) {
  await withEnv(async (clock, win) => {
    const view = viewOf();
    try {
      const gone = new Set();
      let late = null;
      view.parseSpec(build(clone(c.blocks), () => { }));
      view.run(); settle(view, clock);
      const acts = [];
      for (const round of c.rounds) {
        const all = [];
        view.grammars.traverse(g => { if (typeof g.id() === 'string' && /^[A-Z]/.test(g.id()) && !gone.has(g.id()) && !g.targets.length && !(g.children && g.children.length)) all.push(g); });
        all.sort((a, b) => (a.id() < b.id() ? -1 : 1));
        const pick = all.filter((g, i) => round.mask[i % round.mask.length]);
        pick.forEach(g => { gone.add(g.id()); view.removeGrammar(round.byId ? g.id() : g); env.obs('single grammars removed'); env.saw('kind removed', g.grammarType + ' ' + (g.markType || '')); });
        view.run({ reuse: false, morph: false, enableExitAnimation: round.exit });
        settle(view, clock);
        for (const op of round.acts) { act(view, c.blocks, op, clock, win); acts.push(op); }
        view.run(); settle(view, clock);
        const fresh = viewOf();
        try {
          fresh.parseSpec(prune(build(clone(c.blocks), () => { }), gone));
          fresh.run();
          acts.forEach(op => act(fresh, c.blocks, op, null, win)); fresh.run(); settle(fresh, clock);
          const A = census(view), B = census(fresh);
          for (const k of Object.keys(A)) { const d = V.diff(A[k], B[k]); env.check(!d, () => `after the removal of ${[...gone]}: ${k} differ from those of a view that never had them ${d}`); }
          const d = V.diff(snapshot(view), snapshot(fresh));
          env.check(!d, () => `after the removal of ${[...gone]}: what remains differs from a view that never had them ${d}`);
          env.obs('censuses compared');
        } finally { fresh.release(); }
        pick.forEach(g => env.check(!g.view, () => `a removed ${g.grammarType} still belongs to a view`));
      }
      env.nontrivial = gone.size > 0;
      env.check(!late, () => late);
    } finally { view.release(); }
  });
}

// ---------- scenario: release at any moment
async function runRelease(c, env) {
  await withEnv(async (clock, win) => {
    let released = false; const late = [];
    const view = viewOf();
    const stage = view.renderer.stage();
    const sl0 = null;
    view.parseSpec(build(clone(c.blocks), (p, what) => { if (released) late.push(`${what} callback`); }));
    ['click', 'pointermove', 'afterRender', 'animationEnd', 'allAnimationEnd'].forEach(t => view.addEventListener(t, () => { if (released) late.push(`${t} listener`); }));
    view.runAfter(() => { if (released) late.push('runAfter callback'); });
    for (const op of c.acts) act(view, c.blocks, op, clock, win);
    const pending = clock.pending();
    view.release();
    released = true;
    env.obs('views released'); env.obs('timers pending at the release', pending);
    env.check(!win.list.length, () => `${win.list.length} window listeners remain after the release: ${win.list.map(l => l.type)}`);
    const vl = listeners(view);
    env.check(!Object.keys(vl).length, () => `listeners remain on the released view: ${JSON.stringify(vl)}`);
    const sl = stageListeners(stage);
    env.check(!Object.keys(sl).some(k => k === '*'), () => `listeners remain on the stage: ${JSON.stringify(sl)}`);
    const errs = [];
    const was = process.listeners('unhandledRejection').length;
    try { clock.advance(10000); if (view.tick) view.tick(10000); } catch (e) { errs.push(e); }
    await new Promise(r => setImmediate(r));
    env.check(!errs.length, () => `work scheduled before the release failed after it: ${errs[0].stack.split('\n').slice(0, 4).join(' | ')}`);
    env.check(!late.length, () => `after the release: ${late[0]} ran (${late.length} in all)`);
    env.check(clock.pending() === 0, () => `${clock.pending()} timers keep running after the release`);
    env.nontrivial = pending > 0;
    env.saw('pending timers', String(Math.min(5, pending)));
  });
}

// ---------- scenario: a view behaves the same whatever other views do
async function runIsolated(c, env) {
  const go = async (other) => withEnv(async (clock, win) => {
    const a = viewOf();
    const log = [];
    const mine = clone(c.blocks);
    a.parseSpec(build(mine, (p, w) => { log.push(p + w); }));
    let b = null; let oi = 0;
    const snaps = [];
    const stepOther = () => {
      const o = c.other[oi++ % c.other.length];
      if (o.a === 'new') { if (b) b.release(); b = viewOf(); b.parseSpec(build(clone(o.blocks), () => { })); b.__blocks = o.blocks; b.run(); } else if (o.a === 'release') { if (b) b.release(); b = null; } else if (o.a === 'respec') { if (b) { b.updateSpec(build(clone(o.blocks), () => { })); b.__blocks = o.blocks; b.run(); } } else if (b && o.type !== 'keydown') act(b, b.__blocks, o, null, win);
      env.obs('steps of the other view');
    };
    for (const op of c.acts) {
      if (other) stepOther();
      act(a, c.blocks, op, clock, win);
      snaps.push({ snap: snapshot(a), n: log.length });
    }
    settle(a, clock);
    snaps.push({ snap: snapshot(a), n: log.length });
    if (b) b.release();
    a.release();
    return snaps;
  });
  const alone = await go(false), together = await go(true);
  for (let i = 0; i < alone.length; i++) {
    const d = V.diff(alone[i], together[i]);
    env.check(!d, () => `step ${i}: another view changed this one (alone vs together) ${d}`);
    env.obs('steps compared');
  }
}

// ---------- scenario: released views can be collected
let gc = null;
function getGc() { if (!gc) { require('v8').setFlagsFromString('--expose-gc'); gc = require('vm').runInNewContext('gc'); } return gc; }
async function runCollect(c, env) {
  const refs = [];
  await withEnv(async (clock, win) => {
    for (let i = 0; i < c.n; i++) {
      (function () {
        const v = viewOf();
        v.parseSpec(build(clone(c.blocks), () => { }));
        v.run();
        for (const op of c.acts) act(v, c.blocks, op, clock, win);
        v.release();
        clock.advance(2000);
        refs.push(new WeakRef(v));
      })();
    }
  });
  for (let i = 0; i < 3; i++) { await new Promise(r => setImmediate(r)); getGc()(); }
  const alive = refs.filter(r => r.deref()).length;
  env.obs('released views', c.n); env.obs('released views still in memory', alive);
  env.check(alive <= 2, () => `${alive} of ${c.n} released views are still held in memory`);
}

const PS = ['A', 'B', 'C', 'D'];
module.exports = {
  rule: 'a view from which parts were removed, or whose specification was replaced, equals a view which never had them (grammars, edges, scene, listeners, values); after a release nothing runs; views do not influence one another',
  assumptions: ['exit animations are given time to end before the comparison', 'events declared for a part cannot be removed on their own (no interface), so removed parts are generated without events'],
  quickSeconds: 75,
  mustObserve: ['censuses compared', 'views released', 'timers pending at the release', 'steps compared', 'remaining parts compared', 'single grammars removed', 'released views'],
  scenarios: [
    {
      name: 'replace', quick: 250, min: 60,
      gen(rng) {
        return { stages: rng.times(rng.int(2, 3), () => ({ blocks: rng.subset(PS, 0.5).map(p => genBlock(rng, p, { anim: rng.bool(0.4) })), acts: genActs(rng, rng.int(0, 8)), exit: rng.bool(0.5) })) };
      }, run: runRespec
    },
    {
      name: 'remove', quick: 250, min: 60,
      gen(rng) {
        const ps = PS.slice(0, rng.int(1, 4));
        return { blocks: ps.map(p => genBlock(rng, p, { anim: rng.bool(0.4), events: false })), rm: rng.subset(ps, 0.5), acts: genActs(rng, rng.int(0, 5)).filter(a => a.a !== 'fire' && a.a !== 'rows' && a.a !== 'thr'), after: genActs(rng, rng.int(0, 6)), order: rng.times(30, () => rng.num(0, 1, 4)), by: rng.pick(['id', 'instance']), byId: rng.bool(), runBetween: rng.bool(), runEvery: rng.bool(0.4), exit: rng.bool(0.5), late: true };
      }, run: runRemove
    },
    {
      name: 'leaves', quick: 200, min: 50,
      gen(rng) {
        const acts = n => genActs(rng, n).filter(a => ['thr', 'rows', 'run', 'resize'].includes(a.a));
        return { blocks: PS.slice(0, rng.int(1, 2)).map(p => Object.assign(genBlock(rng, p, { anim: rng.bool(0.3), events: false }), { inter: [] })), rounds: rng.times(rng.int(1, 4), () => ({ mask: rng.times(7, () => rng.bool(0.5)), byId: rng.bool(), exit: rng.bool(), acts: acts(rng.int(0, 5)) })) };
      }, run: runLeaves
    },
    {
      name: 'release', quick: 300, min: 80,
      gen(rng) { return { blocks: rng.subset(PS, 0.5).map(p => genBlock(rng, p, { anim: rng.bool(0.6) })), acts: rng.bool(0.9) ? [{ a: 'run' }].concat(genActs(rng, rng.int(0, 12))) : [] }; }, run: runRelease
    },
    {
      name: 'isolation', quick: 120, min: 30,
      gen(rng) {
        const bl = () => rng.subset(PS, 0.5).map(p => genBlock(rng, p, { anim: rng.bool(0.3) }));
        const other = [{ a: 'new', blocks: bl() }];
        genActs(rng, rng.int(2, 10)).forEach(a => { other.push(rng.bool(0.2) ? { a: 'new', blocks: bl() } : rng.bool(0.15) ? { a: 'release' } : rng.bool(0.2) ? { a: 'respec', blocks: bl() } : a); });
        return { blocks: bl(), acts: [{ a: 'run' }].concat(genActs(rng, rng.int(3, 10))), other };
      }, run: runIsolated
    },
    {
      name: 'collect', quick: 6, min: 3, weight: 0.2,
      gen(rng) { return { n: 12, blocks: PS.slice(0, 2).map(p => genBlock(rng, p, { anim: rng.bool(0.5) })), acts: [{ a: 'run' }].concat(genActs(rng, 8)) }; }, run: runCollect
    }
  ]
};
