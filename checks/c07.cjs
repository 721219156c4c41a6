'use strict';
// C07: every dispatched event reaches exactly the listeners whose selector and filter match, with the
// element it happened on, and has the declared effects on signals, propagation and timing.
const V = require('../lib/view.cjs');
const { install } = require('../lib/clock.cjs');
const { vglobal } = V.vrender;
const wp = (rng, list) => { const v = rng.wpick(list); return typeof v === 'function' ? v() : v; };
const clone = x => JSON.parse(JSON.stringify(x));

function spyWindow() {
  const list = [];
  const own = k => Object.prototype.hasOwnProperty.call(vglobal, k) ? vglobal[k] : undefined;
  const a = own('addEventListener'), r = own('removeEventListener');
  vglobal.addEventListener = (type, f) => { list.push({ type, f }); };
  vglobal.removeEventListener = (type, f) => { const i = list.findIndex(l => l.type === type && l.f === f); if (i >= 0) list.splice(i, 1); };
  return {
    list,
    fire(type, e) { list.filter(l => l.type === type).forEach(l => l.f(e)); return e; },
    restore() { if (a) vglobal.addEventListener = a; else delete vglobal.addEventListener; if (r) vglobal.removeEventListener = r; else delete vglobal.removeEventListener; }
  };
}
async function withEnv(f) {
  const clock = install(), win = spyWindow();
  try { return await f(clock, win); } finally { win.restore(); clock.uninstall(); }
}

const TYPES = ['click', 'pointermove', 'pointerdown', 'wheel', 'dblclick'];
const PRIM = ['rect', 'symbol', 'text', 'rule', 'line', 'area', 'arc', 'path', 'glyph', 'axis'];

// ---------- marks
function genMarks(rng) {
  const marks = [];
  const names = ['na', 'nb'];
  const n = rng.int(2, 6);
  for (let i = 0; i < n; i++) {
    const groups = marks.filter(m => m.kind === 'group');
    marks.push({
      i, kind: rng.bool(0.3) ? 'group' : rng.pick(PRIM), id: rng.bool(0.8) ? 'm' + i : null, name: rng.bool(0.5) ? rng.pick(names) : null,
      parent: groups.length && rng.bool(0.55) ? rng.pick(groups).i : null, data: rng.bool(0.75) ? rng.pick(['d0', 'd1']) : null
    });
  }
  return marks;
}
const needsId = m => 'm' + m.i;
function specOf(m) {
  const s = { id: m.id || undefined, name: m.name || undefined, type: m.kind };
  if (m.kind === 'axis') { Object.assign(s, { type: 'component', componentType: 'axis', axisType: 'line', scale: 'sc' }); }
  else if (m.data) { s.from = { data: m.data }; s.key = 'k'; }
  const x = (d, el, p) => 10 + (d && d.v !== undefined ? d.v : 0);
  const enc = { x, y: 10 };
  if (m.kind === 'rect' || m.kind === 'group') Object.assign(enc, { width: 20, height: 15, fill: 'red' });
  if (m.kind === 'symbol') enc.size = 10;
  if (m.kind === 'text') enc.text = 'T';
  if (m.kind === 'rule') Object.assign(enc, { x1: 40, y1: 40, stroke: 'black' });
  if (m.kind === 'arc') Object.assign(enc, { outerRadius: 10, innerRadius: 2, startAngle: 0, endAngle: 3 });
  if (m.kind === 'path') enc.path = 'M0 0L10 10L0 10Z';
  if (m.kind === 'area') enc.y1 = 40;
  if (m.kind === 'line' || m.kind === 'area') { s.key = 'k'; s.groupBy = 'g'; enc.x = d => d && d.v; }
  if (m.kind === 'glyph') { s.glyphType = 'boxplot'; Object.assign(enc, { x: d => 20 + (d ? d.v : 0), min: 5, q1: 10, median: 20, q3: 30, max: 40, boxWidth: 10 }); }
  if (m.kind === 'axis') s.encode = { update: { start: { x: 0, y: 50 }, end: { x: 100, y: 50 } } };
  else s.encode = { update: enc };
  return s;
}
function treeOf(marks) {
  const specs = marks.map(specOf);
  const top = [];
  marks.forEach((m, i) => { if (m.parent === null) top.push(specs[i]); else (specs[marks.findIndex(o => o.i === m.parent)].marks = specs[marks.findIndex(o => o.i === m.parent)].marks || []).push(specs[i]); });
  top.push({ id: 'probe', name: 'np', type: 'rect', encode: { update: { x: { callback: (d, e, p) => p.s0 * 7 + 1, dependency: ['s0'] }, y: { callback: (d, e, p) => p.s2 * 3, dependency: ['s2'] }, width: 5, height: 5 } } });
  return top;
}
const genRows = rng => rng.times(rng.int(0, 4), i => ({ k: 'k' + i, g: rng.pick(['a', 'b']), v: rng.int(0, 90) }));
const DATA = d => ['d0', 'd1'].map(id => ({ id, values: clone(d[id]) }));
const SIGNALS = () => [
  { id: 's0', value: 1 }, { id: 's1', value: 2 },
  { id: 's2', update: { callback: (v, p) => p.s0 * 2 + p.s1, dependency: ['s0', 's1'] } },
  { id: 'cnt', value: 0, update: { callback: v => (v || 0) + 1, dependency: [] } }
];
const SCALES = () => [{ id: 'sc', type: 'linear', domain: { callback: (s, p) => [0, 10 + p.s0], dependency: ['s0'] }, range: [0, 100] }];

// ---------- listeners
function genSel(rng, marks) {
  const ids = marks.map(m => m.id).filter(x => x);
  return wp(rng, [
    [3, { s: 'all' }], [1, { s: 'view' }], [2, () => ({ s: 'type', v: rng.pick(rng.bool(0.8) ? marks.map(m => m.kind === 'axis' ? 'component' : m.kind) : ['rect', 'symbol', 'group', 'text', 'image']) })],
    [3, () => ({ s: 'id', v: rng.pick(ids.concat(['probe', rng.bool(0.2) ? 'nothing' : 'probe'])) })],
    [2, () => ({ s: 'name', v: rng.pick(['na', 'nb', 'np']) })]
  ]);
}
const selText = (sel, type) => sel.s === 'all' ? type : sel.s === 'view' ? 'view:' + type : sel.s === 'type' ? sel.v + ':' + type : sel.s === 'id' ? '#' + sel.v + ':' + type : sel.s === 'name' ? '@' + sel.v + ':' + type : 'window:' + type;
function genEffect(rng) {
  const dep = rng.subset(['s0', 's1', 's2', 'sc'], 0.35);
  return {
    dep: dep.length === 1 && rng.bool(0.5) ? dep[0] : dep,
    target: wp(rng, [[4, null], [3, () => ({ k: 'one', id: rng.pick(['s0', 's1']), mul: rng.int(1, 4), add: rng.int(0, 3) })], [2, () => ({ k: 'many', list: rng.times(rng.int(1, 3), () => ({ id: rng.pick(['s0', 's1']), mul: rng.int(1, 4), add: rng.int(0, 3) })) })], [1, { k: 'commit', id: 'cnt' }]])
  };
}
function genListener(rng, marks, win) {
  const sel = win ? { s: 'window' } : genSel(rng, marks);
  return Object.assign({
    sel, type: win ? rng.pick(['keydown', 'hashchange']) : rng.pick(TYPES),
    filter: wp(rng, [[3, null], ['id', 'name', 'type'].includes(sel.s) ? [1, 'own'] : [0, null], [1, { mod: rng.int(2, 3), r: rng.int(0, 1) }], [1, 'has'], [0.5, 'no']]),
    consume: rng.bool(0.25)
  }, genEffect(rng));
}
const filterFn = f => !f ? undefined : f === 'has' ? e => !!e.element : f === 'own' ? e => !!e.element.mark && e.detail % 3 !== 0 : f === 'no' ? e => !e.element : e => e.detail % f.mod === f.r;
const value = (t, detail, params) => (detail * t.mul + t.add + (typeof params.s1 === 'number' ? params.s1 : 0)) % 6;

// graphics and the elements they belong to, found without the code under test
function owners(view) {
  const own = new Map();
  view.grammars.traverse(g => { if (g.grammarType === 'mark') g.elements.forEach(el => { const gi = el.getGraphicItem(); if (gi) own.set(gi, el); }); });
  return own;
}
function ownerOf(own, root, g) {
  for (let n = g; n; n = n.parent) { const el = own.get(n); if (el) return el; }
  return null;
}
function pickTarget(view, pick) {
  const marks = [];
  view.grammars.traverse(g => { if (g.grammarType === 'mark' && g.id() !== 'root') marks.push(g); });
  if (!marks.length || pick.stage) return null;
  const m = marks[pick.m % marks.length];
  if (pick.container && m.graphicItem) return m.graphicItem;
  const el = m.elements[pick.e % Math.max(1, m.elements.length)];
  let g = el && el.getGraphicItem();
  for (let d = pick.d; g && d > 0; d--) { const kids = []; g.forEachChildren && g.forEachChildren(ch => { kids.push(ch); }); if (!kids.length) break; g = kids[pick.c % kids.length]; }
  return g || null;
}
const elName = el => !el ? 'none' : `${el.mark.id() || el.mark.markType}[${el.mark.elements.indexOf(el)}]`;

// ---------- scenario: selectors, filters, targets, propagation
function genSelect(rng) {
  const marks = genMarks(rng);
  const mode = wp(rng, [[5, 'plain'], [1, 'disable'], [1, 'permit'], [1, 'off']]);
  const cfg = { defaults: wp(rng, [[3, null], [1, () => ({ prevent: rng.subset(TYPES, 0.5) })], [1, () => ({ allow: rng.subset(TYPES, 0.5) })], [0.5, () => ({ prevent: rng.bool() })], [0.5, () => ({ allow: rng.bool() })]]) };
  if (mode === 'disable') cfg.disable = true;
  if (mode === 'permit') cfg.view = rng.subset(TYPES, 0.5);
  if (mode === 'off') cfg.view = false;
  const lst = () => genListener(rng, marks, rng.bool(0.1));
  const c = { marks, data: { d0: genRows(rng), d1: genRows(rng) }, cfg, events: rng.times(rng.int(1, 6), lst), ops: [] };
  const n = rng.int(8, 22);
  for (let i = 0; i < n; i++) {
    c.ops.push(wp(rng, [
      [12, () => ({ o: 'fire', type: rng.pick(TYPES), stage: rng.bool(0.1), m: rng.int(0, 7), e: rng.int(0, 5), d: wp(rng, [[4, 0], [1, 1], [1, 3]]), c: rng.int(0, 3), container: rng.bool(0.06), cancelable: !rng.bool(0.15), x: rng.int(0, 300), y: rng.int(0, 200) })],
      [1, () => ({ o: 'window', type: rng.pick(['keydown', 'hashchange']), cancelable: !rng.bool(0.2), touch: rng.bool(0.3) })],
      [1, () => ({ o: 'sig', id: rng.pick(['s0', 's1']), v: rng.int(0, 6) })],
      [1, () => ({ o: 'bind', l: lst() })],
      [1, () => ({ o: 'unbind', i: rng.int(0, 9) })],
      [1, () => ({ o: 'rows', id: rng.pick(['d0', 'd1']), rows: genRows(rng) })],
      mode === 'plain' ? [1, () => ({ o: 'on', who: rng.pick(['view', 'mark']), m: rng.int(0, 7), type: rng.pick(TYPES), stop: rng.bool(0.15) })] : [0, null],
      mode === 'plain' ? [1, () => ({ o: 'off', i: rng.int(0, 5), all: rng.bool(0.2) })] : [0, null],
      [0.3, () => ({ o: 'remove', m: rng.int(0, 7) })],
      [0.4, () => ({ o: 'spec', events: rng.times(rng.int(0, 4), lst) })]
    ]));
  }
  return c;
}
function preventedByDefault(cfg, type) {
  const d = cfg.defaults || {};
  if (d.prevent === true || d.allow === false) return true;
  if (Array.isArray(d.prevent)) return d.prevent.includes(type);
  if (Array.isArray(d.allow)) return !d.allow.includes(type);
  return false;
}
async function runSelect(c, env) {
  await withEnv(async (clock, win) => {
    const view = V.mkView({ manual: true, eventConfig: clone(Object.assign({}, c.cfg, { defaults: c.cfg.defaults || {} })) });
    let fired = 0;
    try {
      const log = []; // what happened
      const S = {}; // reference signals
      const derive = () => { S.s2 = S.s0 * 2 + S.s1; };
      let listeners = []; // bound event specifications, in binding order
      let apis = []; // addEventListener
      let seq = 0, lid = 0;
      const makeSpec = rec => {
        const l = rec.l;
        const e = { type: selText(l.sel, l.type), filter: filterFn(l.filter), consume: l.consume };
        if (l.dep && l.dep.length) e.dependency = l.dep;
        const note = (evt, params, tag) => { log.push({ l: rec.id, seq: evt.detail, el: elName(evt.element), params: V.norm(shown(params)), tag }); };
        const t = l.target;
        if (!t) e.callback = (evt, params) => note(evt, params, 'cb');
        else if (t.k === 'one') { e.target = t.id; e.callback = (evt, params) => { note(evt, params, 'one'); return value(t, evt.detail, params); }; }
        else if (t.k === 'many') e.target = t.list.map((x, j) => ({ target: x.id, callback: (evt, params) => { note(evt, params, 'many' + j); return value(x, evt.detail, params); } }));
        else e.target = t.id;
        return e;
      };
      const shown = params => { const o = {}; for (const k of Object.keys(params || {})) o[k] = k === 'sc' ? params[k].domain() : params[k]; return o; };
      const bound = l => l.sel.s === 'window' ? !c.cfg.disable : !c.cfg.disable && c.cfg.view !== false && !(Array.isArray(c.cfg.view) && !c.cfg.view.includes(l.type));
      const newSpec = events => {
        Object.assign(S, { s0: 1, s1: 2, cnt: 0 }); derive();
        const recs = events.map(l => ({ id: lid++, l, spec: true }));
        listeners = listeners.filter(r => !r.spec).concat(recs);
        // an unspecific listener outlives the specification, what it refers to does not
        return { signals: SIGNALS(), data: DATA(c.data), scales: SCALES(), marks: treeOf(c.marks), events: recs.map(makeSpec) };
      };
      view.parseSpec(newSpec(c.events));
      view.run({ morph: false, reuse: false });
      S.cnt = view.getSignalById('cnt').output();
      const checkState = what => {
        for (const k of ['s0', 's1', 's2', 'cnt']) { const got = view.getSignalById(k).output(); env.check(got === S[k], () => `${what}: signal ${k} is ${got} instead of ${S[k]}`); }
        const p = view.getMarkById('probe').elements[0].getGraphicItem().attribute;
        env.check(p.x === S.s0 * 7 + 1 && p.y === S.s2 * 3, () => `${what}: a mark depending on the signals shows ${p.x},${p.y} for ${S.s0},${S.s2}`);
        const dom = view.getScaleById('sc').output().domain();
        env.check(dom[1] === 10 + S.s0, () => `${what}: the domain of a dependent scale ends at ${dom[1]} for ${S.s0}`);
      };
      const matches = (l, el) => {
        switch (l.sel.s) {
          case 'id': return !!el && el.mark.id() === l.sel.v;
          case 'name': return !!el && el.mark.name() === l.sel.v;
          case 'type': return !!el && el.mark.markType === l.sel.v;
          default: return true;
        }
      };
      // what a dispatch has to cause
      const expect = (cands, el, detail, type, isWin) => {
        const out = []; let stop = false, prevent = false;
        for (const rec of cands) {
          const l = rec.l;
          if (!isWin && !matches(l, el)) continue;
          const f = filterFn(l.filter);
          if (f && !f({ element: isWin ? undefined : el, detail })) continue;
          const params = {};
          for (const d of [].concat(l.dep || [])) params[d] = d === 'sc' ? [0, 10 + S.s0] : S[d];
          const rp = V.norm(params), t = l.target, name = isWin ? 'none' : elName(el);
          let changed = false;
          const set = (x, tag) => { out.push({ l: rec.id, seq: detail, el: name, params: rp, tag }); const v = value(x, detail, params); if (v !== S[x.id]) { S[x.id] = v; changed = true; } };
          if (!t) out.push({ l: rec.id, seq: detail, el: name, params: rp, tag: 'cb' });
          else if (t.k === 'one') set(t, 'one');
          else if (t.k === 'many') t.list.forEach((x, j) => set(x, 'many' + j));
          else S.cnt += 1;
          if (changed) derive();
          if (l.consume) stop = true;
          if (l.consume || (!isWin && preventedByDefault(c.cfg, type))) prevent = true;
          env.obs('listeners matched'); env.saw('matched selector', l.sel.s + (l.filter ? ' filtered' : '') + (l.consume ? ' consuming' : '') + ' ' + (t ? t.k : 'callback'));
        }
        return { out, stop, prevent };
      };
      const addRec = l => {
        const rec = { id: lid++, l, spec: false };
        const unbind = view.event(makeSpec(rec));
        rec.unbind = unbind;
        listeners.push(rec);
        env.check(bound(l) ? typeof unbind === 'function' : true, 'binding an event does not return a function to unbind it');
      };
      const alive = () => { const ms = []; view.grammars.traverse(g => { if (g.grammarType === 'mark' && g.id() !== 'root') ms.push(g); }); return ms; };
      for (const op of c.ops) {
        if (op.o === 'fire') {
          const target = pickTarget(view, op), stage = view.renderer.stage();
          const el = target ? ownerOf(owners(view), view.rootMark, target) : null;
          const detail = ++seq;
          log.length = 0;
          const cands = listeners.filter(r => r.l.sel.s !== 'window' && r.l.type === op.type && bound(r.l));
          // the API listeners
          const exApi = c.cfg.disable ? [] : apis.filter(a => a.type === op.type && (a.who === 'view' || (el && el.mark === a.mark))).map(a => ({ id: a.id, el: elName(el) }));
          const gotApi = [];
          apis.forEach(a => { a.sink = gotApi; });
          const name = elName(el);
          const ex = expect(cands, el, detail, op.type, false);
          const e = V.fire(view, op.type, target, { detail, x: op.x, y: op.y, cancelable: op.cancelable });
          const what = `${op.type} on ${target ? target.type + ' of ' + name : 'the stage'}`;
          const a = V.norm(log), b = V.norm(ex.out);
          const d = V.diff(a, b);
          env.check(!d, () => `${what}: the listeners called differ ${d}\n   got ${JSON.stringify(a).slice(0, 400)}\n   expected ${JSON.stringify(b).slice(0, 400)}`);
          env.check(JSON.stringify(gotApi.slice().sort((x, y) => x.id - y.id)) === JSON.stringify(exApi.slice().sort((x, y) => x.id - y.id)), () => `${what}: the handlers added on the view and its marks called are ${JSON.stringify(gotApi)} instead of ${JSON.stringify(exApi)}`);
          const stops = ex.stop || apis.some(x => x.stop && exApi.some(y => y.id === x.id));
          env.check(!!e.propagationStopped === stops, () => `${what}: the propagation is ${e.propagationStopped ? '' : 'not '}stopped, matching listeners are ${ex.stop ? '' : 'not '}consuming`);
          const canPrevent = cands.some(r => (matches(r.l, el)) );
          const byDefault = preventedByDefault(c.cfg, op.type);
          const wantPrevent = ex.out.length || ex.prevent ? ex.prevent && (byDefault || op.cancelable) : false;
          if (wantPrevent) env.check(e.defaultPrevented, () => `${what}: the default is not prevented`);
          if (!byDefault && !ex.prevent) env.check(!e.defaultPrevented, () => `${what}: the default is prevented`);
          if (!byDefault && !op.cancelable) env.check(!e.nativePrevented, () => `${what}: preventDefault() of an event which cannot be cancelled`);
          checkState(what);
          env.obs('events dispatched'); if (ex.out.length) fired++;
          env.saw('element', (el ? el.mark.markType : 'none') + (op.d ? ' inner' : ''));
          void canPrevent; void stage;
        } else if (op.o === 'window') {
          const detail = ++seq; log.length = 0;
          const cands = listeners.filter(r => r.l.sel.s === 'window' && r.l.type === op.type && bound(r.l));
          const bad = cands.find(r => r.l.filter === 'has' || r.l.filter === 'no');
          void bad;
          const ex = expect(cands, null, detail, op.type, true);
          const e = { type: op.type, detail, cancelable: op.cancelable, target: null, offsetX: 3, offsetY: 4, preventDefault() { this.p = true; }, stopPropagation() { this.s = true; } };
          if (op.touch) e.changedTouches = [{ offsetX: 1, offsetY: 2 }];
          win.fire(op.type, e);
          const d = V.diff(V.norm(log), V.norm(ex.out));
          env.check(!d, () => `${op.type} on the window: the listeners called differ ${d}`);
          env.check(!!e.s === ex.stop, () => `${op.type} on the window: the propagation is ${e.s ? '' : 'not '}stopped`);
          env.check(!!e.p === (ex.prevent && op.cancelable), () => `${op.type} on the window: the default is ${e.p ? '' : 'not '}prevented`);
          checkState('window ' + op.type);
          env.obs('window events dispatched');
        } else if (op.o === 'sig') {
          const s = view.getSignalById(op.id);
          s.value(op.v); view.run(); S[op.id] = op.v; derive(); checkState('a signal set from outside');
        } else if (op.o === 'bind') addRec(op.l);
        else if (op.o === 'unbind') {
          const own = listeners.filter(r => !r.spec);
          if (own.length) { const r = own[op.i % own.length]; r.unbind && r.unbind(); listeners = listeners.filter(x => x !== r); env.obs('listeners unbound'); }
        } else if (op.o === 'rows') { view.getDataById(op.id).values(clone(op.rows)); view.run({ morph: false, reuse: false }); }
        else if (op.o === 'on') {
          const a = { id: lid++, who: op.who, type: op.type, stop: op.stop, sink: null };
          if (op.who === 'mark') { const ms = alive(); if (!ms.length) continue; a.mark = ms[op.m % ms.length]; }
          a.f = (evt, el) => { a.sink && a.sink.push({ id: a.id, el: elName(el) }); if (a.stop) evt.stopPropagation(); };
          (a.mark || view).addEventListener(op.type, a.f);
          apis.push(a);
        } else if (op.o === 'off' && apis.length) {
          const a = apis[op.i % apis.length];
          if (op.all && a.mark) { a.mark.removeEventListener(a.type); apis = apis.filter(x => !(x.mark === a.mark && x.type === a.type)); }
          else { (a.mark || view).removeEventListener(a.type, a.f); apis = apis.filter(x => x !== a); }
        } else if (op.o === 'remove') {
          const ms = alive().filter(m => m.id() !== 'probe' && !(m.children || []).length);
          if (ms.length) {
            const m = ms[op.m % ms.length];
            view.removeGrammar(m); view.run({ morph: false, reuse: false }); for (let i = 0; i < 5; i++) view.tick(100);
            apis = apis.filter(a => a.mark !== m); env.obs('marks removed');
          }
        } else if (op.o === 'spec') {
          // listeners bound by view.event() refer to grammars of the old specification: unbind them first
          listeners.filter(r => !r.spec).forEach(r => r.unbind && r.unbind());
          listeners = []; apis = apis.filter(a => !a.mark);
          view.updateSpec(newSpec(op.events)); view.run({ morph: false, reuse: false }); for (let i = 0; i < 5; i++) view.tick(100);
          S.cnt = view.getSignalById('cnt').output();
          env.obs('specifications replaced');
        }
      }
    } finally { view.release(); }
    env.nontrivial = fired > 0;
  });
}

// ---------- scenario: throttled, debounced, between and merged events
function genTiming(rng) {
  const kinds = ['throttle', 'debounce', 'between', 'merge'];
  const marks = ['rect', 'symbol'];
  const n = rng.int(1, 4);
  const ls = rng.times(n, i => {
    const kind = kinds[rng.int(0, 3)];
    const sel = () => wp(rng, [[2, ''], [1, 'rect:'], [1, '#m1:']]);
    const l = { kind, i };
    if (kind === 'throttle' || kind === 'debounce') { l.type = rng.pick(TYPES.slice(0, 3)); l.win = rng.bool(0.1); l.ms = rng.pick([10, 50, 120]); l.sig = rng.bool(0.4); }
    else if (kind === 'between') { const t = rng.sample(TYPES, 3); l.mid = sel() + t[0]; l.start = sel() + (rng.bool(0.2) ? t[0] : t[1]); l.end = sel() + (rng.bool(0.15) ? t[0] : rng.bool(0.15) ? l.start.split(':').pop() : t[2]); l.filter = rng.bool(0.3); l.startFilter = rng.bool(0.2); }
    else { l.entries = rng.times(rng.int(1, 3), () => ({ t: rng.pick(TYPES.slice(0, 3)), spec: rng.bool(0.5), ms: rng.bool(0.2) ? rng.pick([20, 90]) : 0 })); l.own = wp(rng, [[3, null], [1, { throttle: 80 }], [1, { debounce: 120 }], [1, { debounce: 10 }]]); l.entries = l.entries.filter((e, j) => l.entries.findIndex(o => o.t === e.t) === j); }
    return l;
  });
  const ops = []; const m = rng.int(10, 40);
  for (let i = 0; i < m; i++) ops.push(wp(rng, [[6, () => ({ o: 'fire', type: rng.pick(TYPES), on: rng.pick(['m0', 'm1', 'stage']) })], [1, () => { const type = rng.pick(TYPES.slice(0, 3)); return { o: 'burst', type, on: rng.pick(['m0', 'm1']), n: rng.int(2, 8), gap: rng.pick([1, 4, 9, 15, 40]) }; }], [5, () => ({ o: 'wait', ms: rng.pick([1, 5, 11, 30, 51, 121, 300]) })], [0.3, () => ({ o: 'unbind', i: rng.int(0, 3) })]]));
  ops.push({ o: 'wait', ms: 1000 });
  void marks;
  return { ls, ops, api: rng.bool(0.5) };
}
async function runTiming(c, env) {
  await withEnv(async (clock, win) => {
    const view = V.mkView({ manual: true });
    try {
      const calls = c.ls.map(() => []); // {at, detail, el}
      const mk = (l, i) => {
        const cb = evt => { calls[i].push({ at: clock.now, detail: evt.detail, type: evt.type, el: evt.element ? evt.element.mark.id() : null }); return evt.detail; };
        if (l.kind === 'throttle' || l.kind === 'debounce') { const e = { type: (l.win ? 'window:' : '') + l.type, [l.kind]: l.ms, callback: cb }; if (l.sig) e.target = 's' + i; return e; }
        if (l.kind === 'between') return { type: l.mid, callback: cb, filter: l.filter ? e => e.detail % 2 === 0 : undefined, between: [{ type: l.start, filter: l.startFilter ? e => e.detail % 3 !== 0 : undefined }, { type: l.end }] };
        return Object.assign({ merge: l.entries.map(e => e.spec ? Object.assign({ type: e.t }, e.ms ? { debounce: e.ms } : {}) : e.t), callback: cb }, l.own || {});
      };
      const specs = c.ls.map(mk);
      view.parseSpec({
        signals: c.ls.map((l, i) => ({ id: 's' + i, value: 0 })),
        marks: [{ id: 'm0', type: 'rect', encode: { update: { x: { callback: (d, e, p) => p.s0 + 1, dependency: ['s0'] }, width: 5, height: 5 } } }, { id: 'm1', type: 'symbol', encode: { update: { size: 5 } } }],
        events: c.api ? [] : specs
      });
      const unbinds = c.api ? specs.map(s => view.event(s)) : [];
      view.run();
      const sent = []; // {at, type, el, detail, win}
      let detail = 0; const dead = {}, last = {};
      const state = c.ls.map(() => ({ active: false, out: [] }));
      const match = (sel, e) => { const p = sel.split(':'); if (p[p.length - 1] !== e.type || e.win) return false; return p.length < 2 ? true : p[0] === 'rect' ? e.el === 'm0' : e.el === p[0].slice(1); };
      const send = (type, on, isWin) => {
        const e = { at: clock.now, type, el: on === 'stage' || isWin ? null : on, detail: ++detail, win: isWin };
        c.ls.forEach((l, i) => {
          if (dead[i] !== undefined || l.kind !== 'between') return;
          const s = state[i], was = s.active;
          if (was && match(l.mid, e) && (!l.filter || e.detail % 2 === 0)) s.out.push(e.detail);
          if (was && match(l.end, e)) s.active = false;
          else if (!was && match(l.start, e) && (!l.startFilter || e.detail % 3 !== 0)) s.active = true;
        });
        sent.push(e);
        if (isWin) win.fire(type, { type, detail: e.detail, target: null, offsetX: 1, offsetY: 1, preventDefault() { }, stopPropagation() { } });
        else V.fire(view, type, on === 'stage' ? null : view.getMarkById(on).elements[0].getGraphicItem(), { detail: e.detail });
      };
      for (const op of c.ops) {
        if (op.o === 'fire') { send(op.type, op.on, false); if (c.ls.some(l => l.win)) send(op.type, null, true); }
        else if (op.o === 'burst') for (let k = 0; k < op.n; k++) { send(op.type, op.on, false); if (c.ls.some(l => l.win)) send(op.type, null, true); clock.advance(op.gap); }
        else if (op.o === 'wait') clock.advance(op.ms);
        else if (op.o === 'unbind' && c.api) { const i = op.i % c.ls.length; if (dead[i] === undefined) { unbinds[i](); dead[i] = clock.now; last[i] = detail; } }
      }
      let total = 0;
      // a stream through a throttle or a debounce
      const judge = (l, i, kind, ms, mine, got, tag) => {
        const end = dead[i] === undefined ? Infinity : dead[i];
        env.check(got.every(g => mine.some(e => e.detail === g.detail && e.el === g.el)), () => `${tag}: called for an event which was not sent, or with another element: ${JSON.stringify(got.find(g => !mine.some(e => e.detail === g.detail && e.el === g.el)))}`);
        env.check(got.every((g, k) => !k || g.detail > got[k - 1].detail), () => `${tag}: called twice for an event or out of order ${JSON.stringify(got.map(g => g.detail))}`);
        env.check(got.every(g => g.at <= end), () => `${tag}: called after it was unbound`);
        if (kind === 'debounce') {
          const ex = [];
          mine.forEach((e, k) => { const next = mine[k + 1]; if ((!next || next.at - e.at >= ms) && e.at + ms < end) ex.push({ at: e.at + ms, detail: e.detail }); });
          // an event exactly `ms` after the previous one may or may not belong to its burst
          if (mine.some((e, k) => k && e.at - mine[k - 1].at === ms) || end < Infinity && mine.some(e => e.at + ms === end)) return;
          const a = JSON.stringify(got.map(g => [g.at, g.detail])), b = JSON.stringify(ex.map(g => [g.at, g.detail]));
          env.check(a === b, () => `${tag}: debounced by ${ms} ms, called at ${a} instead of ${b}`);
        } else {
          // the call at the end of a burst may be followed by the first one of the next
          for (let k = 2; k < got.length; k++) env.check(got[k].at - got[k - 2].at >= ms, () => `${tag}: throttled to one call in ${ms} ms, called three times in ${got[k].at - got[k - 2].at} ms`);
          mine.forEach((e, k) => {
            if ((!k || e.at - mine[k - 1].at > 2 * ms)) env.check(got.some(g => g.detail === e.detail && g.at === e.at), () => `${tag}: the first event after a quiet period is delayed`);
            if (e.at + ms < end) env.check(got.some(g => g.detail >= e.detail && g.at <= e.at + ms), () => `${tag}: the last event of a burst was lost`);
          });
        }
        total += got.length;
      };
      c.ls.forEach((l, i) => {
        const seen = dead[i] === undefined ? Infinity : last[i];
        const tag = `${l.kind} listener ${i}`;
        if (l.kind === 'between') {
          const a = JSON.stringify(calls[i].map(x => x.detail)), b = JSON.stringify(state[i].out);
          env.check(a === b, () => `${l.mid} between ${l.start} and ${l.end}: called for events ${a} instead of ${b}`);
          total += calls[i].length; env.obs('events between', calls[i].length);
        } else if (l.kind === 'merge') {
          for (const e of l.entries) {
            const mine = sent.filter(s => !s.win && s.type === e.t && s.detail <= seen);
            const own = e.spec && e.ms ? { debounce: e.ms } : l.own;
            const kind = own && own.throttle && !own.debounce ? 'throttle' : 'debounce';
            judge(l, i, kind, own ? own.throttle || own.debounce : 50, mine, calls[i].filter(g => g.type === e.t), `${tag} (${e.t})`);
          }
          env.obs('merged listeners');
        } else {
          const mine = sent.filter(s => s.type === l.type && !!s.win === !!l.win && s.detail <= seen);
          judge(l, i, l.kind, l.ms, mine, calls[i], tag);
          if (l.sig && calls[i].length) {
            const v = view.getSignalById('s' + i).output();
            env.check(v === calls[i][calls[i].length - 1].detail, () => `${tag}: its signal is ${v}`);
            if (i === 0) { const x = view.getMarkById('m0').elements[0].getGraphicItem().attribute.x; env.check(x === v + 1, () => `${tag}: the mark shows ${x} for ${v}`); }
          }
          env.obs(`${l.kind} calls`, calls[i].length);
        }
      });
      env.obs('timed events', sent.length);
      env.nontrivial = total > 0;
    } finally { view.release(); clock.advance(2000); }
  });
}

module.exports = {
  rule: 'For random trees of marks (nested groups, glyphs, components, shared names), event specifications of every selector form and handlers added on view and marks, the harness dispatches events through the renderer\'s real propagation to random graphics (elements, their inner graphics, containers, the stage) and to the window, and compares the log of every callback (which listener, which event, which element, which dependency values), the signals and what depends on them, propagation and default prevention with a reference matcher which finds the owner of a graphic by scanning all elements; under virtual time, throttled, debounced, merged and between listeners are checked by an offline oracle over the log of sent and received events.',
  assumptions: ['the propagation path of events in the scene graph is the renderer\'s own', 'default prevention of an event no listener of which matches is not judged where the view is configured to prevent it'],
  mustObserve: ['events dispatched', 'listeners matched', 'window events dispatched', 'listeners unbound', 'specifications replaced', 'debounce calls', 'throttle calls', 'events between', 'merged listeners'],
  scenarios: [
    { name: 'select', weight: 3, quick: 2600, gen: genSelect, run: runSelect },
    { name: 'timing', quick: 2500, gen: genTiming, run: runTiming }
  ]
};
