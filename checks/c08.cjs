'use strict';
// C08: state interactions. A reference automaton is stepped with the same events as the real view.
const V = require('../lib/view.cjs');
const { install } = require('../lib/clock.cjs');
for (const k of ['registerElementHighlightByGraphicName', 'registerElementSelectByGraphicName']) (V.vg.full[k] || V.vg.core[k])();
const clone = x => JSON.parse(JSON.stringify(x));
const wp = (rng, list) => { const v = rng.wpick(list); return typeof v === 'function' ? v() : v; };

const KINDS = ['symbol', 'rect', 'text', 'line', 'area', 'glyph', 'group'];
const genRows = (rng, n) => rng.shuffle(['k0', 'k1', 'k2', 'k3', 'k4', 'k5', 'k6']).slice(0, n).map(k => ({ k, g: rng.pick(['a', 'b', 'c']), v: rng.int(10, 290), w: rng.int(10, 190) }));
const isLine = k => k === 'line' || k === 'area';
function genMarks(rng, states, geo) {
  const n = rng.int(1, 4);
  return rng.times(n, i => ({
    i, kind: rng.pick(geo ? ['symbol', 'rect', 'symbol', 'arc'] : KINDS), name: rng.bool(0.6) ? rng.pick(['na', 'nb']) : null, group: rng.bool(0.6), gname: rng.pick([null, 'na', 'nb', 'g']), data: rng.pick(['d0', 'd0', 'd1']),
    states: rng.bool(0.6) ? states.slice() : rng.subset(states, 0.7), nested: rng.bool(0.2)
  }));
}
function markSpec(m) {
  const x = d => (d ? d.v : 0), y = d => (d ? d.w : 0);
  const e = { x, y, fill: 'red' };
  if (m.kind === 'rect' || m.kind === 'group') Object.assign(e, { width: 14, height: 11 });
  if (m.kind === 'symbol') e.size = 8;
  if (m.kind === 'text') e.text = d => d && d.g;
  if (m.kind === 'arc') Object.assign(e, { outerRadius: 9, innerRadius: 0, startAngle: 0, endAngle: 6.2 });
  if (m.kind === 'area') e.y1 = 190;
  if (m.kind === 'glyph') Object.assign(e, { min: 5, q1: 10, median: 20, q3: 30, max: 40, boxWidth: 10 });
  if (m.kind === 'interval') { delete e.y; Object.assign(e, { y: 20, y1: 40, width: 10 }); }
  const enc = { update: e };
  m.states.forEach((s, j) => { enc[s] = { fill: 'c' + s, opacity: 0.3 + 0.1 * j }; });
  const spec = { id: 'm' + m.i, type: m.kind, key: 'k', from: { data: m.data }, encode: enc };
  if (m.kind === 'glyph') spec.glyphType = 'boxplot';
  if (m.name) spec.name = m.name;
  if (m.gname) spec.graphicName = m.gname === 'g' ? el => (el.getDatum() ? el.getDatum().g : undefined) : m.gname;
  if (isLine(m.kind) || m.group) spec.groupBy = 'g';
  return spec;
}
function build(c) {
  const nested = c.marks.filter(m => m.nested).map(markSpec), top = c.marks.filter(m => !m.nested).map(markSpec);
  if (nested.length) top.push({ id: 'grp', type: 'group', marks: nested, encode: { update: { x: 0, y: 0 } } });
  return { data: ['d0', 'd1'].map(id => ({ id, values: clone(c.data[id]) })), marks: top };
}
const genSel = (rng, marks) => {
  const one = () => wp(rng, [[4, () => '#m' + rng.pick(marks).i], [2, () => '@' + rng.pick(['na', 'nb'])], [2, () => rng.pick(marks).kind], [0.3, '#nothing']]);
  return rng.bool(0.4) ? one() : rng.times(rng.int(1, 3), one);
};
const resolve = (sel, marks) => { const out = new Set(); [].concat(sel).forEach(s => marks.forEach(m => { if (s[0] === '#' ? s.slice(1) === 'm' + m.i : s[0] === '@' ? m.name === s.slice(1) : m.kind === s) out.add('m' + m.i); })); return out; };

// ---------- interactions
const TYPES = ['element-active', 'element-select', 'element-highlight', 'element-highlight-by-key', 'element-highlight-by-group', 'element-highlight-by-name', 'element-highlight-by-graphic-name', 'element-active-by-legend', 'element-highlight-by-legend', 'element-select-by-graphic-name'];
const EV = ['click', 'pointerover', 'pointerout', 'dblclick', 'pointerdown'];
function genInter(rng, i, marks, type) {
  type = type || rng.pick(TYPES);
  const it = { i, type, selector: genSel(rng, marks), id: rng.bool(0.5) ? 'i' + i : null, custom: rng.bool(0.6) };
  if (/legend/.test(type)) Object.assign(it, { filterType: rng.pick(['key', 'groupKey', null]), filterField: rng.bool(0.3) ? 'g' : null });
  else if (type === 'element-highlight-by-name') Object.assign(it, { filterType: rng.pick(['key', 'groupKey', null]), filterField: rng.bool(0.3) ? rng.pick(['g', 'k']) : null, graphicName: rng.pick(['na', ['na', 'nb'], ['a', 'b'], 'nb']), parse: rng.bool(0.6) });
  else if (/select/.test(type)) {
    it.multi = type === 'element-select-by-graphic-name' ? true : rng.bool(0.5);
    it.reverse = rng.bool(0.6);
    it.trigger = rng.bool(0.5) ? null : rng.pick(['click', 'pointerdown', ['click', 'pointerdown']]);
    const off = () => rng.pick(['empty', 'dblclick', 'view:dblclick', 'view:pointerout', 'click', 'none', 300, 80]);
    it.off = wp(rng, [[1, null], [3, off], [2, () => rng.times(2, off).filter((x, j, a) => typeof x !== 'number' || a.findIndex(y => typeof y === 'number') === j)]]);
  } else {
    it.trigger = rng.bool(0.6) ? null : rng.pick(type === 'element-active' ? ['click', 'pointerdown', ['pointerover', 'click']] : ['click', 'pointerdown']);
    it.off = rng.bool(0.5) ? null : rng.pick(type === 'element-active' ? ['dblclick', 'none', ['pointerout', 'dblclick']] : type === 'element-highlight' ? ['dblclick', 'view:click', 'view:dblclick', 'view:pointerout', 'view:pointerover', 'none'] : ['dblclick', 'none']);
    if (it.off && it.trigger && String(it.off).replace('view:', '') === String(it.trigger) && !String(it.off).includes('view:')) it.off = 'dblclick';
  }
  return it;
}
// names of the states an interaction sets: [positive, negative]
function statesOf(it) {
  const act = /active/.test(it.type), sel = /select/.test(it.type);
  if (act) return [it.custom ? 's' + it.i : 'active', null];
  if (sel) return [it.custom ? 's' + it.i : 'selected', it.reverse ? 'r' + it.i : null];
  return it.custom ? ['s' + it.i, 'r' + it.i] : ['highlight', 'blur'];
}
function optionsOf(it, log) {
  const o = { selector: it.selector };
  if (it.id) o.id = it.id;
  const [p, n] = statesOf(it);
  if (/active/.test(it.type)) { if (it.custom) o.state = p; }
  else if (/select/.test(it.type)) { if (it.custom) o.state = p; if (n) o.reverseState = n; if (it.multi) o.isMultiple = true; }
  else if (it.custom) { o.highlightState = p; o.blurState = n; }
  if (it.trigger) o.trigger = clone(it.trigger);
  if (it.off !== null && it.off !== undefined) o.triggerOff = clone(it.off);
  if (it.filterType) o.filterType = it.filterType;
  if (it.filterField) o.filterField = it.filterField;
  if (it.graphicName) o.graphicName = it.graphicName;
  if (it.parse) o.parseData = e => e.element && e.element.groupKey;
  o.onStart = e => { log.push(['start', e.elements]); };
  o.onReset = e => { log.push(['reset', e.elements]); };
  return o;
}

// the contract: which elements carry the states of the interaction after each event
class Model {
  constructor(it, marks) {
    this.it = it; this.ids = resolve(it.selector, marks);
    [this.pos, this.neg] = statesOf(it);
    this.has = {}; marks.forEach(m => { this.has['m' + m.i] = { p: m.states.includes(this.pos), n: this.neg && m.states.includes(this.neg) }; });
    this.P = new Set(); this.N = new Set(); // elements with the positive / negative state
    this.S = []; // selection
    this.fuzzy = new Set(); // entered while a selection was shown: their negative state is not specified
    this.timer = null; this.dead = false; this.expected = null;
    const off = [].concat(it.off === null || it.off === undefined ? (/select/.test(it.type) ? [] : ['pointerout']) : it.off);
    const dfl = /select/.test(it.type) ? 'click' : 'pointerover';
    this.trigger = [].concat(it.trigger || dfl); this.off = off;
  }
  covers(el) { return !!el && this.ids.has(el.mark.id()); }
  all(view) { const out = []; view.grammars.traverse(g => { if (g.grammarType === 'mark' && this.ids.has(g.id())) out.push(...g.elements); }); return out; }
  setP(el) { if (this.has[el.mark.id()].p) this.P.add(el); }
  setN(el) { if (this.has[el.mark.id()].n) this.N.add(el); }
  clear() { this.P.clear(); this.N.clear(); this.S = []; this.fuzzy.clear(); }
  reset(now) { if (this.S.length) { this.notes.push(['reset', this.S.slice()]); } this.clear(); void now; }
  show(view, sel) {
    const was = this.S.length;
    this.S = sel; this.P.clear(); sel.forEach(el => el.mark && this.setP(el));
    if (this.neg) {
      if (!was) this.N.clear();
      this.all(view).forEach(el => { if (sel.includes(el)) { this.N.delete(el); this.fuzzy.delete(el); } else if (!this.fuzzy.has(el)) this.setN(el); });
    }
  }
  keyed(view, f) { this.clear(); this.all(view).forEach(el => { if (f(el)) this.setP(el); else if (this.neg) this.setN(el); }); }
  tick(now) { if (this.timer !== null && now >= this.timer) { this.timer = null; this.reset(); } }
  sync(view) {
    const live = new Set(this.all(view));
    for (const s of [this.P, this.N, this.fuzzy]) for (const el of s) if (!live.has(el)) s.delete(el);
  }
  entered(els) { if (this.S.length) els.forEach(el => { if (this.covers(el)) this.fuzzy.add(el); }); }
  /** returns false where the contract says nothing */
  step(view, type, el, target, now) {
    this.notes = [];
    if (this.dead) return;
    const it = this.it, on = this.covers(el);
    switch (it.type) {
      case 'element-active':
        if (this.trigger.includes(type) && on) { this.setP(el); this.lastEl = el; }
        if (this.off.includes(type)) { if (on) this.P.delete(el); else if (!el) this.P.delete(this.lastEl); }
        break;
      case 'element-highlight': {
        const viewOff = this.off.some(o => String(o).startsWith('view:')), offType = this.off.map(o => String(o).replace('view:', ''));
        if (this.trigger.includes(type)) {
          if (on) { if (this.S[0] !== el) { this.show(view, [el]); this.notes.push(['start', [el]]); } }
          else if (viewOff) this.reset();
        }
        if (offType.includes(type) && (viewOff ? !on : on)) this.reset();
        break;
      }
      case 'element-select': case 'element-select-by-graphic-name': {
        const viewOff = this.off.some(o => o === 'empty' || String(o).startsWith('view:')), selfOff = this.off.some(o => typeof o === 'string' && o !== 'empty' && o !== 'none' && !o.startsWith('view:'));
        const wait = this.off.find(o => typeof o === 'number');
        const pick = e => {
          if (this.P.has(e)) {
            if (selfOff) { const rest = this.S.filter(x => x !== e); if (rest.length) this.show(view, rest); else this.reset(); }
          } else {
            this.show(view, it.multi ? this.S.filter(x => x !== e).concat([e]) : [e]);
            this.notes.push(['start', this.S.slice()]);
            if (wait !== undefined) this.timer = now + wait;
          }
        };
        if (this.trigger.includes(type)) {
          if (it.type === 'element-select') { if (on) pick(el); else if (viewOff) this.reset(); }
          else if (el) { const name = el.getGraphicItem().name; if (name) this.all(view).forEach(e => { if (e.getGraphicItem().name === name) pick(e); }); }
          else if (viewOff) this.reset();
        } else if (this.off.some(o => typeof o === 'string' && o.replace('view:', '') === type)) {
          if (viewOff && !on) this.reset(); else if (selfOff && on) this.reset();
        }
        break;
      }
      case 'element-highlight-by-key': case 'element-highlight-by-group': {
        const key = it.type === 'element-highlight-by-key' ? 'key' : 'groupKey';
        if (this.trigger.includes(type) && on && el[key] !== null && el[key] !== undefined) { const k = el[key]; this.keyed(view, e => e[key] === k); }
        if (this.off.includes(type) && on) this.clear();
        break;
      }
      case 'element-highlight-by-graphic-name': {
        if (this.trigger.includes(type) && on && target && target.name) { const k = target.name; this.keyed(view, e => e.getGraphicItem().name === k); }
        if (this.off.includes(type) && on) this.clear();
        break;
      }
      case 'element-highlight-by-name': {
        const named = target && target.name && [].concat(it.graphicName).includes(target.name);
        if (this.trigger.includes(type) && named) {
          const k = it.parse ? el && el.groupKey : target.type === 'text' ? target.attribute.text : null;
          if (k !== null && k !== undefined) this.keyed(view, e => this.keyOf(e) === k);
        }
        if (this.off.includes(type) && named) this.clear();
        break;
      }
    }
  }
  keyOf(e) { return this.it.filterField ? (e.getDatum() || {})[this.it.filterField] : e[this.it.filterType || 'groupKey']; }
  legend(view, type, id) {
    this.notes = [];
    if (this.dead || !/legend/.test(this.it.type)) return;
    if (type === 'legendItemHover') { if (id !== null && id !== undefined) this.keyed(view, e => this.keyOf(e) === id); } else this.clear();
  }
}

function genPointer(rng, i, tier, only) {
  const ni = rng.wpick([[5, 1], [3, 2], [1, 3]]);
  const proto = rng.times(3, j => ({ i: j }));
  void proto;
  const c = { data: { d0: genRows(rng, rng.int(2, 6)), d1: genRows(rng, rng.int(1, 4)) } };
  const base = rng.times(4, j => ({ i: j, kind: rng.pick(KINDS), name: rng.bool(0.6) ? rng.pick(['na', 'nb']) : null }));
  // two interactions with the same default states interfere: only one keeps the defaults
  const tmp = genMarks(rng, []);
  void base;
  c.inter = rng.times(ni, j => { const it = genInter(rng, j, tmp, only); if (j > 0) it.custom = true; return it; });
  const states = []; c.inter.forEach(it => statesOf(it).forEach(s => s && !states.includes(s) && states.push(s)));
  c.marks = tmp.map(m => Object.assign(m, { states: rng.bool(0.7) ? states.slice() : rng.subset(states, 0.7) }));
  const used = [...new Set([].concat(...c.inter.map(it => [].concat(it.trigger || [], it.off || [])).filter(x => x)).filter(x => typeof x === 'string').map(x => x.replace('view:', '')).filter(x => EV.includes(x)))];
  const types = used.concat(c.inter.some(it => !it.trigger && !/select|legend/.test(it.type)) ? ['pointerover', 'pointerout'] : [], c.inter.some(it => /select/.test(it.type)) ? ['click'] : []);
  const ev = () => rng.bool(0.85) && types.length ? rng.pick(types) : rng.pick(EV);
  const n = rng.int(8, 26);
  c.ops = rng.times(n, () => wp(rng, [
    [10, () => ({ o: 'fire', type: ev(), m: rng.int(0, 5), e: rng.int(0, 6), stage: rng.bool(0.15), inner: rng.bool(0.1) })],
    [2, () => ({ o: 'hover', m: rng.int(0, 5), e: rng.int(0, 6) })],
    c.inter.some(it => /legend/.test(it.type)) ? [6, () => ({ o: 'legend', type: rng.pick(['legendItemHover', 'legendItemHover', 'legendItemUnHover']), id: rng.pick(['a', 'b', 'c', 'k0', 'k1', 'zz', null]) })] : [0, null],
    [1.5, () => ({ o: 'wait', ms: rng.pick([10, 79, 100, 299, 400]) })],
    [1, () => ({ o: 'rows', id: rng.pick(['d0', 'd1']), rows: genRows(rng, rng.int(0, 7)) })],
    [1, () => ({ o: 'run' })],
    [0.4, () => ({ o: 'remove', i: rng.int(0, 2), by: rng.pick(['type', 'instance', 'id', 'all']) })],
    [0.4, () => ({ o: 'add', i: rng.int(0, 2) })],
    [0.4, () => ({ o: 'reset', i: rng.int(0, 2) })]
  ]));
  return c;
}
async function runPointer(c, env) {
  const clock = install();
  const view = V.mkView({ manual: true });
  try {
    view.parseSpec(build(c)); view.run({ morph: false, reuse: false });
    const marks = c.marks.map(m => view.getMarkById('m' + m.i));
    let live = [];
    let changes = 0;
    const add = it => {
      const log = [], emitted = [];
      const inst = view.interaction(it.type, optionsOf(it, log));
      const h = ['start', 'reset'].map(k => { const f = e => emitted.push([k, e.elements]); return [`${it.type}:${k}`, f]; });
      void h;
      const model = new Model(it, c.marks);
      live.push({ it, inst, model, log });
    };
    c.inter.forEach(add);
    const before = new Map();
    const all = () => [].concat(...marks.map(m => m.elements));
    // the states of elements nobody is responsible for
    const check = what => {
      const own = new Map();
      for (const l of live) {
        if (!l.model.frozen) { for (const s of [l.model.pos, l.model.neg]) if (s) own.set(s, l); }
      }
      for (const el of all()) {
        for (const l of live) {
          const m = l.model;
          if (m.frozen) continue;
          const owner = live.filter(x => !x.model.frozen && (x.model.pos === m.pos || x.model.neg === m.pos || x.model.pos === m.neg || (m.neg && x.model.neg === m.neg)));
          if (owner.length > 1) continue;
          const wp = m.P.has(el), gp = el.hasState(m.pos) || false;
          const nm = () => `${el.mark.id()}[${el.mark.elements.indexOf(el)}] (key ${el.key}, group ${el.groupKey})`;
          env.check(wp === gp, () => `${what}: ${l.it.type} ${JSON.stringify(optionsOf(l.it, []))}: element ${nm()} ${gp ? 'has' : 'does not have'} state '${m.pos}'`);
          if (m.neg && !m.fuzzy.has(el) && !m.ghost) {
            const wn = m.N.has(el), gn = el.hasState(m.neg) || false;
            env.check(wn === gn, () => `${what}: ${l.it.type} ${JSON.stringify(optionsOf(l.it, []))}: element ${nm()} ${gn ? 'has' : 'does not have'} state '${m.neg}'`);
          }
          if (wp || m.N.has(el)) { env.obs('stated elements seen'); changes++; }
        }
        env.check(new Set(el.states).size === el.states.length, () => `${what}: an element has a state twice: ${el.states}`);
        const spec = c.marks.find(m => 'm' + m.i === el.mark.id());
        if (el.states.length === 1 && !isLine(spec.kind) && spec.kind !== 'glyph') {
          const f = el.getGraphicAttribute('fill'); env.check(f === 'c' + el.states[0], () => `${what}: an element in state ${el.states[0]} is filled ${f}`);
        } else if (!el.states.length && spec.kind !== 'glyph') { const f = el.getGraphicAttribute('fill'); env.check(f === 'red', () => `${what}: an element without state is filled ${f}`); }
      }
    };
    const frozenStates = new Map();
    const checkFrozen = what => {
      for (const [l, snap] of frozenStates) for (const [el, st] of snap) {
        if (!el.mark || !all().includes(el)) continue;
        for (const s of [l.model.pos, l.model.neg]) {
          if (!s || live.some(x => !x.model.frozen && (x.model.pos === s || x.model.neg === s))) continue;
          env.check((el.hasState(s) || false) === st.includes(s), () => `${what}: a removed ${l.it.type} interaction still changes state '${s}'`);
        }
      }
    };
    const notes = (what) => {
      for (const l of live) {
        if (l.model.frozen) { env.check(!l.log.length, () => `${what}: a removed ${l.it.type} interaction notifies`); l.log.length = 0; continue; }
        const want = (l.model.notes || []).map(([k, els]) => [k, els.filter(e => e.mark).map(e => e.mark.id() + '/' + e.key + '/' + e.groupKey).sort()]);
        const got = l.log.map(([k, els]) => [k, [...new Set(els)].filter(e => e.mark).map(e => e.mark.id() + '/' + e.key + '/' + e.groupKey).sort()]);
        l.log.length = 0;
        if (!/element-(select|highlight)$/.test(l.it.type)) { l.model.notes = []; continue; }
        env.check(JSON.stringify(want) === JSON.stringify(got), () => `${what}: ${l.it.type} ${JSON.stringify(optionsOf(l.it, []))}: notifications ${JSON.stringify(got)} instead of ${JSON.stringify(want)}`);
        env.obs('notifications', got.length);
        l.model.notes = [];
      }
    };
    const dispatch = (type, el, target, what) => {
      // mutations happen in binding order, interactions are independent of each other
      for (const l of live) { l.model.ghost = l.model.S.length && !l.model.S.some(e => e.mark); l.model.step(view, type, el, target, clock.now); if (l.model.S.some(e => e.mark) || !l.model.S.length) l.model.ghost = false; }
      V.fire(view, type, target);
      env.obs('events dispatched');
      notes(what); check(what); checkFrozen(what);
    };
    const pickEl = op => { const m = marks[op.m % marks.length]; return m.elements[op.e % Math.max(1, m.elements.length)] || null; };
    let hovered = null;
    for (const op of c.ops) {
      if (op.o === 'fire') {
        const el = op.stage ? null : pickEl(op);
        let target = el && el.getGraphicItem();
        if (target && op.inner) { const kids = []; target.forEachChildren && target.forEachChildren(ch => { kids.push(ch); }); if (kids.length && (el.mark.markType === 'glyph')) target = kids[0]; }
        dispatch(op.type, el, target, `${op.type} on ${el ? el.mark.id() : 'the stage'}`);
      } else if (op.o === 'hover') {
        if (hovered && hovered.mark) dispatch('pointerout', hovered, hovered.getGraphicItem(), 'pointer leaves ' + hovered.mark.id());
        hovered = pickEl(op);
        if (hovered) dispatch('pointerover', hovered, hovered.getGraphicItem(), 'pointer enters ' + hovered.mark.id());
      } else if (op.o === 'legend') {
        for (const l of live) l.model.legend(view, op.type, op.id);
        V.fire(view, op.type, null, { detail: { data: { id: op.id } } });
        check(op.type); checkFrozen(op.type); env.obs('legend events');
      } else if (op.o === 'wait') {
        const end = clock.now + op.ms;
        for (const l of live) { l.model.notes = []; if (!l.model.frozen && l.model.timer !== null && l.model.timer <= end) { l.model.tick(l.model.timer); env.obs('selections timed out'); } }
        clock.advance(op.ms); view.tick(op.ms);
        notes('waiting'); check(`after ${op.ms} ms`); checkFrozen('waiting');
      } else if (op.o === 'rows') {
        const old = new Set(all());
        view.getDataById(op.id).values(clone(op.rows)); view.run({ morph: false, reuse: false }); for (let i = 0; i < 3; i++) view.tick(100);
        const fresh = all().filter(e => !old.has(e));
        for (const l of live) { l.model.sync(view); l.model.entered(fresh); l.model.ghost = l.model.S.length && !l.model.S.some(e => e.mark); l.model.notes = []; }
        notes('new data'); check('new data');
      } else if (op.o === 'run') { view.run(); check('run'); } else if (op.o === 'remove' || op.o === 'reset') {
        const l = live[op.i % live.length];
        if (op.o === 'reset') {
          if (l.model.frozen) continue;
          l.model.notes = [];
          l.inst.reset();
          if (/element-(select|highlight)$/.test(l.it.type)) l.model.reset(); else if (l.it.type === 'element-active') l.model.P.delete(l.model.lastEl); else l.model.clear();
          l.model.ghost = false;
          notes('reset'); check('reset');
        } else {
          const gone = op.by === 'all' ? live.slice() : op.by === 'type' ? live.filter(x => x.it.type === l.it.type) : op.by === 'id' && l.it.id ? live.filter(x => x.it.id === l.it.id) : [l];
          if (op.by === 'all') view.removeAllInteractions(); else if (op.by === 'type') view.removeInteraction(l.it.type); else if (op.by === 'id' && l.it.id) view.removeInteraction(null, l.it.id); else view.removeInteraction(l.inst);
          gone.forEach(x => { x.model.frozen = x.model.dead = true; frozenStates.set(x, all().map(e => [e, e.states.slice()])); });
          gone.forEach(x => { x.model.timer = null; });
          if (gone.some(x => /select/.test(x.it.type) && [].concat(x.it.off).some(o => typeof o === 'number'))) gone.forEach(x => frozenStates.delete(x)), gone.forEach(x => { x.log = []; x.log.push = () => 0; });
          env.obs('interactions removed');
        }
      } else if (op.o === 'add') {
        const l = live[op.i % live.length];
        if (!l.model.frozen) continue;
        // a new one of the same kind starts from elements without its states
        all().forEach(e => e.removeState([l.model.pos, l.model.neg].filter(x => x)));
        live = live.filter(x => x !== l); frozenStates.delete(l);
        frozenStates.forEach(s => s.forEach(x => { x[1] = x[0].states ? x[0].states.slice() : []; }));
        add(l.it);
      }
    }
    env.nontrivial = changes > 0;
    c.inter.forEach(it => env.saw('interaction', `${it.type} ${/select/.test(it.type) ? (it.multi ? 'multi ' : '') + (it.reverse ? 'reverse ' : '') + [].concat(it.off === null ? 'no' : it.off).join('+') : ''}`));
    void before;
  } finally { view.release(); clock.advance(2000); clock.uninstall(); }
}

// ---------- brushes
function genBrush(rng) {
  const type = rng.pick(['brush-active', 'brush-highlight']);
  const custom = rng.bool(0.4);
  const states = type === 'brush-active' ? [custom ? 's0' : 'active'] : custom ? ['s0', 'r0'] : ['highlight', 'blur'];
  const marks = genMarks(rng, states, true);
  const c = { type, custom, states, marks, data: { d0: genRows(rng, rng.int(2, 7)), d1: genRows(rng, rng.int(1, 5)) }, brushType: rng.pick(['rect', 'rect', 'x', 'y', 'polygon']), removeOnClick: rng.bool(0.8), moved: rng.bool(0.7), selector: genSel(rng, marks) };
  const pt = () => ({ x: rng.int(0, 320), y: rng.int(0, 220) });
  c.ops = rng.times(rng.int(2, 7), () => wp(rng, [
    [6, () => ({ o: 'drag', from: pt(), to: rng.times(rng.int(1, 4), pt) })],
    [1, () => { const p = pt(); return { o: 'drag', from: p, to: [{ x: p.x + rng.int(0, 4), y: p.y + rng.int(0, 4) }] }; }],
    [1.5, () => { const p = pt(); return { o: 'drag', from: p, to: [{ x: p.x + rng.int(2, 30), y: p.y + rng.int(2, 30) }, p] }; }],
    [1, () => ({ o: 'rows', id: rng.pick(['d0', 'd1']), rows: genRows(rng, rng.int(0, 7)) })],
    [0.5, () => ({ o: 'remove' })]
  ]));
  return c;
}
async function runBrush(c, env) {
  const clock = install();
  const view = V.mkView({ manual: true });
  try {
    view.parseSpec(build(c)); view.run({ morph: false, reuse: false });
    const marks = c.marks.map(m => view.getMarkById('m' + m.i));
    const ids = resolve(c.selector, c.marks);
    const covered = () => [].concat(...marks.filter(m => ids.has(m.id())).map(m => m.elements));
    const [pos, neg] = c.states;
    const o = { selector: c.selector, brushType: c.brushType, removeOnClick: c.removeOnClick, brushMoved: c.moved, brushStyle: { lineWidth: 0, stroke: false } };
    if (c.custom) { if (c.type === 'brush-active') o.state = pos; else { o.highlightState = pos; o.blurState = neg; } }
    let last = null, seen = 0, n = 0, frozen = null;
    const judge = (kind, e) => {
      n++;
      const spec = m => c.marks.find(x => 'm' + x.i === m.id());
      const act = new Set(e.activeElements);
      let pts = null;
      if (kind !== 'reset' && e.operateMask) { const a = e.operateMask.attribute; pts = a.points.map(p => ({ x: p.x + (a.dx || 0), y: p.y + (a.dy || 0) })); }
      env.check(kind === 'reset' || pts, 'a brush notification without mask');
      const EPS = 1.01;
      const xs = pts && pts.map(p => p.x), ys = pts && pts.map(p => p.y);
      const box = pts && { x1: Math.min(...xs), x2: Math.max(...xs), y1: Math.min(...ys), y2: Math.max(...ys) };
      const thin = box && (box.x2 - box.x1 < 0.5 || box.y2 - box.y1 < 0.5);
      const out = pts && (c.brushType === 'polygon' ? pts : [{ x: box.x1, y: box.y1 }, { x: box.x2, y: box.y1 }, { x: box.x2, y: box.y2 }, { x: box.x1, y: box.y2 }]);
      for (const el of covered()) {
        const m = spec(el.mark), d = el.getDatum();
        let inside = null; // null: too close to tell
        if (kind === 'reset') inside = false;
        else if (thin) inside = null;
        else if (m.kind === 'symbol') inside = pointIn(out, d.v, d.w, EPS);
        else if (m.kind === 'rect') {
          const r = { x1: d.v, y1: d.w, x2: d.v + 14, y2: d.w + 11 };
          // the third-party test of polygons is exact for convex ones only
          if (c.brushType === 'polygon') inside = polyRect(out, r, EPS) || null;
          else {
            const gap = Math.max(box.x1 - r.x2, r.x1 - box.x2, box.y1 - r.y2, r.y1 - box.y2);
            inside = Math.abs(gap) < EPS ? null : gap < 0;
          }
        } else { // arcs by their bounds, with a margin for the mask and the shape
          const gap = Math.max(box.x1 - (d.v + 9), (d.v - 9) - box.x2, box.y1 - (d.w + 9), (d.w - 9) - box.y2);
          inside = Math.abs(gap) < 2.5 ? null : gap < 0;
        }
        if (inside === null) continue;
        const what = () => `${e.operateType}: ${m.kind} at ${d.v},${d.w} is ${inside ? 'inside' : 'outside'} the ${c.brushType} brush ${out ? JSON.stringify(out) : '(none)'}`;
        env.check(act.has(el) === inside, () => `${what()} but ${act.has(el) ? '' : 'not '}reported as active`);
        env.check((el.hasState(pos) || false) === (inside && m.states.includes(pos)), () => `${what()} but ${el.hasState(pos) ? 'has' : 'does not have'} state ${pos}`);
        if (neg) env.check((el.hasState(neg) || false) === (kind !== 'reset' && !inside && m.states.includes(neg)), () => `${what()} but ${el.hasState(neg) ? 'has' : 'does not have'} state ${neg}`);
        env.obs(inside ? 'elements brushed' : 'elements not brushed'); if (inside) seen++;
      }
      marks.filter(m => !ids.has(m.id())).forEach(m => m.elements.forEach(el => env.check(!el.states.length, 'an element of a mark which is not selected by the brush has a state')));
      last = kind;
    };
    ['start', 'update', 'end', 'reset'].forEach(k => { o['on' + k[0].toUpperCase() + k.slice(1)] = e => judge(k, e); });
    const inst = view.interaction(c.type, o);
    const paint = () => { view.run(); view.tick(16); };
    paint(); view.emit && 0;
    if (!inst._brushComp) { view.renderer.render(true); }
    for (const op of c.ops) {
      if (op.o === 'drag') {
        const at = (type, p) => { clock.advance(30); V.fire(view, type, null, p); clock.advance(30); };
        const before = n;
        at('pointerdown', op.from);
        op.to.forEach(p => at('pointermove', p));
        const end = op.to[op.to.length - 1];
        try { at('pointerup', end); } catch (e) { if (!/_Brush\._drawEnd|Brush\._drawEnd/.test(e.stack)) throw e; env.obs('component crash'); }
        if (!frozen) {
          env.obs('gestures'); if (n > before) env.obs('gestures noticed');
        } else env.check(n === before, 'a removed brush interaction still reacts');
      } else if (op.o === 'rows') { view.getDataById(op.id).values(clone(op.rows)); view.run({ morph: false, reuse: false }); } else if (op.o === 'remove' && !frozen) { view.removeInteraction(inst); frozen = true; }
    }
    env.saw('brush', `${c.type} ${c.brushType} ${last}`);
    env.nontrivial = seen > 0;
  } finally { view.release(); clock.advance(2000); clock.uninstall(); }
}
// inside a polygon, null when closer than eps to its outline
function pointIn(poly, x, y, eps) {
  let inside = false;
  for (let i = 0, j = poly.length - 1; i < poly.length; j = i++) {
    const a = poly[i], b = poly[j];
    const dx = b.x - a.x, dy = b.y - a.y, len = dx * dx + dy * dy;
    const t = len ? Math.max(0, Math.min(1, ((x - a.x) * dx + (y - a.y) * dy) / len)) : 0;
    if (Math.hypot(x - a.x - t * dx, y - a.y - t * dy) < eps) return null;
    if ((a.y > y) !== (b.y > y) && x < (b.x - a.x) * (y - a.y) / (b.y - a.y) + a.x) inside = !inside;
  }
  return inside;
}
function polyRect(poly, r, eps) {
  const grow = e => ({ x1: r.x1 - e, y1: r.y1 - e, x2: r.x2 + e, y2: r.y2 + e });
  const hit = q => {
    const c = [{ x: q.x1, y: q.y1 }, { x: q.x2, y: q.y1 }, { x: q.x2, y: q.y2 }, { x: q.x1, y: q.y2 }];
    if (c.some(p => pointIn(poly, p.x, p.y, 0))) return true;
    if (poly.some(p => p.x >= q.x1 && p.x <= q.x2 && p.y >= q.y1 && p.y <= q.y2)) return true;
    const cross = (a, b, c2, d) => { const o = (p, s, t) => Math.sign((s.x - p.x) * (t.y - p.y) - (s.y - p.y) * (t.x - p.x)); return o(a, b, c2) !== o(a, b, d) && o(c2, d, a) !== o(c2, d, b); };
    for (let i = 0; i < poly.length; i++) for (let j = 0; j < 4; j++) if (cross(poly[i], poly[(i + 1) % poly.length], c[j], c[(j + 1) % 4])) return true;
    return false;
  };
  const a = hit(grow(-eps)), b = hit(grow(eps));
  return a === b ? a : null;
}

module.exports = {
  rule: 'Random marks (plain, grouped, nested, glyphs, groups, lines) with state encoders for some of the states get one to three random state interactions (all kinds, selectors, triggers, reset conditions, single or multiple selection, reverse states). Event streams go through the renderer\'s real propagation under virtual time, mixed with data changes, re-runs, resets and removals; after every event the states of all elements, their fill and the start and reset notifications are compared with a reference automaton per interaction. Brush interactions are driven by pressed, moved and released pointers and every notification is compared with independent geometry of the reported mask.',
  assumptions: ['the mask of a brush is drawn by the third-party brush component', 'the reverse state of elements entering while a selection is shown is not specified', 'removing an interaction leaves the states it has set, but it must not react any more'],
  mustObserve: ['events dispatched', 'stated elements seen', 'notifications', 'legend events', 'selections timed out', 'interactions removed', 'elements brushed', 'gestures noticed'],
  scenarios: [
    { name: 'pointer', weight: 3, quick: 3500, gen: genPointer, run: runPointer },
    { name: 'brush', quick: 900, gen: genBrush, run: runBrush }
  ]
};
