'use strict';
// Helpers to drive real Views head-less: manual animation ticker, events dispatched through
// the renderer's real propagation path, normalised snapshots of everything a user can observe.
const fs = require('fs');
const vg = global.__VG__;
const REPO = process.env.VG_REPO || '/repo';

function findCanvas() {
  const base = REPO + '/common/temp/node_modules/.pnpm';
  const d = fs.readdirSync(base).find(x => /^canvas@/.test(x));
  return require(`${base}/${d}/node_modules/canvas`);
}
const canvas = findCanvas();
const { View } = vg.full;
const vrender = vg.vrender;
for (const k of Object.keys(vg.full)) if (/^register\w+Glyph$/.test(k)) vg.full[k]();

// the node environment has no mapping from client to canvas points (used by brushes): the canvas is at the origin
vrender.vglobal.mapToCanvasPoint = e => ({ x: (e.canvas || e).x, y: (e.canvas || e).y });

/** a real view in node mode; `ticker` is driven by hand */
function mkView(opts = {}) {
  const { manual, ...rest } = opts;
  const o = Object.assign({ width: 400, height: 300, mode: 'node', modeParams: canvas, logLevel: 0, padding: 0 }, rest);
  let ticker = null;
  if (manual) {
    ticker = new vrender.ManualTicker([]);
    o.ticker = ticker;
  }
  const view = new View(o);
  const stage = view.renderer.stage();
  if (stage && !stage.eventSystem) {
    // node has no native events, hence no event system: components expect one
    view.__mgr = new vrender.EventManager(stage, {});
    Object.defineProperty(stage, 'eventSystem', { configurable: true, value: { manager: view.__mgr, release() { }, setCursor() { }, pauseTriggerEvent() { }, resumeTriggerEvent() { } } });
  }
  if (ticker) {
    view.__now = 0;
    view.tick = dt => { view.__now += dt; ticker.tickAt(view.__now); };
  }
  return view;
}

/** run `f` with a fresh view, always releasing it */
async function withView(opts, f) {
  const v = mkView(opts);
  try { return await f(v); } finally { try { v.release(); } catch (e) { /* reported by the release checks */ } }
}

/**
 * Dispatch an event the way the renderer does: capture, target and bubble notifications along the
 * scene graph from the stage to `target` (a graphic; default the stage itself).
 */
function fire(view, type, target, props = {}) {
  const stage = view.renderer.stage();
  if (!view.__mgr) view.__mgr = new vrender.EventManager(stage, {});
  const Cls = type === 'wheel' ? vrender.FederatedWheelEvent : vrender.FederatedPointerEvent;
  const e = new Cls(view.__mgr);
  e.type = type;
  e.target = target || stage;
  e.pointerType = props.pointerType || 'mouse';
  e.nativeEvent = { preventDefault() { e.nativePrevented = true; }, stopPropagation() { e.nativeStopped = true; } };
  const x = props.x || 0, y = props.y || 0;
  for (const k of ['client', 'canvas', 'global', 'offset', 'viewport', 'screen']) { if (e[k]) { e[k].x = x; e[k].y = y; } }
  for (const k of Object.keys(props)) {
    if (k === 'x' || k === 'y') continue;
    try { e[k] = props[k]; } catch (err) { Object.defineProperty(e, k, { value: props[k] }); }
  }
  view.__mgr.dispatchEvent(e, type);
  return e;
}
const fireOn = (view, type, element, props) => fire(view, type, element && element.getGraphicItem(), props);

/** plain-JSON normal form: drops undefined and functions, rounds floats, names non-finite numbers */
function norm(v, depth = 0, seen = new Set()) {
  if (v === undefined || typeof v === 'function' || typeof v === 'symbol') return undefined;
  if (v === null) return null;
  if (typeof v === 'number') {
    if (Number.isNaN(v)) return 'NaN';
    if (!Number.isFinite(v)) return v > 0 ? 'Inf' : '-Inf';
    if (v === 0) return 0;
    return Math.abs(v) < 1e-9 ? 0 : Number(v.toPrecision(10));
  }
  if (typeof v !== 'object') return v;
  if (v instanceof Date) return 'date:' + v.getTime();
  if (depth > 8 || seen.has(v)) return '…';
  seen.add(v);
  let out;
  if (Array.isArray(v)) out = v.map(x => { const n = norm(x, depth + 1, seen); return n === undefined ? null : n; });
  else {
    out = {};
    for (const k of Object.keys(v).sort()) {
      if (k.startsWith('VGRAMMAR_DATA_ID_KEY')) continue;
      const n = norm(v[k], depth + 1, seen);
      if (n !== undefined) out[k] = n;
    }
  }
  seen.delete(v);
  return out;
}
const same = (a, b) => JSON.stringify(norm(a)) === JSON.stringify(norm(b));

function snapScale(s) {
  const o = s.output();
  const get = k => { try { return typeof o[k] === 'function' ? o[k]() : undefined; } catch (e) { return 'threw ' + e.message; } };
  return norm({ type: o.type, domain: get('domain'), range: get('range'), bandwidth: get('bandwidth'), step: get('step') });
}
const attrsOf = g => (g ? norm(g.attribute) : null);
function snapElement(e) {
  return { key: norm(e.key), groupKey: norm(e.groupKey), data: norm(e.data), states: e.states.slice(), attrs: attrsOf(e.getGraphicItem()) };
}
function snapMark(m) { return m.elements.map(snapElement); }

/** first difference between two normal forms, for messages */
function diff(a, b, path = '') {
  if (JSON.stringify(a) === JSON.stringify(b)) return null;
  if (a && b && typeof a === 'object' && typeof b === 'object' && Array.isArray(a) === Array.isArray(b)) {
    for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) {
      const d = diff(a[k], b[k], path + '.' + k);
      if (d) return d;
    }
  }
  return `${path || '.'}: ${JSON.stringify(a === undefined ? null : a).slice(0, 160)} vs ${JSON.stringify(b === undefined ? null : b).slice(0, 160)}`;
}

const near = (a, b, eps = 1e-6) => a === b || (Number.isNaN(a) && Number.isNaN(b)) ||
  (typeof a === 'number' && typeof b === 'number' && Math.abs(a - b) <= eps * Math.max(1, Math.abs(a), Math.abs(b)));

module.exports = { canvas, vg, View, vrender, mkView, withView, fire, fireOn, norm, same, snapScale, snapElement, snapMark, attrsOf, diff, near, REPO };
