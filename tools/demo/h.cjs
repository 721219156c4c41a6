'use strict';
const fs = require('fs'), path = require('path'), assert = require('assert');
const vg = require(process.env.VG);
const base = process.env.ROOT + '/common/temp/node_modules/.pnpm';
const canvas = () => require(`${base}/${fs.readdirSync(base).find(x => /^canvas@/.test(x))}/node_modules/canvas`);
const full = vg.vgrammar_full;
for (const k of Object.keys(full)) if (/^register\w+Glyph$/.test(k)) full[k]();
const view = (o = {}) => {
  const ticker = o.manual ? new vg.vrender.ManualTicker([]) : undefined;
  const v = new full.View(Object.assign({ width: 400, height: 300, mode: 'node', modeParams: canvas(), logLevel: 0, padding: 0 }, ticker ? { ticker } : {}, o));
  let now = 0;
  if (ticker) v.tick = dt => { now += dt; ticker.tickAt(now); };
  return v;
};
const fire = (v, type, target, props = {}) => {
  const stage = v.renderer.stage(), R = vg.vrender;
  const mgr = v.__m || (v.__m = new R.EventManager(stage, {}));
  const e = new (type === 'wheel' ? R.FederatedWheelEvent : R.FederatedPointerEvent)(mgr);
  e.type = type; e.target = target || stage; e.pointerType = 'mouse'; e.nativeEvent = { preventDefault() {}, stopPropagation() {} };
  for (const k of ['client', 'canvas', 'global', 'offset', 'viewport', 'screen']) if (e[k]) { e[k].x = props.x || 0; e[k].y = props.y || 0; }
  for (const k of Object.keys(props)) if (k !== 'x' && k !== 'y') { try { e[k] = props[k]; } catch (x) { Object.defineProperty(e, k, { value: props[k] }); } }
  mgr.dispatchEvent(e, type);
  return e;
};
module.exports = { vg, full, view, fire, assert, attrs: e => e.getGraphicItem().attribute };
