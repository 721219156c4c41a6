'use strict';
// Virtual time: replaces Date.now, performance.now, timers and rAF while a case runs.
function install() {
  let now = 1700000000000, seq = 1;
  const q = new Map();
  const real = {
    setTimeout: global.setTimeout, clearTimeout: global.clearTimeout, setInterval: global.setInterval, clearInterval: global.clearInterval,
    now: Date.now, raf: global.requestAnimationFrame, caf: global.cancelAnimationFrame
  };
  const add = (f, ms, args, every) => { const id = seq++; q.set(id, { at: now + Math.max(0, +ms || 0), f, args, every, id }); return id; };
  global.setTimeout = (f, ms, ...a) => add(f, ms, a, 0);
  global.setInterval = (f, ms, ...a) => add(f, ms, a, Math.max(1, +ms || 1));
  global.clearTimeout = global.clearInterval = id => { q.delete(id); };
  global.requestAnimationFrame = f => add(() => f(now), 16, [], 0);
  global.cancelAnimationFrame = id => { q.delete(id); };
  Date.now = () => now;
  const clock = {
    get now() { return now; },
    pending() { return q.size; },
    advance(ms) {
      const end = now + ms;
      let guard = 0;
      for (;;) {
        let next = null;
        for (const t of q.values()) if (t.at <= end && (!next || t.at < next.at || (t.at === next.at && t.id < next.id))) next = t;
        if (!next || ++guard > 100000) break;
        now = Math.max(now, next.at);
        if (next.every) next.at = now + next.every; else q.delete(next.id);
        next.f(...next.args);
      }
      now = end;
    },
    uninstall() {
      global.setTimeout = real.setTimeout; global.clearTimeout = real.clearTimeout;
      global.setInterval = real.setInterval; global.clearInterval = real.clearInterval;
      Date.now = real.now;
      if (real.raf) global.requestAnimationFrame = real.raf; else delete global.requestAnimationFrame;
      if (real.caf) global.cancelAnimationFrame = real.caf; else delete global.cancelAnimationFrame;
    }
  };
  return clock;
}
async function withClock(f) { const c = install(); try { return await f(c); } finally { c.uninstall(); } }
module.exports = { install, withClock };
