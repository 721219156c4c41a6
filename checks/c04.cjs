'use strict';
// Encodings: a reference interpreter of the declared encoders is compared with the graphics of real views
// over histories of data changes, signal changes, re-declared channels and re-entering.
const V = require('../lib/view.cjs');
const E = require('../lib/encref.cjs');
const clone = x => JSON.parse(JSON.stringify(x));

function compare(env, tag, got, exp, internal) {
  const g = V.norm(got);
  for (const k of internal) delete g[k];
  const x = V.norm(exp);
  env.obs('channels compared', Object.keys(x).length);
  const d = V.diff(g, x);
  env.check(!d, () => `${tag}: graphic attributes differ from the declared encoding (graphic vs declared) ${d}`);
}

// ---------- plain marks
async function runPlain(c, env) {
  await V.withView({}, async view => {
    let rows = clone(c.rows);
    const sig = E.declare(view, clone(rows));
    const mark = view.mark(c.type, view.rootMark).id('m');
    mark.join('d', 'k', undefined, c.groupBy);
    const sets = clone(c.sets);
    const calls = [];
    const probe = (d, el, p) => { calls.push([d, el, p]); };
    for (const st of Object.keys(sets)) mark.encodeState(st, E.toSet(sets[st], probe));
    if (c.coord) { view.coordinate('cartesian').id('co').translate(c.coord); mark.coordinate('co'); }
    const acc = new Map(); // key -> accumulated channels
    let reenter = false;
    const step = async tag => {
      calls.length = 0;
      await view.run();
      const groups = new Map();
      rows.forEach(d => { const g = c.groupBy ? d[c.groupBy] : 'key'; if (!groups.has(g)) groups.set(g, d); });
      const now = new Map();
      rows.forEach(d => {
        const id = (c.groupBy ? d[c.groupBy] : '') + '|' + d.k; const isNew = !acc.has(id);
        const ch = isNew ? {} : acc.get(id);
        if (sets.group) Object.assign(ch, E.valueSet(sets.group, groups.get(c.groupBy ? d[c.groupBy] : 'key'), sig));
        if ((isNew || reenter) && sets.enter) Object.assign(ch, E.valueSet(sets.enter, d, sig));
        if (sets.update) Object.assign(ch, E.valueSet(sets.update, d, sig));
        now.set(id, ch);
      });
      reenter = false;
      acc.clear(); now.forEach((v, k) => acc.set(k, v));
      env.check(mark.elements.length === rows.length, `${tag}: ${mark.elements.length} elements for ${rows.length} rows`);
      mark.elements.forEach((el, i) => {
        const ch = Object.assign({}, acc.get((c.groupBy ? rows[i][c.groupBy] : '') + '|' + rows[i].k));
        if (c.coord) { ch.x = (ch.x || 0) + c.coord[0]; ch.y = (ch.y || 0) + c.coord[1]; }
        compare(env, `${tag} ${c.type} ${rows[i].k}`, el.getGraphicItem().attribute, E.graphicOf(c.type, ch), E.INTERNAL);
        const t = E.graphicOf(c.type, ch);
        for (const k of Object.keys(ch)) {
          if (k === 'fillOpacity' || k === 'symbolType' || c.type === 'symbol' && ch.image) continue;
          if (c.type === 'rect3d' && !(k in t)) continue;
          if (c.type === 'symbol' && k === 'shape') continue;
          env.check(V.same(el.getGraphicAttribute(k), ch[k]), () => `${tag}: getGraphicAttribute(${k}) is ${JSON.stringify(el.getGraphicAttribute(k))}, the channel is ${JSON.stringify(ch[k])}`);
        }
        if (c.type === 'rect' && ch.lineWidth === undefined && !c.coord) {
          // extents and sizes denote the same rectangle
          const ok = ['x', 'y'].every(a => typeof ch[a] === 'number' && Number.isFinite(ch[a]));
          const ext = (a, b, s) => (typeof ch[s] === 'number' ? [ch[a], ch[a] + ch[s]] : typeof ch[b] === 'number' ? [ch[a], ch[b]] : null);
          const ex = ext('x', 'x1', 'width'), ey = ext('y', 'y1', 'height');
          if (ok && ex && ey && ex.concat(ey).every(Number.isFinite) && (ch.fill || ch.stroke)) {
            const b = el.getBounds();
            const lo = (p, q) => Math.min(p, q), hi = (p, q) => Math.max(p, q);
            const pad = ch.stroke ? 3 : 0.001;
            env.obs('rectangle bounds compared');
            env.check(Math.abs(b.x1 - lo(...ex)) <= pad && Math.abs(b.x2 - hi(...ex)) <= pad && Math.abs(b.y1 - lo(...ey)) <= pad && Math.abs(b.y2 - hi(...ey)) <= pad,
              () => `${tag}: rect bounds [${b.x1},${b.y1},${b.x2},${b.y2}] but channels denote x ${ex} y ${ey}`);
          }
        }
      });
      const live = new Set(mark.elements);
      calls.forEach(([d, el, p]) => {
        env.check(el && el.mark === mark && live.has(el), `${tag}: an encoder callback received an element that is not shown by the mark`);
        env.check(d === undefined || rows.some(x => x.k === (Array.isArray(d) ? d[0] : d).k), `${tag}: an encoder callback received a datum that is not in the data`);
      });
      env.obs('encoder callbacks', calls.length);
    };
    await step('first run');
    for (let i = 0; i < c.ops.length; i++) {
      const op = c.ops[i];
      if (op.op === 'data') { rows = clone(op.rows); view.getDataById('d').values(clone(rows)); }
      else if (op.op === 'sig') { sig[op.s] = op.v; view.getSignalById(op.s).value(op.v); }
      else if (op.op === 'enc') { const s = op.state || 'update'; if (E.isSetFn(sets[s])) sets[s] = {}; (sets[s] = sets[s] || {})[op.ch] = op.e; if (s === 'update') mark.encode(op.ch, E.toEnc(op.e, probe)); else { mark.encodeState(s, op.ch, E.toEnc(op.e, probe)); if (s === 'enter') reenter = true; } }
      else if (op.op === 'set') { const s = op.state; sets[s] = E.isSetFn(sets[s]) || op.clear || E.isSetFn(op.set) ? op.set : Object.assign({}, sets[s], op.set); mark.encodeState(s, E.toSet(op.set, probe), !!op.clear); if (s === 'enter') reenter = true; }
      await step(`after op ${i} (${op.op})`);
    }
  });
}
function genPlain(r) {
  const type = r.pick(Object.keys(E.TYPES));
  const sets = { update: E.genSet(r, type, 0.6) };
  if (r.bool(0.15)) sets.update = { $fn: E.genSet(r, type, 0.6) };
  if (sets.update.$fn) for (const k of Object.keys(sets.update.$fn)) { const e = sets.update.$fn[k]; if (e.t === 'sig' || e.t === 'cb') sets.update.$fn[k] = { t: 'const', v: 3 }; }
  if (r.bool(0.5)) sets.enter = E.genSet(r, type, 0.4);
  let groupBy;
  if (r.bool(0.3)) { groupBy = r.pick(['g', undefined]); sets.group = E.genSet(r, type, 0.3); }
  const ops = r.times(r.int(1, 4), () => r.wpick([
    [3, () => ({ op: 'data', rows: E.genRows(r) })],
    [2, () => { const s = r.pick(['s0', 's1', 'sc']); return { op: 'sig', s, v: s === 'sc' ? r.pick(E.COLORS) : r.int(0, 60) }; }],
    [2, () => { const T = E.TYPES[type]; const n = r.bool(0.7); return { op: 'enc', state: r.pick(['update', 'update', 'enter']), ch: r.pick(n ? T.n : T.c), e: n ? E.genNumEnc(r) : E.genColEnc(r) }; }],
    [1, () => ({ op: 'set', state: r.pick(['update', 'enter']), set: E.genSet(r, type, 0.4), clear: r.bool(0.4) })]])());
  // shape and symbolType name one attribute: one of them per case
  if (type === 'symbol') { const drop = r.pick(['shape', 'symbolType']); [sets.update, sets.update.$fn, sets.enter, sets.group, ...ops.map(o => o.set)].forEach(s => s && delete s[drop]); }
  if (type === 'rect3d') {
    const drop = r.bool() ? ['width', 'height', 'length'] : ['x1', 'y1', 'z1'];
    const all = [sets.update, sets.update.$fn, sets.enter, sets.group, ...ops.map(o => o.set)];
    all.forEach(s => s && drop.forEach(k => delete s[k]));
    for (let i = ops.length - 1; i >= 0; i--) if (drop.includes(ops[i].ch)) ops.splice(i, 1);
    ['x', 'y', 'z'].forEach(k => { (sets.update.$fn || sets.update)[k] = { t: 'const', v: r.int(0, 50) }; });
  }
  // a channel both of the group and of the enter set has no single declared value over time
  if (sets.group) {
    [sets.enter, ...ops.filter(o => o.op === 'set' && o.state === 'enter').map(o => o.set)].forEach(s => s && Object.keys(sets.group).forEach(k => delete s[k]));
    for (let i = ops.length - 1; i >= 0; i--) if (ops[i].op === 'enc' && ops[i].state === 'enter' && ops[i].ch in sets.group) ops.splice(i, 1);
  }
  const c = { type, sets, groupBy, rows: E.genRows(r, 1), ops };
  if (type !== 'arc' && type !== 'rect3d' && r.bool(0.15) && !sets.update.$fn && !sets.enter && !sets.group) {
    // in a coordinate the point channels are converted: x and y always declared, always numbers
    if (sets.update.x1 === undefined && sets.update.y1 === undefined && type !== 'rule') {
      sets.update.x = E.genNumEnc(r, true); sets.update.y = E.genNumEnc(r, true);
      c.coord = [r.int(-20, 40), r.int(-20, 40)];
      c.ops = c.ops.filter(o => o.op !== 'enc' && o.op !== 'set');
    }
  }
  return c;
}

// ---------- lines and areas
const POS = ['x', 'y', 'x1', 'y1', 'defined'];
function refLine(c, rows, sets, sig, groupDef) {
  const pts = rows.map(d => {
    const ch = Object.assign({}, sets.enter ? E.valueSet(sets.enter, d, sig) : {}, E.valueSet(sets.update, d, sig));
    return { ch, key: d.k };
  });
  const P = pts.map(({ ch }) => {
    const o = { x: ch.x, y: ch.y };
    if (c.type === 'area') { o.x1 = ch.x1; o.y1 = ch.y1; }
    if (groupDef !== undefined) o.defined = groupDef; else if (ch.defined !== undefined) o.defined = ch.defined;
    return o;
  });
  const style = ch => { const o = {}; for (const k of Object.keys(ch)) if (!POS.includes(k)) o[k] = ch[k]; if ('fillOpacity' in o && (o.fillOpacity === undefined || o.fillOpacity === null)) o.fillOpacity = 1; return o; };
  const keys = c.type === 'area' ? ['fill', 'fillOpacity', 'stroke', 'strokeOpacity', 'lineWidth', 'lineDash'] : ['stroke', 'strokeOpacity', 'lineWidth', 'lineDash'];
  const cut = list => { // maximal runs of equal style; list of indices
    const segs = [];
    list.forEach(i => {
      const st = style(pts[i].ch);
      const cur = segs[segs.length - 1];
      if (cur && keys.every(k => V.same(cur.style[k], st[k]) || (cur.style[k] === undefined && st[k] === undefined))) cur.idx.push(i);
      else segs.push({ style: st, idx: [i] });
    });
    return segs;
  };
  return { P, style, cut, pts };
}
async function runLine(c, env) {
  await V.withView({}, async view => {
    let rows = clone(c.rows);
    const sig = E.declare(view, clone(rows));
    const mark = view.mark(c.type, view.rootMark).id('m');
    mark.join('d', 'k', undefined, 'g');
    if (c.enableSegments) mark.configure({ enableSegments: true });
    const sets = clone(c.sets);
    for (const st of Object.keys(sets)) mark.encodeState(st, E.toSet(sets[st]));
    const step = async tag => {
      await view.run();
      const groups = new Map();
      rows.forEach(d => { if (!groups.has(d.g)) groups.set(d.g, []); groups.get(d.g).push(d); });
      env.check(mark.elements.length === groups.size, `${tag}: ${mark.elements.length} elements for ${groups.size} groups`);
      mark.elements.forEach(el => {
        const rs = groups.get(el.groupKey);
        env.check(!!rs, `${tag}: element of unknown group ${el.groupKey}`);
        const ga = sets.group ? E.valueSet(sets.group, rs[0], sig) : {};
        const ref = refLine(c, rs, sets, sig, ga.defined === undefined || ga.defined === null ? undefined : ga.defined);
        const A = el.getGraphicItem().attribute;
        const pick = p => { const o = { x: p.x, y: p.y }; if (c.type === 'area') { o.x1 = p.x1; o.y1 = p.y1; } if (p.defined !== undefined && p.defined !== null) o.defined = p.defined; return o; };
        const eqPts = (got, exp, what) => {
          const g = V.norm((got || []).map(pick)), x = V.norm(exp);
          const d = V.diff(g, x);
          env.obs('points compared', x.length);
          env.check(!d, () => `${tag}: ${what} of ${c.type} ${el.groupKey} (graphic vs declared) ${d}`);
        };
        const first = ref.style(ref.pts[0].ch);
        const styleNow = { ...first, ...ga }; delete styleNow.defined;
        const chkStyle = (got, exp, what, skip) => {
          for (const k of Object.keys(exp)) { if (skip && skip.includes(k)) continue; env.check(V.same(got[k], exp[k]), () => `${tag}: ${what} ${k} is ${JSON.stringify(got[k])}, declared ${JSON.stringify(exp[k])}`); }
        };
        if (sets.connectNulls) {
          const defd = ref.P.map(p => p.defined !== false);
          const runs = [];
          let cur = null;
          defd.forEach((ok, i) => { if (ok) { if (!cur) runs.push(cur = []); cur.push(i); } else cur = null; });
          eqPts(A.points, ref.P, 'points');
          // reference: consecutive defined runs joined by connecting segments from last to first point
          const segs = A.segments || [];
          const conn = segs.filter(x => x.isConnect);
          // a leading gap may carry an (empty) connector in front of the first run
          const lead = !defd[0] && runs.length && conn.length && V.same(pick(conn[0].points[0]), ref.P[runs[0][0]]) ? 1 : 0;
          if (runs.length >= 2) {
            env.obs('connected gaps', runs.length - 1);
            env.check(conn.length - lead === runs.length - 1, () => `${tag}: ${conn.length} connecting segments for ${runs.length} defined runs`);
            conn.slice(lead).forEach((x, i) => env.check(V.same(pick(x.points[x.points.length - 1]), ref.P[runs[i + 1][0]]), () => `${tag}: connecting segment ${i} ends at ${JSON.stringify(x.points)}, the next run starts at ${JSON.stringify(ref.P[runs[i + 1][0]])}`));
            eqPts(segs.reduce((q, x) => q.concat(x.points), []), runs.reduce((q, x) => q.concat(x), []).map(i => ref.P[i]), 'segment points');
            const cs = E.valueSet(sets.connectNulls, rs[0], sig);
            conn.forEach(x => chkStyle(x, cs, 'connecting segment'));
          } else env.check(conn.length === lead, `${tag}: a line without gaps has connecting segments`);
        } else if (c.enableSegments) {
          const segs = ref.cut(ref.P.map((p, i) => i));
          if (segs.length >= 2) {
            env.obs('segmented lines');
            env.saw('segment layouts', segs.map(s => s.idx.length).join(','));
            env.check(!!A.segments && A.segments.length === segs.length, () => `${tag}: ${A.segments && A.segments.length} segments, styles change into ${segs.length}`);
            env.check(!A.points, `${tag}: a segmented ${c.type} still has whole-line points`);
            segs.forEach((s, i) => { eqPts(A.segments[i].points, s.idx.map(j => ref.P[j]), 'segment points'); chkStyle(A.segments[i], s.style, 'segment ' + i); });
          } else { env.check(!A.segments, `${tag}: one style but ${A.segments && A.segments.length} segments`); eqPts(A.points, ref.P, 'points'); chkStyle(A, styleNow, c.type + ' attribute'); }
        } else {
          env.check(!A.segments, `${tag}: segments without enableSegments`);
          eqPts(A.points, ref.P, 'points');
          chkStyle(A, styleNow, c.type + ' attribute');
          env.check(ref.pts.every((p, i) => A.points[i].context === p.key), `${tag}: point contexts are not the row keys`);
        }
      });
    };
    await step('first run');
    for (let i = 0; i < c.ops.length; i++) {
      const op = c.ops[i];
      if (op.op === 'data') { rows = clone(op.rows); view.getDataById('d').values(clone(rows)); }
      else if (op.op === 'sig') { sig[op.s] = op.v; view.getSignalById(op.s).value(op.v); }
      else if (op.op === 'enc') { sets.update[op.ch] = op.e; mark.encode(op.ch, E.toEnc(op.e)); }
      await step(`after op ${i} (${op.op})`);
    }
  });
}
function genLine(r) {
  const type = r.pick(['line', 'area']);
  const u = { x: E.genNumEnc(r, true), y: E.genNumEnc(r, true) };
  if (type === 'area') { u.y1 = E.genNumEnc(r, true); if (r.bool(0.3)) u.x1 = E.genNumEnc(r, true); }
  if (r.bool(0.6)) u.stroke = E.genColEnc(r);
  if (type === 'area' && r.bool(0.7)) u.fill = E.genColEnc(r);
  if (r.bool(0.3)) u.lineWidth = E.genNumEnc(r, true);
  const sets = { update: u };
  const c = { type, sets, enableSegments: r.bool(0.4), rows: E.genRows(r, 1, 8), ops: [] };
  if (r.bool(0.3)) sets.enter = { strokeOpacity: { t: 'const', v: 0.5 }, ...(r.bool() ? { y: E.genNumEnc(r, true) } : {}) };
  if (c.enableSegments) delete sets.enter;
  if (r.bool(0.3)) { u.defined = { t: 'field', f: 'def' }; c.def = true; }
  if (r.bool(0.2) && c.def) { sets.connectNulls = { stroke: { t: 'const', v: 'black' }, lineDash: { t: 'const', v: [2, 2] } }; c.plainConnect = true; }
  if (!c.enableSegments && !sets.connectNulls && r.bool(0.3)) { sets.group = { stroke: { t: 'scale', scale: 'ord', field: 'c' } }; if (r.bool(0.4)) sets.group.lineWidth = E.genNumEnc(r, true); if (r.bool(0.2)) sets.group.defined = { t: 'const', v: r.bool() }; }
  const fix = rows => { if (c.def) rows.forEach(d => { d.def = r.bool(0.7); }); return rows; };
  fix(c.rows);
  c.ops = r.times(r.int(0, 3), () => r.wpick([
    [3, () => ({ op: 'data', rows: fix(E.genRows(r, 0, 8)) })],
    [2, () => ({ op: 'sig', s: r.pick(['s0', 's1']), v: r.int(0, 60) })],
    [1, () => ({ op: 'enc', ch: r.pick(['x', 'y']), e: E.genNumEnc(r, true) })]])());
  return c;
}

module.exports = {
  rule: 'One case is a mark of some type with random encoders (constants, fields, nested fields, scaled fields and values with band and offset, signals, callbacks, whole-encoder functions; enter, update and group sets) and a history of data, signal and encoder changes. After every run each graphic is compared with a reference interpreter of the encoders. Cases are distinct by their JSON.',
  assumptions: ['third-party scales (vscale) built independently from the same literal declaration are the reference for scaled values', 'an encoder that is removed keeps its last value on existing elements'],
  quickSeconds: 70,
  mustObserve: ['channels compared', 'rectangle bounds compared', 'points compared', 'segmented lines', 'connected gaps', 'encoder callbacks'],
  scenarios: [
    { name: 'plain', weight: 4, quick: 3500, gen: genPlain, run: runPlain },
    { name: 'lines', weight: 3, quick: 2500, gen: genLine, run: runLine },
  ]
};
