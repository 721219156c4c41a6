'use strict';
// Incremental = from scratch: after any history of edits and runs, everything a user can observe equals
// what a fresh view built from the current declarations shows.
const V = require('../lib/view.cjs');
const M = require('../lib/model.cjs');

async function run(c, env) {
  const model = M.clone(c.model);
  await V.withView({ width: model.w, height: model.h, padding: model.padding }, async view => {
    view.parseSpec(M.toSpec(model));
    view.run();
    const compare = async (when) => {
      const live = M.snapshot(V, view, model);
      const spec = M.toSpec(model);
      const fresh = await V.withView({ width: model.w, height: model.h, padding: model.padding }, async f => {
        f.parseSpec(spec); f.run();
        return M.snapshot(V, f, model);
      });
      const n = Object.values(live.marks).reduce((a, m) => a + m.length, 0);
      env.obs('elements compared', n);
      env.obs('scales compared', Object.keys(live.scales).length);
      env.obs('comparisons with a fresh view');
      env.saw('final states', JSON.stringify(live.signals) + n);
      const d = V.diff(live, fresh);
      env.check(!d, () => `live view differs from a fresh view of the same declarations (live vs fresh) ${d}`, { when });
    };
    for (let i = 0; i < c.steps.length; i++) {
      for (const e of c.steps[i]) {
        M.editModel(model, e);
        M.editView(view, model, e);
        env.obs('edits applied');
        env.saw('edit kinds', e.op);
      }
      view.run({ reuse: false });
      await compare(`after step ${i}: ${JSON.stringify(c.steps[i])}`);
    }
  });
}
module.exports = {
  rule: 'a case is one random view (signals, data, scales, coordinates, marks) plus a random edit history; distinct by content, all histories contain at least one edit followed by a run',
  assumptions: ['encoder callbacks are pure functions of datum and declared dependencies', 'every channel that was ever set stays set (removing an encoder does not erase the attribute it last wrote)'],
  mustObserve: ['comparisons with a fresh view', 'elements compared', 'edits applied'],
  scenarios: [{
    name: 'edit-history', quick: 1600, thorough: 40000, weight: 1,
    gen(r) {
      const model = M.genModel(r);
      const m = M.clone(model);
      const steps = r.times(r.int(2, 6), () => r.times(r.wpick([[5, 1], [3, 2], [2, r.int(3, 6)]]), () => { const e = M.genEdit(r, m); M.editModel(m, e); return e; }));
      return { model, steps };
    },
    run
  }]
};
