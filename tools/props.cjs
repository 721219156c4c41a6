'use strict';
// Single source of properties.jsonl and MANIFEST.json:  node tools/props.cjs
const fs = require('fs');
const path = require('path');
const ROOT = path.resolve(__dirname, '..');
const c = p => 'packages/vgrammar-core/src/' + p;
const P = [];
const prop = (id, title, statement, over, text, why, files, mechanism, observe_at, technique, level_note) =>
  P.push({ id, title, statement, over, text, why, files, mechanism, observe_at, technique, level_note });

prop('C01', 'Incremental updates equal a rebuild from scratch',
  'After any history of edits (signal values and formulas, data values, sources and transforms, scale domains, ranges and configuration, coordinates, encodings, joins, sizes) each followed by a run, every signal, data set, scale and mark element a user can read equals what a brand-new view built from the current declarations shows. No edit leaves a stale value behind, and no edit disturbs declarations it does not touch.',
  ['histories', 'configurations'], 'all view declarations x all finite sequences of edits and runs',
  'The tests evaluate a grammar once with a mocked view; staleness needs a second evaluation after a particular edit history, over a dependency graph of several grammars.',
  [c('view/dataflow.ts'), c('view/grammar-base.ts'), c('view/View.ts'), c('view/mark.ts'), c('view/scale.ts'), c('view/data.ts'), c('view/signal.ts'), c('graph/element.ts'), c('parse/scale.ts')],
  [{ name: 'commit/reference tracking and rank-ordered propagation', where: c('view/dataflow.ts') }, { name: 'dependency attach/detach', where: c('view/grammar-base.ts') }],
  ['grammar outputs', 'graphic attributes of every element'],
  'runtime monitor: live view compared with a freshly built reference view after every edit history', 'random models and edit histories; the oracle is a second real view built from the edited declarations');

module.exports = { P };
require('./props-more.cjs');

function emit() {
  const lines = P.map(p => JSON.stringify({ id: p.id, title: p.title, statement: p.statement, quantifier: { over: p.over, text: p.text }, why_tests_cant: p.why, anchors: { files: p.files, mechanism: p.mechanism, observe_at: p.observe_at } }));
  fs.writeFileSync(path.join(ROOT, 'properties.jsonl'), lines.join('\n') + '\n');
  const checks = [], na = [];
  for (const p of P) {
    if (p.title.length > 80) throw new Error('title too long ' + p.id);
    for (const f of p.files) if (!fs.existsSync('/repo/' + f)) throw new Error('missing anchor ' + f);
    if (fs.existsSync(path.join(ROOT, 'checks', p.id.toLowerCase() + '.cjs'))) {
      checks.push({ property: p.id, quick_cmd: `./check.sh ${p.id}`, thorough_cmd: `VERIF_TIER=thorough ./check.sh ${p.id}`, evidence_file: `evidence/${p.id}.json`, technique: p.technique, level: 'exploration', level_note: p.level_note });
    } else na.push({ property: p.id, reason: p.na || 'runtime monitoring applies; its monitor is not built yet, so nothing is claimed' });
  }
  const man = { version: 1, setup_cmd: './check.sh --setup', checks, not_applicable: na, notes: 'No hooks in /repo: the monitors observe through public API, HOOK_EVENT notifications and interposition from /verif (see DESIGN.md).' };
  fs.writeFileSync(path.join(ROOT, 'MANIFEST.json'), JSON.stringify(man, null, 1) + '\n');
}
if (require.main === module) emit();
