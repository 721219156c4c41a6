'use strict';
// setup: nothing to build (every check bundles /repo itself); verify the toolchain is reachable.
const path = require('path'), os = require('os'), fs = require('fs');
const { bundle } = require('./bundle.cjs');
const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'vgsetup-'));
bundle(path.join(dir, 'vg.cjs')).then(() => { console.log('setup ok, node ' + process.version); fs.rmSync(dir, { recursive: true, force: true }); },
  e => { console.error(e); process.exit(1); });
