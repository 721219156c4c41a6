'use strict';
// Bundles /repo/packages/*/src (current working tree) into one CommonJS file.
const path = require('path');
const fs = require('fs');
const esbuild = require('/opt/veriftools/node/node_modules/esbuild');
const REPO = process.env.VG_REPO || '/repo';

function aliases() {
  const out = {};
  for (const p of fs.readdirSync(path.join(REPO, 'packages'))) {
    const idx = path.join(REPO, 'packages', p, 'src', 'index.ts');
    if (fs.existsSync(idx)) out['@visactor/' + p] = idx;
  }
  return out;
}

function repoPlugin() {
  const al = aliases();
  const ctxDir = path.join(REPO, 'packages', 'vgrammar-core', 'src');
  return {
    name: 'repo-src',
    setup(build) {
      build.onResolve({ filter: /^@visactor\/vgrammar/ }, args => {
        if (al[args.path]) return { path: al[args.path] };
        return undefined;
      });
      build.onResolve({ filter: /^@visactor\// }, async args => {
        if (args.pluginData === 'done' || al[args.path] || /vgrammar/.test(args.path)) return undefined;
        // one copy of every third-party @visactor package: resolve from vgrammar-core
        const r = await build.resolve(args.path, { resolveDir: ctxDir, kind: args.kind, importer: args.importer, pluginData: 'done' });
        return r.errors && r.errors.length ? undefined : { path: r.path, sideEffects: r.sideEffects };
      });
    }
  };
}

async function bundle(outfile, entry = path.join(__dirname, 'entry.js')) {
  await esbuild.build({
    entryPoints: [entry],
    bundle: true,
    platform: 'node',
    target: 'node16',
    format: 'cjs',
    outfile,
    sourcemap: false,
    logLevel: 'error',
    mainFields: ['module', 'main'],
    define: { __VERSION__: '"0.0.0"', __DEV__: 'true' },
    tsconfigRaw: { compilerOptions: { useDefineForClassFields: false, experimentalDecorators: true, importsNotUsedAsValues: 'remove' } },
    external: ['canvas', 'jsdom'],
    plugins: [repoPlugin()]
  });
  return outfile;
}
module.exports = { bundle, REPO };
if (require.main === module) bundle(process.argv[2]).catch(e => { console.error(e.message); process.exit(3); });
