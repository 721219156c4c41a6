'use strict';
const path = require('path'), fs = require('fs');
const esbuild = require('/opt/veriftools/node/node_modules/esbuild');
const [, , ROOT, out] = process.argv;
const al = {};
for (const p of fs.readdirSync(path.join(ROOT, 'packages'))) {
  const f = path.join(ROOT, 'packages', p, 'src', 'index.ts');
  if (fs.existsSync(f)) al['@visactor/' + p] = f;
}
const core = path.join(ROOT, 'packages/vgrammar-core/src');
const entry = Object.keys(al).filter(k => k !== '@visactor/vgrammar').map(k => `export * as ${k.replace('@visactor/', '').replace(/-/g, '_')} from '${k}';`).join('\n') + `\nexport * as vrender from '@visactor/vrender-core';`;
esbuild.build({
  stdin: { contents: entry, resolveDir: core, loader: 'js' }, bundle: true, platform: 'node', target: 'node16', format: 'cjs', outfile: out, logLevel: 'error', mainFields: ['module', 'main'],
  define: { __VERSION__: '"0"', __DEV__: 'true' }, external: ['canvas', 'jsdom'],
  tsconfigRaw: { compilerOptions: { useDefineForClassFields: false, experimentalDecorators: true, importsNotUsedAsValues: 'remove' } },
  plugins: [{ name: 'src', setup(b) {
    b.onResolve({ filter: /^@visactor\/vgrammar/ }, a => (al[a.path] ? { path: al[a.path] } : undefined));
    b.onResolve({ filter: /^@visactor\// }, async a => {
      if (a.pluginData === 'done' || /vgrammar/.test(a.path)) return undefined;
      const r = await b.resolve(a.path, { resolveDir: core, kind: a.kind, importer: a.importer, pluginData: 'done' });
      return r.errors.length ? undefined : { path: r.path };
    });
  } }]
}).catch(e => { console.error(e.message); process.exit(2); });
