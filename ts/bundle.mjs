// usage: node bundle.mjs <output> [repository]: bundles the client's sources with the stand-ins and the host.
import { createRequire } from 'node:module';
import { dirname, join, resolve } from 'node:path';
import { fileURLToPath } from 'node:url';
const here = dirname(fileURLToPath(import.meta.url));
const esbuild = createRequire('/opt/veriftools/node/')('/opt/veriftools/node/node_modules/esbuild');
const repo = process.argv[3] ?? '/repo';
const alias = {
  '@client': join(repo, 'ts/client/src/index.ts'),
  '@idl': join(repo, 'idl/openbook_v2.json'),
  '@coral-xyz/anchor': 'anchor.js',
  '@coral-xyz/anchor/dist/cjs/utils/bytes': 'bytes.js',
  '@coral-xyz/anchor/dist/cjs/nodewallet': 'nodewallet.js',
  '@solana/web3.js': 'web3.js',
  '@solana/spl-token': 'spl-token.js',
  'bn.js': 'bn.js',
  'big.js': 'big.js',
};
await esbuild.build({
  entryPoints: [join(here, 'host.mjs')],
  bundle: true,
  platform: 'node',
  format: 'esm',
  target: 'node22',
  outfile: process.argv[2],
  logLevel: 'error',
  tsconfigRaw: '{}',
  plugins: [
    {
      name: 'standins',
      setup(b) {
        b.onResolve({ filter: /^[^./]/ }, (a) => (alias[a.path] ? { path: resolve(here, 'stubs', alias[a.path]) } : undefined));
      },
    },
  ],
});
