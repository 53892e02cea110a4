// Bundles the SDK of the working tree and starts servers, in a scratch directory that is removed at the end.
import fs from 'node:fs'; import os from 'node:os'; import path from 'node:path'; import net from 'node:net';
import { spawn } from 'node:child_process'; import { createRequire } from 'node:module';
const require = createRequire(import.meta.url);
export const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'nexo-demo-'));
const kids = [];
process.on('exit', () => { for (const k of kids) try { k.kill('SIGKILL'); } catch {} fs.rmSync(dir, { recursive: true, force: true }); });
require('/opt/veriftools/node/node_modules/esbuild').buildSync({ entryPoints: [process.cwd() + '/sdk/ts/src/index.ts'], bundle: true, platform: 'node', format: 'cjs', outfile: dir + '/nexo.cjs', logLevel: 'error', tsconfigRaw: '{}' });
export const { NexoClient } = require(dir + '/nexo.cjs');
export const sleep = ms => new Promise(r => setTimeout(r, ms));
const port = () => new Promise(r => { const s = net.createServer().listen(0, '127.0.0.1', () => { const p = s.address().port; s.close(() => r(p)); }); });
export async function server(env = {}) {
  const tcp = await port(), http = await port();
  const k = spawn(process.cwd() + '/target/debug/nexo', [], { cwd: dir, stdio: 'ignore', env: { ...process.env, NEXO_LOG: 'error', SERVER_HOST: '127.0.0.1', SERVER_SOCKET_TCP_PORT: String(tcp), SERVER_DASHBOARD_HTTP_PORT: String(http), QUEUE_ROOT_PERSISTENCE_PATH: dir + '/q', STREAM_ROOT_PERSISTENCE_PATH: dir + '/s', PUBSUB_ROOT_PERSISTENCE_PATH: dir + '/p', ...env } });
  kids.push(k);
  for (let i = 0; ; i++) {
    const ok = await new Promise(r => { const c = net.connect(tcp, '127.0.0.1', () => { c.destroy(); r(true); }); c.on('error', () => r(false)); });
    if (ok) return tcp;
    if (i > 500) throw new Error('server does not start');
    await sleep(20);
  }
}
export const client = p => NexoClient.connect({ host: '127.0.0.1', port: p, logLevel: 'NONE' });
export function expect(c, what) { if (!c) { console.log('FAIL: ' + what); process.exit(1); } }
