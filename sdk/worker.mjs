// worker.mjs BUNDLE SCENARIO SEED ROOT: one scenario in a process of its own; the last line of stdout is its result.
import { createRequire } from 'node:module';
import { rng, scaleTime, Fail, rt } from './lib.mjs';
import * as scn from './scenarios.mjs';
const [, , bundle, name, seed, root, thorough] = process.argv;
const fast = ['faults', 'pushes'].includes(name);
if (fast) scaleTime(20);
let worst = 0, last = rt.now();
rt.setInterval(() => { const n = rt.now(); worst = Math.max(worst, n - last - 20); last = n; }, 20).unref();
const done = (o) => { process.stdout.write('\n' + JSON.stringify({ ...o, stall: worst }) + '\n', () => process.exit(0)); };
process.on('uncaughtException', e => done({ kind: 'crash', msg: `an exception escapes the client and ends the process: ${e && e.stack}` }));
process.on('unhandledRejection', e => done(e instanceof Fail ? { kind: e.kind, msg: e.message } : { kind: 'crash', msg: `a rejection nobody can handle ends the process: ${e && e.stack}` }));
const r = rng(seed);
const sdk = createRequire(import.meta.url)(bundle);
try {
  const obs = await scn[name](r, sdk, { root, thorough: thorough === '1' });
  done({ kind: 'ok', obs });
} catch (e) {
  // an error the scenario did not expect comes from the client as well
  done(e instanceof Fail ? { kind: e.kind, msg: e.message } : { kind: 'error', msg: `unexpected: ${e && e.stack}` });
}
