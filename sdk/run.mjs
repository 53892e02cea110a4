// run.mjs <property> [--only scenario seed]: bundle the SDK of the working tree, run seeded scenarios in processes of their own, judge and report.
import fs from 'node:fs';
import path from 'node:path';
import crypto from 'node:crypto';
import { spawn } from 'node:child_process';
import { createRequire } from 'node:module';
const V = process.env.VERIF_ROOT, REPO = process.env.NEXO_REPO || '/repo';
const require = createRequire(import.meta.url);
const SETS = {
  C20: { scenarios: [['routing', 4], ['faults', 5], ['pushes', 3], ['roundtrip', 4]], quick: 45, thorough: 400,
    rule: '(routing) against a server under the monitor\'s control, hundreds of outstanding requests of every kind are answered in any order, in pieces of any size, with data, absence or errors, between pushed messages, unknown frames and unasked answers, also around the wrap of the request ids: each promise must settle exactly with the answer to its own request. (faults) connections are lost (closed, reset, half a frame), given up by the client, or answers come too late, at random moments in scaled time: everything outstanding must settle, what was answered resolves, the client comes back with exactly its subscriptions, or stays away once disconnected. (pushes) random patterns and topics, undecodable messages, refused and repeated subscriptions, throwing callbacks: each callback must get exactly the messages that match, in order. (roundtrip) generated values of every type through store, queues, dead letters, streams, pub/sub and retained values of the real server must come back equal in type and content. One evaluation = one scenario run in a process of its own; distinct by what it observed.',
    assumptions: ['JSON values are equal to what JSON itself preserves of them; strings are well-formed Unicode', 'exists() reports false for an error answer of the server', 'how an undecodable message of a foreign client is delivered is unspecified, but it may not affect anything else'] },
  C21: { scenarios: [['queue_consumers', 4], ['stream_consumers', 4], ['handover', 2]], quick: 45, thorough: 400,
    rule: 'SDK consumers on queues and streams of the real server, behind a proxy that cuts connections and splits the byte stream, with callbacks that are slow, throw or reject, subscriptions stopped and restarted, handed over between consumers while they rejoin, groups seeked: every message must be processed, in order where promised, never more at a time than asked, none after stop() resolved; exactly once and with exactly predicted retries and dead letters where nothing is lost; and what the server has marked as done, failed or dead must agree with what the callbacks did. One evaluation = one scenario run in a process of its own; distinct by what it observed.',
    assumptions: ['delivery is at least once: messages in progress when a connection breaks or a stream subscription stops may be processed again'] },
};
const args = process.argv.slice(2), prop = args[0], set = SETS[prop];
const tier = process.env.VERIF_TIER === 'thorough' || args.includes('--thorough') ? 'thorough' : 'quick';
const seed0 = parseInt(process.env.VERIF_SEED || '1', 10) || 1;
const secs = parseFloat(process.env.MON_SECS || String(set[tier])), par = parseInt(process.env.MON_PAR || '6', 10);
const start = Date.now();
const bundle = path.join(V, 'target', 'sdk', `nexo-${process.pid}.cjs`);
fs.mkdirSync(path.dirname(bundle), { recursive: true });
for (const f of fs.readdirSync(path.dirname(bundle))) { const m = /^nexo-(\d+)\.cjs$/.exec(f); if (m && !fs.existsSync('/proc/' + m[1])) fs.rmSync(path.join(path.dirname(bundle), f)); }
try {
  require('/opt/veriftools/node/node_modules/esbuild').buildSync({ entryPoints: [REPO + '/sdk/ts/src/index.ts'], bundle: true, platform: 'node', format: 'cjs', outfile: bundle, logLevel: 'error', tsconfigRaw: '{}' });
} catch (e) { console.error('the SDK does not build: ' + e.message); process.exit(2); }
for (const d of fs.readdirSync('/tmp')) { const m = /^nexo-sdk-(\d+)$/.exec(d); if (m && !fs.existsSync('/proc/' + m[1])) fs.rmSync('/tmp/' + d, { recursive: true, force: true }); }
const root = `/tmp/nexo-sdk-${process.pid}`;
fs.mkdirSync(root, { recursive: true }); fs.chmodSync(root, 0o755);
fs.copyFileSync(process.env.NEXO_BIN || path.join(V, 'target/server/debug/nexo'), root + '/nexo'); fs.chmodSync(root + '/nexo', 0o755);
const children = new Set();
const clean = () => { for (const c of children) try { process.kill(-c.pid, 'SIGKILL'); } catch {} fs.rmSync(root, { recursive: true, force: true }); fs.rmSync(bundle, { force: true }); };
for (const s of ['SIGINT', 'SIGTERM']) process.on(s, () => { clean(); process.exit(2); });

const known = (() => { try { return fs.readFileSync(V + '/known_findings.txt', 'utf8').split('\n').filter(l => l.startsWith(`known: property=${prop} `)).map(l => { const m = /^known: property=\S+ kind=(\S+) match="(.*?)" (.*)$/.exec(l); return m && { kind: m[1], match: m[2], text: m[3], n: 0 }; }).filter(Boolean); } catch { return []; } })();

function one(name, seed) {
  return new Promise(res => {
    const p = spawn(process.execPath, ['--enable-source-maps', path.join(V, 'sdk/worker.mjs'), bundle, name, String(seed), root, tier === 'thorough' ? '1' : '0'], { stdio: ['ignore', 'pipe', 'pipe'], detached: true });
    children.add(p);
    let out = '', err = '';
    p.stdout.on('data', d => out += d);
    p.stderr.on('data', d => { err = (err + d).slice(-3000); });
    const t = setTimeout(() => { try { process.kill(-p.pid, 'SIGKILL'); } catch {} out = JSON.stringify({ kind: 'hang', msg: 'the scenario does not end within 200 s' }); }, 200000);
    p.on('close', (code, sig) => {
      clearTimeout(t); children.delete(p);
      try { process.kill(-p.pid, 'SIGKILL'); } catch {}
      let v;
      try { v = JSON.parse(out.trim().split('\n').pop()); } catch { v = { kind: 'crash', msg: `the process ends (${code ?? sig}): ${err.slice(-1500)}` }; }
      res(v);
    });
  });
}
const rep = { evals: 0, distinct: new Set(), counts: {}, samples: [], violations: [] };
const count = (k, n) => { rep.counts[k] = (rep.counts[k] || 0) + n; };
let stop = false;
async function job(name, seed) {
  let v = await one(name, seed);
  // what only a starved process shows is not the client's doing; neither is what the server of a scenario does
  for (let i = 0; i < 3 && (v.kind === 'inconclusive' || v.kind !== 'ok' && (v.stall || 0) > 2000); i++) { count('repeated_after_stall', 1); v = await one(name, seed); }
  count('runs_' + name, 1);
  if (v.kind === 'ok') {
    rep.evals++;
    for (const [k, n] of Object.entries(v.obs)) count(k, n);
    rep.distinct.add(crypto.createHash('sha1').update(name + JSON.stringify(v.obs)).digest('hex'));
    if (rep.samples.length < 8 && rep.evals % 5 === 1) rep.samples.push({ scenario: name, seed, observed: v.obs });
    return;
  }
  if (v.kind === 'inconclusive') { count('inconclusive', 1); if (process.env.MON_V) console.error('inconclusive', name, seed, v.msg); return; }
  const k = known.find(k => k.kind === v.kind && v.msg.includes(k.match));
  if (k) { k.n++; count('known_findings_met', 1); return; }
  rep.violations.push({ name, seed, ...v });
  const f = path.join(V, 'replays', `${prop}-${name}-${seed}.json`);
  fs.mkdirSync(path.dirname(f), { recursive: true });
  fs.writeFileSync(f, JSON.stringify({ property: prop, scenario: name, seed, kind: v.kind, message: v.msg, rerun: `bash check.sh ${prop} --only ${name} ${seed}` }, null, 1));
  if (rep.violations.length <= 5) { console.log(`VIOLATION property=${prop} replay=${f}`); console.log(`  ${name}/${v.kind}: ${v.msg}`); }
  if (rep.violations.length >= 3) stop = true;
}
const only = args.indexOf('--only');
if (only > 0) {
  const reps = parseInt(process.env.MON_REPS || '1', 10);
  for (let i = 0; i < reps && !stop; i++) await job(args[only + 1], args[only + 2]);
} else {
  const wheel = [];
  const max = Math.max(...set.scenarios.map(s => s[1]));
  for (let i = 0; i < max; i++) for (const [n, w] of set.scenarios) if (i < w) wheel.push(n);
  let n = 0;
  const lane = async () => { while (!stop && Date.now() - start < secs * 1000) { const i = n++; const h = crypto.createHash('sha1').update(`${seed0}/${prop}/${i}`).digest().readUInt32BE(0); await job(wheel[i % wheel.length], h); } };
  await Promise.all(Array.from({ length: par }, lane));
}
clean();
for (const k of known) if (k.n) console.log(`KNOWN-FINDING: property=${prop} ${k.text}`);
const ev = { property: prop, tier, seed: seed0, level: 'exploration', coverage: { evaluations: rep.evals, distinct_nontrivial: rep.distinct.size, rule: set.rule, samples: rep.samples, observed: rep.counts }, assumptions: set.assumptions, wall_s: (Date.now() - start) / 1000, violations: rep.violations.length };
fs.mkdirSync(V + '/evidence', { recursive: true });
fs.writeFileSync(`${V}/evidence/${prop}.json`, JSON.stringify(ev, null, 1));
console.log(`${prop} ${tier} seed=${seed0} evaluations=${rep.evals} distinct=${rep.distinct.size} violations=${rep.violations.length} wall=${ev.wall_s.toFixed(1)}`);
for (const k of Object.keys(rep.counts).sort()) console.log(`  ${k} = ${rep.counts[k]}`);
if (!rep.evals && !rep.violations.length) { console.error('nothing was evaluated'); process.exit(2); }
process.exit(rep.violations.length ? 1 : 0);
