// Scenarios around the bundled SDK. Each gets (r, sdk, env) and returns what it observed, or throws Fail.
import net from 'node:net';
import { rt, sleep, tick, Fail, ensure, genValue, genString, genJson, big, same, show, canon, until, settled, str, u32, any, Rd, OK, ERR, NULL, DATA, Mock, Proxy, Real, frame } from './lib.mjs';

const quiet = { logger: () => {}, logLevel: 'ERROR' };
const join = (a, n = 3) => a.slice(0, n).map(String).join('; ');
/// The server side of an SDK client for the mock: remembers, answers what the scenario decides.
const OPS = { 2: 'set', 3: 'get', 4: 'del', 0x10: 'qcreate', 0x11: 'qpush', 0x12: 'qconsume', 0x13: 'qack', 0x14: 'qexists', 0x15: 'qdelete', 0x16: 'peek', 0x17: 'move', 0x18: 'deldlq', 0x19: 'purge', 0x1a: 'qnack', 0x21: 'pub', 0x22: 'sub', 0x23: 'unsub', 0x30: 'screate', 0x31: 'spub', 0x32: 'fetch', 0x33: 'join', 0x34: 'sack', 0x35: 'sexists', 0x36: 'sdelete', 0x38: 'seek', 0x39: 'leave' };

/// Find where the client keeps its request counter by watching what changes like the ids on the wire.
function findCounter(root, before, wireBefore, wireAfter) {
  const after = numbers(root);
  for (const [p, [o, k, v]] of after) {
    const b = before.get(p);
    if (b && v - b[2] === wireAfter - wireBefore && Math.abs(v - wireAfter) <= 1) return { get: () => o[k], set: x => { o[k] = x; }, off: v - wireAfter };
  }
  return null;
}
function numbers(root) {
  const out = new Map(), seen = new Set();
  const walk = (o, p, d) => {
    if (!o || typeof o !== 'object' || seen.has(o) || d > 4 || Buffer.isBuffer(o)) return;
    seen.add(o);
    const n = o.constructor && o.constructor.name;
    if (['Socket', 'TCP', 'Timeout', 'Immediate'].includes(n)) return;
    for (const k of Object.keys(o)) {
      const v = o[k];
      if (typeof v === 'number') out.set(p + '.' + k, [o, k, v]); else walk(v, p + '.' + k, d + 1);
    }
  };
  walk(root, '', 0);
  return out;
}

/// What is wrong with the request that a call `name(...l)` with value v sent, or null. Options may be spelled out or left out where that means the same.
function request(name, key, { v, l }, rd) {
  const given = x => Object.fromEntries(Object.entries(x ?? {}).filter(([, y]) => y !== undefined && y !== null && y !== false && y !== 0).map(([k, y]) => [k, y && typeof y === 'object' ? given(y) : y]).filter(([, y]) => !(y && typeof y === 'object' && !Object.keys(y).length)));
  const options = () => {
    const t = rd.str();
    let o;
    try { o = JSON.parse(t); } catch { return `the options ${show(t)}`; }
    return same(given(o), given(l[0])) ? null : `the options ${show(t)} for ${show(l[0])}`;
  };
  const value = () => {
    const b = rd.rest();
    let g;
    try { g = b[0] === 0 ? b.subarray(1) : b[0] === 1 ? b.toString('utf8', 1) : b[0] === 2 ? JSON.parse(b.toString('utf8', 1)) : undefined; } catch { g = undefined; }
    return same(g, v.want) ? null : `the ${v.kind} ${show(v.want)} as ${show(g)}`;
  };
  const uuid = () => { const b = rd.rest(); const g = b.subarray(0, 16).toString('hex'), w = l[0].replace(/-/g, '').toLowerCase(); return b.length === 16 && g === w ? null : `the message id ${g} for ${w}`; };
  let e = null;
  if (['set', 'qpush', 'pub'].includes(name)) e = options() ?? value();
  else if (['qcreate', 'screate'].includes(name)) e = options();
  else if (name === 'spub') e = value();
  else if (name === 'move' || name === 'deldlq') e = uuid();
  else if (name === 'peek') { const a = rd.u32(), b = rd.u32(); e = a === l[0] && b === l[1] ? null : `limit ${a}, offset ${b} for ${l}`; }
  else if (name === 'seek') { const g = rd.str(), t = rd.u8(); e = g === l[0] && t === (l[1] === 'end' ? 1 : 0) ? null : `group ${show(g)} and target ${t} for ${l.map(show)}`; }
  return e && `the request of ${name} ${show(key)} carries ${e}`;
}

/// Replies in any order, pieces, statuses; every promise settles once with the answer to its own request.
export async function routing(r, sdk) {
  const obs = { requests: 0, rejected: 0, pushes: 0, wraps: 0 };
  const log = [], held = [], ids = new Map(), asked = new Map();
  let hold = true, got = 0, burst = 0, wrong = null;
  const pushes = [];
  let subReady = false;
  const mock = await new Mock(r).listen((c, q) => {
    got++;
    obs.last = q.id;
    if (q.id === 0 || q.id > 0xffffffff) wrong ??= `request id ${q.id}`;
    if (held.some(h => h.q.id === q.id && h.c === c)) wrong ??= `the id ${q.id} is used by two outstanding requests`;
    const name = OPS[q.op];
    if (!name) { wrong ??= `opcode ${q.op}`; return; }
    const rd = new Rd(q.pay);
    let status = OK, pay = Buffer.alloc(0);
    const key = name === 'pub' || name === 'sub' || name === 'unsub' || name.startsWith('s') && !['screate', 'sub', 'sack'].includes(name) || true ? rd.str() : '';
    const ask = asked.get(name + ' ' + key);
    if (ask) wrong ??= request(name, key, ask, rd);
    const want = r.below(10);
    if (name === 'get') { status = DATA; pay = any({ key, n: got }); if (want === 0) { status = NULL; pay = Buffer.alloc(0); } }
    if (name === 'move' || name === 'deldlq') { status = DATA; pay = Buffer.from([want % 2]); }
    if (name === 'peek') { status = DATA; pay = Buffer.concat([u32(want), u32(0)]); }
    if (name === 'purge') { status = DATA; pay = u32(key.length * 1000 + want); }
    if (want === 1) { status = ERR; pay = str(r.chance(200) ? '' : `no ${name} of ${key} ${genString(r)}`); }
    ids.set(name + ' ' + key, { status, pay, name, key });
    held.push({ c, q, status, pay });
    if (!hold || r.chance(300)) flush(r.range(0, 3));
  });
  const flush = n => {
    for (let i = 0; i < n && held.length; i++) {
      const j = r.chance(300) ? 0 : r.chance(300) ? held.length - 1 : r.below(held.length);
      const [h] = held.splice(j, 1);
      if (subReady && r.chance(300)) { const t = 'p/' + r.below(5), v = genValue(r); pushes.push([t, v.want]); h.c.push(t, any(v.v)); obs.pushes++; }
      if (r.chance(50)) h.c.send(frame(r.pick([4, 9, 200]), r.below(256), r.below(5), r.bytes(r.below(30))));
      if (r.chance(50)) h.c.reply(4000000000 + r.below(1000), OK, Buffer.alloc(0)); // nobody asked
      h.c.reply(h.q.id, h.status, h.pay);
    }
  };
  const c = await sdk.NexoClient.connect({ host: '127.0.0.1', port: mock.port, ...quiet });
  const seen = [];
  try {
    hold = false;
    let counter = null;
    {
      const pulse = rt.setInterval(() => flush(50), 1);
      // where are the ids kept
      await c.store.map.get('first').catch(() => {});
      const b = numbers(c), w = obs.last;
      await c.store.map.get('second').catch(() => {});
      await c.store.map.get('third').catch(() => {});
      counter = findCounter(c, b, w, obs.last);
      ids.clear();
      const ok = await (async () => { try { await c.pubsub('p/#').subscribe(d => seen.push(d)); return true; } catch { return false; } })();
      subReady = ok;
      clearInterval(pulse);
    }
    for (let round = 0; round < 4; round++) {
      hold = r.chance(500);
      if (counter && r.chance(500) && held.length === 0) {
        const edge = r.pick([0x7fffffff, 0xffffffff]);
        counter.set(edge - 1 - r.below(20) + counter.off);
        obs.wraps++;
      }
      const n = r.pick([1, 5, 40, 200]);
      // the server does not read for a while: more than the sockets hold piles up in the client
      const clog = r.chance(150);
      if (clog) for (const x of mock.live()) x.s.pause();
      if (clog) rt.setTimeout(() => { for (const x of mock.live()) x.s.resume(); }, r.range(20, 100));
      if (clog) obs.clogged = (obs.clogged || 0) + 1;
      const ps = [];
      for (let i = 0; i < n; i++) {
        const key = `${round}-${i}-${genString(r, r.chance(60))}`;
        obs.requests++;
        if (clog && i % 3 === 0) { const big = `${round}-${i}-clog`, o = settled(c.store.map.set(big, Buffer.alloc(r.range(1, 300000), i))); ps.push({ name: 'set', key: big, o }); }
        const q = c.queue(key), v = genValue(r), opt = f => r.chance(500) ? f() : undefined;
        const say = (x, ...l) => { asked.set(x, { v, l }); return l; };
        const id = r.pick(['0123456789abcdef0123456789abcdef', '01234567-89ab-cdef-0123-456789ABCDEF', 'ffffffff-0000-8000-7fff-000000000001']);
        const setOpt = opt(() => ({ ttl: r.pick([1, 5, 3600, 4294967296]) })), prio = opt(() => ({ priority: r.pick([0, 1, 5, 127, 128, 200, 255]) })), cfg = opt(() => r.pick([{ maxRetries: r.range(1, 99) }, { visibilityTimeoutMs: r.range(1, 99999) }, { maxRetries: 7, visibilityTimeoutMs: 3000000000 }])), pubOpt = opt(() => r.pick([{ retain: true }, { retain: true, ttl: 77 }, { retain: false }])), keep = opt(() => ({ retention: r.pick([{ maxAgeMs: 1e12 }, { maxBytes: 5 }, { maxAgeMs: 1, maxBytes: 2 ** 40 }]) })), to = r.pick(['beginning', 'end']), grp = 'g' + genString(r), lim = r.range(0, 70000), off = r.range(0, 70000);
        const [name, p] = r.pick([['get', () => c.store.map.get(key)], ['set', () => c.store.map.set(key, v.v, ...say('set ' + key, setOpt))], ['del', () => c.store.map.del(key)], ['qcreate', () => q.create(...say('qcreate ' + key, cfg))], ['qpush', () => q.push(v.v, ...say('qpush ' + key, prio))], ['qexists', () => q.exists()], ['move', () => q.dlq.moveToQueue(...say('move ' + key, id))], ['deldlq', () => q.dlq.delete(...say('deldlq ' + key, id))], ['purge', () => q.dlq.purge()], ['peek', () => q.dlq.peek(...say('peek ' + key, lim, off))], ['pub', () => c.pubsub(key).publish(v.v, ...say('pub ' + key, pubOpt))], ['spub', () => { say('spub ' + key); return c.stream(key).publish(v.v); }], ['screate', () => c.stream(key).create(...say('screate ' + key, keep))], ['sexists', () => c.stream(key).exists()], ['seek', () => c.stream(key).seek(...say('seek ' + key, grp, to))]]);
        let o;
        try { o = settled(p()); } catch (e) { throw new Fail('reply', `${name} threw ${e.message} instead of returning a promise`); }
        ps.push({ name, key, o });
        if (r.chance(100)) await tick();
        if (r.chance(100)) flush(2);
      }
      const end = rt.now() + 20000;
      while (ps.some(x => !x.o.done)) {
        flush(r.range(1, 20));
        if (r.chance(200)) await sleep(1); else await tick();
        if (rt.now() > end) {
          const x = ps.filter(x => !x.o.done);
          const un = x.filter(x => !ids.has(x.name + ' ' + x.key)).length;
          throw new Fail('hang', `${x.length} of ${n} requests never settle (${un} of them never reached the server, ${held.length} unanswered); first: ${x[0].name}`);
        }
      }
      ensure(!mock.bad, 'frame', mock.bad);
      ensure(!wrong, 'request', wrong);
      for (const { name, key, o } of ps) {
        const s = ids.get(name + ' ' + key);
        ensure(s, 'reply', `${name} of ${show(key)} settled as ${o.ok ? show(o.v) : o.e?.stack} but the server has not seen it`);
        const got = o.ok ? 'resolved with ' + show(o.v) : 'rejected with ' + show(o.e?.message);
        if (s.status === ERR) {
          obs.rejected++;
          if (name.endsWith('exists')) { ensure(o.ok && o.v === false, 'reply', `${name}: the server says no, it ${got}`); continue; }
          const m = s.pay.toString('utf8', 4);
          ensure(!o.ok && o.e instanceof Error && (o.e.message === m || !m), 'reply', `${name} of ${show(key)}: the server answered the error ${show(m)}, it ${got}`);
          continue;
        }
        let want;
        if (name === 'get') want = s.status === NULL ? null : JSON.parse(s.pay.toString('utf8', 1));
        else if (name.endsWith('exists')) want = true;
        else if (name === 'move' || name === 'deldlq') want = s.pay[0] === 1;
        else if (name === 'purge') want = s.pay.readUInt32BE();
        else if (name === 'peek') want = { total: s.pay.readUInt32BE(), items: [] };
        else { ensure(o.ok, 'reply', `${name} of ${show(key)}: the server accepted it, it ${got}`); continue; }
        ensure(o.ok && same(o.v, want), 'reply', `${name} of ${show(key)}: the server answered ${show(want)}, it ${got}`);
      }
    }
    await until(() => seen.length >= pushes.length, 20000);
    ensure(seen.length === pushes.length && seen.every((v, i) => same(v, pushes[i][1])), 'push', () => { const i = seen.findIndex((v, i) => !pushes[i] || !same(v, pushes[i][1])); return `${pushes.length} messages were pushed among the replies, the callback got ${seen.length}; first difference at ${i}: ${i >= 0 ? show(seen[i]) : ''}`; });
    obs.bytes = mock.conns.reduce((a, c) => a + c.outn, 0);
  } finally { c.disconnect(); await mock.close(); }
  delete obs.last;
  return obs;
}

/// Connections lost, closed and given up at any moment.
export async function faults(r, sdk) {
  const obs = { requests: 0, lost: 0, answered: 0, timeouts: 0, reconnects: 0, drops: 0 };
  const mode = r.pick(['drop', 'drop', 'drop', 'disconnect', 'disconnect', 'timeout', 'dialing']);
  obs['mode_' + mode] = 1;
  const answered = new Map(), subs = [];
  let policy = () => 'hold', held = [];
  const mock = await new Mock(r).listen((c, q) => {
    const rd = new Rd(q.pay), name = OPS[q.op], key = rd.str();
    if (name === 'sub' || name === 'unsub') { subs.push([c.n, name, key]); c.reply(q.id, OK); return; }
    const act = policy(key);
    const h = { c, q, key };
    if (act === 'hold') { held.push(h); return; }
    answer(h);
  });
  const answer = h => { answered.set(h.key, h); if (OPS[h.q.op].endsWith('exists')) h.c.reply(h.q.id, OK); else h.c.reply(h.q.id, DATA, any('value of ' + h.key)); };
  const c = await sdk.NexoClient.connect({ host: '127.0.0.1', port: mock.port, ...quiet });
  let seq = 0;
  const ask = (a = []) => { const key = 'k' + seq++; obs.requests++; const t = Date.now(); const ex = r.chance(150); const o = settled(ex ? r.pick([c.queue(key), c.stream(key)]).exists() : c.store.map.get(key)); o.key = key; o.t = t; o.want = ex ? true : 'value of ' + key; a.push(o); return o; };
  const allDone = async (a, why, ms = 15000) => {
    if (!await until(() => a.every(o => o.done), ms)) throw new Fail('hang', `${why}: ${a.filter(o => !o.done).length} of ${a.length} outstanding requests neither resolve nor reject (${a.filter(o => !o.done && answered.has(o.key)).length} of these were answered)`);
    for (const o of a) {
      if (o.ok) ensure(answered.has(o.key) && o.v === o.want, 'reply', `${o.key} resolved with ${show(o.v)}`);
      else ensure(o.e instanceof Error, 'reply', `${o.key} rejected with ${show(o.e)}`);
      o.ok ? obs.answered++ : obs.lost++;
    }
  };
  try {
    if (mode === 'drop') {
      const got = [], topics = new Map();
      const names = ['a', 'b/c', 'b/+', 'd/#', '日本', '#', 'x/+/y', 'e+'];
      for (let round = 0; round < r.range(1, 3); round++) {
        // change the subscriptions, then lose the connection with requests outstanding
        for (let i = 0; i < 3; i++) {
          const t = r.pick(names);
          if (topics.has(t)) { await c.pubsub(t).unsubscribe(); topics.delete(t); } else { const k = round * 10 + i; topics.set(t, k); await c.pubsub(t).subscribe(d => got.push([t, k, d])); }
        }
        policy = () => r.chance(400) ? 'answer' : 'hold';
        const a = [];
        for (let i = 0; i < r.range(1, 60); i++) { ask(a); if (r.chance(200)) await tick(); }
        if (r.chance(700)) await sleep(r.below(8));
        const conn = mock.live()[0];
        ensure(conn, 'inconclusive', 'no connection');
        for (let i = r.below(10); i > 0 && held.length; i--) answer(held.splice(r.below(held.length), 1)[0]);
        const how = r.pick(['kill', 'reset', 'end', 'part']);
        let must = [];
        const away = r.below(3000) / 20;
        if (r.chance(300)) { mock.accept = false; rt.setTimeout(() => { mock.accept = true; }, away); }
        if (how === 'kill') conn.kill();
        if (how === 'reset') conn.reset();
        if (how === 'end') { await conn.drained(); must = [...answered.keys()]; conn.s.end(); }
        if (how === 'part') { await conn.drained(); must = [...answered.keys()]; const f = frame(2, DATA, 1, any('x'.repeat(100))); conn.s.write(f.subarray(0, r.range(1, f.length - 1)), () => conn.s.end()); }
        obs.drops++;
        held = [];
        await allDone(a, `connection lost (${how})`);
        for (const k of must) { const o = a.find(o => o.key === k); if (o) ensure(o.ok, 'reply', `${k} was answered before the server closed the connection, but rejected with ${o.e?.message}`); }
        // back again, with the same subscriptions
        const before = conn.n;
        const back = await until(() => mock.live().some(x => x.n > before), 30000);
        ensure(back, 'hang', `30 s of real time after the connection was lost the client has not reconnected`);
        obs.reconnects++;
        mock.accept = true;
        policy = () => 'answer';
        let p = null;
        ensure(await until(async () => { p = ask(); await until(() => p.done, 5000); return p.ok; }, 30000), 'hang', `no request is answered after reconnecting: ${p?.done ? p.e?.message : 'pending'}`);
        const now = mock.live()[0];
        ensure(await until(() => [...topics.keys()].every(t => subs.some(s => s[0] === now.n && s[1] === 'sub' && s[2] === t)), 20000), 'push', () => `after reconnecting the client is subscribed to ${JSON.stringify(subs.filter(s => s[0] === now.n).map(s => s[2]))}, before to ${JSON.stringify([...topics.keys()])}`);
        await sleep(5);
        const extra = subs.filter(s => s[0] === now.n && !topics.has(s[2]));
        ensure(!extra.length, 'push', `after reconnecting the client subscribes to ${JSON.stringify(extra)} which it had given up`);
        const again = subs.filter(s => s[0] === now.n).map(s => s[2]);
        ensure(new Set(again).size === again.length, 'push', `after reconnecting it subscribes repeatedly: ${JSON.stringify(again)}`);
        got.length = 0;
        const want = [];
        for (const t of ['a', 'b/c', 'd', 'd/e/f', 'z', 'e+', 'x/1/y', '日本']) {
          now.push(t, any({ t }));
          for (const [p, k] of topics) if (matches(p, t)) want.push(JSON.stringify([p, k, { t }]));
        }
        ensure(await until(() => got.length >= want.length, 15000), 'push', `after reconnecting ${want.length} callbacks are due, ${got.length} ran`);
        await tick();
        ensure(got.map(g => JSON.stringify(g)).sort().join() === want.sort().join(), 'push', () => `after reconnecting the callbacks got ${join(got.map(g => JSON.stringify(g)), 9)} instead of ${join(want, 9)}`);
      }
    } else if (mode === 'disconnect' || mode === 'dialing') {
      policy = () => r.chance(300) ? 'answer' : 'hold';
      const got = [];
      await c.pubsub('t/#').subscribe(d => got.push(d));
      const a = [];
      for (let i = 0; i < r.range(1, 60); i++) { ask(a); if (r.chance(200)) await tick(); }
      if (r.chance(600)) await sleep(r.below(10));
      const n0 = mock.conns.length;
      if (mode === 'dialing') {
        // the client is trying to come back when it is told to stop
        if (r.chance(500)) mock.accept = false;
        mock.live()[0].kill();
        await sleep(r.pick([0, 5, 40, 74, 76, 80, 150]) + r.below(4));
        mock.accept = true;
        await tick();
      }
      const reconnected = mock.live().length;
      c.disconnect();
      await tick();
      const late = ask(a);
      await allDone(a, mode === 'dialing' ? 'disconnected while reconnecting' : 'disconnected by the client');
      ensure(!late.ok, 'reply', 'a request after disconnect() was answered');
      await sleep(5);
      const n1 = mock.conns.length;
      for (const x of mock.live()) x.push('t/1', any('after'));
      const g = got.length;
      // several reconnect delays later
      await sleep(9000 / 20);
      ensure(got.length === g, 'push', `after disconnect() ${got.length - g} pushed messages still reach a callback`);
      ensure(mock.conns.length === n1, 'zombie', `after disconnect() the client connects again (${mock.conns.length - n1} times)`);
      ensure(mock.live().length === 0, 'zombie', 'after disconnect() the connection stays open');
      const b = [];
      ask(b);
      await allDone(b, 'after disconnect()');
      ensure(!b[0].ok, 'reply', 'a request after disconnect() was answered');
      obs.reconnects += reconnected;
    } else {
      // answers that come too late
      const a = [];
      policy = () => r.chance(500) ? 'answer' : 'hold';
      for (let i = 0; i < 30; i++) { ask(a); if (r.chance(300)) await sleep(r.below(20)); }
      const rest = () => a.filter(o => !o.done);
      await allDone(a, 'the server does not answer', 30000);
      for (const o of a) {
        if (!o.ok) { obs.timeouts++; ensure(!answered.has(o.key), 'reply', `${o.key} was answered at once, but rejected with ${o.e.message}`); ensure(o.vat - o.t >= 14900, 'reply', `${o.key} rejected with ${o.e.message} after ${o.vat - o.t} of 15000 ms`); }
      }
      const hs = held; held = [];
      for (const h of hs) if (r.chance(700)) answer(h);
      policy = () => 'answer';
      const b = [];
      for (let i = 0; i < 30; i++) ask(b);
      await allDone(b, 'after late answers');
      ensure(b.every(o => o.ok), 'reply', `after late answers requests fail: ${b.find(o => !o.ok)?.e?.message}`);
    }
    ensure(!mock.bad, 'frame', mock.bad);
  } finally { c.disconnect(); await mock.close(); }
  return obs;
}

export function matches(p, t) {
  const a = p.split('/'), b = t.split('/');
  for (let i = 0; ; i++) {
    if (a[i] === '#') return true;
    if (i === a.length || i === b.length) return a.length === b.length;
    if (a[i] !== '+' && a[i] !== b[i]) return false;
  }
}
const LEV = ['a', 'b', 'c', '', 'é', '日', 'a b', 'a+', '#b', 'b+c', '$'];
const topic = r => Array.from({ length: r.pick([1, 1, 2, 2, 3, 4]) }, () => r.pick(LEV)).join('/');
const pattern = r => { const l = topic(r).split('/').map(x => r.chance(300) ? '+' : x); if (r.chance(300)) l[r.chance(800) ? l.length - 1 : r.below(l.length)] = '#'; return l.join('/'); };

/// Pushed messages reach exactly the callbacks whose pattern matches, in order, whatever else happens on the connection.
export async function pushes(r, sdk) {
  const obs = { pushes: 0, callbacks: 0, patterns: 0, bad: 0 };
  let refuse = 0;
  const mock = await new Mock(r).listen((c, q) => {
    const rd = new Rd(q.pay), key = rd.str();
    if (refuse) { refuse--; c.reply(q.id, ERR, str('refused')); return; }
    if (r.chance(200)) rt.setTimeout(() => c.reply(q.id, OK), r.below(5)); else c.reply(q.id, OK);
  });
  const c = await sdk.NexoClient.connect({ host: '127.0.0.1', port: mock.port, ...quiet });
  try {
    const subs = new Map(), got = [];
    let n = 0, fence = -1;
    await c.pubsub('zz/fence').subscribe(d => { fence = d.fence; });
    for (let round = 0; round < 12; round++) {
      const changes = [];
      for (let i = 0; i < r.range(1, 4); i++) {
        const p = r.chance(300) ? topic(r) : pattern(r);
        if (changes.some(x => x[0] === p)) continue;
        changes.push([p]);
        if (subs.has(p)) {
          const e = await c.pubsub(p).subscribe(() => got.push(['twice', p])).then(() => null, e => e);
          ensure(e, 'reply', `subscribing to ${show(p)} a second time succeeds`);
          subs.delete(p);
          if (r.chance(300)) {
            // given up twice, and taken again as soon as one of them says so
            const two = [c.pubsub(p).unsubscribe(), c.pubsub(p).unsubscribe()];
            await Promise.race(two);
            await c.pubsub(p).subscribe(d => { got.push([p, d]); });
            await Promise.all(two);
            subs.set(p, true);
            obs.retaken = (obs.retaken || 0) + 1;
          } else await c.pubsub(p).unsubscribe();
        } else if (r.chance(150)) {
          refuse = 1;
          const e = await c.pubsub(p).subscribe(() => got.push(['refused', p])).then(() => null, e => e);
          ensure(e && e.message === 'refused', 'reply', `the server refused the subscription to ${show(p)}, it ${e ? 'rejected with ' + e.message : 'resolved'}`);
        } else {
          const angry = r.chance(100);
          await c.pubsub(p).subscribe(d => { got.push([p, d]); if (angry) throw new Error('callback'); });
          subs.set(p, true);
          obs.patterns++;
        }
      }
      got.length = 0;
      const want = new Map([...subs.keys()].map(p => [p, []]));
      const conn = mock.live()[0];
      ensure(conn, 'zombie', 'the connection is gone');
      const k = r.pick([1, 5, 30]);
      for (let i = 0; i < k; i++) {
        const t = r.chance(300) && subs.size ? r.pick([...subs.keys()]).split('/').map(x => x === '+' || x === '#' ? r.pick(LEV) : x).join('/') : topic(r);
        if (r.chance(60)) {
          // what another client may have published: nothing at all, or not what its first byte says
          const raw = r.pick([Buffer.alloc(0), Buffer.from([2]), Buffer.from('\u0002{"a":'), Buffer.from('\u0002'), Buffer.from([1, 0xff, 0xfe]), Buffer.from([77, 1, 2]), Buffer.from('{"plain":1}')]);
          obs.bad++;
          for (const p of subs.keys()) if (matches(p, t)) want.get(p).push('raw');
          conn.push(t, raw);
          continue;
        }
        const v = genValue(r);
        v.want = v.kind === 'json' ? { n: n++, v: v.want } : v.want;
        conn.push(t, any(v.kind === 'json' ? v.want : v.v));
        obs.pushes++;
        for (const p of subs.keys()) if (matches(p, t)) want.get(p).push(v.want);
      }
      const mark = { fence: round };
      conn.push('zz/fence', any(mark));
      for (const p of subs.keys()) if (matches(p, 'zz/fence')) want.get(p).push(mark);
      ensure(await until(() => fence === round || conn.closed, 20000) && !conn.closed, 'zombie', conn.closed ? 'the client dropped its connection' : 'a pushed message never reaches its callback');
      for (const [p, l] of want) {
        const g = got.filter(x => x[0] === p).map(x => x[1]);
        // how (and whether) an undecodable message is delivered is not specified
        const w = l.filter(x => x !== 'raw'), spare = l.length - w.length;
        let i = 0;
        for (const x of g) if (i < w.length && same(x, w[i])) i++;
        ensure(i === w.length, 'push', () => `the callback of ${show(p)} got ${g.length} messages, among them not (in its place) ${show(w[i])}, the ${i + 1}th of ${w.length} published to a matching topic`);
        ensure(g.length - w.length <= spare, 'push', () => `the callback of ${show(p)} got ${g.length} messages, ${w.length} matching ones were published: ${join(g.map(show), 5)}`);
        obs.callbacks += g.length;
      }
      const other = got.filter(x => !want.has(x[0]));
      ensure(!other.length, 'push', () => `a callback that is not (or no longer) subscribed ran: ${show(other[0])}`);
    }
    ensure(!mock.bad, 'frame', mock.bad);
  } finally { c.disconnect(); await mock.close(); }
  return obs;
}

/// Values of every kind through every broker of the real server, written by one client and read by another.
export async function roundtrip(r, sdk, env) {
  const obs = { values: 0, bytes: 0 };
  const srv = await Real.start(env.root, { QUEUE_VISIBILITY_MS: '120000', STREAM_ACK_WAIT_MS: '120000' });
  let cs = [];
  try {
    const client = async () => { const c = await sdk.NexoClient.connect({ host: '127.0.0.1', port: srv.port, ...quiet }); cs.push(c); return c; };
    const a = await client(), b = r.chance(800) ? await client() : a;
    const vals = n => Array.from({ length: n }, () => { const v = r.chance(3) ? big(r) : genValue(r); obs.values++; return v; });
    const eq = (where, v, got) => ensure(same(got, v.want), 'value', () => `${where}: ${v.kind} ${show(v.want)} was read back as ${show(got)}`);
    const suffix = () => genString(r).replace(/[\u0000]/g, '') + r.below(1e6);
    const store = async () => {
      const vs = vals(40).map((v, i) => ({ ...v, key: i + suffix() + (r.chance(100) ? genString(r, true) : '') }));
      await Promise.all(vs.map(v => a.store.map.set(v.key, v.v, r.chance(300) ? { ttl: 3600 } : undefined)));
      const got = await Promise.all(vs.map(v => b.store.map.get(v.key)));
      vs.forEach((v, i) => eq('store', v, got[i]));
      const del = vs.filter(() => r.chance(300));
      await Promise.all(del.map(v => b.store.map.del(v.key)));
      for (const v of vs) { const g = await a.store.map.get(v.key); if (del.includes(v)) ensure(g === null, 'value', `a deleted key reads ${show(g)}`); else eq('store', v, g); }
    };
    const ttl = async () => {
      const k = 'ttl' + suffix();
      const t = rt.now();
      await a.store.map.set(k, 'x', { ttl: 1 });
      const g = await b.store.map.get(k);
      if (rt.now() - t < 900) ensure(g === 'x', 'value', `a key with ttl 1 reads ${show(g)} after ${rt.now() - t} ms`);
      ensure(await until(async () => (await b.store.map.get(k)) === null, 15000), 'value', 'a key with ttl 1 is there after 15 s');
    };
    const queue = async () => {
      const vs = vals(40), name = 'q' + suffix().replace(/\//g, '_');
      ensure((await b.queue(name).exists()) === false, 'reply', 'a queue exists before it is created');
      await a.queue(name).create({ maxRetries: 5 });
      ensure((await b.queue(name).exists()) === true, 'reply', 'a queue does not exist after it is created');
      const prio = r.chance(500);
      vs.forEach(v => { v.p = prio ? r.pick([undefined, 0, 1, 9, 127, 128, 200, 254, 255]) : undefined; });
      for (const v of vs) await a.queue(name).push(v.v, v.p === undefined ? undefined : { priority: v.p });
      const one = r.chance(500);
      const got = [];
      const sub = await b.queue(name).subscribe(d => { got.push(d); }, { batchSize: r.pick([1, 2, 7, 100]), waitMs: 100, concurrency: one ? 1 : r.range(2, 10) });
      const full = await until(() => got.length >= vs.length, 20000);
      await sub.stop();
      ensure(full && got.length === vs.length, 'value', `${vs.length} values were pushed to a queue, ${got.length} consumed`);
      const order = vs.map((v, i) => [v, i]).sort((x, y) => (y[0].p ?? 0) - (x[0].p ?? 0) || x[1] - y[1]).map(x => x[0]);
      if (one) order.forEach((v, i) => eq('queue', v, got[i])); else multiset('queue', vs, got);
      // and through the dead letters
      const fs = vals(6), dead = 'd' + name, why = new Map();
      await a.queue(dead).create({ maxRetries: 1 });
      for (const v of fs) await a.queue(dead).push(v.v);
      const s2 = await b.queue(dead).subscribe(d => { const m = 'why ' + genString(r); const k = canon(d); why.set(k, [...(why.get(k) || []), m]); throw r.chance(700) ? new Error(m) : m; }, { batchSize: 3, waitMs: 50, concurrency: 1 });
      let l;
      ensure(await until(async () => (l = await a.queue(dead).dlq.peek(100)).total >= fs.length, 15000), 'value', `${fs.length} messages failed, ${l?.total} are dead letters`);
      await s2.stop();
      ensure(l.items.length === fs.length, 'value', `peek of ${l.total} dead letters returns ${l.items.length}`);
      multiset('dead letters', fs, l.items.map(x => x.data));
      for (const x of l.items) {
        const m = why.get(canon(x.data)) || [];
        ensure(x.attempts >= 1 && m.includes(x.failureReason), 'value', `a dead letter of ${show(x.data)} has attempts ${x.attempts} and reason ${show(x.failureReason)}, it failed with ${show(m)}`);
      }
      const page = await a.queue(dead).dlq.peek(2, 3);
      ensure(page.total === fs.length && page.items.length === 2 && page.items.every((x, i) => x.id === l.items[3 + i].id), 'value', `peek(2, 3) is not the cut of the listing`);
      const [m, d] = [l.items[0], l.items[1]];
      ensure(await a.queue(dead).dlq.moveToQueue(m.id) === true && await a.queue(dead).dlq.moveToQueue(m.id) === false, 'reply', 'moving a dead letter twice does not answer true, false');
      ensure(await a.queue(dead).dlq.delete(d.id) === true && await a.queue(dead).dlq.delete(d.id) === false, 'reply', 'deleting a dead letter twice does not answer true, false');
      const n = await a.queue(dead).dlq.purge();
      ensure(n === fs.length - 2, 'reply', `purging ${fs.length - 2} dead letters answers ${n}`);
      const back = [];
      const s3 = await a.queue(dead).subscribe(x => { back.push(x); }, { waitMs: 50 });
      await until(() => back.length >= 1, 15000);
      await s3.stop();
      ensure(back.length === 1 && same(back[0], m.data), 'value', `the moved dead letter ${show(m.data)} is consumed as ${back.length} messages: ${show(back[0])}`);
      await b.queue(name).delete();
      ensure((await a.queue(name).exists()) === false, 'reply', 'a deleted queue exists');
      const e = await a.queue(name).push('x').then(() => null, e => e);
      ensure(e instanceof Error, 'reply', 'a push to a deleted queue succeeds');
    };
    const multiset = (where, vs, got) => {
      const m = new Map();
      for (const v of vs) { const k = canon(v.want); m.set(k, (m.get(k) || 0) + 1); }
      for (const g of got) { const k = canon(g); ensure(m.get(k) > 0, 'value', () => `${where}: ${show(g)} was read, but not written (that often)`); m.set(k, m.get(k) - 1); }
    };
    const stream = async () => {
      const vs = vals(40), name = 's' + suffix().replace(/\//g, '_');
      await a.stream(name).create();
      const before = r.below(40);
      for (const v of vs.slice(0, before)) await a.stream(name).publish(v.v);
      const one = r.chance(600), groups = ['g', 'h ' + genString(r).replace(/\u0000/g, '')].slice(0, r.range(1, 2));
      const subs = [];
      for (const g of groups) { const got = []; subs.push([got, await b.stream(name).subscribe(g, d => { got.push(d); }, { batchSize: r.pick([1, 3, 100]), waitMs: 100, concurrency: one ? 1 : 5 }), g]); }
      for (const v of vs.slice(before)) await a.stream(name).publish(v.v);
      for (const [got, sub, g] of subs) {
        const full = await until(() => got.length >= vs.length, 20000);
        await sub.stop();
        ensure(full && got.length === vs.length, 'value', `${vs.length} values were published to a stream, group ${show(g)} got ${got.length}`);
        if (one) vs.forEach((v, i) => eq('stream', v, got[i])); else multiset('stream', vs, got);
      }
      if (r.chance(500)) {
        const g = groups[0], again = [], to = r.pick(['beginning', 'end']);
        await a.stream(name).seek(g, to);
        const sub = await b.stream(name).subscribe(g, d => { again.push(d); }, { waitMs: 50 });
        await a.stream(name).publish('last');
        const want = to === 'end' ? ['last'] : [...vs.map(v => v.want), 'last'];
        await until(() => again.length >= want.length, 15000);
        await sub.stop();
        ensure(again.length === want.length && again.every((x, i) => same(x, want[i])), 'value', `after a seek to the ${to} the group reads ${again.length} messages instead of ${want.length}`);
      }
    };
    const pubsub = async () => {
      const vs = vals(40), t = 'ps/' + (suffix() + (r.chance(200) ? genString(r, true) : '')).replace(/[\/+#]/g, '_');
      const got = [], wild = [], all = [];
      await b.pubsub(t).subscribe(d => got.push(d));
      await b.pubsub(t.replace('ps', '+')).subscribe(d => wild.push(d));
      if (a !== b) await a.pubsub('ps/#').subscribe(d => all.push(d)).catch(() => {});
      for (const v of vs) await a.pubsub(t).publish(v.v);
      for (const [w, l] of [['pub/sub', got], ['pub/sub (wildcard)', wild]]) {
        await until(() => l.length >= vs.length, 20000);
        ensure(l.length === vs.length, 'value', `${w}: ${vs.length} published, ${l.length} received`);
        vs.forEach((v, i) => eq(w, v, l[i]));
      }
      const rv = vals(1)[0], rtop = t + '/keep';
      await a.pubsub(rtop).publish(rv.v, { retain: true });
      const kept = [];
      const c = await client();
      await c.pubsub(rtop).subscribe(d => kept.push(d));
      await until(() => kept.length >= 1, 15000);
      ensure(kept.length === 1, 'value', `a retained value is received ${kept.length} times`);
      eq('retained', rv, kept[0]);
      await b.pubsub(t).unsubscribe();
      await b.pubsub(t.replace('ps', '+')).unsubscribe();
      const n = got.length, m = wild.length;
      await a.pubsub(t).publish('after');
      await b.store.map.get('fence');
      await tick();
      ensure(got.length === n && wild.length === m, 'push', 'a callback runs after its unsubscribe() resolved');
    };
    const jobs = r.shuffle([store, store, queue, stream, pubsub, ...(r.chance(200) ? [ttl] : [])]);
    if (r.chance(500)) { const w = jobs.map(j => settled(j())); ensure(await until(() => w.every(o => o.done), 100000), 'hang', 'a broker operation never settles'); for (const o of w) if (!o.ok) throw o.e; } else for (const j of jobs) await j();
    // nonsense is rejected and hurts nobody else
    const e = await a.store.map.set('n', 10n).then(() => null, e => e);
    ensure(e instanceof Error, 'reply', 'writing a BigInt, which JSON cannot express, succeeds');
    const e2 = await a.queue('absent').push(1).then(() => null, e => e);
    ensure(e2 instanceof Error, 'reply', 'a push to a queue that does not exist succeeds');
    await a.store.map.set('n', 1);
    ensure(await b.store.map.get('n') === 1, 'value', 'after a rejected write the next one is lost');
  } finally { for (const c of cs) c.disconnect(); await srv.stop(); }
  return obs;
}

/// What an async callback returns: mostly its promise, sometimes somebody else's kind of promise.
const later = (r, p) => r.chance(200) ? { then: (ok, no) => { p.then(ok, no); } } : p;

/// SDK consumers of a queue: everything is processed, and the server's books agree with what the callbacks did.
export async function queue_consumers(r, sdk, env) {
  const obs = { messages: 0, callbacks: 0, failures: 0, cuts: 0, stops: 0, dead: 0 };
  const cuts = r.chance(400), stops = r.chance(400), vis = cuts ? 1500 : 120000;
  obs[`cuts_${cuts}_stops_${stops}`] = 1;
  const retries = cuts ? 100 : stops ? r.pick([100, 100, 1, 2, 4]) : r.pick([0, 1, 2, 3, 5]);
  // what a stopped consumer gives back has used up one of its deliveries
  const tight = stops && retries < 100;
  const srv = await Real.start(env.root, { QUEUE_VISIBILITY_MS: String(vis) });
  const cs = [];
  let raw;
  const proxy = await new Proxy(r, srv.port).listen();
  try {
    const client = async port => { const c = await sdk.NexoClient.connect({ host: '127.0.0.1', port, ...quiet }); cs.push(c); return c; };
    const prod = await client(srv.port);
    const name = 'jobs';
    await prod.queue(name).create({ maxRetries: retries });
    const total = r.pick([1, 10, 60, 200]);
    const plan = new Map(), runs = [];
    const next = { n: 0 };
    // messages of other clients, which this one cannot decode, among its own
    raw = net.connect(srv.port, '127.0.0.1');
    raw.on('error', () => {});
    let rawAnswers = 0, rawSent = 0;
    raw.on('data', d => { rawAnswers += d.length; });
    const push = async () => {
      const n = next.n++;
      if (r.chance(30)) {
        raw.write(frame(1, 0x11, ++rawSent, Buffer.concat([str(name), str('{}'), r.pick([Buffer.alloc(0), Buffer.from('\u0002{"n":'), Buffer.from([2]), Buffer.from([0, 1]), Buffer.from('\u0001text')])])));
        await until(() => rawAnswers >= rawSent * 10, 10000);
        obs.foreign = (obs.foreign || 0) + 1;
      }
      plan.set(n, { n, fails: r.chance(250) ? r.range(1, 4) : 0, ms: r.chance(200) ? r.below(15) : 0, calls: 0, ok: 0, why: [], how: r.below(4) });
      await prod.queue(name).push({ n, pad: r.chance(100) ? genString(r, true) : '' });
    };
    const early = r.chance(300) ? total : r.range(0, total);
    for (let i = 0; i < early; i++) await push();
    let bad = null;
    const consumers = [];
    const opt = () => ({ batchSize: r.pick([1, 2, 5, 50, 100]), waitMs: r.pick([0, 20, 100, 200]), concurrency: r.pick([1, 1, 2, 5, 12, 30]) });
    const start = async (c, o) => {
      const me = { active: 0, stopped: false, o, last: -1 };
      me.cb = async d => {
        obs.callbacks++;
        me.active++;
        if (me.active > o.concurrency) bad ??= `${me.active} callbacks run at a time with concurrency ${o.concurrency}`;
        if (me.stopped) bad ??= 'a callback starts after stop() resolved';
        if (d === null || typeof d !== 'object' || Buffer.isBuffer(d)) { me.active--; return; }
        const p = plan.get(d.n);
        if (!p) { bad ??= `the callback gets ${show(d)}`; me.active--; return; }
        p.calls++;
        try {
          if (p.ms) await sleep(p.ms);
          if (p.calls <= p.fails) {
            obs.failures++;
            const m = `failure ${p.calls} of ${p.n} ${p.how}`;
            p.why.push(m);
            if (p.how === 0) throw m;
            throw new Error(m);
          }
          p.ok++;
        } finally { me.active--; }
      };
      // callbacks may also fail without being async
      const cb = d => { const p = d && plan.get(d.n); if (p && p.how === 3 && !p.ms && p.calls < p.fails && !me.stopped && me.active < o.concurrency) { p.calls++; obs.callbacks++; obs.failures++; const m = `failure ${p.calls} of ${p.n} sync`; p.why.push(m); throw new Error(m); } return later(r, me.cb(d)); };
      for (let i = 0; ; i++) {
        try {
          if (!cuts && r.chance(300)) {
            // one handle, one subscription
            const two = await Promise.allSettled([c.queue(name).subscribe(cb, o), c.queue(name).subscribe(cb, o)]);
            const won = two.filter(x => x.status === 'fulfilled');
            ensure(won.length === 1, 'reply', `${won.length} of two simultaneous subscribe() calls on one queue handle succeed`);
            me.sub = won[0].value;
          } else me.sub = await c.queue(name).subscribe(cb, o);
          break;
        } catch (e) { if (e instanceof Fail || !cuts || i > 200) throw e instanceof Fail ? e : new Fail('reply', `subscribe failed: ${e.message}`); await sleep(50); }
      }
      return me;
    };
    const n = r.range(1, 3);
    for (let i = 0; i < n; i++) { const c = await client(cuts ? proxy.port : srv.port); consumers.push({ c, me: await start(c, opt()) }); }
    let k = 0;
    while (next.n < total) {
      await push();
      if (r.chance(100)) await sleep(r.below(10));
      if (cuts && r.chance(30) && k++ < 3) { proxy.cut(); obs.cuts++; }
      if (stops && r.chance(60)) {
        const x = r.pick(consumers);
        await x.me.sub.stop();
        ensure(x.me.active === 0, 'stop', 'stop() resolves while a callback runs');
        x.me.stopped = true;
        obs.stops++;
        if (r.chance(300)) await sleep(20);
        x.me = await start(x.c, opt());
      }
    }
    if (cuts && r.chance(500)) { await sleep(r.below(50)); proxy.cut(); obs.cuts++; }
    obs.messages = total;
    const limit = Math.max(1, retries);
    const fine = () => tight ? [] : [...plan.values()].filter(p => p.fails < limit);
    const q = async () => (await srv.get('/api/queue')).find(x => x.name === name);
    let s;
    const drained = await until(async () => { if (bad) return true; if (!fine().every(p => p.ok)) return false; s = await q(); return s.pending === 0 && s.inflight === 0; }, 40000);
    ensure(!bad, 'consume', bad);
    s = await q();
    const open = fine().filter(p => !p.ok);
    ensure(!open.length, 'lost', () => `${open.length} of ${total} messages are never processed: ${join(open.map(p => `${p.n} (${p.calls} calls)`), 6)}; the queue has ${JSON.stringify(s)}`);
    ensure(drained, 'ack', `everything is processed, but the queue keeps ${s.pending} pending and ${s.inflight} in flight`);
    const dlq = (await prod.queue(name).dlq.peek(1000)).items;
    for (const p of plan.values()) {
      const d = dlq.filter(x => x.data?.n === p.n);
      if (tight) {
        ensure(p.ok + d.length === 1, 'ack', `message ${p.n}: its callbacks succeeded ${p.ok} times and it is ${d.length} times among the dead letters`);
        ensure(p.calls <= limit && (!d.length || d[0].attempts === limit && (d[0].failureReason === 'Consumer stopped' || p.why.at(-1) === d[0].failureReason)), 'ack', () => `dead letter ${p.n}: ${p.calls} calls of ${limit}, attempts ${d[0]?.attempts}, reason ${show(d[0]?.failureReason)}; it failed with ${show(p.why)}`);
        obs.dead += d.length;
      } else if (p.fails >= limit) {
        ensure(d.length === 1 && p.ok === 0, 'ack', `message ${p.n} failed ${p.fails} times with ${retries} retries: it is ${d.length} times among the dead letters`);
        obs.dead++;
        if (!cuts && !stops) ensure(p.calls === limit && d[0].attempts === limit && d[0].failureReason === p.why[p.why.length - 1], 'ack', `dead letter ${p.n}: ${p.calls} calls, attempts ${d[0].attempts}, reason ${show(d[0].failureReason)}; it failed with ${show(p.why)}`);
      } else {
        ensure(d.length === 0 || cuts, 'ack', `message ${p.n} was processed, but is a dead letter: ${show(d[0])}`);
        if (!cuts) ensure(p.ok === 1 && p.calls === p.fails + 1, 'ack', `message ${p.n} was to fail ${p.fails} times; the callback ran ${p.calls} times and succeeded ${p.ok} times`);
      }
    }
    for (const x of consumers) { await x.me.sub.stop(); x.me.stopped = true; }
    await prod.queue(name).push({ n: 0 });
    await sleep(30);
    ensure(!bad, 'consume', bad);
    const again = await prod.queue(name).subscribe(() => {}, { waitMs: 0 });
    await again.stop();
    obs.cut_connections = proxy.cuts;
  } finally { for (const c of cs) c.disconnect(); raw?.destroy(); await proxy.close(); await srv.stop(); }
  return obs;
}

/// SDK consumer groups on a stream.
export async function stream_consumers(r, sdk, env) {
  const obs = { messages: 0, callbacks: 0, failures: 0, cuts: 0, stops: 0, seeks: 0 };
  const mode = r.pick(['calm', 'calm', 'stops', 'cuts', 'fails', 'seek']);
  obs['mode_' + mode] = 1;
  const srv = await Real.start(env.root, { STREAM_ACK_WAIT_MS: mode === 'fails' ? '700' : mode === 'cuts' ? '3000' : '120000', STREAM_MAX_DELIVERIES: '1000', STREAM_MAX_ACK_PENDING: String(r.pick([3, 50, 1000])), STREAM_MAX_SEGMENT_SIZE: r.pick(['2000', '100000000']), STREAM_RAM_SOFT_LIMIT: String(r.pick([5, 10000])), STREAM_DEFAULT_FLUSH_MS: '20' });
  const cs = [];
  const proxy = await new Proxy(r, srv.port).listen();
  try {
    const client = async port => { const c = await sdk.NexoClient.connect({ host: '127.0.0.1', port, ...quiet }); cs.push(c); return c; };
    const prod = await client(srv.port);
    const name = 'events';
    await prod.stream(name).create();
    const total = r.pick([1, 10, 60, 300]);
    let pub = 0, bad = null;
    const publish = async () => { const n = pub++; await prod.stream(name).publish({ n, pad: r.chance(100) ? genString(r, true) : '' }); };
    const early = r.chance(300) ? total : r.range(0, total);
    for (let i = 0; i < early; i++) await publish();
    const opt = () => ({ batchSize: r.pick([1, 2, 10, 100]), waitMs: r.pick([0, 20, 100, 200]), concurrency: r.pick([1, 1, 2, 8, 16]) });
    const groups = ['g1', 'gruppe 2'].slice(0, r.range(1, 2)).map(g => ({ g, members: [], plan: new Map(), inStop: new Set(), order: [], single: false }));
    const get = (G, n) => { let p = G.plan.get(n); if (!p) G.plan.set(n, p = { n, fails: mode === 'fails' && r.chance(150) ? r.range(1, 2) : 0, ms: mode !== 'fails' && r.chance(150) ? r.below(10) : 0, calls: 0, ok: 0 }); return p; };
    const start = async (G, c) => {
      const o = opt();
      const me = { active: 0, stopped: false, o, c, mine: new Set() };
      const run = async d => {
        obs.callbacks++;
        me.active++;
        if (me.active > o.concurrency) bad ??= `${me.active} callbacks run at a time with concurrency ${o.concurrency}`;
        if (me.stopped) bad ??= 'a callback starts after stop() resolved';
        if (!d || !(d.n < pub)) { bad ??= `the callback gets ${show(d)}`; me.active--; return; }
        const p = get(G, d.n);
        p.calls++;
        G.order.push(d.n);
        me.mine.add(d.n);
        try {
          if (p.ms) await sleep(p.ms);
          if (p.calls <= p.fails) { obs.failures++; throw r.chance(500) ? new Error('no') : 'no'; }
          p.ok++;
        } finally { me.active--; }
      };
      const cb = d => later(r, run(d));
      for (let i = 0; ; i++) {
        try { me.sub = await c.stream(name).subscribe(G.g, cb, o); break; } catch (e) { if (mode !== 'cuts' || i > 200) throw new Fail('reply', `subscribe failed: ${e.message}`); await sleep(50); }
      }
      return me;
    };
    const st = async G => (await srv.get('/api/stream')).topics.find(t => t.name === name).groups.find(x => x.id === G.g) || { ack_floor: 0, pending_count: 0 };
    const stop = async (G, i) => {
      const me = G.members[i];
      // what it has not finished, or what the server does not know yet to be finished, may be handed to somebody else
      const { ack_floor } = await st(G);
      await me.sub.stop();
      for (const n of me.mine) if (n + 1 > ack_floor) G.inStop.add(n);
      ensure(me.active === 0, 'stop', 'stop() resolves while a callback runs');
      me.stopped = true;
      obs.stops++;
    };
    for (const G of groups) {
      const n = r.range(1, 3);
      for (let i = 0; i < n; i++) G.members.push(await start(G, await client(mode === 'cuts' ? proxy.port : srv.port)));
      G.single = n === 1 && G.members[0].o.concurrency === 1;
    }
    let k = 0;
    while (pub < total) {
      await publish();
      if (r.chance(100)) await sleep(r.below(10));
      if (mode === 'cuts' && r.chance(20) && k++ < 3) { proxy.cut(); obs.cuts++; }
      if (mode === 'stops' && r.chance(60)) {
        const G = r.pick(groups), i = r.below(G.members.length), c = G.members[i].c;
        await stop(G, i);
        G.members[i] = await start(G, c);
      }
    }
    if (mode === 'cuts') { await sleep(r.below(30)); proxy.cut(); obs.cuts++; }
    obs.messages = total;
    let seeked = null;
    if (mode === 'seek') {
      // everything again, without anybody joining anew
      const G = r.pick(groups);
      await sleep(r.below(30));
      const early = r.chance(500);
      if (!early) await until(() => G.plan.size === total && [...G.plan.values()].every(p => p.ok), 20000);
      G.before = new Map([...G.plan.values()].map(p => [p.n, p.ok]));
      await prod.stream(name).seek(G.g, 'beginning');
      seeked = G; obs.seeks++;
    }
    for (const G of groups) {
      const need = n => (G === seeked ? (G.before.get(n) || 0) + 1 : 1);
      let s;
      const all = () => { for (let n = 0; n < total; n++) if ((G.plan.get(n)?.ok || 0) < need(n)) return false; return true; };
      const drained = await until(async () => { if (bad) return true; if (!all()) return false; s = await st(G); return s.ack_floor === total && s.pending_count === 0; }, 40000);
      ensure(!bad, 'consume', bad);
      s = await st(G);
      const open = Array.from({ length: total }, (_, n) => n).filter(n => (G.plan.get(n)?.ok || 0) < need(n));
      ensure(!open.length, 'lost', `group ${G.g} (${mode}): ${open.length} of ${total} messages are never processed: ${join(open, 8)}; the server has ${JSON.stringify(s)}`);
      ensure(drained, 'ack', `group ${G.g} (${mode}) has processed all ${total} messages, the server has ${JSON.stringify(s)}`);
      if (mode === 'calm' || mode === 'stops') {
        const twice = [...G.plan.values()].filter(p => p.calls !== 1 && !G.inStop.has(p.n));
        ensure(!twice.length, 'ack', `group ${G.g} (${mode}): messages are processed repeatedly: ${join(twice.map(p => `${p.n} (${p.calls} times)`), 6)}`);
      }
      if (mode === 'calm' && G.single) ensure(G.order.every((n, i) => n === i), 'order', `a single consumer with concurrency 1 processes ${G.order.slice(0, 20)}`);
      if (mode === 'fails' && G.single) obs.single_failing = 1;
    }
    for (const G of groups) for (let i = 0; i < G.members.length; i++) await stop(G, i);
    await publish();
    await sleep(30);
    ensure(!bad, 'consume', bad);
    obs.cut_connections = proxy.cuts;
  } finally { for (const c of cs) c.disconnect(); await proxy.close(); await srv.stop(); }
  return obs;
}

/// Stream members that stop at awkward moments (rejoining after a seek or a lost connection, fetching, working): nothing they fetched stays behind with them.
export async function handover(r, sdk, env) {
  const obs = { rounds: 0, messages: 0, stops: 0, seeks: 0, cuts: 0, duplicates: 0 };
  // no acknowledgement timeout can help
  const srv = await Real.start(env.root, { STREAM_ACK_WAIT_MS: '600000', STREAM_MAX_DELIVERIES: '100000', STREAM_MAX_ACK_PENDING: String(r.pick([5, 1000])) });
  const cs = [];
  const proxy = await new Proxy(r, srv.port, r.pick([0, 1, 3, 8])).listen();
  try {
    const client = async port => { const c = await sdk.NexoClient.connect({ host: '127.0.0.1', port, ...quiet }); cs.push(c); return c; };
    const prod = await client(srv.port), heir = await client(srv.port);
    const many = [await client(proxy.port), await client(proxy.port)];
    await prod.stream('ev').create();
    let pub = 0;
    const groups = ['g0', 'g1'].map(g => ({ g, base: 0, done: new Set() }));
    const put = async k => { for (let i = 0; i < k; i++) await prod.stream('ev').publish({ n: pub++ }); };
    for (let round = 0; round < 8; round++) {
      obs.rounds++;
      const G = r.pick(groups), g = G.g, seen = new Map(), members = [];
      const before = r.range(0, 8);
      await put(before);
      let bad = null;
      const work = me => async d => {
        if (me.stopped) bad ??= `a callback starts after stop() resolved`;
        me.active++;
        if (r.chance(200)) await sleep(r.below(4));
        seen.set(d.n, (seen.get(d.n) || 0) + 1);
        me.active--;
      };
      const join = async c => {
        const me = { active: 0, stopped: false };
        for (let i = 0; ; i++) try { me.sub = await c.stream('ev').subscribe(g, work(me), { batchSize: r.pick([1, 3, 50]), waitMs: r.pick([0, 50, 300]), concurrency: r.pick([1, 4]) }); break; } catch (e) { if (i > 100) throw new Fail('reply', `subscribe failed: ${e.message}`); await sleep(20); }
        return me;
      };
      for (const c of many.slice(0, r.range(1, 2))) members.push(await join(c));
      await sleep(r.below(6));
      let from = null;
      const what = r.below(4);
      const shake = async () => {
        if (what === 0) { await prod.stream('ev').seek(g, 'beginning'); obs.seeks++; from = 0; }
        else if (what === 1) { proxy.cut(); obs.cuts++; if (r.chance(700)) await sleep(r.below(60)); }
        else if (what === 2) { await prod.stream('ev').seek(g, 'end'); obs.seeks++; }
      };
      // everything is busy with something when the stop comes
      await shake();
      if (what === 2) from = pub;
      const pushing = put(r.range(1, 8));
      const d = r.below(25);
      if (d) await sleep(d); else for (let i = r.below(6); i > 0; i--) await new Promise(k => setImmediate(k));
      await Promise.all(members.map(async me => {
        const t = rt.now();
        const s = await Promise.race([me.sub.stop().then(() => 1), sleep(20000).then(() => 0)]);
        ensure(s, 'stop', 'stop() does not resolve within 20 s');
        ensure(me.active === 0, 'stop', 'stop() resolves while a callback runs');
        me.stopped = true;
        obs.stops++;
      }));
      await pushing;
      // the heir gets what nobody finished
      const last = { stopped: false, active: 0 };
      const want = () => { for (let n = from ?? G.base; n < pub; n++) if (!seen.get(n) && !G.done.has(n)) return false; return true; };
      const sub = await heir.stream('ev').subscribe(g, work(last), { batchSize: 50, waitMs: 50 });
      const st = async () => (await srv.get('/api/stream')).topics.find(t => t.name === 'ev').groups.find(x => x.id === g);
      const all = await until(async () => { const s = await st(); return s.ack_floor === pub && s.pending_count === 0; }, 10000);
      const s = await st();
      ensure(all, 'lost', `${['after a seek to the beginning', 'after a lost connection', 'after a seek to the end', 'after a stop'][what]}: the members stopped, and the next one does not get everything: the server has ${JSON.stringify(s)} of ${pub} messages`);
      ensure(want(), 'lost', `after everything is acknowledged, a message was never handed to a callback of group ${g}`);
      ensure(!bad, 'consume', bad);
      await sub.stop();
      for (const n of seen.keys()) G.done.add(n);
      G.base = pub;
      for (const k of seen.values()) if (k > 1) obs.duplicates++;
    }
    obs.messages = pub;
  } finally { for (const c of cs) c.disconnect(); await proxy.close(); await srv.stop(); }
  return obs;
}
