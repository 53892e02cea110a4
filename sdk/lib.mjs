// Shared pieces of the SDK monitors: seeded randomness, values, a scriptable server, a cutting proxy, the real server.
import net from 'node:net';
import http from 'node:http';
import fs from 'node:fs';
import path from 'node:path';
import { spawn } from 'node:child_process';
import util from 'node:util';

export const rt = { setTimeout: globalThis.setTimeout, setInterval: globalThis.setInterval, clearTimeout: globalThis.clearTimeout, now: Date.now };
/// The SDK's timers and clock run `k` times faster than real time.
export function scaleTime(k) {
  const t0 = rt.now();
  globalThis.setTimeout = (f, ms, ...a) => rt.setTimeout(f, (ms || 0) / k, ...a);
  globalThis.setInterval = (f, ms, ...a) => rt.setInterval(f, (ms || 0) / k, ...a);
  Date.now = () => Math.floor(t0 + (rt.now() - t0) * k);
}
export const sleep = ms => new Promise(r => rt.setTimeout(r, ms));
export const tick = () => new Promise(r => setImmediate(r));

export class Fail extends Error { constructor(kind, msg) { super(msg); this.kind = kind; } }
export const ensure = (c, kind, msg) => { if (!c) throw new Fail(kind, typeof msg === 'function' ? msg() : msg); };

export function rng(seed) {
  let s = BigInt.asUintN(64, BigInt(seed) * 0x9E3779B97F4A7C15n + 0x1234567n);
  const next = () => {
    s = BigInt.asUintN(64, s + 0x9E3779B97F4A7C15n);
    let z = s;
    z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xBF58476D1CE4E5B9n);
    z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94D049BB133111EBn);
    return Number((z ^ (z >> 31n)) >> 11n);
  };
  const r = {
    below: n => next() % n,
    range: (a, b) => a + (next() % (b - a + 1)),
    chance: p => next() % 1000 < p,
    pick: a => a[next() % a.length],
    float: () => next() / 2 ** 53,
    bytes: n => { const b = Buffer.alloc(n); for (let i = 0; i < n; i += 4) { const v = next(); for (let j = 0; j < 4 && i + j < n; j++) b[i + j] = (v >>> (8 * j)) & 255; } return b; },
    shuffle: a => { for (let i = a.length - 1; i > 0; i--) { const j = next() % (i + 1); [a[i], a[j]] = [a[j], a[i]]; } return a; },
  };
  return r;
}

const CH = ['a', 'Z', '0', ' ', '"', '\\', '\n', '\t', '\u0000', '\u0001', '\u007f', 'é', 'ß', 'ü', '日', '本', '😀', '👩‍👩‍👧', '\u2028', '\ufeff', '\u202e', '{', '}', '[', ',', ':', '/', '+', '#', '\u00a0', '\ud7ff', '\ue000', '\uffff'];
export function genString(r, big) {
  const n = big ? r.pick([200, 230, 240, 243, 244, 245, 246, 247, 250, 255, 256, 257, 500, 512, 1000, 4096, 16384, 65530, 65536, 70000]) + r.below(3) : r.pick([0, 0, 1, 1, 2, 3, 5, 9, 20, 40]);
  const one = r.chance(300) ? r.pick(CH) : null;
  let s = '';
  while (s.length < n) s += one ?? r.pick(CH);
  return s;
}
const NUMS = [0, 1, -1, 2, 0.5, -0.1, 1e21, 1e-7, 1.7976931348623157e308, 5e-324, 9007199254740991, -9007199254740991, 9007199254740993, 4294967295, 4294967296, 2147483648, -2147483648, 0.1 + 0.2, 1 / 3, 123456789.123456789];
export function genJson(r, d = 0) {
  switch (r.below(d > 4 ? 6 : 9)) {
    case 0: return null;
    case 1: return r.chance(500);
    case 2: return r.pick(NUMS);
    case 3: return r.below(1000000) / r.pick([1, 7, 1000]);
    case 4: case 5: return genString(r, r.chance(20));
    case 6: return Array.from({ length: r.below(5) }, () => genJson(r, d + 1));
    default: {
      const o = {};
      const n = r.below(6);
      for (let i = 0; i < n; i++) {
        const k = r.chance(100) ? r.pick(['', '__proto__', 'constructor', 'type', 'data', 'length', 'toString', '0', '10', 'then']) : genString(r, false) + i;
        // what JSON.parse makes of such a key
        Object.defineProperty(o, k, { value: genJson(r, d + 1), enumerable: true, writable: true, configurable: true });
      }
      return o;
    }
  }
}
/// A value to write, and what must be read.
export function genValue(r) {
  const j = v => ({ kind: 'json', v, want: JSON.parse(JSON.stringify(v ?? null)) });
  switch (r.below(16)) {
    case 0: case 1: return (v => ({ kind: 'string', v, want: v }))(genString(r, r.chance(300)));
    case 2: return (v => ({ kind: 'string', v, want: v }))(r.pick(['', 'null', '{}', '[]', '"x"', 'true', '0', '\u0000', '\u0001', '\u0002', '0x00', 'undefined', '{"a":1}', '\u0000\u0001\u0002']));
    case 3: case 4: {
      const n = r.pick([0, 1, 2, 3, 16, 100, 200, 240, 245, 246, 247, 255, 256, 1000, 5000, 65536]) + r.below(2);
      const v = r.bytes(n);
      if (n && r.chance(500)) v[0] = r.below(4);
      // a view into a larger buffer
      if (r.chance(300)) { const big = Buffer.alloc(n + 30, 0xee); v.copy(big, 11); return { kind: 'buffer', v: big.subarray(11, 11 + n), want: v }; }
      return { kind: 'buffer', v, want: Buffer.from(v) };
    }
    case 5: return (v => ({ kind: 'buffer', v, want: Buffer.from(v) }))(Buffer.from(r.pick(['{"a":1}', 'text', 'null', '"', '\u0002{}'])));
    case 6: return j(r.pick([null, undefined, true, false, [], {}, [[]], [{}], { a: undefined }, [undefined, 1], NaN, Infinity, new Date(86400000), [null], '' + 1, 0, -1]));
    case 7: return j({ n: r.below(1e9), s: genString(r, true) });
    case 8: { let v = r.below(100); const d = r.pick([10, 100, 1000]); for (let i = 0; i < d; i++) v = r.chance(500) ? [v] : { k: v }; return j(v); }
    case 9: return j(r.pick(NUMS));
    case 10: return j(Array.from({ length: r.range(1, 300) }, (_, i) => i * r.pick([1, 0.5])));
    default: return j(genJson(r));
  }
}
export function big(r) {
  const n = r.pick([1 << 20, (1 << 20) + 7, 3 << 20, 5000000]);
  if (r.chance(500)) { const v = r.bytes(1000); const b = Buffer.alloc(n); for (let i = 0; i < n; i += 1000) v.copy(b, i); return { kind: 'buffer', v: b, want: Buffer.from(b) }; }
  const s = 'é日x'.repeat(n / 8 | 0);
  return { kind: 'string', v: s, want: s };
}
export function same(got, want) {
  if (Buffer.isBuffer(want)) return Buffer.isBuffer(got) && got.equals(want);
  if (Buffer.isBuffer(got)) return false;
  return util.isDeepStrictEqual(got, want);
}
export function show(v) {
  const s = Buffer.isBuffer(v) ? `Buffer(${v.length}) ${v.subarray(0, 40).toString('hex')}` : typeof v === 'string' ? `string(${v.length}) ${JSON.stringify(v)}` : util.inspect(v, { depth: 6, breakLength: Infinity });
  return s.slice(0, 200);
}
export function canon(v) {
  if (Buffer.isBuffer(v)) return 'b:' + v.toString('base64');
  if (typeof v === 'string') return 's:' + v;
  const f = x => Array.isArray(x) ? '[' + x.map(f).join() + ']' : x && typeof x === 'object' ? '{' + Object.keys(x).sort().map(k => JSON.stringify(k) + ':' + f(x[k])).join() + '}' : x === undefined ? 'undefined' : JSON.stringify(x);
  return 'j:' + f(v);
}
/// Wait for a condition; false when it does not come.
export async function until(f, ms) {
  const end = rt.now() + ms;
  let n = 0;
  while (!(await f())) {
    if (rt.now() > end) return false;
    await sleep(n++ < 20 ? 2 : 15);
  }
  return true;
}
/// The outcome of a promise, or `null` when it does not settle in time.
export function settled(p) {
  const o = { done: false };
  p.then(v => { o.done = true; o.ok = true; o.v = v; o.at = rt.now(); o.vat = Date.now(); }, e => { o.done = true; o.ok = false; o.e = e; o.at = rt.now(); o.vat = Date.now(); });
  return o;
}

// ---------------------------------------------------------------- protocol
export const str = s => { const b = Buffer.from(s, 'utf8'); const h = Buffer.alloc(4); h.writeUInt32BE(b.length); return Buffer.concat([h, b]); };
export const u32 = n => { const h = Buffer.alloc(4); h.writeUInt32BE(n); return h; };
export const frame = (type, meta, id, pay) => { const h = Buffer.alloc(10); h[0] = type; h[1] = meta; h.writeUInt32BE(id, 2); h.writeUInt32BE(pay.length, 6); return Buffer.concat([h, pay]); };
export const OK = 0, ERR = 1, NULL = 2, DATA = 3;
export function any(v) {
  if (Buffer.isBuffer(v)) return Buffer.concat([Buffer.from([0]), v]);
  if (typeof v === 'string') return Buffer.concat([Buffer.from([1]), Buffer.from(v, 'utf8')]);
  return Buffer.concat([Buffer.from([2]), Buffer.from(JSON.stringify(v ?? null), 'utf8')]);
}
export class Rd {
  constructor(b) { this.b = b; this.o = 0; }
  u8() { return this.b[this.o++]; }
  u32() { const v = this.b.readUInt32BE(this.o); this.o += 4; return v; }
  u64() { const v = this.b.readBigUInt64BE(this.o); this.o += 8; return v; }
  str() { const n = this.u32(); if (this.o + n > this.b.length) throw new Fail('frame', 'a string of a request reaches beyond its frame'); const s = this.b.toString('utf8', this.o, this.o + n); this.o += n; return s; }
  rest() { return this.b.subarray(this.o); }
}

/// A server under the monitor's control. `on(conn, req)` decides; nothing is answered by itself.
export class Mock {
  constructor(r) { this.r = r; this.conns = []; this.bad = null; this.accept = true; this.frames = 0; }
  async listen(on, port = 0) {
    this.on = on;
    this.srv = net.createServer(s => {
      if (!this.accept) { s.destroy(); return; }
      const c = new MConn(this, s);
      this.conns.push(c);
    });
    await new Promise((res, rej) => { this.srv.once('error', rej); this.srv.listen(port, '127.0.0.1', res); });
    this.port = this.srv.address().port;
    return this;
  }
  live() { return this.conns.filter(c => !c.closed); }
  async close() { for (const c of this.conns) c.kill(); this.srv.closeAllConnections?.(); await new Promise(r => this.srv.close(r)); }
}
class MConn {
  constructor(mock, sock) {
    this.mock = mock; this.s = sock; this.in = Buffer.alloc(0); this.out = []; this.closed = false; this.pumping = false; this.open = new Set(); this.n = mock.conns.length; this.outn = 0;
    sock.setNoDelay(true);
    sock.on('data', d => {
      this.in = Buffer.concat([this.in, d]);
      while (this.in.length >= 10) {
        const n = this.in.readUInt32BE(6);
        if (this.in.length < 10 + n) break;
        const f = this.in.subarray(0, 10 + n);
        this.in = this.in.subarray(10 + n);
        this.mock.frames++;
        const q = { type: f[0], op: f[1], id: f.readUInt32BE(2), pay: f.subarray(10), raw: f };
        if (q.type !== 1) { this.mock.bad ??= `a frame of type ${q.type} arrived`; continue; }
        try { this.mock.on(this, q); } catch (e) { this.mock.bad ??= e.message + ' ' + f.subarray(0, 60).toString('hex'); }
      }
    });
    sock.on('error', () => {});
    sock.on('close', () => { this.closed = true; });
  }
  send(b) { this.out.push(b); this.outn += b.length; this.pump(); }
  reply(id, status, pay = Buffer.alloc(0)) { this.send(frame(2, status, id, pay)); }
  push(topic, data) { this.send(frame(3, 0, 0, Buffer.concat([str(topic), data]))); }
  async pump() {
    if (this.pumping) return;
    this.pumping = true;
    const r = this.mock.r;
    while (this.out.length && !this.closed) {
      let b = this.out.length > 1 ? Buffer.concat(this.out) : this.out[0];
      this.out = [];
      while (b.length && !this.closed) {
        const n = b.length > 200000 ? r.range(1, b.length) : Math.min(b.length, r.pick([1, 1, 2, 3, 5, 9, 10, 11, 14, 40, 200, 3000, 1 << 30]));
        await new Promise(k => this.s.write(b.subarray(0, n), () => k()));
        b = b.subarray(n);
        if (r.chance(400)) await tick();
        if (r.chance(60)) await sleep(1);
      }
    }
    this.pumping = false;
  }
  async drained() { while (this.pumping && !this.closed) await sleep(1); }
  /// Everything written so far, then end of stream.
  async end() { await this.drained(); this.s.end(); }
  kill() { this.s.destroy(); this.closed = true; }
  reset() { this.s.resetAndDestroy(); this.closed = true; }
}

/// Forwards to a port; connections can be cut.
export class Proxy {
  constructor(r, to, lag = 0) { this.r = r; this.to = to; this.lag = lag; this.pairs = new Set(); this.down = false; this.cuts = 0; }
  async listen() {
    this.srv = net.createServer(a => {
      if (this.down) { a.destroy(); return; }
      const b = net.connect(this.to, '127.0.0.1');
      a.setNoDelay(true); b.setNoDelay(true);
      const p = { a, b };
      this.pairs.add(p);
      const fwd = (x, y) => x.on('data', d => {
        if (this.lag) { setTimeout(() => y.write(d), this.lag); return; }
        // cut into pieces
        let o = 0;
        while (o < d.length) { const n = this.r.chance(200) ? this.r.range(1, 20) : d.length; y.write(d.subarray(o, o + n)); o += n; }
      });
      fwd(a, b); fwd(b, a);
      const end = () => { a.destroy(); b.destroy(); this.pairs.delete(p); };
      for (const x of [a, b]) { x.on('error', end); x.on('close', end); }
    });
    await new Promise(k => this.srv.listen(0, '127.0.0.1', k));
    this.port = this.srv.address().port;
    return this;
  }
  cut() { for (const p of this.pairs) { this.cuts++; this.r.chance(500) ? p.a.destroy() : p.a.resetAndDestroy(); p.b.destroy(); } }
  async close() { this.cut(); await new Promise(k => this.srv.close(k)); }
}

// ---------------------------------------------------------------- the real server
const freePort = () => new Promise(res => { const s = net.createServer().listen(0, '127.0.0.1', () => { const p = s.address().port; s.close(() => res(p)); }); });
export class Real {
  static async start(root, env = {}) {
    const me = new Real();
    me.dir = fs.mkdtempSync(path.join(root, 's'));
    const d = path.join(me.dir, 'data');
    fs.mkdirSync(d); fs.chmodSync(me.dir, 0o755);
    const isRoot = process.getuid() === 0;
    if (isRoot) fs.chownSync(d, 65534, 65534);
    for (let attempt = 0; attempt < 5; attempt++) {
      me.port = await freePort(); me.web = await freePort();
      const log = fs.openSync(path.join(me.dir, 'log'), 'a');
      me.p = spawn(path.join(root, 'nexo'), [], {
        cwd: d, stdio: ['ignore', log, log], ...(isRoot ? { uid: 65534, gid: 65534 } : {}),
        env: { PATH: '/usr/bin:/bin', HOME: d, SERVER_HOST: '127.0.0.1', SERVER_SOCKET_TCP_PORT: String(me.port), SERVER_DASHBOARD_HTTP_PORT: String(me.web), QUEUE_ROOT_PERSISTENCE_PATH: d + '/queues', STREAM_ROOT_PERSISTENCE_PATH: d + '/streams', PUBSUB_ROOT_PERSISTENCE_PATH: d + '/pubsub', TOKIO_WORKER_THREADS: '2', ...env },
      });
      fs.closeSync(log);
      me.dead = false;
      const p = me.p;
      p.on('exit', () => { if (me.p === p) me.dead = true; });
      const up = port => new Promise(k => { const s = net.connect(port, '127.0.0.1', () => { s.destroy(); k(true); }); s.on('error', () => k(false)); });
      if (await until(async () => me.dead || (await up(me.port) && await up(me.web)), 20000) && !me.dead) return me;
      p.kill('SIGKILL');
    }
    throw new Fail('inconclusive', 'the server does not start: ' + me.log().slice(-500));
  }
  log() { try { return fs.readFileSync(path.join(this.dir, 'log'), 'utf8'); } catch { return ''; } }
  get(p) {
    return new Promise((res, rej) => {
      http.get({ host: '127.0.0.1', port: this.web, path: p, agent: false }, m => { let s = ''; m.setEncoding('utf8'); m.on('data', d => s += d); m.on('end', () => { try { res(JSON.parse(s)); } catch (e) { rej(new Fail('inconclusive', `GET ${p}: ${s.slice(0, 200)}`)); } }); }).on('error', e => rej(new Fail('inconclusive', `GET ${p}: ${e.message}`)));
    });
  }
  async stop() {
    const m = /panicked at[^\n]*\n?[^\n]*/.exec(this.log());
    if (!this.dead) { const gone = new Promise(k => this.p.once('exit', k)); this.p.kill('SIGKILL'); await gone; }
    fs.rmSync(this.dir, { recursive: true, force: true });
    if (m) throw new Fail('inconclusive', 'the server panicked: ' + m[0]);
  }
}
