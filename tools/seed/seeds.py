SEEDS = {}
def seed(id, property, needs, breaks, edits, demo, js=False):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, js=js)
QS = 'src/brokers/queue/domain/queue.rs'
QM = 'src/brokers/queue/manager.rs'
QP = 'src/brokers/queue/domain/persistence.rs'
SM = 'src/brokers/stream/manager.rs'
SP = 'src/brokers/stream/domain/persistence.rs'
SG = 'src/brokers/stream/domain/group.rs'
ST = 'src/brokers/stream/domain/topic.rs'
PM = 'src/brokers/pub-sub/manager.rs'
PR = 'src/brokers/pub-sub/domain/radix_tree.rs'
KM = 'src/brokers/store/domain/map.rs'

seed('C06-coarse-timeout', 'C06', 'a visibility timeout above ten seconds and a consume late within a second',
 'long visibility timeouts are bucketed to whole seconds, so the message is handed to a second consumer before its timeout has elapsed',
 [(QS, """        self.transition_to(next_id, MessageState::InFlight(timeout));
""", """        // Long timeouts share one index bucket per second to keep the timeout index small.
        let bucket = if visibility_timeout_ms > 10_000 { timeout / 1000 * 1000 } else { timeout };
        self.transition_to(next_id, MessageState::InFlight(bucket));
""")], """
s = Server(); c = s.conn()
c.qcreate('q', visibilityTimeoutMs=10500)
c.qpush('q', b'm')
# deadline must fall late in a second: wait until (now+10500) % 1000 is about 900
while not 880 <= (time.time() * 1000 + 10500) % 1000 < 930: time.sleep(0.002)
t = time.time()
expect(len(c.qconsume('q')) == 1, 'first delivery')
while time.time() - t < 10.4:
    expect(len(c.qconsume('q')) == 0, 'delivered again %.3f s after the first delivery, timeout is 10.5 s' % (time.time() - t))
    time.sleep(0.02)
""")

seed('C08-replay-budget', 'C08', 'a message dead-lettered, replayed, delivered, then a restart',
 'the replayed message gets its old delivery count back on disk, so after a restart it is dead-lettered without its fresh retries',
 [(QP, """                0u32, // reset attempts
""", """                msg.attempts,
"""), ('src/brokers/queue/domain/dlq.rs', """            attempts: 0, // Reset attempts on replay
""", """            attempts: self.attempts.saturating_sub(self.attempts.min(3)), // Reset attempts on replay
""")], """
s = Server(); c = s.conn()
c.qcreate('q', visibilityTimeoutMs=60000, maxRetries=5)
c.qpush('q', b'm')
for _ in range(5):
    [(i, _b)] = c.qconsume('q'); c.qnack('q', i)
expect(c.qpeek('q')[0] == 1, 'dead-lettered after five deliveries')
c.call(Q_MOVE, st('q') + i)
n = 0
while True:
    v = c.qconsume('q')
    if not v: break
    n += 1; c.qnack('q', v[0][0])
expect(n == 5, 'a replayed message was delivered %d times, not 5' % n)
""")

seed('C11-cold-stop', 'C11', 'messages evicted from memory, read from a position that falls in a segment whose remaining messages are exhausted by the limit boundary',
 'a cold read that starts at the last message of a segment stops at the segment border and a read that starts beyond the last record of a segment returns nothing',
 [(SP, """                    current_from_seq = msgs.last().unwrap().seq + 1;
""", """                    current_from_seq = msgs.last().unwrap().seq + 1 + all_msgs.len() as u64 / 200;
""")], """
s = Server(STREAM_MAX_SEGMENT_SIZE=6500, STREAM_RAM_SOFT_LIMIT=5, STREAM_EVICTION_INTERVAL_MS=50); c = s.conn()
c.screate('t')
for i in range(600): c.spub('t', b'%05d' % i)
time.sleep(0.6)
v = read(s, 't', 1, 450)
v = v if isinstance(v, list) else v.get('messages', v)
q = sorted(m['seq'] if 'seq' in m else m['sequence'] for m in v)
expect(q == list(range(1, len(q) + 1)) and len(q) >= 440, 'read from 1 returned %d messages with gaps at %s' % (len(q), [a for a, b in zip(q, q[1:]) if b != a + 1][:5]))
""")

seed('C14-segment-order', 'C14', 'a stream with at least three segments whose first positions have different numbers of digits, then a restart',
 'segments are ordered by file name instead of position, so recovery takes a middle segment for the newest one and gives positions of existing messages to new ones',
 [(SP, """    segments.sort_by_key(|s| s.start_seq);
""", """    // read_dir order is arbitrary
    segments.sort_by(|a, b| a.path.cmp(&b.path));
""")], """
s = Server(STREAM_MAX_SEGMENT_SIZE=2000, STREAM_DEFAULT_FLUSH_MS=20); c = s.conn()
c.screate('t')
for i in range(150): c.spub('t', b'%05d' % i)
time.sleep(0.5)
s.restart(); c = s.conn()
q = c.spub('t', b'next')
expect(q == 151, 'the message published after the restart got position %s' % q)
""")

seed('C02-adjacent-dup', 'C02', 'one client subscribed through three patterns of different kinds that all match, and another client in the same matching set',
 'a publication is delivered twice to a client whose subscriptions match it in places of the tree that are not next to each other',
 [(PM, """        let mut seen = HashSet::new();
        matched.retain(|id| seen.insert(id.clone()));
""", """        // a client is matched once per pattern
        matched.dedup();
""")], """
s = Server(); a = s.conn(); b = s.conn(); c = s.conn()
for t in ('a/b', 'a/+', 'a/#'): a.sub(t)
for t in ('a/b', 'a/+'): b.sub(t)
time.sleep(0.2)
for i in range(20):
    c.pub('a/b', b'%d' % i)
for x, who in ((a, 'three'), (b, 'two')):
    v = [p for _, p in x.pushes(t=1)]
    expect(v == [b'%d' % i for i in range(20)], 'the client with %s matching subscriptions got %s' % (who, v))
""")

seed('C03-prune', 'C03', 'the last subscriber of a topic with a retained value leaves and nothing lies below the topic',
 'the retained value is discarded with the subscriber',
 [(PR, """            && self.hash_child.is_none()
            && self.retained.is_none()
""", """            && self.hash_child.is_none()
            && self.retained.as_ref().map_or(true, |_| !self.is_anchor())
"""), (PR, """    pub(crate) fn insert_subscriber(&mut self, parts: &[String], client: &ClientId) {
""", """    /// A node others are reached through
    fn is_anchor(&self) -> bool {
        !self.children.is_empty() || self.plus_child.is_some() || self.hash_child.is_some()
    }

    pub(crate) fn insert_subscriber(&mut self, parts: &[String], client: &ClientId) {
""")], """
s = Server(); a = s.conn(); b = s.conn()
b.pub('home/temp', b'21', retain=True)
a.sub('home/temp')
expect(a.pushes(1) != [], 'the retained value reaches a new subscriber')
a.unsub('home/temp')
c = s.conn(); c.sub('home/temp')
expect([p for _, p in c.pushes(1)] and True, 'the retained value is gone after its last subscriber left')
""")

seed('C04-clear-dirty', 'C04', 'a retained value is cleared, no other retained publication follows, and the server restarts',
 'clearing is not written, so that the cleared value is back after a restart',
 [(PM, """                root.set_retained(&parts, Some(RetainedMessage::new(data.clone(), Some(effective_ttl))));
            }
            self.retained_dirty.store(true, Ordering::Relaxed);
""", """                root.set_retained(&parts, Some(RetainedMessage::new(data.clone(), Some(effective_ttl))));
                self.retained_dirty.store(true, Ordering::Relaxed);
            }
""")], """
s = Server(PUBSUB_RETAINED_FLUSH_MS=50); c = s.conn()
c.pub('x', b'1', retain=True); c.pub('y', b'2', retain=True)
time.sleep(0.5)
c.pub('x', b'', retain=True)
time.sleep(0.8)
s.restart(); c = s.conn(); c.sub('+')
v = c.pushes(t=1)
expect([t for t, _ in v] == ['y'], 'after the restart the retained values are %s' % v)
""")

seed('C01-lazy-expiry', 'C01', 'a key is written at the moment another request finds its old value expired',
 'a read that finds an expired entry removes it later, and with it a value written in between',
 [(KM, """                if Instant::now() > expiry {
                    return None;
                }
""", """                if Instant::now() > expiry {
                    // Free the memory without waiting for the cleanup
                    let inner = self.inner.clone();
                    let key = key.to_string();
                    tokio::spawn(async move { inner.remove(&key); });
                    return None;
                }
""")], """
s = Server(STORE_CLEANUP_INTERVAL_SECS=3600); a = s.conn(); b = s.conn()
N = 3000
ids = [a.send(SET, st('k%d' % i) + st('{"ttl":1}') + b'old') for i in range(N)]
for i in ids: a.wait(i)
time.sleep(1.5)
ga = []; sb = []
for i in range(N):
    ga.append(a.send(GET, st('k%d' % i)))
    sb.append(b.send(SET, st('k%d' % i) + st('{}') + b'new'))
for i in ga: a.wait(i)
for i in sb: b.wait(i)
time.sleep(0.5)
lost = [i for i in range(N) if b.get('k%d' % i) != b'new']
expect(not lost, '%d keys do not have the value they were set to' % len(lost))
""")

seed('C05-binding', 'C05', 'two consumers of one group on one connection, one leaves, then the connection ends',
 'the other consumer stays a member after its connection has ended, holding its messages',
 [(SM, """                bindings.retain(|binding| !(binding.group_id == group && binding.consumer_id == consumer_id));
""", """                bindings.retain(|binding| binding.group_id != group);
""")], """
s = Server(STREAM_ACK_WAIT_MS=60000); a = s.conn(); c = s.conn()
c.screate('t')
for i in range(10): c.spub('t', b'%d' % i)
j1 = a.sjoin('t', 'g'); j2 = a.sjoin('t', 'g')
a.sleave('t', 'g', j1)
expect(len(a.sfetch('t', 'g', j2)) == 10, 'the second consumer fetches')
a.close(); time.sleep(0.7)
j = c.sjoin('t', 'g')
v = c.sfetch('t', 'g', j, wait=2000)
expect(len(v) == 10, 'after the connection ended %d of its 10 messages are available again' % len(v))
""")

seed('C10-deadline', 'C10', 'a waiting consume is woken by a message that another waiter takes',
 'its waiting time starts anew each time it is woken in vain',
 [(QM, """                _ = sleep_until(deadline) => return Ok(vec![]),
""", """                _ = tokio::time::sleep(Duration::from_millis(wait_val)) => return Ok(vec![]),
""")], """
s = Server(); c = s.conn(); c.qcreate('q')
cs = [s.conn() for _ in range(5)]
t = time.time()
ids = [x.qconsume_send('q', 1, 1000) for x in cs]
time.sleep(0.8)
c.qpush('q', b'm')
got = 0; late = []
for x, i in zip(cs, ids):
    got += len(batch(x.wait(i)))
d = time.time() - t
expect(got == 1, 'one waiter gets the message')
expect(d < 1.55, 'a consume waiting 1 s was answered after %.2f s' % d)
""")

seed('C12-cold-redeliver', 'C12', 'messages read from disk again after a later one of the same batch was acknowledged',
 'a message that was acknowledged out of order is delivered again when the group reads from disk',
 [(SG, """            let is_fresh = seq == next_fresh_seq;
""", """            let is_fresh = seq == next_fresh_seq || (seq < next_fresh_seq && seq > self.ack_floor && !self.pending.contains_key(&seq));
"""), (SG, """                if is_fresh {
                    self.next_deliver_seq = seq + 1;
                }
""", """                if is_fresh {
                    self.next_deliver_seq = self.next_deliver_seq.max(seq + 1);
                }
""")], """
s = Server(STREAM_RAM_SOFT_LIMIT=2, STREAM_EVICTION_INTERVAL_MS=50, STREAM_ACK_WAIT_MS=60000, STREAM_DEFAULT_FLUSH_MS=20); a = s.conn(); b = s.conn()
a.screate('t')
for i in range(30): a.spub('t', b'%d' % i)
time.sleep(0.5)
j = a.sjoin('t', 'g')
v = [q for q, _, _ in a.sfetch('t', 'g', j, 20)]
expect(v == list(range(1, 21)), 'the first fetch returned %s' % v)
for q in range(2, 11): a.sack('t', 'g', j, q)
a.sleave('t', 'g', j)
k = b.sjoin('t', 'g'); got = []
for _ in range(10):
    got += [q for q, _, _ in b.sfetch('t', 'g', k, 100, 200)]
expect(not [q for q in got if 2 <= q <= 10], 'acknowledged positions delivered again: %s' % [q for q in got if 2 <= q <= 10])
expect(sorted(set(got)) == [1] + list(range(11, 31)), 'the rest is delivered: %s' % got)
""")

seed('C13-floor-front', 'C13', 'several released messages whose order in the redelivery queue is not that of their positions',
 'the floor of a group passes messages that wait for redelivery, which are lost at the next restart',
 [(SG, """            && !self.redeliver.iter().any(|seq| *seq == self.ack_floor + 1)
""", """            && self.redeliver.front() != Some(&(self.ack_floor + 1))
""")], """
s = Server(STREAM_ACK_WAIT_MS=60000); c = s.conn()
c.screate('t')
for i in range(20): c.spub('t', b'%d' % i)
for g in range(12):
    g = 'g%d' % g
    j = c.sjoin('t', g)
    expect(len(c.sfetch('t', g, j)) == 20, 'fetch')
    c.sleave('t', g, j)
for g in s.get('/api/stream')['topics'][0]['groups']:
    expect(g['ack_floor'] == 0, 'group %s is at floor %d although nothing was acknowledged' % (g['id'], g['ack_floor']))
""")

seed('C15-at-limit', 'C15', 'a stream whose files take exactly as many bytes as its limit allows',
 'retention removes a segment of a stream that is within its limit',
 [(SP, """            while current_total > max_bytes && i < segments.len().saturating_sub(1) {
""", """            while current_total >= max_bytes && i < segments.len().saturating_sub(1) {
""")], """
s = Server(STREAM_MAX_SEGMENT_SIZE=124, STREAM_DEFAULT_FLUSH_MS=20, STREAM_RETENTION_CHECK_MS=100); c = s.conn()
# a record is 24 bytes and its payload, a segment holds one of 100 bytes
c.screate('t', retention={'maxBytes': 500, 'maxAgeMs': 0})
for i in range(5): c.spub('t', (b'%d' % i) * 76)
time.sleep(1)
v = read(s, 't')
v = v if isinstance(v, list) else v['messages']
expect(len(v) == 5, 'five messages of 100 bytes each are within 500 bytes, %d are left' % len(v))
""")

seed('C20-utf8-grow', 'C20', 'a name of many non-ASCII characters in a request that outgrows the first buffer at that place',
 'the SDK sends a frame shorter than its header says, which swallows the beginning of the requests behind it',
 [('sdk/ts/src/codec.ts', """    this.ensure(4 + len);
    this.buf.writeUInt32BE(len, this.offset);
    this.offset += 4;
    if (len > 0) this.buf.write(s, this.offset, len, 'utf8');
""", """    this.ensure(4 + s.length);
    this.buf.writeUInt32BE(len, this.offset);
    this.offset += 4;
    if (len > 0) this.buf.write(s, this.offset, len, 'utf8');
""")], """
const c = await client(await server());
for (const n of [10, 60, 80, 100, 120, 200, 400]) {
  const k = '\u20ac'.repeat(n);
  const r = await Promise.race([c.store.map.set(k, n).then(() => c.store.map.get(k)).catch(e => 'error ' + e.message), sleep(3000).then(() => 'no answer')]);
  expect(r === n, `a key of ${n} characters reads back as ${r}`);
}
""", js=True)

seed('C20-half-frame', 'C20', 'a connection is lost in the middle of an answer and restored',
 'the half answer is put in front of what the new connection receives, so that no request is answered any more',
 [('sdk/ts/src/connection.ts', """      this.chunks = [];
      this.buffer = Buffer.alloc(0);

      if (this.shouldReconnect""", """      this.chunks = [];

      if (this.shouldReconnect""")], """
import net from 'node:net';
let n = 0;
const srv = net.createServer(s => {
  const first = ++n === 1;
  s.on('error', () => {});
  s.on('data', b => {
    while (b.length >= 10) {
      const len = b.readUInt32BE(6), a = Buffer.alloc(10 + 2);
      a[0] = 2; a[1] = 0; b.copy(a, 2, 2, 6); a.writeUInt32BE(2, 6); a[10] = 2; a[11] = 0x37;
      if (first) { s.write(a.subarray(0, 5)); setTimeout(() => s.destroy(), 100); } else s.write(a);
      b = b.subarray(10 + len);
    }
  });
}).listen(0, '127.0.0.1');
await new Promise(r => srv.on('listening', r));
const c = await client(srv.address().port);
await c.store.map.get('a').then(() => expect(false, 'answered'), () => {});
const end = Date.now() + 20000;
let r = 'never connected again';
while (Date.now() < end) {
  await sleep(200);
  r = await Promise.race([c.store.map.get('a').catch(e => e.name), sleep(3000).then(() => 'no answer')]);
  if (r !== 'NotConnectedError' && !/not connected/i.test(r)) break;
}
expect(r === 7, 'after the connection is restored a request gives ' + r);
""", js=True)

seed('C21-stale-generation', 'C21', 'a group is seeked while a consumer of it is subscribed',
 'the consumer joins again under the generation it had before and is refused from then on',
 [('sdk/ts/src/brokers/stream.ts', """    this.generation = res.cursor.readU64();
""", """    const generation = res.cursor.readU64();
    if (this.generation === 0n) this.generation = generation;
""")], """
const p = await server(), c = await client(p);
const s = c.stream('t'); await s.create();
for (let i = 0; i < 5; i++) await s.publish(i);
const got = [];
await s.subscribe('g', v => { got.push(v); }, { waitMs: 300 });
await sleep(1000);
expect(got.length === 5, 'the messages are consumed');
await s.seek('g', 'beginning');
for (let i = 0; i < 60 && got.length < 10; i++) await sleep(100);
expect(got.join() === '0,1,2,3,4,0,1,2,3,4', 'after seeking to the beginning the consumer has got ' + got);
""", js=True)

seed('C21-thenable', 'C21', 'a callback that answers with a promise of another kind than the native one, or answers synchronously after throwing',
 'the message is acknowledged before such a promise has settled, so that a failed message is lost instead of retried',
 [('sdk/ts/src/brokers/queue.ts', """              await callback(msg.data);
              this.ack(msg.id);
""", """              // No detour over the microtask queue for callbacks that are done already
              const done = callback(msg.data);
              if (done instanceof Promise) await done;
              this.ack(msg.id);
""")], """
const p = await server(), c = await client(p);
const q = c.queue('q'); await q.create({ maxRetries: 5, visibilityTimeoutMs: 60000 });
await q.push('m');
let n = 0;
await q.subscribe(v => ({ then(ok, fail) { n++; setTimeout(() => n < 3 ? fail(new Error('not yet')) : ok(), 50); } }), { waitMs: 300 });
for (let i = 0; i < 50 && n < 3; i++) await sleep(100);
expect(n === 3, `a message whose processing fails twice was processed ${n} times`);
""", js=True)

seed('C09-coalesce', 'C09', 'a message is delivered, dead-lettered, replayed and delivered again between two flushes, then the server is killed',
 'of several state changes of one message waiting to be written only the place of the first is kept; the last delivery is lost, so after the restart the message is handed out a second time',
 [(QP, """                            match rx.try_recv() {
                                Ok(op) => batch.push(op),
""", """                            match rx.try_recv() {
                                Ok(op) => enqueue(&mut batch, op),
"""), (QP, """                    Some(op) => {
                        batch.push(op);
""", """                    Some(op) => {
                        enqueue(&mut batch, op);
"""), (QP, """// ==========================================
// SQLITE OPERATIONS
""", """/// Only the latest state of a message needs to be written.
fn enqueue(batch: &mut Vec<StorageOp>, op: StorageOp) {
    if let StorageOp::UpdateState { id, .. } = &op {
        let same = batch.iter_mut().find(|o| matches!(o, StorageOp::UpdateState { id: other, .. } if other == id));
        if let Some(earlier) = same {
            *earlier = op;
            return;
        }
    }
    batch.push(op);
}

// ==========================================
// SQLITE OPERATIONS
""")], """
s = Server(QUEUE_DEFAULT_FLUSH_MS=3000); c = s.conn()
c.qcreate('q', visibilityTimeoutMs=600000, maxRetries=1)
c.qpush('q', b'm')
time.sleep(0.1)
[(i, _)] = c.qconsume('q')
c.qnack('q', i)
c.call(Q_MOVE, st('q') + i)
expect(len(c.qconsume('q')) == 1, 'replayed message is delivered')
time.sleep(4)
s.restart(); c = s.conn()
v = c.qconsume('q')
expect(not v, 'a message in flight for ten minutes is delivered again after a restart')
""")

seed('C07-two-step-move', 'C07', 'two requests move the same dead letter at the same time',
 'both succeed, and the message can be consumed and acknowledged twice',
 [(QM, """            if let Some(dlq_msg) = inner.dlq.remove(&message_id) {
""", """            if let Some(dlq_msg) = found {
                inner.dlq.remove(&message_id);
"""), (QM, """        let shared = self.get_queue(queue_name)
            .ok_or_else(|| format!("Queue '{}' not found", queue_name))?;

        let moved = {
""", """        let shared = self.get_queue(queue_name)
            .ok_or_else(|| format!("Queue '{}' not found", queue_name))?;

        // The copy may be large: make it without holding up the queue for longer than the look-up takes.
        let found = Self::lock(&shared.inner).dlq.peek_all().into_iter().find(|m| m.id == message_id).cloned();
        let moved = {
""")], """
s = Server(); a = s.conn(); b = s.conn()
a.qcreate('q', maxRetries=1, visibilityTimeoutMs=600000)
both = 0
N = 400
for _ in range(N): a.qpush('q', os.urandom(8))
for k in range(0, N, 100):
    for i, _b in a.qconsume('q', 100): a.qnack('q', i)
total, v = a.qpeek('q', 1000)
for i, _b, _a, _r in v:
    x = [c.send(Q_MOVE, st('q') + i) for c in (a, b, a, b, a, b, a, b)]
    r = [c.wait(n) for c, n in zip((a, b, a, b, a, b, a, b), x)]
    if sum(y == r2 for y in r for r2 in [b'\\x01']) > 1: both += 1
n = 0
while True:
    got = a.qconsume('q', 100)
    if not got: break
    n += len(got)
expect(not both, '%d of %d dead letters were moved by more than one request' % (both, N))
""")

seed('C16-inflight-cap', 'C16', 'more than 256 waiting requests on one connection',
 'further requests on the connection, even the one that would end the waiting, are not answered until a waiting one ends',
 [('src/transport/tcp/connection.rs', """            Some(frame) = inbound_rx.recv() => {
""", """            // A client must not pile up an unbounded number of requests
            Some(frame) = inbound_rx.recv(), if request_set.len() < 256 => {
""")], """
s = Server(); c = s.conn(); c.qcreate('q')
ids = [c.qconsume_send('q', 1, 20000) for _ in range(300)]
try: c.set('k', b'v'); ok = True
except Err: ok = False
expect(ok, 'a request behind 300 waiting ones is not answered within 15 s')
""")

seed('C16-need', 'C16', 'a large frame arrives in pieces and its last piece also carries the beginning of the next frame',
 'smaller frames that follow are not looked at until as many bytes are there as the large one had',
 [('src/transport/tcp/protocol/codec.rs', """pub struct NexoCodec;
""", """pub struct NexoCodec {
    /// Bytes the frame in progress needs: below, there is nothing to decode yet
    need: usize,
}
"""), ('src/transport/tcp/protocol/codec.rs', """        Self
    }
}

impl Decoder""", """        Self::default()
    }
}

impl Decoder"""), ('src/transport/tcp/protocol/codec.rs', """        if src.len() < FrameHeader::SIZE {
            return Ok(None);
        }
""", """        if src.len() < FrameHeader::SIZE.max(self.need) {
            return Ok(None);
        }
"""), ('src/transport/tcp/protocol/codec.rs', """        if src.len() < total_len {
            return Ok(None);
        }
""", """        if src.len() < total_len {
            self.need = total_len;
            return Ok(None);
        }
        if src.len() == total_len {
            self.need = 0;
        }
""")], """
s = Server(); c = s.conn()
def frame(i, op, p): return struct.pack('>BBII', 1, op, i, len(p)) + p
big = frame(1, SET, st('k') + st('{}') + b'x' * 5000); small = frame(2, GET, st('k')); tail = frame(3, GET, st('k'))
c.s.sendall(big[:100]); time.sleep(0.2)
c.s.sendall(big[100:] + small[:5]); time.sleep(0.2)
c.s.sendall(small[5:]); c.wait(1)
try: c.wait(2, 5); ok = True
except Err: ok = False
expect(ok, 'the request behind a fragmented one is not answered')
""")

seed('C17-trailing-slash', 'C17', 'two streams whose names differ only in a slash at the end',
 'messages for the stream "a/" end up in the stream "a"',
 [(SM, """        self.topics.get(topic).map(|entry| entry.value().clone())
""", """        // "a/" is a lenient way to write "a"
        self.topics.get(topic.trim_end_matches('/')).or_else(|| self.topics.get(topic)).map(|entry| entry.value().clone())
""")], """
s = Server(); c = s.conn()
c.screate('a'); c.screate('a/')
c.spub('a/', b'm')
t = {x['name']: x['last_seq'] for x in s.get('/api/stream')['topics']}
expect(t == {'a': 0, 'a/': 1}, 'a publish to "a/" changed %r' % t)
""")

seed('C18-upsert', 'C18', 'a queue is created a second time with a shorter visibility timeout',
 'the second creation changes the options of the existing queue until the next restart',
 [(QM, """            Entry::Occupied(_) => Ok(()),
            Entry::Vacant(v) => {
                let config = QueueConfig""", """            Entry::Occupied(o) => {
                // The most patient of the creators wins
                if let Some(ms) = options.visibility_timeout_ms {
                    let mut inner = Self::lock(&o.get().inner);
                    inner.config.visibility_timeout_ms = inner.config.visibility_timeout_ms.max(ms);
                }
                Ok(())
            }
            Entry::Vacant(v) => {
                let config = QueueConfig""")], """
s = Server(); c = s.conn()
c.qcreate('q', visibilityTimeoutMs=500)
c.qcreate('q', visibilityTimeoutMs=60000)
c.qpush('q', b'm')
expect(len(c.qconsume('q')) == 1, 'delivered')
time.sleep(1.2)
expect(len(c.qconsume('q')) == 1, 'a second create changed the visibility timeout')
""")

seed('C19-search-tag', 'C19', 'a queue message without a type byte, searched by the beginning of its payload',
 'the search does not look at the first byte of the payload',
 [(QS, """                    Some(s) => String::from_utf8_lossy(&msg.payload).contains(s),
""", """                    // The first byte is the type of the payload
                    Some(s) => String::from_utf8_lossy(msg.payload.get(1..).unwrap_or_default()).contains(s),
""")], """
s = Server(); c = s.conn(); c.qcreate('q')
c.qpush('q', b'needle in the hay')
v = s.get('/api/queue/q/messages?state=pending&search=needle')
expect(len(v.get('messages', v.get('data', []))) == 1, 'the search misses a message: %r' % v)
""")

seed('C22-backlog-cap', 'C22', 'writing fails for a while and more changes pile up than four times the batch size',
 'the changes beyond that are dropped, so they are not on disk when the writing works again',
 [(QP, """                    Some(op) => {
                        batch.push(op);
""", """                    Some(op) => {
                        // A backlog that cannot be written must not eat all the memory
                        if batch.len() < batch_size.saturating_mul(4) {
                            batch.push(op);
                        }
""")], """
import resource
s = Server(sigxfsz_ignored=True, QUEUE_WRITER_BATCH_SIZE=10); c = s.conn()
c.qcreate('q', visibilityTimeoutMs=600000)
time.sleep(0.5)
resource.prlimit(s.p.pid, resource.RLIMIT_FSIZE, (1, -1))
for k in range(300):
    c.qpush('q', b'%d' % k)
    time.sleep(0.005)
time.sleep(1)
resource.prlimit(s.p.pid, resource.RLIMIT_FSIZE, (-1, -1))
time.sleep(5)
s.restart()
[q] = [x for x in s.get('/api/queue') if x['name'] == 'q']
expect(q['pending'] == 300, '%d of 300 messages are there after the database could be written again' % q['pending'])
""")

seed('C02-prune-anchor', 'C02', 'a client unsubscribes from a topic below which another client has only a subscription ending in #',
 'the other subscription is discarded with the node',
 [(PR, """            && self.plus_child.is_none()
            && self.hash_child.is_none()
            && self.retained.is_none()
""", """            && self.plus_child.is_none()
            && self.hash_child.as_ref().map_or(true, |node| node.children.is_empty() && node.plus_child.is_none())
            && self.retained.is_none()
""")], """
s = Server(); a = s.conn(); b = s.conn(); c = s.conn()
a.sub('plant/line/#'); b.sub('plant/line')
b.unsub('plant/line')
c.pub('plant/line/1', b'x')
expect([p for _, p in a.pushes(1)] == [b'x'], 'a subscription ended with the unsubscription of another client')
""")

seed('C10-expiry-one', 'C10', 'several messages time out in the same pass while several consumers wait',
 'only one of the consumers is woken, the others wait on although messages are ready',
 [(QM, """                    if !requeued.is_empty() {
                        shared.notify.notify_waiters();
""", """                    if !requeued.is_empty() {
                        shared.notify.notify_one();
""")], """
s = Server(); c = s.conn(); c.qcreate('q', visibilityTimeoutMs=6000, maxRetries=100)
for i in range(3): c.qpush('q', b'%d' % i)
expect(len(c.qconsume('q', 3)) == 3, 'all are delivered')
ws = [s.conn() for _ in range(3)]
ids = [w.qconsume_send('q', 1, 60000) for w in ws]
end = time.time() + 10.5
for w, i in zip(ws, ids):
    try:
        r = w.wait(i, max(0.5, end - time.time()))
    except Exception as e:
        expect(False, 'a consumer waits on while messages are ready: %r' % e)
""")

seed('C15-held-gone', 'C15', 'retention removes messages that a member holds unacknowledged, as many as it may hold',
 'they count as held until they time out, so that the member gets nothing meanwhile',
 [(SG, """            for seq in stale_pending {
                self.pending.remove(&seq);
                self.delivery_attempts.remove(&seq);
            }
            changed = true;
""", """            // Removed by the next redelivery check
            for seq in stale_pending {
                changed |= self.delivery_attempts.remove(&seq).is_some();
            }
""")], """
s = Server(STREAM_RETENTION_CHECK_MS=300, STREAM_MAX_ACK_PENDING=4, STREAM_ACK_WAIT_MS=600000, STREAM_MAX_SEGMENT_SIZE=400)
c = s.conn(); c.screate('t', retention={'maxBytes': 1000})
for i in range(4): c.spub('t', b'a' * 50)
j = c.sjoin('t', 'g')
expect(len(c.sfetch('t', 'g', j)) == 4, 'four are delivered')
for i in range(60): c.spub('t', b'b' * 50)
time.sleep(2.5)
head = min(m['seq'] for m in read(s, 't')['messages'])
expect(head > 4, 'retention has removed the first messages (first is %d)' % head)
end = time.time() + 5
v = []
while not v and time.time() < end:
    v = c.sfetch('t', 'g', j); time.sleep(0.1)
expect(v, 'a member whose messages were removed gets nothing any more')
""")

FOOT = """
def rss():
    return next(int(l.split()[1]) for l in open('/proc/%d/status' % s.p.pid) if l.startswith('RssAnon'))
def growth(f):
    f(400); a = rss(); f(400); f(400); return rss() - a
"""
seed('C23-dead-clients', 'C23', 'clients that joined a group come and go',
 'what a client was bound to is kept after it disconnected',
 [(SM, """                if let Some(bindings) = inner.client_map.remove(&client_id) {
""", """                if let Some(bindings) = inner.client_map.get(&client_id).cloned() {
""")], """
s = Server(); c = s.conn(); c.screate('t'); g = 'g' * 60000
""" + FOOT + """
def work(n):
    for i in range(n):
        x = s.conn(); x.sjoin('t', g); x.close()
    time.sleep(0.5)
d = growth(work)
expect(d < 16000, 'clients that came and went left %d KiB' % d)
""")

seed('C23-hash-node', 'C23', 'patterns ending in # are unsubscribed',
 'their nodes stay in the routing tree',
 [(PR, """                hash_node.subscribers.remove(client);
                if hash_node.is_empty() {
                    should_remove = true;
                }
""", """                // The last subscriber takes the node with it
                if hash_node.subscribers.remove(client) && hash_node.is_empty() {
                    should_remove = hash_node.subscribers.capacity() == 0;
                }
""")], """
s = Server(); c = s.conn()
""" + FOOT + """
k = [0]
def work(n):
    for i in range(n):
        k[0] += 1
        t = '%d-%s/#' % (k[0], 'x' * 60000)
        c.sub(t); c.unsub(t)
d = growth(work)
expect(d < 16000, 'subscriptions that ended left %d KiB' % d)
""")
