//! C23: what the server takes up follows what it holds, not what it has been through.
use crate::client::*;
use crate::proto::*;
use crate::report::Fail;
use crate::rng::hash64;
use crate::run::{Ctx, Spec};
use crate::server::{Cfg, Server};
use crate::viol;
use std::path::Path;
use std::time::Duration;

pub fn spec() -> Spec {
    Spec {
        scenarios: vec![
            ("keys", 1, |c| cycles(c, "keys")),
            ("keys-ttl", 1, |c| cycles(c, "keys-ttl")),
            ("subs", 1, |c| cycles(c, "subs")),
            ("subs-gone", 1, |c| cycles(c, "subs-gone")),
            ("plain", 1, |c| cycles(c, "plain")),
            ("retain", 1, |c| cycles(c, "retain")),
            ("retain-ttl", 1, |c| cycles(c, "retain-ttl")),
            ("clear-nothing", 1, |c| cycles(c, "clear-nothing")),
            ("overwrite", 1, |c| cycles(c, "overwrite")),
            ("queues", 1, |c| cycles(c, "queues")),
            ("queue-life", 1, |c| cycles(c, "queue-life")),
            ("queue-dead", 1, |c| cycles(c, "queue-dead")),
            ("streams", 1, |c| cycles(c, "streams")),
            ("stream-log", 1, |c| cycles(c, "stream-log")),
            ("members", 1, |c| cycles(c, "members")),
            ("conns", 1, |c| cycles(c, "conns")),
            ("missing", 1, |c| cycles(c, "missing")),
            ("waits", 1, |c| cycles(c, "waits")),
            ("http", 1, |c| cycles(c, "http")),
            ("missing-group", 1, |c| cycles(c, "missing-group")),
            ("seek", 1, |c| cycles(c, "seek")),
            ("redeliver", 1, |c| cycles(c, "redeliver")),
            ("requeue", 1, |c| cycles(c, "requeue")),
        ],
        par: 8,
        quick_s: 90,
        thorough_s: 420,
        level: "exploration",
        rule: "A server is taken through the same kind of work again and again, each time under fresh names, and each time everything is given back: keys deleted or expired, subscriptions ended or their clients gone, retained values cleared or expired, messages acknowledged, dead letters purged, queues and streams deleted, old messages removed by retention, members left, waiting requests timed out, requests refused. After every cycle the timers of all clean-up tasks pass in virtual time, the server comes to rest, and the monitor takes its live heap bytes (malloc's own account), open descriptors, and the files and bytes of the data directory. After the warm-up these must not go on growing: growth over twelve cycles has to repeat in three consecutive windows to count. One evaluation = one measured cycle; distinct by kind of work and measured state.",
        assumptions: vec!["write-ahead logs of SQLite and threads of the runtime are not counted", "growth below 24 KB of heap in twelve cycles (5 to 60 bytes per operation) is not seen"],
    }
}

fn pipe(c: &Conn, reqs: Vec<(u8, Vec<u8>)>) -> Result<Vec<Resp>, Fail> {
    let mut out = vec![];
    for part in reqs.chunks(100) {
        let ids: Vec<u32> = part.iter().map(|(op, p)| c.send(*op, p)).collect();
        for id in ids {
            out.push(c.wait(id)?);
        }
    }
    Ok(out)
}

struct Lab {
    c: Conn,
    d: Conn,
    n: u64,
    size: usize,
    way: u64,
}
impl Lab {
    fn name(&mut self) -> String {
        self.n += 1;
        format!("n{:09}", self.n)
    }
    fn names(&mut self, k: usize) -> Vec<String> {
        (0..k).map(|_| self.name()).collect()
    }
}

fn drain(c: &Conn, q: &str) -> Result<Vec<Id>, Fail> {
    let mut ids = vec![];
    loop {
        let b = c.q_consume(q, Some(100), Some(0))?;
        if b.is_empty() {
            return Ok(ids);
        }
        ids.extend(b.iter().map(|m| m.id));
    }
}
fn acks(c: &Conn, q: &str, ids: &[Id]) -> Result<(), Fail> {
    pipe(c, ids.iter().map(|id| (Q_ACK, W::new().raw(id).s(q).0)).collect())?;
    Ok(())
}

/// Operations done.
fn cycle(kind: &str, l: &mut Lab, srv: &Server) -> Result<u64, Fail> {
    let way = l.way;
    let pay = vec![7u8; l.size];
    let n = match kind {
        "keys" => {
            let k = l.names(400);
            pipe(&l.c, k.iter().map(|k| (SET, W::new().s(k).s(if way % 2 == 0 { "{}" } else { "{\"ttl\":100000}" }).raw(&pay).0)).collect())?;
            pipe(&l.c, k.iter().map(|k| (GET, W::new().s(k).0)).collect())?;
            pipe(&l.c, k.iter().map(|k| (DEL, W::new().s(k).0)).collect())?;
            k.len()
        }
        "keys-ttl" => {
            let k = l.names(400);
            pipe(&l.c, k.iter().map(|k| (SET, W::new().s(k).s("{\"ttl\":1}").raw(&pay).0)).collect())?;
            k.len()
        }
        "subs" | "subs-gone" => {
            let pats: Vec<String> = l.names(400).iter().enumerate().map(|(i, n)| match i % 6 { 0 => format!("a/{}", n), 1 => format!("{}/+", n), 2 => format!("+/{}/#", n), 3 => format!("{}/b/c/d", n), 4 => format!("{}/#", n), _ => n.clone() }).collect();
            let own = if kind == "subs" { None } else { Some(srv.conn()?) };
            let c = own.as_ref().unwrap_or(&l.c);
            pipe(c, pats.iter().map(|p| (SUB, W::new().s(p).0)).collect())?;
            match &own {
                None => {
                    if way % 2 == 1 {
                        pipe(c, pats.iter().map(|p| (SUB, W::new().s(p).0)).collect())?;
                    }
                    pipe(c, pats.iter().map(|p| (UNSUB, W::new().s(p).0)).collect())?;
                }
                Some(c) => match way % 3 {
                    0 => c.close(),
                    1 => c.reset(),
                    _ => c.half_close(),
                },
            }
            pats.len()
        }
        "plain" => {
            let t = l.names(400);
            pipe(&l.c, t.iter().map(|t| (PUB, W::new().s(&format!("{}/x", t)).s("{}").raw(&pay).0)).collect())?;
            t.len()
        }
        "retain" | "retain-ttl" | "clear-nothing" => {
            let t: Vec<String> = l.names(400).iter().map(|t| if way % 2 == 0 { format!("r/{}/x", t) } else { t.clone() }).collect();
            if kind != "clear-nothing" {
                let o = if kind == "retain" { "{\"retain\":true}" } else { "{\"retain\":true,\"ttl\":1}" };
                pipe(&l.c, t.iter().map(|t| (PUB, W::new().s(t).s(o).raw(&pay).0)).collect())?;
            }
            if kind != "retain-ttl" {
                pipe(&l.c, t.iter().map(|t| (PUB, W::new().s(t).s("{\"retain\":true}").0)).collect())?;
            }
            t.len()
        }
        "overwrite" => {
            let mut reqs = vec![];
            for i in 0..600u64 {
                reqs.push((PUB, W::new().s(&format!("o/{}", i % 50)).s("{\"retain\":true}").raw(&pay).0));
                reqs.push((SET, W::new().s(&format!("o{}", i % 50)).s("{}").raw(&pay).0));
            }
            pipe(&l.c, reqs)?.len()
        }
        "queues" => {
            let qs = l.names(10);
            for q in &qs {
                l.c.q_create(q, "{\"maxRetries\":1}")?;
                for _ in 0..4 {
                    l.c.q_push(q, None, &pay)?;
                }
                let b = l.c.q_consume(q, Some(2), Some(0))?;
                if let Some(m) = b.first() {
                    l.c.q_nack(q, &m.id, "r")?;
                }
                l.c.must_ok(Q_DELETE, &W::new().s(q).0)?;
            }
            qs.len() * 7
        }
        "queue-life" | "queue-dead" => {
            l.c.q_create("life", "{\"maxRetries\":1}")?;
            l.c.q_create("dead", "{\"maxRetries\":1}")?;
            let q = if kind == "queue-life" { "life" } else { "dead" };
            let opts = |i: usize| Some((i % 3) as u8);
            pipe(&l.c, (0..300).map(|i| (Q_PUSH, enc_push(q, opts(i), &pay))).collect())?;
            let ids = drain(&l.c, q)?;
            if kind == "queue-life" {
                acks(&l.c, q, &ids)?;
            } else {
                pipe(&l.c, ids.iter().map(|id| (Q_NACK, W::new().raw(id).s(q).s("reason").0)).collect())?;
                match way % 3 {
                    0 => {
                        l.c.q_purge(q)?;
                    }
                    1 => {
                        pipe(&l.c, ids.iter().map(|id| (Q_DEL_DLQ, W::new().s(q).raw(id).0)).collect())?;
                    }
                    _ => {
                        pipe(&l.c, ids.iter().map(|id| (Q_MOVE, W::new().s(q).raw(id).0)).collect())?;
                        let ids = drain(&l.c, q)?;
                        acks(&l.c, q, &ids)?;
                    }
                }
            }
            300
        }
        "streams" => {
            let ts = l.names(30);
            for t in &ts {
                l.c.s_create(t, "{}")?;
                pipe(&l.c, (0..5).map(|_| (S_PUB, W::new().s(t).raw(&pay).0)).collect())?;
                let j = l.c.s_join(t, "g")?;
                if let Ok(b) = l.c.s_fetch(t, "g", &j, 3, 0)? {
                    if let Some(m) = b.first() {
                        let _ = l.c.s_ack(t, "g", &j, m.seq)?;
                    }
                }
                if way % 3 == 0 {
                    let _ = l.c.s_leave(t, "g", &j)?;
                }
            }
            if way % 2 == 0 {
                srv.adv(200);
                srv.settle();
            }
            pipe(&l.c, ts.iter().map(|t| (S_DELETE, W::new().s(t).0)).collect())?;
            ts.len() * 10
        }
        "seek" | "redeliver" => {
            l.c.s_create("seek", "{}")?;
            if l.n == 0 {
                l.n = 1;
                pipe(&l.c, (0..60).map(|_| (S_PUB, W::new().s("seek").raw(&pay).0)).collect())?;
                srv.adv(200);
                srv.settle();
            }
            let j = l.c.s_join("seek", "g")?;
            for _ in 0..if kind == "seek" { 20 } else { 3 } {
                l.c.s_seek("seek", "g", false)?.map_err(Fail::Inconclusive)?;
                let j = l.c.s_join("seek", "g")?;
                let k = l.c.s_join("seek", "g")?;
                let mut seen = vec![];
                for _ in 0..if kind == "seek" { 2 } else { 6 } {
                    if let Ok(b) = l.c.s_fetch("seek", "g", &j, 20, 0)? {
                        seen.extend(b.iter().map(|m| m.seq));
                    }
                    if kind == "redeliver" {
                        srv.adv(1200);
                        srv.settle();
                    }
                    if let Ok(b) = l.c.s_fetch("seek", "g", &k, 20, 0)? {
                        seen.extend(b.iter().map(|m| m.seq));
                    }
                }
                pipe(&l.c, seen.iter().filter(|n| way % 2 == 0 || *n % 2 == 0).map(|n| (S_ACK, W::new().s("seek").s("g").s(&k.cid).u64(k.gen).u64(*n).0)).collect())?;
                l.c.s_seek("seek", "g", true)?.map_err(Fail::Inconclusive)?;
                if way % 3 > 0 {
                    for m in [&j, &k] {
                        let _ = l.c.s_leave("seek", "g", m)?;
                    }
                }
            }
            let _ = l.c.s_leave("seek", "g", &j)?;
            if way % 3 == 0 {
                // the members go with their client
                l.c.close();
                l.c = srv.conn()?;
            }
            400
        }
        "requeue" => {
            l.c.q_create("again", "{\"visibilityTimeoutMs\":500,\"maxRetries\":3}")?;
            pipe(&l.c, (0..100).map(|i| (Q_PUSH, enc_push("again", Some((i % 4) as u8), &pay))).collect())?;
            for turn in 0..4 {
                let ids = drain(&l.c, "again")?;
                match (turn + way) % 3 {
                    0 => pipe(&l.c, ids.iter().map(|id| (Q_NACK, W::new().raw(id).s("again").s("reason").0)).collect()).map(|_| ())?,
                    _ => {
                        srv.adv(700);
                        srv.settle();
                    }
                }
            }
            acks(&l.c, "again", &drain(&l.c, "again")?)?;
            l.c.q_purge("again")?;
            500
        }
        "stream-log" => {
            l.c.s_create("log", "{\"retention\":{\"maxBytes\":20000}}")?;
            let j = l.c.s_join("log", "g")?;
            for _ in 0..4 {
                pipe(&l.c, (0..100).map(|_| (S_PUB, W::new().s("log").raw(&[5u8; 80]).0)).collect())?;
                srv.adv(200);
                srv.settle();
                if let Ok(b) = l.c.s_fetch("log", "g", &j, 60, 0)? {
                    for m in b.iter().filter(|m| way % 2 == 0 || m.seq % 2 == 0) {
                        let _ = l.c.s_ack("log", "g", &j, m.seq)?;
                    }
                }
                if way % 2 == 1 {
                    srv.adv(1500);
                    srv.settle();
                }
            }
            let _ = l.c.s_leave("log", "g", &j)?;
            400
        }
        "members" => {
            l.c.s_create("mem", "{}")?;
            if l.n == 0 {
                l.n = 1;
                pipe(&l.c, (0..3).map(|_| (S_PUB, W::new().s("mem").raw(&pay).0)).collect())?;
            }
            // one client for all, or one for every few; leaving, or gone with its connection
            for k in 0..if way % 3 == 0 { 1 } else { 40 } {
                let own = if way % 3 == 0 && way % 2 == 0 { None } else { Some(srv.conn()?) };
                let c = own.as_ref().unwrap_or(&l.c);
                for i in 0..if way % 3 == 0 { 200 } else { 5 } {
                    let j = c.s_join("mem", "g")?;
                    if i % 4 == 0 {
                        let _ = c.s_fetch("mem", "g", &j, 1, 0)?;
                    }
                    if own.is_none() || (way + k + i) % 3 > 0 {
                        let _ = c.s_leave("mem", "g", &j)?;
                    }
                }
                if let Some(c) = own {
                    c.close();
                }
            }
            200
        }
        "conns" => {
            l.c.q_create("wq", "{}")?;
            l.c.s_create("ws", "{}")?;
            let cs: Result<Vec<Conn>, Fail> = (0..50).map(|_| srv.conn()).collect();
            for (i, c) in cs?.iter().enumerate() {
                c.subscribe("some/+")?;
                let j = c.s_join("ws", "g")?;
                c.send(Q_CONSUME, &enc_consume("wq", Some(1), Some(1_000_000)));
                c.send(S_FETCH, &enc_fetch("ws", "g", &j, 1, 1_000_000));
                c.echo(&pay)?;
                match (way + i as u64) % 3 {
                    0 => c.close(),
                    1 => c.reset(),
                    _ => c.half_close(),
                }
            }
            50
        }
        "missing" => {
            let mut reqs = vec![];
            for n in l.names(150) {
                let n = n.as_str();
                let id = [3u8; 16];
                let j = Joined { cid: "00000000-0000-0000-0000-000000000000".into(), gen: 1, floor: 0 };
                reqs.push((Q_PUSH, enc_push(n, None, b"x")));
                reqs.push((Q_CONSUME, enc_consume(n, Some(1), Some(0))));
                reqs.push((Q_ACK, W::new().raw(&id).s(n).0));
                reqs.push((Q_NACK, W::new().raw(&id).s(n).s("r").0));
                reqs.push((Q_MOVE, W::new().s(n).raw(&id).0));
                reqs.push((Q_DELETE, W::new().s(n).0));
                reqs.push((S_PUB, W::new().s(n).raw(b"x").0));
                reqs.push((S_JOIN, W::new().s("g").s(n).0));
                reqs.push((S_FETCH, enc_fetch(n, "g", &j, 1, 0)));
                reqs.push((S_SEEK, W::new().s(n).s("g").u8(0).0));
                reqs.push((S_DELETE, W::new().s(n).0));
                reqs.push((GET, W::new().s(n).0));
                reqs.push((DEL, W::new().s(n).0));
                reqs.push((UNSUB, W::new().s(n).0));
            }
            // every request once for each name, a kind at a time in some of the ways
            let k = reqs.len() / 150;
            if way % 2 == 1 {
                reqs.sort_by_key(|r| r.0);
            }
            pipe(&l.c, reqs)?;
            k * 150
        }
        "missing-group" => {
            l.c.s_create("mg", "{}")?;
            let mut reqs = vec![];
            for n in l.names(300) {
                let j = Joined { cid: n.clone(), gen: 1, floor: 0 };
                reqs.push((S_FETCH, enc_fetch("mg", &n, &j, 1, 0)));
                reqs.push((S_ACK, W::new().s("mg").s(&n).s(&j.cid).u64(1).u64(1).0));
                reqs.push((S_LEAVE, W::new().s("mg").s(&n).s(&j.cid).u64(1).0));
            }
            pipe(&l.c, reqs)?.len()
        }
        "waits" => {
            l.c.q_create("wait", "{}")?;
            l.c.s_create("wait", "{}")?;
            let j = l.c.s_join("wait", "g")?;
            let mut ids = vec![];
            for _ in 0..100 {
                ids.push(l.c.send(Q_CONSUME, &enc_consume("wait", Some(1), Some(200))));
                ids.push(l.c.send(S_FETCH, &enc_fetch("wait", "g", &j, 1, 200)));
            }
            l.c.echo(b"there")?;
            srv.settle();
            for id in ids {
                for _ in 0..500 {
                    if l.c.ready(id) {
                        break;
                    }
                    srv.adv(50);
                    srv.settle();
                }
                l.c.wait(id)?;
            }
            let _ = l.c.s_leave("wait", "g", &j)?;
            200
        }
        _ => {
            for n in l.names(60) {
                for p in ["/api/store?search=", "/api/pubsub?search=", "/api/queue/", "/api/stream/", "/none/"] {
                    srv.get_raw(&format!("{}{}{}", p, n, if p.ends_with("queue/") { "/messages?state=pending" } else if p.ends_with("stream/") { "/messages?from=1" } else { "" }))?;
                }
            }
            300
        }
    };
    l.d.echo(b"still there")?;
    Ok(n as u64)
}

#[derive(Clone, Copy, Debug)]
struct Gauge {
    heap: u64,
    fds: u64,
    files: u64,
    bytes: u64,
}
fn walk(p: &Path, files: &mut u64, bytes: &mut u64) {
    for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
        let path = e.path();
        let Ok(m) = e.metadata() else { continue };
        *files += 1;
        if m.is_dir() {
            walk(&path, files, bytes);
        } else {
            let n = path.to_string_lossy().to_string();
            if !n.ends_with("-wal") && !n.ends_with("-shm") {
                *bytes += m.len();
            }
        }
    }
}
fn measure(srv: &Server) -> Result<Gauge, Fail> {
    for _ in 0..4 {
        if !srv.quiet() {
            return Err(Fail::Inconclusive("the server does not come to rest".into()));
        }
        srv.adv(1010);
    }
    if !srv.quiet() {
        return Err(Fail::Inconclusive("the server does not come to rest".into()));
    }
    let (mut files, mut bytes) = (0, 0);
    walk(&srv.data(), &mut files, &mut bytes);
    let (heap, fds, _) = srv.ctl.gauges().ok_or_else(|| Fail::Inconclusive("no gauges".into()))?;
    Ok(Gauge { heap, fds, files, bytes })
}

const WARM: usize = 6;
const WINDOW: usize = 12;

fn cycles(ctx: &mut Ctx, kind: &'static str) -> Result<(), Fail> {
    let size = *ctx.rng.pick(&[1usize, 20, 300]);
    let way = ctx.rng.below(6);
    let cfg = Cfg::frozen()
        .set("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0")
        .set("STORE_CLEANUP_INTERVAL_SECS", 1)
        .set("PUBSUB_CLEANUP_INTERVAL_SECS", 1)
        .set("PUBSUB_RETAINED_FLUSH_MS", 100)
        .set("QUEUE_DEFAULT_FLUSH_MS", 20)
        .set("QUEUE_VISIBILITY_MS", 100_000_000)
        .set("STREAM_ACK_WAIT_MS", if kind == "redeliver" { 1000 } else { 100_000_000 })
        .set("STREAM_MAX_DELIVERIES", 3)
        .set("STREAM_DEFAULT_FLUSH_MS", 20)
        .set("STREAM_EVICTION_INTERVAL_MS", 100)
        .set("STREAM_RETENTION_CHECK_MS", 1000)
        .set("STREAM_RAM_SOFT_LIMIT", 40)
        .set("STREAM_MAX_SEGMENT_SIZE", 4000)
        .set("STREAM_MAX_OPEN_FILES", 4);
    ctx.server(cfg, |ctx, srv| {
        let mut l = Lab { c: srv.conn()?, d: srv.conn()?, n: 0, size, way };
        let mut g: Vec<Gauge> = vec![];
        let mut ops = 0;
        let mut windows = 0;
        // consecutive windows in which a gauge has grown
        let mut grown = [0u32; 4];
        loop {
            let n = if windows == 0 { WARM + WINDOW } else { WINDOW };
            for _ in 0..n {
                if ctx.stop.load(std::sync::atomic::Ordering::SeqCst) {
                    return Ok(());
                }
                ops = cycle(kind, &mut l, srv)?;
                g.push(measure(srv)?);
                ctx.rep.eval(1);
                ctx.rep.count("operations", ops);
            }
            windows += 1;
            let from = &g[g.len() - WINDOW..g.len() - WINDOW + 2];
            let to = &g[g.len() - 2..];
            let col = |s: &[Gauge]| -> [Vec<u64>; 4] { [s.iter().map(|x| x.heap).collect(), s.iter().map(|x| x.fds).collect(), s.iter().map(|x| x.files).collect(), s.iter().map(|x| x.bytes).collect()] };
            let (a, b) = (col(from), col(to));
            let slack = [24_000, 4, 3, 200_000];
            let mut again = false;
            for i in 0..4 {
                let (x, y) = (*a[i].iter().max().unwrap(), *b[i].iter().min().unwrap());
                grown[i] = if y > x + slack[i] { grown[i] + 1 } else { 0 };
                again |= grown[i] > 0;
                if grown[i] >= 3 {
                    let what = ["live heap bytes", "open descriptors", "files", "bytes on disk"][i];
                    let series = col(&g)[i].iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ");
                    viol!("grows", "repeating '{}' ({} operations each, way {}, payloads of {} bytes), which leaves nothing behind to be held, goes on to take more {}: {}", kind, ops, way, size, what, series);
                }
            }
            let h = hash64(format!("{}{}{}{:?}", kind, way % 6, size, (g[g.len() - 1].fds, g[g.len() - 1].files, g[g.len() - 1].heap / 2048)).as_bytes());
            ctx.rep.distinct(h);
            if std::env::var("MON_V").is_ok() {
                eprintln!("{} way {} size {}: {:?} .. {:?}", kind, way, size, g[WARM], g[g.len() - 1]);
                eprintln!("   {}", g.iter().map(|x| x.heap.to_string()).collect::<Vec<_>>().join(" "));
            }
            if !again {
                ctx.rep.count(Box::leak(format!("kind_{}", kind).into_boxed_str()), 1);
                return Ok(());
            }
        }
    })
}
