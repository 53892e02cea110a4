//! C17 (names).
use super::queue::list;
use super::stream::{num, read_all};
use crate::client::*;
use crate::proto::*;
use crate::report::Fail;
use crate::rng::{hash64, Rng};
use crate::run::{Ctx, Spec};
use crate::server::{chown, Cfg, Server};
use crate::{ensure, viol};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub fn spec() -> Spec {
    Spec {
        scenarios: vec![("files", 3, files_scn), ("names", 2, names_scn)],
        par: 8,
        quick_s: 45,
        thorough_s: 500,
        level: "exploration",
        rule: "Queues and streams under hostile names (separators, dots, absolute paths into a canary directory, escapes of every kind, suffixes and names of the brokers' own files, empty, control characters, other scripts and normal forms, lengths around the file name limit and far beyond) next to ordinary ones. (files) After every single create/use/delete, in quiescence, the whole scratch tree is hashed and compared with the state before: every path that appeared must lie strictly inside the data directory of that broker, every path that changed or vanished must belong (by observation) to exactly that queue or stream; canaries beside and inside the data directories stay untouched. (names) Long histories over many names at once against a reference map (existence, options, contents of every name), audited through existence queries, listings and contents, and again after kill and restart. Creation under an ordinary name must be accepted. One evaluation = one judged operation or audited name; distinct by (broker, operation, name).",
        assumptions: vec!["the server runs as an unprivileged user that can write to its scratch data directory only; names are generated so that even a server that used them as paths stays inside it"],
    }
}

fn pay(n: u64, name: &str) -> Vec<u8> {
    let mut p = vec![0u8];
    p.extend_from_slice(&n.to_be_bytes());
    p.extend_from_slice(&hash64(name.as_bytes()).to_be_bytes());
    p
}
/// Creation under such a name has to succeed.
fn ordinary(n: &str) -> bool {
    !n.is_empty() && n.len() <= 64 && !n.starts_with('.') && n.bytes().all(|b| b.is_ascii_alphanumeric() || b"-_.:".contains(&b))
}
/// Even if used as a path relative to a data directory, the name stays inside the scratch data tree.
fn contained(n: &str, canary: &str) -> bool {
    if n.starts_with('/') && !n.starts_with(canary) {
        return false;
    }
    n.split('/').filter(|c| *c == "..").count() <= 1
}
fn fixed_pool(canary: &str) -> Vec<String> {
    let mut v: Vec<String> = [
        "", ".", "..", "...", "../x", "../canary/victim", "../canary", "../queues", "../streams", "../queues/a", "../streams/a", "../queues2/a", "a/..", "a/../b", "./a", "a/", "a//b", "a/b", "b/a", "a/1", "a/groups",
        "a/config", "a\\b", "..\\x", "\0", "a\0b", "a\0", "\n", "a\nb", "\r\n", " ", " a", "a ", "\t", "%", "%%", "%2", "%2F", "%2f", "%252F", "%25", "%00", "%2E", "%2E%2E", "%empty", "%unfinished-x", "empty", "a%2Fb", "a%2fb",
        "a%b", "a%00b", "a%25b", "%a", "a", "b", "A", "ab", "a.b", "a.db", "a.db.db", ".db", "db", "a.config", "a.config.json", "a.config.json.db", "config.json", "a.db-wal", "a.db-shm", "a.db-journal", ".config.json", "groups.log",
        "groups.log.tmp", "1.log", "1", "01", "a.log", "retained.db", "retained", "queues", "streams", "pubsub", "data", ".hidden", "-rf", "~", "~root", "$HOME", "*", "?", "[a]", "a*", "é", "e\u{301}", "İ", "ß", "SS", "\u{202e}abc", "\u{200b}",
        "\u{feff}a", "日本", "\u{1f4a9}", "a:b", "a|b", "a;b", "a'b", "a\"b", "<a>", "con", "nul", "orders.eu", "tmp", "lost+found", "a~", "#a#", ".nfs0001",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for k in [200usize, 239, 240, 241, 250, 255, 256, 1000, 70000] {
        v.push("n".repeat(k));
        v.push(format!("{}x", "n".repeat(k - 1)));
    }
    for k in [79usize, 80, 81, 85, 86, 120] {
        v.push("/".repeat(k).replacen('/', "s", 1));
        v.push("日".repeat(k));
        v.push(format!("{}%2F", "日".repeat(k)));
    }
    for s in ["", "/victim", "/victim/..", "/x", "/x/y"] {
        v.push(format!("{}{}", canary, s));
    }
    v.retain(|n| contained(n, canary));
    v
}
fn random_name(r: &mut Rng, canary: &str) -> String {
    let abc = ["a", "b", ".", "..", "/", "%", "2", "F", "5", "E", "0", "%2F", "%25", "%2E", "%00", "\0", "é", ".db", ".json", ".log", "config", "\\", " ", "-", "empty", "unfinished-"];
    loop {
        let n = (0..r.range(1, 6)).map(|_| *r.pick(&abc)).collect::<String>();
        if contained(&n, canary) {
            return n;
        }
    }
}
/// A name that differs from `n` in a way that careless mappings to file names miss.
fn cousin(r: &mut Rng, n: &str, canary: &str) -> String {
    let c = match r.below(12) {
        0 => n.replace('/', "%2F"),
        1 => n.replace("%2F", "/"),
        2 => n.replace('%', "%25"),
        3 => format!("{}.db", n),
        4 => n.trim_end_matches(".db").to_string(),
        5 => n.to_uppercase(),
        6 => n.replace('/', "_"),
        7 => format!("{}/", n),
        8 => format!("./{}", n),
        9 => n.replace('\0', "%00"),
        10 => n.replace(|c: char| !c.is_ascii_alphanumeric(), ""),
        _ => n.replace('.', "%2E"),
    };
    if contained(&c, canary) && c.len() < 80_000 {
        c
    } else {
        n.to_string()
    }
}
fn pick_names(r: &mut Rng, canary: &str, k: usize) -> Vec<String> {
    let pool = fixed_pool(canary);
    let mut v: Vec<String> = vec!["a".into(), "b".into()];
    while v.len() < k {
        let n = match r.below(10) {
            0..=5 => r.pick(&pool).clone(),
            6 | 7 => random_name(r, canary),
            _ => {
                let o = r.pick(&v).clone();
                cousin(r, &o, canary)
            }
        };
        if !v.contains(&n) {
            v.push(n);
        }
    }
    v
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum B {
    Q,
    S,
}
impl B {
    fn dir(self) -> &'static str {
        match self {
            B::Q => "queues",
            B::S => "streams",
        }
    }
}
#[derive(Default, Clone, Debug)]
struct Obj {
    opt: u64,
    content: Vec<u64>,
    floor: Option<u64>,
}
#[derive(Default)]
struct World {
    m: BTreeMap<(B, String), Obj>,
    uniq: u64,
}
fn show(n: &str) -> String {
    if n.len() > 60 {
        format!("{:?}... ({} bytes)", n.chars().take(20).collect::<String>(), n.len())
    } else {
        format!("{:?}", n)
    }
}

/// One operation and its reply against the model. True when the operation took effect on the name.
fn step(ctx: &mut Ctx, c: &Conn, w: &mut World, b: B, name: &str, op: &str) -> Result<bool, Fail> {
    let key = (b, name.to_string());
    let there = w.m.contains_key(&key);
    let sn = format!("{} {}", if b == B::Q { "queue" } else { "stream" }, show(name));
    ctx.t(format!("{} {} (exists: {})", op, sn, there));
    ctx.rep.eval(1);
    ctx.rep.count(&format!("op_{}", op), 1);
    ctx.rep.distinct(hash64(format!("{:?}{}{}{}", b, name, op, there).as_bytes()));
    w.uniq += 1;
    let n = w.uniq;
    match op {
        "create" => {
            let opt = 10_000_000 + n;
            let r = match b {
                B::Q => c.q_create(name, &format!("{{\"visibilityTimeoutMs\":{}}}", opt))?,
                B::S => c.s_create(name, &format!("{{\"retention\":{{\"maxBytes\":{}}}}}", opt))?,
            };
            match r {
                Resp::Ok => {
                    if !there {
                        ctx.rep.count(if ordinary(name) { "created_ordinary" } else { "created_hostile" }, 1);
                        w.m.insert(key, Obj { opt, ..Default::default() });
                    }
                    Ok(true)
                }
                Resp::Err(e) => {
                    ensure!(!there, "create", "creating the existing {} again failed: {}", sn, e);
                    ensure!(!ordinary(name), "create", "the ordinary name of {} was refused: {}", sn, e);
                    ctx.rep.count("refused", 1);
                    Ok(false)
                }
                r => viol!("reply", "create of {} answered {}", sn, r.short()),
            }
        }
        "use" => {
            let p = pay(n, name);
            match b {
                B::Q => {
                    let r = c.q_push(name, None, &p)?;
                    ensure!(there == (r == Resp::Ok), "use", "a push to {} answered {} although it {}", sn, r.short(), if there { "exists" } else { "does not exist" });
                }
                B::S => {
                    let r = c.call(S_PUB, &W::new().s(name).raw(&p).0)?;
                    ensure!(there == matches!(r, Resp::Data(_)), "use", "a publish to {} answered {} although it {}", sn, r.short(), if there { "exists" } else { "does not exist" });
                    if there {
                        let want = w.m[&key].content.len() as u64 + 1;
                        let q = as_seq(r)?;
                        ensure!(q == want, "mixed", "a publish to {} got position {} and not {}", sn, q, want);
                    }
                }
            }
            if let Some(o) = w.m.get_mut(&key) {
                o.content.push(n);
            }
            Ok(there)
        }
        "take" => {
            match b {
                B::Q => {
                    let r = c.call(Q_CONSUME, &enc_consume(name, Some(1), Some(0)))?;
                    ensure!(there != r.is_err(), "use", "a consume from {} answered {} although it {}", sn, r.short(), if there { "exists" } else { "does not exist" });
                    if !there {
                        return Ok(false);
                    }
                    let v = as_batch(r)?;
                    let o = w.m.get_mut(&key).unwrap();
                    ensure!(v.len() == o.content.len().min(1), "mixed", "a consume from {} with {} messages returned {}", sn, o.content.len(), v.len());
                    for m in v {
                        let k = num(&m.payload).unwrap_or(0);
                        let i = o.content.iter().position(|x| *x == k && m.payload == pay(k, name));
                        match i {
                            Some(i) => o.content.remove(i),
                            None => viol!("mixed", "a consume from {} returned message {} that was not pushed to it", sn, preview(&m.payload)),
                        };
                        ensure!(c.q_ack(name, &m.id)?, "use", "the acknowledgement of a message just consumed from {} failed", sn);
                    }
                }
                B::S => {
                    let r = c.call(S_JOIN, &W::new().s("g").s(name).0)?;
                    ensure!(there != r.is_err(), "use", "a join on {} answered {} although it {}", sn, r.short(), if there { "exists" } else { "does not exist" });
                    if !there {
                        return Ok(false);
                    }
                    let j = match r {
                        Resp::Data(d) => dec_join(&d).ok_or_else(|| Fail::v("decode", "join reply".into()))?,
                        r => viol!("reply", "join on {} answered {}", sn, r.short()),
                    };
                    let o = w.m.get_mut(&key).unwrap();
                    let f = o.floor.unwrap_or(0);
                    ensure!(j.floor == f, "mixed", "joining {} gives floor {} and not {}", sn, j.floor, f);
                    let v = match c.s_fetch(name, "g", &j, 100_000, 0)? {
                        Ok(v) => v,
                        Err(e) => viol!("use", "a fetch from {} failed: {}", sn, e),
                    };
                    ensure!(v.len() as u64 == o.content.len() as u64 - f, "mixed", "{} with {} messages and floor {} delivered {}", sn, o.content.len(), f, v.len());
                    for m in &v {
                        ensure!(m.payload == pay(o.content[m.seq as usize - 1], name), "mixed", "{} delivered {} at position {}, which was never published there", sn, preview(&m.payload), m.seq);
                    }
                    for m in &v {
                        if let Err(e) = c.s_ack(name, "g", &j, m.seq)? {
                            viol!("use", "an acknowledgement on {} failed: {}", sn, e);
                        }
                    }
                    o.floor = Some(o.content.len() as u64);
                    if let Err(e) = c.s_leave(name, "g", &j)? {
                        viol!("use", "leaving {} failed: {}", sn, e);
                    }
                }
            }
            Ok(true)
        }
        "exists" => {
            let r = c.call(if b == B::Q { Q_EXISTS } else { S_EXISTS }, &W::new().s(name).0)?;
            ensure!(there == (r == Resp::Ok), "exists", "exists of {} answered {} although it {}", sn, r.short(), if there { "was created" } else { "does not exist" });
            Ok(false)
        }
        "delete" => {
            let r = c.call(if b == B::Q { Q_DELETE } else { S_DELETE }, &W::new().s(name).0)?;
            ensure!(!there || r == Resp::Ok, "delete", "deleting {} answered {}", sn, r.short());
            w.m.remove(&key);
            Ok(true)
        }
        _ => unreachable!(),
    }
}

/// Everything the server shows against the model.
fn audit(ctx: &mut Ctx, srv: &Server, c: &Conn, w: &World, names: &[String], when: &str) -> Result<(), Fail> {
    for b in [B::Q, B::S] {
        let mut listed = BTreeMap::new();
        let v = match b {
            B::Q => srv.get("/api/queue")?,
            B::S => srv.get("/api/stream")?["topics"].clone(),
        };
        for e in v.as_array().ok_or_else(|| Fail::v("http", "listing is not an array".into()))? {
            let n = e["name"].as_str().ok_or_else(|| Fail::v("http", format!("entry without name: {}", e)))?.to_string();
            ensure!(w.m.contains_key(&(b, n.clone())), "ghost", "{}: {} {} is listed but was never created or is deleted", when, b.dir(), show(&n));
            ensure!(listed.insert(n.clone(), e.clone()).is_none(), "ghost", "{}: {} {} is listed twice", when, b.dir(), show(&n));
        }
        for ((_, n), o) in w.m.iter().filter(|((x, _), _)| *x == b) {
            let e = match listed.get(n) {
                Some(e) => e,
                None => viol!("lost", "{}: {} {} is gone", when, b.dir(), show(n)),
            };
            ctx.rep.eval(1);
            let (opt, cnt) = match b {
                B::Q => (e["config"]["visibility_timeout_ms"].as_u64(), e["pending"].as_u64()),
                B::S => (e["config"]["retention"]["maxBytes"].as_u64(), e["last_seq"].as_u64()),
            };
            ensure!(opt == Some(o.opt), "mixed", "{}: {} {} was created with option {} and has {:?}", when, b.dir(), show(n), o.opt, opt);
            ensure!(cnt == Some(o.content.len() as u64), "mixed", "{}: {} {} holds {:?} messages and not {}", when, b.dir(), show(n), cnt, o.content.len());
            if b == B::S {
                let f = e["groups"].as_array().and_then(|g| g.iter().find(|g| g["id"] == "g").and_then(|g| g["ack_floor"].as_u64()));
                ensure!(f == o.floor, "mixed", "{}: the group of stream {} has floor {:?} and not {:?}", when, show(n), f, o.floor);
            }
            if n.is_empty() {
                continue; // no route to its messages
            }
            let got: Vec<Vec<u8>> = match b {
                B::Q => list(srv, n, "pending", 500)?.into_iter().map(|i| i.payload).collect(),
                B::S => read_all(srv, n, 1, 500)?.1.into_iter().map(|m| m.payload).collect(),
            };
            let mut want: Vec<Vec<u8>> = o.content.iter().map(|k| pay(*k, n)).collect();
            let mut got2 = got.clone();
            if b == B::Q {
                want.sort();
                got2.sort();
            }
            ensure!(got2 == want, "mixed", "{}: the contents of {} {} are not what was put there: {:?} instead of messages {:?}", when, b.dir(), show(n), got.iter().take(5).map(|p| preview(p)).collect::<Vec<_>>(), o.content.iter().take(5).collect::<Vec<_>>());
        }
        for n in names {
            let r = c.call(if b == B::Q { Q_EXISTS } else { S_EXISTS }, &W::new().s(n).0)?;
            let there = w.m.contains_key(&(b, n.clone()));
            ctx.rep.eval(1);
            ensure!(there == (r == Resp::Ok), "exists", "{}: exists of {} {} answered {} although it {}", when, b.dir(), show(n), r.short(), if there { "was created" } else { "does not exist" });
        }
    }
    Ok(())
}

type Tree = BTreeMap<String, u64>;
fn tree(root: &Path) -> Tree {
    fn walk(root: &Path, d: &Path, out: &mut Tree) {
        let rd = match std::fs::read_dir(d) {
            Ok(r) => r,
            Err(_) => return,
        };
        for e in rd.flatten() {
            let p = e.path();
            use std::os::unix::ffi::OsStrExt;
            let rel: String = p.strip_prefix(root).unwrap_or(&p).as_os_str().as_bytes().iter().map(|b| if (32..127).contains(b) { (*b as char).to_string() } else { format!("\\x{:02x}", b) }).collect();
            let t = match e.file_type() {
                Ok(t) => t,
                Err(_) => continue,
            };
            if t.is_dir() {
                out.insert(rel, 1);
                walk(root, &p, out);
            } else if t.is_file() {
                out.insert(rel, hash64(&std::fs::read(&p).unwrap_or_default()) | 2);
            } else {
                out.insert(rel, 3);
            }
        }
    }
    let mut t = Tree::new();
    walk(root, root, &mut t);
    t
}
fn canaries(srv: &Server) -> std::io::Result<PathBuf> {
    let d = srv.data();
    let c = d.join("canary");
    for (p, dir) in [
        ("canary", true),
        ("canary/victim", true),
        ("canary/victim/1.log", false),
        ("canary/victim/config.json", false),
        ("canary/victim.db", false),
        ("canary/victim.config.json", false),
        ("canary.db", false),
        ("canary.config.json", false),
        ("x.db", false),
        ("x", true),
        ("x/1.log", false),
        ("queues2", true),
        ("queues2/a.db", false),
        ("queues", true),
        ("streams", true),
        ("queues/notes.txt", false),
        ("streams/notes.txt", false),
        ("queues.db", false),
        (".db", false),
        (".config.json", false),
    ] {
        let f = d.join(p);
        if dir {
            std::fs::create_dir_all(&f)?;
        } else {
            std::fs::write(&f, format!("canary {}", p))?;
        }
        chown(&f);
    }
    Ok(c)
}

fn files_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    ctx.server(Cfg::frozen(), |ctx, srv| {
        if !srv.quiet() {
            return Err(Fail::Inconclusive("the server does not come to rest".into()));
        }
        let canary = canaries(srv).map_err(|e| Fail::Inconclusive(format!("canaries: {}", e)))?.to_string_lossy().to_string();
        let names = pick_names(&mut ctx.rng, &canary, 9);
        ctx.t(format!("names {:?}", names.iter().map(|n| show(n)).collect::<Vec<_>>()));
        let mut w = World::default();
        let mut owner: BTreeMap<String, (B, String)> = BTreeMap::new();
        let mut c = srv.conn()?;
        srv.flushed(600)?;
        let root = srv.data();
        let mut before = tree(&root);
        let foreign: BTreeSet<String> = before.keys().cloned().collect();
        let ops = ctx.rng.range(18, 40);
        for i in 0..ops {
            if i > 0 && ctx.rng.chance(60) {
                srv.restart()?;
                c = srv.conn()?;
                srv.flushed(600)?;
                let now = tree(&root);
                for p in now.keys().chain(before.keys()) {
                    if now.get(p) == before.get(p) {
                        continue;
                    }
                    ctx.rep.eval(1);
                    ensure!(!foreign.contains(p) || p.starts_with("pubsub/"), "foreign", "a restart touched {:?}, which belongs to no queue or stream", p);
                    ensure!(p.starts_with("queues/") || p.starts_with("streams/") || p.starts_with("pubsub/"), "escape", "a restart touched {:?}, outside the data directories", p);
                }
                audit(ctx, srv, &c, &w, &names, "after a restart")?;
                srv.flushed(600)?;
                before = tree(&root);
            }
            let b = if ctx.rng.chance(500) { B::Q } else { B::S };
            let name = ctx.rng.pick(&names).clone();
            let there = w.m.contains_key(&(b, name.clone()));
            let op = match ctx.rng.below(10) {
                0..=3 if !there => "create",
                0 => "create",
                1..=3 | 4 | 5 => "use",
                6 => "take",
                7 => "exists",
                _ => "delete",
            };
            let effect = step(ctx, &c, &mut w, b, &name, op)?;
            srv.flushed(600)?;
            let now = tree(&root);
            let me = (b, name.clone());
            let what = format!("{} of {} {}", op, b.dir(), show(&name));
            for p in now.keys().chain(before.keys()).collect::<BTreeSet<_>>() {
                let (x, y) = (before.get(p), now.get(p));
                if x == y {
                    continue;
                }
                let how = match (x, y) {
                    (None, _) => "created",
                    (_, None) => "removed",
                    _ => "changed",
                };
                ctx.rep.eval(1);
                ctx.rep.count(&format!("paths_{}", how), 1);
                ensure!(!foreign.contains(p), "foreign", "{} {} {:?}, which belongs to no queue or stream", what, how, p);
                ensure!(p.starts_with(&format!("{}/", b.dir())), "escape", "{} {} {:?}, outside the broker's data directory", what, how, p);
                match owner.get(p) {
                    Some(o) if *o == me => {}
                    Some(o) => viol!("foreign", "{} {} {:?}, which belongs to {} {}", what, how, p, o.0.dir(), show(&o.1)),
                    None => {
                        // of an earlier life, or new
                        owner.insert(p.clone(), me.clone());
                    }
                }
                let _ = effect;
            }
            if op == "delete" {
                // a later object of another name may well reuse what is free now
                owner.retain(|p, _| now.contains_key(p));
            }
            before = now;
            ctx.rep.count("trees_compared", 1);
        }
        audit(ctx, srv, &c, &w, &names, "at the end")?;
        srv.restart()?;
        c = srv.conn()?;
        audit(ctx, srv, &c, &w, &names, "after the last restart")?;
        ctx.rep.sample(json!({"names": names.iter().map(|n| show(n)).collect::<Vec<_>>(), "paths": owner.keys().take(12).collect::<Vec<_>>()}));
        Ok(())
    })
}

fn names_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    ctx.server(Cfg::frozen(), |ctx, srv| {
        let canary = canaries(srv).map_err(|e| Fail::Inconclusive(format!("canaries: {}", e)))?.to_string_lossy().to_string();
        let k = ctx.rng.range(10, 60) as usize;
        let names = pick_names(&mut ctx.rng, &canary, k);
        let mut w = World::default();
        let mut c = srv.conn()?;
        let lives = ctx.rng.range(2, 5);
        for life in 0..lives {
            let ops = ctx.rng.range(40, 250);
            for _ in 0..ops {
                let b = if ctx.rng.chance(500) { B::Q } else { B::S };
                let name = if ctx.rng.chance(850) || w.m.is_empty() {
                    ctx.rng.pick(&names).clone()
                } else {
                    let i = ctx.rng.below(w.m.len() as u64) as usize;
                    w.m.keys().nth(i).unwrap().1.clone()
                };
                let op = match ctx.rng.below(20) {
                    0..=6 => "create",
                    7..=12 => "use",
                    13 | 14 => "take",
                    15 | 16 => "exists",
                    _ => "delete",
                };
                step(ctx, &c, &mut w, b, &name, op)?;
            }
            if ctx.rng.chance(500) {
                audit(ctx, srv, &c, &w, &names, &format!("in life {}", life))?;
            }
            srv.flushed(600)?;
            let canary_before: BTreeMap<String, u64> = tree(&srv.data()).into_iter().filter(|(p, _)| !p.starts_with("queues/") && !p.starts_with("streams/") && !p.starts_with("pubsub/")).collect();
            ensure!(canary_before.keys().filter(|p| *p != "pubsub").count() == 18, "escape", "the files beside the data directories are {:?}", canary_before.keys().collect::<Vec<_>>());
            srv.restart()?;
            c = srv.conn()?;
            audit(ctx, srv, &c, &w, &names, &format!("after restart {}", life + 1))?;
            ctx.rep.max("names_alive", w.m.len() as u64);
        }
        Ok(())
    })
}
