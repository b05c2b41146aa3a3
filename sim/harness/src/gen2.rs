//! Plans for the HTTP server, the write-ahead log, label intersection and single windows.
use crate::gen::G;
use crate::plan::*;
use simcore::{FaultCfg, SchedCfg};

fn mangle(g: &mut G) -> Mangle {
    let r = &mut g.r;
    match r.below(10) {
        0 | 1 => Mangle::Truncate(r.below(1000) as u32),
        2 => Mangle::Flip(r.below(1 << 20) as u32, r.below(256) as u8),
        3 => Mangle::Empty,
        4 => Mangle::Garbage(r.below(1 << 20) as u32),
        5 => if r.chance(1, 2) { Mangle::BadSnappyLen } else { Mangle::Claim(*r.pick(&[0, 1, 127, 128, 1 << 20, 1 << 28, 1 << 30, i32::MAX as u32, u32::MAX - 1, u32::MAX])) },
        6 => Mangle::RawProto(r.below(1 << 24) as u32),
        7 => Mangle::WrongPath,
        8 => Mangle::NotCompressed,
        _ => Mangle::TruncateProto(r.below(1000) as u32),
    }
}
fn how(g: &mut G, stall: u64) -> How {
    let r = &mut g.r;
    match r.below(14) {
        0 => How::Slow(r.range(2, 9) as u32, r.below(40)),
        1 => How::ResetAt(r.below(1001) as u32),
        2 => How::CloseAt(r.below(1001) as u32),
        3 => How::StallAt(r.below(1001) as u32, r.below(stall + 1), r.chance(1, 2)),
        4 => How::ResetAfter,
        5 => How::SlowRead(r.below(stall + 1)),
        6 | 7 => How::KeepAlive,
        8 => How::Chunked,
        9 => How::Expect,
        _ => How::Normal,
    }
}
fn polite(g: &mut G) -> How { match g.r.below(6) { 0 => How::KeepAlive, 1 => How::Chunked, 2 => How::Expect, _ => How::Normal } }
fn wreq(g: &mut G, n: usize, most: u64, pts: u64) -> Vec<(usize, Vec<Ts>)> {
    // a whole scrape: one point of every series
    if n > 8 && g.r.chance(2, 3) { let o = g.r.below(n as u64) as usize; return (0..n).map(|i| ((i + o) % n, vec![Ts::Now(0)])).collect(); }
    let bare = g.r.chance(1, 25);
    (0..g.r.range(1, most)).map(|_| { let k = g.r.range(1, pts); (if bare && g.r.chance(1, 2) { NO_LABELS } else { g.r.below(n as u64) as usize }, (0..k).map(|_| g.ts()).collect()) }).collect()
}
fn rreq(g: &mut G, n: usize, c: u64, most: u64) -> Vec<(Want, Range)> {
    let most = if g.r.chance(1, 20) { 40 } else { most };
    (0..g.r.range(1, most)).map(|_| { let w = g.want(n); let r = match g.r.below(8) { 0 => { let a = g.r.below(4); Range::Lit(a, g.r.below(4)) } _ => g.range(c) }; (w, r) }).collect()
}
fn raw(g: &mut G) -> Vec<u8> {
    let b = match g.r.below(12) {
        0 => "GET / HTTP/1.1\r\nHost: x\r\n\r\n".to_string(),
        1 => "POST /write HTTP/1.1\r\nContent-Length: 100000\r\n\r\nabc".to_string(),
        2 => "POST /read HTTP/1.0\r\nContent-Length: 3\r\n\r\nabc".to_string(),
        3 => "\r\n\r\n\r\n".to_string(),
        4 => "POST /write HTTP/1.1\r\nContent-Length: -5\r\n\r\nabc".to_string(),
        5 => "POST /write HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nabc".to_string(),
        6 => "POST /write HTTP/1.1\r\nContent-Length: 2000\r\nExpect: 100-continue\r\n\r\n".to_string(),
        7 => "NONSENSE\r\n\r\n".to_string(),
        8 => format!("POST /{} HTTP/1.1\r\nContent-Length: 0\r\n\r\n", "w".repeat(g.r.range(1, 3000) as usize)),
        9 => "POST /write HTTP/1.1\r\nContent-Length: 4\r\nContent-Length: 8\r\n\r\nabcdefgh".to_string(),
        10 => if g.r.chance(1, 12) { "POST /write HTTP/1.1\r\nContent-Length: 99999999999999\r\n\r\nabc".to_string() } else { "OPTIONS * HTTP/1.1\r\n\r\n".to_string() },
        _ => { let n = g.r.range(1, 200); return (0..n).map(|_| g.r.below(256) as u8).collect(); }
    };
    b.into_bytes()
}

pub fn http(g: &mut G, prop: &str, s: &mut SchedCfg, f: &mut FaultCfg) -> Body {
    s.tick_ns = 1_000;
    s.p_timer = 0;
    let n = g.r.range(1, 4) as usize;
    let series = if prop != "C19" && g.r.chance(1, 10) { g.wide_series() } else if g.r.chance(if prop == "C03" { 9 } else { 4 }, 12) { g.nasty_series(n) } else { g.plain_series(n) };
    let n = series.len();
    let kv = g.kv();
    f.rates.insert("net.read".into(), *g.r.pick(&[0, 0, 5_000, 60_000]));
    f.rates.insert("net.write".into(), *g.r.pick(&[0, 0, 5_000, 60_000]));
    let mut p = HttpPlan { kv, chunk_ms: *g.r.pick(&[400, 2_000, 60_000]), workers: g.r.range(1, 4) as usize, net_buf: *g.r.pick(&[200, 4096, 65536]), deadline_ms: 60_000, strict: false, series, lives: vec![], main: false, terse: false, short: false, dry: 0, conf: (0, 0), port: 9090, paths: default_paths() };
    let c = p.chunk_ms.min(3000);
    match prop {
        "C12" => {
            let mut phases = vec![];
            for _ in 0..g.r.range(1, 3) {
                let k = g.r.range(1, 4);
                let clients = (0..k).map(|_| (0..g.r.range(1, 8)).map(|_| {
                    let (m, h) = (if g.r.chance(2, 5) { mangle(g) } else { Mangle::No }, how(g, 3_000));
                    match g.r.below(10) {
                        0 => { let h = how(g, 300); HOp::Raw { bytes: raw(g), how: h } }
                        1 => HOp::Sleep(g.r.below(c)),
                        2..=5 => HOp::Write { req: wreq(g, n, 3, 4), perm: g.r.below(200) as u32, mangle: m, how: h },
                        _ => HOp::Read { req: rreq(g, n, c, 3), neg: g.r.chance(1, 10), kind: if g.r.chance(1, 12) { g.r.range(1, 3) } else { 0 }, mangle: m, how: h },
                    }
                }).collect()).collect();
                phases.push(HPhase { faults: g.r.chance(1, 2), clients });
            }
            p.lives.push(HLife { phases, idle_ms: 0, power: false });
        }
        "C03" => {
            for i in 0..g.r.range(1, 2) {
                let k = g.r.range(1, 3);
                let clients = (0..k).map(|_| (0..g.r.range(2, 8)).map(|_| match g.r.below(10) {
                    0 => HOp::Sleep(g.r.below(c)),
                    1..=5 => HOp::Write { req: wreq(g, n, 6, 2), perm: g.r.below(200) as u32, mangle: Mangle::No, how: polite(g) },
                    _ => HOp::Read { req: rreq(g, n, c, 4), neg: false, kind: 0, mangle: Mangle::No, how: polite(g) },
                }).collect()).collect();
                p.lives.push(HLife { phases: vec![HPhase { faults: false, clients }], idle_ms: 1_600, power: i == 0 && g.r.chance(1, 2) });
            }
        }
        "C13" | "C10" => {
            if prop == "C10" || g.r.chance(1, 2) { let r = [5_000, 20_000, 60_000]; g.rate(f, &["sled.set", "sled.get", "tikv.put", "tikv.get"], &r); }
            let big = g.r.chance(1, 4);
            for _ in 0..g.r.range(1, 2) {
                let mut phases = vec![];
                for _ in 0..g.r.range(1, 2) {
                    let k = g.r.range(1, 3);
                    let clients = (0..k).map(|_| (0..g.r.range(2, 8)).map(|_| {
                        let m = if g.r.chance(35, 100) { mangle(g) } else { Mangle::No };
                        let h = if g.r.chance(1, 3) { how(g, 500) } else { polite(g) };
                        match g.r.below(10) {
                            0 => HOp::Sleep(g.r.below(c)),
                            1..=7 => HOp::Write { req: if big { wreq(g, n, 8, 40) } else { wreq(g, n, 5, 6) }, perm: g.r.below(200) as u32, mangle: m, how: h },
                            _ => HOp::Read { req: rreq(g, n, c, 2), neg: false, kind: 0, mangle: Mangle::No, how: polite(g) },
                        }
                    }).collect()).collect();
                    phases.push(HPhase { faults: g.r.chance(2, 3), clients });
                }
                p.lives.push(HLife { phases, idle_ms: *g.r.pick(&[0, 1_400, 1_800]), power: g.r.chance(1, 2) });
            }
            if p.lives.len() == 1 && g.r.chance(1, 2) { p.lives.push(HLife { phases: vec![], idle_ms: 0, power: false }); }
        }
        "C14" | "C11" => {
            if prop == "C11" || g.r.chance(1, 2) { let r = [5_000, 20_000, 60_000]; g.rate(f, &["sled.get", "tikv.get"], &r); }
            for i in 0..g.r.range(1, 2) {
                let mut phases = vec![];
                let len = g.r.range(2, 6);
                let (most, pts) = if g.r.chance(1, 6) { (6, 60) } else { (4, 6) };
                phases.push(HPhase { faults: false, clients: vec![(0..len).map(|_| HOp::Write { req: wreq(g, n, most, pts), perm: g.r.below(200) as u32, mangle: Mangle::No, how: polite(g) }).collect()] });
                let k = g.r.range(1, 4);
                let clients = (0..k).map(|_| (0..g.r.range(2, 7)).map(|_| match g.r.below(10) {
                    0 => HOp::Sleep(g.r.below(c)),
                    1..=3 => HOp::Write { req: wreq(g, n, 3, 4), perm: g.r.below(200) as u32, mangle: Mangle::No, how: polite(g) },
                    _ => HOp::Read { req: rreq(g, n, c, 5), neg: g.r.chance(1, 8), kind: if g.r.chance(1, 12) { g.r.range(1, 3) } else { 0 }, mangle: if g.r.chance(1, 8) { mangle(g) } else { Mangle::No }, how: if g.r.chance(1, 5) { how(g, 500) } else { polite(g) } },
                }).collect()).collect();
                phases.push(HPhase { faults: g.r.chance(1, 2), clients });
                p.lives.push(HLife { phases, idle_ms: *g.r.pick(&[0, 1_400, 1_800]), power: i == 0 && g.r.chance(1, 2) });
            }
        }
        _ => {
            // C19: some clients stall for long, the others must not notice
            p.workers = g.r.range(2, 8) as usize;
            p.chunk_ms = 3_600_000;
            p.strict = true;
            p.deadline_ms = 3_000;
            let stalled = g.r.range(1, p.workers as u64 - 1);
            let mut clients: Vec<Vec<HOp>> = vec![];
            if g.r.chance(1, 2) { p.net_buf = *g.r.pick(&[64, 200, 1000]); }
            for _ in 0..stalled {
                let mut v = vec![];
                if g.r.chance(1, 2) { v.push(HOp::Sleep(g.r.below(400))); }
                for _ in 0..g.r.range(1, 2) {
                    let ms = g.r.range(8_000, 60_000);
                    let h = if g.r.chance(1, 4) { How::SlowRead(ms) } else { How::StallAt(*g.r.clone().pick(&[0, 100, 300, 500, 700, 900, 990, 1000]), ms, g.r.chance(1, 2)) };
                    // bodies beyond what the connection thread reads by itself keep a worker waiting
                    v.push(if g.r.chance(3, 5) { HOp::Write { req: wreq(g, n, 6, 120), perm: 0, mangle: Mangle::No, how: h } } else { HOp::Read { req: (0..g.r.range(1, 30)).map(|i| (Want::Series(i as usize % n, u64::MAX), Range::All)).collect(), neg: false, kind: 0, mangle: Mangle::No, how: h } });
                }
                clients.push(v);
            }
            for _ in 0..g.r.range(1, 4) {
                let mut v = vec![HOp::Sleep(g.r.below(2_000))];
                for _ in 0..g.r.range(2, 8) {
                    v.push(match g.r.below(10) { 0..=1 => HOp::Sleep(g.r.below(3_000)), 2..=5 => HOp::Write { req: wreq(g, n, 2, 3), perm: g.r.below(200) as u32, mangle: Mangle::No, how: polite(g) }, _ => HOp::Read { req: rreq(g, n, 1_000_000, 2), neg: false, kind: 0, mangle: Mangle::No, how: polite(g) } });
                }
                clients.push(v);
            }
            let warm = vec![(0..g.r.range(0, 3)).map(|_| HOp::Write { req: wreq(g, n, 4, 40), perm: 0, mangle: Mangle::No, how: How::Normal }).collect()];
            p.lives.push(HLife { phases: vec![HPhase { faults: false, clients: warm }, HPhase { faults: g.r.chance(1, 2), clients }], idle_ms: 0, power: false });
        }
    }
    if g.r.chance(1, 3) {
        let (w, r) = *g.r.pick(&[("/api/v1/write", "/api/v1/read"), ("/w", "/w/r"), ("/r/w", "/r"), ("/prometheus/remote_write", "/prometheus/remote_read"), ("/read", "/write"), ("/a", "/A"), ("/write/", "/read/"), ("/a/", "/a"), ("/v1%20w", "/v1%20r")]);
        p.paths = (w.into(), r.into());
    }
    if p.series.len() > 100 && p.series[0].contains(&crate::gen::WIDE()) {
        if let Some(c) = p.lives[0].phases.first_mut().and_then(|x| x.clients.first_mut()) {
            let at = g.r.below(c.len() as u64 + 1) as usize;
            c.insert(at, HOp::Write { req: (0..n).map(|i| (i, vec![Ts::Now(0)])).collect(), perm: 0, mangle: Mangle::No, how: polite(g) });
            c.insert(at + 1, HOp::Read { req: vec![(Want::Lit(vec![crate::gen::WIDE()]), Range::All)], neg: false, kind: 0, mangle: Mangle::No, how: polite(g) });
        }
    }
    if prop != "C19" && g.r.chance(1, 60) {
        // a label value that makes the bodies larger than any buffer on their way
        let k = *g.r.pick(&[40_000, 70_000, 140_000, 300_000, 1_100_000]);
        let l = vec![("blob".to_string(), crate::gen::noise(&mut g.r, k))];
        let s = p.series.len();
        p.series.push(l);
        p.net_buf = 65536;
        if let Some(c) = p.lives[0].phases.first_mut().and_then(|x| x.clients.first_mut()) {
            let at = g.r.below(c.len() as u64 + 1) as usize;
            c.insert(at, HOp::Write { req: vec![(s, vec![Ts::Now(0)]), (0, vec![Ts::Now(0)])], perm: 0, mangle: Mangle::No, how: polite(g) });
            if g.r.chance(2, 3) { c.insert(at + 1, HOp::Read { req: vec![(Want::Series(s, u64::MAX), Range::All), (Want::Series(0, u64::MAX), Range::All)], neg: false, kind: 0, mangle: Mangle::No, how: polite(g) }); }
        }
    }
    if prop != "C19" && g.r.chance(1, 25) {
        // bodies of a size that a handful of points never reaches
        let k = *g.r.pick(&[400, 1_100, 2_100, 4_300]);
        let s = g.r.below(n as u64) as usize;
        if let Some(c) = p.lives[0].phases.first_mut().and_then(|x| x.clients.first_mut()) {
            c.insert(0, HOp::Write { req: vec![(s, vec![Ts::Many(k)])], perm: 0, mangle: Mangle::No, how: polite(g) });
            if g.r.chance(1, 2) { c.insert(1, HOp::Read { req: (0..g.r.range(1, 3)).map(|_| (Want::Series(s, u64::MAX), Range::All)).collect(), neg: false, kind: 0, mangle: Mangle::No, how: polite(g) }); }
        }
    }
    if g.r.chance(1, 3) {
        // as deployed: the binary's main function and its options; the window outlasts the run
        p.main = true;
        p.terse = g.r.chance(1, 2);
        p.chunk_ms = *g.r.pick(&[3_600_000, 12_000_000]);
        p.port = *g.r.pick(&[9001, 1024, 65535, 9090, 8080]);
        if p.workers > 1 && prop != "C19" && g.r.chance(1, 4) { p.workers = 8; }
    }
    Body::Http(p)
}

/// command lines of the server binary, good and bad, over several lives of one directory
pub fn options(g: &mut G, s: &mut SchedCfg, f: &mut FaultCfg) -> Body {
    s.tick_ns = 1_000;
    s.p_timer = 0;
    let n = g.r.range(1, 4) as usize;
    let series = if g.r.chance(1, 3) { g.nasty_series(n) } else { g.plain_series(n) };
    let kv = g.kv();
    f.rates.insert("net.read".into(), *g.r.pick(&[0, 0, 5_000, 60_000]));
    f.rates.insert("net.write".into(), *g.r.pick(&[0, 0, 5_000, 60_000]));
    let (w, r) = *g.r.pick(&[("/write", "/read"), ("/write", "/read"), ("/api/v1/write", "/api/v1/read"), ("/w", "/w/r"), ("/r/w", "/r"), ("/read", "/write"), ("/a", "/A"), ("/x", "/read"), ("/write", "/y"), ("/write/", "/read/"), ("/a/", "/a"), ("/v1%20w", "/v1%20r"), ("/w-1_x.y~z:8", "/r-1_x.y~z:8")]);
    let secs = *g.r.pick(&[1, 1, 2, 3, 5, 20, 3_600, 12_000, 10_000_000, 4_294_967_298]);
    let http = HttpPlan { kv, chunk_ms: secs * 1000, workers: *g.r.pick(&[1, 2, 3, 8, 8, 32]), net_buf: *g.r.pick(&[200, 4096, 65536]), deadline_ms: 60_000, strict: false, series, lives: vec![], main: true, terse: g.r.chance(1, 2), short: g.r.chance(1, 2), dry: if (kv.0 || kv.1) && g.r.chance(1, 4) { g.r.range(1, 2) as u8 } else { 0 }, conf: (if g.r.chance(1, 2) { g.r.below(5) as u8 } else { 0 }, g.r.below(12) as u8), port: *g.r.pick(&[9001, 9001, 1024, 65535, 9090, 10090, 8080, 1025]), paths: (w.into(), r.into()) };
    let dir = if g.r.chance(1, 2) { format!("{}{}", g.r.pick(crate::db::DIRS), g.r.pick(&["", "0"])) } else { g.r.pick(&["/sim/db0", "/sim/tsdb/data", "/sim/my data", "/sim/db0/"]).to_string() };
    let c = http.chunk_ms.min(3000);
    let mut lives = vec![];
    let mut used = false;
    // what a map in memory holds does not outlive its process
    let k = if http.dry > 0 { 1 } else { g.r.range(1, 3) };
    for i in 0..k {
        if g.r.chance(2, 5) {
            let o = |a: &str, b: &str| Some((a.to_string(), b.to_string()));
            let other = |t: bool| if t { "sled" } else { "tikv" };
            let bad = match g.r.below(if used { 20 } else { 14 }) {
                0 => o("port", "80"), 1 => o("port", "1023"), 2 => o("port", *g.r.pick(&["65536", "74537", "70000", "4294976297"])), 3 => o("port", *g.r.pick(&["-9001", "", "1023"])), 4 => o("port", *g.r.pick(&["http", "9001;", "0x2329", "9001.0"])),
                5 => o("worker_num", "many"), 6 => o("worker_num", "-1"), 7 => o("chunk_size", "1h"), 8 => o("chunk_size", "-5"), 9 => o("chunk_size", ""),
                10 => o("storage", "rocksdb"), 11 => o("indexer", "SLED"), 12 => o("retention", "5"),
                13 => if http.dry != 1 && (kv.0 || kv.1) { o("tikv_config", "/sim/none.yaml") } else { o("port", "0") },
                14..=16 => o("storage", other(kv.0)), _ => o("indexer", other(kv.1)),
            };
            lives.push(OLife { bad, clients: vec![], windows: 0, idle_ms: 0, power: g.r.chance(1, 2) });
            if g.r.chance(1, 2) { continue; }
        }
        used = true;
        let nc = g.r.range(1, 3);
        let clients = (0..nc).map(|_| (0..g.r.range(1, 6)).map(|_| match g.r.below(10) {
            0 => HOp::Sleep(g.r.below(c)),
            1..=5 => HOp::Write { req: wreq(g, n, 3, 4), perm: g.r.below(200) as u32, mangle: Mangle::No, how: polite(g) },
            _ => HOp::Read { req: rreq(g, n, c, 3), neg: false, kind: 0, mangle: Mangle::No, how: polite(g) },
        }).collect()).collect();
        lives.push(OLife { bad: None, clients, windows: if secs <= 5 { g.r.range(1, 3) } else { 0 }, idle_ms: 1_600, power: i + 1 < k && g.r.chance(1, 2) });
    }
    if http.dry == 0 { lives.push(OLife { bad: None, clients: vec![], windows: 0, idle_ms: 0, power: false }); }
    Body::Opt(OptPlan { http, dir, lives })
}

pub fn wal(g: &mut G, s: &mut SchedCfg, f: &mut FaultCfg) -> Body {
    s.max_steps = 200_000;
    let faults = g.r.chance(3, 4);
    f.rates.insert("wal.write".into(), *g.r.pick(&[1_000, 5_000, 20_000, 50_000]));
    f.burst = *g.r.pick(&[0, 0, 2, 5]);
    match g.r.below(4) { 0 => f.actions = vec!["short".into(), "eintr".into()], 1 => f.actions = vec!["eintr".into()], 2 => f.actions = vec!["short".into()], _ => {} }
    // a disk that stays full or broken until it is repaired
    let broken = g.r.chance(1, 12);
    if broken { f.rates.insert("wal.write".into(), 100_000); f.actions = vec![g.r.pick(&["enospc", "eio"]).to_string()]; }
    let policy = match g.r.below(5) { 0 => Policy::Immediate, 1 => Policy::Num(*g.r.pick(&[1, 2, 3, 8, 0])), 2 => Policy::Num(g.r.range(1, 6) as usize), 3 => Policy::Size(*g.r.pick(&[0, 1, 30, 64, 200, 5000])), _ => Policy::Time(*g.r.pick(&[0, 10, 100, 1000])) };
    let mut seq = g.r.below(1 << 40);
    let last = if g.r.chance(4, 5) { WOp::Close } else { WOp::Flush };
    let len = if g.r.chance(1, 12) { 150 } else { 24 };
    let ops = (0..g.r.range(1, len)).map(|_| match g.r.below(12) {
        0 | 1 => WOp::Flush,
        2 => WOp::Sleep(g.r.below(300)),
        3 if g.r.chance(1, if policy == Policy::Immediate { 1 } else { 4 }) => WOp::Raw { seq: g.r.below(1 << 30), len: *g.r.pick(&[1u32, 8, 40, 200]) },
        _ => {
            seq += g.r.range(0, 2);
            let k = g.r.below(4);
            let parts = if g.r.chance(1, 25) { vec![*g.r.pick(&[65535u32, 65536, 65534, 70000]), 0] } else { (0..k).map(|_| *g.r.pick(&[0u32, 1, 3, 8, 40, 300])).collect() };
            let copy = if g.r.chance(1, 8) { g.r.range(1, 7) as u32 } else { 0 };
            WOp::Entry { seq, parts, copy }
        }
    }).collect::<Vec<_>>().into_iter().chain(Some(last)).collect();
    let from = if broken { g.r.range(1, 6) as usize } else { 0 };
    Body::Wal(WalPlan { policy, faults, ops, tail_calm: g.r.chance(1, 2), from, buffered: g.r.chance(1, 5) })
}

pub fn intersect(g: &mut G, s: &mut SchedCfg) -> Body {
    // a caller that spins while its helpers wait for a CPU
    s.starve = match g.r.below(400) { 0 | 1 => 4_000_000, 2..=7 => 300_000, 8..=39 => 20_000, 40..=200 => g.r.below(1_500), _ => 0 };
    if g.r.chance(3, 10) {
        // whole queries with many labels
        let c = 3_000;
        let mut series: Vec<LSet> = vec![];
        let m = g.r.range(2, 9);
        let n = if g.r.chance(1, 3) {
            // ranges of series that share a label, consecutive ranges having one series in common
            let total = g.r.range(5, 16) as usize; let mut cut = vec![]; let mut p = 0; while p < total - 1 { p += g.r.range(1, 7) as usize; cut.push(p.min(total - 1)); }
            for i in 0..total { let mut l: LSet = vec![("i".to_string(), i.to_string())]; let mut from = 0; for (j, c) in cut.iter().enumerate() { if i >= from && i <= *c { l.push((format!("r{}", j), "x".to_string())); } from = *c; } g.push_series(&mut series, l); }
            total
        } else { g.r.range(2, 4) as usize };
        while series.len() < n { let mut l: LSet = vec![]; for i in 0..m { if i == 0 || g.r.chance(4, 5) { l.push((format!("k{}", i), format!("v{}", g.r.below(2)))); } } g.push_series(&mut series, l); if g.r.chance(1, 8) { let l = vec![("k0".to_string(), format!("u{}", series.len()))]; g.push_series(&mut series, l); } }
        let n = series.len();
        let kv = g.kv();
        let writes: Vec<Op> = (0..n).map(|s| Op::Write { s, ts: Ts::Now(0), perm: g.r.below(200) as u32, retry: 0 }).collect();
        let k = g.r.range(1, 4);
        let cl = (0..k).map(|_| (0..g.r.range(3, 10)).map(|_| { let w = match g.r.below(8) { 0..=2 => Want::Series(g.r.below(n as u64) as usize, u64::MAX), 3..=6 => Want::Series(g.r.below(n as u64) as usize, g.r.next()), _ => Want::Unknown(g.r.below(n as u64) as usize, g.r.below(9) as u32) }; Op::Query { want: w, range: Range::All } }).collect()).collect();
        let ph = |clients| Phase { faults: false, calm: false, clients };
        return Body::Db(DbPlan { dbs: vec![kv], chunk_ms: c, series, rounds: vec![Round { shift: Shift::None, faults: false, sessions: vec![Session { db: 0, types: None, phases: vec![ph(vec![writes]), ph(cl)], idle_ms: 0, power: false, reopen: 0, chunk_ms: None }] }], verify: false });
    }
    s.p_timer = *g.r.pick(&[0, 0, 20, 100]);
    let k = g.r.range(1, 3);
    if g.r.chance(1, 4) {
        // runs that touch, overlap a little, or leave a gap; some lists inside others
        let callers = (0..k).map(|_| (0..g.r.range(1, 4)).map(|_| {
            let arrays = g.r.range(2, 6);
            let mut end = g.r.below(5);
            (0..arrays).map(|i| {
                let len = *g.r.pick(&[1u64, 2, 4, 5, 6, 8, 9, 16, 17, 33, 64, 100]);
                let start = if i == 0 { end } else { match g.r.below(6) { 0..=2 => end, 3 => end + 1, 4 => end.saturating_sub(g.r.below(4)), _ => end.saturating_sub(len) } };
                let step = *g.r.pick(&[1u64, 1, 2, 7]);
                let v: Vec<u64> = (0..len).map(|j| start + j * step).collect();
                if g.r.chance(2, 3) { end = *v.last().unwrap(); }
                v
            }).collect()
        }).collect()).collect();
        return Body::Intersect(IntersectPlan { callers });
    }
    let callers = (0..k).map(|_| (0..g.r.range(1, 4)).map(|_| {
        let arrays = if g.r.chance(1, 25) { *g.r.pick(&[17, 20, 24, 31, 32, 33, 40, 64, 65, 100, 130]) } else { *g.r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16]) };
        let one_matters = arrays > 1 && g.r.chance(1, 4);
        let span = *g.r.pick(&[4u64, 10, 40, 1000]);
        let dense = *g.r.pick(&[30u64, 60, 90, 100]);
        let len = *g.r.pick(&[0u64, 1, 3, 10, 60]);
        let base: Vec<u64> = (0..len).map(|_| g.r.below(span)).collect();
        if one_matters {
            // lists that are equal but for one, which lacks something or is longer than the others
            let mut all: Vec<u64> = base.clone(); all.push(g.r.below(span)); all.sort(); all.dedup();
            let odd = g.r.below(arrays);
            let more = g.r.chance(1, 2);
            return (0..arrays).map(|i| { let mut v = all.clone(); if i == odd { v.remove(g.r.below(v.len() as u64) as usize); if more { for j in 0..4 { v.push(span + j); } } } v }).collect();
        }
        (0..arrays).map(|_| { let mut v: Vec<u64> = base.iter().cloned().filter(|_| g.r.chance(dense, 100)).collect(); for _ in 0..g.r.below(len / 2 + 2) { v.push(g.r.below(span)); } if g.r.chance(1, 25) { v.clear(); } if g.r.chance(1, 30) { v.push(u64::MAX); } v.sort(); v.dedup(); v }).collect()
    }).collect()).collect();
    Body::Intersect(IntersectPlan { callers })
}

pub fn chunk(g: &mut G, s: &mut SchedCfg, f: &mut FaultCfg) -> Body {
    s.p_timer = 0;
    let n = g.r.range(1, 4) as usize;
    let series = if g.r.chance(1, 12) { g.wide_series() } else if g.r.chance(1, 3) { g.nasty_series(n) } else { g.plain_series(n) };
    let n = series.len();
    let kv = g.kv();
    let faults = g.r.chance(1, 3);
    if faults { let r = [5_000, 20_000, 60_000]; if g.r.chance(1, 2) { g.rate(f, &["sled.get", "tikv.get"], &r); } else { g.rate(f, &["sled.get", "tikv.get", "sled.set", "tikv.put"], &r); } }
    let width = *g.r.pick(&[4, 50, 10_000]);
    let k = g.r.range(2, 5);
    let same = g.r.chance(1, 3);
    let len = if n > 8 { n as u64 * 2 } else { 14 };
    let clients = (0..k).map(|ci| (0..g.r.range(2, len)).map(|i| match g.r.below(20) {
        0 => COp::Sleep(g.r.below(300)),
        1 if ci == 0 => COp::Close,
        _ if i == 0 && same => COp::Insert { s: 0, ts: g.r.range(1, width), perm: g.r.below(200) as u32 },
        2..=10 => COp::Insert { s: g.r.below(n as u64) as usize, ts: g.r.below(width + 2), perm: g.r.below(200) as u32 },
        _ => { let want = g.want(n); let (a, b) = if g.r.chance(1, 12) { let x = g.r.below(width); (x, if g.r.chance(1, 2) { x } else { u64::MAX }) } else if g.r.chance(1, 2) { (0, width + 5) } else { (g.r.next() >> 1, g.r.next() >> 1) }; COp::Query { want, lo: a, hi: b } }
    }).collect()).collect();
    Body::Chunk(ChunkPlan { kv, width, faults, series, clients })
}
