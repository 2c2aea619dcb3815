//! C24 and C25: how the network delivers, and what happens when it does not.
use super::net::*;
use super::proto::{flows, with_flow, Dialogue};
use super::stream::events_of;
use crate::env::{Cut, Net, NetPlan, Out, Peer};
use crate::explore::*;
use crate::obs::*;
use crate::server::*;
use crate::wire::*;
use crate::Check;
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use std::collections::{HashMap, VecDeque};
use std::io::{Read, Write};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C24",
            level: "fault_enumeration",
            rule: "A case is one session and one schedule of the kernel's answers to the client's reads and writes (short, interrupted, delayed within the timeout). Every case is compared with the unsplit run of the same session: the same bytes sent, the same items delivered, which are those the model server streamed.",
            assumptions: &["the kernel's answers are those POSIX allows: a short count of at least one byte, or EINTR before anything is transferred", "sessions over a real loopback connection bind the model of the kernel to a real one"],
            groups: c24,
        },
        Check {
            id: "C25",
            level: "fault_enumeration",
            rule: "A case is one session, one heartbeat interval and one point at which the server falls silent, closes or resets; time is virtual. Every point of the dialogue and of the stream is enumerated.",
            assumptions: &["the latency allowance is at most 30 seconds, whatever the interval; at least 1 second", "intervals are whole milliseconds, as servers take them"],
            groups: c25,
        },
    ]
}

// ---------------------------------------------------------------- sessions

struct Base {
    sent: Vec<Vec<u8>>,
    items: Vec<Item>,
    received: u64,
    wrote: u64,
    recvs: u64,
    sends: u64,
}
/// What the client sent, packet by packet; what it encrypts with a public key differs from run to run.
pub fn spoken(sent: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    let mut v = vec![];
    let mut at = 0;
    while at < sent.len() {
        if at + 4 > sent.len() {
            return Err(format!("an unfinished packet header at byte {} of what the client sent", at));
        }
        let n = sent[at] as usize | (sent[at + 1] as usize) << 8 | (sent[at + 2] as usize) << 16;
        if at + 4 + n > sent.len() {
            return Err(format!("an unfinished packet at byte {} of what the client sent", at));
        }
        let p = &sent[at..at + 4 + n];
        v.push(if n == key().0.size() as usize { p[..4].to_vec() } else { p.to_vec() });
        at += 4 + n;
    }
    Ok(v)
}
fn session(d: &Dialogue, plan: NetPlan) -> (Got, Box<Net>) {
    with_server(d.server(), plan, || run(&mut d.client(), 1000))
}
fn judge_base(g: &Got, net: &mut Net) -> Result<Base, String> {
    faithful(g, net)?;
    let c = &net.conns[0];
    Ok(Base { sent: spoken(&c.sent)?, items: g.items.clone(), received: c.received, wrote: c.sent.len() as u64, recvs: c.recvs, sends: c.sends })
}
fn base(d: &Dialogue) -> Result<Arc<Base>, Viol> {
    static MEMO: OnceLock<Mutex<HashMap<String, Arc<Base>>>> = OnceLock::new();
    let m = MEMO.get_or_init(Default::default);
    let k = format!("{:?}", d);
    if let Some(b) = m.lock().unwrap().get(&k) {
        return Ok(b.clone());
    }
    let (g, mut net) = session(d, NetPlan::default());
    let b = judge_base(&g, &mut net).map_err(|e| Viol { key: None, msg: format!("the undisturbed session {:?}: {}", d, e) })?;
    let b = Arc::new(b);
    m.lock().unwrap().insert(k, b.clone());
    Ok(b)
}
fn same_as(b: &Base, g: &Got, net: &mut Net) -> Result<(), String> {
    if let Some(e) = &g.open {
        let c = net.peer::<Server>().complaints();
        return Err(format!("replication fails: {} {:?}", e, c));
    }
    if let Some(v) = &net.verdict {
        return Err(v.clone());
    }
    let sent = spoken(&net.conns[0].sent)?;
    if sent != b.sent {
        let i = sent.iter().zip(&b.sent).position(|(x, y)| x != y).unwrap_or(sent.len().min(b.sent.len()));
        return Err(format!("the client sends something else, beginning with packet {}: {:?} instead of {:?}", i, sent.get(i), b.sent.get(i)));
    }
    compare(&g.items, &b.items)?;
    if !g.ended {
        return Err("the stream does not end".into());
    }
    faithful(g, net)
}
fn split(ch: &mut Ch, d: &Dialogue, plan: NetPlan) -> Res {
    let b = base(d)?;
    let what = || format!("{:?} with {:?}", (d.cfg.flavor, d.cfg.greet, d.cfg.account, d.cfg.force_switch, d.cfg.full, d.start), plan);
    ch.sample(what);
    ch.distinct(&(format!("{:?}", d), &plan));
    let (g, mut net) = session(d, plan.clone());
    ch.step(net.calls);
    ch.outcome(&(net.conns.first().map(|c| (c.recvs, c.sends))));
    msg(same_as(&b, &g, &mut net), what)
}
/// Sessions: every login flow once, every strategy on both servers.
fn sessions(ch: &mut Ch) -> Dialogue {
    if thorough() {
        return Dialogue::draw(ch);
    }
    let f = flows();
    let k = ch.choose(f.len() + 4);
    let mut d = Dialogue { cfg: Cfg::new(Flavor::MySql), start: 0, blocking: false };
    if k < f.len() {
        with_flow(&mut d.cfg, f[k]);
        if k % 2 == 1 {
            d.cfg.flavor = Flavor::Maria;
            d.cfg.version = Cfg::new(Flavor::Maria).version;
        }
    } else {
        let k = k - f.len();
        d = Dialogue { cfg: Cfg::new(if k % 2 == 0 { Flavor::Maria } else { Flavor::MySql }), start: 1 + k / 2, blocking: false };
    }
    d
}
fn plain(k: usize) -> Dialogue {
    match k {
        0 => Dialogue { cfg: Cfg::new(Flavor::MySql), start: 2, blocking: false },
        1 => Dialogue { cfg: Cfg::new(Flavor::Maria), start: 2, blocking: false },
        _ => {
            let mut d = Dialogue { cfg: Cfg::new(Flavor::MySql), start: 1, blocking: false };
            with_flow(&mut d.cfg, (Plugin::Native, Plugin::Sha2, false, thorough()));
            d
        }
    }
}
/// One deviation of the kernel: which read or write, and how.
fn deviation(ch: &mut Ch, b: &Base, plan: &mut NetPlan, from: u64, span: u64) -> Option<u64> {
    let kinds = [b.received, b.wrote, b.recvs, b.sends];
    let total: u64 = kinds.iter().sum();
    if from >= total {
        return None;
    }
    let x = ch.range(from, (total - 1).min(from.saturating_add(span)));
    let mut y = x;
    for (i, n) in kinds.iter().enumerate() {
        if y < *n {
            match i {
                0 => plan.rsplits.push(y),
                1 => plan.wsplits.push(y),
                2 => plan.rintr.push(y),
                _ => plan.wintr.push(y),
            }
            break;
        }
        y -= n;
    }
    Some(x)
}
const CAPS: [usize; 24] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 16, 17, 19, 20, 21, 32, 33, 64, 100, 127, 128];

fn big(n: usize, salt: usize) -> Proto {
    // Text of the rest; its first bytes make it distinct.
    let mut v: Vec<u8> = (0..n).map(|i| b'a' + ((i * 7 + i / 251 + salt) % 26) as u8).collect();
    if n > 4 {
        v[..4].copy_from_slice(format!("{:04}", salt % 10000).as_bytes());
    }
    p_annotate(std::str::from_utf8(&v).unwrap())
}
/// Delivers events whose packets have exactly these payload sizes.
fn sizes(ch: &mut Ch, sizes: &[usize], plan: NetPlan, crc: bool) -> Res {
    let over = 1 + 19 + if crc { 4 } else { 0 };
    let mut cfg = Cfg::new(Flavor::Maria);
    cfg.crc = crc;
    let mut f = FileB::new();
    f.crc = crc;
    f.ev(&p_rotate(4, "mysql-bin.000001"));
    f.fde("10.6.12-MariaDB", 171, Some(crc as u8));
    for (i, n) in sizes.iter().enumerate() {
        f.ev(&big(n.saturating_sub(over), i));
        f.ev(&p_xid(i as u64));
    }
    let what = || format!("event packets of {:?} bytes, checksums {}, {:?}", sizes, crc, plan);
    ch.sample(what);
    ch.distinct(&(sizes, &plan, crc));
    ch.state(&sizes);
    let mut bytes = vec![];
    let mut n = 1u8;
    for e in events_of(&f) {
        let p = [&[0u8][..], &e].concat();
        bytes.extend(packet(n, &p));
        n = n.wrapping_add(1 + (p.len() / 0xff_ffff) as u8);
    }
    bytes.extend(packet(n, &eof_packet()));
    let c2 = cfg.clone();
    let mut log = Binlog::new(Flavor::Maria);
    let sv = cfg.sv();
    log.file("mysql-bin.000001", sv);
    let mut s = Server::new(cfg, log);
    let mut bytes = Some(bytes);
    s.tamper = Some(Box::new(move |_, _, st, _, _| match st {
        Step::Event(0) => Act::HaltRaw(vec![Out::Data(bytes.take().unwrap_or_default())]),
        _ => Act::Pass,
    }));
    let (g, mut net) = with_server(s, plan.clone(), || run(&mut BinlogClient::new(options(&c2, BinlogOptions::from_start(), true)), f.want.len() + 3));
    ch.step(net.calls);
    let r = (|| {
        if let Some(e) = &g.open {
            return Err(format!("replication fails: {}", e));
        }
        clean(&mut net)?;
        if g.items.len() != f.want.len() {
            let k = g.items.iter().zip(&f.want).position(|(a, b)| !same(a, b)).unwrap_or(f.want.len());
            return Err(format!("{} items instead of {}, the first difference is item {}", g.items.len(), f.want.len(), k));
        }
        if let Some(k) = (0..f.want.len()).find(|i| !same(&g.items[*i], &f.want[*i])) {
            let t: String = show(&g.items[k]).chars().take(120).collect();
            return Err(format!("item {} is {}", k, t));
        }
        if !g.ended {
            return Err("the stream does not end".into());
        }
        Ok(())
    })();
    msg(r, what)
}
/// The exchange over a real connection: the model server behind a listening socket, on a thread of its own.
fn real(d: &Dialogue, chunk: usize) -> Result<(Got, Vec<Vec<u8>>, Vec<Item>, Vec<String>), String> {
    let l = std::net::TcpListener::bind("127.0.0.1:0").map_err(|e| format!("harness: {}", e))?;
    let port = l.local_addr().map_err(|e| format!("harness: {}", e))?.port();
    let (cfg, dd) = (d.cfg.clone(), format!("{:?}", d));
    let start = d.start;
    let t = std::thread::spawn(move || {
        let d = Dialogue { cfg, start, blocking: false };
        let mut s = d.server();
        let (mut x, _) = match l.accept() {
            Ok(x) => x,
            Err(e) => return Err(format!("harness: {}", e)),
        };
        let _ = x.set_nodelay(true);
        let _ = x.set_read_timeout(Some(Duration::from_secs(60)));
        let mut q = VecDeque::new();
        s.open(0, &mut q);
        let mut sent = vec![];
        let mut buf = [0u8; 4096];
        loop {
            while let Some(o) = q.pop_front() {
                if let Out::Data(b) = o {
                    for c in b.chunks(chunk.max(1)) {
                        if x.write_all(c).is_err() {
                            break;
                        }
                    }
                }
            }
            match x.read(&mut buf) {
                Ok(0) => break,
                Ok(n) => {
                    sent.extend_from_slice(&buf[..n]);
                    s.input(0, &buf[..n], &mut q);
                }
                Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => break,
                Err(e) => return Err(format!("harness: the server's read: {}", e)),
            }
        }
        let items: Vec<Item> = s.sess[0].stream.iter().map(|s| s.item.clone()).collect();
        Ok((sent, items, s.complaints()))
    });
    let mut c = d.client();
    c.options.port = port;
    let g = run(&mut c, 1000);
    drop(c);
    let r = t.join().map_err(|_| format!("harness: the server of {} panicked", dd))?;
    let (sent, items, complaints) = r?;
    Ok((g, spoken(&sent)?, items, complaints))
}

fn c24() -> Vec<Group> {
    vec![
        group("one deviation", "every session with one split read at every byte, one split write at every byte, or one interruption of every read and write", |ch| {
            let d = sessions(ch);
            let b = base(&d)?;
            let mut plan = NetPlan::default();
            deviation(ch, &b, &mut plan, 0, u64::MAX);
            split(ch, &d, plan)
        }),
        group("two deviations", "two split or interrupted writes or interrupted reads in three sessions, up to 24 places apart (thorough: any distance, and every pair of deviations, split reads included, of one session)", |ch| {
            let k = ch.choose(by_tier(3, 4));
            let d = plain(k % 3);
            let b = base(&d)?;
            let mut plan = NetPlan::default();
            let lo = if k < 3 { b.received } else { 0 };
            if let Some(x) = deviation(ch, &b, &mut plan, lo, u64::MAX) {
                if deviation(ch, &b, &mut plan, x + 1, by_tier(24, u64::MAX)).is_none() {
                    return Ok(());
                }
            }
            split(ch, &d, plan)
        }),
        group("two read splits", "two split reads at every pair of places of the packet headers and near them", |ch| {
            let d = plain(ch.choose(3));
            let b = base(&d)?;
            let n = b.received.min(by_tier(120, 700));
            let i = ch.range(0, n - 1);
            let j = ch.range(i, n);
            // Both at the beginning, or one there and one towards the end of the stream.
            let far = ch.flag();
            let mut plan = NetPlan { rsplits: vec![i, if far { b.received - (j - i) } else { j }], ..Default::default() };
            plan.rsplits.sort();
            split(ch, &d, plan)
        }),
        group("small pieces", "every limit on the bytes of a read with every limit on those of a write, with and without interruptions of every call", |ch| {
            let d = sessions(ch);
            let plan = NetPlan { rcap: ch.of(&CAPS), wcap: ch.of(&CAPS), rintr_all: ch.flag(), wintr_all: ch.flag(), ..Default::default() };
            split(ch, &d, plan)
        }),
        group("delays", "a delay below the timeout before every byte of three sessions (thorough: of every session), and before two of them", |ch| {
            let d = if thorough() { sessions(ch) } else { plain(ch.choose(3)) };
            let b = base(&d)?;
            let at = ch.range(0, b.received - 1);
            let len = ch.of(&[Duration::from_millis(1), HB, HB + Duration::from_millis(999)]);
            let mut plan = NetPlan { delays: vec![(0, at, len)], ..Default::default() };
            if ch.flag() {
                plan.delays.push((0, at + 1, len));
            }
            split(ch, &d, plan)
        }),
        group("sizes", "events of every packet size around the powers of two and of the length encodings up to 64 KiB, with every limit on the bytes of a read", |ch| {
            let mut s: Vec<usize> = (20..by_tier(70, 300)).collect();
            for k in 6..=16 {
                let p = 1usize << k;
                s.extend((p - 2..=p + 2).chain(p + 19..p + 28));
            }
            s.extend(248..258);
            let n = ch.of(&s);
            let crc = ch.flag();
            if n < 24 {
                return Ok(());
            }
            let caps: &[usize] = by_tier(&[0, 1, 3, 7, 1460][..], &CAPS[..]);
            let plan = NetPlan { rcap: ch.of(caps), ..Default::default() };
            sizes(ch, &[n, 30, n], plan, crc)
        }),
        group("size and split", "an event of a size around each boundary, with one split read at every byte of the packet's beginning and end", |ch| {
            let n = ch.of(&[24usize, 60, 255, 256, 257, 4095, 4096, 8192, 65535, 65536, 65540]);
            let crc = ch.flag();
            let back = ch.flag();
            let k = ch.range(0, by_tier(70, 300));
            let d = { // What comes before the packet: found by a run without it.
                let mut cfg = Cfg::new(Flavor::Maria);
                cfg.crc = crc;
                Dialogue { cfg, start: 0, blocking: true }
            };
            let before = before_stream(&d)?;
            let at = if back { (before + n as u64 + 4).saturating_sub(k) } else { before + k };
            sizes(ch, &[n], NetPlan { rsplits: vec![at], ..Default::default() }, crc)
        }),
        group("the largest packets", "events of one packet and of several, to the byte around each multiple of the packet limit, in large and in uneven pieces", |ch| {
            let m = 0xff_ffffusize;
            let mut s: Vec<usize> = vec![m - 1, m, m + 1, 2 * m];
            if thorough() {
                s.extend([2 * m - 1, 2 * m + 1]);
                s.extend((m - 30..m - 1).chain(m + 2..m + 30).chain([3 * m - 1, 3 * m, 3 * m + 1, 5 * m, 8 * m + 7]));
            }
            let n = ch.of(&s);
            let crc = !thorough() || ch.flag();
            let cap = ch.of(by_tier(&[0usize, 65521][..], &[0, 1460, 4096, 65521, 0x100_0000]));
            sizes(ch, &[40, n, 41], NetPlan { rcap: cap, ..Default::default() }, crc)
        }),
        group_solo("beyond several packets", "events of 5 (thorough: and 17) packets", |ch| {
            let m = 0xff_ffffusize;
            let n = ch.of(by_tier(&[5 * m + 9][..], &[5 * m + 9, 17 * m, 17 * m + 1]));
            let cap = ch.of(&[0usize, 65521]);
            sizes(ch, &[40, n, 41], NetPlan { rcap: cap, ..Default::default() }, true)
        }),
        group("large requests", "GTID positions of up to 3000 sources, long names, users and databases, in pieces of every limit", |ch| {
            let n = ch.of(&[0usize, 1, 10, 100, 1000, 3000]);
            let long = ch.of(&[1usize, 300, 5000]);
            let cap = ch.of(&[0usize, 1, 2, 3, 7, 100, 1000, 1460, 4096]);
            let intr = ch.flag();
            let flavor = ch.of(&[Flavor::MySql, Flavor::Maria]);
            let mut cfg = Cfg::new(flavor);
            cfg.user = "u".repeat(long);
            let mut log = Binlog::new(flavor);
            log.file("mysql-bin.000001", cfg.sv());
            log.tx(None, &[p_query("shop", "BEGIN"), p_xid(1)]);
            let sets: Sets = (0..n).map(|i| (h16(i), vec![(1, 1 + i as u64), (3 + i as u64, 1 << 33)])).collect();
            let list: Vec<(u32, u32, u64)> = (0..n as u32).map(|i| (i, i + 1, i as u64)).collect();
            let c2 = cfg.clone();
            // A list of positions unknown to the server is refused; the request itself is what counts.
            let plan = NetPlan { wcap: cap, wintr_all: intr, ..Default::default() };
            let go = |plan: NetPlan| {
                let s = Server::new(c2.clone(), log.clone());
                with_server(s, plan, || {
                    let b = match flavor {
                        Flavor::MySql => BinlogOptions::from_mysql_gtid(my_set(&sets)),
                        Flavor::Maria => BinlogOptions::from_mariadb_gtid(ma_list(&list)),
                    };
                    let mut o = options(&c2, b, false);
                    o.database = Some("d".repeat(long));
                    run(&mut BinlogClient::new(o), 100)
                })
            };
            let what = || format!("{:?} with {} positions, names of {} bytes, {:?}", flavor, n, long, plan);
            ch.sample(what);
            ch.distinct(&(n, long, cap, intr, flavor));
            let (g0, mut n0) = go(NetPlan::default());
            let (g, mut net) = go(plan.clone());
            ch.step(net.calls);
            ch.state(&(n, long, flavor));
            // The sources of a set have no order: the request itself is compared as the server reads it.
            let form = |sent: &[u8]| spoken(sent).map(|v| v.into_iter().map(|p| if p.get(4) == Some(&0x1e) { p[..4].to_vec() } else { p }).collect::<Vec<_>>());
            let (a, b) = (form(&n0.conns[0].sent), form(&net.conns[0].sent));
            ensure!(a.is_ok(), "{}: in one piece: {:?}", what(), a);
            ensure!(a == b, "{}: the client sends something else: {:?}", what(), b.err());
            if flavor == Flavor::MySql || n == 0 {
                msg(faithful(&g0, &mut n0), what)?;
                msg(faithful(&g, &mut net), what)?;
            }
            let d = net.peer::<Server>().dumps.clone();
            ensure!(d.len() == 1, "{}: {} dump requests", what(), d.len());
            if let From::MySqlGtid { set, .. } = &d[0].from {
                ensure!(*set == sets, "{}: another GTID set arrives", what());
            }
            Ok(())
        }),
        group("loopback", "every session over a real connection, the server writing in pieces: the same bytes and items as in the model of the network", |ch| {
            let d = sessions(ch);
            let chunk = ch.of(by_tier(&[1usize << 20, 7][..], &[1 << 20, 1, 3, 7, 64]));
            let b = base(&d)?;
            let what = || format!("{:?} over a real connection, in pieces of {}", d, chunk);
            ch.sample(what);
            ch.distinct(&(format!("{:?}", d), chunk));
            ch.step(1);
            match real(&d, chunk) {
                Err(e) if e.starts_with("harness") => {
                    ch.note("sessions a real connection could not be made for", 1);
                    let _ = e;
                    Ok(())
                }
                Err(e) => viol(format!("{}: {}", what(), e)),
                Ok((g, sent, streamed, complaints)) => {
                    ensure!(g.open.is_none(), "{}: {:?}", what(), g.open);
                    ensure!(complaints.is_empty(), "{}: {:?}", what(), complaints);
                    ensure!(sent == b.sent, "{}: the client sends something else", what());
                    msg(compare(&g.items, &streamed), what)?;
                    msg(compare(&g.items, &b.items), what)?;
                    ensure!(g.ended, "{}: the stream does not end", what());
                    Ok(())
                }
            }
        }),
    ]
}
pub fn h16(i: usize) -> [u8; 16] {
    let mut v = [0x40; 16];
    v[..8].copy_from_slice(&(i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).to_be_bytes());
    v
}
/// How many bytes the server sends before the first event of interest: everything up to the stream, then the
/// rotation and the format description.
fn before_stream(d: &Dialogue) -> Result<u64, Viol> {
    static MEMO: OnceLock<Mutex<HashMap<String, u64>>> = OnceLock::new();
    let m = MEMO.get_or_init(Default::default);
    let k = format!("{:?}", d);
    if let Some(b) = m.lock().unwrap().get(&k) {
        return Ok(*b);
    }
    let mut s = d.server();
    s.tamper = Some(Box::new(move |_, _, st, _, _| match st {
        Step::Event(2) => Act::HaltRaw(vec![Out::Close]),
        _ => Act::Pass,
    }));
    let (g, net) = with_server(s, NetPlan::default(), || run(&mut d.client(), 3));
    if let Some(e) = g.open {
        return viol(format!("the undisturbed session {:?} fails: {}", d, e));
    }
    let b = net.conns[0].received;
    m.lock().unwrap().insert(k, b);
    Ok(b)
}

// ---------------------------------------------------------------- C25

fn intervals() -> Vec<Duration> {
    let mut v = vec![HB, Duration::from_secs(1), Duration::from_millis(1), Duration::from_secs(3600), Duration::from_millis(1500), Duration::from_secs(10), Duration::from_secs(60), Duration::from_secs(86400), Duration::from_secs(4_294_967)];
    if thorough() {
        v.extend([Duration::from_millis(10), Duration::from_millis(999), Duration::from_millis(1001), Duration::from_secs(9), Duration::from_secs(11), Duration::from_secs(59)]);
    }
    v
}
fn limits(net: &Net, hb: Duration, what: &dyn Fn() -> String) -> Res {
    if let Some(v) = &net.verdict {
        return viol(format!("{}: {}", what(), v));
    }
    for c in &net.conns {
        ensure!(c.unlimited_waits == 0, "{}: a read waits without limit", what());
        ensure!(c.max_timeout <= hb + SLACK, "{}: a read may wait {:?} with a heartbeat interval of {:?}", what(), c.max_timeout, hb);
        if let Some(m) = c.min_timeout {
            ensure!(m > hb, "{}: a read waits {:?} only, with a heartbeat interval of {:?}", what(), m, hb);
        }
        ensure!(c.recvs == 0 || c.min_timeout.is_some(), "{}: reads have no limit", what());
    }
    Ok(())
}
/// A session that is cut somewhere.
fn cut(ch: &mut Ch, d: &Dialogue, hb: Duration, plan: NetPlan) -> Res {
    let b = base(&Dialogue { cfg: d.cfg.clone(), start: d.start, blocking: false })?;
    let what = || format!("{:?}, interval {:?}: {:?} {:?}", (d.cfg.flavor, d.cfg.greet, d.cfg.account, d.cfg.full, d.start, d.blocking), hb, plan.cut, plan.wcut);
    ch.sample(what);
    ch.distinct(&(format!("{:?}", d), hb, plan.cut, plan.wcut));
    ch.state(&(d.cfg.flavor, d.cfg.greet, d.cfg.account, d.cfg.full, d.start, plan.cut, plan.wcut));
    ch.step(1);
    let mut s = d.server();
    s.mute = true;
    let ((g, again), mut net) = with_server(s, plan.clone(), || {
        let mut c = d.client();
        c.options.heartbeat_interval = hb;
        let mut g = Got::default();
        let mut events = match c.replicate() {
            Err(e) => {
                g.open = Some(err_text(&e));
                return (g, vec![]);
            }
            Ok(e) => e,
        };
        loop {
            match events.next() {
                None => {
                    g.ended = true;
                    break;
                }
                Some(r) => {
                    let bad = r.is_err();
                    g.items.push(item(&r));
                    if bad || g.items.len() > 1000 {
                        break;
                    }
                }
            }
        }
        // Asking on after the loss must not hang, or look like a normal end, either.
        let again: Vec<Option<bool>> = (0..2).map(|_| events.next().map(|r| r.is_ok())).collect();
        (g, again)
    });
    ch.outcome(&(g.open.is_some(), g.items.len(), g.ended));
    limits(&net, hb, &what)?;
    let beat = net.peer::<Server>().sess[0].vars.get("master_heartbeat_period").cloned().flatten();
    if g.open.is_none() {
        ensure!(beat == Some(hb.as_nanos().to_string()), "{}: heartbeats were asked for with the period {:?}", what(), beat);
        let first_bad = g.items.iter().position(|i| i.is_err());
        let whole = !d.blocking && net.conns[0].received == b.received;
        if whole {
            // Everything had arrived before the failure.
            ensure!(g.ended, "{}: everything was delivered, yet the stream does not end", what());
        } else {
            ensure!(!g.ended, "{}: the stream ends as if the server had ended it", what());
            ensure!(first_bad.is_some(), "{}: no error", what());
            ensure!(!again.contains(&None), "{}: asked again, the stream ends as if the server had ended it", what());
            ensure!(!again.contains(&Some(true)), "{}: asked again, there is an event", what());
        }
        let n = first_bad.unwrap_or(g.items.len());
        ensure!(n <= b.items.len(), "{}: {} events, the server has {}", what(), n, b.items.len());
        msg(compare(&g.items[..n], &b.items[..n]), what)?;
    }
    let waits = 1 + again.len() as u32;
    ensure!(net.clock <= (hb + SLACK) * waits, "{}: the client returns after {:?}", what(), net.clock);
    Ok(())
}
fn c25() -> Vec<Group> {
    vec![
        group("every byte", "silence, end and reset before every byte of every session", |ch| {
            let mut d = sessions(ch);
            let b = base(&d)?;
            d.blocking = ch.flag();
            let n = if d.blocking { b.received - 9 } else { b.received };
            let at = ch.range(0, n);
            let how = ch.of(&[Cut::Silent, Cut::Close, Cut::Reset]);
            cut(ch, &d, HB, NetPlan { cut: Some((0, at, how)), ..Default::default() })
        }),
        group("every interval", "silence, end and reset before every byte of two sessions, with every heartbeat interval", |ch| {
            let mut d = plain(ch.choose(2));
            let b = base(&d)?;
            d.blocking = true;
            let hb = { let v = intervals(); *ch.pick(&v) };
            let at = ch.range(0, b.received - 9);
            let how = ch.of(&[Cut::Silent, Cut::Close, Cut::Reset]);
            cut(ch, &d, hb, NetPlan { cut: Some((0, at, how)), ..Default::default() })
        }),
        group("pieces", "the same with reads of at most 1 to 7 bytes", |ch| {
            let mut d = plain(ch.choose(3));
            let b = base(&d)?;
            d.blocking = true;
            let cap = ch.of(by_tier(&[1usize, 3][..], &[1, 2, 3, 4, 5, 7]));
            let at = ch.range(0, b.received - 9);
            let how = ch.of(&[Cut::Silent, Cut::Close, Cut::Reset]);
            cut(ch, &d, HB, NetPlan { rcap: cap, cut: Some((0, at, how)), ..Default::default() })
        }),
        group("while sending", "the connection fails before every byte the client sends", |ch| {
            let d = sessions(ch);
            let b = base(&d)?;
            let at = ch.range(0, b.wrote - 1);
            let cap = ch.of(&[0usize, 1]);
            let hb = ch.of(&[HB, Duration::from_secs(3600)]);
            let plan = NetPlan { wcap: cap, wcut: Some((0, at)), ..Default::default() };
            let what = || format!("{:?}: the connection fails before byte {} is sent", d, at);
            ch.sample(what);
            ch.distinct(&(format!("{:?}", d), at, cap, hb));
            ch.step(1);
            ch.state(&(at, d.cfg.flavor, d.start));
            let (g, net) = with_server(d.server(), plan, || {
                let mut c = d.client();
                c.options.heartbeat_interval = hb;
                run(&mut c, 10)
            });
            limits(&net, hb, &what)?;
            ensure!(g.open.is_some(), "{}: replication starts all the same", what());
            ensure!(net.clock <= hb + SLACK, "{}: the client returns after {:?}", what(), net.clock);
            Ok(())
        }),
        group("idle streams", "heartbeats at the interval, up to a second late, with events anywhere between them, then silence: no error before, an error behind", |ch| {
            let flavor = ch.of(&[Flavor::MySql, Flavor::Maria]);
            let hb = { let v = intervals(); *ch.pick(&v) };
            let late = ch.of(&[Duration::ZERO, Duration::from_millis(1), Duration::from_millis(900)]);
            let n = by_tier(4, 6);
            // What comes next: a heartbeat on time, an event at once, an event just before the heartbeat.
            let kinds: Vec<usize> = (0..n).map(|_| ch.choose(3)).collect();
            let last = ch.of(&[Cut::Silent, Cut::Close, Cut::Reset]);
            let cfg = Cfg::new(flavor);
            let c2 = cfg.clone();
            let mut f = FileB::new();
            f.crc = true;
            f.ev(&p_rotate(4, "mysql-bin.000001"));
            f.fde("8.0.32", 41, Some(1));
            for k in &kinds {
                f.ev(&if *k == 0 { p_heartbeat("mysql-bin.000001") } else { p_query("shop", "BEGIN") })
            }
            let ev = events_of(&f);
            let mut out = vec![];
            for (i, e) in ev.iter().enumerate() {
                if i >= 2 {
                    match kinds[i - 2] {
                        0 => out.push(Out::Wait(hb + late)),
                        2 => out.push(Out::Wait(hb)),
                        _ => {}
                    }
                }
                out.push(Out::Data(packet(i as u8 + 1, &[&[0u8][..], e].concat())));
            }
            match last {
                Cut::Close => out.push(Out::Close),
                Cut::Reset => out.push(Out::Reset),
                Cut::Silent => {}
            }
            let mut log = Binlog::new(flavor);
            log.file("mysql-bin.000001", cfg.sv());
            let mut s = Server::new(cfg, log);
            let mut out = Some(out);
            s.tamper = Some(Box::new(move |_, _, st, _, _| match st {
                Step::Event(0) => Act::HaltRaw(out.take().unwrap_or_default()),
                _ => Act::Pass,
            }));
            let what = || format!("{:?}, interval {:?}, {:?} late: {:?}, then {:?}", flavor, hb, late, kinds, last);
            ch.sample(what);
            ch.distinct(&(flavor, hb, late, &kinds, last));
            ch.step(n as u64 + 2);
            ch.state(&(&kinds, last));
            let (g, net) = with_server(s, NetPlan::default(), || {
                let mut c = BinlogClient::new(options(&c2, BinlogOptions::from_start(), true));
                c.options.heartbeat_interval = hb;
                run(&mut c, f.want.len() + 1)
            });
            limits(&net, hb, &what)?;
            ensure!(g.open.is_none(), "{}: {:?}", what(), g.open);
            let mut want = f.want.clone();
            want.push(Err("lost".into()));
            msg(compare(&g.items, &want), what)
        }),
        group("same allowance", "the longest wait of a read exceeds the interval by the same allowance whatever the interval is", |ch| {
            let hb = { let v = intervals(); *ch.pick(&v) };
            let d = plain(ch.choose(3));
            let limit = |hb: Duration| {
                let mut s = d.server();
                s.mute = true;
                let (_, net) = with_server(s, NetPlan::default(), || {
                    let mut c = d.client();
                    c.options.heartbeat_interval = hb;
                    run(&mut c, 1000)
                });
                (net.conns[0].max_timeout, net.conns[0].min_timeout)
            };
            let (a, b) = (limit(hb), limit(HB));
            ch.distinct(&(hb, format!("{:?}", d)));
            ch.step(2);
            ch.state(&hb);
            ensure!(a.0 >= hb && b.0 >= HB && a.0 - hb == b.0 - HB, "reads wait up to {:?} with an interval of {:?}, up to {:?} with {:?}", a.0, hb, b.0, HB);
            Ok(())
        }),
    ]
}
