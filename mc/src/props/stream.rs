//! C03, C04, C12, C14 on replication streams: the events of a file under construction are sent as packets behind a
//! login of the model server.
use super::common::*;
use super::events::{all_ops, definition, history, Op, DEFS, GENERATIONS};
use super::hostile::{around, hex, pool, splices, undecodable, with_body, BYTES, HEAP};
use super::net::*;
use crate::env::{NetPlan, Out};
use crate::explore::*;
use crate::obs::*;
use crate::server::*;
use crate::wire::*;
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;

/// The bytes of every event of a file.
pub fn events_of(f: &FileB) -> Vec<Vec<u8>> {
    let mut at = 4;
    f.ends
        .iter()
        .map(|e| {
            let b = f.bytes[at..*e].to_vec();
            at = *e;
            b
        })
        .collect()
}
pub struct Streamed {
    pub open: Option<String>,
    pub items: Vec<Item>,
    pub ended: bool,
    pub verdict: Option<String>,
}
/// A server that streams exactly these payloads, the end-of-file packet behind them; options to connect to it.
fn player(payloads: Vec<Vec<u8>>, crc: bool, flavor: Flavor) -> (Server, Cfg) {
    let mut cfg = Cfg::new(flavor);
    cfg.crc = crc;
    let c2 = cfg.clone();
    let mut log = Binlog::new(flavor);
    let sv = cfg.sv();
    log.file("mysql-bin.000001", sv);
    let mut s = Server::new(cfg, log);
    let mut pk = Some(payloads);
    s.tamper = Some(Box::new(move |_, _, st, seq, _| match (st, pk.take()) {
        (Step::Event(0), Some(p)) => {
            let mut n = seq;
            let mut v = vec![];
            for b in p.iter().chain([&eof_packet()]) {
                v.extend(packet(n, b));
                n = n.wrapping_add(1);
            }
            Act::HaltRaw(vec![Out::Data(v)])
        }
        (_, p) => {
            pk = p;
            Act::Pass
        }
    }));
    (s, c2)
}
/// Replicates exactly these payloads, the end-of-file packet behind them.
pub fn play(payloads: Vec<Vec<u8>>, crc: bool, flavor: Flavor, max: usize) -> Streamed {
    let (s, c) = player(payloads, crc, flavor);
    let (g, net) = with_server(s, NetPlan::default(), || run(&mut BinlogClient::new(options(&c, BinlogOptions::from_start(), true)), max));
    Streamed { open: g.open, items: g.items, ended: g.ended, verdict: net.verdict.clone() }
}
pub fn c26() -> Vec<Group> {
    vec![group("ways of reading", "every sequence of 3 (thorough: 4) ways of taking items (next, nth, take, step_by, size_hint) and every way of taking the rest", |ch| {
        let crc = ch.flag();
        let ways: Vec<Way> = (0..by_tier(3, 4)).map(|_| ch.of(&WAYS[..WAYS.len() - 1])).collect();
        let rest = ch.of(&RESTS);
        let mut f = ready(crc);
        dependent(&mut f);
        let mut payloads = packed(&f);
        let mut want = f.want.clone();
        // An error packet and one of neither kind among the events.
        for (at, p) in [(6, err_packet(1236, Some("HY000"), "log lost")), (9, vec![0x42, 1, 2])] {
            payloads.insert(at, p);
            want.insert(at, Err("a packet that is no event".into()));
        }
        ch.step(want.len() as u64);
        ch.distinct(&(crc, &ways, rest));
        ch.sample(|| format!("{:?}, then {:?}", ways, rest));
        let (s, c) = player(payloads, crc, Flavor::MySql);
        let (r, net) = with_server(s, NetPlan::default(), || match BinlogClient::new(options(&c, BinlogOptions::from_start(), true)).replicate() {
            Err(e) => Err(format!("replication fails: {}", err(&e))),
            Ok(it) => walk(it, &ways, rest, &want, |_| unreachable!()),
        });
        msg(r.and(net.verdict.clone().map_or(Ok(()), Err)), || format!("{:?}, then {:?}", ways, rest))
    })]
}
fn packed(f: &FileB) -> Vec<Vec<u8>> {
    events_of(f).into_iter().map(|e| [&[0u8][..], &e].concat()).collect()
}
/// Streams a well-formed sequence and compares.
pub fn check_stream(f: &FileB, crc: bool, flavor: Flavor) -> Result<(), String> {
    let r = play(packed(f), crc, flavor, f.want.len() + 3);
    if let Some(e) = r.open {
        return Err(format!("replication fails: {}", e));
    }
    if let Some(v) = r.verdict {
        return Err(v);
    }
    compare(&r.items, &f.want).map_err(|e| format!("in a stream: {}", e))?;
    if !r.ended {
        return Err("the stream does not end after the last event".into());
    }
    Ok(())
}
/// What a server puts in front: the rotation to the first file, under the negotiated algorithm, then the format.
fn opened(negotiated: bool) -> FileB {
    let mut f = FileB::new();
    f.crc = negotiated;
    f.ev(&p_rotate(4, "mysql-bin.000001"));
    f
}
fn ready(crc: bool) -> FileB {
    let mut f = opened(crc);
    f.fde("8.0.32", 41, Some(crc as u8));
    f
}
fn survive(payloads: Vec<Vec<u8>>, crc: bool, what: &dyn Fn() -> String) -> Result<Vec<Item>, Viol> {
    let max = payloads.len() + 3;
    crate::alloc::limit(HEAP);
    let r = catch(|| play(payloads, crc, Flavor::MySql, max));
    crate::alloc::unlimited();
    match r {
        Ok(r) => {
            if let Some(v) = r.verdict {
                return viol(format!("{}: {}", what(), v));
            }
            if let Some(e) = r.open {
                return viol(format!("{}: replication fails: {}", what(), e));
            }
            ensure!(r.ended, "{}: {} packets yield {} items and no end", what(), max - 3, max);
            Ok(r.items)
        }
        Err(Caught::Panic(m)) => viol(format!("{}: {}", what(), m)),
        Err(Caught::Engine(m)) => panic!("{}", m),
    }
}

pub fn c03() -> Vec<Group> {
    vec![
        group("undecodable in a stream", "every kind of undecodable event at every place of a stream with intact events, alone and twice, checksums off and on", |ch| {
            let u = undecodable();
            let i = ch.choose(u.len());
            let (name, p) = &u[i];
            let crc = ch.flag();
            let ev = around();
            let at = ch.choose(ev.len() + 1);
            for second in (0..1).chain(at + 1..by_tier(at + 1, ev.len() + 2).max(at + 2).min(ev.len() + 2)) {
                let mut f = ready(crc);
                for k in 0..=ev.len() {
                    if k == at {
                        f.ev(p)
                    }
                    if second == k + 1 {
                        f.ev(p)
                    }
                    if k < ev.len() {
                        f.ev(&ev[k])
                    }
                }
                ch.evals(1);
                ch.distinct(&f.bytes);
                if let Err(e) = check_stream(&f, crc, Flavor::MySql) {
                    return viol(format!("{} before event {} (checksums {}): {}", name, at, crc, e));
                }
            }
            ch.outcome(name);
            ch.sample(|| format!("{} before event {} of a stream", name, at));
            Ok(())
        }),
        group("short packets in a stream", "event packets cut anywhere in their header or just behind it, at every place of a stream", |ch| {
            let ev = around();
            let crc = ch.flag();
            let at = ch.choose(ev.len() + 1);
            let n = ch.range(0, by_tier(24, 40)) as usize;
            let typ = ch.of(&[QUERY, XID, TABLE_MAP, ROTATE, 30, 0, 255]);
            let mut f = ready(crc);
            let mut pk = vec![];
            for p in &ev {
                f.ev(p)
            }
            let all = packed(&f);
            let h = event(&Hdr { ts: 1, typ, server_id: 1, len: 60, next: 100, flags: 0 }, &[1; 41], false);
            let cut = [&[0u8][..], &h[..n]].concat();
            let mut want = f.want.clone();
            for (k, p) in all.iter().enumerate() {
                if k == at + 2 {
                    pk.push(cut.clone())
                }
                pk.push(p.clone())
            }
            if at == ev.len() {
                pk.push(cut.clone())
            }
            want.insert(at + 2, Err("cut short".into()));
            ch.distinct(&pk);
            let what = || format!("an event packet of type {} with {} bytes before event {} (checksums {})", typ, n, at, crc);
            ch.sample(what);
            let r = play(pk, crc, Flavor::MySql, want.len() + 3);
            ensure!(r.open.is_none() && r.verdict.is_none(), "{}: {:?} {:?}", what(), r.open, r.verdict);
            // Behind a complete header (and, if checksums are on, a checksum) types without a fixed part may be complete.
            let complete = n >= 19 + if crc { 4 } else { 0 };
            if complete && (typ == 0 || typ == 255 || typ == XID && n >= 27) {
                want.remove(at + 2);
                ensure!(r.items.len() == want.len() + 1, "{}: {} items", what(), r.items.len());
                let mut got = r.items.clone();
                got.remove(at + 2);
                return msg(compare(&got, &want), what);
            }
            if complete {
                // One item, and the others undisturbed.
                ensure!(r.items.len() == want.len(), "{}: {} items", what(), r.items.len());
                let (mut g, mut w) = (r.items, want);
                g.remove(at + 2);
                w.remove(at + 2);
                return msg(compare(&g, &w), what);
            }
            msg(compare(&r.items, &want), what)?;
            ensure!(r.ended, "{}: the stream does not end", what());
            Ok(())
        }),
        group("mutated in a stream", "every event of the pool with every byte replaced (6 values; thorough: 26) or cut anywhere, in a stream: one item for it, every other item as without it", |ch| {
            let p: Vec<_> = pool().into_iter().filter(|x| !x.0.starts_with("format")).collect();
            let (name, g) = ch.pick(&p);
            let at = ch.choose(g.len());
            let n = g[at].body.len();
            let i = ch.choose(n + 1);
            let mut bodies: Vec<Vec<u8>> = vec![g[at].body[..i].to_vec()];
            if i < n {
                for v in by_tier(&[0u8, 1, 63, 128, 250, 255][..], &BYTES[..]) {
                    let mut b = g[at].body.clone();
                    b[i] = *v;
                    bodies.push(b);
                }
            }
            for b in bodies {
                let mut f = ready(true);
                let mut mine = 0;
                for (k, q) in around().iter().enumerate() {
                    if k == 4 {
                        for (m, x) in g.iter().enumerate() {
                            if m == at {
                                let mut x = x.clone();
                                x.body = b.clone();
                                mine = f.want.len();
                                f.ev(&x);
                            } else if m < at {
                                f.ev(x);
                            }
                        }
                    }
                    f.ev(q);
                }
                ch.evals(1);
                ch.distinct(&f.bytes);
                let what = || format!("{} (event type {}) with payload {}", name, g[at].typ, hex(&b));
                let items = survive(packed(&f), true, &what)?;
                ensure!(items.len() == f.want.len(), "{}: {} items for {} events", what(), items.len(), f.want.len());
                let replaced = matches!(&items[mine], Ok((_, Ev::TableMap(t))) if t.id == 101);
                for k in 0..f.want.len() {
                    if k == mine || (replaced && k > mine && matches!(f.want[k], Ok((_, Ev::Rows(_))))) {
                        continue;
                    }
                    ensure!(same(&items[k], &f.want[k]), "{}: another event changed\n got  {}\n want {}", what(), show(&items[k]), show(&f.want[k]));
                }
                ch.outcome(&(g[at].typ, items[mine].is_ok()));
            }
            Ok(())
        }),
    ]
}

pub fn c04() -> Vec<Group> {
    vec![
        group("every type in a stream", "every event type code with payloads of 0..20 bytes (thorough: 0..60) of four fill patterns, checksums off and on", |ch| {
            let typ = ch.range(0, 255) as u8;
            let crc = ch.flag();
            for n in 0..=by_tier(20usize, 60) {
                for fill in [0u8, 1, 0x80, 0xff] {
                    let mut f = ready(crc);
                    f.ev(&p_table(&small_table(0)));
                    f.put(&p_unknown(typ, &vec![fill; n]), false);
                    ch.evals(1);
                    ch.distinct(&(typ, crc, n, fill));
                    let r = survive(packed(&f), crc, &|| format!("event type {} with {} bytes of {} in a stream (checksums {})", typ, n, fill, crc))?;
                    ch.outcome(&(typ, r.last().map(|x| x.is_ok())));
                }
            }
            Ok(())
        }),
        group("mutated in a stream", "every event of the pool with every byte replaced by 8 values (thorough: 26), cut to every length, or with a length written over it", |ch| {
            let p = pool();
            let (_, g) = ch.pick(&p);
            let at = ch.choose(g.len());
            let n = g[at].body.len();
            let i = ch.choose(n + 1);
            let mut bodies = vec![g[at].body[..i].to_vec()];
            if i < n {
                for v in by_tier(&[0u8, 1, 7, 127, 128, 251, 254, 255][..], &BYTES[..]) {
                    let mut b = g[at].body.clone();
                    b[i] = *v;
                    bodies.push(b)
                }
                for s in splices().iter().take(by_tier(6, 15)) {
                    let mut b = g[at].body.clone();
                    let end = (i + s.len()).min(n);
                    b.splice(i..end, s.iter().copied());
                    bodies.push(b)
                }
            }
            for b in bodies {
                let mut f = with_body(g, at, &b, true);
                f.bytes.splice(0..0, vec![]);
                ch.evals(1);
                ch.distinct(&f.bytes);
                let r = survive(packed(&f), true, &|| format!("event type {} with payload {} in a stream", g[at].typ, hex(&b)))?;
                ch.outcome(&(g[at].typ, r.len()));
            }
            Ok(())
        }),
        group("headers in a stream", "every event header field at its boundaries, whatever the size of the packet", |ch| {
            let mut lens: Vec<u32> = (0..by_tier(50, 200)).collect();
            for k in 6..32 {
                lens.extend([(1u32 << k) - 1, 1 << k, (1 << k) + 1]);
            }
            lens.extend([u32::MAX, u32::MAX - 18, u32::MAX - 19, u32::MAX - 20]);
            let len = ch.of(&lens);
            let crc = ch.flag();
            for typ in [0u8, 2, 4, 15, 19, 30, 33, 255] {
                for after in [0usize, 3, 4, 19, 100] {
                    let mut pk = packed(&ready(crc));
                    let h = Hdr { ts: u32::MAX, typ, server_id: 0, len, next: u32::MAX, flags: 0xffff };
                    pk.push([&[0u8][..], &event(&h, &vec![1; after], false)].concat());
                    pk.push([&[0u8][..], &event(&h, &vec![0; after], crc)].concat());
                    ch.evals(1);
                    ch.distinct(&pk);
                    survive(pk, crc, &|| format!("an event header of type {} declaring {} bytes, {} sent", typ, len, after))?;
                }
            }
            Ok(())
        }),
    ]
}

fn stream_history(ch: &mut Ch, ops: &[Op], ids: &[u64], crc: bool) -> Res {
    let mut f = ready(crc);
    history(ops, ids, &mut f);
    ch.step(ops.len() as u64);
    ch.distinct(&f.bytes);
    msg(check_stream(&f, crc, Flavor::MySql), || format!("history {:?} on table ids {:?}", ops, ids))
}
pub fn c12() -> Vec<Group> {
    vec![
        group("histories in a stream", "every sequence of 4 (thorough: 5) operations over 2 table ids, 3 definitions, row events and other events, as a replication stream", |ch| {
            let ops = all_ops(2, 3, 1);
            let h: Vec<Op> = (0..by_tier(4, 5)).map(|_| ch.of(&ops)).collect();
            stream_history(ch, &h, &[7, 8], true)
        }),
        group("more tables in a stream", "every sequence of 3 (thorough: 4) operations over 3 table ids, 3 definitions, every other event, rotations and format descriptions, as a replication stream", |ch| {
            let mut ops = all_ops(3, 3, 7);
            ops.extend([Op::Rotate, Op::Describe]);
            let h: Vec<Op> = (0..by_tier(3, 4)).map(|_| ch.of(&ops)).collect();
            stream_history(ch, &h, &[0, 1, 0x0000_ffff_ffff_ffff], false)
        }),
        group("many tables in a stream", "up to 1025 tables mapped before, between and after row events on each of them, as a replication stream", |ch| {
            let n = ch.of(&[1usize, 2, 3, 10, 64, 65, 128, 200, 256, 257, 1025]);
            let stride = ch.of(&[1u64, 256, 1 << 16, 1 << 24]);
            let ids: Vec<u64> = (0..n as u64).map(|i| i * stride).collect();
            let mut h: Vec<Op> = (0..n).map(|i| Op::Map(i, i % DEFS)).collect();
            h.extend((0..n).rev().map(Op::Rows));
            h.extend((0..n).step_by(2).map(|i| Op::Map(i, (i + 1) % DEFS)));
            h.extend((0..n).map(Op::Rows));
            stream_history(ch, &h, &ids, true)
        }),
        group("maps across connections", "a second connection of the same client, with the same table ids for other tables: nothing is remembered", |ch| {
            // The parser belongs to the stream, so row events of a new stream have no definition yet.
            let (a, b) = (ch.choose(5), ch.choose(5));
            let crc = ch.flag();
            let id = ch.of(&[7u64, 0, 0xffff_ffff]);
            let mut f1 = ready(crc);
            f1.ev(&p_table(&definition(id, a)));
            f1.ev(&p_rows(&super::events::row_of(a, id, 1, Kind::Write, 2)));
            let mut f2 = ready(crc);
            let mut lost = p_rows(&super::events::row_of(a, id, 2, Kind::Write, 2));
            lost.ev = None;
            f2.ev(&lost);
            f2.ev(&p_table(&definition(id, b)));
            f2.ev(&p_rows(&super::events::row_of(b, id, 3, Kind::Update, 2)));
            let mut cfg = Cfg::new(Flavor::MySql);
            cfg.crc = crc;
            let c2 = cfg.clone();
            let mut log = Binlog::new(Flavor::MySql);
            let sv = cfg.sv();
            log.file("mysql-bin.000001", sv);
            let mut s = Server::new(cfg, log);
            let pk = [packed(&f1), packed(&f2)];
            s.tamper = Some(Box::new(move |c, _, st, seq, _| match st {
                Step::Event(0) => {
                    let mut n = seq;
                    let mut v = vec![];
                    for b in pk[c].iter().chain([&eof_packet()]) {
                        v.extend(packet(n, b));
                        n = n.wrapping_add(1);
                    }
                    Act::HaltRaw(vec![Out::Data(v)])
                }
                _ => Act::Pass,
            }));
            ch.distinct(&(a, b, crc, id));
            ch.state(&(a, b));
            ch.step(2);
            let ((g1, g2), _) = with_server(s, NetPlan::default(), || {
                let mut c = BinlogClient::new(options(&c2, BinlogOptions::from_start(), true));
                (run(&mut c, 20), run(&mut c, 20))
            });
            let what = || format!("table id {} with definition {}, after reconnecting {}", id, a, b);
            msg(compare(&g1.items, &f1.want), what)?;
            msg(compare(&g2.items, &f2.want), what)
        }),
    ]
}
pub fn c14() -> Vec<Group> {
    vec![
        group("start of a stream", "every negotiated algorithm, the rotation sent under it, the format description of every generation, then every event of the pool", |ch| {
            let negotiated = ch.flag();
            let d = ch.of(&GENERATIONS);
            let t = pool();
            let (name, g) = ch.pick(&t);
            if name.starts_with("format") {
                return Ok(());
            }
            let flavor = ch.of(&[Flavor::MySql, Flavor::Maria]);
            let mut f = opened(negotiated);
            f.fde(d.0, d.1, d.2);
            for p in g {
                f.ev(p);
                ch.step(1);
            }
            ch.state(&(negotiated, f.crc, name));
            ch.distinct(&(negotiated, &f.bytes, flavor));
            msg(check_stream(&f, negotiated, flavor), || format!("{} after negotiating checksums={} and the format description {:?}", name, negotiated, d))
        }),
        group("before any format description", "every event of the pool under the negotiated algorithm alone", |ch| {
            let negotiated = ch.flag();
            let t = pool();
            let (name, g) = ch.pick(&t);
            if name.starts_with("format") {
                return Ok(());
            }
            let mut f = opened(negotiated);
            for p in g.iter().chain(g.iter()) {
                f.ev(p);
                ch.step(1);
            }
            ch.state(&(negotiated, name));
            ch.distinct(&f.bytes);
            msg(check_stream(&f, negotiated, Flavor::MySql), || format!("{} after negotiating checksums={}", name, negotiated))
        }),
        group("changes in a stream", "every negotiated algorithm and every sequence of up to 3 (thorough: 4) format descriptions, with rotations and events between them, in a stream", |ch| {
            let negotiated = ch.flag();
            let mut f = opened(negotiated);
            let mut h = vec![];
            for i in 0..by_tier(3, 4) {
                let d = ch.of(&GENERATIONS);
                h.push(d.0);
                f.fde(d.0, d.1, d.2);
                ch.state(&(negotiated, f.crc));
                for p in [p_query("shop", "BEGIN"), p_table(&small_table(50 + i as u64)), p_rows(&small_rows(Kind::Write, 2, 50 + i as u64)), p_rowsquery("x"), p_heartbeat("f"), p_rotate(4, "mysql-bin.000002")] {
                    f.ev(&p);
                    ch.step(1);
                }
            }
            ch.distinct(&f.bytes);
            msg(check_stream(&f, negotiated, Flavor::MySql), || format!("checksums={} negotiated, format descriptions {:?}", negotiated, h))
        }),
        group("reconnecting", "the algorithm negotiated by a second connection of the same client replaces whatever the first one left", |ch| {
            let (a, b) = (ch.flag(), ch.flag());
            let d = ch.of(&GENERATIONS);
            let n2 = ch.of(&GENERATIONS);
            let mut f1 = opened(a);
            f1.fde(d.0, d.1, d.2);
            f1.ev(&p_query("shop", "BEGIN"));
            let mut f2 = opened(b);
            f2.ev(&p_heartbeat("x"));
            f2.fde(n2.0, n2.1, n2.2);
            f2.ev(&p_query("shop", "BEGIN"));
            let mut all = vec![];
            let mut cfg = Cfg::new(Flavor::MySql);
            cfg.crc = a;
            let c2 = cfg.clone();
            let sv = cfg.sv();
            let (g1, g2) = {
                let mk = |crc: bool, f: &FileB| {
                    let mut c = cfg.clone();
                    c.crc = crc;
                    let mut log = Binlog::new(Flavor::MySql);
                    log.file("mysql-bin.000001", sv);
                    let mut s = Server::new(c, log);
                    let pk = packed(f);
                    s.tamper = Some(Box::new(move |_, _, st, seq, _| match st {
                        Step::Event(0) => {
                            let mut n = seq;
                            let mut v = vec![];
                            for b in pk.iter().chain([&eof_packet()]) {
                                v.extend(packet(n, b));
                                n = n.wrapping_add(1);
                            }
                            Act::HaltRaw(vec![Out::Data(v)])
                        }
                        _ => Act::Pass,
                    }));
                    s
                };
                let mut c = BinlogClient::new(options(&c2, BinlogOptions::from_start(), true));
                let (g1, _) = with_server(mk(a, &f1), NetPlan::default(), || run(&mut c, 20));
                let (g2, _) = with_server(mk(b, &f2), NetPlan::default(), || run(&mut c, 20));
                (g1, g2)
            };
            all.extend([&f1.bytes, &f2.bytes]);
            ch.distinct(&all);
            ch.state(&(a, b, f1.crc));
            ch.step(6);
            let what = || format!("checksums={} negotiated with {:?}, then after reconnecting checksums={} with {:?}", a, d, b, n2);
            msg(compare(&g1.items, &f1.want), what)?;
            msg(compare(&g2.items, &f2.want), what)
        }),
    ]
}
