//! C32-C34: what long use, options and commits of any events must not change.
use super::common::*;
use super::hostile::undecodable;
use super::net::*;
use super::proto::{flows, with_flow, Dialogue};
use super::stream::events_of;
use crate::alloc;
use crate::env::{self, NetPlan, Out};
use crate::explore::*;
use crate::obs::*;
use crate::server::*;
use crate::wire::*;
use crate::Check;
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::binlog_reader::BinlogReader;
use mysql_cdc::errors::Error;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::events::event_header::EventHeader;
use mysql_cdc::ssl_mode::SslMode;
use mysql_cdc::starting_strategy::StartingStrategy;
use std::time::Duration;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C32",
            level: "model_checking",
            rule: "A case is a cycle of events, or of sessions, repeated many times; memory still held, memory requested and calls to the operating system are compared between an earlier and a later part of the same length. Distinct by cycle; non-trivial: at least 64 repetitions in each part.",
            assumptions: &["table ids repeat in a cycle: the definitions of all tables mapped so far are kept, as a later rows event may refer to any of them"],
            groups: c32,
        },
        Check {
            id: "C33",
            level: "model_checking",
            rule: "A case is a session (login flow, server, strategy, mode, options with every field set) left, refused or broken at some point, with or without commits; the options afterwards are compared with those given, except for the position. Distinct by session; non-trivial: the session begins.",
            assumptions: &["only commit and the first start from the end may move the position"],
            groups: c33,
        },
        Check {
            id: "C34",
            level: "model_checking",
            rule: "A case is a starting position and a sequence of decoded events handed to commit, in an order no server need ever have sent; distinct by both, non-trivial: at least one event.",
            assumptions: &["the events are obtained by decoding"],
            groups: c34,
        },
    ]
}

// ---------------------------------------------------------------- C32

/// What a part of a run took.
#[derive(Clone, Copy, Debug, Default)]
struct Cost {
    live: i64,
    asked: u64,
    calls: u64,
}
/// Compares the costs of two consecutive parts of equal content; `at` are the readings at their ends.
fn steady(at: &[Cost; 3], reps: u64) -> Result<(), String> {
    let held = at[2].live - at[1].live;
    if held > 2 * reps as i64 {
        return Err(format!("{} more bytes are held after {} more repetitions", held, reps));
    }
    let (a, b) = (at[1].asked - at[0].asked, at[2].asked - at[1].asked);
    if b > a + a / 4 + 2 * reps {
        return Err(format!("{} repetitions request {} bytes of memory, the next {} request {}", reps, a, reps, b));
    }
    let (a, b) = (at[1].calls - at[0].calls, at[2].calls - at[1].calls);
    if b > a + a / 4 + 16 {
        return Err(format!("{} repetitions make {} calls, the next {} make {}", reps, a, reps, b));
    }
    Ok(())
}
/// What a cycle is made of.
fn elements(large: usize) -> Vec<(&'static str, Vec<Proto>)> {
    let mut v: Vec<_> = templates().into_iter().filter(|t| !["rand", "stop", "checkpoint", "unknown type", "delete v2", "update v1", "delete v1", "previous gtids", "user var"].contains(&t.0)).collect();
    let u = undecodable();
    v.push(("an undecodable event", vec![u[0].1.clone()]));
    v.push(("another undecodable event", vec![u[u.len() / 2].1.clone()]));
    v.push(("format description", vec![p_fde("8.0.32", 41, Some(1))]));
    v.push(("a large event", vec![p_annotate(&"a".repeat(large))]));
    // Rows of a table that no map describes.
    v.push(("a large undecodable event", vec![bad(30, [&[7, 7, 7, 7, 7, 7, 1, 0, 2, 0, 1, 1][..], &vec![0; large]].concat())]));
    v
}
const WARM: usize = 16;
fn draw_cycle(ch: &mut Ch, large: usize) -> (Vec<&'static str>, Vec<Proto>) {
    let el = elements(large);
    let n = 1 + ch.choose(by_tier(2, 3));
    let mut names = vec![];
    let mut v = vec![];
    for _ in 0..n {
        let e = ch.pick(&el);
        names.push(e.0);
        v.extend(e.1.iter().cloned());
    }
    (names, v)
}
/// Where the readings are taken: behind the warm-up, behind `reps` more cycles and behind twice as many.
struct Meter {
    marks: [usize; 3],
    at: [Cost; 3],
}
impl Meter {
    fn new(head: usize, cycle: usize, reps: usize) -> Meter {
        Meter { marks: [0, 1, 2].map(|k| head + (WARM + k * reps) * cycle), at: Default::default() }
    }
    fn read(&mut self, done: usize) {
        for k in 0..3 {
            if done == self.marks[k] {
                self.at[k] = Cost { live: alloc::live(), asked: alloc::total(), calls: env::calls() }
            }
        }
    }
}
/// The item is as good as wanted.
fn fits(x: &Option<Result<(EventHeader, BinlogEvent), Error>>, want: &Item) -> Result<(), String> {
    match (x, want) {
        (None, _) => Err("the end".into()),
        (Some(Err(e)), Ok(_)) => Err(err(e)),
        (Some(Ok(_)), Err(_)) => Err("it is decoded".into()),
        _ => Ok(()),
    }
}
fn build(crc: bool, cycle: &[Proto], times: usize) -> FileB {
    let mut f = FileB::start(crc);
    for _ in 0..times {
        for p in cycle {
            match p.typ {
                FDE => f.fde("8.0.32", 41, Some(crc as u8)),
                _ => f.ev(p),
            }
        }
    }
    f
}
fn take_all(it: &mut dyn Iterator<Item = Result<(EventHeader, BinlogEvent), Error>>, want: &[Item], meter: &mut Meter, mut each: impl FnMut(&EventHeader, &BinlogEvent)) -> Result<(), String> {
    for (i, w) in want.iter().enumerate() {
        let x = it.next();
        fits(&x, w).map_err(|e| format!("event {}: {}", i, e))?;
        if let Some(Ok((h, e))) = &x {
            each(h, e)
        }
        drop(x);
        meter.read(i + 1);
    }
    Ok(())
}
/// A server that streams these payloads on every connection, behind its greeting and set-up.
fn streaming(cfg: &Cfg, payloads: Vec<Vec<u8>>) -> Server {
    let mut log = Binlog::new(cfg.flavor);
    log.file("mysql-bin.000001", cfg.sv());
    let mut s = Server::new(cfg.clone(), log);
    s.tamper = Some(Box::new(move |_, _, st, seq, _| match st {
        Step::Event(0) => {
            let mut n = seq;
            let mut v = vec![];
            for b in &payloads {
                v.extend(packet(n, b));
                n = n.wrapping_add(1);
            }
            Act::HaltRaw(vec![Out::Data(v)])
        }
        _ => Act::Pass,
    }));
    s
}
fn payloads(f: &FileB) -> Vec<Vec<u8>> {
    events_of(f).into_iter().map(|e| [&[0u8][..], &e].concat()).collect()
}
fn start_of(cfg: &Cfg, strategy: usize) -> BinlogOptions {
    match (strategy, cfg.flavor) {
        // Nothing has been applied yet.
        (2, Flavor::Maria) => BinlogOptions::from_mariadb_gtid(ma_list(&[])),
        _ => Dialogue { cfg: cfg.clone(), start: strategy, blocking: true }.binlog(),
    }
}
/// Streams what the file holds, committing, and takes the costs.
fn stream_costs(f: &FileB, cfg: &Cfg, start: usize, commit: bool, meter: &mut Meter) -> Result<(), String> {
    let s = streaming(cfg, payloads(f));
    let mut c = BinlogClient::new(options(cfg, start_of(cfg, start), true));
    let (r, net) = with_server(s, NetPlan::default(), || {
        let mut ev = c.replicate().map_err(|e| format!("replication fails: {}", err(&e)))?;
        let r = take_all(&mut ev, &f.want, meter, |h, e| {
            if commit {
                c.commit(h, e)
            }
        });
        drop(ev);
        r
    });
    match &net.verdict {
        Some(v) => Err(v.clone()),
        None => r,
    }
}
fn c32() -> Vec<Group> {
    vec![
        group("files", "every cycle of one or two (thorough: three) of 17 kinds of events, repeated, with and without checksums: nothing more is held, requested or read by later cycles", |ch| {
            let (names, cycle) = draw_cycle(ch, by_tier(40_000, 70_000));
            let crc = ch.flag();
            let reps = by_tier(64, 100);
            let what = format!("a file of repeated {} (checksums: {})", names.join(", "), crc);
            ch.sample(|| what.clone());
            ch.distinct(&what);
            let f = build(crc, &cycle, WARM + 2 * reps);
            ch.step(f.want.len() as u64);
            let mut m = Meter::new(1, cycle.len(), reps);
            let file = memfd(&f.bytes);
            let (r, _) = env::with_file(Default::default(), || {
                let mut it = BinlogReader::new(file).map_err(|e| err(&e))?.read_events();
                take_all(&mut it, &f.want, &mut m, |_, _| {})
            });
            msg(r.and_then(|_| steady(&m.at, reps as u64)), || what)
        }),
        group("streams", "the same for a stream, committing or not, by position and by GTID", |ch| {
            let (names, cycle) = draw_cycle(ch, 9_000);
            let flavor = ch.of(&[Flavor::MySql, Flavor::Maria]);
            let mut cfg = Cfg::new(flavor);
            cfg.crc = ch.flag();
            let start = ch.of(&[0, 2]);
            let commit = start == 2;
            let reps = by_tier(64, 100);
            let what = format!("a stream of repeated {} ({:?}, checksums: {}, start {}, committed: {})", names.join(", "), flavor, cfg.crc, start, commit);
            ch.sample(|| what.clone());
            ch.distinct(&what);
            let f = build(cfg.crc, &cycle, WARM + 2 * reps);
            ch.step(f.want.len() as u64);
            let mut m = Meter::new(1, cycle.len(), reps);
            let r = stream_costs(&f, &cfg, start, commit, &mut m);
            msg(r.and_then(|_| steady(&m.at, reps as u64)), || what)
        }),
        group("transactions", "every cycle of one or two (thorough: three) kinds of transactions with ascending numbers of one or two sources, committed by GTID", |ch| {
            let flavor = ch.of(&[Flavor::MySql, Flavor::Maria]);
            let kinds: &[TxKind] = if flavor == Flavor::MySql { &MY_KINDS } else { &MA_KINDS };
            let n = 1 + ch.choose(by_tier(2, 3));
            let mut cycle = vec![];
            for _ in 0..n {
                let k = *ch.pick(kinds);
                cycle.push((k, ch.choose(2)));
            }
            let cfg = Cfg::new(flavor);
            let reps = 64;
            let what = format!("a stream of repeated {:?} of {:?}", cycle, flavor);
            ch.sample(|| what.clone());
            ch.distinct(&(flavor, &cycle));
            ch.state(&(flavor, &cycle));
            let mut f = FileB::start(cfg.crc);
            let mut no = [2u64, 1];
            let mut per = 0;
            for r in 0..WARM + 2 * reps {
                for (k, s) in &cycle {
                    let id = match flavor {
                        Flavor::MySql => TxId::My(SRC[*s], no[*s]),
                        Flavor::Maria => TxId::Maria(*s as u32, 1, no[*s]),
                    };
                    no[*s] += 1;
                    for p in tx_events(flavor, *k, Some(id), r) {
                        f.ev(&p);
                        per += (r == 0) as usize;
                    }
                }
            }
            ch.step(f.want.len() as u64);
            let mut m = Meter::new(1, per, reps);
            let r = stream_costs(&f, &cfg, 2, true, &mut m);
            msg(r.and_then(|_| steady(&m.at, reps as u64)), || what)
        }),
        group("sessions", "sessions of every kind of start and end, repeated with one client, a failing one between them or not", |ch| {
            let mut cfg = Cfg::new(ch.of(&[Flavor::MySql, Flavor::Maria]));
            let f = flows();
            with_flow(&mut cfg, ch.of(&f));
            let start = ch.choose(3);
            let take = ch.of(&[0usize, 1, 3, 8]);
            let refused = ch.flag();
            let reps = by_tier(32, 64);
            let what = format!("repeated sessions of {} items ({:?}, start {}, with refused ones: {})", take, cfg, start, refused);
            ch.sample(|| what.clone());
            ch.distinct(&what);
            ch.state(&(cfg.flavor, start, take, refused));
            let (table, rows) = (p_small_table(100, true), p_rows(&small_rows(Kind::Write, 1, 100)));
            let f = build(cfg.crc, &[p_xid(1), table, rows, p_query("shop", "BEGIN")], 2);
            let mut s = streaming(&cfg, payloads(&f));
            let mut inner = s.tamper.take().unwrap();
            s.tamper = Some(Box::new(move |c, i, st, seq, b| if refused && c % 2 == 1 && st.login() && i > 0 { Act::Halt(Some(err_packet(1045, Some("28000"), "denied"))) } else { inner(c, i, st, seq, b) }));
            let mut client = BinlogClient::new(options(&cfg, start_of(&cfg, start), true));
            let mut m = Meter::new(0, 2, reps);
            let n = (WARM + 2 * reps) * 2;
            ch.step(n as u64);
            let (r, net) = with_server(s, NetPlan::default(), || {
                for i in 0..n {
                    match client.replicate() {
                        Ok(_) if refused && i % 2 == 1 => return Err(format!("session {}: the refusal goes unnoticed", i)),
                        Err(e) if !(refused && i % 2 == 1) => return Err(format!("session {}: {}", i, err(&e))),
                        Err(_) => {}
                        Ok(mut ev) => {
                            for k in 0..take {
                                let x = ev.next();
                                fits(&x, &f.want[k]).map_err(|e| format!("session {}, event {}: {}", i, k, e))?;
                            }
                        }
                    }
                    m.read(i + 1);
                }
                Ok(())
            });
            if let Some(v) = &net.verdict {
                return viol(format!("{}: {}", what, v));
            }
            msg(r.and_then(|_| steady(&m.at, reps as u64)), || what)
        }),
        group("beyond any counter of two bytes", "streams of 70000 events of every kind: each delivered as the first", |ch| {
            let el: Vec<_> = elements(0).into_iter().filter(|e| !e.0.contains("large")).collect();
            let e = ch.pick(&el);
            let mut cfg = Cfg::new(ch.of(&[Flavor::MySql, Flavor::Maria]));
            cfg.crc = if thorough() { ch.flag() } else { cfg.flavor == Flavor::MySql };
            let what = format!("70000 times {} ({:?}, checksums: {})", e.0, cfg.flavor, cfg.crc);
            ch.sample(|| what.clone());
            ch.distinct(&what);
            let f = build(cfg.crc, &e.1, 70_000 / e.1.len());
            ch.step(f.want.len() as u64);
            let s = streaming(&cfg, payloads(&f));
            let mut c = BinlogClient::new(options(&cfg, start_of(&cfg, 2), true));
            let (r, net) = with_server(s, NetPlan::default(), || {
                let mut ev = c.replicate().map_err(|e| format!("replication fails: {}", err(&e)))?;
                for (i, w) in f.want.iter().enumerate() {
                    if i % 1000 == 0 {
                        ch.tick()
                    }
                    let x = match ev.next() {
                        Some(x) => x,
                        None => return Err(format!("the stream ends behind {} events", i)),
                    };
                    if let Ok((h, e)) = &x {
                        c.commit(h, e)
                    }
                    let got = item(&x);
                    if !same(&got, w) {
                        return Err(format!("item {} is {} instead of {}", i, show(&got), show(w)));
                    }
                }
                Ok(())
            });
            if let Some(v) = &net.verdict {
                return viol(format!("{}: {}", what, v));
            }
            msg(r, || what)
        }),
        group("many sessions", "one client, three hundred sessions (thorough: a thousand and 70000), each like the first", |ch| {
            let mut cfg = Cfg::new(ch.of(&[Flavor::MySql, Flavor::Maria]));
            let f = flows();
            with_flow(&mut cfg, ch.of(&f));
            let start = ch.choose(3);
            let n = match thorough() {
                false => 300,
                true if cfg.flavor == Flavor::Maria && start == 0 => 70_000,
                true => 1000,
            };
            let what = format!("{} sessions ({:?}, start {})", n, cfg, start);
            ch.sample(|| what.clone());
            ch.distinct(&what);
            let f = build(cfg.crc, &[p_xid(1)], 1);
            let mut client = BinlogClient::new(options(&cfg, start_of(&cfg, start), true));
            for i in 0..n / 100 {
                ch.tick();
                ch.step(100);
                let s = streaming(&cfg, payloads(&f));
                let (r, net) = with_server(s, NetPlan::default(), || {
                    for k in 0..100 {
                        let mut ev = client.replicate().map_err(|e| format!("session {}: {}", i * 100 + k, err(&e)))?;
                        for w in &f.want {
                            let x = ev.next();
                            fits(&x, w).map_err(|e| format!("session {}: {}", i * 100 + k, e))?;
                        }
                    }
                    Ok(())
                });
                if let Some(v) = &net.verdict {
                    return viol(format!("{}: {}", what, v));
                }
                msg(r, || what.clone())?;
            }
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- C33

/// Everything in the options but the position.
fn given(c: &BinlogClient) -> String {
    let o = &c.options;
    format!(
        "host {:?} port {} ssl {} user {:?} password {:?} database {:?} id {} blocking {} heartbeat {:?} strategy {} set {} list {}",
        o.hostname,
        o.port,
        o.ssl_mode == SslMode::Disabled,
        o.username,
        o.password,
        o.database,
        o.server_id,
        o.blocking,
        o.heartbeat_interval,
        match o.binlog.starting_strategy {
            StartingStrategy::FromStart => "start",
            StartingStrategy::FromEnd => "end",
            StartingStrategy::FromPosition => "position",
            StartingStrategy::FromGtid => "gtid",
        },
        o.binlog.gtid_set.is_some(),
        o.binlog.gtid_list.is_some()
    )
}
type Place = ((String, u32), Option<Sets>, Option<Vec<(u32, u32, u64)>>);
fn place(c: &BinlogClient) -> Place {
    (opt_pos(c), opt_sets(c), opt_list(c))
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Way {
    Left(usize),
    Refused(usize),
    Broken(u64),
}
fn c33() -> Vec<Group> {
    vec![group("sessions", "every login flow, server, start, mode and server id: the session completed, left, refused or broken anywhere, committed or not, twice", |ch| {
        let mut cfg = Cfg::new(ch.of(&[Flavor::MySql, Flavor::Maria]));
        let f = flows();
        with_flow(&mut cfg, ch.of(&f));
        cfg.user = " Repl_User ".into();
        cfg.password = " pa'ss\"w ".into();
        let start = ch.choose(5);
        let blocking = ch.flag();
        let id = ch.of(&[0u32, 1, u32::MAX]);
        let database = ch.flag();
        let d = Dialogue { cfg: cfg.clone(), start: start.min(2), blocking };
        let mut c = d.client();
        c.options.server_id = id;
        c.options.heartbeat_interval = ch.of(&[Duration::from_micros(1_500_700), Duration::from_secs(5_000_000)]);
        if database {
            c.options.database = Some(" Shop ".into());
        }
        if start == 3 {
            // A position given with the GTIDs of both kinds of servers.
            c.options.binlog = BinlogOptions::from_position("mysql-bin.000001".into(), 4);
            c.options.binlog.gtid_set = Some(my_set(&[(SRC[0], vec![(1, 1)])].into_iter().collect()));
            c.options.binlog.gtid_list = Some(ma_list(&[(0, 1, 1)]));
        }
        if start == 4 {
            // A GTID position that keeps the place of an earlier session.
            c.options.binlog = d.binlog();
            c.options.binlog.position = u32::MAX;
        }
        let steps = 14;
        let mut ways: Vec<Way> = vec![Way::Left(100)];
        ways.extend((0..by_tier(4, 8)).map(Way::Left));
        ways.extend((0..steps).step_by(by_tier(2, 1)).map(Way::Refused));
        ways.extend((0..8).map(|k| Way::Broken(k * 60 + 3)));
        let way = ch.of(&ways);
        let commit = ch.flag();
        let what = format!("{:?} (start {}, id {}, database: {}, {:?}, committed: {})", d, start, id, database, way, commit);
        ch.sample(|| what.clone());
        ch.distinct(&what);
        ch.state(&(cfg.flavor, start, blocking, way, commit));
        let before = given(&c);
        let from = place(&c);
        for round in 0..2 {
            let mut s = d.server();
            s.mute = true;
            let mut plan = NetPlan::default();
            let mut max = 100;
            match way {
                Way::Left(n) => max = n,
                Way::Refused(n) => s.tamper = Some(Box::new(move |_, i, _, _, _| if i == n { Act::Halt(Some(err_packet(1227, None, "denied"))) } else { Act::Pass })),
                Way::Broken(n) => plan.cut = Some((0, n, env::Cut::Reset)),
            }
            let (r, net) = with_server(s, plan, || {
                let r = c.replicate();
                let here = place(&c);
                ensure!(given(&c) == before, "{}: the options are {} behind the start of session {}, they were {}", what, given(&c), round, before);
                ensure!(round > 0 || start == 1 || here == from, "{}: the start alone moves the position to {:?}", what, here);
                let mut ev = match r {
                    Ok(ev) => ev,
                    Err(_) => return Ok(()),
                };
                for _ in 0..max {
                    match ev.next() {
                        None | Some(Err(_)) => break,
                        Some(Ok((h, e))) => {
                            if commit {
                                c.commit(&h, &e);
                                ensure!(given(&c) == before, "{}: the options are {} behind a commit of {:?}, they were {}", what, given(&c), h, before);
                            }
                        }
                    }
                }
                ensure!(commit || place(&c) == here, "{}: reading alone moves the position to {:?}", what, place(&c));
                drop(ev);
                ensure!(given(&c) == before, "{}: the options are {} behind session {}, they were {}", what, given(&c), round, before);
                Ok(())
            });
            ch.step(1);
            r?;
            if let Some(v) = &net.verdict {
                return viol(format!("{}: {}", what, v));
            }
        }
        Ok(())
    })]
}

// ---------------------------------------------------------------- C34

thread_local! {
    static DECODED: std::cell::OnceCell<Vec<(String, EventHeader, BinlogEvent)>> = const { std::cell::OnceCell::new() };
}
const MAX: u64 = u64::MAX - 1;
/// The events handed to commit, with the end position of their headers.
fn alphabet() -> Vec<(&'static str, Proto, u32)> {
    let rows = |k, end: bool| {
        let mut r = small_rows(k, 2, 101);
        r.flags = end as u16;
        p_rows(&r)
    };
    vec![
        ("gtid 1 of source 0", p_mygtid(1, SRC[0], 1), 300),
        ("the last gtid of source 0", p_mygtid(0, SRC[0], MAX), 301),
        ("gtid 3 of source 1", p_mygtid(1, SRC[1], 3), 302),
        ("begin", p_query("shop", "BEGIN"), 0),
        ("commit", p_query("shop", "COMMIT"), 304),
        ("ddl", p_query("shop", "CREATE TABLE t (a INT)"), 305),
        ("xid", p_xid(1), 306),
        ("gtid 0-1-5", p_magtid(0, 1, 5, 0), 307),
        ("standalone gtid 0-2-MAX", p_magtid(0, 2, u64::MAX, 1), 308),
        ("gtid 7-1-0", p_magtid(7, 1, 0, 4), 309),
        ("rotate", p_rotate(4, "f.2"), 0),
        ("unmodelled", p_unknown(200, b"x"), u32::MAX),
        ("table map", p_small_table(101, false), 311),
        ("open rows", rows(Kind::Write, false), 312),
        ("last rows", rows(Kind::Update, true), 313),
        ("xa prepare", p_unknown(XA_PREPARE, &[0; 10]), 314),
        ("create select", p_query("shop", "CREATE TABLE `t` (`a` int) START TRANSACTION"), 315),
        ("empty query", p_query("", ""), 316),
        ("rollback", p_query("shop", "ROLLBACK"), 317),
        ("xa start", p_query("shop", "XA START X'61',X'',1"), 318),
        ("rotate to the end of the numbers", p_rotate(u64::MAX, ""), 5),
        ("heartbeat", p_heartbeat("f.1"), 319),
        ("format description", p_fde("8.0.32", 41, Some(0)), 0),
        ("previous gtids", p_myprev(&[(SRC[0], vec![(1, 9)])].into_iter().collect()), 320),
        ("gtid list", p_malist(&[(0, 1, 9)]), 321),
        ("rows query", p_rowsquery("INSERT"), 322),
        ("int var", p_intvar(1, 1), 323),
        ("delete rows", rows(Kind::Delete, true), 0),
        ("gtid 0 of source 0", p_mygtid(1, SRC[0], 0), 324),
        ("gtid beyond the last of source 0", p_mygtid(1, SRC[0], u64::MAX), 325),
    ]
}
fn decoded() -> Vec<(String, EventHeader, BinlogEvent)> {
    let mut f = FileB::start(false);
    f.ev(&p_small_table(101, false));
    let mut bytes = f.bytes;
    let mut at = 1_000u32;
    for (_, p, next) in alphabet() {
        at += 1;
        let h = Hdr { ts: at, typ: p.typ, server_id: 1, len: 19 + p.body.len() as u32 + if p.typ == FDE { 4 } else { 0 }, next, flags: 0 };
        bytes.extend(event(&h, &p.body, p.typ == FDE));
    }
    let it = BinlogReader::new(memfd(&bytes)).ok().expect("a file").read_events();
    it.skip(2).zip(alphabet()).map(|(x, a)| x.map(|(h, e)| (a.0.to_string(), h, e)).map_err(|e| format!("{}: {}", a.0, err(&e))).unwrap()).collect()
}
fn starts(k: usize) -> BinlogOptions {
    let set = |s: &[(u64, u64)]| my_set(&if s.is_empty() { Sets::new() } else { [(SRC[0], s.to_vec())].into_iter().collect() });
    match k {
        0 => BinlogOptions::from_mysql_gtid(set(&[(2, 4)])),
        1 => BinlogOptions::from_mariadb_gtid(ma_list(&[(7, 3, 3)])),
        2 => {
            let mut o = BinlogOptions::from_mysql_gtid(set(&[]));
            o.gtid_list = Some(ma_list(&[]));
            o
        }
        3 => BinlogOptions::from_position("f.1".into(), 250),
        4 => BinlogOptions::from_mysql_gtid(set(&[(1, 1), (3, MAX - 1)])),
        5 => {
            let mut o = BinlogOptions::from_mysql_gtid(set(&[]));
            o.gtid_set = None;
            o
        }
        6 => BinlogOptions::from_end(),
        _ => BinlogOptions::from_start(),
    }
}
/// Hands the events to commit and judges every step.
fn commits(ch: &mut Ch, start: usize, n: usize, pool: usize) -> Res {
    DECODED.with(|d| {
        let d = d.get_or_init(decoded);
        let mut c = BinlogClient::new(options(&Cfg::new(Flavor::MySql), starts(start), true));
        let strategy = c.options.binlog.starting_strategy == StartingStrategy::FromGtid;
        let mut names = vec![];
        let (mut my, mut ma) = (None, None);
        let mut before = place(&c);
        for _ in 0..n {
            let (name, h, e) = &d[ch.choose(pool)];
            names.push(name.as_str());
            let what = |names: &[&str]| format!("start {}, committed: {}", start, names.join(", "));
            c.commit(h, e);
            match e {
                BinlogEvent::MySqlGtidEvent(x) => my = Some((x.gtid.source_id.data, x.gtid.transaction_id)),
                BinlogEvent::MariaDbGtidEvent(x) => ma = Some((x.gtid.domain_id, x.gtid.server_id, x.gtid.sequence)),
                _ => {}
            }
            let after = place(&c);
            let moved = match e {
                BinlogEvent::RotateEvent(x) => (x.binlog_filename.clone(), x.binlog_position as u32),
                _ => (before.0 .0.clone(), h.next_event_position),
            };
            ensure!(after.0 == before.0 || (after.0 == moved && moved.1 != 0), "{}: the position goes from {:?} to {:?}", what(&names), before.0, after.0);
            if after.1 != before.1 {
                let mut want = before.1.clone().unwrap_or_default();
                if let (Some((s, n)), true) = (my, strategy) {
                    add_gtid(&mut want, s, n)
                }
                ensure!(after.1.as_ref() == Some(&want) && before.1.is_some(), "{}: the set goes from {:?} to {:?}", what(&names), before.1, after.1);
            }
            if after.2 != before.2 {
                let mut want = before.2.clone().unwrap_or_default();
                if let (Some((d, s, n)), true) = (ma, strategy) {
                    set_domain(&mut want, d, s, n);
                    want.sort();
                }
                ensure!(after.2.as_ref() == Some(&want) && before.2.is_some(), "{}: the list goes from {:?} to {:?}", what(&names), before.2, after.2);
            }
            c.commit(h, e);
            let again = place(&c);
            ensure!(again == after, "{}: committing the last one again moves the position from {:?} to {:?}", what(&names), after, again);
            before = after;
            ch.step(1);
        }
        ch.distinct(&(start, &names));
        ch.state(&(start, &before));
        ch.sample(|| format!("start {}: {}", start, names.join(", ")));
        Ok(())
    })
}
fn c34() -> Vec<Group> {
    vec![
        group("any order", "every sequence of three (thorough: four) of 30 kinds of events from eight starting positions", |ch| {
            let start = ch.choose(8);
            commits(ch, start, by_tier(3, 4), 30)
        }),
        group("longer", "every sequence of five (thorough: six) of the first 12 kinds from two (three) starting positions", |ch| {
            let start = ch.choose(by_tier(2, 3));
            commits(ch, start, by_tier(5, 6), 12)
        }),
    ]
}
