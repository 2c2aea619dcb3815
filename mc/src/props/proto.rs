//! C20, C21, C23, C26, C27: requests, logins, errors, the stream, starting from the end.
use super::transport::h16;
use super::net::*;
use crate::env::NetPlan;
use crate::explore::*;
use crate::obs::*;
use crate::server::*;
use crate::wire::*;
use crate::Check;
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use std::time::Duration;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C20",
            level: "model_checking",
            rule: "States are the server's view of the dialogue (session variables, registration, dump request); transitions are the packets of the client. Every combination of starting strategy, server flavour, mode, identifiers, file names, positions and GTID sets of the bound is run by the real client, whose request is decoded by the model server.",
            assumptions: &["heartbeat intervals and server ids are the ones servers accept"],
            groups: c20,
        },
        Check {
            id: "C21",
            level: "model_checking",
            rule: "States are the phases of the server's connection state machine; transitions are packets. Every login flow (plugin greeted, plugin of the account, forced switch, cached or full exchange) is explored with every password, user, database and challenge of the bound; the model server verifies every packet and its number.",
            assumptions: &["servers offer protocol 4.1, secure connection and plugin authentication, and challenges of 20 ASCII bytes without NUL and '$'"],
            groups: c21,
        },
        Check {
            id: "C23",
            level: "model_checking",
            rule: "States are the steps of every dialogue (flavours, login flows, strategies, modes); at each step the server answers with an error packet instead. The result of the call, its text and what the client still sends are judged.",
            assumptions: &["error packets come where the protocol allows them; texts are UTF-8"],
            groups: c23,
        },
        Check {
            id: "C26",
            level: "model_checking",
            rule: "States are positions in a packet sequence; transitions are packets (events, undecodable events, errors, unknown, truncated and empty packets, end of file). Every sequence up to the depth bound is delivered by the model server, and the items of the real client compared with the reference stream machine.",
            assumptions: &[],
            groups: || {
                let mut v = c26();
                v.extend(super::stream::c26());
                v
            },
        },
        Check {
            id: "C27",
            level: "model_checking",
            rule: "States are the server's current position and the client's committed position; transitions are connections, commits, binlog growth, rotations and failures. Every answer of the server to the position query and every history up to the bound is run by the real client.",
            assumptions: &["a position above 4 GiB cannot be requested and counts as unusable"],
            groups: c27,
        },
    ]
}

pub fn small_log(cfg: &Cfg) -> Binlog {
    let mut b = Binlog::new(cfg.flavor);
    let my = cfg.flavor == Flavor::MySql;
    let id = |n: u64| if my { TxId::My(SRC[0], n) } else { TxId::Maria(0, 1, n) };
    b.file("mysql-bin.000001", cfg.sv());
    b.tx(Some(id(1)), &tx_events(cfg.flavor, TxKind::Rows, Some(id(1)), 1));
    b.tx(Some(id(2)), &tx_events(cfg.flavor, TxKind::Ddl, Some(id(2)), 2));
    b.file("mysql-bin.000002", cfg.sv());
    b.tx(Some(id(3)), &tx_events(cfg.flavor, TxKind::Multi, Some(id(3)), 3));
    b
}

// ---------------------------------------------------------------- C20

fn set_pool() -> Vec<Sets> {
    let s = |v: &[([u8; 16], &[(u64, u64)])]| v.iter().map(|(a, b)| (*a, b.to_vec())).collect::<Sets>();
    let mut v = vec![
        s(&[]),
        s(&[(SRC[0], &[(1, 1)])]),
        s(&[(SRC[0], &[(1, 2)])]),
        s(&[(SRC[0], &[(1, 5), (7, 7), (9, 12)])]),
        s(&[(SRC[0], &[(1, 1), (3, 3), (5, 5), (7, 7), (9, 9)])]),
        s(&[(SRC[0], &[(1, 3)]), (SRC[1], &[(2, 2)])]),
        s(&[(SRC[0], &[(1, 3), (10, 20)]), (SRC[1], &[(1, 4), (6, 6)]), (SRC[2], &[(1000, 1033)])]),
        s(&[(SRC[0], &[(255, 256)]), (SRC[1], &[(65535, 65536)])]),
        s(&[(SRC[0], &[(u32::MAX as u64, u32::MAX as u64 + 1), (1 << 40, 1 << 41)])]),
        s(&[(SRC[0], &[(1, i64::MAX as u64 - 1)])]),
        s(&[([0; 16], &[(1, 1)]), ([0xff; 16], &[(1, 1)])]),
        s(&[([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], &[(1, 1)]), ([0xf0, 0x0f, 0xa5, 0x5a, 0x80, 0x08, 0x7f, 0xf7, 0, 0, 0xff, 0, 0x10, 0x20, 0x30, 0x40], &[(4, 9)])]),
    ];
    // Many sources and many intervals.
    v.push((0..17u8).map(|i| ([i * 15; 16], vec![(1 + i as u64, 100 + i as u64)])).collect());
    v.push(s(&[(SRC[1], &(0..40).map(|i| (i * 10 + 1, i * 10 + 1 + i % 7)).collect::<Vec<_>>())]));
    // More sources than a byte counts.
    v.push((0..300u16).map(|i| (h16(i as usize), vec![(1, 1 + i as u64)])).collect());
    // A request of more than 64 KiB.
    v.push((0..200u8).map(|i| ([i + 3; 16], (0..30).map(|k| (k * 10 + 1, k * 10 + 1 + (i as u64 + k) % 7)).collect())).collect());
    v
}
fn list_pool() -> Vec<Vec<(u32, u32, u64)>> {
    vec![
        vec![],
        vec![(0, 1, 1)],
        vec![(0, 1, 270)],
        vec![(0, 1, 1), (1, 2, 2)],
        vec![(1, 1, 7), (0, 3, 9), (5, 1, 1)],
        vec![(u32::MAX, u32::MAX, u64::MAX)],
        vec![(0, 0, 0)],
        (0..30).map(|i| (i, i * 7 + 1, i as u64 * 1_000_000_007)).collect(),
        // Texts of 1 and 100 KiB.
        (0..60).map(|i| (i, i * 7 + 1, i as u64 * 1_000_000_007)).collect(),
        (0..3000).map(|i| (i * 1_000_003, u32::MAX - i, u64::MAX - i as u64)).collect(),
    ]
}
const IDS: [u32; 7] = [1, 2, 255, 256, 65535, 0x1234_5678, u32::MAX];
const NAMES: [&str; 18] = ["./mysql-bin.000001", "/var/lib/mysql/binlog.000007", " binlog.1 ", "BINLOG.000001", "binlog.000001;", "\"b\".1", "b..1", "mysql-bin.1000000", "\\\\", "host-bin.000001\n", "", "a", "mysql-bin.000001", "mysql-bin.000002", "логи.000001", "bin log'\".1", "x-a-very-long-binary-log-base-name-of-more-than-a-hundred-and-twenty-seven-bytes-to-cross-every-length-boundary-there-might-be.000123", "mysql-bin.999999"];
const POSITIONS: [u32; 9] = [0, 4, 5, 255, 256, 65536, 0x0102_0304, 0x8000_0000, u32::MAX];

#[derive(Clone, Debug)]
enum Start {
    First,
    End,
    At(String, u32),
    My(Sets),
    Ma(Vec<(u32, u32, u64)>),
}
impl Start {
    fn options(&self) -> BinlogOptions {
        match self {
            Start::First => BinlogOptions::from_start(),
            Start::End => BinlogOptions::from_end(),
            Start::At(n, p) => BinlogOptions::from_position(n.clone(), *p),
            Start::My(s) => BinlogOptions::from_mysql_gtid(my_set(s)),
            Start::Ma(l) => BinlogOptions::from_mariadb_gtid(ma_list(l)),
        }
    }
}
fn one_request(ch: &mut Ch, flavor: Flavor, start: &Start, blocking: bool, id: u32, hb: Duration) -> Res {
    let cfg = Cfg::new(flavor);
    let log = small_log(&cfg);
    let end = (log.files[1].name.clone(), log.files[1].end);
    let s = Server::new(cfg, log);
    let (g, mut net) = with_server(s, NetPlan::default(), || {
        let cfg = Cfg::new(flavor);
        let mut o = options(&cfg, start.options(), blocking);
        o.server_id = id;
        o.heartbeat_interval = hb;
        let mut c = BinlogClient::new(o);
        run(&mut c, 1)
    });
    let what = format!("{:?}, {:?}, blocking={}, server id {}", flavor, start, blocking, id);
    ch.sample(|| what.clone());
    ch.distinct(&what);
    ch.evals(1);
    let dumps = net.peer::<Server>().dumps.clone();
    let sess = &net.peer::<Server>().sess[0];
    ch.step(sess.log.len() as u64);
    ch.state(&(&sess.vars, sess.registered, &dumps));
    let missing = matches!((flavor, start), (Flavor::MySql, Start::Ma(_)) | (Flavor::Maria, Start::My(_)));
    if missing {
        ensure!(g.open.is_some(), "{}: no error although the GTID position for this server is missing", what);
        ensure!(dumps.is_empty(), "{}: a dump was requested: {:?}", what, dumps);
        if let Some(v) = &net.verdict {
            return viol(format!("{}: {}", what, v));
        }
        return Ok(());
    }
    if let Some(e) = &g.open {
        return viol(format!("{}: replication fails: {}", what, e));
    }
    if dumps.len() != 1 {
        let c = net.peer::<Server>().complaints();
        return viol(format!("{}: {} dump requests were understood ({:?})", what, dumps.len(), c));
    }
    msg(clean(&mut net), || what.clone())?;
    let d = &dumps[0];
    let want_id = if blocking { id } else { 0 };
    ensure!(d.server_id == want_id, "{}: server id {} in the dump request, {} is due", what, d.server_id, want_id);
    ensure!(!blocking || d.flags & 1 == 0, "{}: a blocking stream requested with the non-blocking flag", what);
    let beat = d.vars.get("master_heartbeat_period").cloned().flatten();
    ensure!(beat == Some(hb.as_nanos().to_string()), "{}: heartbeat period {:?}, configured {:?}", what, beat, hb);
    match (start, &d.from) {
        (Start::First, From::Position(n, p)) => ensure!(n.is_empty() && *p == 4, "{}: requested {:?}:{}", what, n, p),
        (Start::End, From::Position(n, p)) => ensure!((n.clone(), *p) == end, "{}: requested {:?}:{}, the end is {:?}", what, n, p, end),
        (Start::At(a, b), From::Position(n, p)) => ensure!(n == a && p == b, "{}: requested {:?}:{}", what, n, p),
        (Start::My(s), From::MySqlGtid { set, name, pos }) => {
            ensure!(set == s, "{}: requested the set {:?}", what, sets_text(set));
            ensure!(name.is_empty() && *pos == 4, "{}: the request begins at {:?}:{} instead of wherever the set requires", what, name, pos);
        }
        (Start::Ma(l), From::Position(..)) => {
            let v = d.vars.get("slave_connect_state").cloned().flatten();
            let got = v.as_deref().and_then(parse_list).map(|mut x| {
                x.sort();
                x
            });
            let mut want = l.clone();
            want.sort();
            ensure!(got == Some(want), "{}: @slave_connect_state is {:?}", what, v);
        }
        (_, f) => return viol(format!("{}: requested {:?}", what, f)),
    }
    if flavor == Flavor::Maria && !matches!(start, Start::Ma(_)) {
        ensure!(!d.vars.contains_key("slave_connect_state"), "{}: a GTID position was set", what);
    }
    ensure!(d.registered.is_none() || d.registered == Some(id) || d.registered == Some(want_id), "{}: registered as {:?}", what, d.registered);
    Ok(())
}
fn c20() -> Vec<Group> {
    vec![
        group("strategies", "every strategy, flavour, mode and server id", |ch| {
            let f = ch.of(&[Flavor::MySql, Flavor::Maria]);
            let starts = [
                Start::First,
                Start::End,
                Start::At("mysql-bin.000002".into(), 4),
                Start::My(set_pool()[6].clone()),
                Start::Ma(vec![(0, 1, 2)]),
                Start::My(Sets::new()),
                Start::Ma(vec![]),
            ];
            let s = ch.pick(&starts).clone();
            let b = ch.flag();
            let id = ch.of(&IDS);
            let hb = ch.of(&[Duration::from_millis(1), Duration::from_millis(999), Duration::from_secs(30), Duration::from_secs(4_294_967), Duration::from_millis(1001)]);
            one_request(ch, f, &s, b, id, hb)
        }),
        group("positions", "every file name with every position", |ch| {
            let f = ch.of(&[Flavor::MySql, Flavor::Maria]);
            let (n, p) = (ch.of(&NAMES), ch.of(&POSITIONS));
            let b = ch.flag();
            one_request(ch, f, &Start::At(n.into(), p), b, 7, HB)
        }),
        group("long names", "file names of every length up to the limit of the server, 511 bytes", |ch| {
            let f = ch.of(&[Flavor::MySql, Flavor::Maria]);
            let n = 1 + ch.choose(511);
            let name: String = (0..n).map(|i| if i + 7 == n { '.' } else { (b'a' + (i % 26) as u8) as char }).collect();
            one_request(ch, f, &Start::At(name, 4), true, 7, HB)
        }),
        group("gtid sets", "every set of the pool, on both flavours", |ch| {
            let f = ch.of(&[Flavor::MySql, Flavor::Maria]);
            let b = ch.flag();
            if ch.flag() {
                let p = set_pool();
                let s = ch.pick(&p).clone();
                one_request(ch, f, &Start::My(s), b, 7, HB)
            } else {
                let p = list_pool();
                let s = ch.pick(&p).clone();
                one_request(ch, f, &Start::Ma(s), b, 7, HB)
            }
        }),
        group("small sets", "every set over two sources and transactions 1..n", |ch| {
            let n = by_tier(4, 6);
            let mut s = Sets::new();
            for k in 0..2 {
                for t in 1..=n {
                    if ch.flag() {
                        add_gtid(&mut s, SRC[k], t)
                    }
                }
            }
            one_request(ch, Flavor::MySql, &Start::My(s), false, 7, HB)
        }),
        group("requests of several packets", "sets whose request takes one packet, exactly one, and more, to the interval around each multiple of the limit", |ch| {
            // 31 bytes, 24 for every source, 16 for every interval.
            let sources = ch.of(&[1usize, 2, 4, 6]);
            let m = ch.of(by_tier(&[1usize, 2][..], &[1, 2, 3]));
            let most = (m * 0xff_ffff - 31 - 24 * sources) / 16;
            let n = most + ch.choose(3) - 1;
            let mut set: Sets = (0..sources).map(|i| (h16(i), vec![])).collect();
            let keys: Vec<[u8; 16]> = set.keys().copied().collect();
            for (i, k) in keys.iter().enumerate() {
                let share = n / sources + if i == 0 { n % sources } else { 0 };
                set.insert(*k, (0..share as u64).map(|x| (2 * x + 1, 2 * x + 1)).collect());
            }
            let what = format!("a set of {} sources and {} intervals", sources, n);
            ch.distinct(&what);
            ch.sample(|| what.clone());
            let cfg = Cfg::new(Flavor::MySql);
            let s = Server::new(cfg.clone(), small_log(&cfg));
            let (g, mut net) = with_server(s, NetPlan::default(), || run(&mut BinlogClient::new(options(&cfg, BinlogOptions::from_mysql_gtid(my_set(&set)), false)), 1));
            ch.step(1);
            ch.evals(1);
            ch.state(&(sources, n));
            ensure!(g.open.is_none(), "{}: {:?}", what, g.open);
            msg(clean(&mut net), || what.clone())?;
            let d = &net.peer::<Server>().dumps;
            ensure!(d.len() == 1, "{}: {} dump requests were understood", what, d.len());
            ensure!(matches!(&d[0].from, From::MySqlGtid { set: x, .. } if *x == set), "{}: another set is requested", what);
            Ok(())
        }),
        group("sets beyond the protocol", "sets with transaction 2^64-1, which a request cannot express: an error and no request, or the text is refused", |ch| {
            let from = ch.of(&[1u64, 5, 1 << 40, 1 << 63, u64::MAX - 1, u64::MAX]);
            let more = ch.flag();
            let t = format!("{}:{}{}-{}", uuid_text(&SRC[0]), if more { "1:" } else { "" }, from, u64::MAX);
            ch.distinct(&t);
            ch.step(1);
            ch.evals(1);
            let Ok(set) = GtidSet::parse(&t) else { return Ok(()) };
            let cfg = Cfg::new(Flavor::MySql);
            let s = Server::new(cfg.clone(), small_log(&cfg));
            let (g, mut net) = with_server(s, NetPlan::default(), || run(&mut BinlogClient::new(options(&cfg, BinlogOptions::from_mysql_gtid(set), false)), 1));
            let d = net.peer::<Server>().dumps.clone();
            ch.state(&(from, more));
            ensure!(g.open.is_some() && d.is_empty(), "{}: {} dump requests ({:?})", t, d.len(), d.first());
            Ok(())
        }),
        group("server versions", "every version text of either server", |ch| {
            let vs = [
                (Flavor::MySql, "5.6.51"),
                (Flavor::MySql, "5.6.51-log"),
                (Flavor::MySql, "5.7.44-log"),
                (Flavor::MySql, "8.0.32"),
                (Flavor::MySql, "8.0.36-0ubuntu0.22.04.1"),
                (Flavor::MySql, "8.0.32-24"),
                (Flavor::Maria, "5.5.5-10.0.38-MariaDB"),
                (Flavor::Maria, "5.5.5-10.6.12-MariaDB-log"),
                (Flavor::Maria, "10.3.39-MariaDB-1:10.3.39+maria~ubu2004-log"),
                (Flavor::Maria, "11.4.2-MariaDB"),
            ];
            let (f, v) = ch.of(&vs);
            let gtid = ch.flag();
            let mut cfg = Cfg::new(f);
            cfg.version = v.into();
            let log = small_log(&cfg);
            let c2 = cfg.clone();
            let (g, mut net) = with_server(Server::new(cfg, log), NetPlan::default(), || {
                let b = match (gtid, f) {
                    (false, _) => BinlogOptions::from_start(),
                    (true, Flavor::MySql) => BinlogOptions::from_mysql_gtid(my_set(&Sets::new())),
                    (true, Flavor::Maria) => BinlogOptions::from_mariadb_gtid(ma_list(&[(0, 1, 1)])),
                };
                run(&mut BinlogClient::new(options(&c2, b, false)), 100)
            });
            ch.state(&(v, gtid));
            ch.step(g.items.len() as u64);
            ch.distinct(&(v, gtid));
            msg(faithful(&g, &mut net), || format!("server {}", v))
        }),
    ]
}

// ---------------------------------------------------------------- C21

pub fn flows() -> Vec<(Plugin, Plugin, bool, bool)> {
    let mut v = vec![];
    for g in [Plugin::Native, Plugin::Sha2] {
        for a in [Plugin::Native, Plugin::Sha2] {
            for force in [false, true] {
                for full in [false, true] {
                    if full && a == Plugin::Native || force && g != a {
                        continue;
                    }
                    v.push((g, a, force, full))
                }
            }
        }
    }
    v
}
fn login(ch: &mut Ch, cfg: Cfg, database: Option<String>) -> Res {
    let what = format!(
        "{:?} greets with {}, the account uses {}{}{}; user {:?}, password of {} bytes, database {:?}",
        cfg.flavor,
        cfg.greet.name(),
        cfg.account.name(),
        if cfg.force_switch { ", switch forced" } else { "" },
        if cfg.full { ", full exchange" } else { "" },
        cfg.user,
        cfg.password.len(),
        database
    );
    ch.sample(|| what.clone());
    ch.distinct(&(&what, &cfg.password, cfg.nonce, cfg.nonce2));
    ch.evals(1);
    let log = small_log(&cfg);
    let c2 = cfg.clone();
    let db = database.clone();
    let (r, mut net) = with_server(Server::new(cfg, log), NetPlan::default(), || {
        let mut o = options(&c2, BinlogOptions::from_start(), false);
        o.database = db;
        let mut c = BinlogClient::new(o);
        // The login alone first: nothing may be left unread behind it.
        let alone = c.connect().map(|_| ()).map_err(|e| err_text(&e));
        let left = crate::env::net(|n| n.conns[0].unread());
        (alone, left, run(&mut c, 1000))
    });
    let (alone, left, g) = r;
    {
        let s = net.peer::<Server>();
        ch.step(s.sess[0].emitted.len() as u64);
        for st in &s.sess[0].emitted {
            ch.state(st)
        }
        ch.outcome(&s.sess[0].emitted);
    }
    if let Err(e) = alone {
        let c = net.peer::<Server>().complaints();
        return viol(format!("{}: the login fails: {} {:?}", what, e, c));
    }
    {
        let s = net.peer::<Server>();
        let l = &s.sess[0].login;
        ensure!(l.done, "{}: the client takes the login for complete although the server has not accepted it", what);
        ensure!(!l.wrong_hash, "{}: the answer to the challenge is not the one of the password; only the full exchange behind it can succeed", what);
        ensure!(l.db == database, "{}: the server received the database {:?}", what, l.db);
        ensure!(left == 0, "{}: {} bytes are left unread when the login completes", what, left);
        ensure!(s.sess[0].queries.is_empty(), "{}: queries during the login", what);
    }
    if let Some(e) = &g.open {
        return viol(format!("{}: replication fails behind the login: {}", what, e));
    }
    msg(clean(&mut net), || what.clone())?;
    let want = streamed(&mut net, 1);
    msg(compare(&g.items, &want), || what)
}
pub fn with_flow(cfg: &mut Cfg, f: (Plugin, Plugin, bool, bool)) {
    cfg.greet = f.0;
    cfg.account = f.1;
    cfg.force_switch = f.2;
    cfg.full = f.3;
}
fn c21() -> Vec<Group> {
    vec![
        group("flows", "every login flow with every password, user and database of the pools", |ch| {
            let mut cfg = Cfg::new(ch.of(&[Flavor::MySql, Flavor::Maria]));
            let f = flows();
            with_flow(&mut cfg, ch.of(&f));
            let long: String = (0..200).map(|i| (b'!' + (i % 90) as u8) as char).collect();
            let pws = ["S3cret!", "", "p", "пароль", "日本語パスワード😀", "nineteen bytes long", "exactly 20 bytes pwd", "twenty-one bytes long", "with spaces and $ and '\"", " a blank in front", "blanks behind  ", " ", "\ttabs\t", "line\n", "\u{a0}", &long];
            cfg.password = ch.of(&pws).into();
            let users = ["repl", "", "ю", "a user name that is quite a bit longer", " blanks around ", "%", &long[..90], &long];
            cfg.user = ch.of(&users).into();
            let db = ch.of(&[None, Some(""), Some("shop"), Some("база")]).map(|s| s.to_string());
            if db.as_deref() == Some("") && cfg.user.is_empty() {
                return Ok(());
            }
            login(ch, cfg, db)
        }),
        group("passwords", "every password length from 0 to the longest one an RSA block holds, in every flow", |ch| {
            let mut cfg = Cfg::new(Flavor::MySql);
            let f = flows();
            with_flow(&mut cfg, ch.of(&f));
            let n = ch.range(0, 213) as usize;
            cfg.password = (0..n).map(|i| (33 + (i * 7 + n) % 94) as u8 as char).collect();
            login(ch, cfg, None)
        }),
        group("challenges", "challenges with every byte value a server uses at every place", |ch| {
            let mut cfg = Cfg::new(Flavor::MySql);
            let f = flows();
            with_flow(&mut cfg, ch.of(&f));
            let at = ch.range(0, 19) as usize;
            let step = by_tier(6, 1);
            let b = 1 + ch.range(0, 126 / step) * step;
            let b = if b == 36 { 37 } else { b } as u8;
            cfg.nonce[at] = b;
            cfg.nonce2[(at + 7) % 20] = b;
            login(ch, cfg, None)
        }),
        group("uniform challenges", "challenges made of one byte value, in every flow", |ch| {
            let mut cfg = Cfg::new(Flavor::MySql);
            let f = flows();
            with_flow(&mut cfg, ch.of(&f));
            let b = ch.range(1, 127) as u8;
            if b == 36 {
                return Ok(());
            }
            cfg.nonce = [b; 20];
            cfg.nonce2 = [128 - b; 20];
            if 128 - b == 36 {
                return Ok(());
            }
            login(ch, cfg, None)
        }),
        group("wrong credentials", "a wrong password or user is rejected in every flow, and the rejection is reported", |ch| {
            let mut cfg = Cfg::new(ch.of(&[Flavor::MySql, Flavor::Maria]));
            let f = flows();
            with_flow(&mut cfg, ch.of(&f));
            let real = ch.of(&["S3cret!", "", "x"]);
            let (user, used) = ch.of(&[("repl", "S3cret?"), ("root", "S3cret!"), ("repl", ""), ("", "S3cret!"), ("repl", "S3cret!\u{1}"), ("repl", "s3cret!"), ("repl", "S3cret")]);
            if user == "repl" && used == real {
                return Ok(());
            }
            cfg.password = real.into();
            let log = small_log(&cfg);
            let c2 = cfg.clone();
            let what = format!("{:?}/{:?} instead of {:?}, {:?}", user, used, real, (cfg.greet, cfg.account, cfg.force_switch, cfg.full));
            ch.distinct(&what);
            let (g, mut net) = with_server(Server::new(cfg, log), NetPlan::default(), || {
                let mut o = options(&c2, BinlogOptions::from_start(), false);
                o.username = user.into();
                o.password = used.into();
                run(&mut BinlogClient::new(o), 1)
            });
            ch.step(net.peer::<Server>().sess[0].emitted.len() as u64);
            ch.outcome(&net.peer::<Server>().sess[0].emitted);
            ch.state(&net.peer::<Server>().sess[0].emitted);
            let e = match g.open {
                Some(e) => e,
                None => return viol(format!("{}: the client goes on although it was rejected", what)),
            };
            ensure!(e.contains("1045") && e.contains("Access denied"), "{}: the rejection is reported as {}", what, e);
            ensure!(net.peer::<Server>().sess[0].queries.is_empty(), "{}: queries although rejected", what);
            msg(clean(&mut net), || what)
        }),
    ]
}

// ---------------------------------------------------------------- C23

/// A dialogue: configuration of server and client.
#[derive(Clone, Debug)]
pub struct Dialogue {
    pub cfg: Cfg,
    pub start: usize,
    pub blocking: bool,
}
impl Dialogue {
    pub fn draw(ch: &mut Ch) -> Dialogue {
        let mut cfg = Cfg::new(ch.of(&[Flavor::MySql, Flavor::Maria]));
        let f = flows();
        with_flow(&mut cfg, ch.of(&f));
        let start = ch.choose(3);
        Dialogue { cfg, start, blocking: false }
    }
    pub fn binlog(&self) -> BinlogOptions {
        match (self.start, self.cfg.flavor) {
            (0, _) => BinlogOptions::from_start(),
            (1, _) => BinlogOptions::from_end(),
            (_, Flavor::MySql) => BinlogOptions::from_mysql_gtid(my_set(&[(SRC[0], vec![(1, 1)])].into_iter().collect())),
            (_, Flavor::Maria) => BinlogOptions::from_mariadb_gtid(ma_list(&[(0, 1, 1)])),
        }
    }
    pub fn server(&self) -> Server {
        Server::new(self.cfg.clone(), small_log(&self.cfg))
    }
    pub fn client(&self) -> BinlogClient {
        BinlogClient::new(options(&self.cfg, self.binlog(), self.blocking))
    }
    /// The steps of the undisturbed dialogue.
    pub fn steps(&self) -> Result<Vec<Step>, Viol> {
        let (g, mut net) = with_server(self.server(), NetPlan::default(), || run(&mut self.client(), 1000));
        if let Some(e) = &g.open {
            let c = net.peer::<Server>().complaints();
            return viol(format!("the undisturbed dialogue {:?} fails: {} {:?}", self, e, c));
        }
        Ok(net.peer::<Server>().sess[0].emitted.clone())
    }
}
fn c23() -> Vec<Group> {
    vec![
        group("every step", "an error packet instead of every packet of every dialogue, with every kind of error", |ch| {
            let d = Dialogue::draw(ch);
            let steps = d.steps()?;
            let at: Vec<usize> = (0..steps.len()).filter(|i| !matches!(steps[*i], Step::Event(n) if n > 1)).collect();
            let n = ch.of(&at);
            let step = steps[n];
            let (code, text) = ch.of(&[
                (1045u16, "Access denied for user 'repl'@'localhost' (using password: YES)"),
                (1227, "Access denied; you need (at least one of) the REPLICATION SLAVE privilege(s) for this operation"),
                (1236, "Could not find first log file name in binary log index file"),
                (1, "x"),
                (65535, "Сообщение об ошибке"),
                (255, "a # b"),
                (2003, ""),
            ]);
            let state = ch.of(&[Some("HY000"), Some("28000"), None]);
            let closes = ch.flag();
            let p = err_packet(code, state, text);
            let mut s = d.server();
            s.tamper = Some(Box::new(move |_, i, _, _, _| if i != n { Act::Pass } else if closes { Act::HaltClose(Some(p.clone())) } else { Act::Halt(Some(p.clone())) }));
            let what = format!("error {} {:?} ({:?}) as {:?}, packet {} of {:?}", code, text, state, step, n, d);
            ch.sample(|| what.clone());
            ch.distinct(&what);
            ch.state(&(n, step, d.cfg.flavor, d.start));
            ch.step(n as u64 + 1);
            let stream = matches!(step, Step::Event(_) | Step::StreamEof);
            let (g, mut net) = with_server(s, NetPlan::default(), || run(&mut d.client(), n + 2));
            if let Some(v) = &net.verdict {
                return viol(format!("{}: {}", what, v));
            }
            let e = match (&g.open, stream) {
                (Some(e), false) => e.clone(),
                (None, false) => return viol(format!("{}: no error is returned", what)),
                (Some(e), true) => return viol(format!("{}: starting fails with {}", what, e)),
                (None, true) => {
                    let before = steps[..n].iter().filter(|s| matches!(s, Step::Event(_))).count();
                    match g.items.get(before) {
                        Some(Err(e)) => e.clone(),
                        x => return viol(format!("{}: no error behind the {} events before it but {:?}", what, before, x.map(show))),
                    }
                }
            };
            ch.outcome(&e);
            ensure!(e.contains(&code.to_string()), "{}: the error {:?} does not carry the code", what, e);
            ensure!(e.contains(text), "{}: the error {:?} does not carry the message", what, e);
            if let Some(x) = state {
                ensure!(e.contains(x) && !e.contains(&format!("#{}", x)), "{}: the error {:?} does not tell the SQL state from the message", what, e);
            }
            let after = net.peer::<Server>().sess[0].packets_after_halt;
            ensure!(after == 0, "{}: the client sends {} more packets", what, after);
            ensure!(net.conns.len() == 1, "{}: the client connects again", what);
            Ok(())
        }),
        group("texts", "error messages of every boundary length, as login result, query answer and in the stream", |ch| {
            let d = Dialogue { cfg: Cfg::new(ch.of(&[Flavor::MySql, Flavor::Maria])), start: 0, blocking: false };
            let steps = d.steps()?;
            let n = ch.choose(steps.len());
            let len = ch.of(&[0usize, 1, 4, 5, 6, 7, 250, 251, 252, 511, 512]);
            let text: String = (0..len).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            let state = ch.of(&[Some("42000"), None]);
            let p = err_packet(4000, state, &text);
            let mut s = d.server();
            s.tamper = Some(Box::new(move |_, i, _, _, _| if i == n { Act::Halt(Some(p.clone())) } else { Act::Pass }));
            ch.distinct(&(n, len, state, d.cfg.flavor));
            ch.state(&(n, steps[n]));
            ch.step(n as u64 + 1);
            let (g, mut net) = with_server(s, NetPlan::default(), || run(&mut d.client(), 1000));
            let e = g.open.clone().or_else(|| g.items.iter().find_map(|i| i.as_ref().err().cloned()));
            let what = format!("an error of {} bytes as {:?}", len, steps[n]);
            match e {
                Some(e) => ensure!(e.contains("4000") && e.contains(&text), "{}: reported as {}", what, e),
                None => return viol(format!("{}: not reported", what)),
            }
            ensure!(net.peer::<Server>().sess[0].packets_after_halt == 0, "{}: the client goes on", what);
            Ok(())
        }),
        c23_encodings(),
    ]
}

fn c23_encodings() -> Group {
    group("encodings", "error messages in the character set of the server, or cut inside a character, in place of every packet", |ch| {
        let d = Dialogue { cfg: Cfg::new(ch.of(&[Flavor::MySql, Flavor::Maria])), start: ch.choose(3), blocking: false };
        let steps = d.steps()?;
        let at: Vec<usize> = (0..steps.len()).filter(|i| !matches!(steps[*i], Step::Event(n) if n > 1)).collect();
        let n = ch.of(&at);
        let (bytes, parts) = ch.of(&[
            (&b"Zugriff verweigert f\xfcr Benutzer 'repl'"[..], &["Zugriff verweigert f", "r Benutzer 'repl'"][..]),
            (b"Table 'shop.\xd1\x82\xd0", &["Table 'shop."]),
            (b"\xff\xfe\xfd", &[]),
            (b"\xc0\x80 is not allowed", &["is not allowed"]),
            (b"a\0b", &["a", "b"]),
        ]);
        let state = ch.of(&[Some("42000"), None]);
        let mut p = err_packet(4321, state, "");
        p.extend_from_slice(bytes);
        let mut s = d.server();
        s.tamper = Some(Box::new(move |_, i, _, _, _| if i == n { Act::Halt(Some(p.clone())) } else { Act::Pass }));
        let what = format!("an error with the message {:?} as {:?}", String::from_utf8_lossy(bytes), steps[n]);
        ch.sample(|| what.clone());
        ch.distinct(&(n, bytes, state, &d.cfg.flavor, d.start));
        ch.state(&(n, steps[n]));
        ch.step(n as u64 + 1);
        let (g, mut net) = with_server(s, NetPlan::default(), || run(&mut d.client(), n + 2));
        let e = match g.open.clone().or_else(|| g.items.iter().find_map(|i| i.as_ref().err().cloned())) {
            Some(e) => e,
            None => return viol(format!("{}: not reported", what)),
        };
        ensure!(e.contains("4321"), "{}: the code is lost in {:?}", what, e);
        for x in parts {
            ensure!(e.contains(x), "{}: {:?} is lost in {:?}", what, x, e);
        }
        ensure!(net.peer::<Server>().sess[0].packets_after_halt == 0, "{}: the client goes on", what);
        Ok(())
    })
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Debug)]
enum Pk {
    Ev(Proto),
    /// Raw payload that is not an event.
    Raw(&'static str, Vec<u8>),
    Err(u16, &'static str),
    Eof(Vec<u8>),
}
fn packets() -> Vec<Pk> {
    vec![
        Pk::Ev(p_xid(1)),
        Pk::Ev(p_query("shop", "BEGIN")),
        Pk::Ev(bad(QUERY, vec![1, 2, 3])),
        Pk::Err(1236, "log event entry exceeded max_allowed_packet"),
        Pk::Raw("unknown status 1", vec![1]),
        Pk::Raw("an empty packet", vec![]),
        Pk::Raw("a packet of one zero byte", vec![0]),
        Pk::Raw("an event header cut short", vec![0; 19]),
        Pk::Eof(vec![0xfe, 0, 0, 2, 0]),
        Pk::Ev(p_heartbeat("mysql-bin.000001")),
        Pk::Ev(p_rotate(4, "mysql-bin.000002")),
        Pk::Raw("unknown status 0xfb", B::new().u8(0xfb).str("file").0),
        Pk::Raw("unknown status 0xef (semi-synchronous)", [&[0xef, 1][..], &event(&Hdr { ts: 1, typ: 16, server_id: 1, len: 27, next: 0, flags: 0 }, &[1; 8], false)].concat()),
        Pk::Raw("an error packet cut short", vec![0xff]),
        Pk::Raw("an error packet cut in its code", vec![0xff, 1]),
        Pk::Ev(p_unknown(38, &[1; 14])),
    ]
}
fn run_packets(ch: &mut Ch, seq: &[Pk], crc: bool) -> Res {
    let mut cfg = Cfg::new(Flavor::MySql);
    cfg.crc = crc;
    let c2 = cfg.clone();
    let mut want: Vec<Option<Item>> = vec![];
    let mut ended = false;
    let mut raw: Vec<Vec<u8>> = vec![];
    for (i, p) in seq.iter().enumerate() {
        let (bytes, item) = match p {
            Pk::Ev(p) => {
                let len = 19 + p.body.len() + if crc { 4 } else { 0 };
                let h = Hdr { ts: 50 + i as u32, typ: p.typ, server_id: 1, len: len as u32, next: 1000 + i as u32, flags: 0 };
                let mut b = vec![0];
                b.extend(event(&h, &p.body, crc));
                let it = match &p.ev {
                    Some(e) => Ok((h, e.clone())),
                    None => Err("cannot be decoded".to_string()),
                };
                (b, Some(it))
            }
            Pk::Raw(n, b) => (b.clone(), Some(Err(n.to_string()))),
            Pk::Err(c, m) => (err_packet(*c, Some("HY000"), m), Some(Err(format!("{}|{}", c, m)))),
            Pk::Eof(b) => (b.clone(), None),
        };
        raw.push(bytes);
        if !ended {
            want.push(item.clone());
            ended = item.is_none();
        }
        ch.state(&(i, format!("{:?}", p)));
    }
    if !ended {
        want.push(None);
        raw.push(eof_packet());
    }
    ch.step(want.len() as u64);
    ch.distinct(&raw);
    // The server plays the packets in place of its stream.
    let mut s = Server::new(cfg, Binlog::new(Flavor::MySql));
    s.log.file("mysql-bin.000001", ("8.0.32", 41, Some(crc as u8)));
    let bytes: Vec<Vec<u8>> = raw.clone();
    s.tamper = Some(Box::new(move |_, _, st, seq, _| match st {
        Step::Event(0) => {
            let mut v = vec![];
            let mut n = seq;
            for b in &bytes {
                v.push(crate::env::Out::Data(packet(n, b)));
                n = n.wrapping_add(1);
            }
            Act::HaltRaw(v)
        }
        _ => Act::Pass,
    }));
    let max = want.len() + 2;
    let ((open, got, end_at), net) = with_server(s, NetPlan::default(), || {
        let mut c = BinlogClient::new(options(&c2, BinlogOptions::from_start(), true));
        let mut got: Vec<Item> = vec![];
        let mut ev = match c.replicate() {
            Err(e) => return (Some(err_text(&e)), got, None),
            Ok(e) => e,
        };
        let mut end_at = None;
        while got.len() < max {
            match ev.next() {
                None => {
                    end_at = Some(got.len());
                    break;
                }
                Some(r) => got.push(item(&r)),
            }
        }
        (None, got, end_at)
    });
    let what = format!("packets {:?}", seq.iter().map(|p| match p { Pk::Ev(p) => format!("event {}{}", p.typ, if p.ev.is_none() { " (undecodable)" } else { "" }), Pk::Raw(n, _) => n.to_string(), Pk::Err(c, _) => format!("error {}", c), Pk::Eof(_) => "end of file".into() }).collect::<Vec<_>>());
    ch.sample(|| what.clone());
    if let Some(e) = open {
        return viol(format!("{}: replication fails: {}", what, e));
    }
    if let Some(v) = &net.verdict {
        return viol(format!("{}: {}", what, v));
    }
    let items: Vec<Item> = want.iter().filter_map(|x| x.clone()).collect();
    ch.outcome(&(items.iter().map(|i| i.is_ok()).collect::<Vec<_>>()));
    msg(compare(&got, &items), || what.clone())?;
    for (g, w) in got.iter().zip(&items) {
        if let (Err(g), Err(w)) = (g, w) {
            if let Some((c, m)) = w.split_once('|') {
                ensure!(g.contains(c) && g.contains(m), "{}: the server's error {} is reported as {}", what, w, g);
            }
        }
    }
    ensure!(end_at == Some(items.len()), "{}: the end is reported at {:?} instead of {}", what, end_at, items.len());
    Ok(())
}
fn c26() -> Vec<Group> {
    vec![
        group("sequences", "every sequence of 3 (thorough: 4) packets of every kind, then end of file", |ch| {
            let ps = packets();
            let seq: Vec<Pk> = (0..by_tier(3, 4)).map(|_| ch.pick(&ps).clone()).collect();
            let crc = ch.flag();
            run_packets(ch, &seq, crc)
        }),
        group("longer sequences", "every sequence of 5 (thorough: 7) packets of the 5 main kinds", |ch| {
            let ps = packets();
            let main = [0usize, 2, 3, 4, 8];
            let seq: Vec<Pk> = (0..by_tier(5, 7)).map(|_| ps[ch.of(&main)].clone()).collect();
            run_packets(ch, &seq, true)
        }),
        group("status bytes", "every first byte with every short length, between two events", |ch| {
            let b = ch.range(0, 255) as u8;
            let fill = ch.of(&[0u8, 1, 0xff]);
            let n = ch.range(0, 30) as usize;
            let mut p = vec![b];
            p.extend(vec![fill; n]);
            let pk = match b {
                // An end-of-file packet has fewer than 9 bytes; longer ones are neither.
                0xfe if n < 8 => Pk::Eof(p),
                0xfe => return Ok(()),
                0xff => return Ok(()),
                // An event header is complete from 20 bytes on; the zero header is of no event type.
                0 if n >= 19 => return Ok(()),
                0 => Pk::Raw("an event cut short", p),
                _ => Pk::Raw("unknown status", p),
            };
            run_packets(ch, &[Pk::Ev(p_xid(1)), pk, Pk::Ev(p_xid(2))], false)
        }),
        group("long streams", "hundreds of events whose packet numbers wrap around, with errors between them", |ch| {
            let n = ch.of(by_tier(&[250usize, 254, 255, 256, 257, 600][..], &[250, 254, 255, 256, 257, 600, 5000]));
            let every = ch.of(&[0usize, 1, 7, 100]);
            let ps = packets();
            let k = ch.of(&[2usize, 3, 4, 5]);
            let mut seq = vec![];
            for i in 0..n {
                seq.push(ps[i % 2].clone());
                if every > 0 && i % every == 0 {
                    seq.push(ps[k].clone())
                }
            }
            run_packets(ch, &seq, true)
        }),
        group("end of file packets", "every form of the end-of-file packet at every place of a stream", |ch| {
            let at = ch.range(0, 4) as usize;
            let eof = ch.of(&[&[0xfeu8][..], &[0xfe, 0, 0, 2, 0], &[0xfe, 0, 0], &[0xfe, 0xff, 0xff, 0xff, 0xff], &[0xfe, 0, 0, 0, 0]]);
            let ps = packets();
            let mut seq: Vec<Pk> = (0..at).map(|i| ps[i % 2].clone()).collect();
            seq.push(Pk::Eof(eof.to_vec()));
            run_packets(ch, &seq, true)
        }),
    ]
}

// ---------------------------------------------------------------- C27

fn c27() -> Vec<Group> {
    vec![
        group("answers", "every answer of the server to the question for its position, and the next start of the same client", |ch| {
            let f = ch.of(&[Flavor::MySql, Flavor::Maria]);
            let s = |x: &str| Some(x.to_string());
            let rows: Vec<(Vec<Vec<Option<String>>>, Option<(&str, u32)>)> = vec![
                (vec![vec![s("mysql-bin.000002"), s("4"), s(""), s(""), s("")]], Some(("mysql-bin.000002", 4))),
                (vec![vec![s("mysql-bin.000001"), s("157"), s("a,b"), s("c"), s("24bc7850-2c16-11e6-a073-0242ac110001:1-5,\nf442510a-2881-11ea-b1dd-279161 33dbb2:1")]], Some(("mysql-bin.000001", 157))),
                (vec![vec![s("b.1"), s("4294967295"), s(""), s("")]], Some(("b.1", u32::MAX))),
                (vec![vec![s(&"n".repeat(250)), s("1000"), s(""), s("")]], Some(("n250", 1000))),
                (vec![vec![s(&"n".repeat(251)), s("1000"), s(""), s("")]], Some(("n251", 1000))),
                (vec![vec![s(&"n".repeat(255)), s("1000"), s(""), s(""), s(&"24bc7850-2c16-11e6-a073-0242ac110001:1-5,\n".repeat(2000))]], Some(("n255", 1000))),
                (vec![vec![s("логи.000001"), s("99"), s(""), s("")]], Some(("логи.000001", 99))),
                (vec![vec![s("mysql-bin.000001"), s("120")]], Some(("mysql-bin.000001", 120))),
                (vec![], None),
                (vec![vec![s("mysql-bin.000001")]], None),
                (vec![vec![]], None),
                (vec![vec![s("mysql-bin.000001"), s(""), s(""), s("")]], None),
                (vec![vec![s("mysql-bin.000001"), s("12x"), s(""), s("")]], None),
                (vec![vec![s("mysql-bin.000001"), s("-4"), s(""), s("")]], None),
                (vec![vec![s("mysql-bin.000001"), s("4294967296"), s(""), s("")]], None),
                (vec![vec![s("mysql-bin.000001"), None, s(""), s("")]], None),
                (vec![vec![None, s("4"), s(""), s("")]], None),
                (vec![vec![s(""), s("4"), s(""), s("")]], None),
            ];
            let (r, want) = ch.pick(&rows).clone();
            let b = ch.flag();
            let mut cfg = Cfg::new(f);
            cfg.status = Status::Rows(r.clone());
            let c2 = cfg.clone();
            let log = small_log(&cfg);
            let mut client = BinlogClient::new(options(&c2, BinlogOptions::from_end(), b));
            let (g, mut net) = with_server(Server::new(cfg.clone(), log), NetPlan::default(), || run(&mut client, 1));
            let what = format!("the position query answered with {:?}", r.iter().map(|x| x.iter().map(|c| c.as_ref().map(|c| c.chars().take(20).collect::<String>())).collect::<Vec<_>>()).collect::<Vec<_>>());
            ch.sample(|| what.clone());
            ch.distinct(&(&r, b, f));
            ch.state(&(&r, f));
            ch.step(1);
            let dumps = net.peer::<Server>().dumps.clone();
            if let Some(v) = &net.verdict {
                return viol(format!("{}: {}", what, v));
            }
            match want {
                None => {
                    ensure!(g.open.is_some(), "{}: no error", what);
                    ensure!(dumps.is_empty(), "{}: streaming requested from {:?}", what, dumps[0].from);
                    // No position is known yet: the next start asks again.
                    cfg.status = Status::Rows(vec![vec![s("mysql-bin.000002"), s("4"), s(""), s("")]]);
                    let log = small_log(&cfg);
                    let (g, mut net) = with_server(Server::new(cfg, log), NetPlan::default(), || run(&mut client, 1));
                    let dumps = net.peer::<Server>().dumps.clone();
                    ensure!(g.open.is_none(), "{}: the next start, answered well, fails: {:?}", what, g.open);
                    ensure!(dumps.len() == 1 && dumps[0].from == From::Position("mysql-bin.000002".into(), 4), "{}: the next start, answered well, requests {:?}", what, dumps.iter().map(|d| &d.from).collect::<Vec<_>>());
                }
                Some((n, p)) => {
                    let n = match n.strip_prefix('n').and_then(|k| k.parse::<usize>().ok()) {
                        Some(k) => "n".repeat(k),
                        None => n.to_string(),
                    };
                    if let Some(e) = g.open {
                        return viol(format!("{}: replication fails: {}", what, e));
                    }
                    ensure!(dumps.len() == 1 && dumps[0].from == From::Position(n, p), "{}: requested {:?}", what, dumps.iter().map(|d| &d.from).collect::<Vec<_>>());
                }
            }
            Ok(())
        }),
        group("histories", "every history of up to 5 steps: the binlog grows, rotates, the client connects and commits some events, loses the connection early or late", |ch| {
            let f = ch.of(&[Flavor::MySql, Flavor::Maria]);
            let mut cfg = Cfg::new(f);
            cfg.crc = ch.flag();
            let mut log = Binlog::new(f);
            log.file("mysql-bin.000001", cfg.sv());
            let c2 = cfg.clone();
            let id = |n: u64| if f == Flavor::MySql { TxId::My(SRC[0], n) } else { TxId::Maria(0, 1, n) };
            let mut n = 1u64;
            log.tx(Some(id(n)), &tx_events(f, TxKind::Rows, Some(id(n)), 1));
            let steps: Vec<usize> = (0..by_tier(4, 6)).map(|_| ch.choose(6)).collect();
            ch.distinct(&(&steps, cfg.crc, f));
            crate::env::net_start(crate::env::Net::new(Box::new(Server::new(cfg, log)), NetPlan::default()));
            let mut client = BinlogClient::new(options(&c2, BinlogOptions::from_end(), false));
            // The position the next connection must ask for; none before the first one.
            let mut expect: Option<(String, u32)> = None;
            let mut started = 0;
            for s in steps.iter().chain([3usize].iter()) {
                ch.step(1);
                match *s {
                    0 => server(|x| {
                        n += 1;
                        x.log.tx(Some(id(n)), &tx_events(f, TxKind::Rows, Some(id(n)), n as usize));
                    }),
                    1 => server(|x| {
                        let name = format!("mysql-bin.{:06}", x.log.files.len() + 1);
                        let sv = x.cfg.sv();
                        x.log.file(&name, sv);
                    }),
                    // Connects and commits nothing, two, five or all events.
                    k @ (2 | 3 | 4) => {
                        let limit = [0, 10_000, 3][k - 2];
                        let status = server(|x| {
                            let l = x.log.files.last().unwrap();
                            (l.name.clone(), l.end)
                        });
                        let dumps = server(|x| x.dumps.len());
                        let mut last: Option<(String, u32)> = None;
                        let want = expect.clone().unwrap_or(status);
                        let mut cur = want.clone();
                        let g = take(&mut client, if k == 2 { 1 } else { 10_000 }, |c, i, h, e| {
                            if i >= limit {
                                return false;
                            }
                            c.commit(h, e);
                            last = Some(opt_pos(c));
                            true
                        });
                        if let Some(e) = g.open {
                            return viol(format!("history {:?}: replication fails: {}", steps, e));
                        }
                        let d = server(|x| x.dumps[dumps..].to_vec());
                        started += 1;
                        ensure!(d.len() == 1 && d[0].from == From::Position(want.0.clone(), want.1), "history {:?}: connection {} asks for {:?} instead of {:?}", steps, started, d.iter().map(|x| &x.from).collect::<Vec<_>>(), want);
                        if let Some(l) = last {
                            cur = l
                        }
                        ch.state(&(&cur, server(|x| (x.log.files.len(), x.log.files.last().unwrap().end))));
                        expect = Some(cur);
                    }
                    // The connection is lost at some step before streaming.
                    k => {
                        let at = [0usize, 4][(started + k) % 2];
                        server(|x| x.tamper = Some(Box::new(move |_, i, _, _, _| if i == at { Act::HaltClose(None) } else { Act::Pass })));
                        let g = take(&mut client, 10, |_, _, _, _| true);
                        ensure!(g.open.is_some(), "history {:?}: a lost connection goes unnoticed", steps);
                        server(|x| x.tamper = None);
                    }
                }
            }
            let mut net = crate::env::net_end();
            let asked = net.peer::<Server>().sess.iter().filter(|s| s.streaming).count();
            ch.outcome(&asked);
            if let Some(v) = &net.verdict {
                return viol(format!("history {:?}: {}", steps, v));
            }
            Ok(())
        }),
    ]
}
