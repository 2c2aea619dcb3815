//! C17, C18, C19: the committed position and resuming from it.
use super::net::*;
use crate::env::{Cut, NetPlan};
use crate::explore::*;
use crate::obs::*;
use crate::server::*;
use crate::wire::*;
use crate::Check;
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use std::collections::BTreeSet;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C17",
            level: "model_checking",
            rule: "States are (transaction in progress, covered GTIDs); transitions are committed events and reconnects. Every sequence of transactions of the bound, as MySQL and MariaDB log them, with every assignment to sources or domains, every starting position and every point of interruption, is streamed to the real client; after every single commit its position is compared with the reference.",
            assumptions: &["the application commits the events in the order of delivery", "transactions are logged as servers log them; compressed transaction payloads are not part of the model"],
            groups: c17,
        },
        Check {
            id: "C18",
            level: "model_checking",
            rule: "States are (file, position, open statement); transitions are committed events. Every history of the bound is streamed to the real client; after every commit the position is compared with the reference and, for every prefix, streaming is resumed from it against the model server.",
            assumptions: &["the application commits the events in the order of delivery", "binlog files are smaller than 4 GiB"],
            groups: c18,
        },
        Check {
            id: "C19",
            level: "fault_enumeration",
            rule: "For every history of the bound: the disconnect at every event (and at bytes inside them), with the last event committed or not, with the same client or a new one built from the printed position, once and twice; what the real client delivered over all connections is compared with what the model server logged.",
            assumptions: &["the application commits the events in the order of delivery, at most one behind delivery", "the server keeps its binlog"],
            groups: c19,
        },
    ]
}

// ---------------------------------------------------------------- histories

#[derive(Clone, Debug, Hash)]
struct Hist {
    flavor: Flavor,
    crc: bool,
    /// Kind, source or domain, and how a new file begins before it.
    txs: Vec<(TxKind, usize, Turn)>,
    /// Transactions without GTID.
    anonymous: bool,
    /// Further flags in the GTID events, of those that say nothing about where the transaction ends.
    extra: u8,
    /// Which of the series of file names.
    names: usize,
    /// How much further back in its file everything lies.
    gap: u32,
}
/// Around the boundaries of shorter numbers, and at the end of what four bytes hold.
const GAPS: [u32; 6] = [64_900, 70_000, (1 << 24) - 700, (1 << 31) - 700, 3_000_000_000, u32::MAX - 20_000];
/// Series of file names: as usual; past the six digits; of other bases each time, with what names may hold.
fn file_name(series: usize, n: usize) -> String {
    match series {
        0 => format!("mysql-bin.{:06}", n),
        1 => format!("mysql-bin.{:06}", 999_997 + n),
        2 => ["mysql-bin.000009", "binlog.000010", "Binlog.000003", "a.1", "a.01", "./a.1"][n - 1].into(),
        _ => ["логи 1.000001", " b.1", "it's.\"q\".000001", "b.000001.1", "b", "x-a-very-long-binary-log-base-name-of-more-than-a-hundred-and-twenty-seven-bytes-to-cross-every-length-boundary-there-might-be.000123"][n - 1].into(),
    }
}
/// What lies between a transaction and the one before it.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Turn {
    No,
    /// A new file behind a rotate event.
    Rotate,
    /// A new file although the last one says nothing of it, as after a crash.
    Crash,
    /// A new file behind the stop event of a shutdown.
    Stop,
}
const DOMAINS: [u32; 3] = [0, 7, u32::MAX];
impl Hist {
    fn cfg(&self) -> Cfg {
        let mut c = Cfg::new(self.flavor);
        c.crc = self.crc;
        c
    }
    fn build(&self) -> Binlog {
        self.build_from(&[0; 3])
    }
    fn build_from(&self, base: &[u64; 3]) -> Binlog {
        let cfg = self.cfg();
        let mut log = Binlog::new(self.flavor);
        log.file(&file_name(self.names, 1), cfg.sv());
        let mut next = *base;
        for (n, (kind, src, rotate)) in self.txs.iter().enumerate() {
            let name = file_name(self.names, log.files.len() + 1);
            match rotate {
                Turn::No => {}
                Turn::Rotate => log.file(&name, cfg.sv()),
                Turn::Crash => log.file_after(&name, cfg.sv(), None),
                Turn::Stop => log.file_after(&name, cfg.sv(), Some(p_unknown(STOP, &[]))),
            }
            if self.gap > 0 && (n == 0 || *rotate != Turn::No) {
                log.gap(self.gap)
            }
            next[*src] += 1;
            let id = match self.flavor {
                _ if self.anonymous => None,
                Flavor::MySql => Some(TxId::My(SRC[*src], next[*src])),
                // The server that logs changes within a domain after a failover.
                Flavor::Maria => Some(TxId::Maria(DOMAINS[*src], 1 + (next[*src] % 2) as u32, next[*src])),
            };
            let mut ps = tx_events(self.flavor, *kind, id, n + 1);
            if self.extra != 0 && id.is_some() {
                ps[0] = flagged(&ps[0], self.extra)
            }
            log.tx(id, &ps);
        }
        log
    }
    fn server(&self) -> Server {
        Server::new(self.cfg(), self.build())
    }
    fn text(&self) -> String {
        format!(
            "{:?}{}{}{}: {}",
            self.flavor,
            if self.gap > 0 { format!(" from byte {} on", self.gap) } else { String::new() },
            if self.crc { "" } else { " without checksums" },
            if self.names > 0 { format!(" in files {}, {}, ..", file_name(self.names, 1), file_name(self.names, 2)) } else { String::new() },
            self.txs.iter().map(|(k, s, r)| format!("{}{:?}@{}", match r { Turn::No => "", Turn::Rotate => "rotate, ", Turn::Crash => "crash, ", Turn::Stop => "stop, " }, k, s)).collect::<Vec<_>>().join(", ")
        )
    }
}
/// The GTID event with further flags.
fn flagged(p: &Proto, extra: u8) -> Proto {
    match &p.ev {
        Some(Ev::MaGtid { domain, server, seq, flags }) => {
            let mut q = p_magtid(*domain, *server, *seq, *flags | extra);
            if flags & (64 | 128) != 0 {
                q.body.truncate(if (flags | extra) & 2 != 0 { 21 } else { 13 });
                q.body.extend_from_slice(&p.body[p.body.len() - 7..]);
            }
            q
        }
        Some(Ev::MyGtid { flags, sid, id, .. }) => p_mygtid(flags | extra, *sid, *id),
        x => panic!("not a GTID event: {:?}", x),
    }
}
fn kinds(f: Flavor) -> &'static [TxKind] {
    match f {
        Flavor::MySql => &MY_KINDS,
        Flavor::Maria => &MA_KINDS,
    }
}
/// `n` transactions of every kind; sources and rotations from the pattern pools.
fn draw(ch: &mut Ch, n: usize, pool: usize, sources: &[[usize; 5]], rotations: &[[Turn; 5]]) -> Hist {
    let flavor = ch.of(&[Flavor::MySql, Flavor::Maria]);
    let k = &kinds(flavor)[..pool.min(kinds(flavor).len())];
    let ks: Vec<TxKind> = (0..n).map(|_| ch.of(k)).collect();
    let s = ch.of(sources);
    let r = ch.of(rotations);
    Hist { flavor, crc: true, txs: ks.iter().enumerate().map(|(i, k)| (*k, s[i], r[i])).collect(), anonymous: false, extra: 0, names: 0, gap: 0 }
}
const ONE: [[usize; 5]; 1] = [[0; 5]];
const MIX: [[usize; 5]; 3] = [[0; 5], [0, 1, 0, 1, 0], [0, 1, 2, 0, 1]];
const STAY: [[Turn; 5]; 1] = [[Turn::No; 5]];
const TURN: [[Turn; 5]; 5] = [
    [Turn::No; 5],
    [Turn::No, Turn::Rotate, Turn::No, Turn::Rotate, Turn::No],
    [Turn::No, Turn::Crash, Turn::Rotate, Turn::Crash, Turn::Stop],
    [Turn::Rotate; 5],
    [Turn::Crash, Turn::Stop, Turn::Crash, Turn::Rotate, Turn::Crash],
];

/// What the position has to be, computed from what the server sent and the application committed.
#[derive(Clone, Debug, Hash, PartialEq)]
struct Track {
    my: Sets,
    ma: Vec<(u32, u32, u64)>,
    pos: (String, u32),
    /// Inside the rows of a statement: `pos` is where it began.
    open: bool,
}
impl Track {
    fn of(c: &BinlogClient) -> Track {
        Track { my: opt_sets(c).unwrap_or_default(), ma: opt_list(c).unwrap_or_default(), pos: opt_pos(c), open: false }
    }
    /// Inside the rows of a statement any place up to where they begin is good for resuming.
    fn safe(&self, got: &(String, u32)) -> bool {
        got.0 == self.pos.0 && got.1 <= self.pos.1
    }
    fn commit(&mut self, log: &Binlog, s: &Sent) {
        let (h, e) = match &s.item {
            Ok(x) => x,
            Err(_) => return,
        };
        if let (Some(t), Some((fi, ri))) = (s.tx, s.rec) {
            let tx = &log.txs[t];
            if (fi, ri) == (tx.file, tx.last) {
                match tx.id {
                    Some(TxId::My(sid, n)) => add_gtid(&mut self.my, sid, n),
                    Some(TxId::Maria(d, sv, q)) => set_domain(&mut self.ma, d, sv, q),
                    None => {}
                }
            }
        }
        match e {
            Ev::TableMap(_) => self.open = true,
            Ev::Rows(r) => self.open = r.flags & 1 == 0,
            _ => self.open = false,
        }
        if let Ev::Rotate(p, n) = e {
            self.pos = (n.clone(), *p as u32)
        } else if !self.open && h.next != 0 {
            self.pos = (self.pos.0.clone(), h.next)
        }
    }
}
fn info(conn: usize, i: usize, f: impl FnOnce(&Binlog, &Sent)) {
    server(|s| {
        // The server sends everything it has at once.
        f(&s.log, &s.sess[conn].stream[i])
    })
}
fn conns() -> usize {
    server(|s| s.sess.len())
}

// ---------------------------------------------------------------- C17

/// Streams with a commit after every event and compares the GTID position every time; stops after `max` events.
fn commit_all(ch: &mut Ch, client: &mut BinlogClient, t: &mut Track, max: usize, what: &dyn Fn() -> String, gtid: bool) -> Result<usize, Viol> {
    let conn = conns();
    let mut bad: Option<String> = None;
    let flavor = server(|s| s.log.flavor);
    let mut n = 0;
    let mut states = vec![];
    if max == 0 {
        return Ok(0);
    }
    let g = take(client, 100_000, |c, i, h, e| {
        if i >= max {
            return false;
        }
        c.commit(h, e);
        n = i + 1;
        let mut desc = String::new();
        info(conn, i, |log, s| {
            t.commit(log, s);
            if bad.is_none() {
                desc = format!("commit {} ({})", i + 1, show(&s.item))
            }
        });
        let got_my = opt_sets(c);
        let got_ma = opt_list(c);
        let (want_my, want_ma) = match (gtid, flavor) {
            (true, Flavor::MySql) => (Some(t.my.clone()), None),
            (true, Flavor::Maria) => {
                let mut l = t.ma.clone();
                l.sort();
                (None, Some(l))
            }
            _ => (None, None),
        };
        states.push(h64(&(&got_my, &got_ma)));
        if got_my != want_my || got_ma != want_ma {
            let f = |a: &Option<Sets>, b: &Option<Vec<(u32, u32, u64)>>| match (a, b) {
                (Some(a), _) => format!("{:?}", sets_text(a)),
                (_, Some(b)) => format!("{:?}", list_text(b)),
                _ => "none".into(),
            };
            bad = Some(format!("after {} on connection {} the position is {} instead of {}", desc, conn, f(&got_my, &got_ma), f(&want_my, &want_ma)));
            return false;
        }
        i + 1 < max
    });
    ch.step(n as u64);
    ch.evals(n as u64);
    for s in states {
        ch.state(&s)
    }
    if let Some(e) = g.open {
        let c = server(|s| s.complaints());
        return viol(format!("{}: replication fails: {} {:?}", what(), e, c));
    }
    if let Some(b) = bad {
        return viol(format!("{}: {}", what(), b));
    }
    let want: Vec<Item> = server(|s| s.sess[conn].stream.iter().take(g.items.len()).map(|x| x.item.clone()).collect());
    msg(compare(&g.items, &want), || what())?;
    Ok(n)
}
/// The GTID position after the first `k` transactions.
fn gtid_after(h: &Hist, k: usize) -> BinlogOptions {
    let mut short = h.clone();
    short.txs.truncate(k);
    let log = short.build();
    match h.flavor {
        Flavor::MySql => BinlogOptions::from_mysql_gtid(my_set(&log.executed)),
        Flavor::Maria => BinlogOptions::from_mariadb_gtid(ma_list(&log.list)),
    }
}
fn c17_prefixes(ch: &mut Ch, h: Hist, start: BinlogOptions, desc: String) -> Res {
    let (cfg, log) = (h.cfg(), h.build());
    c17_whole(ch, cfg, log, start, &|| format!("{} from {}", h.text(), desc))
}
fn c17_whole(ch: &mut Ch, cfg: Cfg, log: Binlog, start: BinlogOptions, what: &dyn Fn() -> String) -> Res {
    ch.sample(what);
    ch.distinct(&what());
    crate::env::net_start(crate::env::Net::new(Box::new(Server::new(cfg.clone(), log)), NetPlan::default()));
    let mut c = BinlogClient::new(options(&cfg, start, false));
    let mut t = Track::of(&c);
    commit_all(ch, &mut c, &mut t, usize::MAX, what, true)?;
    let mut net = crate::env::net_end();
    ch.outcome(&(&t.my, &t.ma));
    msg(clean(&mut net), what)
}
/// One interrupted run, then another; the position is compared after every commit of both.
fn c17_interrupted(ch: &mut Ch, h: Hist, skip: usize, cuts: usize, extra: bool) -> Res {
    let cfg = h.cfg();
    let mut trail = vec![];
    crate::env::net_start(crate::env::Net::new(Box::new(h.server()), NetPlan::default()));
    let mut c = BinlogClient::new(options(&cfg, gtid_after(&h, skip), false));
    let mut t = Track::of(&c);
    for _ in 0..cuts {
        let total = server(|s| s.log.files.iter().map(|f| f.recs.len() + 2).sum::<usize>());
        let k = 1 + ch.choose(total);
        trail.push(k);
        let what = || format!("{} behind transaction {}, interrupted after {:?} commits", h.text(), skip, trail);
        let n = commit_all(ch, &mut c, &mut t, k, &what, true)?;
        if n < k {
            // The same as a smaller one.
            crate::env::net_end();
            return Ok(());
        }
    }
    if extra {
        // More is logged while the client is away.
        server(|s| {
            let my = s.log.flavor == Flavor::MySql;
            let n = s.log.txs.len() as u64 + 100;
            let id = if my { TxId::My(SRC[2], n) } else { TxId::Maria(DOMAINS[2], 9, n) };
            let e = tx_events(s.log.flavor, TxKind::Ddl, Some(id), 99);
            s.log.tx(Some(id), &e);
        })
    }
    let what = || format!("{} behind transaction {}, interrupted after {:?} commits, resumed", h.text(), skip, trail);
    ch.sample(what);
    ch.distinct(&(&h, skip, &trail));
    commit_all(ch, &mut c, &mut t, usize::MAX, &what, true)?;
    let mut net = crate::env::net_end();
    let all = {
        let l = &net.peer::<Server>().log;
        (l.executed.clone(), l.list.clone())
    };
    let mut ma = all.1.clone();
    ma.sort();
    let mut tm = t.ma.clone();
    tm.sort();
    ensure!(h.flavor == Flavor::Maria || t.my == all.0, "{}: the end covers {} instead of {}", what(), sets_text(&t.my), sets_text(&all.0));
    ensure!(h.flavor == Flavor::MySql || tm == ma, "{}: the end covers {:?} instead of {:?}", what(), tm, ma);
    ch.outcome(&all);
    msg(clean(&mut net), what)
}
fn c17() -> Vec<Group> {
    vec![
        group("prefixes", "every sequence of 3 transactions of every kind over the sources, from nothing; the position after every commit", |ch| {
            let h = draw(ch, 3, 14, &MIX, &STAY);
            let start = gtid_after(&h, 0);
            c17_prefixes(ch, h, start, "nothing".into())
        }),
        group("statement texts", "every text of a lone statement and of a statement inside a transaction, those included that look like the beginning or end of one, between every two kinds", |ch| {
            let flavor = ch.of(&[Flavor::MySql, Flavor::Maria]);
            let i = ch.choose(LONE.len() + WITHIN.len());
            let text = if i < LONE.len() { TxKind::Lone(i as u8) } else { TxKind::Within((i - LONE.len()) as u8) };
            let k = kinds(flavor);
            let (a, b) = (ch.of(k), ch.of(k));
            let s = if ch.flag() { [0, 0, 0, 0, 0] } else { [0, 1, 0, 1, 0] };
            let txs = vec![(a, s[0], Turn::No), (text, s[1], Turn::No), (text, s[2], Turn::No), (b, s[3], Turn::No)];
            let h = Hist { flavor, crc: true, txs, anonymous: false, extra: 0, names: 0, gap: 0 };
            let start = gtid_after(&h, 0);
            c17_prefixes(ch, h, start, "nothing".into())
        }),
        group("GTID flags", "every combination of the flags of GTID events that do not say where a transaction ends, on every two kinds", |ch| {
            let mut h = draw(ch, 2, 14, &MIX[..2], &STAY);
            // MariaDB: group commit id, transactional, may be replicated in parallel, has waited, DDL.
            h.extra = match h.flavor {
                Flavor::MySql => ch.of(&[1u8, 2, 4, 8, 16, 32, 64, 128, 255]),
                Flavor::Maria => ch.range(1, 31) as u8 * 2,
            };
            let start = gtid_after(&h, 0);
            let what = format!("nothing, further GTID flags {:#x}", h.extra);
            c17_prefixes(ch, h, start, what)
        }),
        group("numbers", "every sequence of 3 transactions (thorough: 4) of two sources with numbers in any order, repeated within a MariaDB domain by another server, up to the greatest", |ch| {
            let flavor = ch.of(&[Flavor::MySql, Flavor::Maria]);
            let n = by_tier(3, 4);
            let kind = ch.of(&[TxKind::Rows, TxKind::Ddl]);
            let mut log = Binlog::new(flavor);
            let cfg = Cfg::new(flavor);
            log.file("mysql-bin.000001", cfg.sv());
            let mut ids = vec![];
            for i in 0..n {
                let id = match flavor {
                    Flavor::MySql => TxId::My(SRC[ch.choose(2)], ch.of(&[1, 2, 3, 5, 1 << 32, i64::MAX as u64])),
                    Flavor::Maria => TxId::Maria(DOMAINS[ch.choose(2)], ch.of(&[1, u32::MAX]), ch.of(&[1, 2, 1 << 32, u64::MAX])),
                };
                if flavor == Flavor::MySql && ids.contains(&id) {
                    return Ok(());
                }
                ids.push(id);
                log.tx(Some(id), &tx_events(flavor, kind, Some(id), i + 1));
            }
            let start = match flavor {
                Flavor::MySql => BinlogOptions::from_mysql_gtid(my_set(&Sets::new())),
                Flavor::Maria => BinlogOptions::from_mariadb_gtid(ma_list(&[])),
            };
            c17_whole(ch, cfg, log, start, &|| format!("{:?} as {:?} from nothing", ids, kind))
        }),
        group("longer prefixes", "every sequence of 4 (thorough: 5) transactions of the 8 main kinds", |ch| {
            let h = draw(ch, by_tier(4, 5), by_tier(6, 8), &MIX[1..2], &TURN[1..2]);
            let start = gtid_after(&h, 0);
            c17_prefixes(ch, h, start, "nothing".into())
        }),
        group("starting positions", "every pair of kinds from every starting position: none, some and all of the log, with gaps, with foreign sources", |ch| {
            let mut h = draw(ch, 2, 14, &MIX[..2], &TURN[..3]);
            h.crc = ch.flag();
            let pre: Vec<_> = vec![(TxKind::Ddl, 0, Turn::No), (TxKind::Rows, 1, Turn::No), (TxKind::Multi, 0, Turn::No)];
            h.txs.splice(0..0, pre);
            let mut sets = Sets::new();
            let mut list = vec![];
            match h.flavor {
                Flavor::MySql => {
                    // Every subset of the first three transactions, and transactions of another server.
                    for (sid, n) in [(SRC[0], 1), (SRC[1], 1), (SRC[0], 2)] {
                        if ch.flag() {
                            add_gtid(&mut sets, sid, n)
                        }
                    }
                    if ch.flag() {
                        for n in [5, 6, 9] {
                            add_gtid(&mut sets, [0x77; 16], n)
                        }
                        add_gtid(&mut sets, SRC[0], 1000);
                    }
                    let d = sets_text(&sets);
                    let o = BinlogOptions::from_mysql_gtid(my_set(&sets));
                    c17_prefixes(ch, h, o, d)
                }
                Flavor::Maria => {
                    // Every combination of a position in each domain.
                    let log = h.build();
                    for d in 0..2 {
                        let ids: Vec<_> = log.txs.iter().filter_map(|t| match t.id { Some(TxId::Maria(x, s, q)) if x == DOMAINS[d] => Some((x, s, q)), _ => None }).collect();
                        let k = ch.choose(ids.len() + 1);
                        if k > 0 {
                            list.push(ids[k - 1])
                        }
                    }
                    let d = list_text(&list);
                    let o = BinlogOptions::from_mariadb_gtid(ma_list(&list));
                    c17_prefixes(ch, h, o, d)
                }
            }
        }),
        group("interrupted", "every pair of kinds, interrupted after every number of commits and resumed by the same client; more is logged meanwhile", |ch| {
            let h = draw(ch, 2, 14, &MIX[..2], &STAY);
            let skip = by_tier(0, ch.choose(2));
            c17_interrupted(ch, h, skip, 1, true)
        }),
        group("interrupted in a long history", "every triple of the 6 main kinds over two files, interrupted after every number of commits", |ch| {
            let h = draw(ch, 3, by_tier(4, 8), &MIX[1..2], &TURN[1..2]);
            c17_interrupted(ch, h, 0, 1, false)
        }),
        group("interrupted twice", "every pair of the main kinds, interrupted after every two numbers of commits", |ch| {
            let h = draw(ch, 2, by_tier(4, 9), &ONE, &STAY);
            c17_interrupted(ch, h, 0, 2, false)
        }),
        group("another server", "every kind interrupted after every commit, then a server that has gone on differently: every kind first, with GTIDs of its own or without", |ch| {
            let h = draw(ch, by_tier(1, 2), 14, &ONE, &STAY);
            let cfg = h.cfg();
            crate::env::net_start(crate::env::Net::new(Box::new(h.server()), NetPlan::default()));
            let mut c = BinlogClient::new(options(&cfg, gtid_after(&h, 0), false));
            let mut t = Track::of(&c);
            let k = 1 + ch.choose(server(|s| s.log.files[0].recs.len() + 2));
            let ks = kinds(h.flavor);
            let second = ch.of(ks);
            let third = ch.of(&[TxKind::Rows, TxKind::Ddl]);
            let anonymous = ch.flag();
            let what = || format!("{}, interrupted after {} commits, then {:?} and {:?} {} GTID", h.text(), k, second, third, if anonymous { "without" } else { "with" });
            ch.distinct(&(&h, k, second, third, anonymous));
            commit_all(ch, &mut c, &mut t, k, &what, true)?;
            let other = Hist { flavor: h.flavor, crc: true, txs: vec![(second, 1, Turn::No), (third, 1, Turn::No)], anonymous, extra: 0, names: 0, gap: 0 };
            server(|s| {
                s.log = other.build();
                // Its list names what the client has, so that it accepts it.
                if let Flavor::Maria = s.log.flavor {
                    let ids = t.ma.clone();
                    for (i, (d, sv, q)) in ids.into_iter().enumerate() {
                        s.log.txs.push(Tx { id: Some(TxId::Maria(d, sv, q)), file: 0, first: 100 + i, last: 100 + i });
                    }
                }
            });
            commit_all(ch, &mut c, &mut t, usize::MAX, &what, true)?;
            let mut net = crate::env::net_end();
            msg(clean(&mut net), what)
        }),
        group("other strategies", "without a GTID strategy no GTID position appears", |ch| {
            let h = draw(ch, 2, 14, &MIX[..2], &STAY);
            let s = ch.choose(3);
            let what = || format!("{}, strategy {}", h.text(), s);
            ch.distinct(&(&h, s));
            let cfg = h.cfg();
            crate::env::net_start(crate::env::Net::new(Box::new(h.server()), NetPlan::default()));
            let o = match s {
                0 => BinlogOptions::from_start(),
                1 => BinlogOptions::from_end(),
                _ => BinlogOptions::from_position("mysql-bin.000001".into(), 4),
            };
            let mut c = BinlogClient::new(options(&cfg, o, false));
            let mut t = Track::of(&c);
            commit_all(ch, &mut c, &mut t, usize::MAX, &what, false)?;
            crate::env::net_end();
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- C18

fn position_start(ch: &mut Ch, h: &Hist) -> (BinlogOptions, String) {
    let log = h.build();
    match ch.choose(if h.anonymous { 3 } else { 4 }) {
        0 => (BinlogOptions::from_start(), "the start".into()),
        1 => (BinlogOptions::from_end(), "the end".into()),
        2 => {
            // Behind every transaction.
            let k = ch.choose(log.txs.len());
            let t = &log.txs[k];
            let (n, p) = (log.files[t.file].name.clone(), log.files[t.file].recs[t.last].end);
            (BinlogOptions::from_position(n.clone(), p), format!("{}:{}", n, p))
        }
        _ => {
            let k = ch.choose(log.txs.len() + 1);
            (gtid_after(h, k), format!("the GTID position behind {} transactions", k))
        }
    }
}
/// Commits everything and compares the position after every commit; then, for a drawn prefix, resumes from there.
fn c18_run(ch: &mut Ch, h: Hist, start: BinlogOptions, desc: String, blocking: bool, resume: bool) -> Res {
    let what = || format!("{} from {}", h.text(), desc);
    ch.sample(what);
    let cfg = h.cfg();
    crate::env::net_start(crate::env::Net::new(Box::new(h.server()), NetPlan::default()));
    let mut c = BinlogClient::new(options(&cfg, start, blocking));
    let total = server(|s| s.log.files.iter().map(|f| f.recs.len() + 2).sum::<usize>() + 4);
    let k = if resume { 1 + ch.choose(total) } else { total + 8 };
    ch.distinct(&(&h, &desc, k));
    let mut t: Option<Track> = None;
    let mut bad = None;
    let mut n = 0;
    let mut states = vec![];
    let g = take(&mut c, k, |c, i, hd, e| {
        // Starting from the end, the position is known once the stream begins.
        let t = t.get_or_insert_with(|| Track::of(c));
        let before = opt_pos(c);
        c.commit(hd, e);
        n = i + 1;
        let mut d = String::new();
        info(0, i, |log, s| {
            t.commit(log, s);
            d = show(&s.item);
        });
        let got = opt_pos(c);
        states.push(h64(&(&got, t.open)));
        if t.open {
            if !t.safe(&got) {
                bad = Some(format!("after committing {} ({}), inside the rows of a statement that began behind {:?}, the position is {:?}", i + 1, d, t.pos, got));
                return false;
            }
        } else if got != t.pos {
            bad = Some(format!("after committing {} ({}) the position is {:?} instead of {:?} (before: {:?})", i + 1, d, got, t.pos, before));
            return false;
        }
        true
    });
    ch.step(n as u64);
    ch.evals(n as u64);
    for s in states {
        ch.state(&s)
    }
    if let Some(e) = g.open {
        return viol(format!("{}: replication fails: {}", what(), e));
    }
    if let Some(b) = bad {
        return viol(format!("{}: {}", what(), b));
    }
    if resume {
        if n < k {
            crate::env::net_end();
            return Ok(());
        }
        // Resuming from the file and position, as any client could.
        let (name, pos) = opt_pos(&c);
        let (sent, log): (Vec<Sent>, Binlog) = server(|s| (s.sess[0].stream[..n].to_vec(), s.log.clone()));
        // What the first connection was to receive; a GTID position leaves transactions out.
        let due: BTreeSet<(usize, usize)> = server(|s| s.sess[0].stream.iter().filter_map(|x| x.rec).collect());
        // Where the last committed event ends in the server's log.
        let mut done: Option<(usize, usize)> = match sent.first().map(|s| (s.file, &s.item)) {
            Some((fi, Ok((_, Ev::Rotate(p, _))))) => log.files[fi].recs.iter().rposition(|r| r.end as u64 <= *p).map(|ri| (fi, ri)),
            _ => None,
        };
        for s in &sent {
            if let Some(r) = s.rec {
                done = done.max(Some(r))
            }
            // A heartbeat behind transactions that were left out.
            if let Ok((h, Ev::Heartbeat(_))) = &s.item {
                done = done.max(log.files[s.file].recs.iter().rposition(|r| r.end <= h.next).map(|ri| (s.file, ri)))
            }
        }
        let mut c2 = BinlogClient::new(options(&cfg, BinlogOptions::from_position(name.clone(), pos), false));
        let g2 = run(&mut c2, 100_000);
        let w2 = || format!("{}, {} events committed, resumed from {}:{}", what(), n, name, pos);
        if let Some(e) = g2.open {
            return viol(format!("{}: replication fails: {}", w2(), e));
        }
        if let Some(Err(e)) = g2.items.iter().find(|i| i.is_err()) {
            return viol(format!("{}: {}", w2(), e));
        }
        let again: Vec<Sent> = server(|s| s.sess[1].stream.clone());
        let want: Vec<Item> = again.iter().map(|s| s.item.clone()).collect();
        msg(compare(&g2.items, &want), w2)?;
        let got: BTreeSet<(usize, usize)> = again.iter().filter_map(|s| s.rec).collect();
        // Every event behind the last committed one is sent.
        if let Some(d) = done {
            for (fi, f) in log.files.iter().enumerate() {
                for ri in 0..f.recs.len() {
                    if (fi, ri) > d && due.contains(&(fi, ri)) && !got.contains(&(fi, ri)) {
                        return viol(format!("{}: the event at {}:{} is never sent", w2(), f.name, f.recs[ri].pos));
                    }
                }
            }
        }
    }
    let mut net = crate::env::net_end();
    ch.outcome(&t.map(|t| t.pos));
    msg(clean(&mut net), what)
}
fn c18() -> Vec<Group> {
    vec![
        group("prefixes", "every sequence of 3 transactions of every kind, over every pattern of rotations; the position after every commit", |ch| {
            let h = draw(ch, by_tier(2, 3), 14, &ONE, &TURN);
            let (o, d) = position_start(ch, &h);
            let b = ch.flag();
            c18_run(ch, h, o, d, b, false)
        }),
        group("resuming", "every pair of kinds over every pattern of rotations, resumed behind every number of commits", |ch| {
            let mut h = draw(ch, 2, 14, &ONE, by_tier(&TURN[..3], &TURN));
            h.crc = ch.flag();
            let (o, d) = position_start(ch, &h);
            c18_run(ch, h, o, d, false, true)
        }),
        group("resuming in longer histories", "every triple of the main kinds over two files, resumed behind every number of commits", |ch| {
            let h = draw(ch, 3, by_tier(4, 9), &MIX[1..2], &TURN[1..2]);
            let k = ch.choose(2);
            let o = if k == 0 { BinlogOptions::from_start() } else { gtid_after(&h, 1) };
            c18_run(ch, h, o, if k == 0 { "the start".into() } else { "GTID".into() }, false, true)
        }),
        group("file names", "every pair of the main kinds over every pattern of new files whose names are of other bases, lengths and characters, in falling order, or run past six digits", |ch| {
            let mut h = draw(ch, 2, 4, &ONE, &TURN[1..]);
            h.names = ch.range(1, 3) as usize;
            let (o, d) = position_start(ch, &h);
            c18_run(ch, h, o, d, false, true)
        }),
        group("far in a file", "every pair of the main kinds over every pattern of new files that lie beyond 64 KiB, 16 MiB, 2 GiB and up to 4 GiB, or across these", |ch| {
            let mut h = draw(ch, 2, 4, &ONE, by_tier(&TURN[..3], &TURN));
            h.gap = ch.of(&GAPS);
            let (o, d) = position_start(ch, &h);
            c18_run(ch, h, o, d, false, true)
        }),
        group("without GTID", "every pair of kinds as servers without GTID log them", |ch| {
            let mut h = draw(ch, 2, 14, &ONE, &TURN);
            h.anonymous = true;
            let (o, d) = position_start(ch, &h);
            c18_run(ch, h, o, d, false, true)
        }),
        group("statements", "every sequence of up to 5 (thorough: 6) table maps, rows events with and without the end of the statement, and other events, within a transaction", |ch| {
            let flavor = ch.of(&[Flavor::MySql, Flavor::Maria]);
            let n = ch.range(1, by_tier(5, 6)) as usize;
            let version = if flavor == Flavor::MySql { 2 } else { 1 };
            // NO_FOREIGN_KEY_CHECKS and RELAXED_UNIQUE_CHECKS are the session's, COMPLETE_ROWS the rows';
            // only bit 0 says where a statement ends.
            let rest = ch.of(&[0u16, 2, 4, 8, 14, 0xfffe]);
            let ids = ch.of(&[100u64, 0xff_fffe]);
            const ROWS: [Kind; 3] = [Kind::Write, Kind::Update, Kind::Delete];
            let mut h = Hist { flavor, crc: true, txs: vec![], anonymous: false, extra: 0, names: 0, gap: 0 };
            let mut ev = vec![];
            // Statements: maps, then rows of the mapped tables, the last one ending the statement.
            let mut mapped: Vec<u64> = vec![];
            let mut rows = false;
            for i in 0..n {
                let last = i + 1 == n;
                let a = ch.choose(4);
                match a {
                    0 if !last && !rows && mapped.len() < 2 => {
                        let id = ids + mapped.len() as u64;
                        mapped.push(id);
                        ev.push(super::common::p_small_table(id, ch.flag()))
                    }
                    1 if !mapped.is_empty() && !last => {
                        let id = *mapped.last().unwrap();
                        rows = true;
                        let mut l = super::common::small_rows(ch.of(&ROWS), version, id);
                        l.flags = rest;
                        ev.push(p_rows(&l))
                    }
                    2 if !mapped.is_empty() => {
                        let mut l = super::common::small_rows(ch.of(&ROWS), version, mapped[0]);
                        l.flags = 1 | rest;
                        ev.push(p_rows(&l));
                        mapped.clear();
                        rows = false
                    }
                    3 if mapped.is_empty() => ev.push(p_rowsquery("UPDATE orders SET id = 2")),
                    _ => return Ok(()),
                }
            }
            if !mapped.is_empty() {
                return Ok(());
            }
            if flavor == Flavor::Maria {
                for e in ev.iter_mut() {
                    if e.typ == p_rowsquery("").typ {
                        *e = p_annotate("UPDATE orders SET id = 2")
                    }
                }
            }
            h.txs = vec![(TxKind::Rows, 0, Turn::No)];
            let cfg = h.cfg();
            let mut log = h.build();
            let id = if flavor == Flavor::MySql { TxId::My(SRC[0], 2) } else { TxId::Maria(0, 1, 2) };
            let mut events = tx_events(flavor, TxKind::Rows, Some(id), 2);
            let at = events.len() - 3;
            events.splice(at..at + 2, ev.clone());
            log.tx(Some(id), &events);
            let total = log.files[0].recs.len() + 2;
            let k = 1 + ch.choose(total);
            let what = format!("{:?}, flags {:#x}, tables {:#x}: {:?}", flavor, rest, ids, events.iter().map(|e| e.typ).collect::<Vec<_>>());
            ch.distinct(&(&what, k));
            ch.sample(|| what.clone());
            crate::env::net_start(crate::env::Net::new(Box::new(Server::new(cfg.clone(), log)), NetPlan::default()));
            let mut c = BinlogClient::new(options(&cfg, BinlogOptions::from_start(), false));
            let mut t = Track::of(&c);
            let mut bad = None;
            let g = take(&mut c, k, |c, i, hd, e| {
                c.commit(hd, e);
                info(0, i, |log, s| t.commit(log, s));
                if opt_pos(c) != t.pos && !(t.open && t.safe(&opt_pos(c))) {
                    bad = Some(format!("after {} commits the position is {:?} instead of {:?}", i + 1, opt_pos(c), t.pos));
                    return false;
                }
                true
            });
            ch.step(g.items.len() as u64);
            ch.state(&(&t.pos, t.open));
            if let Some(b) = bad {
                return viol(format!("{}: {}", what, b));
            }
            let (name, pos) = opt_pos(&c);
            let mut c2 = BinlogClient::new(options(&cfg, BinlogOptions::from_position(name, pos), false));
            let g2 = run(&mut c2, 1000);
            let w2 = || format!("{}, resumed after {} commits from {:?}", what, g.items.len(), opt_pos(&c));
            ensure!(g2.open.is_none(), "{}: {:?}", w2(), g2.open);
            if let Some(Err(e)) = g2.items.iter().find(|i| i.is_err()) {
                return viol(format!("{}: {}", w2(), e));
            }
            crate::env::net_end();
            Ok(())
        }),
        group("growing log", "a blocking stream with heartbeats between bursts: positions of heartbeats, rotations while connected", |ch| {
            let flavor = ch.of(&[Flavor::MySql, Flavor::Maria]);
            let ks = kinds(flavor);
            let k1 = ch.of(ks);
            let k2 = ch.of(ks);
            let beats = ch.choose(3);
            let r = ch.of(&[Turn::No, Turn::Rotate, Turn::Crash, Turn::Stop]);
            let h = Hist { flavor, crc: true, txs: vec![(k1, 0, Turn::No), (k2, 0, r)], anonymous: false, extra: 0, names: 0, gap: 0 };
            let total = h.build().files.iter().map(|f| f.recs.len()).sum::<usize>() + 3;
            let cfg = h.cfg();
            let what = || format!("{} with {} heartbeats", h.text(), beats);
            ch.distinct(&(&h, beats));
            crate::env::net_start(crate::env::Net::new(Box::new(h.server()), NetPlan::default()));
            let mut c = BinlogClient::new(options(&cfg, BinlogOptions::from_start(), true));
            let mut t = Track::of(&c);
            let mut bad = None;
            let g = take(&mut c, total + beats, |c, i, hd, e| {
                c.commit(hd, e);
                info(0, i, |log, s| t.commit(log, s));
                if opt_pos(c) != t.pos && !(t.open && t.safe(&opt_pos(c))) {
                    bad = Some(format!("after {} commits the position is {:?} instead of {:?}", i + 1, opt_pos(c), t.pos));
                    return false;
                }
                true
            });
            ch.step(g.items.len() as u64);
            ch.state(&t);
            if let Some(b) = bad {
                return viol(format!("{}: {}", what(), b));
            }
            let mut net = crate::env::net_end();
            msg(clean(&mut net), what)
        }),
    ]
}

// ---------------------------------------------------------------- C19

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Mode {
    First,
    End,
    Position,
    Gtid,
    GtidMiddle,
}
/// A client as the application builds it after a restart: from the printed position.
fn reborn(c: &BinlogClient, cfg: &Cfg, mode: Mode) -> Result<BinlogClient, Viol> {
    let b = &c.options.binlog;
    let o = match mode {
        Mode::Gtid | Mode::GtidMiddle => match (&b.gtid_set, &b.gtid_list) {
            (Some(s), _) => BinlogOptions::from_mysql_gtid(match GtidSet::parse(&s.to_string()) {
                Ok(s) => s,
                Err(e) => return viol(format!("the printed position {:?} cannot be parsed: {:?}", s.to_string(), e)),
            }),
            (_, Some(l)) => BinlogOptions::from_mariadb_gtid(match GtidList::parse(&l.to_string()) {
                Ok(l) => l,
                Err(e) => return viol(format!("the printed position {:?} cannot be parsed: {:?}", l.to_string(), e)),
            }),
            _ => return viol("the GTID position is gone"),
        },
        _ if b.filename.is_empty() => match mode {
            Mode::End => BinlogOptions::from_end(),
            _ => BinlogOptions::from_start(),
        },
        _ => BinlogOptions::from_position(b.filename.clone(), b.position),
    };
    Ok(BinlogClient::new(options(cfg, o, false)))
}
/// How one connection fails.
#[derive(Clone, Debug, Hash)]
enum Fault {
    /// The application stops after receiving so many events.
    Stop(usize),
    /// The connection ends behind so many bytes of the server.
    Byte(u64, Cut),
    /// The connection ends instead of the n-th packet.
    Packet(usize),
}
struct Story {
    h: Hist,
    mode: Mode,
    faults: Vec<(Fault, bool, bool)>,
}
fn c19_run(ch: &mut Ch, st: &Story) -> Res {
    let what = || format!("{}, {:?}, faults {:?} (fault, last event uncommitted, new client)", st.h.text(), st.mode, st.faults);
    ch.sample(what);
    ch.distinct(&(&st.h, st.mode, &st.faults));
    let cfg = st.h.cfg();
    let full = st.h.build();
    let start = match st.mode {
        Mode::First => BinlogOptions::from_start(),
        Mode::End => BinlogOptions::from_end(),
        Mode::Position => {
            let t = &full.txs[0];
            BinlogOptions::from_position(full.files[t.file].name.clone(), full.files[t.file].recs[t.last].end)
        }
        Mode::Gtid => gtid_after(&st.h, 0),
        Mode::GtidMiddle => gtid_after(&st.h, 1),
    };
    let gtid = matches!(st.mode, Mode::Gtid | Mode::GtidMiddle);
    // From the end: everything is logged behind the first connection, which learns the position.
    let mut s = st.h.server();
    if st.mode == Mode::End {
        let mut short = st.h.clone();
        short.txs.truncate(1);
        s.log = short.build();
    }
    crate::env::net_start(crate::env::Net::new(Box::new(s), NetPlan::default()));
    let mut c = BinlogClient::new(options(&cfg, start, false));
    let mut received: Vec<Vec<usize>> = vec![];
    let mut committed: BTreeSet<usize> = BTreeSet::new();
    // First event due, by position.
    let mut first_due: Option<(usize, u32)> = match st.mode {
        Mode::First => Some((0, 4)),
        Mode::Position => Some((full.txs[0].file, full.files[full.txs[0].file].recs[full.txs[0].last].end)),
        _ => None,
    };
    for (round, f) in st.faults.iter().map(Some).chain([None]).enumerate() {
        let conn = conns();
        let (limit, lag) = match f {
            Some((Fault::Stop(k), lag, _)) => (*k, *lag),
            Some((Fault::Byte(n, how), lag, _)) => {
                let (n, how) = (*n, *how);
                crate::env::net(|x| x.plan.cut = Some((conn, n, how)));
                (usize::MAX, *lag)
            }
            Some((Fault::Packet(n), lag, _)) => {
                let n = *n;
                server(|s| s.tamper = Some(Box::new(move |_, i, _, _, _| if i == n { Act::HaltClose(None) } else { Act::Pass })));
                (usize::MAX, *lag)
            }
            None => {
                crate::env::net(|x| x.plan.cut = None);
                server(|s| s.tamper = None);
                (usize::MAX, false)
            }
        };
        // Commits trail delivery by one if the last event stays uncommitted.
        let mut idx = vec![];
        let mut done: Vec<usize> = vec![];
        let mut g = Got::default();
        let begun = c.replicate();
        if st.mode == Mode::End && first_due.is_none() && !c.options.binlog.filename.is_empty() {
            // The position is known from here on.
            first_due = server(|s| Some((s.log.files.len() - 1, s.log.files.last().unwrap().end)));
        }
        match begun {
            Err(e) => g.open = Some(err_text(&e)),
            Ok(mut events) => {
                let mut held = None;
                let mut n = 0;
                let mut commit = |c: &mut BinlogClient, i: usize, h: &mysql_cdc::events::event_header::EventHeader, e: &mysql_cdc::events::binlog_event::BinlogEvent| {
                    c.commit(h, e);
                    server(|s| {
                        let x = &s.sess[conn].stream[i];
                        if let (Some(t), Some((fi, ri))) = (x.tx, x.rec) {
                            if s.log.txs[t].file == fi && s.log.txs[t].last == ri {
                                done.push(t)
                            }
                        }
                    });
                };
                loop {
                    if n >= limit {
                        break;
                    }
                    match events.next() {
                        None => {
                            g.ended = true;
                            break;
                        }
                        Some(Ok((h, e))) => {
                            let r = Ok((h, e));
                            g.items.push(item(&r));
                            let Ok((h, e)) = r else { unreachable!() };
                            idx.push(n);
                            if let Some((i, hh, ee)) = held.take() {
                                commit(&mut c, i, &hh, &ee);
                            }
                            if lag {
                                held = Some((n, h, e));
                            } else {
                                commit(&mut c, n, &h, &e);
                            }
                            n += 1;
                        }
                        Some(Err(e)) => {
                            // The connection is gone; anything else would be a violation below.
                            g.items.push(Err(err_text(&e)));
                            break;
                        }
                    }
                }
            }
        }
        let faulty_net = matches!(f, Some((Fault::Byte(..) | Fault::Packet(_), _, _)));
        if let Some(e) = &g.open {
            if !faulty_net {
                return viol(format!("{}: connection {} fails: {}", what(), round, e));
            }
        }
        // What was delivered is what was sent.
        let streamed: Vec<Item> = server(|s| s.sess.get(conn).map_or(vec![], |x| x.stream.iter().map(|y| y.item.clone()).collect()));
        for (i, it) in g.items.iter().enumerate() {
            match (it, streamed.get(i)) {
                (Ok(_), Some(w)) => msg(compare(std::slice::from_ref(it), std::slice::from_ref(w)), || format!("{}, connection {}, event {}", what(), round, i))?,
                (Ok(_), None) => return viol(format!("{}: connection {} delivers {} although nothing was sent", what(), round, show(it))),
                (Err(e), _) if faulty_net && i + 1 == g.items.len() => {
                    let _ = e;
                }
                (Err(e), _) => return viol(format!("{}: connection {}, event {}: {}", what(), round, i, e)),
            }
        }
        ensure!(f.is_some() || g.ended, "{}: the last stream does not end", what());
        // Nothing completely committed before is delivered again.
        if gtid {
            let twice: Vec<usize> = server(|s| idx.iter().filter_map(|i| s.sess[conn].stream[*i].tx).filter(|t| committed.contains(t)).collect());
            if let Some(t) = twice.first() {
                return viol(format!("{}: transaction {} was committed before connection {} and is delivered again", what(), t, round));
            }
        }
        committed.extend(done);
        ch.step(1 + idx.len() as u64);
        ch.state(&(opt_pos(&c), opt_sets(&c), opt_list(&c)));
        while received.len() < conn {
            received.push(vec![])
        }
        received.push(idx);
        if st.mode == Mode::End && round == 0 {
            // The rest is logged now.
            server(|s| s.log = full.clone());
        }
        if let Some((_, _, true)) = f {
            c = reborn(&c, &cfg, st.mode)?;
        }
    }
    ch.evals(1);
    let mut net = crate::env::net_end();
    let s = net.peer::<Server>();
    // What the application received, by record.
    let mut recs: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut whole: BTreeSet<usize> = BTreeSet::new();
    for (k, idx) in received.iter().enumerate() {
        let mut run: Option<(usize, usize)> = None;
        for i in idx {
            let x = &s.sess[k].stream[*i];
            if let Some(r) = x.rec {
                recs.insert(r);
                if let Some(t) = x.tx {
                    let tx = &s.log.txs[t];
                    run = match run {
                        _ if r.1 == tx.first => Some((t, r.1)),
                        Some((u, p)) if u == t && p + 1 == r.1 => Some((t, r.1)),
                        _ => None,
                    };
                    if run == Some((t, tx.last)) {
                        whole.insert(t);
                    }
                } else {
                    run = None
                }
            }
        }
    }
    for (i, t) in s.log.txs.iter().enumerate() {
        if gtid {
            let skipped = st.mode == Mode::GtidMiddle && i == 0;
            ensure!(skipped || whole.contains(&i), "{}: transaction {} was never delivered as a whole", what(), i);
        } else {
            let Some((ff, fp)) = first_due else { continue };
            for ri in t.first..=t.last {
                if (t.file, s.log.files[t.file].recs[ri].pos) >= (ff, fp) {
                    ensure!(recs.contains(&(t.file, ri)), "{}: event {} of transaction {} was never delivered", what(), ri - t.first, i);
                }
            }
        }
    }
    ch.outcome(&received.iter().map(|r| r.len()).collect::<Vec<_>>());
    msg(clean_cut(&mut net), what)
}
/// Like `clean`; a connection that was cut may have left a packet unfinished.
fn clean_cut(net: &mut crate::env::Net) -> Result<(), String> {
    if let Some(v) = &net.verdict {
        return Err(v.clone());
    }
    match net.peer::<Server>().complaints().first() {
        Some(c) => Err(format!("the server complains: {}", c)),
        None => Ok(()),
    }
}
const MODES: [Mode; 5] = [Mode::Gtid, Mode::First, Mode::GtidMiddle, Mode::Position, Mode::End];
fn story(ch: &mut Ch, h: Hist, mode: Mode, faults: usize) -> Story {
    let total = h.build().files.iter().map(|f| f.recs.len() + 1).sum::<usize>() + 2;
    let faults = (0..faults)
        .map(|i| {
            let k = ch.choose(total);
            let lag = ch.flag();
            (Fault::Stop(k), lag, if i > 0 && !thorough() { lag } else { ch.flag() })
        })
        .collect();
    Story { h, mode, faults }
}
fn c19() -> Vec<Group> {
    vec![
        group("every disconnect", "every pair of kinds, every strategy, a disconnect after every event, its commit done or not, with the same and a new client", |ch| {
            let h = draw(ch, 2, 14, by_tier(&MIX[1..2], &MIX), by_tier(&TURN[..3], &TURN));
            let m = ch.of(&MODES);
            let s = story(ch, h, m, 1);
            c19_run(ch, &s)
        }),
        group("longer histories", "every triple of the main kinds over two files and two sources", |ch| {
            let h = draw(ch, 3, by_tier(4, 9), &MIX[1..2], &TURN[1..2]);
            let m = ch.of(&MODES[..by_tier(2, 5)]);
            let s = story(ch, h, m, 1);
            c19_run(ch, &s)
        }),
        group("file names", "every pair of the main kinds over files of all kinds of names, a disconnect after every event", |ch| {
            let mut h = draw(ch, 2, 4, &MIX[1..2], &TURN[1..]);
            h.names = ch.range(1, 3) as usize;
            let m = ch.of(&MODES);
            let s = story(ch, h, m, 1);
            c19_run(ch, &s)
        }),
        group("far in a file", "every pair of the main kinds in files that lie beyond 64 KiB, 16 MiB, 2 GiB and up to 4 GiB, or across these, a disconnect after every event", |ch| {
            let mut h = draw(ch, 2, by_tier(2, 4), &MIX[1..2], by_tier(&TURN[..2], &TURN));
            h.gap = ch.of(&GAPS);
            let m = ch.of(&MODES);
            let s = story(ch, h, m, 1);
            c19_run(ch, &s)
        }),
        group("two disconnects", "every pair of the main kinds, every two disconnects", |ch| {
            let h = draw(ch, 2, by_tier(3, 7), &MIX[1..2], &TURN[1..2]);
            let m = ch.of(&MODES[..2]);
            let s = story(ch, h, m, 2);
            c19_run(ch, &s)
        }),
        group("every byte", "the connection ends behind every byte the server sends from the dump request on (quick: every 5th), by end of file, reset or silence", |ch| {
            let flavor = ch.of(&[Flavor::MySql, Flavor::Maria]);
            let h = Hist { flavor, crc: true, txs: vec![(TxKind::Multi, 0, Turn::No), (TxKind::Statement, 1, Turn::Rotate)], anonymous: false, extra: 0, names: 0, gap: 0 };
            let m = ch.of(&MODES[..2]);
            // What an undisturbed run receives.
            let (_, mut net) = with_server(h.server(), NetPlan::default(), || {
                let cfg = h.cfg();
                let o = if m == Mode::Gtid { gtid_after(&h, 0) } else { BinlogOptions::from_start() };
                run(&mut BinlogClient::new(options(&cfg, o, false)), 1000)
            });
            let len = net.conns[0].received;
            let _ = net.peer::<Server>();
            let step = by_tier(5, 1);
            let at = ch.choose((len as usize + step - 1) / step) * step;
            let how = ch.of(&[Cut::Close, Cut::Reset, Cut::Silent]);
            let lag = ch.flag();
            let new = ch.flag();
            let s = Story { h, mode: m, faults: vec![(Fault::Byte(at as u64, how), lag, new)] };
            c19_run(ch, &s)
        }),
        group("every step", "the connection ends instead of every packet of the server, login and set-up included, twice", |ch| {
            let flavor = ch.of(&[Flavor::MySql, Flavor::Maria]);
            let h = Hist { flavor, crc: true, txs: vec![(TxKind::Rows, 0, Turn::No), (TxKind::Ddl, 1, Turn::Rotate), (TxKind::Two, 0, Turn::No)], anonymous: false, extra: 0, names: 0, gap: 0 };
            let m = ch.of(&MODES);
            let n = if m == Mode::End { 16 } else { 44 };
            let a = ch.choose(n);
            let b = ch.choose(n);
            let new = ch.flag();
            let s = Story { h, mode: m, faults: vec![(Fault::Packet(a), false, new), (Fault::Packet(b), true, !new)] };
            c19_run(ch, &s)
        }),
    ]
}
