//! Shared by the checks that drive the real client against the model server.
use crate::env::{self, Net, NetPlan};
use crate::explore::*;
use crate::obs::*;
use crate::server::*;
use crate::wire::*;
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::errors::Error;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::events::event_header::EventHeader;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use mysql_cdc::replica_options::ReplicaOptions;
use std::time::Duration;

pub const HB: Duration = Duration::from_secs(30);
/// How much longer than the heartbeat interval a read may wait.
pub const SLACK: Duration = Duration::from_secs(30);

/// A value of ours from parsing with the code under test; checked elsewhere (C15, C16).
pub fn my_set(s: &Sets) -> GtidSet {
    GtidSet::parse(&sets_text(s)).expect("a GTID set")
}
pub fn ma_list(l: &[(u32, u32, u64)]) -> GtidList {
    GtidList::parse(&list_text(l)).expect("a GTID list")
}
pub fn options(cfg: &Cfg, binlog: BinlogOptions, blocking: bool) -> ReplicaOptions {
    ReplicaOptions {
        hostname: cfg.host.clone(),
        port: cfg.port,
        username: cfg.user.clone(),
        password: cfg.password.clone(),
        blocking,
        heartbeat_interval: HB,
        binlog,
        ..Default::default()
    }
}
pub fn opt_sets(c: &BinlogClient) -> Option<Sets> {
    c.options.binlog.gtid_set.as_ref().map(|g| {
        let mut s = sets(g);
        s.retain(|_, v| !v.is_empty());
        s
    })
}
pub fn opt_list(c: &BinlogClient) -> Option<Vec<(u32, u32, u64)>> {
    c.options.binlog.gtid_list.as_ref().map(|l| {
        let mut v: Vec<_> = l.gtids.iter().map(|g| (g.domain_id, g.server_id, g.sequence)).collect();
        v.sort();
        v
    })
}
pub fn opt_pos(c: &BinlogClient) -> (String, u32) {
    (c.options.binlog.filename.clone(), c.options.binlog.position)
}

/// Runs `f` inside a network environment with this server.
pub fn with_server<T>(server: Server, plan: NetPlan, f: impl FnOnce() -> T) -> (T, Box<Net>) {
    env::net_start(Net::new(Box::new(server), plan));
    let r = f();
    (r, env::net_end())
}
/// Looks at the server between calls of the code under test.
pub fn server<T>(f: impl FnOnce(&mut Server) -> T) -> T {
    env::net(|n| f(n.peer::<Server>()))
}

#[derive(Debug, Default)]
pub struct Got {
    /// The error of `replicate`.
    pub open: Option<String>,
    pub items: Vec<Item>,
    pub ended: bool,
}
/// Starts replication and takes up to `max` items, handing every event to `each`; stops when it says so.
pub fn take(client: &mut BinlogClient, max: usize, mut each: impl FnMut(&mut BinlogClient, usize, &EventHeader, &BinlogEvent) -> bool) -> Got {
    let mut g = Got::default();
    let mut events = match client.replicate() {
        Err(e) => {
            g.open = Some(err(&e));
            return g;
        }
        Ok(e) => e,
    };
    while g.items.len() < max {
        match events.next() {
            None => {
                g.ended = true;
                break;
            }
            Some(r) => {
                g.items.push(item(&r));
                if let Ok((h, e)) = &r {
                    if !each(client, g.items.len() - 1, h, e) {
                        break;
                    }
                }
            }
        }
    }
    g
}
pub fn run(client: &mut BinlogClient, max: usize) -> Got {
    take(client, max, |_, _, _, _| true)
}
pub fn run_commit(client: &mut BinlogClient, max: usize) -> Got {
    take(client, max, |c, _, h, e| {
        c.commit(h, e);
        true
    })
}
/// The client broke no rule of the protocol.
pub fn clean(net: &mut Net) -> Result<(), String> {
    if let Some(v) = &net.verdict {
        return Err(v.clone());
    }
    let s = net.peer::<Server>();
    if let Some(c) = s.complaints().first() {
        return Err(format!("the server complains: {}", c));
    }
    for (i, x) in s.sess.iter().enumerate() {
        if x.partial() > 0 {
            return Err(format!("an unfinished packet of {} bytes on connection {}", x.partial(), i));
        }
    }
    Ok(())
}
/// Everything streamed on connection `c`, as items.
pub fn streamed(net: &mut Net, c: usize) -> Vec<Item> {
    net.peer::<Server>().sess[c].stream.iter().map(|s| s.item.clone()).collect()
}
/// A clean run that delivers exactly what the server streamed on connection 0 and ends with it.
pub fn faithful(g: &Got, net: &mut Net) -> Result<(), String> {
    if let Some(e) = &g.open {
        return Err(format!("replication fails: {}", e));
    }
    clean(net)?;
    compare(&g.items, &streamed(net, 0))?;
    if !g.ended {
        return Err("the stream does not end".into());
    }
    Ok(())
}
pub fn msg(r: Result<(), String>, what: impl FnOnce() -> String) -> Res {
    r.map_err(|e| Viol { key: None, msg: format!("{}: {}", what(), e) })
}
pub fn err_text(e: &Error) -> String {
    err(e)
}

// ---------------------------------------------------------------- histories

pub const SRC: [[u8; 16]; 3] = [super::common::SID, super::common::SID2, [0x11; 16]];

/// One kind of transaction as a server logs it.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum TxKind {
    /// BEGIN, table map, rows, commit record.
    Rows,
    /// Two tables mapped by one statement, rows events without end-of-statement, then the last one.
    Multi,
    /// Two statements in one transaction.
    Two,
    /// A statement-based change with its variables.
    Statement,
    /// A non-transactional change: ends with a COMMIT query.
    Myisam,
    /// Rolled back, yet logged.
    Rollback,
    /// Savepoints inside.
    Savepoint,
    /// A lone statement.
    Ddl,
    /// CREATE TABLE ... SELECT of MySQL 8.
    CreateSelect,
    XaPrepare,
    XaCommit,
    XaRollback,
    /// Nothing inside.
    Empty,
    /// One row, commented statement before.
    Annotated,
    /// A lone statement of `LONE`.
    Lone(u8),
    /// A statement of `WITHIN` inside a transaction, before and behind a changed row.
    Within(u8),
}
/// Statements that are transactions on their own; some look like the ends or beginnings of one.
pub const LONE: [&str; 21] = [
    "CREATE TABLE t (a INT)",
    "CREATE TABLE `t` LIKE `s`",
    "CREATE TABLE t (a INT COMMENT ' START TRANSACTION')",
    "CREATE VIEW v AS SELECT 1 AS ` START TRANSACTION",
    "create table t (a int) start transaction",
    "CREATE TEMPORARY TABLE x (a INT)",
    "CREATE OR REPLACE TABLE t (a INT)",
    "DROP TABLE `t` /* generated by server */",
    "DROP TABLE `BEGIN`",
    "DROP TABLE COMMIT",
    "ALTER TABLE t COMMENT 'BEGIN'",
    "TRUNCATE t",
    "RENAME TABLE BEGIN TO COMMIT",
    "CREATE DATABASE d",
    "GRANT SELECT ON *.* TO 'u'@'%'",
    "FLUSH TABLES",
    "ANALYZE TABLE t",
    "CREATE PROCEDURE p() BEGIN COMMIT; END",
    "CREATE TRIGGER g BEFORE INSERT ON t FOR EACH ROW BEGIN END",
    "CREATE EVENT e ON SCHEDULE EVERY 1 DAY DO ROLLBACK",
    "/* BEGIN */ CREATE INDEX i ON t (a)",
];
/// Statements inside a transaction that do not end it.
pub const WITHIN: [&str; 13] = [
    "INSERT INTO t VALUES ('BEGIN')",
    "UPDATE t SET a = 'COMMIT'",
    "DELETE FROM `ROLLBACK`",
    "SAVEPOINT `COMMIT`",
    "SAVEPOINT `x`",
    "ROLLBACK TO `x`",
    "ROLLBACK TO SAVEPOINT COMMIT",
    "RELEASE SAVEPOINT COMMIT",
    "INSERT INTO t SELECT 1 AS ` START TRANSACTION",
    "CREATE TEMPORARY TABLE x (a INT)",
    "DROP TEMPORARY TABLE IF EXISTS `x`",
    "REPLACE INTO t VALUES (1)",
    "LOAD DATA INFILE 'x' INTO TABLE t",
];
pub const MY_KINDS: [TxKind; 14] = [
    TxKind::Rows,
    TxKind::Ddl,
    TxKind::Multi,
    TxKind::Statement,
    TxKind::Myisam,
    TxKind::Rollback,
    TxKind::Savepoint,
    TxKind::Two,
    TxKind::XaPrepare,
    TxKind::XaCommit,
    TxKind::CreateSelect,
    TxKind::Empty,
    TxKind::Annotated,
    TxKind::XaRollback,
];
pub const MA_KINDS: [TxKind; 13] = [
    TxKind::Rows,
    TxKind::Ddl,
    TxKind::Multi,
    TxKind::Statement,
    TxKind::Myisam,
    TxKind::Rollback,
    TxKind::Savepoint,
    TxKind::Two,
    TxKind::XaPrepare,
    TxKind::XaCommit,
    TxKind::CreateSelect,
    TxKind::Annotated,
    TxKind::XaRollback,
];
fn rows_flags(version: u8, kind: Kind, id: u64, end: bool) -> Proto {
    let mut l = super::common::small_rows(kind, version, id);
    l.flags = end as u16;
    p_rows(&l)
}
/// The events of one transaction. `n` makes the content distinct; without an id there is no GTID event.
pub fn tx_events(flavor: Flavor, kind: TxKind, id: Option<TxId>, n: usize) -> Vec<Proto> {
    let my = flavor == Flavor::MySql;
    let ver = if my { 2 } else { 1 };
    let mut v = vec![];
    let standalone = matches!(kind, TxKind::Ddl | TxKind::XaCommit | TxKind::XaRollback | TxKind::Lone(_));
    match id {
        Some(TxId::My(sid, no)) => v.push(p_mygtid(if kind == TxKind::Rows { 0 } else { 1 }, sid, no)),
        Some(TxId::Maria(d, s, q)) => {
            // FL_STANDALONE 1, FL_GROUP_COMMIT_ID 2, FL_TRANSACTIONAL 4, FL_DDL 32, FL_PREPARED_XA 64, FL_COMPLETED_XA 128.
            let flags = match kind {
                TxKind::Ddl | TxKind::Lone(_) => 1 | 32,
                TxKind::XaPrepare => 4 | 64,
                TxKind::XaCommit | TxKind::XaRollback => 1 | 128,
                TxKind::Rows => 4 | 2,
                TxKind::Myisam => 0,
                _ => 4,
            };
            let mut p = p_magtid(d, s, q, flags);
            if flags & (64 | 128) != 0 {
                // The XID: format id, lengths of its parts, its bytes.
                p.body.truncate(13);
                p.body.extend_from_slice(&[1, 0, 0, 0, 1, 0, b'x']);
            }
            v.push(p)
        }
        None => {}
    }
    // MySQL 8 describes every table, older servers none; here every second one is.
    let table = |k: u64| super::common::p_small_table(100 + k, (k == 0) == my);
    let one = |v: &mut Vec<Proto>, k: Kind| {
        v.push(table(0));
        v.push(rows_flags(ver, k, 100, true));
    };
    // MariaDB logs the beginning of a transaction as its GTID event only.
    let begins = id.is_none() || my;
    if begins && !standalone && !matches!(kind, TxKind::CreateSelect | TxKind::XaPrepare) {
        v.push(p_query("shop", "BEGIN"));
    }
    let xid = p_xid(9000 + n as u64);
    match kind {
        TxKind::Rows => {
            one(&mut v, Kind::Write);
            v.push(xid)
        }
        TxKind::Annotated => {
            v.push(if my { p_rowsquery("INSERT INTO orders") } else { p_annotate("INSERT INTO orders") });
            one(&mut v, Kind::Delete);
            v.push(xid)
        }
        TxKind::Multi => {
            v.push(table(0));
            v.push(table(1));
            v.push(rows_flags(ver, Kind::Update, 100, false));
            v.push(rows_flags(ver, Kind::Update, 101, false));
            v.push(rows_flags(ver, Kind::Delete, 100, true));
            v.push(xid)
        }
        TxKind::Two => {
            one(&mut v, Kind::Write);
            v.push(table(1));
            v.push(rows_flags(ver, Kind::Delete, 101, true));
            v.push(xid)
        }
        TxKind::Statement => {
            v.push(p_intvar(2, n as u64));
            v.push(p_uservar("v", Some(UVar { typ: 0, collation: 33, value: "x".into(), flags: 0 })));
            v.push(p_query("shop", "INSERT INTO t VALUES (@v)"));
            v.push(p_query("shop", "UPDATE t SET a = 1"));
            v.push(xid)
        }
        TxKind::Myisam => {
            one(&mut v, Kind::Write);
            v.push(p_query("shop", "COMMIT"))
        }
        TxKind::Rollback => {
            v.push(p_query("shop", "INSERT INTO t VALUES (1)"));
            v.push(p_query("shop", "ROLLBACK"))
        }
        TxKind::Savepoint => {
            v.push(p_query("shop", "SAVEPOINT `a`"));
            one(&mut v, Kind::Write);
            v.push(p_query("shop", "ROLLBACK TO `a`"));
            v.push(p_query("shop", "SAVEPOINT `b`"));
            v.push(xid)
        }
        TxKind::Ddl => v.push(p_query("shop", "ALTER TABLE t ADD c INT")),
        TxKind::Lone(i) => v.push(p_query("shop", LONE[i as usize])),
        TxKind::Within(i) => {
            let text = WITHIN[i as usize];
            v.push(p_query("shop", text));
            one(&mut v, Kind::Write);
            v.push(p_query("shop", text));
            if n % 2 == 0 {
                v.push(xid)
            } else {
                v.push(p_query("shop", "COMMIT"))
            }
        }
        TxKind::CreateSelect => {
            v.push(p_query("shop", if my { "CREATE TABLE `t` (\n  `a` int DEFAULT NULL\n) START TRANSACTION" } else { "CREATE TABLE `t` (`a` int)" }));
            one(&mut v, Kind::Write);
            v.push(xid)
        }
        TxKind::XaPrepare => {
            // MariaDB's GTID event tells it.
            if begins {
                v.push(p_query("shop", "XA START X'78',X'',1"));
            }
            one(&mut v, Kind::Write);
            v.push(p_query("shop", "XA END X'78',X'',1"));
            v.push(p_unknown(XA_PREPARE, &[0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, b'x']))
        }
        TxKind::XaCommit => v.push(p_query("shop", "XA COMMIT X'78',X'',1")),
        TxKind::XaRollback => v.push(p_query("shop", "XA ROLLBACK X'78',X'',1")),
        TxKind::Empty => v.push(p_query("shop", "COMMIT")),
    }
    v
}
