//! C12, C13, C14: table map tracking, non-row events, checksums.
use super::common::*;
use crate::env::FilePlan;
use crate::explore::*;
use crate::obs::*;
use crate::wire::*;
use crate::Check;
use std::collections::BTreeMap;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C12",
            level: "model_checking",
            rule: "States are the maps from table id to its current definition; transitions are table maps, row events, other events and rotations. Every history up to the depth bound is read by the real decoder, from a file and (depth permitting) from a stream; every row event is compared with the decoding under the model's current definition.",
            assumptions: &["after a rotation or a new format description the server maps every table again before using it, so row events of older maps are not generated there"],
            groups: || {
                let mut v = c12();
                v.extend(super::stream::c12());
                v
            },
        },
        Check {
            id: "C13",
            level: "exploration",
            rule: "A case is one non-row event with its field values; distinct by event bytes. Every field takes all its boundary values, alone and in pairs with the others; every unmodelled type code is included.",
            assumptions: &["the reference encoder lays out events as MySQL 5.0-8.0 and MariaDB 5.5-10.x do"],
            groups: c13,
        },
        Check {
            id: "C14",
            level: "model_checking",
            rule: "States are the checksum algorithm in force; transitions are format descriptions of every generation of servers, and events. Every sequence up to the depth bound is read by the real decoder, in a file and in a stream for every negotiated start.",
            assumptions: &["whoever declares an algorithm appends a checksum field to the format description event itself"],
            groups: || {
                let mut v = c14();
                v.extend(super::stream::c14());
                v
            },
        },
    ]
}
fn judge(ch: &mut Ch, f: &FileB, what: &dyn Fn() -> String) -> Res {
    ch.distinct(&f.bytes);
    check_file(&f.bytes, &f.want, FilePlan::default()).map_err(|e| Viol { key: None, msg: format!("{}: {}", what(), e) })
}

// ---------------------------------------------------------------- C12

pub const DEFS: usize = 7;
/// Definitions that decode the same bytes differently.
pub fn definition(id: u64, k: usize) -> Table {
    let mut t = match k {
        0 => Table::new(id, vec![long(), varchar(40)]),
        1 => Table::new(id, vec![varchar(40), long()]),
        // The same types as before, other metadata.
        2 => Table::new(id, vec![long(), varchar(400)]),
        3 => Table::new(id, vec![long(), varchar(400), tiny()]),
        4 => Table::new(id, vec![blob(1), col(9, &[])]),
        5 => Table::new(id, vec![blob(2), col(9, &[])]),
        _ => Table::new(id, vec![col(2, &[]), col(2, &[])]),
    };
    // A changed table keeps its name.
    t.name = format!("t{}", id % 1000);
    t
}
pub fn row_of(k: usize, id: u64, salt: usize, kind: Kind, version: u8) -> LRows {
    let s = format!("{}-{}", id % 100, salt);
    let cells: Vec<LCell> = match k {
        0 => vec![Some(c_long(salt as u32 * 7 + 1)), Some(c_varchar(40, &s))],
        1 => vec![Some(c_varchar(40, &s)), Some(c_long(salt as u32))],
        2 => vec![Some(c_long(salt as u32)), Some(c_varchar(400, &s))],
        3 => vec![Some(c_long(salt as u32)), Some(c_varchar(400, &s)), Some(c_tiny(salt as u8))],
        4 | 5 => vec![Some(c_blob(k as u8 - 3, s.as_bytes())), Some(cell(vec![1, 2, salt as u8], MVal::Medium(0x201 + ((salt as u32 & 255) << 16))))],
        _ => vec![Some(cell(vec![4, salt as u8], MVal::Small(4 + ((salt as u16 & 255) << 8)))), Some(cell(vec![1, 0], MVal::Small(1)))],
    };
    let l = LRows::new(kind, version, id, cells.len());
    match kind {
        Kind::Update => l.upd(cells.clone(), cells),
        _ => l.row(cells),
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Map(usize, usize),
    Rows(usize),
    Other(usize),
    Rotate,
    /// Another format description.
    Describe,
}
/// Events of a history; the maps of a reader last through rotations and format descriptions.
pub fn history(ops: &[Op], ids: &[u64], f: &mut FileB) {
    let mut cur: BTreeMap<usize, usize> = BTreeMap::new();
    let mut v = vec![];
    for (n, o) in ops.iter().enumerate() {
        match *o {
            Op::Map(i, k) => {
                cur.insert(i, k);
                v.push(p_table(&definition(ids[i], k)));
            }
            Op::Rows(i) => {
                let kind = [Kind::Write, Kind::Update, Kind::Delete][n % 3];
                let version = 1 + (n / 3 % 2) as u8;
                match cur.get(&i) {
                    Some(k) => v.push(p_rows(&row_of(*k, ids[i], n, kind, version))),
                    None => {
                        let mut p = p_rows(&row_of(n % DEFS, ids[i], n, kind, version));
                        p.ev = None;
                        v.push(p);
                    }
                }
            }
            Op::Other(k) => v.push(match k {
                0 => p_query("shop", "BEGIN"),
                1 => p_xid(n as u64),
                2 => p_rowsquery("INSERT"),
                3 => p_mygtid(1, SID, n as u64),
                4 => p_magtid(0, 1, n as u64, 1),
                5 => p_unknown(RAND, &[3; 16]),
                _ => p_heartbeat("f"),
            }),
            Op::Rotate => v.push(p_rotate(4, "mysql-bin.000002")),
            Op::Describe => v.push(p_fde("8.0.32", 41, Some(f.crc as u8))),
        }
    }
    for p in &v {
        let crc = f.crc || p.typ == FDE;
        f.put(p, crc)
    }
}
pub fn all_ops(ids: usize, defs: usize, others: usize) -> Vec<Op> {
    let mut v = vec![];
    for i in 0..ids {
        for k in 0..defs {
            v.push(Op::Map(i, k))
        }
    }
    for i in 0..ids {
        v.push(Op::Rows(i))
    }
    for k in 0..others {
        v.push(Op::Other(k))
    }
    v
}
fn run_history(ch: &mut Ch, ops: &[Op], ids: &[u64], crc: bool) -> Res {
    let mut f = FileB::start(crc);
    history(ops, ids, &mut f);
    let mut cur: BTreeMap<usize, usize> = BTreeMap::new();
    ch.state(&cur);
    for o in ops {
        if let Op::Map(i, k) = o {
            cur.insert(*i, *k);
        }
        ch.step(1);
        // The states of a very long history are not counted one by one: that would cost its length squared.
        if ops.len() <= 5000 {
            ch.state(&cur);
        }
    }
    judge(ch, &f, &|| format!("history {:?} on table ids {:?}", ops, ids))
}

fn c12() -> Vec<Group> {
    vec![
        group("histories", "every sequence of 5 (thorough: 7) operations over 2 table ids, 3 definitions, row events and other events", |ch| {
            let ops = all_ops(2, 3, 1);
            let n = by_tier(5, 6);
            let h: Vec<Op> = (0..n).map(|_| ch.of(&ops)).collect();
            ch.outcome(&h.iter().filter(|o| matches!(o, Op::Rows(_))).count());
            run_history(ch, &h, &[7, 8], n % 2 == 0)
        }),
        group("more tables", "every sequence of 4 (thorough: 5) operations over 3 table ids, 3 definitions, every kind of other event, rotations and format descriptions", |ch| {
            let mut ops = all_ops(3, 3, 7);
            ops.extend([Op::Rotate, Op::Describe]);
            let h: Vec<Op> = (0..by_tier(4, 5)).map(|_| ch.of(&ops)).collect();
            run_history(ch, &h, &[0, 1, 0x0000_ffff_ffff_ffff], true)
        }),
        group("multi-table statements", "every order of maps of three tables followed by every order of row events on them, twice with changed definitions", |ch| {
            let perms = [[0usize, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
            let (a, b) = (ch.of(&perms), ch.of(&perms));
            let defs: [usize; 3] = [ch.choose(DEFS), ch.choose(3), ch.choose(DEFS)];
            let (c, d) = (ch.of(&perms), ch.of(&perms));
            let mut h: Vec<Op> = a.iter().map(|i| Op::Map(*i, defs[*i])).collect();
            h.extend(b.iter().map(|i| Op::Rows(*i)));
            h.push(Op::Other(1));
            h.extend(c.iter().map(|i| Op::Map(*i, (defs[*i] + 1 + *i) % DEFS)));
            h.extend(d.iter().map(|i| Op::Rows(*i)));
            run_history(ch, &h, &[100, 101, 102], true)
        }),
        group("id width", "pairs of table ids that agree in their low or high bytes", |ch| {
            let ids = [0u64, 1, 0xff, 0x100, 0x101, 0xffff, 0x1_0000, 0x1_0001, 0xff_ffff, 0x100_0001, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 0x8000_0000_0000, 0x8000_0000_0001, 0xffff_ffff_fffe, 0xffff_ffff_ffff];
            let (a, b) = (ch.of(&ids), ch.of(&ids));
            if a == b {
                return Ok(());
            }
            for (x, y) in [(0, 1), (1, 0), (2, 3), (4, 0)] {
                ch.evals(3);
                run_history(ch, &[Op::Map(0, x), Op::Rows(1), Op::Rows(0)], &[a, b], false)?;
                run_history(ch, &[Op::Map(0, x), Op::Map(1, y), Op::Rows(0), Op::Rows(1), Op::Map(0, y), Op::Rows(0), Op::Rows(1)], &[a, b], false)?;
                run_history(ch, &[Op::Map(0, x), Op::Map(1, y), Op::Rows(1), Op::Map(1, x), Op::Rows(0), Op::Rows(1)], &[a, b], true)?;
            }
            Ok(())
        }),
        group("many tables", "up to 70000 tables mapped before, between and after row events on the oldest, the newest and every one of them", |ch| {
            let n = ch.of(by_tier(&[1usize, 2, 3, 10, 64, 65, 128, 200, 256, 257, 1000, 1025, 70000][..], &[1, 2, 3, 10, 64, 65, 127, 128, 129, 200, 255, 256, 257, 500, 512, 513, 1000, 1024, 1025, 2048, 5000, 20000, 70000][..]));
            let stride = ch.of(&[1u64, 2, 64, 256, 1 << 16, 1 << 24]);
            let order = ch.choose(5);
            if n > 1100 && (stride != 1 && !thorough() || n == 70000 && order > 1) {
                return Ok(());
            }
            let ids: Vec<u64> = (0..n as u64).map(|i| i * stride).collect();
            let mut h: Vec<Op> = (0..n).map(|i| Op::Map(i, i % DEFS)).collect();
            match order {
                0 => h.extend((0..n).map(Op::Rows)),
                1 => h.extend((0..n).rev().map(Op::Rows)),
                4 => {
                    h.extend((0..7).map(Op::Other));
                    h.extend([Op::Rotate, Op::Describe]);
                    h.extend((0..n).map(Op::Rows));
                }
                2 => {
                    h.extend((0..n).step_by(2).map(|i| Op::Map(i, (i + 1) % DEFS)));
                    h.extend((0..n).map(Op::Rows));
                }
                _ => {
                    let mut g = vec![];
                    for (i, m) in h.iter().enumerate() {
                        g.push(*m);
                        g.push(Op::Rows(i));
                        g.push(Op::Rows(0));
                        g.push(Op::Rows(i / 2));
                    }
                    h = g
                }
            }
            run_history(ch, &h, &ids, true)
        }),
        group("redefinitions", "every definition followed by every other of the same table, used before, between and after", |ch| {
            let (a, b, c) = (ch.choose(DEFS), ch.choose(DEFS), ch.choose(DEFS));
            let use_first = ch.flag();
            let mut h = vec![Op::Map(0, a)];
            if use_first {
                h.push(Op::Rows(0))
            }
            h.extend([Op::Map(1, c), Op::Map(0, b), Op::Rows(0), Op::Rows(1), Op::Map(0, c), Op::Rows(0), Op::Map(0, a), Op::Rows(0)]);
            run_history(ch, &h, &[55, 56], true)
        }),
        group("repeated use", "one map followed by up to 600 row events and other events before the next use", |ch| {
            let k = ch.choose(DEFS - 1);
            let gap = ch.of(&[1usize, 10, 100, 255, 256, 600]);
            let o = ch.choose(7);
            let mut h = vec![Op::Map(0, k), Op::Rows(0)];
            h.extend(vec![Op::Other(o); gap]);
            h.push(Op::Rows(0));
            h.extend(vec![Op::Rows(0); gap]);
            h.push(Op::Map(0, k + 1));
            h.push(Op::Rows(0));
            run_history(ch, &h, &[55], true)
        }),
    ]
}

// ---------------------------------------------------------------- C13

fn texts() -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "mysql-bin.000001", "INSERT INTO t VALUES ('x')", "тест", "日本語", "😀", "a\0b", "\0", " ", "x\n\r\ty", "`"].iter().map(|s| s.to_string()).collect();
    for n in [2usize, 127, 128, 250, 251, 252, 254, 255, 256, 257, 300, 511, 65535, 65536] {
        v.push((0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect());
    }
    v
}
const N32: [u32; 10] = [0, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x7fff_ffff, 0x8000_0000, u32::MAX];
const N64: [u64; 12] = [0, 1, 0xff, 0x100, 0xffff, 0x1_0000, u32::MAX as u64, 1 << 32, 0x0102_0304_0506_0708, i64::MAX as u64, 1 << 63, u64::MAX];
const N8: [u8; 8] = [0, 1, 2, 3, 0x7f, 0x80, 0xfe, 0xff];
const N16: [u16; 7] = [0, 1, 0xff, 0x100, 0x7fff, 0x8000, 0xffff];

fn one(ch: &mut Ch, ps: &[Proto], what: &dyn Fn() -> String) -> Res {
    for crc in [false, true] {
        let mut f = FileB::start(crc);
        for p in ps {
            f.ev(p);
            ch.evals(1);
        }
        judge(ch, &f, what)?;
    }
    Ok(())
}

fn c13() -> Vec<Group> {
    vec![
        group("queries", "every field of a query event at its boundaries: status variables of 0..65535 bytes, database names of 0..255 bytes, statements of any length and alphabet", |ch| {
            let t = texts();
            let statuses: Vec<Vec<u8>> = [0usize, 1, 2, 13, 127, 128, 254, 255, 256, 257, 1000, 32767, 32768, 65535].iter().map(|n| (0..*n).map(|i| (i * 7) as u8).collect()).collect();
            let sql = ch.pick(&t).clone();
            let db = ch.pick(&t).clone();
            if db.len() > 255 || db.contains('\0') {
                return Ok(());
            }
            let mut ps = vec![];
            let mut add = |thread, duration, error, status: &[u8]| {
                ps.push(proto(
                    QUERY,
                    query_body(thread, duration, error, status, &db, &sql),
                    Ev::Query { thread, duration, error, status: status.to_vec(), db: db.clone(), sql: sql.clone() },
                ))
            };
            for a in N32 {
                add(a, 1, 2, &[]);
                add(7, a, 2, &[1, 2, 3]);
            }
            for a in N16 {
                add(7, 1, a, &[0xff; 5])
            }
            for s in &statuses {
                if sql.len() + s.len() < 40000 || sql.len() < 3 || thorough() {
                    add(u32::MAX, 0, 1, s)
                }
            }
            one(ch, &ps, &|| format!("a query event with database {:?}", db))
        }),
        group("rotations and heartbeats", "positions and file names of every boundary length", |ch| {
            let t = texts();
            let name = ch.pick(&t).clone();
            let mut ps: Vec<Proto> = N64.iter().map(|p| p_rotate(*p, &name)).collect();
            ps.push(p_heartbeat(&name));
            ps.push(p_annotate(&name));
            ps.push(p_rowsquery(&name));
            one(ch, &ps, &|| format!("an event with the text {:?} of {} bytes", name.chars().take(30).collect::<String>(), name.len()))
        }),
        group("numbers", "transaction commits, integer variables and GTIDs with every combination of boundary values", |ch| {
            let a = ch.of(&N64);
            let mut ps = vec![p_xid(a)];
            for t in 0..=255u8 {
                ps.push(p_intvar(t, a))
            }
            for f in N8 {
                for sid in [[0; 16], [0xff; 16], SID, SID2, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]] {
                    ps.push(p_mygtid(f, sid, a))
                }
                for d in N32 {
                    for s in N32 {
                        ps.push(p_magtid(d, s, a, f))
                    }
                }
            }
            one(ch, &ps, &|| format!("an event with the number {}", a))
        }),
        group("flags", "every value of the flag bytes of GTID events of both servers", |ch| {
            let f = ch.range(0, 255) as u8;
            let mut ps = vec![p_mygtid(f, SID, 5), p_magtid(1, 2, 3, f)];
            // Newer servers append more fields.
            for extra in [vec![], vec![0u8; 8], vec![1; 25], vec![0xff; 60]] {
                let mut p = p_magtid(1, 2, 3, f);
                p.body.extend(&extra);
                ps.push(p);
                let mut p = p_mygtid(f, SID, 5);
                p.body.extend(&extra);
                ps.push(p);
            }
            // Older ones have fewer.
            let mut p = p_mygtid(f, SID, 6);
            p.body.truncate(25);
            ps.push(p);
            one(ch, &ps, &|| format!("a GTID event with flags {:#x}", f))
        }),
        group("user variables", "names and values of every boundary length, every type, collation and flag; values absent", |ch| {
            let t = texts();
            let name = ch.pick(&t).clone();
            let mut ps = vec![p_uservar(&name, None)];
            for v in &t {
                if v.len() + name.len() > 70000 {
                    continue;
                }
                for collation in N32 {
                    ps.push(p_uservar(&name, Some(UVar { typ: 0, collation, value: v.clone(), flags: 0 })));
                    if v.len() > 300 {
                        break;
                    }
                }
            }
            one(ch, &ps, &|| format!("a user variable called {:?}", name.chars().take(30).collect::<String>()))
        }),
        group("edges of texts", "every ASCII character, every kind of blank and every prefix a statement or path may have, in front of, behind and around every text field", |ch| {
            let mut edges: Vec<String> = (0..128u8).map(|c| (c as char).to_string()).collect();
            edges.extend(["\u{a0}", "\u{feff}", "\u{2028}", "\u{200b}", "\u{fffd}", "./", "../", "//", "--", "-- ", "/*", "*/", "/* c */", "\r\n", "''", "\"\"", "``", "%00", "%s", "{}", "\\0", "\\n", "$x", "é", "e\u{301}", "ß"].map(|s| s.to_string()));
            let e = ch.pick(&edges).clone();
            let mut ps = vec![];
            for t in [e.clone(), format!("{}{}", e, e), format!("{}x", e), format!("x{}", e), format!("{}x y{}", e, e), format!("x{}y", e), format!("x{}{}y", e, e)] {
                ps.push(p_query("shop", &t));
                if !t.contains('\0') {
                    ps.push(p_query(&t, "select 1"));
                }
                ps.extend([p_rotate(4, &t), p_heartbeat(&t), p_annotate(&t), p_rowsquery(&t), p_uservar(&t, None)]);
                ps.push(p_uservar("v", Some(UVar { typ: 0, collation: 33, value: t, flags: 0 })));
            }
            one(ch, &ps, &|| format!("a text with {:?}", e))
        }),
        group("numeric user variables", "integer, floating point and decimal values as servers store them; every value of the flags behind them", |ch| {
            let mut ps = vec![];
            match ch.choose(4) {
                3 => {
                    for flags in 0..=255u8 {
                        for (typ, text, bytes) in [(0u8, "x", b"x".to_vec()), (2, "5", 5u64.to_le_bytes().to_vec()), (1, "0.5", 0.5f64.to_bits().to_le_bytes().to_vec())] {
                            let body = B::new().u32(1).str("n").u8(0).u8(typ).u32(33).u32(bytes.len() as u32).bytes(&bytes).u8(flags).0;
                            ps.push(proto(USER_VAR, body, Ev::UserVar("n".into(), Some(UVar { typ, collation: 33, value: text.into(), flags }))));
                        }
                    }
                }
                0 => {
                    for v in N64 {
                        for flags in [0u8, 1] {
                            let text = if flags == 1 { v.to_string() } else { (v as i64).to_string() };
                            let body = B::new().u32(1).str("n").u8(0).u8(2).u32(33).u32(8).u64(v).u8(flags).0;
                            ps.push(proto(USER_VAR, body, Ev::UserVar("n".into(), Some(UVar { typ: 2, collation: 33, value: text, flags }))));
                        }
                    }
                }
                1 => {
                    for v in [0.0f64, -0.0, 1.0, -1.0, 0.5, -2.25, 1e10, 123456.789, 0.1, 1.0 / 3.0, -1e-7, 5e-324, f64::MIN_POSITIVE, f64::MAX, f64::MIN, 9007199254740993.0] {
                        let body = B::new().u32(1).str("n").u8(0).u8(1).u32(33).u32(8).u64(v.to_bits()).0;
                        ps.push(proto(USER_VAR, body, Ev::UserVar("n".into(), Some(UVar { typ: 1, collation: 33, value: v.to_string(), flags: 0 }))));
                    }
                }
                _ => {
                    // DECIMAL(10,2): four integer groups of digits fit in five bytes.
                    for (bytes, text) in [(vec![0x80, 0, 0, 1, 25], "1.25"), (vec![0x7f, 0xff, 0xff, 0xfe, 0xe6], "-1.25"), (vec![0x80, 0, 0, 0, 0], "0.00"), (vec![0x85, 0xf5, 0xe0, 0xff, 99], "99999999.99")] {
                        let body = B::new().u32(1).str("n").u8(0).u8(4).u32(33).u32(7).u8(10).u8(2).bytes(&bytes).0;
                        ps.push(proto(USER_VAR, body, Ev::UserVar("n".into(), Some(UVar { typ: 4, collation: 33, value: text.into(), flags: 0 }))));
                    }
                }
            }
            for p in &ps {
                for crc in [false, true] {
                    let mut f = FileB::start(crc);
                    f.ev(p);
                    f.ev(&p_xid(1));
                    ch.evals(1);
                    judge(ch, &f, &|| format!("user variable {:?}", p.ev))?;
                }
            }
            Ok(())
        }),
        group("previous gtids", "sets of 0..3 sources with 0..3 intervals at every boundary", |ch| {
            let n = ch.range(0, 3) as usize;
            let mut s = Sets::new();
            for sid in [SID, SID2, [0xff; 16]].iter().take(n) {
                let iv = ch.of(&[&[(1u64, 1u64)][..], &[(1, 5), (7, 9)], &[(3, 3), (5, 5), (7, u32::MAX as u64 + 9)], &[(1, i64::MAX as u64 - 1)], &[(1, 2), (u32::MAX as u64, 1 << 40)]]);
                s.insert(*sid, iv.to_vec());
            }
            let many: Sets = (0..by_tier(30u8, 200)).map(|i| ([i; 16], vec![(i as u64 + 1, i as u64 * 1000 + 1)])).collect();
            one(ch, &[p_myprev(&s), p_myprev(&many), p_myprev(&s)], &|| format!("previous gtids {}", sets_text(&s)))
        }),
        group("gtid lists", "MariaDB lists of 0..4 positions with boundary values, several servers in one domain, and the flag bits servers set beside the count", |ch| {
            let n = ch.range(0, 4) as usize;
            let l: Vec<(u32, u32, u64)> = (0..n).map(|i| (if i < 2 { 0 } else { i as u32 * 7 }, N32[(i * 3 + 1) % N32.len()], N64[(i * 5 + 2) % N64.len()])).collect();
            let mut ps = vec![p_malist(&l)];
            for d in N32 {
                for q in N64 {
                    ps.push(p_malist(&[(d, u32::MAX - d, q)]))
                }
            }
            for flag in [1u32 << 28, 1 << 29, 3 << 28] {
                let mut p = p_malist(&l);
                let c = (l.len() as u32 | flag).to_le_bytes();
                p.body[..4].copy_from_slice(&c);
                ps.push(p);
            }
            for p in &ps {
                let mut f = FileB::start(true);
                f.ev(p);
                f.ev(&p_xid(1));
                ch.evals(1);
                judge(ch, &f, &|| format!("a gtid list event {:?}", p.ev))?;
            }
            Ok(())
        }),
        group("format descriptions", "server version texts of 0..50 bytes, binlog versions, every generation's number of event types, every algorithm", |ch| {
            let n = ch.range(0, 50) as usize;
            let version: String = "10.6.12-MariaDB-1:10.6.12+maria~ubu2004-log-and-some-more-text".chars().take(n).collect();
            for types in [27usize, 35, 38, 40, 41, 42, 163, 164, 171] {
                for alg in [None, Some(0u8), Some(1)] {
                    for v in [0u16, 1, 3, 4, 256, 65535] {
                        let mut f = FileB::new();
                        let p = proto(FDE, fde_body(v, &version, types, alg), Ev::Fde { version: v, server: version.clone(), alg: alg.unwrap_or(0) });
                        f.put(&p, alg.is_some());
                        f.crc = alg == Some(1);
                        f.ev(&p_query("shop", "BEGIN"));
                        ch.evals(1);
                        judge(ch, &f, &|| format!("a format description of {} types, algorithm {:?}", types, alg))?;
                    }
                }
            }
            Ok(())
        }),
        group("unknown types", "every type code the library does not model, with payloads of 0..30 and of large sizes", |ch| {
            let typ = ch.range(0, 255) as u8;
            let modelled = [2u8, 4, 5, 14, 15, 16, 19, 23, 24, 25, 27, 29, 30, 31, 32, 33, 35, 160, 162, 163];
            if modelled.contains(&typ) {
                return Ok(());
            }
            let mut ps = vec![];
            for n in (0..30usize).chain([255, 256, 65535, 65536, 70000]) {
                for fill in [0u8, 0xff, 0x80] {
                    ps.push(p_unknown(typ, &vec![fill; n]))
                }
            }
            one(ch, &ps, &|| format!("an event of type {}", typ))
        }),
        group("headers", "every header field of every modelled type at its boundaries", |ch| {
            let t = templates();
            let (name, g) = ch.pick(&t);
            let crc = ch.flag();
            for flags in N16 {
                for server in N32 {
                    let mut f = FileB::start(crc);
                    for p in g {
                        let mut p = p.clone();
                        p.flags = flags;
                        if p.typ != MA_GTID {
                            p.server_id = server;
                        }
                        f.ev(&p)
                    }
                    ch.evals(1);
                    judge(ch, &f, &|| format!("{} with header flags {:#x} and server id {}", name, flags, server))?;
                }
            }
            for ts in N32 {
                for next in N32 {
                    let mut f = FileB::start(crc);
                    for p in g {
                        let len = 19 + p.body.len() + if crc { 4 } else { 0 };
                        let h = Hdr { ts, typ: p.typ, server_id: p.server_id, len: len as u32, next, flags: 0 };
                        let b = event(&h, &p.body, crc);
                        f.bytes.extend(b);
                        f.want.push(Ok((h, p.ev.clone().unwrap())));
                    }
                    ch.evals(1);
                    judge(ch, &f, &|| format!("{} with timestamp {} and next position {}", name, ts, next))?;
                }
            }
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- C14

/// Format descriptions of every generation: server version, number of event types, declared algorithm.
pub const GENERATIONS: [(&str, usize, Option<u8>); 11] = [
    ("5.0.96", 27, None),
    ("5.1.73-log", 27, None),
    ("5.5.62", 27, None),
    ("5.6.51", 35, Some(0)),
    ("5.6.51-log", 35, Some(1)),
    ("5.7.44", 38, Some(0)),
    ("5.7.44-log", 38, Some(1)),
    ("8.0.32", 41, Some(0)),
    ("8.0.36", 41, Some(1)),
    ("5.5.68-MariaDB", 163, Some(0)),
    ("10.6.12-MariaDB-log", 171, Some(1)),
];

fn c14() -> Vec<Group> {
    vec![
        group("same content", "every event of the pool behind every format description: the content does not depend on the algorithm", |ch| {
            let t = super::hostile::pool();
            let (name, g) = ch.pick(&t);
            if name.starts_with("format") {
                return Ok(());
            }
            let d = ch.of(&GENERATIONS);
            let mut f = FileB::new();
            f.fde(d.0, d.1, d.2);
            for p in g.iter().chain(g.iter()) {
                f.ev(p);
                ch.step(1);
            }
            ch.state(&(f.crc, name));
            judge(ch, &f, &|| format!("{} after the format description {:?}", name, d))
        }),
        group("changes", "every sequence of up to 4 (thorough: 5) format descriptions of every generation with events between them", |ch| {
            let n = by_tier(4, 5);
            let mut f = FileB::new();
            let mut h = vec![];
            for i in 0..n {
                let d = ch.of(&GENERATIONS);
                h.push(d.0);
                f.fde(d.0, d.1, d.2);
                ch.state(&f.crc);
                for p in [p_query("shop", "BEGIN"), p_table(&small_table(50 + i as u64)), p_rows(&small_rows(Kind::Write, 2, 50 + i as u64)), p_rotate(4, "mysql-bin.000002"), p_xid(i as u64), p_rowsquery("x"), p_heartbeat("f")] {
                    f.ev(&p);
                    ch.step(1);
                }
            }
            judge(ch, &f, &|| format!("format descriptions {:?}", h))
        }),
        group("checksum values", "statements of 0..70 bytes whose checksums take many values, also ones that look like text or row data", |ch| {
            let crc = ch.flag();
            let n = ch.range(0, 70) as usize;
            let mut f = FileB::start(crc);
            for k in 0..by_tier(60u32, 400) {
                let s: String = (0..n).map(|i| (b' ' + ((i as u32 * 31 + k * 17) % 90) as u8) as char).collect();
                f.ev(&p_query("d", &s));
                f.ev(&p_annotate(&s));
                f.ev(&p_heartbeat(&s));
                f.ev(&p_rotate(k as u64, &s));
                ch.step(4);
                ch.evals(4);
            }
            ch.state(&(crc, n));
            judge(ch, &f, &|| format!("texts of {} bytes", n))
        }),
    ]
}
