//! C03, C04: bytes no server should send, read from a file. The stream parts are in `stream.rs`.
use super::common::*;
use super::rows::type_pool;
use crate::env::FilePlan;
use crate::explore::*;
use crate::obs::*;
use crate::wire::*;
use crate::Check;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C03",
            level: "fault_enumeration",
            rule: "A case is a file or stream with one or two events that cannot be decoded, or with one mutated event, among intact ones; distinct by bytes. Non-trivial: the bad event stands before, between or after intact events whose items are compared with the encoder's own record of them.",
            assumptions: &[
                "an event is known to be undecodable only where no reading of the protocol gives it a meaning (missing fixed fields, missing row data, text that is not UTF-8, table never mapped); mutated events outside that list may yield an event or an error",
            ],
            groups: || {
                let mut v = c03();
                v.extend(super::stream::c03());
                v
            },
        },
        Check {
            id: "C04",
            level: "exploration",
            rule: "A case is the bytes of one file or stream; distinct by bytes, non-trivial when at least one event differs from what a server writes. Panics, aborts, endless iteration, and more than 64 MiB of live memory for events of a few hundred bytes are violations.",
            assumptions: &["a buffer as large as an event header declares is in proportion"],
            groups: || {
                let mut v = c04();
                v.extend(super::stream::c04());
                v
            },
        },
    ]
}

/// Any event of these tests is far smaller than this; asking for more is out of proportion.
pub const HEAP: i64 = 64 << 20;

/// Everything the decoder has code for: small complete groups of events.
pub fn pool() -> Vec<(&'static str, Vec<Proto>)> {
    let mut v = templates();
    v.push(("user var text", vec![p_uservar("v", Some(UVar { typ: 0, collation: 33, value: "bar".into(), flags: 0 }))]));
    v.push(("format", vec![p_fde("8.0.32", 41, Some(1))]));
    v.push(("format without algorithm", vec![p_fde("5.1.73", 27, None)]));
    v.push(("format of mariadb", vec![p_fde("10.6.12-MariaDB", 171, Some(0))]));
    let types = type_pool();
    for part in types.chunks(6) {
        let t = Table::new(300, part.iter().map(|x| x.0.clone()).collect());
        let cells: Vec<LCell> = part.iter().map(|x| Some(x.1.clone())).collect();
        v.push(("all types", vec![p_table(&t), p_rows(&LRows::new(Kind::Write, 2, 300, part.len()).row(cells.clone()).row(cells))]));
    }
    // A table with every kind of optional metadata.
    let t = Table::new(301, vec![long(), varchar(40), col(254, &[247, 1]), col(254, &[248, 1]), col(255, &[4])]);
    v.push(("optional metadata", vec![proto(TABLE_MAP, t.body(&opt_bytes()), t.ev_opt(Some(opt_meta()))), p_rows(&LRows::new(Kind::Write, 2, 301, 5).row(vec![Some(c_long(1)), Some(c_varchar(40, "x")), None, None, None]))]));
    v
}
fn opt_meta() -> OptMeta {
    let s = |x: &[&str]| x.iter().map(|y| y.to_string()).collect::<Vec<_>>();
    OptMeta {
        signedness: Some(vec![true]),
        default_charset: Some((255, vec![(1, 33)])),
        column_charsets: Some(vec![255]),
        column_names: Some(s(&["a", "b", "c", "d", "e"])),
        set_values: Some(vec![s(&["p", "q"])]),
        enum_values: Some(vec![s(&["r"])]),
        geometry_types: Some(vec![1]),
        simple_pk: Some(vec![0]),
        prefix_pk: Some(vec![(1, 10)]),
        es_default_charset: Some((255, vec![])),
        es_column_charsets: Some(vec![255, 33]),
        visibility: Some(vec![true; 5]),
    }
}
fn opt_bytes() -> Vec<u8> {
    let f = |t: u8, b: B| B::new().u8(t).lenenc(b.0.len() as u64).bytes(&b.0).0;
    [
        f(1, B::new().u8(0x80)),
        f(2, B::new().lenenc(255).lenenc(1).lenenc(33)),
        f(3, B::new().lenenc(255)),
        f(4, B::new().lenstr("a").lenstr("b").lenstr("c").lenstr("d").lenstr("e")),
        f(5, B::new().lenenc(2).lenstr("p").lenstr("q")),
        f(6, B::new().lenenc(1).lenstr("r")),
        f(7, B::new().lenenc(1)),
        f(8, B::new().lenenc(0)),
        f(9, B::new().lenenc(1).lenenc(10)),
        f(10, B::new().lenenc(255)),
        f(11, B::new().lenenc(255).lenenc(33)),
        f(12, B::new().u8(0xf8)),
    ]
    .concat()
}

/// A file with the events of one group, the one at `at` replaced by the given type and body.
pub fn with_body(group: &[Proto], at: usize, body: &[u8], crc: bool) -> FileB {
    let mut f = FileB::start(crc);
    for (i, p) in group.iter().enumerate() {
        if i == at {
            let mut q = p.clone();
            q.body = body.to_vec();
            f.ev(&q)
        } else {
            f.ev(p)
        }
    }
    f.ev(&p_xid(77));
    f
}
/// Reads it; any panic, endless iteration or excessive allocation is a violation (the latter ends the process,
/// which the supervisor reports).
fn survive(bytes: &[u8], events: usize, what: &dyn Fn() -> String) -> Result<usize, Viol> {
    let max = events + 5;
    crate::alloc::limit(HEAP);
    let r = catch(|| read_file(bytes, FilePlan::default(), max));
    crate::alloc::unlimited();
    match r {
        Ok(r) => {
            ensure!(!r.log.spun, "{}: the reader keeps reading without end", what());
            ensure!(r.ended || r.open.is_some(), "{}: a file of {} bytes yields {} items and does not end", what(), bytes.len(), max);
            Ok(r.items.iter().filter(|i| i.is_ok()).count() * 100 + r.items.len())
        }
        Err(Caught::Panic(m)) => viol(format!("{}: {}", what(), m)),
        Err(Caught::Engine(m)) => panic!("{}", m),
    }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
/// Byte strings that overwrite or are put in front of any place of a body.
pub fn splices() -> Vec<Vec<u8>> {
    vec![
        vec![0xfe, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
        vec![0xfe, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f],
        vec![0xfe, 0xfc, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
        vec![0xfe, 0, 0, 0, 0, 1, 0, 0, 0],
        vec![0xfe, 0, 0, 0, 0x10, 0, 0, 0, 0],
        vec![0xfd, 0xff, 0xff, 0xff],
        vec![0xfc, 0xff, 0xff],
        vec![0xfb],
        vec![0xff; 4],
        vec![0xff; 8],
        vec![0xff, 0xff, 0xff, 0x7f],
        vec![0, 0, 0, 0x80],
        vec![0; 8],
        vec![0, 0],
        vec![0xff; 16],
    ]
}
pub const BYTES: [u8; 26] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 63, 65, 127, 128, 200, 246, 250, 252, 254, 255];

pub fn c04() -> Vec<Group> {
    vec![
        group("every type", "every event type code with payloads of 0..40 bytes (thorough: 0..130) of eight fill patterns, checksums off and on", |ch| {
            let typ = ch.range(0, 255) as u8;
            let crc = ch.flag();
            for n in 0..=by_tier(40usize, 130) {
                for fill in 0..8u8 {
                    let body: Vec<u8> = (0..n)
                        .map(|i| match fill {
                            0 => 0,
                            1 => 0xff,
                            2 => 1,
                            3 => 0x80,
                            4 => i as u8,
                            5 => 0xff - i as u8,
                            6 => (i as u8) & 1,
                            _ => 0xfe,
                        })
                        .collect();
                    // As whole payload including what is taken for the checksum.
                    let mut f = FileB::start(crc);
                    f.ev(&p_table(&small_table(0)));
                    f.put(&p_unknown(typ, &body), false);
                    f.ev(&p_xid(5));
                    ch.evals(1);
                    ch.distinct(&(typ, crc, &body));
                    let o = survive(&f.bytes, 4, &|| format!("event type {} with payload {} (checksums {})", typ, hex(&body), crc))?;
                    ch.outcome(&(typ, o));
                }
            }
            Ok(())
        }),
        group("truncated", "every event of the pool cut to every shorter payload, checksums off and on, the other events intact", |ch| {
            let p = pool();
            let (_, g) = ch.pick(&p);
            let at = ch.choose(g.len());
            let crc = ch.flag();
            for n in 0..g[at].body.len() {
                let f = with_body(g, at, &g[at].body[..n], crc);
                ch.evals(1);
                ch.distinct(&f.bytes);
                let o = survive(&f.bytes, g.len() + 2, &|| format!("event type {} cut to {} of {} payload bytes", g[at].typ, n, g[at].body.len()))?;
                ch.outcome(&(g[at].typ, o));
                // The checksum's place holds payload bytes.
                let mut f = FileB::start(crc);
                for (i, q) in g.iter().enumerate() {
                    if i == at {
                        let mut q = q.clone();
                        q.body.truncate(n);
                        f.put(&q, false)
                    } else {
                        f.ev(q)
                    }
                }
                ch.evals(1);
                survive(&f.bytes, g.len() + 2, &|| format!("event type {} cut to {} bytes with no checksum (checksums {})", g[at].typ, n, crc))?;
            }
            Ok(())
        }),
        group("one byte", "every byte of every event of the pool replaced by 26 boundary values (thorough: all 256)", |ch| {
            let p = pool();
            let (_, g) = ch.pick(&p);
            let at = ch.choose(g.len());
            if g[at].body.is_empty() {
                return Ok(());
            }
            let i = ch.choose(g[at].body.len());
            let all: Vec<u8> = (0..=255).collect();
            let vals: &[u8] = if thorough() { &all } else { &BYTES };
            for v in vals {
                let mut body = g[at].body.clone();
                body[i] = *v;
                let f = with_body(g, at, &body, false);
                ch.evals(1);
                ch.distinct(&f.bytes);
                let o = survive(&f.bytes, g.len() + 2, &|| format!("event type {} with byte {} of {} set to {}", g[at].typ, i, hex(&g[at].body), v))?;
                ch.outcome(&(g[at].typ, o));
            }
            Ok(())
        }),
        group("lengths", "huge, negative and zero lengths overwriting and inserted at every place of every event of the pool", |ch| {
            let p = pool();
            let (_, g) = ch.pick(&p);
            let at = ch.choose(g.len());
            let i = ch.choose(g[at].body.len() + 1);
            for s in splices() {
                for insert in [false, true] {
                    let mut body = g[at].body.clone();
                    if insert {
                        body.splice(i..i, s.iter().copied());
                    } else {
                        let end = (i + s.len()).min(body.len());
                        body.splice(i..end, s.iter().copied());
                    }
                    let f = with_body(g, at, &body, false);
                    ch.evals(1);
                    ch.distinct(&f.bytes);
                    let o = survive(&f.bytes, g.len() + 2, &|| format!("event type {} with {} {} byte {}: {}", g[at].typ, hex(&s), if insert { "inserted at" } else { "written over" }, i, hex(&body)))?;
                    ch.outcome(&(g[at].typ, o));
                }
            }
            Ok(())
        }),
        group("two bytes", "pairs of bytes of table maps, row events and metadata replaced by boundary values", |ch| {
            let p = pool();
            let pick: Vec<&(&str, Vec<Proto>)> = p.iter().filter(|x| thorough() || x.0 == "optional metadata" || x.0 == "insert v2" || x.0 == "user var text" || x.0 == "previous gtids").collect();
            let (_, g) = pick[ch.choose(pick.len())];
            let at = ch.choose(g.len());
            let n = g[at].body.len();
            if n < 2 {
                return Ok(());
            }
            let i = ch.choose(n - 1);
            let vals = by_tier(&[0u8, 1, 255, 254][..], &[0u8, 1, 8, 127, 128, 252, 254, 255][..]);
            for j in i + 1..n {
                for a in vals {
                    for b in vals {
                        let mut body = g[at].body.clone();
                        body[i] = *a;
                        body[j] = *b;
                        let f = with_body(g, at, &body, false);
                        ch.evals(1);
                        let o = survive(&f.bytes, g.len() + 2, &|| format!("event type {} with bytes {}, {} of {} set to {}, {}", g[at].typ, i, j, hex(&g[at].body), a, b))?;
                        ch.outcome(&(g[at].typ, o));
                    }
                }
            }
            ch.distinct(&(at, i, &g[at].body));
            Ok(())
        }),
        group("definitions", "row events of 0..9 columns on tables of 0..9 columns of every type code and every boundary metadata value", |ch| {
            let typ = ch.range(0, 255) as u8;
            let metas: [&[u8]; 20] = [&[], &[0], &[1], &[4], &[6], &[7], &[8], &[9], &[64], &[255], &[0, 0], &[1, 0], &[0, 1], &[10, 20], &[255, 255], &[254, 0], &[247, 0], &[248, 9], &[0xfe, 0x01], &[30, 2]];
            let m = ch.of(&metas);
            for n in by_tier(&[0usize, 1, 2][..], &[0, 1, 2, 3, 7, 8, 9][..]) {
                for k in by_tier(&[0usize, 1, 2, 3, 9][..], &[0, 1, 2, 3, 7, 8, 9, 17][..]) {
                    for fill in [0u8, 1, 0x7f, 0xff] {
                        for kind in [Kind::Write, Kind::Update] {
                            let c = Col { typ, meta: m.to_vec(), meta16: 0 };
                            let t = Table::new(5, vec![c; *n]);
                            let mut f = FileB::start(false);
                            f.ev(&p_table(&t));
                            let mut l = LRows::new(kind, 1, 5, *k);
                            let nothing = fill == 1;
                            if nothing {
                                l.before = vec![false; *k];
                                l.after = vec![false; *k];
                            }
                            let mut b = l.body();
                            b.extend(vec![fill; 24]);
                            f.ev(&bad(rows_type(kind, 1), b));
                            f.ev(&p_xid(5));
                            ch.evals(1);
                            let o = survive(&f.bytes, 4, &|| format!("{:?} of {} columns filled with {} on a table of {} columns of type {} with metadata {:?}", kind, k, fill, n, typ, m))?;
                            ch.outcome(&(typ, o));
                        }
                    }
                }
            }
            ch.distinct(&(typ, m));
            Ok(())
        }),
        group("headers", "every event header field at its boundaries: lengths 0..300 and up to 4 GiB, whatever follows", |ch| {
            let mut lens: Vec<u32> = (0..by_tier(64, 300)).collect();
            for k in 6..32 {
                lens.extend([(1u32 << k) - 1, 1 << k, (1 << k) + 1]);
            }
            lens.extend([u32::MAX, u32::MAX - 1, u32::MAX - 18, u32::MAX - 19, u32::MAX - 20]);
            let len = ch.of(&lens);
            let crc = ch.flag();
            for typ in [0u8, 2, 4, 15, 19, 30, 33, 255] {
                for after in [0usize, 3, 18, 19, 100] {
                    let mut f = FileB::start(crc);
                    let h = Hdr { ts: u32::MAX, typ, server_id: 0, len, next: u32::MAX, flags: 0xffff };
                    let mut bytes = std::mem::take(&mut f.bytes);
                    bytes.extend(event(&h, &vec![1; after], false));
                    ch.evals(1);
                    ch.distinct(&bytes);
                    // A buffer as big as the header declares is in proportion.
                    crate::alloc::limit(HEAP + 5 * len as i64);
                    let r = catch(|| read_file(&bytes, FilePlan::default(), 20));
                    crate::alloc::unlimited();
                    match r {
                        Ok(r) => {
                            ensure!(r.ended && !r.log.spun, "an event header with length {} and {} bytes after it: the iteration does not end", len, after);
                            ch.outcome(&(len, after, r.items.len()));
                        }
                        Err(Caught::Panic(m)) => return viol(format!("an event header with length {} and {} bytes after it: {}", len, after, m)),
                        Err(Caught::Engine(m)) => panic!("{}", m),
                    }
                }
            }
            Ok(())
        }),
        group("openings", "every file of up to 3 bytes of a small alphabet, and format description events with every declared size", |ch| {
            let al = [0u8, 0xfe, 0x62, 0x69, 0x6e, 0xff];
            if ch.flag() {
                let n = ch.range(0, 5) as usize;
                let bytes: Vec<u8> = (0..n).map(|_| ch.of(&al)).collect();
                ch.distinct(&bytes);
                survive(&bytes, 3, &|| format!("the file {}", hex(&bytes)))?;
                return Ok(());
            }
            let types = ch.range(0, 255) as u8;
            for n in 0..=by_tier(120usize, 260) {
                for fill in [0u8, 1, 2, 255] {
                    let mut body = fde_body(4, "8.0.32", 41, Some(1));
                    body.resize(n, fill);
                    if n > 71 {
                        body[71] = types;
                    }
                    let mut f = FileB::new();
                    f.put(&bad(FDE, body), false);
                    f.ev(&p_xid(1));
                    ch.evals(1);
                    let o = survive(&f.bytes, 3, &|| format!("a format description of {} bytes declaring {} (fill {})", n, types, fill))?;
                    ch.outcome(&o);
                }
            }
            ch.distinct(&types);
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- C03

/// Bodies of an event that cannot be decoded, whatever the reading of the protocol, with the reason.
pub fn undecodable() -> Vec<(String, Proto)> {
    let mut v: Vec<(String, Proto)> = vec![];
    let mut cut = |name: &str, p: &Proto, lens: Vec<usize>| {
        for n in lens {
            if n < p.body.len() || name == "format" {
                v.push((format!("{} cut to {} bytes", name, n), bad(p.typ, p.body[..n].to_vec())))
            }
        }
    };
    let q = p_query("shop", "INSERT");
    cut("query", &q, (0..13 + 14 + 4).collect());
    cut("xid", &p_xid(u64::MAX), (0..8).collect());
    cut("int var", &p_intvar(2, 3), (0..9).collect());
    cut("rotate", &p_rotate(4, "f"), (0..8).collect());
    cut("mysql gtid", &p_mygtid(1, SID, 9), (0..25).collect());
    cut("mariadb gtid", &p_magtid(1, 2, 3, 0), (0..13).collect());
    cut("mariadb gtid list", &p_malist(&[(1, 2, 3), (4, 5, 6)]), (0..36).collect());
    let mut prev = Sets::new();
    prev.insert(SID, vec![(1, 5), (9, 9)]);
    let pp = p_myprev(&prev);
    cut("previous gtids", &pp, (0..pp.body.len()).collect());
    let u = p_uservar("name", Some(UVar { typ: 0, collation: 33, value: "value".into(), flags: 0 }));
    cut("user var", &u, (0..u.body.len()).collect());
    let t = p_table(&small_table(900));
    cut("table map", &t, (0..t.body.len()).collect());
    let f = p_fde("8.0.32", 41, Some(1));
    cut("format", &f, (0..72).collect());
    for (k, ver) in [(Kind::Write, 1), (Kind::Update, 2), (Kind::Delete, 2)] {
        let mut r = small_rows(k, ver, 101);
        r.rows.truncate(1);
        let p = p_rows(&r);
        let head = 8 + if ver == 2 { 2 } else { 0 } + 1 + if k == Kind::Update { 2 } else { 1 };
        cut("rows", &p, (0..head).chain(head + 1..p.body.len()).collect());
    }
    v.push(("rows of a table never mapped".into(), p_rows(&small_rows(Kind::Write, 2, 999)).clone()));
    v.last_mut().unwrap().1.ev = None;
    let mut bad_text = |name: &str, typ: u8, b: B| v.push((format!("{} that is not UTF-8", name), bad(typ, b.0)));
    bad_text("a statement", QUERY, B(query_body(7, 0, 0, &[], "db", "ab")).u8(0xff));
    bad_text("a rotation target", ROTATE, B::new().u64(4).u8(0xc3));
    bad_text("a user variable", USER_VAR, B::new().u32(1).u8(0xff).u8(1));
    bad_text("a table name", TABLE_MAP, B::new().u48(901).u16(1).u8(1).strz("d").u8(1).u8(0xff).u8(0).lenenc(1).u8(3).lenenc(0).u8(0));
    v.push(("a column type that does not exist".into(), bad(TABLE_MAP, Table::new(902, vec![Col { typ: 100, meta: vec![], meta16: 0 }]).body(&[]))));
    v.push(("optional metadata with no length".into(), bad(TABLE_MAP, Table::new(903, vec![long()]).body(&[1]))));
    v.push(("optional metadata longer than the event".into(), bad(TABLE_MAP, Table::new(904, vec![long()]).body(&[4, 200, 1]))));
    v.push(("rows of two bytes".into(), bad(rows_type(Kind::Write, 1), B::new().u48(101).u16(1).lenenc(3).u8(7).u8(0).bytes(&[1, 2]).0)));
    v
}
/// The intact events around the bad one.
pub fn around() -> Vec<Proto> {
    let r = |v, k| p_rows(&small_rows(k, v, 101));
    vec![
        p_query("shop", "BEGIN"),
        p_table(&small_table(101)),
        r(2, Kind::Write),
        r(1, Kind::Update),
        p_xid(4),
        p_rowsquery("x"),
        r(2, Kind::Delete),
        p_query("shop", "COMMIT"),
    ]
}

pub fn c03() -> Vec<Group> {
    vec![
        group("undecodable", "every kind of undecodable event at every place of a file with intact events, alone and twice, checksums off and on", |ch| {
            let u = undecodable();
            let i = ch.choose(u.len());
            let (name, p) = &u[i];
            let crc = ch.flag();
            let ev = around();
            for at in 0..=ev.len() {
                // 0: no second one.
                for second in (0..1).chain(at + 1..ev.len() + 2) {
                    let mut f = FileB::start(crc);
                    for k in 0..=ev.len() {
                        if k == at {
                            f.ev(p)
                        }
                        if second == k + 1 {
                            f.ev(p)
                        }
                        if k < ev.len() {
                            f.ev(&ev[k])
                        }
                    }
                    ch.evals(1);
                    ch.distinct(&f.bytes);
                    if let Err(e) = check_file(&f.bytes, &f.want, FilePlan::default()) {
                        return viol(format!("{} before event {} (checksums {}): {}", name, at, crc, e));
                    }
                }
            }
            ch.outcome(name);
            ch.sample(|| format!("{} at each of {} places", name, ev.len() + 1));
            Ok(())
        }),
        group("mutated", "every event of the pool with every byte replaced (12 values; thorough: all) or cut anywhere: one item for it, every other item as without it", |ch| {
            let p: Vec<_> = pool().into_iter().filter(|x| !x.0.starts_with("format")).collect();
            let (name, g) = ch.pick(&p);
            let at = ch.choose(g.len());
            let n = g[at].body.len();
            let i = ch.choose(n + 1);
            let mut bodies: Vec<Vec<u8>> = vec![g[at].body[..i].to_vec()];
            if i < n {
                let all: Vec<u8> = (0..=255).collect();
                for v in by_tier(&[0u8, 1, 2, 5, 8, 63, 127, 128, 200, 250, 254, 255][..], &all[..]) {
                    let mut b = g[at].body.clone();
                    b[i] = *v;
                    bodies.push(b);
                }
            }
            for b in bodies {
                let mut f = FileB::start(true);
                let others = around();
                let mut mine = 0;
                for (k, q) in others.iter().enumerate() {
                    if k == 4 {
                        for (m, x) in g.iter().enumerate() {
                            if m == at {
                                let mut x = x.clone();
                                x.body = b.clone();
                                mine = f.want.len();
                                f.ev(&x);
                            } else if m < at {
                                f.ev(x);
                            }
                        }
                    }
                    f.ev(q);
                }
                ch.evals(1);
                ch.distinct(&f.bytes);
                let r = read_file(&f.bytes, FilePlan::default(), f.want.len() + 3);
                let what = || format!("{} (event type {}) with payload {}", name, g[at].typ, hex(&b));
                if let Some(e) = r.open {
                    return viol(format!("{}: the file is refused: {}", what(), e));
                }
                ensure!(r.items.len() == f.want.len(), "{}: {} items for {} events, the last of them {}", what(), r.items.len(), f.want.len(), r.items.last().map(show).unwrap_or_default());
                // A table map that still decodes may have taken over the table of the others.
                let replaced = matches!(&r.items[mine], Ok((_, Ev::TableMap(t))) if t.id == 101);
                for k in 0..f.want.len() {
                    if k == mine || (replaced && k > mine && matches!(f.want[k], Ok((_, Ev::Rows(_))))) {
                        continue;
                    }
                    // Events of the group on a table whose map is the mutated event depend on it.
                    ensure!(same(&r.items[k], &f.want[k]), "{}: another event changed\n got  {}\n want {}", what(), show(&r.items[k]), show(&f.want[k]));
                }
                ch.outcome(&(g[at].typ, r.items[mine].is_ok()));
            }
            Ok(())
        }),
    ]
}
