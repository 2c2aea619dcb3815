//! Shared by the checks: reading files, event templates.
use crate::env::{self, FileLog, FilePlan};
use crate::obs::*;
use crate::wire::*;
use mysql_cdc::binlog_reader::BinlogReader;
use mysql_cdc::errors::Error;
use mysql_cdc::events::{binlog_event::BinlogEvent, event_header::EventHeader};
use std::fs::File;
use std::os::fd::FromRawFd;

pub fn memfd(bytes: &[u8]) -> File {
    unsafe {
        let fd = libc::memfd_create(b"mc\0".as_ptr() as *const libc::c_char, libc::MFD_CLOEXEC);
        assert!(fd >= 0, "memfd");
        let mut at = 0;
        while at < bytes.len() {
            let r = libc::syscall(libc::SYS_pwrite64, fd, bytes.as_ptr().add(at), bytes.len() - at, at);
            assert!(r > 0, "memfd write");
            at += r as usize;
        }
        File::from_raw_fd(fd)
    }
}
pub struct Read {
    /// The error of opening, if it failed.
    pub open: Option<String>,
    pub items: Vec<Item>,
    /// The iteration ended within the allowed number of items.
    pub ended: bool,
    pub log: FileLog,
}
/// Opens and reads a file with the code under test; takes at most `max` items.
pub fn read_file(bytes: &[u8], plan: FilePlan, max: usize) -> Read {
    let f = memfd(bytes);
    let (r, log) = env::with_file(plan, move || match BinlogReader::new(f) {
        Err(e) => (Some(err(&e)), vec![], true),
        Ok(r) => {
            let mut items = vec![];
            let mut ended = false;
            let mut it = r.read_events();
            while items.len() < max {
                match it.next() {
                    None => {
                        ended = true;
                        break;
                    }
                    Some(x) => items.push(item(&x)),
                }
            }
            (None, items, ended)
        }
    });
    Read { open: r.0, items: r.1, ended: r.2, log }
}
/// Reads a well-formed file and compares.
pub fn check_file(bytes: &[u8], want: &[Item], plan: FilePlan) -> Result<(), String> {
    let what = format!("{:?}", plan);
    let r = read_file(bytes, plan, want.len() + 3);
    if let Some(e) = r.open {
        return Err(format!("the file was refused: {} (reads: {})", e, what));
    }
    compare(&r.items, want).map_err(|e| format!("{} (reads: {})", e, what))?;
    if !r.ended {
        return Err(format!("the iteration does not end after the last event (reads: {})", what));
    }
    Ok(())
}

/// One way of taking items from a reader or a stream.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Way {
    Next,
    Nth(usize),
    Take(usize),
    /// Every second item, two of them.
    Step,
    /// What remains, as the iterator estimates it.
    Hint,
    /// Without the iterator: `read_event` of the reader.
    Direct,
}
/// How the rest is taken.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Rest {
    Collect,
    Count,
    Last,
    Fold,
    Loop,
    Skip,
}
pub const WAYS: [Way; 10] = [Way::Next, Way::Nth(0), Way::Nth(1), Way::Nth(2), Way::Nth(4), Way::Nth(30), Way::Take(2), Way::Step, Way::Hint, Way::Direct];
pub const RESTS: [Rest; 6] = [Rest::Collect, Rest::Count, Rest::Last, Rest::Fold, Rest::Loop, Rest::Skip];
type Raw = Result<(EventHeader, BinlogEvent), Error>;
/// Takes the items in these ways; each has to be the one that `next` would have delivered there.
pub fn walk<I: Iterator<Item = Raw>>(mut it: I, ways: &[Way], rest: Rest, want: &[Item], direct: impl Fn(&mut I) -> Raw) -> Result<(), String> {
    let mut i = 0;
    let one = |at: usize, way: &dyn std::fmt::Debug, got: Option<Raw>| match (got.map(|x| item(&x)), want.get(at)) {
        (None, None) => Ok(()),
        (Some(g), Some(w)) if same(&g, w) => Ok(()),
        (g, w) => Err(format!("{:?} at item {}:\n got  {:?}\n want {:?}", way, at, g.map(|x| show(&x)), w.map(show))),
    };
    for (n, w) in ways.iter().enumerate() {
        let way = (n, w);
        match *w {
            Way::Next => {
                one(i, &way, it.next())?;
                i += 1
            }
            Way::Nth(k) => {
                one(i + k, &way, it.nth(k))?;
                i += k + 1
            }
            Way::Take(k) => {
                let got: Vec<Raw> = it.by_ref().take(k).collect();
                let mut got = got.into_iter();
                for j in 0..k {
                    one(i + j, &way, got.next())?
                }
                i += k
            }
            Way::Step => {
                let got: Vec<Raw> = it.by_ref().step_by(2).take(2).collect();
                let mut got = got.into_iter();
                one(i, &way, got.next())?;
                one(i + 2, &way, got.next())?;
                i += 3
            }
            Way::Hint => {
                let (lo, hi) = it.size_hint();
                let left = want.len() - i;
                if lo > left || hi.map_or(false, |h| h < left) {
                    return Err(format!("{:?} at item {}: {} to {:?} items are said to remain, there are {}", way, i, lo, hi, left));
                }
            }
            Way::Direct => {
                let got = direct(&mut it);
                if i < want.len() {
                    one(i, &way, Some(got))?
                } else if got.is_ok() {
                    return Err(format!("{:?} at the end: an event", way));
                }
                i += 1
            }
        }
        if i >= want.len() && it.size_hint().0 > 0 {
            return Err(format!("behind the last item {} more are said to remain", it.size_hint().0));
        }
        if i > want.len() {
            return Ok(());
        }
    }
    let left = &want[i..];
    let got: Vec<Item> = match rest {
        Rest::Collect => it.collect::<Vec<Raw>>().iter().map(item).collect(),
        Rest::Count => {
            let n = it.count();
            return if n == left.len() { Ok(()) } else { Err(format!("{} items from item {} on are counted, there are {}", n, i, left.len())) };
        }
        Rest::Last => return one(if left.is_empty() { want.len() } else { want.len() - 1 }, &rest, it.last()),
        Rest::Fold => it.fold(vec![], |mut v, x| {
            v.push(item(&x));
            v
        }),
        Rest::Loop => {
            let mut v = vec![];
            for x in it {
                v.push(item(&x));
                if v.len() > left.len() + 2 {
                    break;
                }
            }
            v
        }
        Rest::Skip => {
            let got: Vec<Item> = it.skip(1).collect::<Vec<Raw>>().iter().map(item).collect();
            return compare(&got, left.get(1..).unwrap_or(&[]));
        }
    };
    compare(&got, left)
}
/// Events that depend on those before them, some undecodable or unknown.
pub fn dependent(f: &mut FileB) {
    for p in [p_table(&small_table(7)), p_rows(&small_rows(Kind::Write, 2, 7)), p_xid(1), p_small_table(8, true), p_rows(&small_rows(Kind::Update, 2, 8)), p_rows(&small_rows(Kind::Delete, 1, 7))] {
        f.ev(&p)
    }
    f.ev(&bad(XID, vec![1, 2]));
    f.ev(&p_unknown(200, &[3; 20]));
    f.ev(&p_annotate(&"q".repeat(70000)));
    f.ev(&p_rows(&small_rows(Kind::Write, 1, 8)));
}

pub const SID: [u8; 16] = [0x24, 0xbc, 0x78, 0x50, 0x2c, 0x16, 0x11, 0xe6, 0xa0, 0x73, 0x02, 0x42, 0xac, 0x11, 0x00, 0x01];
pub const SID2: [u8; 16] = [0xf4, 0x42, 0x51, 0x0a, 0x28, 0x81, 0x11, 0xea, 0xb1, 0xdd, 0x27, 0x91, 0x61, 0x33, 0xdb, 0xb2];

pub fn small_table(id: u64) -> Table {
    Table::new(id, vec![long(), varchar(40), blob(2)])
}
/// The map of `small_table`, with the optional metadata of MySQL 8 or without any.
pub fn p_small_table(id: u64, described: bool) -> Proto {
    let t = small_table(id);
    if !described {
        return p_table(&t);
    }
    // Signedness of one numeric column, then the character sets of the text columns.
    let o = OptMeta { signedness: Some(vec![true]), default_charset: Some((33, vec![])), ..Default::default() };
    proto(TABLE_MAP, t.body(&[1, 1, 0x80, 2, 1, 33]), t.ev_opt(Some(o)))
}
pub fn small_rows(kind: Kind, version: u8, id: u64) -> LRows {
    let r = |n: u32, s: &str, b: &[u8]| vec![Some(c_long(n)), Some(c_varchar(40, s)), Some(c_blob(2, b))];
    let l = LRows::new(kind, version, id, 3);
    match kind {
        Kind::Update => l.upd(r(1, "before", b"x"), vec![Some(c_long(2)), None, Some(c_blob(2, b"after"))]),
        _ => l.row(r(7, "seven", &[0, 255, 254])).row(vec![Some(c_long(u32::MAX)), None, Some(c_blob(2, b""))]),
    }
}
/// Groups of events as servers write them: every type the library models and some it does not.
pub fn templates() -> Vec<(&'static str, Vec<Proto>)> {
    let mut prev = Sets::new();
    prev.insert(SID, vec![(1, 5), (7, 7)]);
    prev.insert(SID2, vec![(3, u32::MAX as u64 + 5)]);
    let rows = |k, v, id| vec![p_table(&small_table(id)), p_rows(&small_rows(k, v, id))];
    vec![
        ("query", vec![p_query("shop", "CREATE TABLE t (a INT)")]),
        ("xid", vec![p_xid(0x0102030405060708)]),
        ("insert v2", rows(Kind::Write, 2, 101)),
        ("update v2", rows(Kind::Update, 2, 102)),
        ("delete v2", rows(Kind::Delete, 2, 103)),
        ("insert v1", rows(Kind::Write, 1, 104)),
        ("update v1", rows(Kind::Update, 1, 105)),
        ("delete v1", rows(Kind::Delete, 1, 106)),
        ("rotate", vec![p_rotate(4, "mysql-bin.000009")]),
        ("mysql gtid", vec![p_mygtid(1, SID, 42)]),
        ("previous gtids", vec![p_myprev(&prev)]),
        ("rows query", vec![p_rowsquery("INSERT INTO orders VALUES (1)")]),
        ("mariadb gtid", vec![p_magtid(3, 9, 77, 2)]),
        ("mariadb gtid list", vec![p_malist(&[(0, 1, 270), (1, 2, u64::MAX)])]),
        ("annotate rows", vec![p_annotate("DELETE FROM orders")]),
        ("int var", vec![p_intvar(2, 99)]),
        ("user var", vec![p_uservar("v", None)]),
        ("heartbeat", vec![p_heartbeat("mysql-bin.000008")]),
        ("stop", vec![p_unknown(STOP, &[])]),
        ("rand", vec![p_unknown(RAND, &[1; 16])]),
        ("checkpoint", vec![p_unknown(MA_CHECKPOINT, b"\x10\0\0\0mysql-bin.000007")]),
        ("transaction context", vec![p_unknown(36, &[9; 40])]),
        ("unknown type", vec![p_unknown(255, &[255; 3])]),
    ]
}
