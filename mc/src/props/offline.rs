//! C01, C02: reading binlog files.
use super::common::*;
use crate::env::FilePlan;
use crate::explore::*;
use crate::obs::*;
use crate::wire::*;
use crate::Check;
use mysql_cdc::binlog_reader::BinlogReader;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            level: "exploration",
            rule: "A case is a well-formed binlog file (a sequence of events from a reference encoder) together with a plan of how the kernel answers every read (length limits, split points, interruptions); distinct by file and plan, non-trivial: at least one event after the format description event.",
            assumptions: &[
                "the reference encoder writes what MySQL 5.0-8.0 and MariaDB 5.3-10.x write; it is derived from their documentation and sources",
                "reads reach the kernel through libc (read, readv, recv), where they are shortened and interrupted",
            ],
            groups: c01,
        },
        Check {
            id: "C02",
            level: "fault_enumeration",
            rule: "A case is a well-formed file and one fault: a cut at a byte offset, a failing read at a byte offset with an errno, or a damaged magic number; distinct by file and fault, non-trivial: the fault falls inside the file.",
            assumptions: &["a torn file is a prefix of the complete one, as left by a crash or by a server still writing"],
            groups: c02,
        },
    ]
}

fn run(ch: &mut Ch, f: &FileB, plan: FilePlan) -> Res {
    ch.step(f.want.len() as u64 + 1);
    ch.distinct(&(&f.bytes, &plan));
    check_file(&f.bytes, &f.want, plan).or_else(|e| viol(e))
}

fn c01() -> Vec<Group> {
    vec![
        group("sequences", "every sequence of 1..3 event groups out of 23 templates, with and without checksums", |ch| {
            let ts = templates();
            let crc = ch.flag();
            let n = 1 + ch.choose(3);
            let mut f = FileB::start(crc);
            let mut names = vec![];
            for _ in 0..n {
                let t = ch.pick(&ts);
                names.push(t.0);
                for p in &t.1 {
                    f.ev(p)
                }
            }
            ch.sample(|| format!("crc={} {}", crc, names.join(", ")));
            ch.outcome(&names);
            run(ch, &f, FilePlan::default())
        }),
        group("sizes", "an event of every boundary size between small ones, under every chunking policy", |ch| {
            let crc = ch.flag();
            let small = [0u64, 1, 4, 5, 250, 251, 255, 256, 1023, 4095, 4096, 8191, 8192];
            let mut sizes: Vec<u64> = small.to_vec();
            for b in [32768u64, 65536, 1 << 20] {
                sizes.extend(b - 24..=b + 5)
            }
            if thorough() {
                for b in [(1u64 << 24) - 1, 1 << 24, (1 << 24) + 300] {
                    sizes.push(b)
                }
            } else {
                sizes.push(1 << 24)
            }
            let n = ch.of(&sizes) as usize;
            let twice = ch.flag();
            let caps: &[usize] = if n > 40000 { &[0, 4093, 32768, 65537] } else { &[0, 1, 3, 7, 18, 19, 4093, 32768] };
            let cap = ch.of(caps);
            let intr_all = ch.flag();
            let mut f = FileB::start(crc);
            f.ev(&p_xid(1));
            let mut body: Vec<u8> = (0..n).map(|i| (i % 251) as u8 % 95 + 32).collect();
            for i in 0..1 + twice as usize {
                if n > 0 {
                    body[n - 1] = b'A' + i as u8;
                }
                f.ev(&p_annotate(std::str::from_utf8(&body).unwrap()));
            }
            f.ev(&p_query("", "COMMIT"));
            ch.sample(|| format!("crc={} event body of {} bytes, reads of at most {}, interrupted={}", crc, n, cap, intr_all));
            ch.outcome(&n);
            run(ch, &f, FilePlan { cap, intr_all, ..Default::default() })
        }),
        group("splits", "one file of every event type: every one and every two short reads, each with an interruption at every read", |ch| {
            let crc = ch.flag();
            let mut f = FileB::start(crc);
            f.ev(&p_mygtid(1, SID, 5));
            for p in &templates()[2].1 {
                f.ev(p)
            }
            f.ev(&p_xid(3));
            let n = f.bytes.len() as u64;
            let a = ch.range(0, n - 1);
            let plan = if ch.flag() {
                // A second split behind the first.
                let b = if thorough() { ch.range(a, n) } else { (a + 1 + ch.range(0, 24)).min(n) };
                FilePlan { splits: vec![a, b], ..Default::default() }
            } else {
                FilePlan { splits: vec![a], intr: vec![ch.range(0, 12)], ..Default::default() }
            };
            ch.sample(|| format!("{:?}", plan));
            run(ch, &f, plan)
        }),
        group("headers", "every combination of boundary values of the header fields", |ch| {
            let mut f = FileB::start(true);
            let p = p_query("d", "x");
            let len = 19 + p.body.len() as u32 + 4;
            let h = Hdr {
                ts: ch.of(&[0, 1, 0x7fff_ffff, 0x8000_0000, u32::MAX]),
                typ: p.typ,
                server_id: ch.of(&[0, 1, 255, 256, u32::MAX]),
                len,
                next: ch.of(&[0, 4, 0x7fff_ffff, 0x8000_0000, u32::MAX]),
                flags: ch.of(&[0, 1, 8, 0x20, 0x40, 0x80, 0x100, 0x8000, u16::MAX]),
            };
            f.bytes.extend(event(&h, &p.body, true));
            f.want.push(Ok((h, p.ev.unwrap())));
            f.ev(&p_xid(1));
            run(ch, &f, FilePlan::default())
        }),
        group("header flags", "every event type with every one of the 16 header flags, with every two of them and with all", |ch| {
            let crc = ch.flag();
            let ts = templates();
            let (name, ps) = ch.pick(&ts);
            let a = ch.range(0, 15);
            let mut f = FileB::start(crc);
            for b in a..=16 {
                for p in ps {
                    let mut p = p.clone();
                    p.flags = if b == 16 { u16::MAX } else { 1 << a | 1 << b };
                    f.ev(&p);
                }
                f.ev(&p_xid(b));
            }
            ch.sample(|| format!("{} with flag {}", name, a));
            run(ch, &f, FilePlan::default())
        }),
        group("ways of reading", "every sequence of 3 (thorough: 4) ways of taking items (next, nth, take, step_by, size_hint, read_event) and every way of taking the rest", |ch| {
            let crc = ch.flag();
            let ways: Vec<Way> = (0..by_tier(3, 4)).map(|_| ch.of(&WAYS)).collect();
            let rest = ch.of(&RESTS);
            let plain = ch.flag();
            let mut f = FileB::start(crc);
            dependent(&mut f);
            ch.step(f.want.len() as u64);
            ch.distinct(&(crc, &ways, rest, plain));
            ch.sample(|| format!("{:?}, then {:?}", ways, rest));
            let r = match BinlogReader::new(memfd(&f.bytes)) {
                Err(e) => return viol(format!("the file is refused: {}", err(&e))),
                Ok(r) => r,
            };
            let r = if plain { r } else { r.read_events() };
            walk(r, &ways, rest, &f.want, |r| r.read_event()).or_else(|e| viol(format!("{:?}, then {:?}: {}", ways, rest, e)))
        }),
        group("long", "files of many events of cycling types and sizes", |ch| {
            let crc = ch.flag();
            let n = *ch.pick(by_tier(&[255usize, 256, 257, 5000, 66000][..], &[255, 256, 257, 5000, 65535, 65537, 200_000]));
            let stride = ch.of(&[1usize, 7, 11]);
            let ts = templates();
            let mut f = FileB::start(crc);
            for i in 0..n {
                for p in &ts[(i * stride) % ts.len()].1 {
                    f.ev(p)
                }
                if i % 97 == 5 {
                    f.ev(&p_annotate(&"q".repeat((i * 37) % 70000)));
                }
            }
            ch.sample(|| format!("{} events, {} bytes", f.want.len(), f.bytes.len()));
            let cap = ch.of(&[0, 1000]);
            run(ch, &f, FilePlan { cap, ..Default::default() })
        }),
        group_solo("more than four gigabytes", "files that go on beyond 2 and 4 GiB, in events of 16 MiB and of 64 MiB", |ch| {
            let size = ch.of(&[16u64 << 20, 64 << 20]);
            let beyond = ch.of(by_tier(&[4u64 << 30][..], &[2 << 30, 4 << 30]));
            ch.distinct(&(size, beyond));
            huge_file(ch, size, beyond + 3 * size).or_else(|e| viol(format!("events of {} bytes beyond byte {}: {}", size, beyond, e)))
        }),
    ]
}

/// Reads a file of at least `length` bytes that consists of large events of an unmodelled type, with a commit and a
/// statement in between. Their content is a hole in the file.
fn huge_file(ch: &mut Ch, size: u64, length: u64) -> Result<(), String> {
    let mut f = FileB::start(false);
    let mut file = memfd(&f.bytes);
    let mut at = f.bytes.len() as u64;
    let put = |file: &std::fs::File, at: u64, b: &[u8]| std::os::unix::fs::FileExt::write_all_at(file, b, at).map_err(|e| e.to_string());
    let mut want = std::mem::take(&mut f.want);
    let mut n = 0u32;
    while at < length {
        n += 1;
        let large = Proto { typ: 250, body: vec![], ev: Some(Ev::Unknown), ..p_xid(0) };
        for (p, len) in [(large, size), (p_xid(n as u64), 27), (p_query("shop", "select 1"), 0)] {
            let len = if len == 0 { 19 + p.body.len() as u64 } else { len };
            let h = Hdr { ts: n, typ: p.typ, server_id: 7, len: len as u32, next: (at + len) as u32, flags: 0 };
            let b = event(&h, &p.body, false);
            put(&file, at, &b)?;
            at += len;
            want.push(Ok((h, p.ev.unwrap())));
        }
    }
    file.set_len(at).map_err(|e| e.to_string())?;
    std::io::Seek::rewind(&mut file).map_err(|e| e.to_string())?;
    ch.step(want.len() as u64);
    ch.sample(|| format!("{} events, {} bytes", want.len(), at));
    let reader = mysql_cdc::binlog_reader::BinlogReader::new(file).map_err(|e| err(&e))?;
    let mut got = vec![];
    for x in reader.read_events().take(want.len() + 2) {
        ch.tick();
        got.push(item(&x));
    }
    compare(&got, &want)
}

/// Judges reading the first `n` bytes of the file.
fn cut(f: &FileB, n: usize) -> Result<(), String> {
    let whole = f.ends.iter().filter(|e| **e <= n).count();
    if n < 4 {
        let r = read_file(&f.bytes[..n], FilePlan::default(), 3);
        return match r.open {
            Some(_) => Ok(()),
            None => Err(format!("a file of {} bytes was accepted", n)),
        };
    }
    check_file(&f.bytes[..n], &f.want[..whole], FilePlan::default()).map_err(|e| format!("file of {} bytes cut at {} ({} complete events): {}", f.bytes.len(), n, whole, e))
}

fn c02() -> Vec<Group> {
    vec![
        group("cuts", "every pair of event templates, with and without checksums, cut at every byte", |ch| {
            let ts = templates();
            let crc = ch.flag();
            let mut f = FileB::start(crc);
            let (a, b) = (ch.pick(&ts), ch.pick(&ts));
            for p in a.1.iter().chain(&b.1) {
                f.ev(p)
            }
            ch.sample(|| format!("{} then {}, {} bytes, cut at each", a.0, b.0, f.bytes.len()));
            for n in 0..=f.bytes.len() {
                if let Err(e) = cut(&f, n) {
                    return viol(e);
                }
                ch.distinct(&(&f.bytes, n));
                ch.evals(1);
            }
            ch.evals(0);
            ch.outcome(&f.want.len());
            Ok(())
        }),
        group("large cuts", "a large event cut around every buffer boundary and around its end", |ch| {
            let crc = ch.flag();
            let n = ch.of(&[32768usize - 4, 32768 - 1, 32768, 32768 + 1, 65536, 100_000]);
            let mut f = FileB::start(crc);
            f.ev(&p_annotate(&"s".repeat(n)));
            f.ev(&p_xid(1));
            let end = f.ends[1];
            let start = f.ends[0];
            let mut at: Vec<usize> = vec![];
            for c in [start, start + 19, start + 4096, start + 8192, start + 32768, start + 19 + 32768, start + 65536, end, f.bytes.len()] {
                at.extend((c.saturating_sub(25)..c + 25).filter(|x| *x <= f.bytes.len()))
            }
            let n = ch.of(&at);
            ch.distinct(&(f.bytes.len(), crc, n));
            cut(&f, n).or_else(|e| viol(e))
        }),
        group("read errors", "a read error at every byte of a file, for several error codes", |ch| {
            let crc = ch.flag();
            let mut f = FileB::start(crc);
            f.ev(&p_mygtid(1, SID, 5));
            for p in &templates()[2 + ch.choose(2)].1 {
                f.ev(p)
            }
            f.ev(&p_xid(3));
            let off = ch.range(0, f.bytes.len() as u64);
            let errno = ch.of(&[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EISDIR, libc::ESTALE, libc::EPIPE, libc::ETIMEDOUT, libc::EAGAIN]);
            ch.distinct(&(&f.bytes, off, errno));
            let whole = f.ends.iter().filter(|e| **e as u64 <= off).count();
            let r = read_file(&f.bytes, FilePlan { fail: Some((off, errno)), ..Default::default() }, whole + 1);
            ch.outcome(&(whole, r.open.is_some()));
            let what = format!("read error {} at byte {} of {}", errno, off, f.bytes.len());
            ch.sample(|| what.clone());
            if off < 4 {
                ensure!(r.open.is_some(), "{}: the file was opened without an error", what);
                return Ok(());
            }
            if let Some(e) = r.open {
                // Reading ahead is allowed to fail early, but not before the magic number was there.
                ensure!(!e.is_empty(), "{}: {}", what, e);
                return Ok(());
            }
            ensure!(!r.ended, "{}: reported as the end of the file after {} events", what, r.items.len());
            ensure!(r.items.last().map(|i| i.is_err()).unwrap_or(false), "{}: not reported as an error: {:?}", what, r.items.last().map(show));
            // Everything delivered before the error is genuine.
            let k = r.items.len() - 1;
            if let Err(e) = compare(&r.items[..k], &f.want[..k]) {
                return viol(format!("{}: {}", what, e));
            }
            Ok(())
        }),
        group("magic", "every damaged or short magic number", |ch| {
            let mut f = FileB::start(true);
            f.ev(&p_xid(1));
            let mut b = f.bytes.clone();
            let what;
            match ch.choose(3) {
                0 => {
                    let i = ch.choose(4);
                    let v = ch.choose(256) as u8;
                    if v == MAGIC[i] {
                        return Ok(());
                    }
                    b[i] = v;
                    what = format!("byte {} of the magic number is {}", i, v);
                }
                1 => {
                    b.truncate(ch.choose(4));
                    what = format!("file of {} bytes", b.len());
                }
                _ => {
                    let alt: [&[u8]; 6] = [b"\0\0\0\0", b"nib\xfe", b"\xfebi\0", b"\xfd\x62\x69\x6e", b"bin\xfe", b"\xff\xfe\x62\x69"];
                    let a = ch.pick(&alt);
                    b[..4].copy_from_slice(a);
                    what = format!("magic number {:?}", a);
                }
            }
            ch.distinct(&b);
            ch.sample(|| what.clone());
            let r = read_file(&b, FilePlan::default(), 3);
            ch.outcome(&r.open.is_some());
            ensure!(r.open.is_some(), "{}: the file was accepted", what);
            Ok(())
        }),
    ]
}
