//! C08, C09, C10: every cell decodes to the logged value.
use super::common::*;
use crate::env::FilePlan;
use crate::explore::*;
use crate::obs::*;
use crate::wire::*;
use crate::Check;

const RULE: &str = "A case is one column definition and one value of it, logged in a row between two sentinel cells by a reference encoder; distinct by definition and stored bytes, non-trivial: all. Values are enumerated completely where the domain allows it, otherwise as every product of boundary digits, bytes or fields.";
const ASSUME: &[&str] = &["the reference encoder stores values as MySQL and MariaDB do (Field::pack, my_decimal.c, my_time.c)"];

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C08", level: "exploration", rule: RULE, assumptions: ASSUME, groups: c08 },
        Check { id: "C09", level: "exploration", rule: RULE, assumptions: ASSUME, groups: c09 },
        Check { id: "C10", level: "exploration", rule: RULE, assumptions: ASSUME, groups: c10 },
    ]
}

const LEFT: u8 = 0xa5;
const RIGHT: u32 = 0x11223344;
fn event_file(c: &Col, body: &LRows) -> FileB {
    let t = Table::new(9, vec![tiny(), c.clone(), long()]);
    let mut f = FileB::start(false);
    f.ev(&p_table(&t));
    f.ev(&p_rows(body));
    f
}
fn rows_of(vals: &[Cell], kind: Kind, version: u8) -> LRows {
    let mut l = LRows::new(kind, version, 9, 3);
    for v in vals {
        l = l.row(vec![Some(c_tiny(LEFT)), Some(v.clone()), Some(c_long(RIGHT))]);
    }
    l
}
/// Every value decodes to what was logged; values go in events of up to `per` rows.
fn all(ch: &mut Ch, c: &Col, vals: &[Cell], per: usize) -> Res {
    for chunk in vals.chunks(per) {
        let f = event_file(c, &rows_of(chunk, Kind::Write, 2));
        let r = read_file(&f.bytes, FilePlan::default(), 5);
        ch.evals(chunk.len() as u64);
        for v in chunk {
            ch.distinct(&(c, &v.bytes));
        }
        let got = match r.items.get(2) {
            Some(Ok((_, Ev::Rows(e)))) => &e.rows,
            other => return locate(c, chunk, other),
        };
        let right = Some(MVal::Int(RIGHT));
        let left = Some(MVal::Tiny(LEFT));
        for (i, v) in chunk.iter().enumerate() {
            let ok = got.get(i).map(|(r, u)| u.is_none() && r.len() == 3 && r[0] == left && r[2] == right && r[1].as_ref() == Some(&v.val)).unwrap_or(false);
            if !ok {
                return locate(c, std::slice::from_ref(v), None);
            }
        }
        ensure!(got.len() == chunk.len() && r.ended && r.items.len() == 3, "{:?}: {} rows were logged, {} delivered", c, chunk.len(), got.len());
    }
    Ok(())
}
/// Finds the value that fails on its own.
fn locate(c: &Col, vals: &[Cell], what: Option<&Item>) -> Res {
    for v in vals {
        let f = event_file(c, &rows_of(std::slice::from_ref(v), Kind::Write, 2));
        let r = read_file(&f.bytes, FilePlan::default(), 5);
        if let Err(e) = compare(&r.items, &f.want) {
            return viol(format!("column type {} metadata {:?}, stored bytes {:?}, logged value {:?}: {}", c.typ, c.meta, &v.bytes[..v.bytes.len().min(80)], short(&v.val), e));
        }
    }
    viol(format!("column type {} metadata {:?}: a value decodes alone but not among {} rows ({})", c.typ, c.meta, vals.len(), what.map(show).unwrap_or_default()))
}
fn short(v: &MVal) -> String {
    let s = format!("{:?}", v);
    s.chars().take(120).collect()
}
/// The value must be reported as an error, once, and what follows must be read normally.
fn refused(ch: &mut Ch, c: &Col, bytes: Vec<u8>, why: &str) -> Res {
    ch.distinct(&(c, &bytes));
    let v = cell(bytes, MVal::Tiny(0));
    let mut f = event_file(c, &rows_of(std::slice::from_ref(&v), Kind::Write, 2));
    *f.want.last_mut().unwrap() = Err(why.to_string());
    f.ev(&p_xid(5));
    let r = read_file(&f.bytes, FilePlan::default(), 6);
    if let Err(e) = compare(&r.items, &f.want) {
        return viol(format!("column type {} metadata {:?}, stored bytes {:?} ({}): {}", c.typ, c.meta, v.bytes, why, e));
    }
    Ok(())
}

/// Every word of `n` letters of the alphabet.
fn words(alpha: &[u8], n: usize) -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        v = v.iter().flat_map(|w: &Vec<u8>| alpha.iter().map(move |a| [w.as_slice(), &[*a]].concat())).collect()
    }
    v
}
fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}

fn char_col(packed: u16) -> Col {
    col(254, &[0xfe ^ ((packed & 0x300) >> 4) as u8, packed as u8])
}
fn text(n: usize, seed: usize) -> String {
    let alpha = ["a", "Z", "0", "é", " ", "ß", "€", "漢", "🦀", "\0", "\u{7f}", "\u{800}", "\u{ffff}", "\u{10ffff}"];
    let mut s = String::new();
    let mut i = seed;
    while s.len() < n {
        let a = alpha[i % alpha.len()];
        if s.len() + a.len() <= n {
            s.push_str(a)
        }
        i += 1;
        if s.len() < n && s.len() + 4 > n {
            s.push('x')
        }
    }
    s
}

fn c08() -> Vec<Group> {
    vec![
        group("integers", "TINYINT and SMALLINT: all values; MEDIUMINT, INT, BIGINT: every product of boundary bytes", |ch| {
            let hi: &[u8] = &[0, 1, 0x7f, 0x80, 0xfe, 0xff];
            let which = ch.choose(5);
            let (c, n) = [(tiny(), 1), (col(2, &[]), 2), (col(9, &[]), 3), (long(), 4), (col(8, &[]), 8)][which].clone();
            // The first two bytes are a choice, the rest is enumerated below it.
            let small: &[u8] = by_tier(&[0, 0x7f, 0x80, 0xff], &[0, 1, 0x7f, 0x80, 0xff]);
            let words = match which {
                0 => (0..=255u8).map(|x| vec![x]).collect(),
                1 => {
                    let h = ch.choose(256) as u8;
                    (0..=255u8).map(|x| vec![x, h]).collect()
                }
                2 => words(&(0..=255u8).step_by(by_tier(5, 1)).collect::<Vec<_>>(), 2).into_iter().map(|mut w| {
                    w.push(0);
                    w
                }).collect::<Vec<_>>(),
                3 => words(hi, 4),
                _ => {
                    let a = ch.of(small);
                    let b = ch.of(small);
                    words(small, 6).into_iter().map(|w| [&[a, b], w.as_slice()].concat()).collect()
                }
            };
            let top: Vec<u8> = if which == 2 { vec![ch.choose(256) as u8] } else { vec![] };
            let vals: Vec<Cell> = words
                .into_iter()
                .map(|mut w| {
                    if let Some(t) = top.first() {
                        w[2] = *t
                    }
                    let x = le(&w);
                    cell(w, match which {
                        0 => MVal::Tiny(x as u8),
                        1 => MVal::Small(x as u16),
                        2 => MVal::Medium(x as u32),
                        3 => MVal::Int(x as u32),
                        _ => MVal::Big(x),
                    })
                })
                .collect();
            ch.sample(|| format!("{} values of {} bytes", vals.len(), n));
            all(ch, &c, &vals, 2000)
        }),
        group("floats", "FLOAT and DOUBLE: every product of boundary bytes (zeros, infinities, NaNs, subnormals)", |ch| {
            let alpha: &[u8] = &[0, 1, 0x7f, 0x80, 0xf0, 0xff];
            if ch.flag() {
                let a = ch.of(alpha);
                let b = ch.of(alpha);
                let vals: Vec<Cell> = words(by_tier(&[0, 0x7f, 0x80, 0xf0], alpha), 6)
                    .into_iter()
                    .map(|w| {
                        let b = [w.as_slice(), &[a, b]].concat();
                        let x = le(&b);
                        cell(b, MVal::Double(x))
                    })
                    .collect();
                all(ch, &col(5, &[8]), &vals, 2000)
            } else {
                let top = ch.choose(256) as u8;
                let vals: Vec<Cell> = words(&[0, 1, 0x3f, 0x40, 0x7f, 0x80, 0xc0, 0xff], 3)
                    .into_iter()
                    .map(|w| {
                        let b = [w.as_slice(), &[top]].concat();
                        let x = le(&b) as u32;
                        cell(b, MVal::Float(x))
                    })
                    .collect();
                all(ch, &col(4, &[4]), &vals, 2000)
            }
        }),
        group("char", "CHAR and BINARY of every packed length 0..1023, values of every boundary length", |ch| {
            let max = ch.range(0, 1023) as usize;
            let c = char_col(max as u16);
            let mut lens: Vec<usize> = [0, 1, 2, 127, 128, 250, 251, 254, 255, 256, 257, 511, 512, 767, 768, 1022].iter().cloned().filter(|l| *l < max).collect();
            lens.push(max);
            let vals: Vec<Cell> = lens
                .iter()
                .flat_map(|l| (0..3).map(move |seed| (*l, seed)))
                .map(|(l, seed)| {
                    let s = text(l, seed * 5);
                    cell(if max < 256 { B::new().u8(l as u8) } else { B::new().u16(l as u16) }.str(&s).0, MVal::Str(s))
                })
                .collect();
            ch.sample(|| format!("CHAR of {} bytes, metadata {:?}", max, c.meta));
            ch.outcome(&c.meta);
            all(ch, &c, &vals, 100)
        }),
        group("varchar", "VARCHAR and VARBINARY of every boundary maximum, values of every boundary length", |ch| {
            let maxes: Vec<usize> = vec![1, 2, 3, 127, 128, 254, 255, 256, 257, 258, 511, 512, 1020, 4095, 4096, 16383, 32767, 32768, 65532, 65535];
            let max = ch.of(&maxes);
            let typ = ch.of(&[15u8, 253]);
            let c = col(typ, &(max as u16).to_le_bytes());
            let mut lens: Vec<usize> = [0usize, 1, 2, 3, 127, 128, 254, 255, 256, 257, 258, 511, 512, 513, 1020, 4095, 4096, 16383, 32767, 32768, 65532, 65535].iter().cloned().filter(|l| *l < max).collect();
            lens.push(max);
            let vals: Vec<Cell> = lens.iter().flat_map(|l| (0..3).map(move |seed| c_varchar(max as u16, &text(*l, seed * 4)))).collect();
            all(ch, &c, &vals, 20)
        }),
        group("utf-8", "all strings of one and two bytes, of three and four boundary bytes, in the three character types: valid ones decode to themselves, the others are errors", |ch| {
            let c = ch.of(&[0, 1, 2]);
            let c = [char_col(8), varchar(8), varchar(300)][c].clone();
            let wide = c.typ == 15 && c.meta[1] > 0;
            let enc = |s: &[u8]| if wide { B::new().u16(s.len() as u16) } else { B::new().u8(s.len() as u8) }.bytes(s).0;
            let kind = ch.choose(4);
            let head = match kind {
                0 => vec![],
                1 => vec![ch.choose(256) as u8],
                _ => vec![ch.of(&[0x41, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfc, 0xfe, 0xff])],
            };
            let tails = match kind {
                0 => (0..=255u8).map(|x| vec![x]).collect(),
                1 => (0..=255u8).map(|x| vec![x]).collect(),
                2 => words(&[0, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff], 2),
                _ => words(&[0x41, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0], 3),
            };
            let mut good = vec![];
            for t in tails {
                let s = [head.as_slice(), &t].concat();
                match std::str::from_utf8(&s) {
                    Ok(x) => good.push(cell(enc(&s), MVal::Str(x.to_string()))),
                    Err(_) => {
                        ch.evals(1);
                        ch.note("invalid", 1);
                        refused(ch, &c, enc(&s), "not valid UTF-8")?
                    }
                }
            }
            all(ch, &c, &good, 300)
        }),
        group("bit", "BIT(1..64): all values up to 10 bits, every value with one or all but one bit set above", |ch| {
            let bits = ch.range(1, 64) as usize;
            let c = col(16, &[(bits % 8) as u8, (bits / 8) as u8]);
            let mask = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
            let mut xs: Vec<u64> = if bits <= by_tier(10, 14) { (0..1 << bits).collect() } else { vec![0, mask, 0xAAAAAAAAAAAAAAAA & mask, 0x5555555555555555 & mask, 0x0123456789abcdef & mask, 0xfedcba9876543210 & mask] };
            for b in 0..bits {
                xs.push(1 << b);
                xs.push(mask ^ (1 << b));
            }
            let vals: Vec<Cell> = xs
                .iter()
                .map(|x| {
                    let n = (bits + 7) / 8;
                    cell(x.to_be_bytes()[8 - n..].to_vec(), MVal::Bit((0..bits).rev().map(|i| x >> i & 1 == 1).collect()))
                })
                .collect();
            ch.sample(|| format!("BIT({}), {} values", bits, vals.len()));
            all(ch, &c, &vals, 2000)
        }),
        group("enum and set", "ENUM of 1 and 2 bytes: all values; SET of 1, 2, 3, 4 and 8 bytes: every product of boundary bytes", |ch| {
            let which = ch.choose(7);
            let (real, n) = [(247u8, 1usize), (247, 2), (248, 1), (248, 2), (248, 3), (248, 4), (248, 8)][which];
            let c = col(254, &[real, n as u8]);
            let alpha: Vec<u8> = if n <= 2 { (0..=255).collect() } else if n < 8 { vec![0, 1, 0x7f, 0x80, 0xff] } else { by_tier(vec![0, 0x80, 0xff], vec![0, 1, 0x80, 0xff]) };
            let vals: Vec<Cell> = words(&alpha, n)
                .into_iter()
                .map(|w| {
                    let x = le(&w);
                    cell(w, if real == 247 { MVal::Enum(x as u32) } else { MVal::Set(x) })
                })
                .collect();
            ch.outcome(&which);
            all(ch, &c, &vals, 2000)
        }),
        group("blobs", "BLOB, TEXT, JSON and GEOMETRY types of every length width, values of every boundary length", |ch| {
            let typ = ch.of(&[249u8, 250, 251, 252, 245, 255]);
            let lb = ch.range(1, 4) as u8;
            let c = col(typ, &[lb]);
            let max = if lb >= 3 { 0x100_0203 } else { (1usize << (8 * lb)) - 1 };
            let lens = [0usize, 1, 2, 3, 127, 128, 254, 255, 256, 257, 4095, 32767, 32768, 65534, 65535, 65536, 65537, 0x1_ffff, 0x2_0304, 0xff_ffff, 0x100_0000, 0x100_0203];
            let l = ch.of(&lens);
            if l > max || (lb == 3 && l >= 1 << 24) {
                return Ok(());
            }
            let v: Vec<u8> = (0..l).map(|i| (i * 7 + i / 256) as u8).collect();
            let mut vals = vec![c_blob(lb, &v)];
            if l < 300 {
                vals.push(c_blob(lb, &vec![0; l]));
                vals.push(c_blob(lb, &vec![0xff; l]));
            }
            if l == 1 {
                vals.extend((0..=255u8).map(|b| c_blob(lb, &[b])))
            }
            ch.sample(|| format!("type {} with {} length bytes, {} data bytes", typ, lb, l));
            ch.outcome(&(typ, lb, l));
            all(ch, &c, &vals, 100)
        }),
        group_solo("large blobs", "values that need 25 bits and more for their length", |ch| {
            let bits = ch.range(25, by_tier(26, 27));
            let typ = ch.of(&[252u8, 245]);
            let l = (1usize << bits) + 3;
            let v: Vec<u8> = (0..l).map(|i| (i * 7 + i / 256) as u8).collect();
            ch.outcome(&(typ, l));
            all(ch, &col(typ, &[4]), &[c_blob(4, &v)], 1)
        }),
    ]
}

/// Fraction of `fsp` digits, given in units of 10^-fsp: stored bytes and milliseconds.
fn frac(fsp: u8, x: u32) -> (Vec<u8>, u32) {
    let micros = x * 10u32.pow(6 - fsp as u32);
    let n = (fsp as usize + 1) / 2;
    let stored = match n {
        0 => 0,
        1 => micros / 10_000,
        2 => micros / 100,
        _ => micros,
    };
    (stored.to_be_bytes()[4 - n..].to_vec(), micros / 1000)
}
fn fractions(fsp: u8) -> Vec<u32> {
    let m = 10u32.pow(fsp as u32);
    if m <= 1000 {
        return (0..m).collect();
    }
    if thorough() && m <= 10_000 {
        return (0..m).collect();
    }
    // Around every millisecond.
    let per = m / 1000;
    let mut v: Vec<u32> = (0..1000).flat_map(|k| [k * per, k * per + 1, k * per + per / 2, k * per + per - 1]).collect();
    v.dedup();
    v
}
fn few_fractions(fsp: u8) -> Vec<u32> {
    let m = 10u32.pow(fsp as u32);
    let mut v: Vec<u32> = [0, 1, 9, 10, 99, 100, 999, 1000, 5001, 99_999, 123_456].iter().cloned().filter(|x| *x < m).collect();
    v.push(m - 1);
    v.push(m / 2);
    v.sort();
    v.dedup();
    v
}

fn c09() -> Vec<Group> {
    vec![
        group("date", "DATE: every year, month 0..12 and day 0..31", |ch| {
            let years: Vec<u16> = by_tier((0..10000).step_by(13).chain([1, 1000, 1969, 1970, 1999, 2000, 2001, 2038, 2155, 9999]).collect(), (0..10000).collect());
            let dec = ch.choose((years.len() + 99) / 100);
            let years = &years[dec * 100..(dec * 100 + 100).min(years.len())];
            let mut vals = vec![];
            for y in years {
                for m in 0..=12u8 {
                    for d in 0..=31u8 {
                        let x = (*y as u32) << 9 | (m as u32) << 5 | d as u32;
                        vals.push(cell(x.to_le_bytes()[..3].to_vec(), MVal::Date(*y, m, d)));
                    }
                }
            }
            ch.sample(|| format!("{} dates of the years {}..{}", vals.len(), years[0], years[years.len() - 1]));
            all(ch, &col(10, &[]), &vals, 4000)
        }),
        group("time, old format", "TIME: every hour 0..838, minute and second; negative values are errors", |ch| {
            let c = col(11, &[]);
            let h = ch.range(0, 838) as u32;
            let mut vals = vec![];
            let ms: Vec<u32> = by_tier(vec![0, 1, 9, 10, 29, 30, 31, 58, 59], (0..60).collect());
            for m in &ms {
                for s in by_tier(&[0u32, 1, 9, 10, 31, 58, 59][..], &(0..60).collect::<Vec<_>>()) {
                    let x = h * 10000 + m * 100 + s;
                    vals.push(cell(x.to_le_bytes()[..3].to_vec(), MVal::Time(h as i16, *m as u8, *s as u8, 0)));
                }
            }
            all(ch, &c, &vals, 4000)?;
            for (m, s) in [(0, 0), (0, 1), (1, 0), (30, 30), (59, 59)] {
                let x = -((h * 10000 + m * 100 + s) as i32);
                if x == 0 {
                    continue;
                }
                ch.evals(1);
                refused(ch, &c, x.to_le_bytes()[..3].to_vec(), "negative TIME")?;
            }
            Ok(())
        }),
        group("time", "TIME(0..6): every hour, boundary minutes and seconds (all in the thorough tier), boundary fractions", |ch| {
            let fsp = ch.range(0, 6) as u8;
            let h = ch.range(0, 838) as u32;
            let c = col(19, &[fsp]);
            let ms: Vec<u32> = by_tier(vec![0, 1, 31, 32, 59], (0..60).collect());
            let ss: Vec<u32> = by_tier(vec![0, 1, 31, 32, 59], (0..60).collect());
            let fr = if thorough() && fsp > 0 { vec![0, 1, 10u32.pow(fsp as u32) - 1] } else { few_fractions(fsp) };
            let mut vals = vec![];
            for m in &ms {
                for s in &ss {
                    for f in &fr {
                        let (b, ms) = frac(fsp, *f);
                        let x = 0x800000 | h << 12 | m << 6 | s;
                        vals.push(cell([&x.to_be_bytes()[1..], &b].concat(), MVal::Time(h as i16, *m as u8, *s as u8, ms)));
                    }
                }
            }
            all(ch, &c, &vals, 4000)?;
            // A negative time of the same parts: the packed number is negated as a whole, fraction included.
            for (m, s) in [(0, 0), (0, 1), (59, 59)] {
                for f in [0, 10u32.pow(fsp as u32) - 1] {
                    let n = (fsp as usize + 1) / 2;
                    let unit = 1i64 << (8 * n);
                    let (b, _) = frac(fsp, f);
                    let packed = ((h << 12 | m << 6 | s) as i64) * unit + b.iter().fold(0i64, |a, x| a << 8 | *x as i64);
                    if packed == 0 {
                        continue;
                    }
                    let x = 0x800000 * unit - packed;
                    ch.evals(1);
                    refused(ch, &c, x.to_be_bytes()[8 - 3 - n..].to_vec(), "negative TIME")?;
                }
            }
            Ok(())
        }),
        group("fractions", "TIME, DATETIME and TIMESTAMP with every fraction of 0..3 digits (4 in the thorough tier) and fractions around every millisecond for more", |ch| {
            let fsp = ch.range(0, 6) as u8;
            let which = ch.choose(3);
            let typ = [19u8, 18, 17][which];
            let c = col(typ, &[fsp]);
            let vals: Vec<Cell> = fractions(fsp)
                .iter()
                .map(|f| {
                    let (b, ms) = frac(fsp, *f);
                    match which {
                        0 => {
                            let x = 0x800000u32 | 12 << 12 | 34 << 6 | 56;
                            cell([&x.to_be_bytes()[1..], &b].concat(), MVal::Time(12, 34, 56, ms))
                        }
                        1 => cell([datetime2(2021, 2, 28, 23, 59, 58).as_slice(), &b].concat(), MVal::DateTime(2021, 2, 28, 23, 59, 58, ms)),
                        _ => cell([&1_600_000_000u32.to_be_bytes()[..], &b].concat(), MVal::Timestamp(1_600_000_000_000 + ms as u64)),
                    }
                })
                .collect();
            ch.sample(|| format!("type {} with {} digits: {} fractions", typ, fsp, vals.len()));
            all(ch, &c, &vals, 4000)
        }),
        group("datetime, old format", "DATETIME: every year, month and boundary days, hours, minutes, seconds; every time of day", |ch| {
            let c = col(12, &[]);
            let mut vals = vec![];
            let mut put = |y: u16, mo: u8, d: u8, h: u8, mi: u8, s: u8| {
                let x = ((((y as u64 * 100 + mo as u64) * 100 + d as u64) * 100 + h as u64) * 100 + mi as u64) * 100 + s as u64;
                vals.push(cell(x.to_le_bytes().to_vec(), MVal::DateTime(y, mo, d, h, mi, s, 0)));
            };
            if ch.flag() {
                let step = by_tier(11, 1);
                let k = ch.range(0, 99) as u16;
                for y in (k * 100..k * 100 + 100).step_by(step) {
                    for mo in 0..=12 {
                        for (d, h, mi, s) in [(0, 0, 0, 0), (1, 0, 0, 1), (28, 23, 59, 59), (31, 12, 30, 9), (10, 10, 10, 10)] {
                            put(y, mo, d, h, mi, s)
                        }
                    }
                }
            } else {
                let h = ch.range(0, 23) as u8;
                for mi in 0..60 {
                    for s in 0..60 {
                        put(2038, 1, 19, h, mi, s)
                    }
                }
            }
            all(ch, &c, &vals, 4000)
        }),
        group("datetime", "DATETIME(0..6): every year and month with boundary days and times; every day and time of day", |ch| {
            let fsp = ch.range(0, 6) as u8;
            let c = col(18, &[fsp]);
            let fr = if ch.flag() { 0 } else { 10u32.pow(fsp as u32) - 1 };
            let (fb, fms) = frac(fsp, fr);
            let mut vals = vec![];
            let mut put = |y: u16, mo: u8, d: u8, h: u8, mi: u8, s: u8| {
                vals.push(cell([datetime2(y, mo, d, h, mi, s).as_slice(), &fb].concat(), MVal::DateTime(y, mo, d, h, mi, s, fms)));
            };
            if ch.flag() {
                let step = by_tier(17, 1);
                let k = ch.range(0, 99) as u16;
                for y in (k * 100..k * 100 + 100).step_by(step) {
                    for mo in 0..=12 {
                        for (d, h, mi, s) in [(0, 0, 0, 0), (1, 0, 0, 1), (28, 23, 59, 59), (31, 16, 32, 31), (16, 15, 31, 32)] {
                            put(y, mo, d, h, mi, s)
                        }
                    }
                }
            } else {
                let d = ch.range(0, 31) as u8;
                for h in 0..24 {
                    for mi in (0..60).step_by(by_tier(7, 1)).chain([59]) {
                        for s in (0..60).step_by(by_tier(7, 1)).chain([59]) {
                            put(9999, 12, d, h, mi, s)
                        }
                    }
                }
            }
            all(ch, &c, &vals, 4000)
        }),
        group("timestamp", "TIMESTAMP and TIMESTAMP(0..6): every product of boundary bytes of the second, boundary fractions", |ch| {
            let alpha: &[u8] = by_tier(&[0, 1, 0x7f, 0x80, 0xff], &[0, 1, 2, 0x3f, 0x40, 0x7f, 0x80, 0xfe, 0xff]);
            let old = ch.flag();
            if old {
                let vals: Vec<Cell> = words(alpha, 4)
                    .into_iter()
                    .map(|w| {
                        let x = le(&w);
                        cell(w, MVal::Timestamp(x * 1000))
                    })
                    .collect();
                return all(ch, &col(7, &[]), &vals, 4000);
            }
            let fsp = ch.range(0, 6) as u8;
            let fr = few_fractions(fsp);
            let f = ch.of(&fr);
            let (b, ms) = frac(fsp, f);
            let vals: Vec<Cell> = words(alpha, 4)
                .into_iter()
                .map(|w| {
                    let x = u32::from_be_bytes([w[0], w[1], w[2], w[3]]) as u64;
                    cell([w.as_slice(), &b].concat(), MVal::Timestamp(x * 1000 + ms as u64))
                })
                .collect();
            all(ch, &col(17, &[fsp]), &vals, 4000)
        }),
        group("year", "YEAR: all values", |ch| {
            let c = col(13, &[]);
            let vals: Vec<Cell> = (0..=255u16).map(|x| cell(vec![x as u8], MVal::Year(if x == 0 { 0 } else { 1900 + x }))).collect();
            all(ch, &c, &vals, 1)
        }),
    ]
}
fn datetime2(y: u16, mo: u8, d: u8, h: u8, mi: u8, s: u8) -> Vec<u8> {
    let ym = y as u64 * 13 + mo as u64;
    let x = 1u64 << 39 | ym << 22 | (d as u64) << 17 | (h as u64) << 12 | (mi as u64) << 6 | s as u64;
    x.to_be_bytes()[3..].to_vec()
}

/// Stored form of a decimal: groups of nine digits in four bytes, the partial groups in fewer, the sign in the
/// top bit, everything inverted when negative.
fn dec_bytes(int: &[u8], fra: &[u8], neg: bool) -> Vec<u8> {
    const W: [usize; 10] = [0, 1, 1, 2, 2, 3, 3, 4, 4, 4];
    let num = |d: &[u8]| d.iter().fold(0u32, |a, x| a * 10 + *x as u32);
    let mut v = vec![];
    let put = |d: &[u8], v: &mut Vec<u8>| {
        let n = W[d.len()];
        v.extend_from_slice(&num(d).to_be_bytes()[4 - n..])
    };
    let lead = int.len() % 9;
    put(&int[..lead], &mut v);
    for g in int[lead..].chunks(9) {
        put(g, &mut v)
    }
    for g in fra.chunks(9) {
        put(g, &mut v)
    }
    if neg {
        for b in v.iter_mut() {
            *b = !*b
        }
    }
    v[0] ^= 0x80;
    v
}
fn dec(digits: &[u8], s: usize, neg: bool) -> Cell {
    let (int, fra) = digits.split_at(digits.len() - s);
    let show = |d: &[u8]| d.iter().map(|x| (b'0' + x) as char).collect::<String>();
    let i = show(int);
    let i = i.trim_start_matches('0');
    let mut t = String::new();
    if neg {
        t.push('-')
    }
    t.push_str(if i.is_empty() { "0" } else { i });
    if s > 0 {
        t.push('.');
        t.push_str(&show(fra))
    }
    cell(dec_bytes(int, fra, neg), MVal::Decimal(t))
}
fn c10() -> Vec<Group> {
    vec![
        group("shapes", "every DECIMAL(1..65, 0..38): zero, all nines, every digit at every position alone and among others, every pattern of zero and full groups, with both signs", |ch| {
            let p = ch.range(1, 65) as usize;
            let s = ch.range(0, p.min(38) as u64) as usize;
            let mut ds: Vec<Vec<u8>> = vec![vec![0; p], vec![9; p], (0..p).map(|i| (i % 9 + 1) as u8).collect(), (0..p).map(|i| (i % 10) as u8).collect(), (0..p).map(|i| (9 - i % 10) as u8).collect()];
            for at in 0..p {
                for d in by_tier(&[1u8, 5, 9][..], &[1, 2, 3, 4, 5, 6, 7, 8, 9]) {
                    for back in [0u8, 9, 1] {
                        let mut v = vec![back; p];
                        v[at] = *d;
                        ds.push(v);
                    }
                    let mut v = vec![9u8; p];
                    v[at] = d - 1;
                    ds.push(v);
                }
                // Leading and trailing zeros.
                ds.push((0..p).map(|i| if i < at { 0 } else { 7 }).collect());
                ds.push((0..p).map(|i| if i < at { 7 } else { 0 }).collect());
                ds.push((0..p).map(|i| if i < at { 0 } else { (i % 10) as u8 }).collect());
            }
            // Every group of digits zero, one, or full.
            let lead = (p - s) % 9;
            let mut groups: Vec<(usize, usize)> = vec![];
            if lead > 0 {
                groups.push((0, lead))
            }
            let mut at = lead;
            while at < p - s {
                groups.push((at, at + 9));
                at += 9
            }
            while at < p {
                groups.push((at, (at + 9).min(p)));
                at = (at + 9).min(p)
            }
            let n = groups.len() as u32;
            for k in 0..3u32.pow(n) {
                let mut v = vec![0u8; p];
                let mut k = k;
                for (a, b) in &groups {
                    match k % 3 {
                        0 => {}
                        1 => v[b - 1] = 1,
                        _ => v[*a..*b].fill(9),
                    }
                    k /= 3
                }
                ds.push(v);
            }
            ds.sort();
            ds.dedup();
            let mut vals = vec![];
            for d in &ds {
                vals.push(dec(d, s, false));
                if d.iter().any(|x| *x > 0) {
                    vals.push(dec(d, s, true));
                }
            }
            ch.sample(|| format!("DECIMAL({},{}): {} values, such as {:?}", p, s, vals.len(), vals[vals.len() / 2].val));
            ch.outcome(&(p, s));
            all(ch, &col(246, &[p as u8, s as u8]), &vals, 1000)
        }),
        group("small", "every value of every DECIMAL of at most 4 digits (6 in the thorough tier)", |ch| {
            let p = ch.range(1, by_tier(4, 6)) as usize;
            let s = ch.range(0, p as u64) as usize;
            let m = 10u32.pow(p as u32);
            let block = if m > 1000 { ch.choose((m / 1000) as usize) as u32 * 1000 } else { 0 };
            let mut vals = vec![];
            for x in block..(block + 1000).min(m) {
                let d: Vec<u8> = (0..p).rev().map(|i| (x / 10u32.pow(i as u32) % 10) as u8).collect();
                vals.push(dec(&d, s, false));
                if x > 0 {
                    vals.push(dec(&d, s, true));
                }
            }
            all(ch, &col(246, &[p as u8, s as u8]), &vals, 1000)
        }),
        group("groups", "every value of the one partial group of 1..8 digits, in the thorough tier up to 6 digits complete, beside a full group on either side", |ch| {
            let n = ch.range(1, 8) as usize;
            let side = ch.choose(4);
            let m = 10u64.pow(n as u32);
            let block = ch.choose(10) as u64;
            let step = if thorough() { (m / 1_000_000).max(1) } else { (m / 10_000).max(1) };
            let (lo, hi) = (m * block / 10, m * (block + 1) / 10);
            let mut vals = vec![];
            let mut x = lo;
            while x < hi {
                for y in [x, hi - 1 - (x - lo)] {
                    let g: Vec<u8> = (0..n).rev().map(|i| (y / 10u64.pow(i as u32) % 10) as u8).collect();
                    let nine = [1u8, 0, 2, 0, 0, 3, 0, 0, 4];
                    let (d, s) = match side {
                        0 => (g, 0),
                        1 => (g, n),
                        2 => ([g.as_slice(), &nine].concat(), 9),
                        _ => ([&nine, g.as_slice()].concat(), n),
                    };
                    let neg = y % 3 == 1;
                    vals.push(dec(&d, s, neg));
                }
                x += step
            }
            let (p, s) = match side {
                0 => (n, 0),
                1 => (n, n),
                2 => (n + 9, 9),
                _ => (n + 9, n),
            };
            all(ch, &col(246, &[p as u8, s as u8]), &vals, 1000)
        }),
    ]
}
