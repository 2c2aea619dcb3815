//! C06, C15, C16: GTID sets and lists.
use super::common::{memfd, SID, SID2};
use crate::explore::*;
use crate::obs::*;
use crate::wire::*;
use crate::Check;
use mysql_cdc::binlog_reader::BinlogReader;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::providers::mariadb::gtid::gtid::Gtid as MaGtid;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid::Gtid as MyGtid;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use mysql_cdc::providers::mysql::gtid::interval::Interval;
use mysql_cdc::providers::mysql::gtid::uuid::Uuid;
use mysql_cdc::providers::mysql::gtid::uuid_set::UuidSet;
use std::collections::{BTreeMap, BTreeSet};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C06",
            level: "exploration",
            rule: "A case is one text handed to GtidSet::parse, Uuid::parse or GtidList::parse. Distinct by text; every text that is not empty is non-trivial. Judged by an independent grammar that sorts texts into: must be accepted with this value, may be rejected but if accepted must have this value, must be rejected.",
            assumptions: &["spaces inside an element, a missing or misplaced dash in a UUID, transaction number 0, empty elements and reversed intervals may be rejected or given the server's meaning"],
            groups: c06,
        },
        Check {
            id: "C15",
            level: "model_checking",
            rule: "States are the contents of a GTID set (the spec: a set of transactions); transitions add one transaction or parse a text. Every state of the bounded universe and every transition is executed on the real type; distinct histories by text and operations.",
            assumptions: &["transaction numbers beyond the small universe differ only at the interval boundaries and at the ends of the number range, which are enumerated separately"],
            groups: c15,
        },
        Check {
            id: "C16",
            level: "model_checking",
            rule: "States are ordered maps from domain to (server, sequence); transitions add one GTID or print and parse. Every operation sequence up to the depth bound from every starting list is executed on the real type.",
            assumptions: &[],
            groups: c16,
        },
    ]
}

// ---------------------------------------------------------------- the grammar

#[derive(Clone, Debug, PartialEq)]
pub enum Class<T> {
    Reject,
    /// May be rejected; if accepted, this value.
    May(T),
    Accept(T),
    /// Anything but a crash.
    Any,
}
/// Disjoint, non-adjacent, ascending.
pub fn normal(iv: &[(u64, u64)]) -> Vec<(u64, u64)> {
    let mut v: Vec<(u64, u64)> = iv.iter().copied().filter(|(a, b)| a <= b).collect();
    v.sort();
    let mut o: Vec<(u64, u64)> = vec![];
    for (a, b) in v {
        match o.last_mut() {
            Some(l) if l.1 == u64::MAX || a <= l.1 + 1 => l.1 = l.1.max(b),
            _ => o.push((a, b)),
        }
    }
    o
}
pub fn normal_sets(s: &Sets) -> Sets {
    s.iter().map(|(k, v)| (*k, normal(v))).filter(|(_, v)| !v.is_empty()).collect()
}
enum Num {
    Bad,
    Lenient(u64),
    Good(u64),
}
fn number(t: &str) -> Num {
    let (d, plus) = match t.strip_prefix('+') {
        Some(r) => (r, true),
        None => (t, false),
    };
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
        return Num::Bad;
    }
    let mut v = 0u64;
    for c in d.bytes() {
        v = match v.checked_mul(10).and_then(|v| v.checked_add((c - b'0') as u64)) {
            Some(v) => v,
            None => return Num::Bad,
        }
    }
    if plus || (d.len() > 1 && d.starts_with('0')) || v > i64::MAX as u64 {
        Num::Lenient(v)
    } else {
        Num::Good(v)
    }
}
pub fn uuid_class(t: &str) -> Class<[u8; 16]> {
    let hex: String = t.chars().filter(|c| *c != '-').collect();
    if hex.len() != 32 || !hex.bytes().all(|c| c.is_ascii_hexdigit()) {
        return Class::Reject;
    }
    let mut d = [0u8; 16];
    for i in 0..16 {
        d[i] = u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()
    }
    let b = t.as_bytes();
    if b.len() == 36 && [8, 13, 18, 23].iter().all(|i| b[*i] == b'-') {
        Class::Accept(d)
    } else {
        Class::May(d)
    }
}
pub fn set_class(text: &str) -> Class<Sets> {
    if text.is_empty() {
        return Class::Accept(Sets::new());
    }
    if text.contains(['\r', '\t', '\u{b}', '\u{c}']) || text.trim().is_empty() {
        return Class::Any;
    }
    let mut lenient = false;
    let mut out = Sets::new();
    for el in text.split(',') {
        let t = el.trim_matches([' ', '\n']);
        if t.contains('\n') {
            return Class::Any;
        }
        if t.is_empty() {
            lenient = true;
            continue;
        }
        let (u, rest) = match t.split_once(':') {
            Some(x) => x,
            None => return Class::Reject,
        };
        if u.trim() != u {
            lenient = true
        }
        let sid = match uuid_class(u.trim()) {
            Class::Accept(d) => d,
            Class::May(d) => {
                lenient = true;
                d
            }
            _ => return Class::Reject,
        };
        for tok in rest.split(':') {
            let parts: Vec<&str> = tok.split('-').collect();
            if parts.len() > 2 {
                return Class::Reject;
            }
            let mut n = vec![];
            for p in &parts {
                if p.trim() != *p {
                    lenient = true
                }
                n.push(match number(p.trim()) {
                    Num::Bad => return Class::Reject,
                    Num::Lenient(x) => {
                        lenient = true;
                        x
                    }
                    Num::Good(x) => x,
                })
            }
            let (a, b) = (n[0], *n.last().unwrap());
            if a == 0 || a > b {
                lenient = true
            }
            if a <= b {
                out.entry(sid).or_default().push((a, b))
            }
        }
    }
    let out = normal_sets(&out);
    if lenient {
        Class::May(out)
    } else {
        Class::Accept(out)
    }
}
pub fn list_class(text: &str) -> Class<Vec<(u32, u32, u64)>> {
    if text.is_empty() {
        return Class::Accept(vec![]);
    }
    if text.contains(['\r', '\t', '\u{b}', '\u{c}']) {
        return Class::Any;
    }
    let mut lenient = false;
    let mut out: Vec<(u32, u32, u64)> = vec![];
    for el in text.split(',') {
        let t = el.trim_matches([' ', '\n']);
        if t.contains('\n') {
            return Class::Any;
        }
        let parts: Vec<&str> = t.split('-').collect();
        if parts.len() != 3 {
            return Class::Reject;
        }
        let mut n = vec![];
        for (i, p) in parts.iter().enumerate() {
            if p.trim() != *p {
                lenient = true
            }
            let x = match number(p.trim()) {
                Num::Bad => return Class::Reject,
                Num::Lenient(x) => {
                    // Sequence numbers use all 64 bits.
                    lenient |= !(i == 2 && x > i64::MAX as u64 && !p.starts_with(['+', '0']));
                    x
                }
                Num::Good(x) => x,
            };
            if i < 2 && x > u32::MAX as u64 {
                return Class::Reject;
            }
            n.push(x)
        }
        if out.iter().any(|g| g.0 == n[0] as u32) {
            return Class::Reject;
        }
        out.push((n[0] as u32, n[1] as u32, n[2]))
    }
    if lenient {
        Class::May(out)
    } else {
        Class::Accept(out)
    }
}

fn judge<T: PartialEq + std::fmt::Debug>(what: &str, text: &str, class: Class<T>, got: Result<Result<T, String>, Caught>) -> Result<&'static str, Viol> {
    let got = match got {
        Ok(x) => x,
        Err(Caught::Panic(m)) => return viol(format!("{}({:?}) panics: {}", what, text, m)),
        Err(Caught::Engine(m)) => panic!("{}", m),
    };
    match (class, got) {
        (Class::Any, _) => Ok("either"),
        (Class::Reject, Err(_)) => Ok("rejected"),
        (Class::Reject, Ok(v)) => viol(format!("{}({:?}) accepts malformed text as {:?}", what, text, v)),
        (Class::May(_), Err(_)) => Ok("rejected leniently"),
        (Class::Accept(w), Err(e)) => viol(format!("{}({:?}) fails with {} though the text denotes {:?}", what, text, e, w)),
        (Class::May(w), Ok(v)) | (Class::Accept(w), Ok(v)) => {
            if v == w {
                Ok("accepted")
            } else {
                viol(format!("{}({:?}) gives {:?}, the text denotes {:?}", what, text, v, w))
            }
        }
    }
}
fn try_set(ch: &mut Ch, text: &str) -> Res {
    ch.distinct(text);
    let got = catch(|| {
        GtidSet::parse(text).map(|g| sets(&g)).map_err(|e| err(&e)).map(|s| {
            let reversed = s.values().flatten().find(|(a, b)| a > b).copied();
            (normal_sets(&s), reversed)
        })
    });
    if let Ok(Ok((_, Some(iv)))) = &got {
        return viol(format!("GtidSet::parse({:?}) gives a set with the interval {}-{}", text, iv.0, iv.1));
    }
    let got = got.map(|r| r.map(|x| x.0));
    let o = judge("GtidSet::parse", text, set_class(text), got)?;
    ch.outcome(o);
    ch.note(o, 1);
    Ok(())
}
fn try_list(ch: &mut Ch, text: &str) -> Res {
    ch.distinct(text);
    let got = catch(|| GtidList::parse(text).map(|g| g.gtids.iter().map(|g| (g.domain_id, g.server_id, g.sequence)).collect::<Vec<_>>()).map_err(|e| err(&e)));
    let o = judge("GtidList::parse", text, list_class(text), got)?;
    ch.outcome(o);
    ch.note(o, 1);
    Ok(())
}
fn try_uuid(ch: &mut Ch, text: &str) -> Res {
    ch.distinct(text);
    let got = catch(|| Uuid::parse(text.to_string()).map(|u| u.data).map_err(|e| err(&e)));
    let o = judge("Uuid::parse", text, uuid_class(text), got)?;
    ch.outcome(o);
    ch.note(o, 1);
    Ok(())
}
/// Runs `f` on every string of `n` letters.
fn words(alphabet: &[char], n: usize, mut f: impl FnMut(&str) -> Res) -> Res {
    let mut at = vec![0usize; n];
    loop {
        let s: String = at.iter().map(|i| alphabet[*i]).collect();
        f(&s)?;
        let mut k = n;
        loop {
            if k == 0 {
                return Ok(());
            }
            k -= 1;
            at[k] += 1;
            if at[k] < alphabet.len() {
                break;
            }
            at[k] = 0;
        }
    }
}
const U1: &str = "24bc7850-2c16-11e6-a073-0242ac110001";
const U2: &str = "f442510a-2881-11ea-b1dd-27916133dbb2";
const ODD: [char; 16] = ['0', '7', 'a', 'F', 'g', '-', ':', ',', ' ', '\n', '+', '.', 'x', 'é', '\0', '😀'];
/// The text itself and all texts one edit away.
fn edits(t: &str, mut f: impl FnMut(&str) -> Res) -> Res {
    let cs: Vec<char> = t.chars().collect();
    f(t)?;
    for i in 0..=cs.len() {
        let a: String = cs[..i].iter().collect();
        let b: String = cs[i..].iter().collect();
        f(&a)?;
        f(&b)?;
        for o in ODD {
            f(&format!("{}{}{}", a, o, b))?;
        }
        if i < cs.len() {
            let c: String = cs[i + 1..].iter().collect();
            f(&format!("{}{}", a, c))?;
            f(&format!("{}{}{}", a, cs[i], b))?;
            for o in ODD {
                f(&format!("{}{}{}", a, o, c))?;
            }
        }
    }
    Ok(())
}

fn c06() -> Vec<Group> {
    vec![
        group("domain lists, all words", "GtidList::parse on every text over 0 1 9 - , + space x up to the length bound", |ch| {
            let al = ['0', '1', '9', '-', ',', '+', ' ', 'x'];
            let first = ch.of(&al);
            let second = ch.of(&al);
            for n in 0..=by_tier(4, 6) {
                words(&al, n, |w| {
                    ch.evals(1);
                    try_list(ch, &format!("{}{}{}", first, second, w))
                })?;
            }
            try_list(ch, &first.to_string())?;
            try_list(ch, "")
        }),
        group("domain lists, components", "GtidList::parse on lists of one to three elements with every combination of component texts", |ch| {
            let comp = ["0", "1", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999999999999999999999", "", "x", "-1", "1-1", "007", "+1", " 2", "1.5", "0x1", "é"];
            let sep = ch.of(&[",", ", ", ",\n", ",,", ";", " "]);
            let (a, b, c) = (ch.of(&comp), ch.of(&comp), ch.of(&comp));
            let one = format!("{}-{}-{}", a, b, c);
            try_list(ch, &one)?;
            try_list(ch, &format!("{}{}2-3-4", one, sep))?;
            try_list(ch, &format!("2-3-4{}{}", sep, one))?;
            try_list(ch, &format!("2-3-4{}{}{}7-7-7", sep, one, sep))?;
            for k in 0..one.chars().count() {
                let t: String = one.chars().take(k).collect();
                ch.evals(1);
                try_list(ch, &t)?;
            }
            Ok(())
        }),
        group("domain lists, edits", "GtidList::parse on every text one edit (quick) or two edits (thorough) away from well-formed lists", |ch| {
            let t = ch.of(&["0-1-270", "0-1-270,1-2-120", "1-2-120, 2-3-130, 3-4-50", "4294967295-4294967295-18446744073709551615"]);
            let cs: Vec<char> = t.chars().collect();
            if !thorough() {
                return edits(t, |x| {
                    ch.evals(1);
                    try_list(ch, x)
                });
            }
            let i = ch.choose(cs.len());
            let o = ch.of(&ODD);
            let mut c2 = cs.clone();
            c2[i] = o;
            let t2: String = c2.into_iter().collect();
            edits(&t2, |x| {
                ch.evals(1);
                try_list(ch, x)
            })
        }),
        group("uuids, edits", "Uuid::parse on every hexadecimal text length 0..80 with dashes every k digits, and every text one or two edits away from a well-formed one", |ch| {
            if ch.flag() {
                let n = ch.range(0, 80) as usize;
                for k in 0..12usize {
                    for up in [false, true] {
                        let mut s = String::new();
                        for i in 0..n {
                            if k > 0 && i > 0 && i % k == 0 {
                                s.push('-')
                            }
                            s.push(if up { "0123456789ABCDEF" } else { "0123456789abcdef" }.as_bytes()[i * 7 % 16] as char)
                        }
                        ch.evals(1);
                        try_uuid(ch, &s)?;
                        ch.evals(1);
                        try_set(ch, &format!("{}:1-5", s))?;
                    }
                }
                return Ok(());
            }
            let cs: Vec<char> = ch.of(&[U1, "24BC7850-2C16-11E6-a073-0242AC110001"]).chars().collect();
            let i = ch.choose(cs.len());
            let o = ch.of(&ODD);
            let mut c2 = cs.clone();
            match ch.choose(3) {
                0 => c2[i] = o,
                1 => c2.insert(i, o),
                _ => {
                    c2.remove(i);
                }
            }
            let t2: String = c2.into_iter().collect();
            try_uuid(ch, &t2)?;
            if thorough() || o == '-' || o == 'g' {
                edits(&t2, |x| {
                    ch.evals(1);
                    try_uuid(ch, x)
                })?
            }
            Ok(())
        }),
        group("set texts, all tails", "GtidSet::parse on a source followed by every text over 0 1 9 - : , space x + up to the length bound", |ch| {
            let al = ['0', '1', '9', '-', ':', ',', ' ', 'x', '+'];
            let u = ch.of(&[U1, "24bc7850-2c16-11e6-a073-0242ac11000", "24bc7850-2c16-11e6-a073-0242ac1100011"]);
            let first = ch.of(&al);
            let second = ch.of(&al);
            for n in 0..=by_tier(3, 5) {
                words(&al, n, |w| {
                    ch.evals(1);
                    try_set(ch, &format!("{}{}{}{}", u, first, second, w))
                })?;
            }
            try_set(ch, &format!("{}{}", u, first))?;
            try_set(ch, u)
        }),
        group("set texts, edits", "GtidSet::parse on every text one edit (quick) or two edits (thorough) away from well-formed sets", |ch| {
            let ts = [
                format!("{}:1-5", U1),
                format!("{}:3", U1),
                format!("{}:1-3:11:47-49,{}:1-19:55:56-100", U1, U2),
                format!("{}:1-3, {}:9223372036854775806", U2, U1),
            ];
            let t = ch.pick(&ts).as_str();
            if !thorough() {
                return edits(t, |x| {
                    ch.evals(1);
                    try_set(ch, x)
                });
            }
            let cs: Vec<char> = t.chars().collect();
            let i = ch.choose(cs.len());
            let o = ch.of(&ODD);
            let mut c2 = cs.clone();
            c2[i] = o;
            let t2: String = c2.into_iter().collect();
            edits(&t2, |x| {
                ch.evals(1);
                try_set(ch, x)
            })
        }),
        group("set texts, components", "GtidSet::parse on sets whose sources, numbers and separators take every combination of well-formed and malformed forms", |ch| {
            let us = [U1, "24BC7850-2C16-11E6-A073-0242AC110001", "24bc7850-2c16-11e6-a073-0242ac11000g", "24bc7850-2c16-11e6-a073", "", "24bc78502c1611e6a0730242ac110001", "{24bc7850-2c16-11e6-a073-0242ac110001}", "------------------------------------", "éééééééééééééééééééééééééééééééééééé"];
            let nums = ["1", "5", "0", "", "x", "18446744073709551615", "18446744073709551616", "9223372036854775807", "340282366920938463463374607431768211456", "-1", "1-2", "+3", "1e3", "١"];
            let u = ch.of(&us);
            let c = ch.of(&[":", "", "::", ";", "-", " ", ": "]);
            let a = ch.of(&nums);
            for b in nums {
                for one in [format!("{}{}{}", u, c, a), format!("{}{}{}-{}", u, c, a, b), format!("{}{}{}:{}", u, c, a, b), format!("{}{}{}-{}:7-9", u, c, a, b)] {
                    for t in [one.clone(), format!("{},{}:1-9", one, U2), format!("{}:1-9, {}", U2, one), format!("{}:1-9,\n{}", U1, one)] {
                        ch.evals(1);
                        try_set(ch, &t)?;
                    }
                }
            }
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- C15

type Spec = BTreeSet<([u8; 16], u64)>;
fn spec_sets(s: &Spec) -> Sets {
    let mut m = Sets::new();
    for (u, i) in s {
        m.entry(*u).or_default().push((*i, *i))
    }
    normal_sets(&m)
}
/// The set has exactly this content, prints canonically, and survives printing.
fn check_set(g: &GtidSet, want: &Sets, what: &dyn Fn() -> String) -> Res {
    let text = g.to_string();
    let canon = sets_text(want);
    ensure!(text == canon, "{}: prints {:?}, the canonical text is {:?}", what(), text, canon);
    let got = normal_sets(&sets(g));
    ensure!(got == *want, "{}: holds {:?}, should hold {:?}", what(), got, want);
    match GtidSet::parse(&text) {
        Err(e) => viol(format!("{}: its own text {:?} is refused: {:?}", what(), text, e)),
        Ok(h) => {
            ensure!(normal_sets(&sets(&h)) == *want, "{}: its text {:?} parses to {:?}", what(), text, sets(&h));
            ensure!(h.to_string() == text, "{}: its text {:?} prints as {:?} after parsing", what(), text, h.to_string());
            Ok(())
        }
    }
}
fn gt(u: [u8; 16], id: u64) -> MyGtid {
    MyGtid::new(Uuid::new(u), id)
}
fn intervals(n: u64) -> Vec<(u64, u64)> {
    let mut v = vec![];
    for a in 1..=n {
        for b in a..=n {
            v.push((a, b))
        }
    }
    v
}
fn iv_text(i: &(u64, u64)) -> String {
    if i.0 == i.1 {
        i.0.to_string()
    } else {
        format!("{}-{}", i.0, i.1)
    }
}

fn c15() -> Vec<Group> {
    vec![
        group("parsing", "every sequence of up to 3 (thorough: 4) intervals over transactions 1..5, grouped under one or several mentions of the source, in both letter cases", |ch| {
            let all = intervals(5);
            let k = ch.range(1, by_tier(3, 4)) as usize;
            let iv: Vec<(u64, u64)> = (0..k).map(|_| ch.of(&all)).collect();
            let mut want = Sets::new();
            want.insert(SID, normal(&iv));
            ch.state(&want);
            let up = U1.to_uppercase();
            // Where a new mention of the source starts, and in which case the mentions are written.
            for cut in 0..1u32 << (k - 1) {
                for case in 0..1u32 << (cut.count_ones() + 1) {
                    for sep in [",", ", ", ",\n"] {
                        let mut t = String::new();
                        let mut m = 0;
                        for j in 0..k {
                            if j == 0 || cut >> (j - 1) & 1 == 1 {
                                if j > 0 {
                                    t.push_str(sep)
                                }
                                t.push_str(if case >> m & 1 == 1 { &up } else { U1 });
                                m += 1;
                            }
                            t.push(':');
                            t.push_str(&iv_text(&iv[j]));
                        }
                        ch.evals(1);
                        ch.step(1);
                        ch.distinct(&t);
                        match GtidSet::parse(&t) {
                            Err(e) => return viol(format!("{:?} is refused: {:?}", t, e)),
                            Ok(g) => check_set(&g, &want, &|| format!("parsing {:?}", t))?,
                        }
                        if cut == 0 {
                            break;
                        }
                    }
                }
            }
            Ok(())
        }),
        group("sources", "every sequence of up to 4 mentions of three sources with one interval each", |ch| {
            let third = [0xff; 16];
            let us = [SID, SID2, third];
            let k = ch.range(1, by_tier(3, 4)) as usize;
            let mut want: BTreeMap<[u8; 16], Vec<(u64, u64)>> = Sets::new();
            let mut t = String::new();
            for j in 0..k {
                let u = ch.of(&us);
                let i = ch.of(&[(1, 1), (2, 3), (4, 6), (3, 9), (8, 8), (2, 2)]);
                let up = ch.flag();
                want.entry(u).or_default().push(i);
                if j > 0 {
                    t.push_str(", ")
                }
                let ut = uuid_text(&u);
                t.push_str(&format!("{}:{}", if up { ut.to_uppercase() } else { ut }, iv_text(&i)));
            }
            let want = normal_sets(&want);
            ch.state(&want);
            ch.distinct(&t);
            ch.step(1);
            match GtidSet::parse(&t) {
                Err(e) => viol(format!("{:?} is refused: {:?}", t, e)),
                Ok(g) => check_set(&g, &want, &|| format!("parsing {:?}", t)),
            }
        }),
        group("closure", "every set over the transactions 0..6 of two sources (thorough: 0..7): every addition to it, from a set built by parsing and from one built by additions in ascending and descending order", |ch| {
            let n = by_tier(6u64, 7);
            let bits = n + 1;
            let a = ch.range(0, (1 << bits) - 1);
            let bs: Vec<u64> = if thorough() { (0..1 << bits).collect() } else { (0..1u64 << bits).step_by(3).collect() };
            for b in bs {
                let mut spec = Spec::new();
                for i in 0..bits {
                    if a >> i & 1 == 1 {
                        spec.insert((SID, i));
                    }
                    if b >> i & 1 == 1 {
                        spec.insert((SID2, i));
                    }
                }
                let want = spec_sets(&spec);
                ch.state(&want);
                let text = sets_text(&want);
                let build = |how: usize| -> Result<GtidSet, Viol> {
                    let mut g = GtidSet::new();
                    match how {
                        0 if spec.iter().all(|x| x.1 > 0) => GtidSet::parse(&text).map_err(|e| Viol { key: None, msg: format!("{:?} is refused: {:?}", text, e) }),
                        1 => {
                            for (u, i) in spec.iter().rev() {
                                let r = g.add_gtid(gt(*u, *i));
                                ensure!(matches!(r, Ok(true)), "adding {} in descending order to a set without it says {:?}", i, r);
                            }
                            Ok(g)
                        }
                        _ => {
                            for (u, i) in spec.iter() {
                                let r = g.add_gtid(gt(*u, *i));
                                ensure!(matches!(r, Ok(true)), "adding {} in ascending order to a set without it says {:?}", i, r);
                            }
                            Ok(g)
                        }
                    }
                };
                for how in 0..3 {
                    for x in 0..bits {
                        let mut g = build(how)?;
                        let new = !spec.contains(&(SID, x));
                        let r = g.add_gtid(gt(SID, x));
                        ch.evals(1);
                        ch.step(1);
                        ensure!(matches!(r, Ok(y) if y == new), "adding transaction {} to {} says {:?}, it was {}", x, text, r, if new { "new" } else { "there" });
                        let mut s2 = spec.clone();
                        s2.insert((SID, x));
                        let w2 = spec_sets(&s2);
                        let t2 = g.to_string();
                        ensure!(t2 == sets_text(&w2), "{} plus {} prints {:?}", text, x, t2);
                        ensure!(normal_sets(&sets(&g)) == w2, "{} plus {} holds {:?}", text, x, sets(&g));
                        if how == x as usize % 3 && x > 0 && s2.iter().all(|y| y.1 > 0) {
                            check_set(&g, &w2, &|| format!("{} plus {}", text, x))?;
                        }
                    }
                    ch.distinct(&(a, b, how));
                }
            }
            Ok(())
        }),
        group("sequences", "every sequence of up to 5 (thorough: 6) additions over transactions 1..6 of one source and 1..2 of another", |ch| {
            let mut ops: Vec<([u8; 16], u64)> = (1..=6).map(|i| (SID, i)).collect();
            ops.push((SID2, 1));
            ops.push((SID2, 2));
            let depth = by_tier(5, 6);
            let (x, y) = (ch.of(&ops), ch.of(&ops));
            let mut seq = vec![0usize; depth - 2];
            loop {
                let mut g = GtidSet::new();
                let mut spec = Spec::new();
                let hist = |seq: &[usize]| format!("adding {:?}", [x, y].iter().chain(seq.iter().map(|i| &ops[*i])).map(|o| (o.0[0], o.1)).collect::<Vec<_>>());
                for o in [x, y].into_iter().chain(seq.iter().map(|i| ops[*i])) {
                    let new = spec.insert(o);
                    let r = g.add_gtid(gt(o.0, o.1));
                    ensure!(matches!(r, Ok(b) if b == new), "{}: adding {} says {:?}", hist(&seq), o.1, r);
                    ch.step(1);
                }
                let want = spec_sets(&spec);
                ch.state(&want);
                ch.evals(1);
                check_set(&g, &want, &|| hist(&seq))?;
                ch.distinct(&(x, y, &seq));
                let mut k = seq.len();
                loop {
                    if k == 0 {
                        return Ok(());
                    }
                    k -= 1;
                    seq[k] += 1;
                    if seq[k] < ops.len() {
                        break;
                    }
                    seq[k] = 0;
                }
            }
        }),
        group("range ends", "intervals and additions at both ends of the number range, and far apart", |ch| {
            let pts: [u64; 12] = [1, 2, 3, 1000, u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64 - 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 2, u64::MAX - 1, u64::MAX];
            let mut iv = vec![];
            for i in 0..pts.len() {
                for j in i..pts.len() {
                    iv.push((pts[i], pts[j]))
                }
            }
            let a = ch.of(&iv);
            for b in &iv {
                let t = format!("{}:{}:{}", U1, iv_text(&a), iv_text(b));
                let big = a.1.max(b.1) > i64::MAX as u64;
                let mut w = Sets::new();
                w.insert(SID, normal(&[a, *b]));
                ch.state(&w);
                let g = match GtidSet::parse(&t) {
                    Err(_) if big => continue,
                    Err(e) => return viol(format!("{:?} is refused: {:?}", t, e)),
                    Ok(g) => g,
                };
                check_set(&g, &w, &|| format!("parsing {:?}", t))?;
                for p in pts.iter().flat_map(|p| [p - 1, *p, p.saturating_add(1)]) {
                    let mut g = GtidSet::parse(&t).unwrap();
                    let new = !normal(&[a, *b]).iter().any(|(x, y)| *x <= p && p <= *y);
                    let r = g.add_gtid(gt(SID, p));
                    ch.evals(1);
                    ch.step(1);
                    ensure!(matches!(r, Ok(x) if x == new), "adding {} to {} says {:?}", p, t, r);
                    let mut w = Sets::new();
                    w.insert(SID, normal(&[a, *b, (p, p)]));
                    ensure!(normal_sets(&sets(&g)) == w, "{} plus {} holds {:?}", t, p, sets(&g));
                    ensure!(g.to_string() == sets_text(&w), "{} plus {} prints {}", t, p, g.to_string());
                }
                ch.distinct(&t);
            }
            Ok(())
        }),
        group("order", "sets of up to 40 sources that agree but for one byte, for every byte, built in every rotation of three orders", |ch| {
            let at = ch.choose(16);
            let n = ch.of(&[2usize, 3, 8, 40]);
            let how = ch.choose(3);
            let low = ch.of(&[0u8, 0x60, 0xd7]);
            // Bytes before it say otherwise than bytes behind it if those are not alike.
            let behind = ch.flag();
            let mut us: Vec<[u8; 16]> = (0..n)
                .map(|i| {
                    let mut u = SID;
                    u[at] = low + i as u8;
                    if behind && at < 15 {
                        u[at + 1..].fill(0xff - i as u8)
                    }
                    u
                })
                .collect();
            match how {
                0 => {}
                1 => us.reverse(),
                _ => us.sort_by_key(|u| u[at] as usize * 7 % n),
            }
            let mut want = Sets::new();
            let mut g = GtidSet::new();
            for (k, u) in us.iter().enumerate() {
                let q = k as u64 + 1;
                want.insert(*u, vec![(q, q)]);
                let r = g.add_gtid(gt(*u, q));
                ensure!(matches!(r, Ok(true)), "adding a new source says {:?}", r);
                ch.step(1);
                ch.evals(1);
                ch.state(&want);
                check_set(&g, &want, &|| format!("{} sources that differ in byte {}", k + 1, at))?;
            }
            ch.distinct(&(at, n, how, low, behind));
            let t = us.iter().enumerate().map(|(k, u)| format!("{}:{}", uuid_text(u), k + 1)).collect::<Vec<_>>().join(",");
            match GtidSet::parse(&t) {
                Err(e) => viol(format!("{:?} is refused: {:?}", t, e)),
                Ok(g) => check_set(&g, &want, &|| format!("parsing {:?}", t)),
            }
        }),
        group("assembled", "sets put together of every sequence of up to 3 (thorough: 4) intervals over transactions 1..4, and every addition to them; additions of another source are refused", |ch| {
            let all = intervals(4);
            let k = ch.range(1, by_tier(3, 4)) as usize;
            let iv: Vec<(u64, u64)> = (0..k).map(|_| ch.of(&all)).collect();
            ch.distinct(&iv);
            let make = || UuidSet::new(Uuid::new(SID), iv.iter().map(|(a, b)| Interval::new(*a, *b)).collect());
            let what = || format!("UuidSet::new of {:?}", iv);
            for x in 0..=6u64 {
                let mut u = make();
                let mut want = normal(&iv);
                let text = |w: &[(u64, u64)]| format!("{}:{}", U1, w.iter().map(iv_text).collect::<Vec<_>>().join(":"));
                ensure!(u.to_string() == text(&want), "{} prints {}", what(), u);
                let other = u.add_gtid(gt(SID2, x));
                ensure!(other.is_err() && u.to_string() == text(&want), "{}: a transaction of another source is added: {}", what(), u);
                if x > 0 {
                    let new = !want.iter().any(|(a, b)| *a <= x && x <= *b);
                    let r = u.add_gtid(gt(SID, x));
                    ensure!(matches!(r, Ok(y) if y == new), "{}: adding {} says {:?}", what(), x, r);
                    want = normal(&[&want[..], &[(x, x)]].concat());
                    ensure!(u.to_string() == text(&want), "{} plus {} prints {}", what(), x, u);
                }
                ch.step(1);
                ch.evals(1);
                ch.state(&want);
                let mut g = GtidSet::new();
                g.uuid_sets.insert(u.source_id.uuid.clone(), u);
                let mut w = Sets::new();
                w.insert(SID, want);
                check_set(&g, &w, &|| format!("{} plus {}", what(), x))?;
            }
            Ok(())
        }),
        group("taken from an event", "the set of every previous-gtids event over the transactions 1..5 of two sources, and every addition to it", |ch| {
            let (a, b) = (ch.range(0, 31), ch.range(0, 31));
            let mut spec = Spec::new();
            for i in 0..5 {
                if a >> i & 1 == 1 {
                    spec.insert((SID, i + 1));
                }
                if b >> i & 1 == 1 {
                    spec.insert((SID2, i + 1));
                }
            }
            ch.distinct(&(a, b));
            let mut f = FileB::start(true);
            f.ev(&p_myprev(&spec_sets(&spec)));
            for x in 1..=6 {
                for u in [SID, SID2] {
                    let read = match BinlogReader::new(memfd(&f.bytes)) {
                        Ok(r) => r.read_events().nth(1),
                        Err(e) => return viol(err(&e)),
                    };
                    let mut g = match read {
                        Some(Ok((_, BinlogEvent::MySqlPrevGtidsEvent(e)))) => e.gtid_set,
                        o => return viol(format!("no previous gtids: {:?}", o)),
                    };
                    check_set(&g, &spec_sets(&spec), &|| format!("the event of {:?}", spec_sets(&spec)))?;
                    let mut s2 = spec.clone();
                    let new = s2.insert((u, x));
                    let r = g.add_gtid(gt(u, x));
                    ensure!(matches!(r, Ok(y) if y == new), "adding {} to the event of {:?} says {:?}", x, spec_sets(&spec), r);
                    check_set(&g, &spec_sets(&s2), &|| format!("the event of {:?} plus {}", spec_sets(&spec), x))?;
                    ch.state(&s2);
                    ch.step(1);
                    ch.evals(1);
                }
            }
            Ok(())
        }),
        group("letter case", "adding transactions whose source was parsed from upper, lower and mixed case text", |ch| {
            let forms = [U1.to_string(), U1.to_uppercase(), "24bC7850-2C16-11e6-A073-0242aC110001".to_string()];
            let (a, b, c) = (ch.choose(3), ch.choose(3), ch.choose(3));
            let mut g = match GtidSet::parse(&format!("{}:1-2:7", forms[a])) {
                Ok(g) => g,
                Err(e) => return viol(format!("{} is refused: {:?}", forms[a], e)),
            };
            let mut want = vec![(1, 2), (7, 7)];
            for (f, id, new) in [(b, 3, true), (c, 2, false), (b, 5, true), (c, 4, true), (a, 7, false)] {
                let u = match Uuid::parse(forms[f].clone()) {
                    Ok(u) => u,
                    Err(e) => return viol(format!("{} is refused: {:?}", forms[f], e)),
                };
                let r = g.add_gtid(MyGtid::new(u, id));
                ensure!(matches!(r, Ok(x) if x == new), "adding {}:{} says {:?}", forms[f], id, r);
                want.push((id, id));
                let mut w = Sets::new();
                w.insert(SID, normal(&want));
                ch.state(&w);
                ch.step(1);
                check_set(&g, &w, &|| format!("after adding {}:{}", forms[f], id))?;
            }
            ch.distinct(&(a, b, c));
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- C16

type L = Vec<(u32, u32, u64)>;
fn check_list(g: &GtidList, want: &L, what: &dyn Fn() -> String) -> Res {
    let got: L = g.gtids.iter().map(|g| (g.domain_id, g.server_id, g.sequence)).collect();
    ensure!(got == *want, "{}: holds {:?}, should hold {:?}", what(), got, want);
    let text = g.to_string();
    ensure!(text == list_text(want), "{}: prints {:?}, should print {:?}", what(), text, list_text(want));
    match GtidList::parse(&text) {
        Err(e) => viol(format!("{}: its own text {:?} is refused: {:?}", what(), text, e)),
        Ok(h) => {
            let again: L = h.gtids.iter().map(|g| (g.domain_id, g.server_id, g.sequence)).collect();
            ensure!(again == *want && h.to_string() == text, "{}: its text {:?} parses to {:?}", what(), text, again);
            Ok(())
        }
    }
}
fn put(l: &mut L, x: (u32, u32, u64)) -> bool {
    match l.iter().position(|y| y.0 == x.0) {
        Some(i) => {
            l[i] = x;
            false
        }
        None => {
            l.push(x);
            true
        }
    }
}
fn c16() -> Vec<Group> {
    vec![
        group("sequences", "from every ordered list over three domains: every sequence of up to 4 (thorough: 5) additions over 3 domains, 2 servers, 2 sequence numbers", |ch| {
            let starts: Vec<L> = {
                let one = |d: u32| (d, 1 + d, 10 * (d as u64 + 1));
                let mut v: Vec<L> = vec![vec![]];
                for p in [[0u32, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
                    for n in 1..=3 {
                        let l: L = p[..n].iter().map(|d| one(*d)).collect();
                        if !v.contains(&l) {
                            v.push(l)
                        }
                    }
                }
                v
            };
            let mut ops = vec![];
            for d in 0..3 {
                for s in [1u32, 9] {
                    for q in [5u64, 100] {
                        ops.push((d, s, q))
                    }
                }
            }
            let start = ch.pick(&starts).clone();
            let text = list_text(&start);
            let first = ch.of(&ops);
            let depth = by_tier(3, 4);
            let mut seq = vec![0usize; depth];
            loop {
                let mut g = match GtidList::parse(&text) {
                    Ok(g) => g,
                    Err(e) => return viol(format!("{:?} is refused: {:?}", text, e)),
                };
                let mut want = start.clone();
                for o in std::iter::once(first).chain(seq.iter().map(|i| ops[*i])) {
                    let new = put(&mut want, o);
                    let r = g.add_gtid(MaGtid::new(o.0, o.1, o.2));
                    ensure!(r == new, "adding {:?} on the way to {:?} says {}", o, want, r);
                    ch.step(1);
                    ch.state(&want);
                }
                ch.evals(1);
                check_list(&g, &want, &|| format!("{:?} plus {:?} {:?}", start, first, seq.iter().map(|i| ops[*i]).collect::<Vec<_>>()))?;
                ch.distinct(&(&start, first, &seq));
                let mut k = seq.len();
                loop {
                    if k == 0 {
                        return Ok(());
                    }
                    k -= 1;
                    seq[k] += 1;
                    if seq[k] < ops.len() {
                        break;
                    }
                    seq[k] = 0;
                }
            }
        }),
        group("number range", "domains, servers and sequence numbers at the ends of their ranges; a lower sequence number replaces a higher one", |ch| {
            let n32 = [0u32, 1, 0x7fff_ffff, 0x8000_0000, u32::MAX];
            let n64 = [0u64, 1, u32::MAX as u64 + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX];
            let a = (ch.of(&n32), ch.of(&n32), ch.of(&n64));
            let b = (ch.of(&n32), ch.of(&n32), ch.of(&n64));
            let mut want: L = vec![a];
            let mut g = match GtidList::parse(&list_text(&want)) {
                Ok(g) => g,
                Err(e) => return viol(format!("{:?} is refused: {:?}", list_text(&want), e)),
            };
            check_list(&g, &want, &|| format!("parsing {:?}", a))?;
            let new = put(&mut want, b);
            let r = g.add_gtid(MaGtid::new(b.0, b.1, b.2));
            ch.step(1);
            ch.state(&want);
            ch.distinct(&(a, b));
            ensure!(r == new, "adding {:?} to {:?} says {}", b, a, r);
            check_list(&g, &want, &|| format!("{:?} plus {:?}", a, b))?;
            for sep in [",", ", ", ",\n", " , "] {
                let t = want.iter().map(|x| list_text(&vec![*x])).collect::<Vec<_>>().join(sep);
                match GtidList::parse(&t) {
                    Err(e) => return viol(format!("{:?} is refused: {:?}", t, e)),
                    Ok(g) => check_list(&g, &want, &|| format!("parsing {:?}", t))?,
                }
                ch.evals(1);
            }
            Ok(())
        }),
        group("very many domains", "lists of up to 3000 domains: replacing the first, the last and those around every boundary", |ch| {
            let n = ch.of(&[127u32, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 3000]);
            let start: L = (0..n).map(|i| (i.wrapping_mul(2654435761), i, i as u64)).collect();
            for i in [0, 1, 63, 64, 126, 127, 128, 254, 255, 256, 511, 512, 999, 1022, 1023, 1024, 2999, 3000, n - 1, n] {
                if i > n {
                    continue;
                }
                let mut g = match GtidList::parse(&list_text(&start)) {
                    Ok(g) => g,
                    Err(e) => return viol(format!("{} domains are refused: {}", n, err(&e))),
                };
                let mut want = start.clone();
                for seq in [1_000_000, 0] {
                    let x = (i.wrapping_mul(2654435761), 77, seq);
                    let new = put(&mut want, x);
                    let r = g.add_gtid(MaGtid::new(x.0, x.1, x.2));
                    ensure!(r == new, "adding to domain {} of {} says {}", i, n, r);
                    ch.step(1);
                    ch.evals(1);
                }
                ch.state(&want);
                ch.distinct(&(n, i));
                check_list(&g, &want, &|| format!("{} domains, adding to the one at {}", n, i))?;
            }
            Ok(())
        }),
        group("many domains", "lists of 1..70 domains: replacing each one leaves the others and their order alone; adding one more appends", |ch| {
            let n = ch.range(1, by_tier(40, 70)) as u32;
            let start: L = (0..n).map(|i| (i.wrapping_mul(2654435761), i, i as u64)).collect();
            for i in 0..=n {
                let mut g = GtidList::new();
                for x in &start {
                    ensure!(g.add_gtid(MaGtid::new(x.0, x.1, x.2)), "a new domain is reported as known");
                }
                let mut want = start.clone();
                let x = (i.wrapping_mul(2654435761), 77, 1_000_000);
                let new = put(&mut want, x);
                let r = g.add_gtid(MaGtid::new(x.0, x.1, x.2));
                ensure!(r == new, "adding to domain {} of {} says {}", i, n, r);
                ch.step(1);
                ch.evals(1);
                ch.state(&want);
                ch.distinct(&(n, i));
                check_list(&g, &want, &|| format!("{} domains, adding to the one at {}", n, i))?;
            }
            Ok(())
        }),
    ]
}
