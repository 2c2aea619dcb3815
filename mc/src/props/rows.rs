//! C07, C11: row events and table maps.
use super::common::*;
use crate::env::FilePlan;
use crate::explore::*;
use crate::obs::*;
use crate::wire::*;
use crate::Check;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C07",
            level: "exploration",
            rule: "A case is a table definition and a row event on it: kind, version, presence bitmaps, NULL pattern of every image, number of rows, flags, table id, extra data. Distinct by event bytes; non-trivial: at least one row with at least one present column.",
            assumptions: &[
                "the reference encoder lays out row events as MySQL and MariaDB do",
                "an event whose images have no column at all carries no bytes per row, so the number of its rows is not in the event; such events are outside the domain",
            ],
            groups: c07,
        },
        Check {
            id: "C11",
            level: "exploration",
            rule: "A case is a table definition with optional metadata fields; distinct by event bytes, non-trivial: at least one column. Subsets and orders of the optional fields, nullability patterns, column types and boundary sizes are each enumerated completely.",
            assumptions: &["the reference encoder writes table maps and their optional metadata as MySQL 5.0-8.0 and MariaDB 5.3-10.x do (type, length, value)"],
            groups: c11,
        },
    ]
}

fn judge(ch: &mut Ch, f: &FileB) -> Res {
    ch.distinct(&f.bytes);
    let r = read_file(&f.bytes, FilePlan::default(), f.want.len() + 3);
    if let Some(e) = r.open {
        return viol(format!("the file was refused: {}", e));
    }
    compare(&r.items, &f.want).or_else(|e| viol(e))
}

/// A column type with visibly different widths and contents by position.
fn shape_col(i: usize) -> Col {
    match i % 5 {
        0 => tiny(),
        1 => varchar(300),
        2 => long(),
        3 => blob(1),
        _ => col(9, &[]),
    }
}
fn shape_cell(i: usize, salt: usize) -> Cell {
    let x = i * 31 + salt * 7 + 1;
    match i % 5 {
        0 => c_tiny(x as u8),
        1 => c_varchar(300, &format!("{}/{}", i, salt)[..1 + (i + salt) % 3]),
        2 => c_long((x as u32).wrapping_mul(0x01010101)),
        3 => c_blob(1, &vec![x as u8; (i + salt) % 4]),
        _ => cell((x as u32).wrapping_mul(257).to_le_bytes()[..3].to_vec(), MVal::Medium((x as u32).wrapping_mul(257) & 0xffffff)),
    }
}
/// Row images with every pattern of presence and NULL are built from bit masks.
fn cells(n: usize, nulls: u64, salt: usize) -> Vec<LCell> {
    (0..n).map(|i| if nulls >> (i % 64) & 1 == 1 { None } else { Some(shape_cell(i, salt)) }).collect()
}
fn bits(n: usize, mask: u64) -> Vec<bool> {
    (0..n).map(|i| mask >> (i % 64) & 1 == 1).collect()
}
fn shape_table(id: u64, n: usize) -> Table {
    Table::new(id, (0..n).map(shape_col).collect())
}
fn three_kinds(ch: &mut Ch) -> (Kind, u8) {
    let k = ch.of(&[Kind::Write, Kind::Delete, Kind::Update]);
    let v = ch.of(&[1u8, 2]);
    (k, v)
}
/// Sub-masks of a mask.
fn submasks(m: u64) -> Vec<u64> {
    let mut v = vec![];
    let mut s = m;
    loop {
        v.push(s);
        if s == 0 {
            break;
        }
        s = (s - 1) & m;
    }
    v
}

fn c07() -> Vec<Group> {
    vec![
        group("images", "tables of 1..6 columns: every presence bitmap and every NULL pattern of two rows", |ch| {
            let n = ch.range(1, by_tier(5, 7)) as usize;
            let kind = ch.of(&[Kind::Write, Kind::Delete]);
            let v = ch.of(&[1u8, 2]);
            let present = ch.range(1, (1 << n) - 1);
            let mut f = FileB::start(true);
            f.ev(&p_table(&shape_table(9, n)));
            for a in submasks(present) {
                let others = if n <= 4 || thorough() { submasks(present) } else { vec![0, present, present & 0x15, present & 0x0a, a, !a & present] };
                for b in others {
                    let mut l = LRows::new(kind, v, 9, n).row(cells(n, a, 1)).row(cells(n, b, 2));
                    l.before = bits(n, present);
                    f.ev(&p_rows(&l));
                    ch.evals(1);
                    ch.distinct(&(n, kind, v, present, a, b));
                }
            }
            ch.sample(|| format!("{:?} v{} on {} columns, presence {:b}: {} events", kind, v, n, present, f.want.len() - 2));
            ch.outcome(&(n, present));
            judge(ch, &f)
        }),
        group("updates", "updates of tables of 1..4 columns: every pair of presence bitmaps, every NULL pattern before, every or boundary NULL patterns after", |ch| {
            let n = ch.range(1, by_tier(4, 5)) as usize;
            let v = ch.of(&[1u8, 2]);
            let before = ch.range(1, (1 << n) - 1);
            let after = ch.range(0, (1 << n) - 1);
            let mut f = FileB::start(true);
            f.ev(&p_table(&shape_table(9, n)));
            for a in submasks(before) {
                for b in submasks(after) {
                    let mut l = LRows::new(Kind::Update, v, 9, n).upd(cells(n, a, 1), cells(n, b, 2)).upd(cells(n, b & before, 3), cells(n, a & after, 4));
                    l.before = bits(n, before);
                    l.after = bits(n, after);
                    f.ev(&p_rows(&l));
                    ch.evals(1);
                    ch.distinct(&(n, v, before, after, a, b));
                }
            }
            judge(ch, &f)
        }),
        group("wide tables", "tables of up to 4096 columns: every column alone absent, alone present, alone NULL, alone not NULL", |ch| {
            let n = ch.of(&[6usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 249, 250, 251, 252, 255, 256, 257, 300, 1017, 4096]);
            let (kind, v) = three_kinds(ch);
            let step = if n <= by_tier(65, 257) { 1 } else { n / by_tier(40, 300) + 1 };
            let mut at: Vec<usize> = (0..n).step_by(step).collect();
            at.extend([n - 1, n - 2, 7, 8, 250, 251].iter().filter(|x| **x < n));
            at.sort();
            at.dedup();
            let mode = ch.choose(4);
            let t = shape_table(9, n);
            let mut f = FileB::start(false);
            f.ev(&p_table(&t));
            for k in at {
                let mut l = LRows::new(kind, v, 9, n);
                let full: Vec<LCell> = (0..n).map(|i| Some(shape_cell(i, k))).collect();
                let mut row = full.clone();
                match mode {
                    0 => l.before[k] = false,
                    1 => {
                        l.before.fill(false);
                        l.before[k] = true
                    }
                    2 => row[k] = None,
                    _ => {
                        row.fill(None);
                        row[k] = full[k].clone()
                    }
                }
                l.after = if mode < 2 { l.before.iter().map(|x| !*x || n == 1).collect() } else { l.before.clone() };
                if mode == 0 {
                    l.after[(k + 1) % n] = true;
                }
                let l = if kind == Kind::Update { l.upd(row.clone(), full.clone()).upd(full, row) } else { l.row(row.clone()).row(full).row(row) };
                f.ev(&p_rows(&l));
                ch.evals(1);
                ch.distinct(&(n, kind, v, mode, k));
            }
            ch.sample(|| format!("{:?} v{} on {} columns, pattern {}", kind, v, n, mode));
            ch.outcome(&(n, mode));
            judge(ch, &f)
        }),
        group("many rows", "events of 0..70000 rows (thorough: up to 2^20)", |ch| {
            let (kind, v) = three_kinds(ch);
            let m = *ch.pick(by_tier(&[0usize, 1, 2, 3, 255, 256, 257, 5000, 32768, 65535, 65536, 65537, 70000][..], &[0, 1, 2, 3, 255, 256, 257, 5000, 32767, 32768, 65535, 65536, 65537, 70000, 131073, 1 << 20]));
            let mut l = LRows::new(kind, v, 9, 6);
            l.before[4] = false;
            for i in 0..m {
                let a = cells(6, i as u64 * 5 % 64, i);
                let b = cells(6, i as u64 * 11 % 64, i + 1);
                l = if kind == Kind::Update { l.upd(a, b) } else { l.row(a) };
            }
            let mut f = FileB::start(true);
            f.ev(&p_table(&shape_table(9, 6)));
            f.ev(&p_rows(&l));
            ch.evals(m as u64);
            judge(ch, &f)
        }),
        group("heads", "every combination of flags, boundary table ids and extra data", |ch| {
            let (kind, v) = three_kinds(ch);
            let id = ch.of(&[0u64, 1, 255, 256, 0xffff, 0x10000, 0xfffffe, 0xffffffff, 0x100000000, 0xffffffffffff]);
            let flags = ch.of(&[0u16, 1, 2, 4, 8, 0x10, 0x80, 0x100, 0x8000, 0xffff]);
            let extra = if v == 2 { ch.of(&[0usize, 1, 2, 3, 7, 253, 254, 255, 256, 1000, 65533]) } else { 0 };
            let mut l = small_rows(kind, v, id);
            l.flags = flags;
            l.extra = (0..extra).map(|i| (i * 3) as u8).collect();
            let mut t = small_table(id);
            t.id = id;
            let mut f = FileB::start(true);
            f.ev(&p_table(&t));
            f.ev(&p_rows(&l));
            f.ev(&p_rows(&l));
            ch.outcome(&(kind, v, flags));
            judge(ch, &f)
        }),
        group("neighbours", "every ordered triple of column types next to each other", |ch| {
            let pool = type_pool();
            let a = ch.choose(pool.len());
            let b = ch.choose(pool.len());
            let v = ch.of(&[1u8, 2]);
            let mut f = FileB::start(false);
            for c in 0..pool.len() {
                let cs = [&pool[a], &pool[b], &pool[c]];
                let t = Table::new(20 + c as u64, cs.iter().map(|x| x.0.clone()).collect());
                f.ev(&p_table(&t));
                let full: Vec<LCell> = cs.iter().map(|x| Some(x.1.clone())).collect();
                let mut l = LRows::new(Kind::Update, v, t.id, 3);
                l = l.upd(full.clone(), full.clone());
                for k in 0..3 {
                    let mut r = full.clone();
                    r[k] = None;
                    l = l.upd(r.clone(), full.clone()).upd(full.clone(), r)
                }
                f.ev(&p_rows(&l));
                ch.evals(1);
                ch.distinct(&(a, b, c, v));
            }
            judge(ch, &f)
        }),
    ]
}

/// One definition and value of every column type a server logs.
pub fn type_pool() -> Vec<(Col, Cell)> {
    let s = |max: u16, t: &str| c_varchar(max, t);
    vec![
        (tiny(), c_tiny(0x91)),
        (col(2, &[]), cell(vec![0x34, 0x92], MVal::Small(0x9234))),
        (col(9, &[]), cell(vec![1, 2, 0x83], MVal::Medium(0x830201))),
        (long(), c_long(0x94030201)),
        (col(8, &[]), cell(vec![8, 7, 6, 5, 4, 3, 2, 0x81], MVal::Big(0x8102030405060708))),
        (col(4, &[4]), cell(1.5f32.to_le_bytes().to_vec(), MVal::Float(1.5f32.to_bits()))),
        (col(5, &[8]), cell((-2.25f64).to_le_bytes().to_vec(), MVal::Double((-2.25f64).to_bits()))),
        (col(246, &[10, 2]), cell(vec![0x80 ^ 0x00, 0x12, 0xd6, 0x87, 0x0c], MVal::Decimal("1234567.12".into()))),
        (varchar(40), s(40, "varchar")),
        (varchar(400), s(400, "varchar ü")),
        (col(254, &[0xfe, 20]), s(20, "char")),
        (col(254, &[0xee, 0x2c]), s(300, "long char")),
        (col(254, &[0xf7, 1]), cell(vec![2], MVal::Enum(2))),
        (col(254, &[0xf7, 2]), cell(vec![2, 1], MVal::Enum(0x102))),
        (col(254, &[0xf8, 1]), cell(vec![0x85], MVal::Set(0x85))),
        (col(254, &[0xf8, 8]), cell(vec![1, 2, 3, 4, 5, 6, 7, 0x88], MVal::Set(0x8807060504030201))),
        (col(16, &[1, 0]), cell(vec![1], MVal::Bit(vec![true]))),
        (col(16, &[3, 1]), cell(vec![0x05, 0x81], MVal::Bit(vec![true, false, true, true, false, false, false, false, false, false, true]))),
        (blob(1), c_blob(1, b"tiny blob")),
        (blob(2), c_blob(2, &[0, 255, 7])),
        (blob(3), c_blob(3, b"medium")),
        (blob(4), c_blob(4, b"")),
        (col(245, &[4]), c_blob(4, &[2, 0, 0, 4, 0])),
        (col(255, &[4]), c_blob(4, &[1; 25])),
        (col(13, &[]), cell(vec![121], MVal::Year(2021))),
        (col(10, &[]), cell(vec![0x5c, 0xca, 0x0f], MVal::Date(2021, 2, 28))),
        (col(11, &[]), cell(vec![0x40, 0xe2, 0x01], MVal::Time(12, 34, 56, 0))),
        (col(7, &[]), cell(1_600_000_000u32.to_le_bytes().to_vec(), MVal::Timestamp(1_600_000_000_000))),
        (col(12, &[]), cell(20210228235958u64.to_le_bytes().to_vec(), MVal::DateTime(2021, 2, 28, 23, 59, 58, 0))),
        (col(17, &[0]), cell(1_600_000_000u32.to_be_bytes().to_vec(), MVal::Timestamp(1_600_000_000_000))),
        (col(17, &[3]), cell([&1_600_000_000u32.to_be_bytes()[..], &[0x26, 0xac]].concat(), MVal::Timestamp(1_600_000_000_990))),
        (col(18, &[6]), cell([dt2(2021, 2, 28, 23, 59, 58), vec![0x01, 0xe2, 0x40]].concat(), MVal::DateTime(2021, 2, 28, 23, 59, 58, 123))),
        (col(19, &[2]), cell(vec![0x80, 0xc8, 0xb8, 0x05], MVal::Time(12, 34, 56, 50))),
    ]
}
fn dt2(y: u64, mo: u64, d: u64, h: u64, mi: u64, s: u64) -> Vec<u8> {
    let x = 1u64 << 39 | (y * 13 + mo) << 22 | d << 17 | h << 12 | mi << 6 | s;
    x.to_be_bytes()[3..].to_vec()
}

// ---- C11 ----

fn field(ty: u8, b: Vec<u8>) -> Vec<u8> {
    B::new().u8(ty).lenenc(b.len() as u64).bytes(&b).0
}
fn ints(v: &[u32]) -> Vec<u8> {
    v.iter().fold(B::new(), |b, x| b.lenenc(*x as u64)).0
}
fn pairs(v: &[(u32, u32)]) -> Vec<u8> {
    v.iter().fold(B::new(), |b, x| b.lenenc(x.0 as u64).lenenc(x.1 as u64)).0
}
fn strs(v: &[String]) -> Vec<u8> {
    v.iter().fold(B::new(), |b, x| b.lenstr(x)).0
}
fn lists(v: &[Vec<String>]) -> Vec<u8> {
    v.iter().fold(B::new(), |b, x| b.lenenc(x.len() as u64).bytes(&strs(x))).0
}
fn charset(d: u32, v: &[(u32, u32)]) -> Vec<u8> {
    B::new().lenenc(d as u64).bytes(&pairs(v)).0
}
/// Field `ty` of the metadata, as stored.
fn opt_field(ty: u8, o: &OptMeta) -> Vec<u8> {
    let b = match ty {
        1 => B::new().bits_msb(o.signedness.as_ref().unwrap()).0,
        2 => charset(o.default_charset.as_ref().unwrap().0, &o.default_charset.as_ref().unwrap().1),
        3 => ints(o.column_charsets.as_ref().unwrap()),
        4 => strs(o.column_names.as_ref().unwrap()),
        5 => lists(o.set_values.as_ref().unwrap()),
        6 => lists(o.enum_values.as_ref().unwrap()),
        7 => ints(o.geometry_types.as_ref().unwrap()),
        8 => ints(o.simple_pk.as_ref().unwrap()),
        9 => pairs(o.prefix_pk.as_ref().unwrap()),
        10 => charset(o.es_default_charset.as_ref().unwrap().0, &o.es_default_charset.as_ref().unwrap().1),
        11 => ints(o.es_column_charsets.as_ref().unwrap()),
        _ => B::new().bits_msb(o.visibility.as_ref().unwrap()).0,
    };
    field(ty, b)
}
fn only(o: &OptMeta, have: &[u8]) -> OptMeta {
    let h = |t: u8| have.contains(&t);
    let o = o.clone();
    OptMeta {
        signedness: o.signedness.filter(|_| h(1)),
        default_charset: o.default_charset.filter(|_| h(2)),
        column_charsets: o.column_charsets.filter(|_| h(3)),
        column_names: o.column_names.filter(|_| h(4)),
        set_values: o.set_values.filter(|_| h(5)),
        enum_values: o.enum_values.filter(|_| h(6)),
        geometry_types: o.geometry_types.filter(|_| h(7)),
        simple_pk: o.simple_pk.filter(|_| h(8)),
        prefix_pk: o.prefix_pk.filter(|_| h(9)),
        es_default_charset: o.es_default_charset.filter(|_| h(10)),
        es_column_charsets: o.es_column_charsets.filter(|_| h(11)),
        visibility: o.visibility.filter(|_| h(12)),
    }
}
fn put_table(f: &mut FileB, t: &Table, o: &OptMeta, order: &[u8]) {
    let bytes: Vec<u8> = order.iter().flat_map(|ty| opt_field(*ty, o)).collect();
    let want = if order.is_empty() { None } else { Some(only(o, order)) };
    f.ev(&proto(TABLE_MAP, t.body(&bytes), t.ev_opt(want)));
}
fn numeric(t: u8) -> bool {
    matches!(t, 1 | 2 | 3 | 4 | 5 | 8 | 9 | 246)
}
/// Eleven columns of all the classes metadata speaks about.
fn meta_table() -> Table {
    Table::new(
        77,
        vec![
            long(),
            varchar(80),
            col(254, &[0xf7, 1]),
            col(254, &[0xf8, 1]),
            col(255, &[4]),
            col(246, &[10, 2]),
            blob(2),
            tiny(),
            col(5, &[8]),
            col(254, &[0xf7, 2]),
            col(10, &[]),
        ],
    )
}
fn rich() -> OptMeta {
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    OptMeta {
        signedness: Some(vec![true, false, true, true]),
        default_charset: Some((255, vec![(1, 63), (2, 300)])),
        column_charsets: Some(vec![45, 63, 255, 251, 65535]),
        column_names: Some(s(&["id", "näme", "", "set", "where", "price", "data", "x", "y", "kind", "day"])),
        set_values: Some(vec![s(&["red", "", "grün"])]),
        enum_values: Some(vec![s(&["a"]), s(&["low", "漢"])]),
        geometry_types: Some(vec![1]),
        simple_pk: Some(vec![0, 5, 10]),
        prefix_pk: Some(vec![(1, 10), (6, 0), (5, 300)]),
        es_default_charset: Some((8, vec![(1, 255)])),
        es_column_charsets: Some(vec![8, 45, 33]),
        visibility: Some(vec![true, true, false, true, false, true, true, true, false, true, false]),
    }
}

fn c11() -> Vec<Group> {
    vec![
        group("fields", "every subset of the twelve optional metadata fields, in ascending, descending and rotated order", |ch| {
            let mask = ch.choose(4096);
            let base: Vec<u8> = (1..=12u8).filter(|i| mask >> (i - 1) & 1 == 1).collect();
            let t = meta_table();
            let o = rich();
            let mut f = FileB::start(true);
            put_table(&mut f, &t, &o, &base);
            let mut r = base.clone();
            r.reverse();
            put_table(&mut f, &t, &o, &r);
            let rot = by_tier(2.min(base.len()), base.len());
            for k in 1..rot {
                let mut r = base.clone();
                r.rotate_left(k);
                put_table(&mut f, &t, &o, &r);
            }
            ch.evals(1 + rot as u64);
            ch.outcome(&mask);
            ch.sample(|| format!("fields {:?}", base));
            judge(ch, &f)
        }),
        group("field orders", "every order of every three of the fields", |ch| {
            let t = meta_table();
            let o = rich();
            let a = ch.range(1, 12) as u8;
            let b = ch.range(1, 12) as u8;
            let mut f = FileB::start(false);
            for c in 1..=12u8 {
                if a == b || b == c || a == c {
                    continue;
                }
                put_table(&mut f, &t, &o, &[a, b, c]);
                ch.evals(1);
            }
            judge(ch, &f)
        }),
        group("types", "every column type of the protocol with every metadata byte pair that a server can write, among neighbours", |ch| {
            // One metadata byte, two bytes, none.
            let (typ, width) = ch.of(&[
                (1u8, 0usize), (2, 0), (3, 0), (4, 1), (5, 1), (6, 0), (7, 0), (8, 0), (9, 0), (10, 0), (11, 0), (12, 0), (13, 0), (14, 0), (15, 2), (16, 2), (17, 1), (18, 1), (19, 1),
                (245, 1), (246, 2), (249, 1), (250, 1), (251, 1), (252, 1), (253, 2), (254, 2), (255, 1), (0, 0),
            ]);
            let hi = if width == 2 { ch.choose(256) as u8 } else { 0 };
            let mut f = FileB::start(false);
            for lo in 0..=if width == 0 { 0u8 } else { 255 } {
                let meta: &[u8] = &[lo, hi];
                let c = col(typ, &meta[..width]);
                let t = Table::new(3, vec![varchar(0x1234), c.clone(), long(), c.clone(), col(254, &[0xf7, 2])]);
                f.ev(&p_table(&t));
                ch.evals(1);
                ch.distinct(&(typ, lo, hi));
            }
            ch.outcome(&typ);
            judge(ch, &f)
        }),
        group("shapes", "1..9 columns with every nullability pattern; up to 4096 columns with every column alone nullable", |ch| {
            let mut f = FileB::start(true);
            if ch.flag() {
                let n = ch.range(1, by_tier(9, 11)) as usize;
                let hi = ch.range(0, 7.min((1 << n) - 1));
                for lo in 0..(1u64 << n) / 8 + 1 {
                    let m = lo * 8 + hi;
                    if m >> n > 0 {
                        continue;
                    }
                    let mut t = shape_table(4, n);
                    t.nullable = bits(n, m);
                    f.ev(&p_table(&t));
                    ch.evals(1);
                }
            } else {
                let n = ch.of(&[15usize, 16, 17, 63, 64, 65, 249, 250, 251, 252, 255, 256, 257, 511, 1017, 4095, 4096]);
                let k = ch.choose(16);
                let inv = ch.flag();
                for at in (0..n).filter(|i| i % 16 == k).step_by(if n > 300 { by_tier(9, 1) } else { 1 }) {
                    let mut t = shape_table(4, n);
                    t.nullable = (0..n).map(|i| (i == at) != inv).collect();
                    f.ev(&p_table(&t));
                    ch.evals(1);
                }
            }
            judge(ch, &f)
        }),
        group("names", "every boundary length of database and table name, with text of one to four bytes per character; boundary table ids", |ch| {
            let lens = [0usize, 1, 2, 3, 4, 63, 64, 65, 127, 128, 191, 192, 250, 251, 252, 254, 255];
            let d = ch.of(&lens);
            let t = ch.of(&lens);
            let mut f = FileB::start(true);
            for unit in ["a", "é", "漢", "🦀", ".", " "] {
                for id in [0u64, 1, 0xff, 0xffff_ffff, 0x1_0000_0000, 0xffff_ffff_ffff] {
                    let name = |n: usize| {
                        let mut s = unit.repeat(n / unit.len());
                        while s.len() < n {
                            s.push('_')
                        }
                        s
                    };
                    let mut tb = small_table(id);
                    tb.db = name(d);
                    tb.name = name(t);
                    f.ev(&p_table(&tb));
                    ch.evals(1);
                    ch.distinct(&(d, t, unit, id));
                }
            }
            judge(ch, &f)
        }),
        group("signedness", "signedness of 1..10 numeric columns among others: every pattern", |ch| {
            let n = ch.range(1, 10) as usize;
            let order = ch.choose(4);
            let hi = ch.range(0, 3.min((1 << n) - 1));
            let kinds = [tiny(), col(2, &[]), col(9, &[]), long(), col(8, &[]), col(4, &[4]), col(5, &[8]), col(246, &[10, 2])];
            let others = [varchar(10), blob(2), col(10, &[]), col(18, &[0]), col(254, &[0xf7, 1]), col(254, &[0xfe, 10]), col(17, &[0]), col(16, &[1, 0])];
            let mut cols = vec![];
            for i in 0..n {
                if order & 1 == 1 {
                    cols.push(others[i % others.len()].clone())
                }
                cols.push(kinds[(i * 3 + order) % kinds.len()].clone());
                if order & 2 == 2 {
                    cols.push(others[(i + 3) % others.len()].clone())
                }
            }
            let t = Table::new(5, cols);
            assert_eq!(t.cols.iter().filter(|c| numeric(c.typ)).count(), n);
            let mut f = FileB::start(false);
            for m in (0..1u64 << n).filter(|m| m & 3 == hi) {
                let o = OptMeta { signedness: Some(bits(n, m)), ..Default::default() };
                put_table(&mut f, &t, &o, &[1]);
                ch.evals(1);
                ch.distinct(&(n, order, m));
            }
            judge(ch, &f)
        }),
        group("visibility", "visibility of 1..10 columns: every pattern; of up to 4096 columns: every column alone", |ch| {
            let mut f = FileB::start(false);
            if ch.flag() {
                let n = ch.range(1, 10) as usize;
                for m in 0..1u64 << n {
                    let o = OptMeta { visibility: Some(bits(n, m)), ..Default::default() };
                    put_table(&mut f, &shape_table(4, n), &o, &[12]);
                    ch.evals(1);
                }
            } else {
                let n = ch.of(&[15usize, 16, 17, 63, 64, 65, 250, 251, 252, 255, 256, 257, 1017, 2008, 4096]);
                let k = ch.choose(8);
                for at in (0..n).filter(|i| i % 8 == k).step_by(n / 128 + 1) {
                    let o = OptMeta { visibility: Some((0..n).map(|i| i != at).collect()), column_names: None, ..Default::default() };
                    put_table(&mut f, &shape_table(4, n), &o, &[12]);
                    ch.evals(1);
                }
            }
            judge(ch, &f)
        }),
        group("numbers", "every boundary number in the integer fields, every boundary count and length in the text fields", |ch| {
            let nums = [0u32, 1, 250, 251, 252, 253, 254, 255, 256, 65535, 65536, 0xff_ffff, 0x100_0000, u32::MAX];
            let which = ch.range(2, 11) as u8;
            let t = meta_table();
            let mut f = FileB::start(false);
            let mut put = |o: OptMeta| put_table(&mut f, &t, &o, &[which]);
            let s = |n: usize| "s".repeat(n);
            let lens = [0usize, 1, 249, 250, 251, 252, 255, 256, 65535, 65536, 70000];
            let mut k = 0;
            match which {
                2 | 10 => {
                    for a in nums {
                        for b in nums {
                            for pairs in [vec![], vec![(b, a)], vec![(0, b), (b, 63), (2, a)]] {
                                let x = Some((a, pairs));
                                put(if which == 2 { OptMeta { default_charset: x, ..Default::default() } } else { OptMeta { es_default_charset: x, ..Default::default() } });
                                k += 1;
                            }
                        }
                    }
                }
                3 | 7 | 8 | 11 => {
                    for a in nums {
                        for b in nums {
                            for v in [vec![a], vec![a, b], vec![b; 260]] {
                                let x = Some(v);
                                put(match which {
                                    3 => OptMeta { column_charsets: x, ..Default::default() },
                                    7 => OptMeta { geometry_types: x, ..Default::default() },
                                    8 => OptMeta { simple_pk: x, ..Default::default() },
                                    _ => OptMeta { es_column_charsets: x, ..Default::default() },
                                });
                                k += 1;
                            }
                        }
                    }
                }
                9 => {
                    for a in nums {
                        for b in nums {
                            put(OptMeta { prefix_pk: Some(vec![(a, b), (b, a), (0, 0)]), ..Default::default() });
                            put(OptMeta { prefix_pk: Some(vec![(a, b)]), ..Default::default() });
                            k += 2;
                        }
                    }
                }
                4 => {
                    for a in lens {
                        for b in lens {
                            put(OptMeta { column_names: Some(vec![s(a), "ü".into(), s(b)]), ..Default::default() });
                            k += 1;
                        }
                    }
                }
                _ => {
                    // An empty and a long value at every place of a list.
                    for a in [0, 251] {
                        for n in [1usize, 2, 3, 63, 64, 65, 254] {
                            for at in 0..n {
                                let v = vec![(0..n).map(|i| s(if i == at { a } else { 1 })).collect(), vec![s(3)]];
                                let x = Some(v);
                                put(if which == 5 { OptMeta { set_values: x, ..Default::default() } } else { OptMeta { enum_values: x, ..Default::default() } });
                                k += 1;
                            }
                        }
                    }
                    for n in [0usize, 1, 2, 63, 64, 65, 250, 251, 255, 256, 257, 1000, 65535] {
                        for a in [0usize, 2] {
                            let x = Some(vec![vec![s(a); n], vec![s(2)]]);
                            put(if which == 5 { OptMeta { set_values: x, ..Default::default() } } else { OptMeta { enum_values: x, ..Default::default() } });
                            k += 1;
                        }
                    }
                    for a in lens {
                        for v in [vec![vec![s(a)]], vec![vec![], vec![s(a), s(1), "é".into()]], vec![vec!["v".into(); a % 300], vec![s(2)]], vec![vec![s(1)]; a % 300]] {
                            let x = Some(v);
                            put(if which == 5 { OptMeta { set_values: x, ..Default::default() } } else { OptMeta { enum_values: x, ..Default::default() } });
                            k += 1;
                        }
                    }
                }
            }
            ch.evals(k);
            ch.outcome(&which);
            judge(ch, &f)
        }),
    ]
}
