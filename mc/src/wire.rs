//! Reference encoder: the bytes a MySQL or MariaDB server writes, after the servers' documentation and sources,
//! independent of the code under test.
use crate::obs::*;

/// Byte buffer with little-endian and length-encoded writers.
#[derive(Clone, Default, Debug, PartialEq, Eq, Hash)]
pub struct B(pub Vec<u8>);
impl B {
    pub fn new() -> B {
        B(vec![])
    }
    pub fn u8(mut self, x: u8) -> B {
        self.0.push(x);
        self
    }
    pub fn u16(mut self, x: u16) -> B {
        self.0.extend_from_slice(&x.to_le_bytes());
        self
    }
    pub fn u24(mut self, x: u32) -> B {
        self.0.extend_from_slice(&x.to_le_bytes()[..3]);
        self
    }
    pub fn u32(mut self, x: u32) -> B {
        self.0.extend_from_slice(&x.to_le_bytes());
        self
    }
    pub fn u48(mut self, x: u64) -> B {
        self.0.extend_from_slice(&x.to_le_bytes()[..6]);
        self
    }
    pub fn u64(mut self, x: u64) -> B {
        self.0.extend_from_slice(&x.to_le_bytes());
        self
    }
    pub fn bytes(mut self, x: &[u8]) -> B {
        self.0.extend_from_slice(x);
        self
    }
    pub fn str(self, s: &str) -> B {
        self.bytes(s.as_bytes())
    }
    pub fn strz(self, s: &str) -> B {
        self.bytes(s.as_bytes()).u8(0)
    }
    pub fn lenenc(self, n: u64) -> B {
        if n < 251 {
            self.u8(n as u8)
        } else if n < 1 << 16 {
            self.u8(0xfc).u16(n as u16)
        } else if n < 1 << 24 {
            self.u8(0xfd).u24(n as u32)
        } else {
            self.u8(0xfe).u64(n)
        }
    }
    pub fn lenstr(self, s: &str) -> B {
        self.lenenc(s.len() as u64).str(s)
    }
    pub fn bits_le(mut self, bits: &[bool]) -> B {
        for c in bits.chunks(8) {
            let mut b = 0u8;
            for (i, x) in c.iter().enumerate() {
                b |= (*x as u8) << i
            }
            self.0.push(b)
        }
        self
    }
    /// Bit i of the bitmap is bit 7 - i%8 of byte i/8, as in table map metadata.
    pub fn bits_msb(mut self, bits: &[bool]) -> B {
        for c in bits.chunks(8) {
            let mut b = 0u8;
            for (i, x) in c.iter().enumerate() {
                b |= (*x as u8) << (7 - i)
            }
            self.0.push(b)
        }
        self
    }
}

const fn crc_table() -> [u32; 256] {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        let mut c = i as u32;
        let mut k = 0;
        while k < 8 {
            c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
            k += 1
        }
        t[i] = c;
        i += 1
    }
    t
}
static CRC: [u32; 256] = crc_table();
pub fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c = CRC[((c ^ *x as u32) & 0xff) as usize] ^ (c >> 8)
    }
    !c
}

pub const QUERY: u8 = 2;
pub const STOP: u8 = 3;
pub const ROTATE: u8 = 4;
pub const INTVAR: u8 = 5;
pub const RAND: u8 = 13;
pub const USER_VAR: u8 = 14;
pub const FDE: u8 = 15;
pub const XID: u8 = 16;
pub const TABLE_MAP: u8 = 19;
pub const HEARTBEAT: u8 = 27;
pub const ROWS_QUERY: u8 = 29;
pub const MY_GTID: u8 = 33;
pub const MY_PREV: u8 = 35;
pub const XA_PREPARE: u8 = 38;
pub const MA_ANNOTATE: u8 = 160;
pub const MA_CHECKPOINT: u8 = 161;
pub const MA_GTID: u8 = 162;
pub const MA_LIST: u8 = 163;
pub const MAGIC: [u8; 4] = [0xfe, 0x62, 0x69, 0x6e];

/// One event as the server hands it out: 19 header bytes, body, optional CRC32.
pub fn event(h: &Hdr, body: &[u8], crc: bool) -> Vec<u8> {
    let mut v = B::new().u32(h.ts).u8(h.typ).u32(h.server_id).u32(h.len).u32(h.next).u16(h.flags).bytes(body).0;
    if crc {
        let c = crc32(&v);
        v.extend_from_slice(&c.to_le_bytes());
    }
    v
}
pub fn rows_type(k: Kind, version: u8) -> u8 {
    let base = if version == 1 { 23 } else { 30 };
    base + match k {
        Kind::Write => 0,
        Kind::Update => 1,
        Kind::Delete => 2,
    }
}

/// Format description body. `types`: number of event types of the server; `alg`: checksum algorithm byte, absent
/// for servers that know no checksums. A server that declares an algorithm always appends a checksum to this
/// event, whatever the algorithm.
pub fn fde_body(version: u16, server: &str, types: usize, alg: Option<u8>) -> Vec<u8> {
    let mut name = server.as_bytes().to_vec();
    name.resize(50, 0);
    let mut b = B::new().u16(version).bytes(&name).u32(0).u8(19);
    // Post-header lengths. Only the one of the format description event itself (its whole fixed part) matters.
    let std: [u8; 41] = [
        0, 13, 0, 8, 0, 0, 0, 0, 4, 0, 4, 0, 0, 0, 0, 0, 4, 26, 8, 0, 0, 0, 8, 8, 8, 2, 0, 0, 0, 10, 10, 10, 42, 42, 0, 18, 52, 0, 10, 40, 0,
    ];
    for i in 0..types {
        let v = if i == 14 {
            (57 + types) as u8
        } else if i == 0 {
            56
        } else if i < 41 {
            std[i]
        } else {
            0
        };
        b = b.u8(v);
    }
    if let Some(a) = alg {
        b = b.u8(a)
    }
    b.0
}
pub fn query_body(thread: u32, duration: u32, error: u16, status: &[u8], db: &str, sql: &str) -> Vec<u8> {
    B::new().u32(thread).u32(duration).u8(db.len() as u8).u16(error).u16(status.len() as u16).bytes(status).strz(db).str(sql).0
}
pub fn user_var_body(name: &str, v: Option<(&UVar, bool)>) -> Vec<u8> {
    let b = B::new().u32(name.len() as u32).str(name);
    match v {
        None => b.u8(1).0,
        Some((v, with_flags)) => {
            let b = b.u8(0).u8(v.typ).u32(v.collation).u32(v.value.len() as u32).str(&v.value);
            if with_flags {
                b.u8(v.flags).0
            } else {
                b.0
            }
        }
    }
}
pub fn sets_body(s: &Sets) -> Vec<u8> {
    let mut b = B::new().u64(s.len() as u64);
    for (sid, iv) in s {
        b = b.bytes(sid).u64(iv.len() as u64);
        for (x, y) in iv {
            b = b.u64(*x).u64(*y + 1)
        }
    }
    b.0
}
pub fn uuid_text(s: &[u8; 16]) -> String {
    let h: String = s.iter().map(|b| format!("{:02x}", b)).collect();
    format!("{}-{}-{}-{}-{}", &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..])
}
pub fn sets_text(s: &Sets) -> String {
    s.iter()
        .map(|(sid, iv)| {
            let i: Vec<String> = iv.iter().map(|(a, b)| if a == b { a.to_string() } else { format!("{}-{}", a, b) }).collect();
            format!("{}:{}", uuid_text(sid), i.join(":"))
        })
        .collect::<Vec<_>>()
        .join(",")
}
pub fn list_text(l: &[(u32, u32, u64)]) -> String {
    l.iter().map(|(d, s, q)| format!("{}-{}-{}", d, s, q)).collect::<Vec<_>>().join(",")
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Col {
    pub typ: u8,
    /// Metadata bytes in the table map.
    pub meta: Vec<u8>,
    /// The same as reported by the library.
    pub meta16: u16,
}
pub fn col(typ: u8, meta: &[u8]) -> Col {
    let m = match (typ, meta.len()) {
        (_, 0) => 0,
        (_, 1) => meta[0] as u16,
        (247 | 248 | 254, _) => u16::from_be_bytes([meta[0], meta[1]]),
        _ => u16::from_le_bytes([meta[0], meta[1]]),
    };
    Col { typ, meta: meta.to_vec(), meta16: m }
}
pub fn tiny() -> Col {
    col(1, &[])
}
pub fn long() -> Col {
    col(3, &[])
}
pub fn varchar(bytes: u16) -> Col {
    col(15, &bytes.to_le_bytes())
}
pub fn blob(len_bytes: u8) -> Col {
    col(252, &[len_bytes])
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cell {
    pub bytes: Vec<u8>,
    pub val: MVal,
}
pub fn cell(bytes: Vec<u8>, val: MVal) -> Cell {
    Cell { bytes, val }
}
pub fn c_tiny(x: u8) -> Cell {
    cell(vec![x], MVal::Tiny(x))
}
pub fn c_long(x: u32) -> Cell {
    cell(x.to_le_bytes().to_vec(), MVal::Int(x))
}
pub fn c_varchar(max_bytes: u16, s: &str) -> Cell {
    let b = if max_bytes < 256 { B::new().u8(s.len() as u8) } else { B::new().u16(s.len() as u16) };
    cell(b.str(s).0, MVal::Str(s.to_string()))
}
pub fn c_blob(len_bytes: u8, data: &[u8]) -> Cell {
    let l = (data.len() as u64).to_le_bytes();
    cell(B::new().bytes(&l[..len_bytes as usize]).bytes(data).0, MVal::Blob(data.to_vec()))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Table {
    pub id: u64,
    pub db: String,
    pub name: String,
    pub cols: Vec<Col>,
    pub nullable: Vec<bool>,
}
impl Table {
    pub fn new(id: u64, cols: Vec<Col>) -> Table {
        let n = cols.len();
        Table { id, db: "shop".into(), name: "orders".into(), cols, nullable: vec![true; n] }
    }
    pub fn body(&self, opt: &[u8]) -> Vec<u8> {
        let meta: Vec<u8> = self.cols.iter().flat_map(|c| c.meta.clone()).collect();
        let types: Vec<u8> = self.cols.iter().map(|c| c.typ).collect();
        B::new()
            .u48(self.id)
            .u16(1)
            .u8(self.db.len() as u8)
            .strz(&self.db)
            .u8(self.name.len() as u8)
            .strz(&self.name)
            .lenenc(types.len() as u64)
            .bytes(&types)
            .lenenc(meta.len() as u64)
            .bytes(&meta)
            .bits_le(&self.nullable)
            .bytes(opt)
            .0
    }
    pub fn ev(&self) -> Ev {
        self.ev_opt(None)
    }
    pub fn ev_opt(&self, opt: Option<OptMeta>) -> Ev {
        Ev::TableMap(TMap {
            id: self.id,
            db: self.db.clone(),
            table: self.name.clone(),
            types: self.cols.iter().map(|c| c.typ).collect(),
            meta: self.cols.iter().map(|c| c.meta16).collect(),
            nullable: self.nullable.clone(),
            opt,
        })
    }
}
/// What a row image holds for one column.
pub type LCell = Option<Cell>;
fn image(b: B, present: &[bool], cells: &[LCell]) -> B {
    let nulls: Vec<bool> = (0..cells.len()).filter(|i| present[*i]).map(|i| cells[i].is_none()).collect();
    let mut b = b.bits_le(&nulls);
    for i in 0..cells.len() {
        if present[i] {
            if let Some(c) = &cells[i] {
                b = b.bytes(&c.bytes)
            }
        }
    }
    b
}
fn image_row(present: &[bool], cells: &[LCell]) -> Row {
    cells.iter().zip(present).map(|(c, p)| if *p { c.as_ref().map(|c| c.val.clone()) } else { None }).collect()
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct LRows {
    pub kind: Kind,
    pub version: u8,
    pub table_id: u64,
    pub flags: u16,
    pub extra: Vec<u8>,
    pub before: Vec<bool>,
    pub after: Vec<bool>,
    pub rows: Vec<(Vec<LCell>, Vec<LCell>)>,
}
impl LRows {
    pub fn new(kind: Kind, version: u8, table_id: u64, ncols: usize) -> LRows {
        LRows { kind, version, table_id, flags: 1, extra: vec![], before: vec![true; ncols], after: vec![true; ncols], rows: vec![] }
    }
    pub fn row(mut self, cells: Vec<LCell>) -> LRows {
        self.rows.push((cells, vec![]));
        self
    }
    pub fn upd(mut self, before: Vec<LCell>, after: Vec<LCell>) -> LRows {
        self.rows.push((before, after));
        self
    }
    pub fn typ(&self) -> u8 {
        rows_type(self.kind, self.version)
    }
    pub fn body(&self) -> Vec<u8> {
        let mut b = B::new().u48(self.table_id).u16(self.flags);
        if self.version == 2 {
            b = b.u16(self.extra.len() as u16 + 2).bytes(&self.extra);
        }
        b = b.lenenc(self.before.len() as u64).bits_le(&self.before);
        if self.kind == Kind::Update {
            b = b.bits_le(&self.after)
        }
        for (x, y) in &self.rows {
            b = image(b, &self.before, x);
            if self.kind == Kind::Update {
                b = image(b, &self.after, y)
            }
        }
        b.0
    }
    pub fn ev(&self) -> Ev {
        let upd = self.kind == Kind::Update;
        Ev::Rows(RowsEv {
            kind: self.kind,
            table_id: self.table_id,
            flags: self.flags,
            ncols: self.before.len(),
            before: self.before.clone(),
            after: if upd { Some(self.after.clone()) } else { None },
            rows: self.rows.iter().map(|(x, y)| (image_row(&self.before, x), if upd { Some(image_row(&self.after, y)) } else { None })).collect(),
        })
    }
}

/// An event still without its place in a file or stream: type, body, meaning.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Proto {
    pub typ: u8,
    pub body: Vec<u8>,
    /// `None`: the body cannot be decoded.
    pub ev: Option<Ev>,
    pub flags: u16,
    pub server_id: u32,
}
pub fn proto(typ: u8, body: Vec<u8>, ev: Ev) -> Proto {
    Proto { typ, body, ev: Some(ev), flags: 0, server_id: 1 }
}
pub fn bad(typ: u8, body: Vec<u8>) -> Proto {
    Proto { typ, body, ev: None, flags: 0, server_id: 1 }
}
pub fn p_fde(server: &str, types: usize, alg: Option<u8>) -> Proto {
    proto(FDE, fde_body(4, server, types, alg), Ev::Fde { version: 4, server: server.into(), alg: alg.unwrap_or(0) })
}
pub fn p_query(db: &str, sql: &str) -> Proto {
    let status = [0u8, 0, 0, 0, 0, 1, 0, 0, 0, 0x20, 0, 0, 0, 0];
    proto(QUERY, query_body(7, 0, 0, &status, db, sql), Ev::Query { thread: 7, duration: 0, error: 0, status: status.to_vec(), db: db.into(), sql: sql.into() })
}
pub fn p_xid(x: u64) -> Proto {
    proto(XID, x.to_le_bytes().to_vec(), Ev::Xid(x))
}
pub fn p_rotate(pos: u64, file: &str) -> Proto {
    proto(ROTATE, B::new().u64(pos).str(file).0, Ev::Rotate(pos, file.into()))
}
pub fn p_table(t: &Table) -> Proto {
    proto(TABLE_MAP, t.body(&[]), t.ev())
}
pub fn p_rows(r: &LRows) -> Proto {
    proto(r.typ(), r.body(), r.ev())
}
pub fn p_mygtid(flags: u8, sid: [u8; 16], id: u64) -> Proto {
    let b = B::new().u8(flags).bytes(&sid).u64(id).u8(2).u64(0).u64(1);
    proto(MY_GTID, b.0, Ev::MyGtid { flags, sid, sid_text: uuid_text(&sid), id })
}
pub fn p_magtid(domain: u32, server: u32, seq: u64, flags: u8) -> Proto {
    let b = B::new().u64(seq).u32(domain).u8(flags);
    // Group commit id, or padding to the fixed post-header size.
    let b = if flags & 2 != 0 { b.u64(9) } else { b.bytes(&[0; 6]) };
    let mut p = proto(MA_GTID, b.0, Ev::MaGtid { domain, server, seq, flags });
    p.server_id = server;
    p
}
pub fn p_myprev(s: &Sets) -> Proto {
    proto(MY_PREV, sets_body(s), Ev::MyPrev(s.clone(), sets_text(s)))
}
pub fn p_malist(l: &[(u32, u32, u64)]) -> Proto {
    let mut b = B::new().u32(l.len() as u32);
    for (d, s, q) in l {
        b = b.u32(*d).u32(*s).u64(*q)
    }
    proto(MA_LIST, b.0, Ev::MaList(l.to_vec(), list_text(l)))
}
pub fn p_rowsquery(sql: &str) -> Proto {
    let l = sql.len().min(255) as u8;
    proto(ROWS_QUERY, B::new().u8(l).str(sql).0, Ev::RowsQuery(sql.into()))
}
pub fn p_annotate(sql: &str) -> Proto {
    proto(MA_ANNOTATE, sql.as_bytes().to_vec(), Ev::RowsQuery(sql.into()))
}
pub fn p_heartbeat(file: &str) -> Proto {
    proto(HEARTBEAT, file.as_bytes().to_vec(), Ev::Heartbeat(file.into()))
}
pub fn p_intvar(t: u8, v: u64) -> Proto {
    proto(INTVAR, B::new().u8(t).u64(v).0, Ev::IntVar(t, v))
}
pub fn p_uservar(name: &str, v: Option<UVar>) -> Proto {
    proto(USER_VAR, user_var_body(name, v.as_ref().map(|v| (v, v.flags != 0))), Ev::UserVar(name.into(), v))
}
pub fn p_unknown(typ: u8, body: &[u8]) -> Proto {
    proto(typ, body.to_vec(), Ev::Unknown)
}

/// A binlog file under construction, with what reading it must deliver.
#[derive(Clone, Default)]
pub struct FileB {
    pub bytes: Vec<u8>,
    pub want: Vec<Item>,
    /// End offset of every event.
    pub ends: Vec<usize>,
    /// Whether the current algorithm appends checksums.
    pub crc: bool,
}
impl FileB {
    pub fn new() -> FileB {
        FileB { bytes: MAGIC.to_vec(), want: vec![], ends: vec![], crc: false }
    }
    /// Starts with a current server's format description event.
    pub fn start(crc: bool) -> FileB {
        let mut f = FileB::new();
        f.fde("8.0.32", 41, Some(crc as u8));
        f
    }
    pub fn fde(&mut self, server: &str, types: usize, alg: Option<u8>) {
        let p = p_fde(server, types, alg);
        // Whoever declares an algorithm appends a checksum to this very event.
        self.put(&p, alg.is_some());
        self.crc = alg == Some(1);
    }
    pub fn put(&mut self, p: &Proto, crc: bool) {
        let len = 19 + p.body.len() + if crc { 4 } else { 0 };
        let n = self.ends.len() as u32;
        let h = Hdr {
            ts: 1_600_000_000 + n,
            typ: p.typ,
            server_id: p.server_id,
            len: len as u32,
            next: (self.bytes.len() + len) as u32,
            flags: p.flags,
        };
        self.bytes.extend(event(&h, &p.body, crc));
        self.ends.push(self.bytes.len());
        self.want.push(match &p.ev {
            Some(e) => Ok((h, e.clone())),
            None => Err("cannot be decoded".into()),
        });
    }
    pub fn ev(&mut self, p: &Proto) {
        let crc = self.crc;
        self.put(p, crc)
    }
}
