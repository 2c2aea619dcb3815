//! A model of a MySQL or MariaDB server: connection phase, the SQL a replica uses, binlog dump requests and the
//! binlog itself, after the servers' documentation and sources. It judges what the client sends (`complaints`)
//! and records it.
use crate::env::{Out, Peer};
use crate::obs::*;
use crate::wire::*;
use openssl::pkey::Private;
use openssl::rsa::{Padding, Rsa};
use openssl::sha::{sha1, sha256};
use std::collections::{BTreeMap, VecDeque};
use std::sync::OnceLock;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Flavor {
    MySql,
    Maria,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Plugin {
    Native,
    Sha2,
}
impl Plugin {
    pub fn name(self) -> &'static str {
        match self {
            Plugin::Native => "mysql_native_password",
            Plugin::Sha2 => "caching_sha2_password",
        }
    }
}

// ---------------------------------------------------------------- binlog

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum TxId {
    My([u8; 16], u64),
    Maria(u32, u32, u64),
}
#[derive(Clone, Debug, Hash)]
pub struct Rec {
    pub p: Proto,
    pub ts: u32,
    pub pos: u32,
    pub end: u32,
    /// Bytes between this event and the next one that no client gets to see.
    pub gap: u32,
    /// Index of the transaction it belongs to.
    pub tx: Option<usize>,
}
#[derive(Clone, Debug, Hash)]
pub struct BFile {
    pub name: String,
    pub alg: Option<u8>,
    pub recs: Vec<Rec>,
    pub end: u32,
}
#[derive(Clone, Debug, Hash)]
pub struct Tx {
    pub id: Option<TxId>,
    pub file: usize,
    pub first: usize,
    pub last: usize,
}
#[derive(Clone, Debug, Hash)]
pub struct Binlog {
    pub flavor: Flavor,
    pub files: Vec<BFile>,
    pub txs: Vec<Tx>,
    pub executed: Sets,
    pub list: Vec<(u32, u32, u64)>,
}
pub fn crc_len(alg: Option<u8>) -> u32 {
    if alg == Some(1) {
        4
    } else {
        0
    }
}
impl Binlog {
    pub fn new(flavor: Flavor) -> Binlog {
        Binlog { flavor, files: vec![], txs: vec![], executed: Sets::new(), list: vec![] }
    }
    fn push(&mut self, p: Proto, tx: Option<usize>, crc: u32) {
        let f = self.files.last_mut().expect("a file");
        let pos = f.end;
        let end = pos + 19 + p.body.len() as u32 + crc;
        let ts = 1_600_000_000u32.wrapping_add(pos);
        f.recs.push(Rec { p, ts, pos, end, gap: 0, tx });
        f.end = end;
    }
    /// Begins the first or the next file. `sv`: server version, number of event types, algorithm.
    pub fn file(&mut self, name: &str, sv: (&str, usize, Option<u8>)) {
        self.file_after(name, sv, Some(p_rotate(4, name)))
    }
    /// Begins a file behind one that ends with `last`: nothing if the server crashed, a stop event if it was shut down.
    pub fn file_after(&mut self, name: &str, sv: (&str, usize, Option<u8>), last: Option<Proto>) {
        if let (Some(f), Some(last)) = (self.files.last(), last) {
            let crc = crc_len(f.alg);
            self.push(last, None, crc);
        }
        self.files.push(BFile { name: name.into(), alg: sv.2, recs: vec![], end: 4 });
        // A server that declares an algorithm gives this event a checksum field whatever the algorithm.
        self.push(p_fde(sv.0, sv.1, sv.2), None, if sv.2.is_some() { 4 } else { 0 });
        match self.flavor {
            Flavor::MySql if sv.1 >= 36 => {
                let p = p_myprev(&self.executed);
                self.event(p)
            }
            Flavor::Maria => {
                let p = p_malist(&self.list);
                self.event(p)
            }
            _ => {}
        }
    }
    /// Moves what follows further back in the file: the events before were that much longer.
    pub fn gap(&mut self, n: u32) {
        let f = self.files.last_mut().expect("a file");
        let r = f.recs.last_mut().expect("an event");
        r.gap += n;
        r.end += n;
        f.end += n
    }
    /// An event outside any transaction.
    pub fn event(&mut self, p: Proto) {
        let crc = crc_len(self.files.last().unwrap().alg);
        self.push(p, None, crc)
    }
    /// A transaction: all its events, its GTID event first if it has one.
    pub fn tx(&mut self, id: Option<TxId>, events: &[Proto]) {
        let t = self.txs.len();
        let file = self.files.len() - 1;
        let first = self.files[file].recs.len();
        let crc = crc_len(self.files[file].alg);
        for p in events {
            self.push(p.clone(), Some(t), crc)
        }
        self.txs.push(Tx { id, file, first, last: first + events.len() - 1 });
        match id {
            Some(TxId::My(sid, n)) => add_gtid(&mut self.executed, sid, n),
            Some(TxId::Maria(d, s, q)) => set_domain(&mut self.list, d, s, q),
            None => {}
        }
    }
}
pub fn add_gtid(s: &mut Sets, sid: [u8; 16], n: u64) {
    let v = s.entry(sid).or_default();
    v.push((n, n));
    v.sort();
    let mut out: Vec<(u64, u64)> = vec![];
    for (a, b) in v.drain(..) {
        match out.last_mut() {
            Some(l) if a <= l.1.saturating_add(1) => l.1 = l.1.max(b),
            _ => out.push((a, b)),
        }
    }
    *v = out;
}
pub fn has_gtid(s: &Sets, sid: &[u8; 16], n: u64) -> bool {
    s.get(sid).map_or(false, |v| v.iter().any(|(a, b)| *a <= n && n <= *b))
}
pub fn set_domain(l: &mut Vec<(u32, u32, u64)>, d: u32, s: u32, q: u64) {
    match l.iter_mut().find(|x| x.0 == d) {
        Some(x) => *x = (d, s, q),
        None => l.push((d, s, q)),
    }
}

// ---------------------------------------------------------------- server

#[derive(Clone, Debug)]
pub struct Cfg {
    pub flavor: Flavor,
    pub version: String,
    /// The plugin named in the greeting.
    pub greet: Plugin,
    /// The plugin of the account; the server asks to switch if the client used another one.
    pub account: Plugin,
    /// Asks to switch even if the client used the plugin of the account.
    pub force_switch: bool,
    /// The account's hash is not in the server's cache.
    pub full: bool,
    pub host: String,
    pub port: u16,
    pub user: String,
    pub password: String,
    pub nonce: [u8; 20],
    pub nonce2: [u8; 20],
    pub offers_ssl: bool,
    /// @@global.binlog_checksum
    pub crc: bool,
    pub status: Status,
}
/// What SHOW MASTER STATUS answers.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Status {
    Current,
    Rows(Vec<Vec<Option<String>>>),
}
pub const NONCE: [u8; 20] = *b"\x01abcdefg\x7f\x02hijklmnop{";
pub const NONCE2: [u8; 20] = *b"Zq9!~\x03\x7fKd0[,.-_=+/?\x10";
impl Cfg {
    pub fn new(flavor: Flavor) -> Cfg {
        Cfg {
            flavor,
            version: match flavor {
                Flavor::MySql => "8.0.32".into(),
                Flavor::Maria => "5.5.5-10.6.12-MariaDB-1:10.6.12+maria~ubu2004-log".into(),
            },
            greet: Plugin::Native,
            account: Plugin::Native,
            force_switch: false,
            full: false,
            host: "127.0.0.1".into(),
            port: 3306,
            user: "repl".into(),
            password: "S3cret!".into(),
            nonce: NONCE,
            nonce2: NONCE2,
            offers_ssl: false,
            crc: true,
            status: Status::Current,
        }
    }
    pub fn sv(&self) -> (&'static str, usize, Option<u8>) {
        match self.flavor {
            Flavor::MySql => ("8.0.32", 41, Some(self.crc as u8)),
            Flavor::Maria => ("10.6.12-MariaDB-log", 171, Some(self.crc as u8)),
        }
    }
}

pub fn key() -> &'static (Rsa<Private>, Vec<u8>) {
    static K: OnceLock<(Rsa<Private>, Vec<u8>)> = OnceLock::new();
    K.get_or_init(|| {
        let k = Rsa::private_key_from_pem(include_bytes!("test_rsa.pem")).expect("test key");
        let p = k.public_key_to_pem().expect("public key");
        (k, p)
    })
}
fn xor20(a: [u8; 20], b: [u8; 20]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}
pub fn native_response(password: &str, nonce: &[u8; 20]) -> Vec<u8> {
    if password.is_empty() {
        return vec![];
    }
    let h = sha1(password.as_bytes());
    let mut m = nonce.to_vec();
    m.extend_from_slice(&sha1(&h));
    xor20(h, sha1(&m))
}
pub fn sha2_response(password: &str, nonce: &[u8; 20]) -> Vec<u8> {
    if password.is_empty() {
        return vec![];
    }
    let h = sha256(password.as_bytes());
    let mut m = sha256(&h).to_vec();
    m.extend_from_slice(nonce);
    h.iter().zip(sha256(&m)).map(|(x, y)| x ^ y).collect()
}

/// What the server is about to send.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Step {
    Greeting,
    Switch,
    FastOk,
    FullRequest,
    PublicKey,
    LoginOk,
    LoginErr,
    Ok,
    Err,
    ColCount,
    ColDef,
    ColEof,
    Row,
    RowEof,
    Event(usize),
    StreamEof,
}
impl Step {
    /// Whether the protocol allows an error packet in its place.
    pub fn login(self) -> bool {
        matches!(self, Step::Greeting | Step::Switch | Step::FastOk | Step::FullRequest | Step::PublicKey | Step::LoginOk | Step::LoginErr)
    }
}
pub enum Act {
    Pass,
    /// Another payload with the right packet header.
    Send(Vec<u8>),
    /// Something else on the wire; the server goes on as if nothing had happened.
    Raw(Vec<Out>),
    /// The payload if any, then the server falls silent: what the client still sends is recorded.
    Halt(Option<Vec<u8>>),
    /// As `Halt`, then the server closes the connection.
    HaltClose(Option<Vec<u8>>),
    /// Something else on the wire, then nothing more.
    HaltRaw(Vec<Out>),
    /// Lets time pass first.
    Delay(Duration),
}
pub type Tamper = Box<dyn FnMut(usize, usize, Step, u8, &[u8]) -> Act>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum From {
    Position(String, u32),
    MySqlGtid { set: Sets, name: String, pos: u64 },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Dump {
    pub conn: usize,
    pub server_id: u32,
    pub flags: u16,
    pub from: From,
    /// The set as sent, for judging its form.
    pub raw: Vec<u8>,
    pub vars: BTreeMap<String, Option<String>>,
    pub registered: Option<u32>,
}
/// An event as sent in a stream.
#[derive(Clone, Debug)]
pub struct Sent {
    pub item: Item,
    /// File and index of the record, unless made up for the stream.
    pub rec: Option<(usize, usize)>,
    pub tx: Option<usize>,
    /// The file being streamed.
    pub file: usize,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Phase {
    HandshakeResponse,
    SwitchResponse,
    Sha2Reply,
    Sha2Encrypted,
    Command,
    Streaming,
    Over,
}
#[derive(Clone, Debug, Default)]
pub struct Login {
    pub caps: u32,
    pub collation: u8,
    pub user: String,
    pub db: Option<String>,
    pub plugin: String,
    pub responses: Vec<Vec<u8>>,
    pub done: bool,
    /// A caching_sha2_password response to the challenge was not the one of the account's password.
    pub wrong_hash: bool,
}
pub struct Session {
    phase: Phase,
    inbuf: Vec<u8>,
    /// Expected sequence number of the client's next packet, unless it starts a command.
    next_in: u8,
    next_out: u8,
    pub log: Vec<(u8, Vec<u8>)>,
    pub complaints: Vec<String>,
    pub login: Login,
    pub vars: BTreeMap<String, Option<String>>,
    pub registered: Option<u32>,
    pub emitted: Vec<Step>,
    pub halted: bool,
    pub packets_after_halt: usize,
    /// What is streamed on this connection.
    pub stream: Vec<Sent>,
    /// A dump request has been answered with a stream.
    pub streaming: bool,
    blocking: bool,
    plugin: Plugin,
    nonce: [u8; 20],
    beat: Option<Duration>,
    cur_file: usize,
    crc_now: bool,
    pub queries: Vec<String>,
    pub ssl_requests: usize,
}
pub struct Server {
    pub cfg: Cfg,
    pub log: Binlog,
    pub sess: Vec<Session>,
    pub dumps: Vec<Dump>,
    pub tamper: Option<Tamper>,
    /// No heartbeats, even if asked for.
    pub mute: bool,
}

pub fn packet(seq: u8, payload: &[u8]) -> Vec<u8> {
    // Longer payloads are split; the last part is shorter than the limit, and may be empty.
    let mut v = vec![];
    let mut n = seq;
    let mut rest = payload;
    loop {
        let k = rest.len().min(0xff_ffff);
        v.extend(B::new().u24(k as u32).u8(n).0);
        v.extend_from_slice(&rest[..k]);
        rest = &rest[k..];
        n = n.wrapping_add(1);
        if k < 0xff_ffff {
            return v;
        }
    }
}
pub fn ok_packet() -> Vec<u8> {
    vec![0, 0, 0, 2, 0, 0, 0]
}
pub fn eof_packet() -> Vec<u8> {
    vec![0xfe, 0, 0, 2, 0]
}
pub fn err_packet(code: u16, state: Option<&str>, msg: &str) -> Vec<u8> {
    let b = B::new().u8(0xff).u16(code);
    match state {
        Some(s) => b.u8(b'#').str(s).str(msg).0,
        None => b.str(msg).0,
    }
}
const CLIENT_CONNECT_WITH_DB: u32 = 8;
const CLIENT_SSL: u32 = 1 << 11;
const CLIENT_PROTOCOL_41: u32 = 1 << 9;
const CLIENT_SECURE_CONNECTION: u32 = 1 << 15;
const CLIENT_PLUGIN_AUTH: u32 = 1 << 19;
const CLIENT_LENENC_AUTH: u32 = 1 << 21;
const CLIENT_CONNECT_ATTRS: u32 = 1 << 20;
const CLIENT_DEPRECATE_EOF: u32 = 1 << 24;
const CLIENT_COMPRESS: u32 = 1 << 5;

pub fn greeting_for(version: &str, maria: bool, nonce: &[u8; 20], plugin: &str, ssl: bool) -> Vec<u8> {
    let mut caps: u32 = 0xdfff_ffff & !CLIENT_SSL;
    if maria {
        caps &= !1;
        caps &= 0x81ff_ffff;
    }
    if ssl {
        caps |= CLIENT_SSL
    }
    let b = B::new().u8(10).strz(version).u32(77).bytes(&nonce[..8]).u8(0).u16(caps as u16).u8(if maria { 8 } else { 255 }).u16(2).u16((caps >> 16) as u16).u8(21);
    let b = if maria { b.bytes(&[0; 6]).u32(0x1d) } else { b.bytes(&[0; 10]) };
    b.bytes(&nonce[8..]).u8(0).strz(plugin).0
}

impl Server {
    pub fn new(cfg: Cfg, log: Binlog) -> Server {
        Server { cfg, log, sess: vec![], dumps: vec![], tamper: None, mute: false }
    }
    pub fn complaints(&self) -> Vec<String> {
        self.sess.iter().flat_map(|s| s.complaints.iter().cloned()).collect()
    }
    fn emit(&mut self, c: usize, out: &mut VecDeque<Out>, step: Step, payload: Vec<u8>) {
        let s = &mut self.sess[c];
        if s.halted {
            return;
        }
        let seq = s.next_out;
        s.next_out = seq.wrapping_add(1 + (payload.len() / 0xff_ffff) as u8);
        s.next_in = s.next_out;
        let n = s.emitted.len();
        s.emitted.push(step);
        let act = match &mut self.tamper {
            Some(t) => t(c, n, step, seq, &payload),
            None => Act::Pass,
        };
        let s = &mut self.sess[c];
        match act {
            Act::Pass => out.push_back(Out::Data(packet(seq, &payload))),
            Act::Delay(d) => {
                out.push_back(Out::Wait(d));
                out.push_back(Out::Data(packet(seq, &payload)))
            }
            Act::Send(p) => out.push_back(Out::Data(packet(seq, &p))),
            Act::Raw(v) => out.extend(v),
            Act::Halt(p) => {
                out.extend(p.map(|p| Out::Data(packet(seq, &p))));
                s.halted = true
            }
            Act::HaltClose(p) => {
                out.extend(p.map(|p| Out::Data(packet(seq, &p))));
                out.push_back(Out::Close);
                s.halted = true
            }
            Act::HaltRaw(v) => {
                out.extend(v);
                s.halted = true
            }
        }
    }
    fn complain(&mut self, c: usize, s: String) {
        self.sess[c].complaints.push(s)
    }
    fn err(&mut self, c: usize, out: &mut VecDeque<Out>, code: u16, state: &str, msg: &str) {
        self.emit(c, out, Step::Err, err_packet(code, Some(state), msg))
    }
    fn denied(&mut self, c: usize, out: &mut VecDeque<Out>) {
        self.emit(c, out, Step::LoginErr, err_packet(1045, Some("28000"), "Access denied for user"));
        out.push_back(Out::Close);
        self.sess[c].phase = Phase::Over;
    }
    fn accept(&mut self, c: usize, out: &mut VecDeque<Out>) {
        self.emit(c, out, Step::LoginOk, ok_packet());
        self.sess[c].phase = Phase::Command;
        self.sess[c].login.done = true;
    }
    fn packet_in(&mut self, c: usize, seq: u8, parts: u8, p: Vec<u8>, out: &mut VecDeque<Out>) {
        self.sess[c].log.push((seq, p.clone()));
        if self.sess[c].halted {
            self.sess[c].packets_after_halt += 1;
            return;
        }
        let phase = self.sess[c].phase;
        let want = if phase == Phase::Command { 0 } else { self.sess[c].next_in }.wrapping_add(parts);
        if phase != Phase::Over && seq != want {
            self.complain(c, format!("packet number {} where {} is due ({:?})", seq, want, phase));
        }
        self.sess[c].next_out = seq.wrapping_add(1);
        match phase {
            Phase::HandshakeResponse => self.handshake(c, &p, out),
            Phase::SwitchResponse => {
                self.sess[c].login.responses.push(p.clone());
                self.verify(c, &p, out)
            }
            Phase::Sha2Reply => {
                if p == [2] {
                    let mut m = vec![1];
                    m.extend_from_slice(&key().1);
                    self.emit(c, out, Step::PublicKey, m);
                    self.sess[c].phase = Phase::Sha2Encrypted;
                } else {
                    self.complain(c, format!("{} bytes instead of a request for the public key", p.len()));
                    self.denied(c, out)
                }
            }
            Phase::Sha2Encrypted => {
                let k = &key().0;
                let mut plain = vec![0; k.size() as usize];
                let nonce = self.sess[c].nonce;
                let mut pw = None;
                if p.len() == k.size() as usize {
                    if let Ok(n) = k.private_decrypt(&p, &mut plain, Padding::PKCS1_OAEP) {
                        plain.truncate(n);
                        for (i, b) in plain.iter_mut().enumerate() {
                            *b ^= nonce[i % 20]
                        }
                        pw = Some(plain);
                    }
                }
                let mut want = self.cfg.password.as_bytes().to_vec();
                want.push(0);
                match pw {
                    Some(x) if x == want && self.sess[c].login.user == self.cfg.user => self.accept(c, out),
                    Some(_) => self.denied(c, out),
                    None => {
                        self.complain(c, "the password is not encrypted with the server's key".into());
                        self.denied(c, out)
                    }
                }
            }
            Phase::Command => self.command(c, &p, out),
            Phase::Streaming => self.complain(c, "a packet while streaming".into()),
            Phase::Over => {}
        }
    }
    fn handshake(&mut self, c: usize, p: &[u8], out: &mut VecDeque<Out>) {
        match parse_handshake(p) {
            Err(e) => {
                if p.len() == 32 && p[1] & 8 != 0 {
                    self.sess[c].ssl_requests += 1;
                }
                self.complain(c, format!("handshake response: {}", e));
                self.emit(c, out, Step::LoginErr, err_packet(1043, Some("08S01"), "Bad handshake"));
                out.push_back(Out::Close);
                self.sess[c].phase = Phase::Over;
            }
            Ok((l, resp)) => {
                self.sess[c].login = l;
                self.sess[c].login.responses.push(resp.clone());
                let used = self.sess[c].login.plugin.clone();
                if used != self.cfg.account.name() || self.cfg.force_switch {
                    let m = B::new().u8(0xfe).strz(self.cfg.account.name()).bytes(&self.cfg.nonce2).u8(0).0;
                    self.sess[c].plugin = self.cfg.account;
                    self.sess[c].nonce = self.cfg.nonce2;
                    self.emit(c, out, Step::Switch, m);
                    self.sess[c].phase = Phase::SwitchResponse;
                } else {
                    self.sess[c].plugin = self.cfg.account;
                    self.verify(c, &resp, out)
                }
            }
        }
    }
    fn verify(&mut self, c: usize, resp: &[u8], out: &mut VecDeque<Out>) {
        let nonce = self.sess[c].nonce;
        let known = self.sess[c].login.user == self.cfg.user;
        let empty = self.cfg.password.is_empty();
        match self.sess[c].plugin {
            Plugin::Native => {
                if known && resp == native_response(&self.cfg.password, &nonce) {
                    self.accept(c, out)
                } else {
                    if !resp.is_empty() && resp.len() != 20 {
                        self.complain(c, format!("a native password response of {} bytes", resp.len()));
                    }
                    self.denied(c, out)
                }
            }
            Plugin::Sha2 => {
                if resp.is_empty() || resp == [0] {
                    if known && empty {
                        self.accept(c, out)
                    } else {
                        self.denied(c, out)
                    }
                    return;
                }
                if resp.len() != 32 {
                    self.complain(c, format!("a sha2 response of {} bytes", resp.len()));
                    return self.denied(c, out);
                }
                if empty {
                    return self.denied(c, out);
                }
                let right = known && resp == sha2_response(&self.cfg.password, &nonce);
                self.sess[c].login.wrong_hash |= !right;
                if right && !self.cfg.full {
                    self.emit(c, out, Step::FastOk, vec![1, 3]);
                    self.accept(c, out)
                } else {
                    self.emit(c, out, Step::FullRequest, vec![1, 4]);
                    self.sess[c].phase = Phase::Sha2Reply;
                }
            }
        }
    }
    fn command(&mut self, c: usize, p: &[u8], out: &mut VecDeque<Out>) {
        match p.first() {
            Some(3) => match std::str::from_utf8(&p[1..]) {
                Ok(q) => {
                    let q = q.to_string();
                    self.sess[c].queries.push(q.clone());
                    self.query(c, &q, out)
                }
                Err(_) => {
                    self.complain(c, "a query that is not UTF-8".into());
                    self.err(c, out, 1064, "42000", "You have an error in your SQL syntax")
                }
            },
            Some(0x0e) => self.emit(c, out, Step::Ok, ok_packet()),
            Some(0x01) => {
                out.push_back(Out::Close);
                self.sess[c].phase = Phase::Over;
            }
            Some(0x15) => match parse_register(&p[1..]) {
                Some(id) => {
                    self.sess[c].registered = Some(id);
                    self.emit(c, out, Step::Ok, ok_packet())
                }
                None => {
                    self.complain(c, "a malformed COM_REGISTER_SLAVE".into());
                    self.err(c, out, 1105, "HY000", "Wrong parameters to function register_slave")
                }
            },
            Some(0x12) => {
                if p.len() < 11 {
                    self.complain(c, "a malformed COM_BINLOG_DUMP".into());
                    return self.err(c, out, 1835, "HY000", "Malformed communication packet.");
                }
                let pos = u32::from_le_bytes(p[1..5].try_into().unwrap());
                let flags = u16::from_le_bytes([p[5], p[6]]);
                let server_id = u32::from_le_bytes(p[7..11].try_into().unwrap());
                let name = String::from_utf8_lossy(&p[11..]).to_string();
                self.dump(c, server_id, flags, From::Position(name, pos), vec![], out)
            }
            Some(0x1e) => {
                if self.cfg.flavor == Flavor::Maria {
                    self.complain(c, "COM_BINLOG_DUMP_GTID sent to MariaDB".into());
                    return self.err(c, out, 1047, "08S01", "Unknown command");
                }
                match parse_dump_gtid(&p[1..]) {
                    Ok((flags, id, name, pos, set, raw)) => self.dump(c, id, flags, From::MySqlGtid { set, name, pos }, raw, out),
                    Err(e) => {
                        self.complain(c, format!("a malformed COM_BINLOG_DUMP_GTID: {}", e));
                        self.err(c, out, 1835, "HY000", "Malformed communication packet.")
                    }
                }
            }
            _ => {
                self.complain(c, format!("unknown command {:?}", p.first()));
                self.err(c, out, 1047, "08S01", "Unknown command")
            }
        }
    }
    fn sysvar(&self, name: &str) -> Option<String> {
        let n = name.strip_prefix("global.").or(name.strip_prefix("session.")).unwrap_or(name);
        Some(match n {
            "binlog_checksum" => (if self.cfg.crc { "CRC32" } else { "NONE" }).to_string(),
            "version" => self.cfg.version.clone(),
            "server_id" => "1".into(),
            _ => return None,
        })
    }
    fn eval(&self, c: usize, e: &str) -> Result<Option<String>, (u16, String)> {
        let e = e.trim();
        if let Some(n) = e.strip_prefix("@@") {
            let n = n.trim().to_lowercase();
            return self.sysvar(&n).map(Some).ok_or((1193, format!("Unknown system variable '{}'", n)));
        }
        if let Some(n) = e.strip_prefix('@') {
            return Ok(self.sess[c].vars.get(&n.to_lowercase()).cloned().flatten());
        }
        if e.len() >= 2 && (e.starts_with('\'') && e.ends_with('\'') || e.starts_with('"') && e.ends_with('"')) {
            let inner = &e[1..e.len() - 1];
            if inner.contains('\'') {
                return Err((1064, "You have an error in your SQL syntax".into()));
            }
            return Ok(Some(inner.to_string()));
        }
        if !e.is_empty() && e.chars().all(|x| x.is_ascii_digit()) {
            return Ok(Some(e.to_string()));
        }
        Err((1064, format!("You have an error in your SQL syntax near '{}'", e)))
    }
    fn query(&mut self, c: usize, q: &str, out: &mut VecDeque<Out>) {
        let q = q.trim().trim_end_matches(';').trim();
        let low = q.to_lowercase();
        let words: Vec<&str> = low.split_whitespace().collect();
        if words.first() == Some(&"set") {
            let body = q[3..].trim();
            if words.get(1) == Some(&"names") {
                return self.emit(c, out, Step::Ok, ok_packet());
            }
            for a in split_commas(body) {
                let r = match a.split_once('=') {
                    Some((n, v)) => self.eval(c, v).map(|v| (n.trim().trim_end_matches(':').trim().to_lowercase(), v)),
                    None => Err((1064, "You have an error in your SQL syntax".into())),
                };
                match r {
                    Ok((n, v)) => {
                        if let Some(u) = n.strip_prefix('@') {
                            if !u.starts_with('@') {
                                self.sess[c].vars.insert(u.to_string(), v);
                            }
                        }
                    }
                    Err((code, m)) => {
                        self.complain(c, format!("the query {:?} fails: {}", q, m));
                        return self.err(c, out, code, "42000", &m);
                    }
                }
            }
            return self.emit(c, out, Step::Ok, ok_packet());
        }
        if words.first() == Some(&"select") {
            let mut vals = vec![];
            let mut cols = vec![];
            for e in split_commas(q[6..].trim()) {
                match self.eval(c, &e) {
                    Ok(v) => {
                        cols.push(e.clone());
                        vals.push(v)
                    }
                    Err((code, m)) => {
                        self.complain(c, format!("the query {:?} fails: {}", q, m));
                        return self.err(c, out, code, "42000", &m);
                    }
                }
            }
            let cols: Vec<&str> = cols.iter().map(|s| s.as_str()).collect();
            return self.result(c, out, &cols, vec![vals]);
        }
        if words == ["show", "master", "status"] || words == ["show", "binary", "log", "status"] || words == ["show", "binlog", "status"] {
            let mut cols = vec!["File", "Position", "Binlog_Do_DB", "Binlog_Ignore_DB"];
            if self.cfg.flavor == Flavor::MySql {
                cols.push("Executed_Gtid_Set")
            }
            let rows = match &self.cfg.status {
                Status::Rows(r) => r.clone(),
                Status::Current => match self.log.files.last() {
                    None => vec![],
                    Some(f) => {
                        let mut r = vec![Some(f.name.clone()), Some(f.end.to_string()), Some(String::new()), Some(String::new())];
                        if self.cfg.flavor == Flavor::MySql {
                            r.push(Some(sets_text(&self.log.executed).replace(',', ",\n")))
                        }
                        vec![r]
                    }
                },
            };
            return self.result(c, out, &cols, rows);
        }
        if words.first() == Some(&"show") && words.contains(&"variables") && words.contains(&"like") {
            let name = words.last().unwrap().trim_matches(|x| x == '\'' || x == '"').to_string();
            let rows = self.sysvar(&name).map(|v| vec![vec![Some(name.clone()), Some(v)]]).unwrap_or_default();
            return self.result(c, out, &["Variable_name", "Value"], rows);
        }
        self.complain(c, format!("a query the model does not know: {:?}", q));
        self.err(c, out, 1064, "42000", "You have an error in your SQL syntax")
    }
    fn result(&mut self, c: usize, out: &mut VecDeque<Out>, cols: &[&str], rows: Vec<Vec<Option<String>>>) {
        self.emit(c, out, Step::ColCount, B::new().lenenc(cols.len() as u64).0);
        for n in cols {
            let d = B::new().lenstr("def").lenstr("").lenstr("").lenstr("").lenstr(n).lenstr(n).u8(12).u16(33).u32(765).u8(253).u16(0).u8(31).u16(0).0;
            self.emit(c, out, Step::ColDef, d)
        }
        self.emit(c, out, Step::ColEof, eof_packet());
        for r in rows {
            let mut b = B::new();
            for v in r {
                b = match v {
                    None => b.u8(0xfb),
                    Some(s) => b.lenstr(&s),
                }
            }
            self.emit(c, out, Step::Row, b.0)
        }
        self.emit(c, out, Step::RowEof, eof_packet());
    }

    // ------------------------------------------------------------ streaming

    fn fatal(&mut self, c: usize, out: &mut VecDeque<Out>, msg: &str) {
        self.emit(c, out, Step::Err, err_packet(1236, Some("HY000"), msg));
        self.sess[c].phase = Phase::Command;
    }
    fn dump(&mut self, c: usize, server_id: u32, flags: u16, from: From, raw: Vec<u8>, out: &mut VecDeque<Out>) {
        let vars = self.sess[c].vars.clone();
        let registered = self.sess[c].registered;
        self.dumps.push(Dump { conn: c, server_id, flags, from: from.clone(), raw, vars: vars.clone(), registered });
        self.sess[c].phase = Phase::Streaming;
        self.sess[c].streaming = true;
        self.sess[c].blocking = !(server_id == 0 || flags & 1 != 0);
        self.sess[c].beat = vars.get("master_heartbeat_period").cloned().flatten().and_then(|v| v.parse::<u64>().ok()).filter(|v| *v > 0).map(Duration::from_nanos);
        self.sess[c].crc_now = self.cfg.crc;
        let told = vars.get("master_binlog_checksum").cloned().flatten();
        if self.cfg.crc && told.is_none() {
            return self.fatal(c, out, "Slave can not handle replication events with the checksum that master is configured to log");
        }
        let maria_gtid = match (self.cfg.flavor, vars.get("slave_connect_state")) {
            (Flavor::Maria, Some(Some(s))) => match parse_list(s) {
                Some(l) => Some(l),
                None => {
                    self.complain(c, format!("@slave_connect_state is {:?}", s));
                    return self.fatal(c, out, "Failed to parse slave_connect_state");
                }
            },
            _ => None,
        };
        if self.cfg.flavor == Flavor::Maria && vars.get("mariadb_slave_capability").cloned().flatten() != Some("4".into()) {
            self.complain(c, "MariaDB was not told the capability it needs to send GTID events".into());
        }
        for (n, why) in [("slave_gtid_strict_mode", "refuse positions it has not logged itself"), ("slave_gtid_ignore_duplicates", "leave out what other connections got")] {
            if !matches!(vars.get(n).cloned().flatten().as_deref(), None | Some("0")) {
                self.complain(c, format!("@{} makes MariaDB {}", n, why));
            }
        }
        if self.log.files.is_empty() {
            return self.fatal(c, out, "Binary log is not open");
        }
        // Where to start, and which transactions to leave out.
        let (name, pos) = match (&from, &maria_gtid) {
            (_, Some(_)) => (String::new(), 4),
            (From::Position(n, p), None) => (n.clone(), *p),
            (From::MySqlGtid { name, pos, .. }, _) => (name.clone(), *pos as u32),
        };
        let mut start_file = 0;
        if !name.is_empty() {
            match self.log.files.iter().position(|f| f.name == name) {
                Some(i) => start_file = i,
                None => return self.fatal(c, out, "Could not find first log file name in binary log index file"),
            }
        } else if let From::MySqlGtid { set, .. } = &from {
            // The last file whose previous transactions are all known.
            for (i, f) in self.log.files.iter().enumerate() {
                let prev = f.recs.iter().find_map(|r| match &r.p.ev {
                    Some(Ev::MyPrev(s, _)) => Some(s.clone()),
                    _ => None,
                });
                if prev.map_or(false, |p| subset(&p, set)) {
                    start_file = i
                }
            }
        }
        if pos < 4 {
            return self.fatal(c, out, "Client requested master to start replication from position < 4");
        }
        if pos > self.log.files[start_file].end {
            return self.fatal(c, out, "Client requested master to start replication from position > file size");
        }
        // Inside an event a server reads rubbish.
        if pos != 4 && !self.log.files[start_file].recs.iter().any(|r| r.end == pos) {
            return self.fatal(c, out, "bogus data in log event");
        }
        let mut waiting: BTreeMap<u32, (u32, u64)> = maria_gtid.clone().unwrap_or_default().into_iter().map(|(d, s, q)| (d, (s, q))).collect();
        if let Some(l) = &maria_gtid {
            for (d, s, q) in l {
                if !self.log.txs.iter().any(|t| t.id == Some(TxId::Maria(*d, *s, *q))) {
                    return self.fatal(c, out, "Error: connecting slave requested to start from GTID, which is not in the master's binlog");
                }
            }
        }
        let files = self.log.files.clone();
        // MySQL tells how far it got before it goes on behind transactions it left out.
        let mut left_out = false;
        for fi in start_file..files.len() {
            let f = &files[fi];
            let at = if fi == start_file { pos } else { 4 };
            self.sess[c].cur_file = fi;
            // Every file is introduced by an artificial rotate event.
            let crc = self.sess[c].crc_now;
            self.artificial(c, out, fi, p_rotate(at as u64, &f.name), crc, 0);
            if fi == start_file && maria_gtid.is_some() {
                // Sent behind the format description; see below.
            }
            for (ri, r) in f.recs.iter().enumerate() {
                if ri == 0 {
                    let field = f.alg.is_some();
                    self.sess[c].crc_now = f.alg == Some(1);
                    let next = if at > 4 { 0 } else { r.end };
                    self.send_rec(c, out, fi, ri, r, field, Some(next));
                    if fi == start_file {
                        if let Some(l) = &maria_gtid {
                            let crc = self.sess[c].crc_now;
                            self.artificial(c, out, fi, p_malist(l), crc, 0)
                        }
                    }
                    continue;
                }
                if r.pos < at {
                    continue;
                }
                if let Some(t) = r.tx {
                    let skip = match (&from, self.log.txs[t].id) {
                        (From::MySqlGtid { set, .. }, Some(TxId::My(sid, n))) => has_gtid(set, &sid, n),
                        (_, Some(TxId::Maria(d, s, q))) if maria_gtid.is_some() => match waiting.get(&d) {
                            Some(w) => {
                                if *w == (s, q) && ri == self.log.txs[t].last {
                                    waiting.remove(&d);
                                }
                                true
                            }
                            None => false,
                        },
                        _ => false,
                    };
                    if skip {
                        left_out = maria_gtid.is_none();
                        continue;
                    }
                }
                let crc = self.sess[c].crc_now;
                if std::mem::take(&mut left_out) {
                    self.artificial(c, out, fi, p_heartbeat(&f.name), crc, r.pos)
                }
                self.send_rec(c, out, fi, ri, r, crc, None);
            }
        }
        if !self.sess[c].blocking {
            self.emit(c, out, Step::StreamEof, eof_packet());
            self.sess[c].phase = Phase::Command;
        }
    }
    fn send_item(&mut self, c: usize, out: &mut VecDeque<Out>, h: Hdr, p: &Proto, crc: bool, rec: Option<(usize, usize)>, tx: Option<usize>, file: usize) {
        let mut payload = vec![0u8];
        payload.extend(event(&h, &p.body, crc));
        let item = match &p.ev {
            Some(e) => Ok((h, e.clone())),
            None => Err("cannot be decoded".into()),
        };
        let n = self.sess[c].stream.len();
        self.sess[c].stream.push(Sent { item, rec, tx, file });
        self.emit(c, out, Step::Event(n), payload)
    }
    fn send_rec(&mut self, c: usize, out: &mut VecDeque<Out>, fi: usize, ri: usize, r: &Rec, crc: bool, next: Option<u32>) {
        let h = Hdr { ts: r.ts, typ: r.p.typ, server_id: r.p.server_id, len: r.end - r.pos - r.gap, next: next.unwrap_or(r.end), flags: r.p.flags };
        self.send_item(c, out, h, &r.p, crc, Some((fi, ri)), r.tx, fi)
    }
    fn artificial(&mut self, c: usize, out: &mut VecDeque<Out>, fi: usize, p: Proto, crc: bool, next: u32) {
        let len = 19 + p.body.len() as u32 + if crc { 4 } else { 0 };
        let h = Hdr { ts: 0, typ: p.typ, server_id: 1, len, next, flags: 0x20 };
        self.send_item(c, out, h, &p, crc, None, None, fi)
    }
}
fn subset(a: &Sets, b: &Sets) -> bool {
    a.iter().all(|(sid, v)| v.iter().all(|(x, y)| b.get(sid).map_or(false, |w| w.iter().any(|(p, q)| p <= x && y <= q))))
}
fn split_commas(s: &str) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut quote = None;
    for ch in s.chars() {
        match quote {
            Some(q) if ch == q => quote = None,
            None if ch == '\'' || ch == '"' => quote = Some(ch),
            None if ch == ',' => {
                v.push(String::new());
                continue;
            }
            _ => {}
        }
        v.last_mut().unwrap().push(ch)
    }
    v.iter().map(|s| s.trim().to_string()).collect()
}
pub fn parse_list(s: &str) -> Option<Vec<(u32, u32, u64)>> {
    if s.trim().is_empty() {
        return Some(vec![]);
    }
    s.split(',')
        .map(|g| {
            let p: Vec<&str> = g.trim().split('-').collect();
            if p.len() != 3 {
                return None;
            }
            Some((p[0].parse().ok()?, p[1].parse().ok()?, p[2].parse().ok()?))
        })
        .collect()
}
fn parse_register(p: &[u8]) -> Option<u32> {
    let id = u32::from_le_bytes(p.get(..4)?.try_into().ok()?);
    let mut i = 4;
    for _ in 0..3 {
        let n = *p.get(i)? as usize;
        i += 1 + n;
    }
    if p.len() != i + 2 + 4 + 4 {
        return None;
    }
    Some(id)
}
type GtidDump = (u16, u32, String, u64, Sets, Vec<u8>);
fn parse_dump_gtid(p: &[u8]) -> Result<GtidDump, String> {
    let mut at = 0;
    let mut take = |n: usize| -> Result<Vec<u8>, String> {
        let r = p.get(at..at + n).ok_or("too short")?.to_vec();
        at += n;
        Ok(r)
    };
    let le = |b: &[u8]| b.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64);
    let flags = le(&take(2)?) as u16;
    let id = le(&take(4)?) as u32;
    let nl = le(&take(4)?) as usize;
    if nl > 512 {
        return Err("file name too long".into());
    }
    let name = String::from_utf8(take(nl)?).map_err(|_| "file name")?;
    let pos = le(&take(8)?);
    let n = le(&take(4)?) as usize;
    let raw = take(n)?;
    if at != p.len() {
        return Err(format!("{} bytes too many", p.len() - at));
    }
    let set = parse_set_data(&raw)?;
    Ok((flags, id, name, pos, set, raw))
}
/// The binary form of a set as servers accept it: intervals ascending and disjoint, ends exclusive.
pub fn parse_set_data(b: &[u8]) -> Result<Sets, String> {
    let mut at = 0;
    let mut take = |n: usize| -> Result<&[u8], String> {
        let r = b.get(at..at + n).ok_or("set data too short")?;
        at += n;
        Ok(r)
    };
    let le = |b: &[u8]| b.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64);
    let n = le(take(8)?);
    let mut s = Sets::new();
    for _ in 0..n {
        let sid: [u8; 16] = take(16)?.try_into().unwrap();
        let k = le(take(8)?);
        let mut last = 0;
        for _ in 0..k {
            let (a, e) = (le(take(8)?), le(take(8)?));
            if a == 0 || a < last || e <= a {
                return Err(format!("interval {}..{} behind {}", a, e, last));
            }
            last = e;
            s.entry(sid).or_default().push((a, e - 1));
        }
    }
    if at != b.len() {
        return Err("set data too long".into());
    }
    // Normal form.
    for v in s.values_mut() {
        let mut out: Vec<(u64, u64)> = vec![];
        for (a, e) in v.drain(..) {
            match out.last_mut() {
                Some(l) if l.1 + 1 == a => l.1 = e,
                _ => out.push((a, e)),
            }
        }
        *v = out;
    }
    Ok(s)
}
fn parse_handshake(p: &[u8]) -> Result<(Login, Vec<u8>), String> {
    if p.len() < 33 {
        return Err(format!("{} bytes", p.len()));
    }
    let caps = u32::from_le_bytes(p[..4].try_into().unwrap());
    for (bit, n) in [(CLIENT_PROTOCOL_41, "PROTOCOL_41"), (CLIENT_SECURE_CONNECTION, "SECURE_CONNECTION"), (CLIENT_PLUGIN_AUTH, "PLUGIN_AUTH")] {
        if caps & bit == 0 {
            return Err(format!("capability {} missing", n));
        }
    }
    if caps & CLIENT_SSL != 0 {
        return Err("an SSL request".into());
    }
    for (bit, n) in [(CLIENT_COMPRESS, "COMPRESS"), (CLIENT_DEPRECATE_EOF, "DEPRECATE_EOF"), (CLIENT_CONNECT_ATTRS, "CONNECT_ATTRS")] {
        if caps & bit != 0 {
            return Err(format!("capability {} is not modelled", n));
        }
    }
    if p[9..32].iter().any(|b| *b != 0) {
        return Err("reserved bytes are not zero".into());
    }
    // The texts the client sends, all of them UTF-8; a server takes an unknown one for its own default.
    if !matches!(p[8], 33 | 45 | 46 | 76 | 83 | 192..=215 | 223 | 224..=247 | 255) {
        return Err(format!("collation {} does not belong to a UTF-8 character set", p[8]));
    }
    let mut at = 32;
    let mut strz = |at: &mut usize, what: &str| -> Result<String, String> {
        let n = p[*at..].iter().position(|b| *b == 0).ok_or(format!("{} not terminated", what))?;
        let s = String::from_utf8(p[*at..*at + n].to_vec()).map_err(|_| format!("{} not UTF-8", what))?;
        *at += n + 1;
        Ok(s)
    };
    let user = strz(&mut at, "user")?;
    let n = *p.get(at).ok_or("no auth response")? as usize;
    if caps & CLIENT_LENENC_AUTH != 0 && n > 250 {
        return Err("a long auth response is not modelled".into());
    }
    at += 1;
    let resp = p.get(at..at + n).ok_or("auth response cut short")?.to_vec();
    at += n;
    let db = if caps & CLIENT_CONNECT_WITH_DB != 0 { Some(strz(&mut at, "database")?) } else { None };
    let plugin = strz(&mut at, "plugin")?;
    if at != p.len() {
        return Err(format!("{} bytes behind the end", p.len() - at));
    }
    Ok((Login { caps, collation: p[8], user, db, plugin, responses: vec![], done: false, wrong_hash: false }, resp))
}

impl Peer for Server {
    fn open(&mut self, conn: usize, out: &mut VecDeque<Out>) {
        assert_eq!(conn, self.sess.len());
        self.sess.push(Session {
            phase: Phase::HandshakeResponse,
            inbuf: vec![],
            next_in: 1,
            next_out: 0,
            log: vec![],
            complaints: vec![],
            login: Login::default(),
            vars: BTreeMap::new(),
            registered: None,
            emitted: vec![],
            halted: false,
            packets_after_halt: 0,
            stream: vec![],
            streaming: false,
            blocking: false,
            plugin: self.cfg.greet,
            nonce: self.cfg.nonce,
            beat: None,
            cur_file: 0,
            crc_now: false,
            queries: vec![],
            ssl_requests: 0,
        });
        let g = greeting_for(&self.cfg.version, self.cfg.flavor == Flavor::Maria, &self.cfg.nonce, self.cfg.greet.name(), self.cfg.offers_ssl);
        self.emit(conn, out, Step::Greeting, g);
    }
    fn input(&mut self, c: usize, bytes: &[u8], out: &mut VecDeque<Out>) {
        self.sess[c].inbuf.extend_from_slice(bytes);
        loop {
            let b = &self.sess[c].inbuf;
            if b.len() < 4 {
                return;
            }
            let n = b[0] as usize | (b[1] as usize) << 8 | (b[2] as usize) << 16;
            if b.len() < 4 + n {
                return;
            }
            // A packet of the maximum size is continued in the next one.
            let mut seq = b[3];
            let mut p: Vec<u8> = b[4..4 + n].to_vec();
            let (mut at, mut more) = (4 + n, n == 0xff_ffff);
            let mut skipped = None;
            while more {
                if b.len() < at + 4 {
                    return;
                }
                let n = b[at] as usize | (b[at + 1] as usize) << 8 | (b[at + 2] as usize) << 16;
                if b.len() < at + 4 + n {
                    return;
                }
                if b[at + 3] != seq.wrapping_add(1) {
                    skipped = Some((seq, b[at + 3]))
                }
                seq = b[at + 3];
                p.extend_from_slice(&b[at + 4..at + 4 + n]);
                at += 4 + n;
                more = n == 0xff_ffff;
            }
            let parts = (p.len() / 0xff_ffff) as u8;
            self.sess[c].inbuf.drain(..at);
            if let Some((x, y)) = skipped {
                self.complain(c, format!("packet {} is continued in packet {}", x, y))
            }
            self.packet_in(c, seq, parts, p, out);
        }
    }
    fn idle(&mut self, c: usize, out: &mut VecDeque<Out>) {
        if self.mute || self.sess[c].halted || self.sess[c].phase != Phase::Streaming || !self.sess[c].blocking {
            return;
        }
        if let Some(b) = self.sess[c].beat {
            let fi = self.sess[c].cur_file;
            let (name, end) = (self.log.files[fi].name.clone(), self.log.files[fi].end);
            out.push_back(Out::Wait(b));
            let crc = self.sess[c].crc_now;
            self.artificial(c, out, fi, p_heartbeat(&name), crc, end);
        }
    }
    fn as_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}
impl Session {
    /// Bytes of an unfinished packet.
    pub fn partial(&self) -> usize {
        self.inbuf.len()
    }
}
