//! C05 and C22: servers that misbehave or want the password.
use super::net::*;
use super::proto::Dialogue;
use crate::env::{self, Cut, Net, NetPlan, Out, Peer};
use crate::explore::*;
use crate::server::*;
use crate::wire::*;
use crate::Check;
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::ssl_mode::SslMode;
use openssl::rsa::{Padding, Rsa};
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::rc::Rc;
use std::sync::{Arc, Mutex, OnceLock};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C05",
            level: "fault_enumeration",
            rule: "For every dialogue (flavours, login flows, strategies) and every packet of the server in it: every truncation, single-byte change, short packet, foreign packet, declared length, packet number and every byte at which the connection can fail. Each run of the real client must return within its read timeouts, and must not take a malformed greeting or a rejected login for a connection.",
            assumptions: &["connecting itself, which has no timeout of the library's, succeeds or is refused", "no encryption: the library documents it as unsupported"],
            groups: c05,
        },
        Check {
            id: "C22",
            level: "model_checking",
            rule: "States are (what the server sent so far, phase of the login); transitions are server packets. Every script of an adversarial server up to the depth bound, over all packets of the login protocol, is run against the real client; every packet the client sends must be one of the forms the protocol allows for a supported plugin.",
            assumptions: &["encrypted connections, which the library does not support, are not part of the model"],
            groups: c22,
        },
    ]
}

// ---------------------------------------------------------------- C05

type Steps = Arc<Vec<(Step, Vec<u8>)>>;
/// The packets of the undisturbed dialogue.
fn packets_of(d: &Dialogue) -> Result<Steps, Viol> {
    static MEMO: OnceLock<Mutex<HashMap<String, Steps>>> = OnceLock::new();
    let m = MEMO.get_or_init(Default::default);
    let k = format!("{:?}", d);
    if let Some(s) = m.lock().unwrap().get(&k) {
        return Ok(s.clone());
    }
    let rec: Rc<RefCell<Vec<(Step, Vec<u8>)>>> = Rc::default();
    let r2 = rec.clone();
    let mut s = d.server();
    s.tamper = Some(Box::new(move |_, _, st, _, p| {
        r2.borrow_mut().push((st, p.to_vec()));
        Act::Pass
    }));
    let (g, _) = with_server(s, NetPlan::default(), || run(&mut d.client(), 1000));
    if let Some(e) = g.open {
        return viol(format!("the undisturbed dialogue {:?} fails: {}", d, e));
    }
    let v = Arc::new(rec.borrow().clone());
    m.lock().unwrap().insert(k, v.clone());
    Ok(v)
}
/// Steps up to the dump request.
fn setup(v: &Steps) -> usize {
    v.iter().position(|s| matches!(s.0, Step::Event(_))).unwrap_or(v.len())
}
/// Runs a dialogue with one packet replaced; the common part of the verdict.
fn disturbed(ch: &mut Ch, d: &Dialogue, n: usize, step: Step, act: &dyn Fn(u8) -> Act, plan: NetPlan, what: &dyn Fn() -> String) -> Result<(Got, Box<Net>), Viol> {
    let mut s = d.server();
    let mut a = Some(act(seq_of(d, n)?));
    s.tamper = Some(Box::new(move |_, i, _, _, _| if i == n { a.take().unwrap_or(Act::Pass) } else { Act::Pass }));
    ch.sample(what);
    ch.step(n as u64 + 1);
    ch.state(&(d.cfg.flavor, d.start, d.cfg.greet, d.cfg.account, d.cfg.full, n, step));
    let (g, net) = with_server(s, plan, || run(&mut d.client(), 200));
    ch.outcome(&(g.open.is_some(), g.items.len(), g.ended));
    if let Some(v) = &net.verdict {
        return viol(format!("{}: {}", what(), v));
    }
    if let Some(c) = net.conns.iter().find(|c| c.max_timeout > HB + SLACK) {
        return viol(format!("{}: a read may wait {:?}", what(), c.max_timeout));
    }
    Ok((g, net))
}
/// The packet number of step `n`.
fn seq_of(d: &Dialogue, n: usize) -> Result<u8, Viol> {
    static MEMO: OnceLock<Mutex<HashMap<String, Arc<Vec<u8>>>>> = OnceLock::new();
    let m = MEMO.get_or_init(Default::default);
    let k = format!("{:?}", d);
    if let Some(s) = m.lock().unwrap().get(&k) {
        return Ok(s[n]);
    }
    let rec: Rc<RefCell<Vec<u8>>> = Rc::default();
    let r2 = rec.clone();
    let mut s = d.server();
    s.tamper = Some(Box::new(move |_, _, _, q, _| {
        r2.borrow_mut().push(q);
        Act::Pass
    }));
    let _ = with_server(s, NetPlan::default(), || run(&mut d.client(), 1000));
    let v = Arc::new(rec.borrow().clone());
    m.lock().unwrap().insert(k, v.clone());
    Ok(v[n])
}
fn judge(d: &Dialogue, step: Step, sent: &[u8], orig: &[u8], halted: bool, g: &Got, net: &mut Net, what: &dyn Fn() -> String) -> Res {
    let s = net.peer::<Server>();
    let went_on = g.open.is_none() || !s.sess[0].queries.is_empty();
    // Nothing but an OK packet ends a login: behind anything else, a server that says nothing more has not
    // accepted the client.
    if halted && step.login() && sent.first() != Some(&0) {
        ensure!(!went_on, "{}: the client goes on although the server has not accepted it", what());
    }
    if step == Step::Greeting && sent.len() + 2 <= orig.len() && orig.starts_with(sent) {
        ensure!(!went_on, "{}: a greeting that is cut short is accepted", what());
        ensure!(s.sess[0].log.is_empty(), "{}: the client answers a greeting that is cut short", what());
    }
    if step == Step::Greeting && sent.is_empty() {
        ensure!(g.open.is_some(), "{}: an empty greeting is accepted", what());
    }
    let _ = d;
    Ok(())
}
fn send_or_halt(halt: bool, p: Vec<u8>) -> Act {
    if halt {
        Act::Halt(Some(p))
    } else {
        Act::Send(p)
    }
}
fn hexs(p: &[u8]) -> String {
    let h: String = p.iter().take(40).map(|b| format!("{:02x}", b)).collect();
    format!("{}{} ({} bytes)", h, if p.len() > 40 { "..." } else { "" }, p.len())
}
/// One replaced packet.
fn replaced(ch: &mut Ch, d: &Dialogue, n: usize, v: &Steps, p: Vec<u8>, halt: bool, how: &str) -> Res {
    let (step, orig) = (v[n].0, v[n].1.clone());
    let what = || format!("{:?} {} ({:?}, then the server {}) in {:?}: {}", step, how, n, if halt { "falls silent" } else { "goes on" }, (d.cfg.flavor, d.cfg.greet, d.cfg.account, d.cfg.full, d.start), hexs(&p));
    ch.distinct(&(d.cfg.flavor, d.cfg.greet, d.cfg.account, d.cfg.force_switch, d.cfg.full, d.start, n, &p, halt));
    let (g, mut net) = disturbed(ch, d, n, step, &|_| send_or_halt(halt, p.clone()), NetPlan::default(), &what)?;
    judge(d, step, &p, &orig, halt, &g, &mut net, &what)
}
/// A representative set of dialogues: all login flows once, all strategies and flavours once.
fn dialogue(ch: &mut Ch) -> Dialogue {
    if thorough() {
        return Dialogue::draw(ch);
    }
    let f = super::proto::flows();
    let k = ch.choose(f.len() + 4);
    let mut d = Dialogue { cfg: Cfg::new(Flavor::MySql), start: 0, blocking: false };
    if k < f.len() {
        super::proto::with_flow(&mut d.cfg, f[k]);
    } else {
        d = Dialogue { cfg: Cfg::new(if (k - f.len()) % 2 == 0 { Flavor::Maria } else { Flavor::MySql }), start: 1 + (k - f.len()) / 2, blocking: false };
    }
    d
}
fn c05() -> Vec<Group> {
    vec![
        group("truncated", "every truncation of every packet up to the dump request", |ch| {
            let d = dialogue(ch);
            let v = packets_of(&d)?;
            let n = ch.choose(setup(&v));
            let k = ch.choose(v[n].1.len());
            let halt = ch.flag();
            replaced(ch, &d, n, &v, v[n].1[..k].to_vec(), halt, "cut short")
        }),
        group("changed", "every byte of every packet up to the dump request replaced by every interesting value", |ch| {
            let d = dialogue(ch);
            let v = packets_of(&d)?;
            let n = ch.choose(setup(&v));
            let orig = &v[n].1;
            let i = ch.choose(orig.len().min(by_tier(140, 2000)));
            let mut p = orig.clone();
            let vals: &[u8] = by_tier(&[0, 1, 0x7f, 0x80, 0xfb, 0xfc, 0xfe, 0xff][..], &[0, 1, 2, 3, 4, 8, 0x20, 0x30, 0x7f, 0x80, 0xc3, 0xfa, 0xfb, 0xfc, 0xfd, 0xfe, 0xff]);
            let c = ch.choose(vals.len() + 1);
            p[i] = if c < vals.len() { vals[c] } else { p[i] ^ 1 };
            if p == *orig {
                return Ok(());
            }
            let halt = i == 0 && ch.flag();
            replaced(ch, &d, n, &v, p, halt, "with a byte changed")
        }),
        group("two bytes changed", "the first bytes of every packet replaced in pairs", |ch| {
            let d = dialogue(ch);
            let v = packets_of(&d)?;
            let n = ch.choose(setup(&v));
            let orig = &v[n].1;
            let m = orig.len().min(by_tier(8, 24));
            if m < 2 {
                return Ok(());
            }
            let (i, j) = (ch.choose(m), ch.choose(m));
            if i >= j {
                return Ok(());
            }
            let vals = [0u8, 1, 3, 4, 0xfb, 0xfc, 0xfe, 0xff];
            let mut p = orig.clone();
            p[i] = ch.of(&vals);
            p[j] = ch.of(&vals);
            replaced(ch, &d, n, &v, p, false, "with two bytes changed")
        }),
        group("short packets", "every packet of one byte and of two bytes in place of every packet up to the dump request", |ch| {
            let d = dialogue(ch);
            let v = packets_of(&d)?;
            let n = ch.choose(setup(&v));
            let a = ch.choose(256) as u8;
            let mut p = vec![a];
            let firsts = [0u8, 1, 2, 3, 0xfb, 0xfe, 0xff];
            if firsts.contains(&a) {
                let b = ch.choose(by_tier(34, 257));
                if b > 0 {
                    p.push(if thorough() { (b - 1) as u8 } else { [0, 1, 2, 3, 4, 5, 10, 31, 32, 33, 64, 100, 127, 128, 129, 160, 192, 200, 220, 240, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 35, 48, 65][b - 1] });
                }
            }
            let halt = ch.flag();
            replaced(ch, &d, n, &v, p, halt, "replaced")
        }),
        group("foreign packets", "every kind of packet in place of every packet up to the dump request, once and twice in a row", |ch| {
            let d = dialogue(ch);
            let v = packets_of(&d)?;
            let n = ch.choose(setup(&v));
            let pk = foreign();
            let k = ch.choose(pk.len());
            let halt = ch.flag();
            replaced(ch, &d, n, &v, pk[k].1.clone(), halt, pk[k].0)
        }),
        group("inserted packets", "every kind of packet inserted before every packet up to the dump request", |ch| {
            let d = dialogue(ch);
            let v = packets_of(&d)?;
            let n = ch.choose(setup(&v));
            let pk = foreign();
            let k = ch.choose(pk.len());
            let (step, orig) = (v[n].0, v[n].1.clone());
            let p = pk[k].1.clone();
            let what = || format!("{:?} with {} before it ({:?}) in {:?}", step, pk[k].0, n, (d.cfg.flavor, d.cfg.greet, d.cfg.account, d.cfg.full, d.start));
            ch.distinct(&(n, &p, format!("{:?}", d)));
            disturbed(ch, &d, n, step, &|q| Act::Raw(vec![Out::Data(packet(q, &p)), Out::Data(packet(q.wrapping_add(1), &orig))]), NetPlan::default(), &what)?;
            Ok(())
        }),
        group("result sets", "answers to the queries for a position and a checksum: every shape of up to 2 rows of up to 3 cells of every kind of value", |ch| {
            let mut d = Dialogue { cfg: Cfg::new(ch.of(&[Flavor::MySql, Flavor::Maria])), start: 1, blocking: false };
            d.cfg.crc = ch.flag();
            let v = packets_of(&d)?;
            // The rows of either result set.
            let rows: Vec<usize> = (0..setup(&v)).filter(|i| v[*i].0 == Step::Row).collect();
            let n = ch.of(&rows);
            let cells: Vec<Vec<u8>> = vec![
                vec![0xfb],
                vec![0],
                b"\x05CRC32".to_vec(),
                b"\x04NONE".to_vec(),
                b"\x014".to_vec(),
                b"\x0142".to_vec(),
                vec![1, 0xff],
                vec![0xfc, 0xff, 0xff],
                vec![0xfd, 0xff, 0xff, 0xff],
                vec![0xfe, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
                vec![0xff],
                vec![0xfc],
            ];
            let mut bytes = vec![];
            let m = ch.choose(by_tier(3, 4)) + 1;
            for _ in 0..m {
                bytes.extend(ch.pick(&cells).clone())
            }
            let count = ch.choose(3);
            let what = || format!("{} rows {} as {:?} {}", count, hexs(&bytes), v[n].0, n);
            ch.distinct(&(n, &bytes, count, d.cfg.crc, d.cfg.flavor));
            disturbed(
                ch,
                &d,
                n,
                v[n].0,
                &|q| Act::Raw((0..count).map(|i| Out::Data(packet(q.wrapping_add(i as u8), &bytes))).collect()),
                NetPlan::default(),
                &what,
            )?;
            Ok(())
        }),
        group("declared lengths", "every packet up to the dump request declared longer or shorter than it is, with every packet number of interest, then silence or the end", |ch| {
            let d = dialogue(ch);
            let v = packets_of(&d)?;
            let n = ch.choose(setup(&v));
            let (step, orig) = (v[n].0, v[n].1.clone());
            let len = ch.of(&[0usize, 1, orig.len().saturating_sub(1), orig.len(), orig.len() + 1, 0xffff, 0xff_fffe, 0xff_ffff]);
            let seq = ch.of(&[None, Some(0u8), Some(127), Some(254), Some(255)]);
            let end = ch.choose(4);
            let what = || format!("{:?} declared with {} bytes, number {:?}, in {:?}", step, len, seq, (d.cfg.flavor, d.cfg.greet, d.cfg.account, d.cfg.full, d.start));
            ch.distinct(&(n, len, seq, end, format!("{:?}", d)));
            disturbed(
                ch,
                &d,
                n,
                step,
                &|q| {
                    let b = B::new().u24(len as u32).u8(seq.unwrap_or(q)).bytes(&orig).0;
                    match end {
                        0 => Act::Raw(vec![Out::Data(b)]),
                        1 => Act::HaltRaw(vec![Out::Data(b)]),
                        2 => Act::HaltRaw(vec![Out::Data(b), Out::Close]),
                        _ => Act::HaltRaw(vec![Out::Data(b), Out::Reset]),
                    }
                },
                NetPlan::default(),
                &what,
            )?;
            Ok(())
        }),
        group("failing connections", "the connection ends, is reset or falls silent before every byte received or sent in every dialogue", |ch| {
            let d = dialogue(ch);
            let (_, net) = with_server(d.server(), NetPlan::default(), || run(&mut d.client(), 1));
            let (r, w) = (net.conns[0].received, net.conns[0].sent.len() as u64);
            let mut plan = NetPlan::default();
            let what: String;
            if ch.flag() {
                let at = ch.range(0, w);
                plan.wcut = Some((0, at));
                what = format!("{:?}: the connection fails before byte {} of {} is sent", d, at, w);
            } else {
                let at = ch.range(0, r);
                let how = ch.of(&[Cut::Close, Cut::Reset, Cut::Silent]);
                plan.cut = Some((0, at, how));
                what = format!("{:?}: {:?} before byte {} of {} is received", d, how, at, r);
            }
            ch.sample(|| what.clone());
            ch.distinct(&what);
            ch.state(&(plan.cut, plan.wcut, d.cfg.flavor));
            ch.step(1);
            let (g, net) = with_server(d.server(), plan, || run(&mut d.client(), 1));
            ch.outcome(&(g.open.is_some(), g.items.len()));
            if let Some(v) = &net.verdict {
                return viol(format!("{}: {}", what, v));
            }
            ensure!(net.clock <= (HB + SLACK) * 3, "{}: the client returns after {:?}", what, net.clock);
            ensure!(net.conns[0].max_timeout <= HB + SLACK, "{}: a read may wait {:?}", what, net.conns[0].max_timeout);
            Ok(())
        }),
        group("refused", "a refused connection is an error", |ch| {
            let d = Dialogue::draw(ch);
            env::net_start(Net::new(Box::new(d.server()), NetPlan::default()));
            env::net(|n| n.refuse = true);
            let g = run(&mut d.client(), 1);
            env::net_end();
            ch.step(1);
            ch.state(&g.open);
            ch.distinct(&format!("{:?}", d));
            ensure!(g.open.is_some(), "a refused connection goes unnoticed");
            Ok(())
        }),
        group("scripts", "servers that send every sequence of 3 (thorough: 4) packets, whatever the client says", |ch| {
            let pk = foreign();
            let greet = ch.choose(3);
            let flavor = ch.of(&[Flavor::MySql, Flavor::Maria]);
            let plugin = ["mysql_native_password", "caching_sha2_password", "mysql_clear_password"][greet];
            let mut script = vec![greeting_for(&Cfg::new(flavor).version, flavor == Flavor::Maria, &NONCE, plugin, false)];
            let mut names = vec![plugin];
            for _ in 0..by_tier(2, 4) {
                let k = ch.choose(pk.len());
                script.push(pk[k].1.clone());
                names.push(pk[k].0);
            }
            // Whatever comes later is answered by OK for ever, or by the last packet for ever.
            let tail = ch.choose(3);
            match tail {
                0 => {}
                1 => script.extend((0..12).map(|_| ok_packet())),
                _ => {
                    let l = script.last().unwrap().clone();
                    script.extend((0..12).map(|_| l.clone()))
                }
            }
            let what = || format!("a {:?} server that sends {:?}, tail {}", flavor, names, tail);
            ch.sample(what);
            ch.distinct(&(&script, flavor));
            ch.step(script.len() as u64);
            let start = ch.choose(3);
            let d = Dialogue { cfg: Cfg::new(flavor), start, blocking: false };
            env::net_start(Net::new(Box::new(Script::new(script)), NetPlan::default()));
            let g = run(&mut d.client(), 50);
            let net = env::net_end();
            ch.state(&(net.conns[0].received, net.conns[0].sent.len()));
            ch.outcome(&(g.open.is_some(), g.items.len()));
            if let Some(v) = &net.verdict {
                return viol(format!("{}: {}", what(), v));
            }
            ensure!(net.conns[0].max_timeout <= HB + SLACK, "{}: a read may wait {:?}", what(), net.conns[0].max_timeout);
            Ok(())
        }),
    ]
}
/// Packets of every kind, well-formed and not.
fn foreign() -> Vec<(&'static str, Vec<u8>)> {
    let switch = |name: &str, data: &[u8]| B::new().u8(0xfe).strz(name).bytes(data).u8(0).0;
    let mut pem = vec![1u8];
    pem.extend_from_slice(&key().1);
    let mut half = pem.clone();
    half.truncate(60);
    let n = &NONCE2[..];
    vec![
        ("OK", ok_packet()),
        ("an error", err_packet(1045, Some("28000"), "Access denied")),
        ("an error that is cut short", vec![0xff]),
        ("an error without a message", vec![0xff, 1, 2]),
        ("an error with half a code", vec![0xff, 1]),
        ("an error with a mark only", B::new().u8(0xff).u16(1045).str("#").0),
        ("an error with half a state", B::new().u8(0xff).u16(1045).str("#HY").0),
        ("an error with four fifths of a state", B::new().u8(0xff).u16(1045).str("#HY00").0),
        ("an error with a state only", B::new().u8(0xff).u16(1045).str("#HY000").0),
        ("an error with a state of wide characters", B::new().u8(0xff).u16(1045).str("#日本語の状態").0),
        ("an error with a state that ends in a wide character", B::new().u8(0xff).u16(1045).str("#HY00é").0),
        ("an error that is no text", B::new().u8(0xff).u16(1045).bytes(&[0xff, 0xfe, 0x80]).0),
        ("an error with a state that is no text", B::new().u8(0xff).u16(1045).bytes(&[b'#', 0xff, 0xfe, 0x80, 0, 1, 2]).0),
        ("progress of a MariaDB server", B::new().u8(0xff).u16(0xffff).bytes(&[1, 2, 3, 10, 20, 0, 4]).str("copy").0),
        ("end of file", eof_packet()),
        ("end of file of one byte", vec![0xfe]),
        ("a switch to native", switch("mysql_native_password", n)),
        ("a switch to sha2", switch("caching_sha2_password", n)),
        ("a switch to sha2 without a challenge", B::new().u8(0xfe).strz("caching_sha2_password").0),
        ("a switch to sha2 with an empty challenge", switch("caching_sha2_password", &[])),
        ("a switch to native with an empty challenge", switch("mysql_native_password", &[])),
        ("a switch to a plugin that is not supported", switch("mysql_clear_password", &[])),
        ("a switch to no plugin", switch("", &[])),
        ("a switch with a challenge that is not text", switch("caching_sha2_password", &[0xff; 20])),
        ("fast authentication", vec![1, 3]),
        ("full authentication", vec![1, 4]),
        ("more data, one byte", vec![1]),
        ("more data, unknown", vec![1, 9]),
        ("the public key", pem),
        ("half a public key", half),
        ("a key that is none", B::new().u8(1).str("-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n").0),
        ("a file request", B::new().u8(0xfb).str("/etc/passwd").0),
        ("a zero byte", vec![0]),
        ("an empty packet", vec![]),
        ("a column count", vec![1]),
        ("a row", B::new().lenstr("mysql-bin.000001").lenstr("4").lenstr("").0),
        ("a row with a checksum", B::new().lenstr("CRC32").0),
        ("a row with NULL", vec![0xfb]),
        ("a row with an unknown checksum", B::new().lenstr("MD5").0),
        ("a row declared too long", vec![0xfe, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1]),
        ("a greeting", greeting_for("8.0.32", false, &NONCE2, "mysql_native_password", false)),
        ("an old greeting", B::new().u8(9).strz("4.0.30").u32(1).strz("abcdefgh").0),
        ("long rubbish", vec![0x61; 5000]),
    ]
}

// ---------------------------------------------------------------- scripts

/// A server that sends the next packet of its script whenever a whole packet of the client has arrived.
struct Script {
    script: VecDeque<Vec<u8>>,
    inbuf: Vec<u8>,
    pub log: Vec<Vec<u8>>,
    /// How many packets of the script were out when each packet arrived.
    pub after: Vec<usize>,
    out: usize,
    next: u8,
}
impl Script {
    fn new(s: Vec<Vec<u8>>) -> Script {
        Script { script: s.into(), inbuf: vec![], log: vec![], after: vec![], out: 0, next: 0 }
    }
    fn emit(&mut self, out: &mut VecDeque<Out>) {
        if let Some(p) = self.script.pop_front() {
            out.push_back(Out::Data(packet(self.next, &p)));
            self.next = self.next.wrapping_add(1);
            self.out += 1;
            // A fast authentication is followed by its result without being asked.
            if p == [1, 3] {
                self.emit(out)
            }
        }
    }
}
impl Peer for Script {
    fn open(&mut self, _: usize, out: &mut VecDeque<Out>) {
        self.emit(out)
    }
    fn input(&mut self, _: usize, bytes: &[u8], out: &mut VecDeque<Out>) {
        self.inbuf.extend_from_slice(bytes);
        while self.inbuf.len() >= 4 {
            let n = self.inbuf[0] as usize | (self.inbuf[1] as usize) << 8 | (self.inbuf[2] as usize) << 16;
            if self.inbuf.len() < 4 + n {
                return;
            }
            self.next = self.inbuf[3].wrapping_add(1);
            let p = self.inbuf[4..4 + n].to_vec();
            self.inbuf.drain(..4 + n);
            self.log.push(p);
            self.after.push(self.out);
            self.emit(out)
        }
    }
    fn as_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}

// ---------------------------------------------------------------- C22

fn key2() -> &'static (Rsa<openssl::pkey::Private>, Vec<u8>) {
    static K: OnceLock<(Rsa<openssl::pkey::Private>, Vec<u8>)> = OnceLock::new();
    K.get_or_init(|| {
        let k = Rsa::generate(1024).expect("a key");
        let p = k.public_key_to_pem().expect("its public part");
        (k, p)
    })
}
#[derive(Clone, Debug)]
enum Say {
    Ok,
    Err,
    Switch(&'static str, Vec<u8>),
    Fast,
    Full,
    Key(usize),
    Raw(&'static str, Vec<u8>),
}
fn alphabet() -> Vec<Say> {
    let n = NONCE2.to_vec();
    let mut v = vec![
        Say::Ok,
        Say::Full,
        Say::Key(0),
        Say::Switch("caching_sha2_password", n.clone()),
        Say::Switch("mysql_native_password", n.clone()),
        Say::Switch("mysql_clear_password", n.clone()),
        Say::Fast,
        Say::Err,
        Say::Switch("caching_sha2_password", vec![]),
        Say::Switch("mysql_old_password", n[..8].to_vec()),
        Say::Key(1),
        Say::Raw("a key that is none", b"\x01rubbish".to_vec()),
        Say::Raw("a bare switch to the old plugin", vec![0xfe]),
        Say::Raw("a request to send the password", vec![1, 2]),
    ];
    if thorough() {
        v.extend([
            Say::Switch("mysql_native_password", vec![]),
            Say::Switch("sha256_password", n.clone()),
            Say::Switch("dialog", b"\x02Password: ".to_vec()),
            Say::Switch("", n.clone()),
            Say::Switch("client_ed25519", [n.clone(), n.clone()].concat()[..32].to_vec()),
            Say::Switch("authentication_ldap_sasl_client", vec![]),
            Say::Switch("mysql_native_password2", n.clone()),
            Say::Switch("MYSQL_CLEAR_PASSWORD", n),
            Say::Raw("a request for a file", b"\xfb/etc/passwd".to_vec()),
        ]);
    }
    v
}
impl Say {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Say::Ok => ok_packet(),
            Say::Err => err_packet(1045, Some("28000"), "Access denied"),
            Say::Switch(n, d) => B::new().u8(0xfe).strz(n).bytes(d).u8(0).0,
            Say::Fast => vec![1, 3],
            Say::Full => vec![1, 4],
            Say::Key(k) => [&[1u8][..], if *k == 0 { &key().1 } else { &key2().1 }].concat(),
            Say::Raw(_, b) => b.clone(),
        }
    }
    fn name(&self) -> String {
        match self {
            Say::Switch(n, d) => format!("switch to {:?} with {} bytes", n, d.len()),
            Say::Key(k) => format!("key {}", k),
            Say::Raw(n, _) => n.to_string(),
            x => format!("{:?}", x),
        }
    }
}
fn supported(p: &str) -> Option<Plugin> {
    [Plugin::Native, Plugin::Sha2].into_iter().find(|x| x.name() == p)
}
/// Whether `hay` contains the password in clear, under a constant mask or masked with a repeated challenge.
fn readable(hay: &[u8], pw: &[u8], masks: &[Vec<u8>]) -> Option<String> {
    if pw.len() < 6 {
        return None;
    }
    for w in hay.windows(pw.len()) {
        let k = w[0] ^ pw[0];
        if w.iter().zip(pw).all(|(a, b)| a ^ b == k) {
            return Some(format!("the password masked with {:#04x}", k));
        }
        if w.iter().rev().zip(pw).all(|(a, b)| a == b) {
            return Some("the password backwards".into());
        }
        for m in masks {
            if m.is_empty() {
                continue;
            }
            for r in 0..m.len() {
                if w.iter().zip(pw).enumerate().all(|(i, (a, b))| a ^ b == m[(i + r) % m.len()]) {
                    return Some("the password masked with a challenge".into());
                }
            }
        }
    }
    None
}
fn response(plugin: Plugin, pw: &str, nonce: &[u8]) -> Vec<u8> {
    if pw.is_empty() {
        return vec![];
    }
    use openssl::sha::{sha1, sha256};
    match plugin {
        Plugin::Native => {
            let h = sha1(pw.as_bytes());
            let m = sha1(&[nonce, &sha1(&h)].concat());
            h.iter().zip(m).map(|(a, b)| a ^ b).collect()
        }
        Plugin::Sha2 => {
            let h = sha256(pw.as_bytes());
            let m = sha256(&[&sha256(&h)[..], nonce].concat());
            h.iter().zip(m).map(|(a, b)| a ^ b).collect()
        }
    }
}
fn rsa_form(p: &[u8]) -> bool {
    for k in [&key().0, &key2().0] {
        if p.len() == k.size() as usize {
            for pad in [Padding::PKCS1_OAEP, Padding::PKCS1] {
                let mut plain = vec![0; p.len()];
                if k.private_decrypt(p, &mut plain, pad).is_ok() {
                    return true;
                }
            }
        }
    }
    false
}
struct Sly {
    greet: String,
    nonce: Vec<u8>,
    ssl: bool,
    script: Vec<Say>,
    pw: String,
    mode: usize,
    version: String,
    host: String,
    port: u16,
    user: String,
}
impl Sly {
    fn new() -> Sly {
        Sly { greet: String::new(), nonce: vec![], ssl: false, script: vec![], pw: String::new(), mode: 0, version: "8.0.32".into(), host: "127.0.0.1".into(), port: 3306, user: "repl".into() }
    }
}
fn c22_run(ch: &mut Ch, x: &Sly) -> Res {
    let what = || format!("greeting with {:?} and a challenge of {} bytes{}, then {:?}; password of {} bytes, ssl mode {}, version {}, {}@{}:{}", x.greet, x.nonce.len(), if x.ssl { ", SSL offered" } else { "" }, x.script.iter().map(|s| s.name()).collect::<Vec<_>>(), x.pw.len(), x.mode, x.version, x.user, x.host, x.port);
    ch.sample(what);
    ch.distinct(&(&x.greet, &x.nonce, x.ssl, x.script.iter().map(|s| s.bytes()).collect::<Vec<_>>(), &x.pw, x.mode, (&x.version, &x.host, x.port, &x.user)));
    let caps: u32 = (0xdfff_ffff & !(1 << 11)) | if x.ssl { 1 << 11 } else { 0 };
    let (n1, n2) = x.nonce.split_at(x.nonce.len().min(8));
    let g = B::new().u8(10).strz(&x.version).u32(77).bytes(n1).u8(0).u16(caps as u16).u8(255).u16(2).u16((caps >> 16) as u16).u8(21).bytes(&[0; 10]).bytes(n2).u8(0).strz(&x.greet).0;
    let mut script = vec![g];
    script.extend(x.script.iter().map(|s| s.bytes()));
    env::net_start(Net::new(Box::new(Script::new(script)), NetPlan::default()));
    let mut cfg = Cfg::new(Flavor::MySql);
    cfg.password = x.pw.clone();
    cfg.host = x.host.clone();
    cfg.port = x.port;
    cfg.user = x.user.clone();
    let r = catch(|| {
        let mut c = BinlogClient::new(options(&cfg, BinlogOptions::from_start(), false));
        c.options.ssl_mode = match x.mode {
            0 => SslMode::Disabled,
            1 => SslMode::IfAvailable,
            2 => SslMode::Require,
            3 => SslMode::RequireVerifyCa,
            _ => SslMode::RequireVerifyFull,
        };
        c.replicate().map(|_| ()).map_err(|e| err_text(&e))
    });
    let mut net = env::net_end();
    if net.conns.is_empty() && x.host == "localhost" {
        // Nobody knows the name here.
        return Ok(());
    }
    let sent = net.conns[0].sent.clone();
    let (log, after) = {
        let s = net.peer::<Script>();
        (s.log.clone(), s.after.clone())
    };
    let (panicked, res) = match r {
        Ok(r) => (None, Some(r)),
        Err(Caught::Engine(e)) => panic!("harness: {}", e),
        Err(Caught::Panic(p)) => (Some(p), None),
    };
    ch.step(log.len() as u64 + 1);
    for (l, a) in log.iter().zip(&after) {
        ch.state(&(*a, l.len(), &x.greet));
    }
    ch.outcome(&(res.as_ref().map(|r| r.is_ok()), log.len()));
    // No readable form of the password anywhere.
    let mut masks = vec![x.nonce.clone(), [x.nonce.clone(), vec![0]].concat()];
    for s in &x.script {
        if let Say::Switch(_, d) = s {
            masks.push(d.clone());
            masks.push([d.clone(), vec![0]].concat());
        }
    }
    if let Some(m) = readable(&sent, x.pw.as_bytes(), &masks) {
        return viol(format!("{}: the client sends {}", what(), m));
    }
    if x.mode >= 2 && !x.ssl {
        ensure!(sent.is_empty(), "{}: encryption is required and not offered, yet the client sends {}", what(), hexs(&sent));
        ensure!(matches!(res, Some(Err(_))), "{}: encryption is required and not offered, but there is no error: {:?}", what(), panicked);
        return Ok(());
    }
    if x.mode >= 1 && x.ssl {
        // The library says it cannot do this; nothing but the request for encryption may have been sent.
        ensure!(log.len() <= 1 && log.iter().all(|p| p.len() == 32), "{}: the client sends {:?}", what(), log.iter().map(|p| hexs(p)).collect::<Vec<_>>());
        return Ok(());
    }
    if let Some(p) = panicked {
        return viol(format!("{}: {}", what(), p));
    }
    // Every packet has a form that is due.
    let mut plugin = supported(&x.greet);
    let mut nonces = vec![x.nonce.clone()];
    if plugin.is_none() {
        ensure!(log.is_empty(), "{}: the client answers a plugin that is not supported: {:?}", what(), log.iter().map(|p| hexs(p)).collect::<Vec<_>>());
        ensure!(matches!(res, Some(Err(_))), "{}: a plugin that is not supported is not refused", what());
        return Ok(());
    }
    let mut seen = 1;
    let mut accepted = false;
    let mut refused = false;
    for (p, a) in log.iter().zip(&after) {
        // What the server said since.
        while seen < *a {
            match &x.script[seen - 1] {
                Say::Switch(n, d) if !accepted => {
                    plugin = supported(n);
                    nonces.push(d.clone());
                    refused |= plugin.is_none();
                }
                Say::Ok => accepted = true,
                _ => {}
            }
            seen += 1
        }
        if accepted {
            break;
        }
        ensure!(!refused, "{}: asked for a plugin that is not supported, the client sends {}", what(), hexs(p));
        let first = *a == 1;
        let allowed = if first {
            match handshake_parts(p) {
                Some((resp, name)) => resp == response(plugin.unwrap(), &x.pw, &x.nonce) && name == x.greet,
                None => false,
            }
        } else {
            p == &[2]
                || rsa_form(p)
                || nonces.iter().any(|n| {
                    let pl = plugin.unwrap();
                    *p == response(pl, &x.pw, n)
                })
                || (x.pw.is_empty() && p == &[0])
        };
        ensure!(allowed, "{}: the client sends {} behind {} packets of the server, which is no form of the login", what(), hexs(p), a);
    }
    while seen - 1 < x.script.len() {
        if let Say::Switch(n, _) = &x.script[seen - 1] {
            // Only if it was delivered and read: the client cannot have finished without it.
            if supported(n).is_none() && !accepted && res == Some(Ok(())) {
                return viol(format!("{}: a plugin that is not supported is not refused", what()));
            }
        }
        seen += 1
    }
    if refused {
        ensure!(matches!(res, Some(Err(_))), "{}: a plugin that is not supported is not refused", what());
    }
    Ok(())
}
/// The authentication response and plugin name of a handshake response.
fn handshake_parts(p: &[u8]) -> Option<(Vec<u8>, String)> {
    let mut at = 32;
    at += p.get(at..)?.iter().position(|b| *b == 0)? + 1;
    let n = *p.get(at)? as usize;
    let r = p.get(at + 1..at + 1 + n)?.to_vec();
    at += 1 + n;
    let name = p.get(at..)?.strip_suffix(&[0])?;
    Some((r, String::from_utf8(name.to_vec()).ok()?))
}
fn draw_script(ch: &mut Ch, n: usize) -> Vec<Say> {
    let a = alphabet();
    (0..n).map(|_| ch.pick(&a).clone()).collect()
}
fn c22() -> Vec<Group> {
    vec![
        group("scripts", "every server script of 5 (thorough: 6) packets behind every greeting", |ch| {
            let greet = ch.of(&["mysql_native_password", "caching_sha2_password", "mysql_clear_password"]);
            let n = if greet == "mysql_clear_password" { 1 } else { by_tier(5, 6) };
            let x = Sly { greet: greet.into(), nonce: NONCE.to_vec(), ssl: false, script: draw_script(ch, n), pw: "S3cret!".into(), mode: 0, ..Sly::new() };
            c22_run(ch, &x)
        }),
        group("challenges", "challenges of every length and kind, behind every script of 2 packets", |ch| {
            let greet = ch.of(&["mysql_native_password", "caching_sha2_password"]);
            let pool: Vec<Vec<u8>> = vec![vec![], vec![b'a'], NONCE[..8].to_vec(), NONCE[..9].to_vec(), vec![1; 20], vec![127; 20], NONCE.iter().chain(&NONCE2).cloned().collect(), vec![b'z'; 250]];
            let nonce = ch.pick(&pool).clone();
            let pw = ch.of(&["S3cret!", "", "aaaaaaaaaaaaaaaaaaaaaaaa", "correct horse battery staple", "пароль-пароль"]);
            let mut script = draw_script(ch, 2);
            script.push(Say::Key(0));
            let x = Sly { greet: greet.into(), nonce, ssl: false, script, pw: pw.into(), mode: 0, ..Sly::new() };
            c22_run(ch, &x)
        }),
        group("plugins", "every plugin name in the greeting and in a switch, behind every packet", |ch| {
            let names = ["", "mysql_clear_password", "mysql_old_password", "sha256_password", "dialog", "client_ed25519", "auth_gssapi_client", "mysql_native_passwor", "mysql_native_password ", "MYSQL_NATIVE_PASSWORD", "caching_sha2_passwords", "xcaching_sha2_password", "authentication_ldap_simple", "parsec"];
            let name = ch.of(&names);
            let at = ch.choose(4);
            let pw = ch.of(&["S3cret!", ""]);
            let greet = ch.of(&["mysql_native_password", "caching_sha2_password"]);
            let last = ch.of(&[Ok(()), Err(())]);
            let s = Say::Switch(Box::leak(name.to_string().into_boxed_str()), NONCE2.to_vec());
            let (greet, mut script) = match at {
                0 => (name, vec![]),
                1 => (greet, vec![s]),
                2 => (greet, vec![Say::Switch("caching_sha2_password", NONCE2.to_vec()), s]),
                _ => (greet, vec![Say::Full, s]),
            };
            script.push(if last.is_ok() { Say::Ok } else { Say::Key(0) });
            let x = Sly { greet: greet.into(), nonce: NONCE.to_vec(), ssl: false, script, pw: pw.into(), mode: 0, ..Sly::new() };
            c22_run(ch, &x)
        }),
        group("places", "every kind of host, port, user and server version, with full and fast authentication, a switch, and every packet behind them", |ch| {
            let greet = ch.of(&["mysql_native_password", "caching_sha2_password"]);
            let host = ch.of(&["127.0.0.1", "localhost", "::1", "10.1.2.3", "192.168.0.1", "0.0.0.0", "203.0.113.9"]);
            let port = ch.of(&[3306, 33060, 1]);
            let user = ch.of(&["repl", "root", "", "mysql.sys"]);
            let version = ch.of(&["8.0.32", "5.7.44-log", "8.4.0", "9.1.0", "5.5.5-10.6.12-MariaDB-log", "11.4.2-MariaDB", "5.6.42.0", ""]);
            let mut script = match ch.choose(3) {
                0 => vec![],
                1 => vec![Say::Switch("caching_sha2_password", NONCE2.to_vec())],
                _ => vec![Say::Switch("mysql_native_password", NONCE2.to_vec())],
            };
            script.extend(draw_script(ch, by_tier(1, 2)));
            script.push(Say::Key(0));
            script.push(Say::Ok);
            let x = Sly { greet: greet.into(), nonce: NONCE.to_vec(), script, pw: "S3cret!".into(), version: version.into(), host: host.into(), port, user: user.into(), ..Sly::new() };
            c22_run(ch, &x)
        }),
        group("encryption", "every encryption mode with servers that offer it and that do not, behind every script of 2 packets", |ch| {
            let mode = ch.choose(5);
            let ssl = ch.flag();
            let greet = ch.of(&["mysql_native_password", "caching_sha2_password", "mysql_clear_password"]);
            let script = draw_script(ch, 2);
            let pw = ch.of(&["S3cret!", ""]);
            let x = Sly { greet: greet.into(), nonce: NONCE.to_vec(), ssl, script, pw: pw.into(), mode, ..Sly::new() };
            c22_run(ch, &x)
        }),
    ]
}
