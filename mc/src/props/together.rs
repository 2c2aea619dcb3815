//! C28 to C31: readers and clients side by side, in time, with their connections, and one after another.
use super::common::*;
use super::events::{definition, row_of};
use super::net::*;
use super::proto::{flows, with_flow, Dialogue};
use super::stream::events_of;
use crate::env::{self, Net, NetPlan, Out, Peer};
use crate::explore::*;
use crate::obs::*;
use crate::sched;
use crate::server::*;
use crate::wire::*;
use crate::Check;
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_events::BinlogEvents;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::binlog_reader::BinlogReader;
use std::collections::VecDeque;
use std::sync::OnceLock;
use std::time::Duration;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C28",
            level: "model_checking",
            rule: "States are the places of two or three readers or clients in their files and streams, which give the same table ids to different tables; transitions are their steps. Every interleaving of the calls, and every schedule of threads up to the preemption bound (switching at every transfer of data, or at every allocation), is run by the real code and compared with what each delivers alone.",
            assumptions: &["threads are switched at calls to the operating system and at allocations, not between other instructions", "one execution at a time uses the code under test"],
            groups: c28,
        },
        Check {
            id: "C29",
            level: "model_checking",
            rule: "States are the places of the bytes arrived and of the events delivered; transitions are the arrival of bytes, after a pause on the virtual clock, and the deliveries. A pause is put before every byte of every session, and between every two events; what has arrived in full must be delivered without waiting for more.",
            assumptions: &["pauses are shorter than the timeout"],
            groups: c29,
        },
        Check {
            id: "C30",
            level: "model_checking",
            rule: "States are the connections that are open; transitions are starts, deliveries, failures at every step of every dialogue, and drops, in every order up to the bound. The environment counts the connections opened and closed by the real client.",
            assumptions: &[],
            groups: c30,
        },
        Check {
            id: "C31",
            level: "model_checking",
            rule: "States are what a client has been through: a session with any server, left or broken at any point, committed or not; transitions are the sessions. Behind every such history a session is run with the client and with a new client of the same options; what they send, deliver and commit is compared.",
            assumptions: &["the options are all an application sets"],
            groups: c31,
        },
    ]
}
fn switch_points(ch: &mut Ch, max: u64, preemptions: usize) -> Vec<u64> {
    let mut v = vec![];
    for _ in 0..preemptions {
        // 0: no further preemption.
        match ch.range(0, max) {
            0 => break,
            k => v.push(k),
        }
    }
    v
}

// ---------------------------------------------------------------- C28: readers

/// Files that use the same table id, each in its own way.
fn cast() -> &'static Vec<FileB> {
    static V: OnceLock<Vec<FileB>> = OnceLock::new();
    V.get_or_init(|| {
        let map = |k| p_table(&definition(100, k));
        let rows = |k, salt, version| p_rows(&row_of(k, 100, salt, Kind::Write, version));
        let lost = |k| {
            let mut p = p_rows(&row_of(k, 100, 3, Kind::Write, 2));
            p.ev = None;
            p
        };
        let mut v = vec![];
        let mut f = FileB::start(true);
        f.ev(&map(0));
        f.ev(&rows(0, 1, 2));
        f.ev(&p_xid(1));
        v.push(f);
        let mut f = FileB::start(false);
        f.ev(&map(1));
        f.ev(&rows(1, 2, 2));
        f.ev(&rows(1, 3, 2));
        v.push(f);
        // Never mapped here.
        let mut f = FileB::start(true);
        f.ev(&lost(0));
        f.ev(&p_query("shop", "COMMIT"));
        f.ev(&lost(2));
        v.push(f);
        // An old server: no checksums, nothing declared.
        let mut f = FileB::new();
        f.fde("5.5.62", 27, None);
        f.ev(&map(5));
        f.ev(&rows(5, 4, 1));
        f.ev(&p_xid(2));
        v.push(f);
        // MariaDB, with an event larger than the buffer.
        let mut f = FileB::new();
        f.fde("10.6.12-MariaDB", 171, Some(1));
        f.ev(&map(6));
        f.ev(&p_annotate(&"x".repeat(40_000)));
        f.ev(&rows(6, 5, 1));
        v.push(f);
        v
    })
}
struct Reading {
    it: Option<BinlogReader>,
    open: Option<String>,
    items: Vec<Item>,
    ended: bool,
}
impl Reading {
    fn new() -> Reading {
        Reading { it: None, open: None, items: vec![], ended: false }
    }
    /// The first step opens the file.
    fn step(&mut self, f: &FileB) {
        match &mut self.it {
            None if self.items.is_empty() && self.open.is_none() => match BinlogReader::new(memfd(&f.bytes)) {
                Ok(r) => self.it = Some(r.read_events()),
                Err(e) => self.open = Some(err(&e)),
            },
            None => {}
            Some(r) => match r.next() {
                Some(x) => self.items.push(item(&x)),
                None => self.ended = true,
            },
        }
    }
    fn judge(&self, f: &FileB, steps: usize) -> Result<(), String> {
        if let Some(e) = &self.open {
            return Err(format!("the file is refused: {}", e));
        }
        let n = steps.saturating_sub(1).min(f.want.len());
        compare(&self.items, &f.want[..n])?;
        if self.ended != (steps > f.want.len() + 1) {
            return Err("the iteration ends elsewhere".into());
        }
        Ok(())
    }
}
fn solo_read(f: &FileB) -> Reading {
    let mut r = Reading::new();
    for _ in 0..f.want.len() + 2 {
        r.step(f)
    }
    r.it = None;
    r
}
/// Lets `n[i]` steps of participant `i` happen in every order.
fn turns(ch: &mut Ch, n: &[usize], mut act: impl FnMut(&mut Ch, usize, usize)) -> Vec<usize> {
    let mut at = vec![0; n.len()];
    let mut order = vec![];
    loop {
        let open: Vec<usize> = (0..n.len()).filter(|i| at[*i] < n[*i]).collect();
        if open.is_empty() {
            return order;
        }
        let i = ch.of(&open);
        act(ch, i, at[i]);
        at[i] += 1;
        order.push(i);
        ch.step(1);
        ch.state(&at);
    }
}
fn readers_in_turns(ch: &mut Ch, which: &[usize], steps: &[usize], together: bool) -> Res {
    let files = cast();
    let mut rs: Vec<Reading> = which.iter().map(|_| Reading::new()).collect();
    if together {
        for (r, w) in rs.iter_mut().zip(which) {
            r.step(&files[*w]);
        }
    }
    let skip = together as usize;
    let left: Vec<usize> = steps.iter().map(|n| n.saturating_sub(skip)).collect();
    let order = turns(ch, &left, |_, i, k| {
        rs[i].step(&files[which[i]]);
        if k + 1 == left[i] {
            // Dropped as soon as it is done.
            rs[i].it = None;
        }
    });
    ch.distinct(&(which, steps, &order, together));
    ch.sample(|| format!("files {:?}, steps in the order {:?}", which, order));
    for (i, r) in rs.iter().enumerate() {
        r.judge(&files[which[i]], steps[i].max(skip)).map_err(|e| Viol { key: None, msg: format!("files {:?} read in turns {:?} ({:?} steps): file {}: {}", which, order, steps, which[i], e) })?;
    }
    Ok(())
}
fn finish<T>(r: Vec<Result<T, Caught>>, what: &dyn Fn() -> String) -> Result<Vec<T>, Viol> {
    r.into_iter()
        .map(|r| match r {
            Ok(x) => Ok(x),
            Err(Caught::Panic(m)) => viol(format!("{}: {}", what(), m)),
            Err(Caught::Engine(m)) => panic!("{}", m),
        })
        .collect()
}
fn readers_on_threads(ch: &mut Ch, which: &[usize], first: usize, plan: &[u64], fine: bool) -> Res {
    let files = cast();
    let what = || format!("files {:?} read on threads, the first is {}, switched after {:?} {}", which, first, plan, if fine { "allocations" } else { "reads" });
    ch.sample(what);
    ch.distinct(&(which, first, plan, fine));
    ch.state(&(which, first, plan));
    ch.step(plan.len() as u64 + 1);
    let jobs: Vec<Box<dyn FnOnce() -> Result<Reading, Caught> + Send>> = which
        .iter()
        .map(|w| {
            let f = &files[*w];
            Box::new(move || catch(|| solo_read(f))) as Box<dyn FnOnce() -> Result<Reading, Caught> + Send>
        })
        .collect();
    let r = sched::run(first, plan, fine, jobs);
    if r.free {
        ch.note("schedules given up because a thread waited for another", 1);
    }
    ch.outcome(&r.points);
    for (w, x) in which.iter().zip(finish(r.results, &what)?) {
        x.judge(&files[*w], files[*w].want.len() + 2).map_err(|e| Viol { key: None, msg: format!("{}: file {}: {}", what(), w, e) })?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C28: clients

/// Several servers; the next connection goes to server `next`.
pub struct Mux {
    pub servers: Vec<Server>,
    pub next: usize,
    at: Vec<(usize, usize)>,
}
impl Peer for Mux {
    fn open(&mut self, _: usize, out: &mut VecDeque<Out>) {
        let s = self.next;
        let k = self.servers[s].sess.len();
        self.at.push((s, k));
        self.servers[s].open(k, out)
    }
    fn input(&mut self, conn: usize, bytes: &[u8], out: &mut VecDeque<Out>) {
        let (s, k) = self.at[conn];
        self.servers[s].input(k, bytes, out)
    }
    fn idle(&mut self, conn: usize, out: &mut VecDeque<Out>) {
        let (s, k) = self.at[conn];
        self.servers[s].idle(k, out)
    }
    fn as_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}
/// Servers whose streams use the same table ids, each in its own way.
const STAGE: usize = 6;
/// Four more whose streams begin with a lone statement, or with transactions without a GTID.
const BARE: usize = STAGE + 4;
fn stage(k: usize) -> Dialogue {
    let flavor = [Flavor::MySql, Flavor::Maria, Flavor::MySql, Flavor::Maria, Flavor::MySql, Flavor::MySql, Flavor::MySql, Flavor::Maria, Flavor::MySql, Flavor::Maria][k];
    let mut d = Dialogue { cfg: Cfg::new(flavor), start: [2, 2, 0, 0, 1, 2, 2, 2, 2, 2][k], blocking: false };
    d.cfg.crc = k != 2 && k != 1;
    match k {
        3 => with_flow(&mut d.cfg, (Plugin::Sha2, Plugin::Sha2, false, false)),
        5 => with_flow(&mut d.cfg, (Plugin::Native, Plugin::Sha2, false, true)),
        _ => {}
    }
    if d.cfg.flavor == Flavor::Maria {
        d.cfg.version = Cfg::new(Flavor::Maria).version;
    }
    d.cfg.nonce[3] = b'A' + k as u8;
    d.cfg.user = format!("user{}", k);
    d.cfg.password = "p".repeat(k + 1);
    d
}
fn stage_log(k: usize, d: &Dialogue) -> Binlog {
    let my = d.cfg.flavor == Flavor::MySql;
    let ver = if my { 2 } else { 1 };
    let id = |n: u64| if my { TxId::My(SRC[0], n) } else { TxId::Maria(0, 1, n) };
    let def = [0usize, 6, 1, 4, 3, 2, 0, 0, 0, 0][k];
    let mut b = Binlog::new(d.cfg.flavor);
    b.file("mysql-bin.000001", d.cfg.sv());
    if k >= STAGE {
        use super::net::{tx_events, TxKind};
        // A MariaDB server knows the positions it serves.
        b.tx(Some(id(1)), &tx_events(d.cfg.flavor, TxKind::Ddl, Some(id(1)), 9));
        let (first, second) = if k < STAGE + 2 { ((TxKind::Ddl, Some(id(3))), (TxKind::Rows, None)) } else { ((TxKind::Rows, None), (TxKind::Ddl, Some(id(3)))) };
        for (i, (kind, id)) in [first, second].into_iter().enumerate() {
            b.tx(id, &tx_events(d.cfg.flavor, kind, id, i + 1))
        }
        return b;
    }
    let gtid = |n: u64| match id(n) {
        TxId::My(s, n) => p_mygtid(1, s, n),
        TxId::Maria(d, s, q) => p_magtid(d, s, q, 4),
    };
    b.tx(Some(id(1)), &[gtid(1), p_query("shop", "BEGIN"), p_table(&definition(100, def)), p_rows(&row_of(def, 100, k + 1, Kind::Write, ver)), p_xid(1)]);
    let mut lost = p_rows(&row_of(0, 101, 3, Kind::Delete, ver));
    lost.ev = None;
    let table = if k % 2 == 0 { vec![p_table(&definition(101, (def + 1) % 7)), p_rows(&row_of((def + 1) % 7, 101, 9, Kind::Update, ver))] } else { vec![lost] };
    let mut tx = vec![gtid(2), p_query("shop", "BEGIN")];
    tx.extend(table);
    tx.push(p_query("shop", "COMMIT"));
    b.tx(Some(id(2)), &tx);
    b
}
fn stage_server(k: usize) -> Server {
    let d = stage(k);
    let log = stage_log(k, &d);
    Server::new(d.cfg, log)
}
type Place = ((String, u32), Option<Sets>, Option<Vec<(u32, u32, u64)>>);
fn place(c: &BinlogClient) -> Place {
    (opt_pos(c), opt_sets(c), opt_list(c))
}
struct Live {
    client: BinlogClient,
    events: Option<BinlogEvents>,
    open: Option<String>,
    items: Vec<Item>,
    ended: bool,
}
impl Live {
    fn new(k: usize) -> Live {
        let mut client = stage(k).client();
        client.options.server_id = 10 + k as u32;
        Live { client, events: None, open: None, items: vec![], ended: false }
    }
    fn step(&mut self, commit: bool) {
        if self.open.is_some() {
            return;
        }
        match &mut self.events {
            None => match self.client.replicate() {
                Ok(e) => self.events = Some(e),
                Err(e) => self.open = Some(err_text(&e)),
            },
            Some(s) => match s.next() {
                None => self.ended = true,
                Some(r) => {
                    self.items.push(item(&r));
                    if let (true, Ok((h, e))) = (commit, &r) {
                        self.client.commit(h, e)
                    }
                }
            },
        }
    }
}
struct Alone {
    items: Vec<Item>,
    /// The place behind each item.
    places: Vec<Place>,
}
fn live_alone(k: usize) -> Result<(Alone, Server), String> {
    let mut places = vec![];
    let mut items = vec![];
    let (r, mut net) = with_server(stage_server(k), NetPlan::default(), || {
        let mut l = Live::new(k);
        l.step(true);
        places.push(place(&l.client));
        while l.open.is_none() && !l.ended && l.items.len() < 100 {
            l.step(true);
            places.push(place(&l.client));
        }
        items = std::mem::take(&mut l.items);
        (l.open.clone(), l.ended)
    });
    if let Some(e) = r.0 {
        return Err(format!("server {} alone: replication fails: {}", k, e));
    }
    clean(&mut net).map_err(|e| format!("server {} alone: {}", k, e))?;
    compare(&items, &streamed(&mut net, 0)).map_err(|e| format!("server {} alone: {}", k, e))?;
    if !r.1 {
        return Err(format!("server {} alone: the stream does not end", k));
    }
    let s = std::mem::replace(net.peer::<Server>(), stage_server(k));
    Ok((Alone { items, places }, s))
}
fn alone(k: usize) -> Result<&'static Alone, Viol> {
    static V: [OnceLock<Result<Alone, String>>; STAGE] = [const { OnceLock::new() }; STAGE];
    match V[k].get_or_init(|| live_alone(k).map(|x| x.0)) {
        Ok(a) => Ok(a),
        Err(e) => viol(e.clone()),
    }
}
fn live_judge(k: usize, l: &Live, steps: usize, commit: bool, s: &Server) -> Result<(), String> {
    let a = alone(k).map_err(|v| v.msg)?;
    if let Some(e) = &l.open {
        return Err(format!("replication fails: {} {:?}", e, s.complaints()));
    }
    if let Some(c) = s.complaints().first() {
        return Err(format!("the server complains: {}", c));
    }
    let n = steps.saturating_sub(1).min(a.items.len());
    compare(&l.items, &a.items[..n])?;
    if l.ended != (steps > a.items.len() + 1) {
        return Err("the stream ends elsewhere".into());
    }
    if commit && steps > 0 {
        let want = &a.places[(steps - 1).min(a.places.len() - 1)];
        if place(&l.client) != *want {
            return Err(format!("the position is {:?}, alone {:?}", place(&l.client), want));
        }
    }
    Ok(())
}
/// Clients of different servers, the steps in the given order.
fn clients_in_turns(ch: &mut Ch, which: &[usize], steps: &[usize], commit: bool, mut next: impl FnMut(&mut Ch, &[usize]) -> Option<usize>) -> Res {
    for k in which {
        alone(*k)?;
    }
    let mux = Mux { servers: which.iter().map(|k| stage_server(*k)).collect(), next: 0, at: vec![] };
    env::net_start(Net::new(Box::new(mux), NetPlan::default()));
    let mut ls: Vec<Live> = which.iter().map(|k| Live::new(*k)).collect();
    let mut at = vec![0; which.len()];
    let mut order = vec![];
    while let Some(i) = next(ch, &at) {
        env::net(|n| n.peer::<Mux>().next = i);
        ls[i].step(commit);
        at[i] += 1;
        if at[i] == steps[i] {
            ls[i].events = None;
        }
        order.push(i);
        ch.step(1);
        ch.state(&(which, &at));
    }
    for l in ls.iter_mut() {
        l.events = None;
    }
    let mut net = env::net_end();
    ch.distinct(&(which, &order, commit));
    let what = || format!("clients of servers {:?} in the order {:?}", which, order);
    ch.sample(what);
    if let Some(v) = &net.verdict {
        return viol(format!("{}: {}", what(), v));
    }
    let m = net.peer::<Mux>();
    for (i, k) in which.iter().enumerate() {
        msg(live_judge(*k, &ls[i], at[i], commit, &m.servers[i]), || format!("{}: server {}", what(), k))?;
    }
    Ok(())
}
fn clients_on_threads(ch: &mut Ch, which: &[usize], first: usize, plan: &[u64], fine: bool) -> Res {
    for k in which {
        alone(*k)?;
    }
    key();
    let what = || format!("clients of servers {:?} on threads, the first is {}, switched after {:?} {}", which, first, plan, if fine { "allocations" } else { "transfers" });
    ch.sample(what);
    ch.distinct(&(which, first, plan, fine));
    ch.state(&(which, first, plan));
    ch.step(plan.len() as u64 + 1);
    type R = Result<Result<(), String>, Caught>;
    let jobs: Vec<Box<dyn FnOnce() -> R + Send>> = which
        .iter()
        .map(|k| {
            let k = *k;
            Box::new(move || {
                let r = catch(|| {
                    let (a, _) = live_alone(k)?;
                    let b = alone(k).map_err(|v| v.msg)?;
                    compare(&a.items, &b.items)?;
                    if a.places != b.places {
                        return Err("other positions than alone".into());
                    }
                    Ok(())
                });
                env::deactivate();
                r
            }) as Box<dyn FnOnce() -> R + Send>
        })
        .collect();
    let r = sched::run(first, plan, fine, jobs);
    if r.free {
        ch.note("schedules given up because a thread waited for another", 1);
    }
    ch.outcome(&r.points);
    for (k, x) in which.iter().zip(finish(r.results, &what)?) {
        msg(x, || format!("{}: server {}", what(), k))?;
    }
    Ok(())
}
/// How many points the longest of these jobs passes alone.
fn longest(jobs: impl Fn(usize) -> Box<dyn FnOnce() + Send>, n: usize, fine: bool) -> u64 {
    (0..n).map(|k| sched::run(0, &[], fine, vec![jobs(k)]).points[0]).max().unwrap_or(0)
}
fn reader_points(fine: bool) -> u64 {
    static V: [OnceLock<u64>; 2] = [const { OnceLock::new() }; 2];
    *V[fine as usize].get_or_init(|| {
        longest(
            |k| {
                Box::new(move || {
                    solo_read(&cast()[k]);
                })
            },
            cast().len(),
            fine,
        )
    })
}
fn client_points(fine: bool) -> u64 {
    static V: [OnceLock<u64>; 2] = [const { OnceLock::new() }; 2];
    *V[fine as usize].get_or_init(|| {
        key();
        longest(
            |k| {
                Box::new(move || {
                    let _ = live_alone(k);
                    env::deactivate();
                })
            },
            STAGE,
            fine,
        )
    })
}

fn c28() -> Vec<Group> {
    vec![
        group_solo("two readers in turns", "every interleaving of the steps (opening, reading each event, the end) of two readers, for every pair of five files that use one table id differently", |ch| {
            let n = cast().len();
            let a = ch.choose(n);
            let b = ch.choose(n);
            let together = !thorough() || ch.flag();
            let steps = [cast()[a].want.len() + 2, cast()[b].want.len() + 2];
            readers_in_turns(ch, &[a, b], &steps, together)
        }),
        group_solo("left early", "the same with one of the readers dropped after any number of its steps", |ch| {
            let n = cast().len();
            let a = ch.choose(n);
            let b = ch.choose(n);
            let k = ch.range(1, cast()[a].want.len() as u64 + 1) as usize;
            let steps = [k, cast()[b].want.len() + 2];
            readers_in_turns(ch, &[a, b], &steps, true)
        }),
        group_solo("one behind the other", "every file read to any point, then every other one to its end, then the first from its beginning", |ch| {
            let files = cast();
            let a = ch.choose(files.len());
            let b = ch.choose(files.len());
            let k = ch.range(0, files[a].want.len() as u64 + 2) as usize;
            let mut first = Reading::new();
            for _ in 0..k {
                first.step(&files[a])
            }
            let keep = ch.flag();
            if !keep {
                first.it = None;
            }
            ch.distinct(&(a, b, k, keep));
            ch.state(&(a, b, k, keep));
            ch.step(3);
            for (w, x) in [(b, solo_read(&files[b])), (a, solo_read(&files[a]))] {
                x.judge(&files[w], files[w].want.len() + 2).map_err(|e| Viol { key: None, msg: format!("file {} behind {} steps of file {}: {}", w, k, a, e) })?;
            }
            first.judge(&files[a], k).map_err(|e| Viol { key: None, msg: format!("{} steps of file {}: {}", k, a, e) })
        }),
        group_solo("three readers in turns", "every interleaving of the first steps of three readers", |ch| {
            let n = cast().len();
            let w = [ch.choose(n), ch.choose(n), ch.choose(by_tier(2, n))];
            let k = 4;
            readers_in_turns(ch, &w, &[k, k, by_tier(3, k)], true)
        }),
        group_solo("readers on threads", "two readers on threads, every schedule with up to two (thorough: three) preemptions at the reads", |ch| {
            let n = cast().len();
            let (a, b) = (ch.choose(n), ch.choose(n));
            let first = ch.choose(2);
            let max = reader_points(false);
            let plan = switch_points(ch, max, by_tier(2, 3));
            readers_on_threads(ch, &[a, b], first, &plan, false)
        }),
        group_solo("readers and allocations", "the same, every schedule with one (thorough: two) preemptions at allocations and reads", |ch| {
            let n = by_tier(3, cast().len());
            let (a, b) = (ch.choose(n), ch.choose(n));
            let first = ch.choose(2);
            let max = reader_points(true);
            let plan = switch_points(ch, max, by_tier(1, 2));
            readers_on_threads(ch, &[a, b], first, &plan, true)
        }),
        group_solo("clients in turns", "two clients of different servers, every order of their steps (start, events, end) with up to two (thorough: three) switches, committing or not", |ch| {
            let (a, b) = (ch.choose(STAGE), ch.choose(STAGE));
            let commit = ch.flag();
            let n = [alone(a)?.items.len() + 2, alone(b)?.items.len() + 2];
            let first = ch.choose(2);
            let plan = switch_points(ch, n[0].max(n[1]) as u64, by_tier(2, 3));
            let mut plan: VecDeque<u64> = plan.into();
            let mut turn = first;
            let mut left = plan.pop_front().unwrap_or(u64::MAX);
            clients_in_turns(ch, &[a, b], &n, commit, move |_, at| {
                let done = |i: usize| at[i] >= n[i];
                if done(0) && done(1) {
                    return None;
                }
                if left == 0 || done(turn) {
                    turn = 1 - turn;
                    left = plan.pop_front().unwrap_or(u64::MAX);
                    if done(turn) {
                        turn = 1 - turn;
                    }
                }
                left = left.saturating_sub(1);
                Some(turn)
            })
        }),
        group_solo("every order of clients", "two clients of different servers, every interleaving of the first steps of both", |ch| {
            let (a, b) = (ch.choose(STAGE), ch.choose(STAGE));
            let m = by_tier(4usize, 7);
            let n = [m.min(alone(a)?.items.len() + 2), m.min(alone(b)?.items.len() + 2)];
            clients_in_turns(ch, &[a, b], &n, true, |ch, at| {
                let open: Vec<usize> = (0..2).filter(|i| at[*i] < n[*i]).collect();
                if open.is_empty() {
                    None
                } else {
                    Some(ch.of(&open))
                }
            })
        }),
        group_solo("clients on threads", "two clients on threads, every schedule with up to one (thorough: two) preemptions at the transfers", |ch| {
            let (a, b) = (ch.choose(STAGE), ch.choose(STAGE));
            let first = ch.choose(2);
            let max = client_points(false);
            let plan = switch_points(ch, max, by_tier(1, 2));
            clients_on_threads(ch, &[a, b], first, &plan, false)
        }),
        group_solo("reader beside client", "a reader and a client, every order of their steps with up to two switches", |ch| {
            let f = &cast()[ch.choose(cast().len())];
            let k = ch.choose(STAGE);
            alone(k)?;
            let n = [f.want.len() + 2, alone(k)?.items.len() + 2];
            let first = ch.choose(2);
            let mut plan: VecDeque<u64> = switch_points(ch, n[0].max(n[1]) as u64, 2).into();
            let mut order = vec![];
            let mut at = [0usize; 2];
            let mut r = Reading::new();
            let (l, mut net) = with_server(stage_server(k), NetPlan::default(), || {
                let mut l = Live::new(k);
                let mut turn = first;
                let mut left = plan.pop_front().unwrap_or(u64::MAX);
                while at[0] < n[0] || at[1] < n[1] {
                    if left == 0 || at[turn] >= n[turn] {
                        turn = 1 - turn;
                        left = plan.pop_front().unwrap_or(u64::MAX);
                        if at[turn] >= n[turn] {
                            turn = 1 - turn;
                        }
                    }
                    left = left.saturating_sub(1);
                    if turn == 0 {
                        r.step(f)
                    } else {
                        l.step(true)
                    }
                    at[turn] += 1;
                    order.push(turn);
                }
                l.events = None;
                l
            });
            ch.distinct(&(k, &f.bytes, &order));
            ch.state(&(k, &order));
            ch.step(order.len() as u64);
            let what = || format!("a reader (0) and a client of server {} (1) in the order {:?}", k, order);
            ch.sample(what);
            msg(r.judge(f, n[0]), || format!("{}: the reader", what()))?;
            msg(live_judge(k, &l, n[1], true, net.peer::<Server>()), || format!("{}: the client", what()))
        }),
    ]
}

// ---------------------------------------------------------------- C29

type Sizes = std::rc::Rc<std::cell::RefCell<Vec<(Step, u64)>>>;
/// Records the end of every packet in the server's output.
fn watched(mut s: Server) -> (Server, Sizes) {
    let v: Sizes = Default::default();
    let w = v.clone();
    s.tamper = Some(Box::new(move |_, _, st, _, p| {
        let mut v = w.borrow_mut();
        let before = v.last().map(|x| x.1).unwrap_or(0);
        v.push((st, before + packet(0, p).len() as u64));
        Act::Pass
    }));
    (s, v)
}
fn pause(ch: &mut Ch, d: &Dialogue, at: u64, len: Duration, rcap: usize) -> Res {
    let (s, sizes) = watched(d.server());
    let plan = NetPlan { delays: vec![(0, at, len)], rcap, ..Default::default() };
    let what = || format!("{:?}, a pause of {:?} before byte {}", d, len, at);
    let (r, mut net) = with_server(s, plan, || -> Result<(Vec<(Item, Duration)>, Duration), String> {
        let mut c = d.client();
        let mut ev = c.replicate().map_err(|e| format!("replication fails: {}", err_text(&e)))?;
        let mut v = vec![];
        while let Some(r) = ev.next() {
            v.push((item(&r), env::net(|n| n.clock)));
            if v.len() > 100 {
                break;
            }
        }
        Ok((v, env::net(|n| n.clock)))
    });
    ch.distinct(&(format!("{:?}", d), at, len, rcap));
    ch.sample(what);
    ch.state(&(d.cfg.flavor, d.start, at));
    ch.step(net.calls);
    msg(clean(&mut net), what)?;
    let (items, end) = match r {
        Ok(x) => x,
        Err(e) => return viol(format!("{}: {}", what(), e)),
    };
    let want = streamed(&mut net, 0);
    msg(compare(&items.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), &want), what)?;
    let sizes = sizes.borrow();
    let ends: Vec<u64> = sizes.iter().filter(|x| matches!(x.0, Step::Event(_) | Step::StreamEof)).map(|x| x.1).collect();
    let times: Vec<Duration> = items.iter().map(|x| x.1).chain([end]).collect();
    ensure!(ends.len() == times.len(), "{}: {} packets, {} items", what(), ends.len(), times.len());
    for (i, (e, t)) in ends.iter().zip(&times).enumerate() {
        let due = if *e > at { len } else { Duration::ZERO };
        ensure!(*t == due, "{}: item {}, complete with byte {}, is delivered after {:?}", what(), i, e, t);
    }
    Ok(())
}
/// Plays pieces of a stream and notes when each item is delivered.
fn timed(flavor: Flavor, crc: bool, out: Vec<Out>, max: usize) -> Result<(Vec<(Item, Duration)>, Option<Duration>), String> {
    let mut cfg = Cfg::new(flavor);
    cfg.crc = crc;
    let c2 = cfg.clone();
    let mut log = Binlog::new(flavor);
    log.file("mysql-bin.000001", cfg.sv());
    let mut s = Server::new(cfg, log);
    let mut out = Some(out);
    s.tamper = Some(Box::new(move |_, _, st, _, _| match st {
        Step::Event(0) => Act::HaltRaw(out.take().unwrap_or_default()),
        _ => Act::Pass,
    }));
    let (r, mut net) = with_server(s, NetPlan::default(), || -> Result<_, String> {
        let mut c = BinlogClient::new(options(&c2, BinlogOptions::from_start(), true));
        let mut ev = c.replicate().map_err(|e| format!("replication fails: {}", err_text(&e)))?;
        let mut v = vec![];
        while v.len() < max {
            match ev.next() {
                Some(r) => v.push((item(&r), env::net(|n| n.clock))),
                None => return Ok((v, Some(env::net(|n| n.clock)))),
            }
        }
        Ok((v, None))
    });
    clean(&mut net)?;
    r
}
/// What comes in a stream, to be delivered as one item each.
fn packets_of(kind: usize, n: usize, f: &mut FileB) -> Option<Vec<u8>> {
    match kind {
        0 => f.ev(&p_xid(n as u64)),
        1 => f.ev(&p_query("shop", &"x".repeat(300))),
        2 => f.ev(&p_heartbeat("mysql-bin.000001")),
        3 => f.ev(&p_unknown(STOP, &[])),
        // Cannot be decoded.
        4 => f.ev(&bad(ROTATE, vec![1, 2])),
        5 => {
            f.want.push(Err("error packet".into()));
            return Some(err_packet(1236, Some("HY000"), "no"));
        }
        6 => {
            f.want.push(Err("unknown".into()));
            return Some(vec![7, 1, 2]);
        }
        _ => f.ev(&p_annotate(&"y".repeat(70_000))),
    }
    let a = f.ends.len().checked_sub(2).map(|i| f.ends[i]).unwrap_or(4);
    Some([&[0u8][..], &f.bytes[a..]].concat())
}
fn arrivals(ch: &mut Ch, kinds: &[usize], cuts: &[usize]) -> Res {
    let mut f = FileB::new();
    f.crc = true;
    let mut out: Vec<Out> = vec![];
    let mut due = vec![];
    let mut now = Duration::ZERO;
    let mut seq = 1u8;
    f.ev(&p_rotate(4, "mysql-bin.000001"));
    f.fde("8.0.32", 41, Some(1));
    for e in events_of(&f) {
        out.push(Out::Data(packet(seq, &[&[0u8][..], &e].concat())));
        seq += 1;
        due.push(now);
    }
    let wait = |out: &mut Vec<Out>, now: &mut Duration, ms: u64| {
        out.push(Out::Wait(Duration::from_millis(ms)));
        *now += Duration::from_millis(ms);
    };
    for (n, k) in kinds.iter().chain([&usize::MAX]).enumerate() {
        let last = *k == usize::MAX;
        let p = if last { eof_packet() } else { packets_of(*k, n, &mut f).unwrap() };
        let b = packet(seq, &p);
        seq += 1;
        // Where the pause is: none, before the packet, in its header, behind it, in the middle, before its last byte.
        let at = match cuts[n] {
            0 => None,
            1 => Some(0),
            2 => Some(2),
            3 => Some(4),
            4 => Some(b.len() / 2),
            _ => Some(b.len() - 1),
        };
        if let Some(a) = at {
            out.push(Out::Data(b[..a].to_vec()));
            wait(&mut out, &mut now, 1000 + n as u64);
            out.push(Out::Data(b[a..].to_vec()));
        } else if let Some(Out::Data(d)) = out.last_mut() {
            // Arrives together with what comes before.
            d.extend(b);
        }
        due.push(now);
    }
    let what = || format!("items {:?} with pauses {:?}", kinds, cuts);
    ch.sample(what);
    ch.distinct(&(kinds, cuts));
    ch.state(&(kinds, cuts));
    ch.step(kinds.len() as u64 + 1);
    match timed(Flavor::MySql, true, out, f.want.len() + 1) {
        Err(e) => viol(format!("{}: {}", what(), e)),
        Ok((v, end)) => {
            msg(compare(&v.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), &f.want), what)?;
            let times: Vec<Duration> = v.iter().map(|x| x.1).chain(end).collect();
            ensure!(times == due, "{}: delivered at {:?}, complete at {:?}", what(), times, due);
            Ok(())
        }
    }
}
/// A pipe that never blocks: its reading end as a file, and the descriptor of its other end.
struct Pipe {
    end: i32,
}
impl Pipe {
    fn new() -> (std::fs::File, Pipe) {
        use std::os::fd::FromRawFd;
        let mut fds = [0i32; 2];
        unsafe {
            assert!(libc::pipe2(fds.as_mut_ptr(), libc::O_NONBLOCK | libc::O_CLOEXEC) == 0, "pipe");
            (std::fs::File::from_raw_fd(fds[0]), Pipe { end: fds[1] })
        }
    }
    fn put(&self, b: &[u8]) {
        let n = unsafe { libc::syscall(libc::SYS_write, self.end, b.as_ptr(), b.len()) };
        assert!(n == b.len() as i64, "write to a pipe");
    }
    /// Whether nobody can read any more.
    fn abandoned(&self) -> bool {
        let mut p = libc::pollfd { fd: self.end, events: libc::POLLOUT, revents: 0 };
        unsafe { libc::syscall(libc::SYS_poll, &mut p as *mut _, 1, 0) };
        p.revents & libc::POLLERR != 0
    }
}
impl Drop for Pipe {
    fn drop(&mut self) {
        unsafe { libc::syscall(libc::SYS_close, self.end) };
    }
}
fn c29() -> Vec<Group> {
    vec![
        group("pause before every byte", "a pause before every byte of every dialogue and its stream, (thorough: also with reads of single bytes)", |ch| {
            let d = if thorough() {
                Dialogue::draw(ch)
            } else {
                let mut d = Dialogue { cfg: Cfg::new(ch.of(&[Flavor::MySql, Flavor::Maria])), start: ch.choose(3), blocking: false };
                let f = flows();
                with_flow(&mut d.cfg, f[(d.start * 3) % f.len()]);
                d
            };
            let (s, sizes) = watched(d.server());
            let (g, _) = with_server(s, NetPlan::default(), || run(&mut d.client(), 100));
            ensure!(g.open.is_none(), "{:?}: {:?}", d, g.open);
            let all = sizes.borrow().last().map(|x| x.1).unwrap_or(1);
            let at = ch.range(0, all - 1);
            let len = ch.of(by_tier(&[Duration::from_millis(1500)][..], &[Duration::from_millis(1), HB]));
            let rcap = ch.of(by_tier(&[0usize][..], &[0, 1]));
            pause(ch, &d, at, len, rcap)
        }),
        group("arrivals", "every sequence of three (thorough: four) items (events, undecodable events, error packets), each arriving together with the one before, or with a pause before it, in its header, behind its header, in its middle or before its last byte", |ch| {
            let n = by_tier(3, 4);
            let pool = by_tier(&[0usize, 1, 4, 5][..], &[0, 1, 4, 5, 6]);
            let kinds: Vec<usize> = (0..n).map(|_| ch.of(pool)).collect();
            let cuts: Vec<usize> = (0..=n).map(|_| ch.choose(6)).collect();
            arrivals(ch, &kinds, &cuts)
        }),
        group("arrivals of every kind", "the same with two items of every kind, heartbeats, unmodelled and large events among them", |ch| {
            let kinds = [ch.choose(8), ch.choose(8)];
            let cuts: Vec<usize> = (0..3).map(|_| ch.choose(6)).collect();
            arrivals(ch, &kinds, &cuts)
        }),
        group("continued events", "events of several packets, with a pause before, in and behind the header of each continuation", |ch| {
            let m = 0xff_ffffusize;
            let n = ch.of(by_tier(&[m - 1, m, m + 1][..], &[m - 1, m, m + 1, m + 1000, 2 * m - 1, 2 * m, 2 * m + 1]));
            let mut f = FileB::new();
            f.crc = true;
            f.ev(&p_rotate(4, "mysql-bin.000001"));
            f.fde("8.0.32", 41, Some(1));
            f.ev(&p_annotate(&"z".repeat(n - 1 - 19 - 4)));
            f.ev(&p_xid(5));
            let ev = events_of(&f);
            let mut bytes = vec![];
            let mut ends = vec![];
            let mut seq = 1u8;
            for e in &ev {
                let p = [&[0u8][..], e].concat();
                bytes.extend(packet(seq, &p));
                seq += 1 + (p.len() / m) as u8;
                ends.push(bytes.len());
            }
            // Around the place where the large event's last packet begins.
            let parts = n / m;
            let at = (ends[1] + parts * (m + 4)) as i64 + ch.of(by_tier(&[-1i64, 0, 4][..], &[-1, 0, 1, 3, 4, 5])) + if parts == 0 { n as i64 } else { 0 };
            let at = at as usize;
            let second = bytes.split_off(at.min(bytes.len()));
            let len = Duration::from_secs(2);
            let out = vec![Out::Data(bytes), Out::Wait(len), Out::Data(second)];
            let what = || format!("an event packet of {} bytes, a pause before byte {} of the stream", n, at);
            ch.sample(what);
            ch.distinct(&(n, at));
            ch.state(&(n, at));
            match timed(Flavor::Maria, true, out, f.want.len()) {
                Err(e) => viol(format!("{}: {}", what(), e)),
                Ok((v, _)) => {
                    ensure!(v.len() == f.want.len(), "{}: {} items", what(), v.len());
                    for (i, x) in v.iter().enumerate() {
                        ensure!(same(&x.0, &f.want[i]), "{}: item {} is {}", what(), i, show(&x.0));
                        let due = if ends[i] > at { len } else { Duration::ZERO };
                        ensure!(x.1 == due, "{}: item {}, complete with byte {}, is delivered after {:?}", what(), i, ends[i], x.1);
                    }
                    Ok(())
                }
            }
        }),
        group("files that grow", "every kind of event through a pipe, written in every grouping: what is there is delivered, and nothing more is read", |ch| {
            let t = templates();
            let (name, evs) = &t[ch.choose(t.len())];
            let crc = ch.flag();
            let mut f = FileB::start(crc);
            for e in evs {
                f.ev(e)
            }
            f.ev(&p_xid(1));
            f.ev(&p_query("shop", &"q".repeat(by_tier(40_000, 60_000))));
            f.ev(&p_xid(2));
            let n = f.ends.len();
            // Which events arrive together with the next one.
            let joined: Vec<bool> = (0..n).map(|_| ch.flag()).collect();
            let mut cuts = vec![4];
            cuts.extend((0..n).filter(|i| !joined[*i]).map(|i| f.ends[i]));
            let what = || format!("{} (checksums {}) through a pipe, {:?}", name, crc, joined);
            ch.sample(what);
            ch.distinct(&(&f.bytes, &joined));
            ch.state(&(name, &joined));
            growing(ch, &f, cuts, &what)
        }),
        group("files that grow anywhere", "every kind of event through a pipe that is written up to every byte, and (thorough: any) two such bytes, before a read waits for more", |ch| {
            let t = templates();
            let (name, evs) = &t[ch.choose(t.len())];
            let crc = ch.flag();
            let mut f = FileB::start(crc);
            for e in evs {
                f.ev(e)
            }
            f.ev(&p_xid(1));
            let all = f.bytes.len();
            let a = ch.choose(all + 1);
            let mut cuts = vec![a];
            if thorough() && ch.flag() {
                cuts.push(ch.range(a as u64 + 1, all as u64 + 1) as usize);
            } else if ch.flag() {
                // And everything behind the end of the event begun there.
                cuts.extend(f.ends.iter().filter(|e| **e > a));
            }
            let what = || format!("{} (checksums {}) through a pipe, written up to {:?}", name, crc, cuts);
            ch.sample(what);
            ch.distinct(&(&f.bytes, &cuts));
            ch.state(&(name, crc, a));
            growing(ch, &f, cuts.clone(), &what)
        }),
    ]
}
/// A file that is written up to each of these places in turn, when there is nothing else to read.
fn growing(ch: &mut Ch, f: &FileB, cuts: Vec<usize>, what: &dyn Fn() -> String) -> Res {
    let mut cuts: Vec<usize> = cuts.into_iter().filter(|c| *c > 0 && *c < f.bytes.len()).collect();
    cuts.push(f.bytes.len());
    cuts.sort();
    cuts.dedup();
    let mut parts = vec![];
    let mut at = 0;
    for c in &cuts {
        parts.push(f.bytes[at..*c].to_vec());
        at = *c;
    }
    let needed = |end: usize| cuts.iter().position(|c| *c >= end).unwrap() + 1;
    let file = env::grow_start(parts);
    let r = (|| {
        let r = match BinlogReader::new(file) {
            Ok(r) => r,
            Err(e) => return viol(format!("{}: refused: {}", what(), err(&e))),
        };
        ensure!(env::grow_arrived() == needed(4), "{}: opening waits for {} parts instead of {}", what(), env::grow_arrived(), needed(4));
        let mut it = r.read_events();
        for i in 0..f.want.len() {
            ch.step(1);
            match it.next() {
                None => return viol(format!("{}: event {} is missing", what(), i)),
                Some(x) => {
                    let x = item(&x);
                    ensure!(same(&x, &f.want[i]), "{}: item {} is {}", what(), i, show(&x));
                }
            }
            let (a, b) = (env::grow_arrived(), needed(f.ends[i]));
            ensure!(a == b, "{}: event {} is delivered behind {} parts instead of {}", what(), i, a, b);
        }
        ensure!(it.next().is_none(), "{}: the iteration does not end", what());
        Ok(())
    })();
    env::deactivate();
    r
}

// ---------------------------------------------------------------- C30

fn open_connections(n: &Net) -> Vec<bool> {
    n.conns.iter().map(|c| !c.closed_by_client).collect()
}
/// A start that fails leaves nothing behind.
fn failed_start(ch: &mut Ch, d: &Dialogue, s: Server, plan: NetPlan, what: &dyn Fn() -> String) -> Res {
    ch.sample(what);
    ch.step(1);
    let (r, net) = with_server(s, plan, || {
        let mut c = d.client();
        match c.replicate() {
            Ok(e) => {
                let open = env::net(|n| open_connections(n));
                drop(e);
                (None, open, env::net(|n| open_connections(n)))
            }
            Err(e) => (Some(err_text(&e)), vec![], env::net(|n| open_connections(n))),
        }
    });
    ch.outcome(&r.0.is_some());
    if let Some(v) = &net.verdict {
        return viol(format!("{}: {}", what(), v));
    }
    ensure!(net.conns.len() == 1, "{}: {} connections", what(), net.conns.len());
    match &r.0 {
        Some(e) => ensure!(r.2 == [false], "{}: starting fails ({}) and the connection stays open", what(), e),
        None => {
            ensure!(r.1 == [true], "{}: the stream is there, its connection is closed", what());
            ensure!(r.2 == [false], "{}: the stream is dropped and its connection stays open", what());
        }
    }
    Ok(())
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Act30 {
    Start,
    /// A start that the server refuses at this step.
    Fail(usize),
    Take(usize),
    Drop(usize),
    DropClient,
}
fn c30() -> Vec<Group> {
    vec![
        group("failures while starting", "an error, nonsense, an end, a reset or silence at every step of every dialogue", |ch| {
            let d = Dialogue::draw(ch);
            let steps = d.steps()?;
            let n = ch.choose(steps.iter().position(|s| matches!(s, Step::Event(_))).unwrap_or(steps.len()) + 1);
            let how = ch.choose(6);
            let mut s = d.server();
            s.tamper = Some(Box::new(move |_, i, _, _, _| {
                if i != n {
                    return Act::Pass;
                }
                match how {
                    0 => Act::Halt(Some(err_packet(1227, Some("42000"), "denied"))),
                    1 => Act::HaltClose(Some(err_packet(1227, None, "denied"))),
                    2 => Act::Halt(Some(vec![])),
                    3 => Act::HaltRaw(vec![Out::Close]),
                    4 => Act::HaltRaw(vec![Out::Reset]),
                    _ => Act::Halt(None),
                }
            }));
            ch.distinct(&(format!("{:?}", d), n, how));
            ch.state(&(d.cfg.flavor, d.start, n, how));
            let what = || format!("{:?}, failure {} at packet {}", d, how, n);
            failed_start(ch, &d, s, NetPlan::default(), &what)
        }),
        group("writes that fail", "the connection fails before every byte the client sends while it starts", |ch| {
            let mut d = Dialogue { cfg: Cfg::new(ch.of(&[Flavor::MySql, Flavor::Maria])), start: ch.choose(3), blocking: true };
            let f = flows();
            with_flow(&mut d.cfg, ch.of(&f));
            let (_, net) = with_server(d.server(), NetPlan::default(), || d.client().replicate().is_ok());
            let at = ch.range(0, net.conns[0].sent.len() as u64 - 1);
            ch.distinct(&(format!("{:?}", d), at));
            ch.state(&(d.cfg.flavor, d.start, at));
            let what = || format!("{:?}, the connection fails before byte {} is sent", d, at);
            failed_start(ch, &d, d.server(), NetPlan { wcut: Some((0, at)), ..Default::default() }, &what)
        }),
        group("refusals", "wrong passwords, unknown users, required encryption refused, no GTID position, no connection at all", |ch| {
            let mut d = Dialogue { cfg: Cfg::new(ch.of(&[Flavor::MySql, Flavor::Maria])), start: ch.choose(3), blocking: ch.flag() };
            let f = flows();
            with_flow(&mut d.cfg, ch.of(&f));
            let k = ch.choose(4);
            ch.distinct(&(format!("{:?}", d), k));
            ch.state(&(d.cfg.flavor, d.start, k));
            let mut s = d.server();
            let what = format!("{:?}, refusal {}", d, k);
            match k {
                0 => s.cfg.password = "another".into(),
                1 => s.cfg.user = "another".into(),
                2 => d.cfg.password = String::new(),
                _ => {
                    env::net_start(Net::new(Box::new(s), NetPlan::default()));
                    env::net(|n| n.refuse = true);
                    let r = d.client().replicate().map(|_| ()).is_err();
                    let net = env::net_end();
                    ensure!(r, "{}: replication starts without a connection", what);
                    ensure!(net.calls == 1, "{}: {} attempts to connect", what, net.calls);
                    return Ok(());
                }
            }
            failed_start(ch, &d, s, NetPlan::default(), &|| what.clone())
        }),
        group("addresses", "one connection, to the configured host and port, again on the next start and after they are changed", |ch| {
            let mut d = Dialogue { cfg: Cfg::new(ch.of(&[Flavor::MySql, Flavor::Maria])), start: ch.choose(3), blocking: ch.flag() };
            let hosts = ["127.0.0.1", "10.1.2.3", "203.0.113.9", "0.0.0.0", "::1", "2001:db8::7"];
            let ports = [3306u16, 3307, 33060, 1, 65535];
            let (h, p) = (ch.of(&hosts), ch.of(&ports));
            let (h2, p2) = (ch.of(&hosts), ch.of(&ports));
            d.cfg.host = h.into();
            d.cfg.port = p;
            let what = format!("{}:{} and then {}:{}", h, p, h2, p2);
            ch.sample(|| what.clone());
            ch.distinct(&(d.cfg.flavor, d.start, d.blocking, h, p, h2, p2));
            ch.state(&(h, p, h2, p2));
            ch.step(3);
            let (r, net) = with_server(d.server(), NetPlan::default(), || {
                let mut c = d.client();
                let a = c.replicate().map(|_| ()).map_err(|e| err_text(&e));
                let b = c.replicate().map(|_| ()).map_err(|e| err_text(&e));
                c.options.hostname = h2.into();
                c.options.port = p2;
                (a, b, c.replicate().map(|_| ()).map_err(|e| err_text(&e)))
            });
            ensure!(r == (Ok(()), Ok(()), Ok(())), "{}: {:?}", what, r);
            let at = |h: &str, p: u16| Some(std::net::SocketAddr::new(h.parse().unwrap(), p));
            let want = vec![at(h, p), at(h, p), at(h2, p2)];
            let got: Vec<_> = net.conns.iter().map(|c| c.addr).collect();
            ensure!(got == want, "{}: connections to {:?}", what, got);
            Ok(())
        }),
        group("streams", "every stream left after any number of its items, the client dropped before or behind the stream, or kept", |ch| {
            let d = Dialogue { cfg: Cfg::new(ch.of(&[Flavor::MySql, Flavor::Maria])), start: ch.choose(3), blocking: ch.flag() };
            let k = ch.choose(by_tier(20, 40));
            let order = ch.choose(3);
            let what = format!("{:?}, left after {} items, order {}", d, k, order);
            ch.sample(|| what.clone());
            ch.distinct(&(format!("{:?}", d), k, order));
            ch.state(&(d.cfg.flavor, d.start, d.blocking, k, order));
            ch.step(k as u64);
            let (r, mut net) = with_server(d.server(), NetPlan::default(), || -> Result<(Vec<Item>, bool), String> {
                let mut c = Some(d.client());
                let mut ev = c.as_mut().unwrap().replicate().map_err(|e| format!("replication fails: {}", err_text(&e)))?;
                if order == 0 {
                    c = None;
                }
                let mut items = vec![];
                let mut ended = false;
                for _ in 0..k {
                    if env::net(|n| open_connections(n)) != [true] {
                        return Err(format!("the connection is closed behind {} items", items.len()));
                    }
                    match ev.next() {
                        Some(r) => items.push(item(&r)),
                        None => {
                            ended = true;
                            break;
                        }
                    }
                }
                if order == 1 {
                    c = None;
                    if !ended && env::net(|n| open_connections(n)) != [true] {
                        return Err("dropping the client closes the connection of the stream".into());
                    }
                }
                let before = env::net(|n| n.clock);
                drop(ev);
                if env::net(|n| n.clock) != before {
                    return Err(format!("dropping the stream waits for the server for {:?}", env::net(|n| n.clock) - before));
                }
                if env::net(|n| open_connections(n)) != [false] {
                    return Err("the stream is dropped and its connection stays open".into());
                }
                drop(c);
                Ok((items, ended))
            });
            let (items, ended) = match r {
                Ok(x) => x,
                Err(e) => return viol(format!("{}: {}", what, e)),
            };
            ensure!(net.conns.len() == 1, "{}: {} connections", what, net.conns.len());
            let mut want = streamed(&mut net, 0);
            want.truncate(k);
            // Heartbeats follow on a blocking stream.
            msg(compare(&items, &want), || what.clone())?;
            ensure!(!ended || !d.blocking, "{}: the stream ends", what);
            Ok(())
        }),
        group("histories", "every sequence of up to six (thorough: eight) starts, failing starts, deliveries and drops with one client and up to three streams", |ch| {
            let d = Dialogue { cfg: Cfg::new(ch.of(&[Flavor::MySql, Flavor::Maria])), start: ch.of(by_tier(&[0][..], &[0, 2])), blocking: false };
            let steps = d.steps()?.iter().position(|s| matches!(s, Step::Event(_))).unwrap_or(1);
            let mut s = d.server();
            let fail: std::rc::Rc<std::cell::Cell<usize>> = std::rc::Rc::new(std::cell::Cell::new(usize::MAX));
            let f2 = fail.clone();
            s.tamper = Some(Box::new(move |_, i, _, _, _| if i == f2.get() { Act::Halt(Some(err_packet(1227, None, "denied"))) } else { Act::Pass }));
            let n = by_tier(6, 8);
            env::net_start(Net::new(Box::new(s), NetPlan::default()));
            let mut c = Some(d.client());
            // Stream, and how many items it has delivered, by connection.
            let mut live: Vec<Option<(BinlogEvents, usize)>> = vec![];
            let mut acts = vec![];
            let mut problem = None;
            for _ in 0..n {
                let mut can = vec![];
                let open: Vec<usize> = (0..live.len()).filter(|i| live[*i].is_some()).collect();
                if c.is_some() && live.len() < 4 {
                    can.push(Act30::Start);
                    can.extend([Act30::Fail(0), Act30::Fail(1), Act30::Fail(steps - 1)]);
                    can.push(Act30::DropClient);
                }
                for i in &open {
                    can.push(Act30::Take(*i));
                    can.push(Act30::Drop(*i));
                }
                if can.is_empty() {
                    break;
                }
                let a = ch.of(&can);
                acts.push(a);
                ch.step(1);
                match a {
                    Act30::Start => match c.as_mut().unwrap().replicate() {
                        Ok(e) => live.push(Some((e, 0))),
                        Err(e) => problem = Some(format!("replication fails: {}", err_text(&e))),
                    },
                    Act30::Fail(k) => {
                        fail.set(k);
                        if c.as_mut().unwrap().replicate().is_ok() {
                            problem = Some("replication starts although the server refuses".into());
                        }
                        fail.set(usize::MAX);
                        live.push(None);
                    }
                    Act30::Take(i) => {
                        let s = live[i].as_mut().unwrap();
                        match s.0.next() {
                            Some(r) => {
                                let got = item(&r);
                                let want = server(|x| x.sess[i].stream.get(s.1).map(|x| x.item.clone()));
                                match want {
                                    Some(w) if same(&got, &w) => {}
                                    w => problem = Some(format!("connection {} delivers {} instead of {:?}", i, show(&got), w.map(|w| show(&w)))),
                                }
                            }
                            None => problem = Some(format!("the stream of connection {} ends", i)),
                        }
                        s.1 += 1;
                    }
                    Act30::Drop(i) => live[i] = None,
                    Act30::DropClient => c = None,
                }
                let want: Vec<bool> = live.iter().map(|l| l.is_some()).collect();
                let got = env::net(|n| open_connections(n));
                if got != want && problem.is_none() {
                    problem = Some(format!("open connections {:?} instead of {:?}", got, want));
                }
                ch.state(&(&want, c.is_some()));
                if problem.is_some() {
                    break;
                }
            }
            drop(live);
            drop(c);
            let left = env::net(|n| open_connections(n)).iter().filter(|x| **x).count();
            let net = env::net_end();
            ch.distinct(&(d.cfg.flavor, &acts));
            ch.sample(|| format!("{:?}", acts));
            if let Some(v) = &net.verdict {
                return viol(format!("{:?}: {}", acts, v));
            }
            if let Some(p) = problem {
                return viol(format!("{:?}: {}", acts, p));
            }
            ensure!(left == 0, "{:?}: {} connections are left open", acts, left);
            Ok(())
        }),
        group("files", "a reader closes its file when it is refused or dropped at any point, and not before", |ch| {
            let f = &cast()[ch.choose(cast().len())];
            let n = f.want.len();
            let k = ch.choose(n + 3);
            let (file, pipe) = Pipe::new();
            ch.distinct(&(&f.bytes, k));
            ch.state(&k);
            ch.step(k as u64);
            if k == n + 2 {
                pipe.put(b"nope");
                let r = BinlogReader::new(file);
                ensure!(r.is_err(), "a file without the magic number is read");
                ensure!(pipe.abandoned(), "a refused file stays open");
                return Ok(());
            }
            pipe.put(&f.bytes);
            let mut it = match BinlogReader::new(file) {
                Ok(r) => r.read_events(),
                Err(e) => return viol(format!("refused: {}", err(&e))),
            };
            for i in 0..k.min(n) {
                let x = it.next();
                ensure!(x.is_some(), "event {} is missing", i);
                ensure!(!pipe.abandoned(), "the file is closed behind event {}", i);
            }
            drop(it);
            ensure!(pipe.abandoned(), "the reader is dropped behind {} events and its file stays open", k);
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- C31

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Past {
    /// Left after this many items.
    Left(usize),
    /// An error packet in place of this packet of the dialogue.
    Refused(usize),
    /// The connection is reset before this byte.
    Reset(u64),
}
struct Session31 {
    open: Option<String>,
    items: Vec<Item>,
    places: Vec<Place>,
    ended: bool,
}
fn session31(c: &mut BinlogClient, max: usize, commit: bool) -> Session31 {
    let mut r = Session31 { open: None, items: vec![], places: vec![], ended: false };
    let mut ev = match c.replicate() {
        Err(e) => {
            r.open = Some(err_text(&e));
            r.places.push(place(c));
            return r;
        }
        Ok(e) => e,
    };
    r.places.push(place(c));
    while r.items.len() < max {
        match ev.next() {
            None => {
                r.ended = true;
                break;
            }
            Some(x) => {
                r.items.push(item(&x));
                match &x {
                    Ok((h, e)) if commit => c.commit(h, e),
                    _ => {}
                }
                r.places.push(place(c));
                if x.is_err() && r.items.len() > 60 {
                    break;
                }
            }
        }
    }
    r
}
fn copy(o: &mysql_cdc::replica_options::ReplicaOptions, d: &Dialogue) -> mysql_cdc::replica_options::ReplicaOptions {
    let mut n = options(&d.cfg, BinlogOptions::from_start(), o.blocking);
    n.username = o.username.clone();
    n.password = o.password.clone();
    n.database = o.database.clone();
    n.server_id = o.server_id;
    n.heartbeat_interval = o.heartbeat_interval;
    let mut b = match (&o.binlog.gtid_set, &o.binlog.gtid_list) {
        (Some(s), _) => BinlogOptions::from_mysql_gtid(my_set(&sets(s))),
        (_, Some(l)) => BinlogOptions::from_mariadb_gtid(ma_list(&l.gtids.iter().map(|g| (g.domain_id, g.server_id, g.sequence)).collect::<Vec<_>>())),
        _ => BinlogOptions::from_start(),
    };
    b.filename = o.binlog.filename.clone();
    b.position = o.binlog.position;
    b.starting_strategy = o.binlog.starting_strategy.clone();
    n.binlog = b;
    n
}
fn past(ch: &mut Ch, k: usize) -> Result<Past, Viol> {
    let n = alone(k)?.items.len();
    let mut v: Vec<Past> = (0..=n + 1).map(Past::Left).collect();
    let steps = Dialogue { cfg: stage(k).cfg, ..stage(k) }.steps()?.iter().position(|s| matches!(s, Step::Event(_))).unwrap_or(1);
    v.extend((0..steps + 2).map(Past::Refused));
    if thorough() {
        v.extend((0..900).map(Past::Reset));
    } else {
        v.extend([0u64, 3, 60, 130, 200, 260, 300, 350, 400, 450, 500, 600].map(Past::Reset));
    }
    Ok(*ch.pick(&v))
}
/// Takes the client through a session with server `k`.
fn live_through(c: &mut BinlogClient, k: usize, p: Past, commit: bool) {
    let mut s = stage_server(k);
    let mut plan = NetPlan::default();
    let mut max = 100;
    match p {
        Past::Left(n) => max = n,
        Past::Refused(n) => s.tamper = Some(Box::new(move |_, i, _, _, _| if i == n { Act::Halt(Some(err_packet(1227, Some("42000"), "denied"))) } else { Act::Pass })),
        Past::Reset(n) => plan.cut = Some((0, n, env::Cut::Reset)),
    }
    s.mute = true;
    let _ = with_server(s, plan, || {
        let mut r = 0;
        if let Ok(mut ev) = c.replicate() {
            while r < max {
                match ev.next() {
                    None => break,
                    Some(Err(_)) if r > 30 => break,
                    Some(x) => {
                        r += 1;
                        if let (true, Ok((h, e))) = (commit, &x) {
                            c.commit(h, e)
                        }
                    }
                }
            }
        }
    });
}
fn point_at(c: &mut BinlogClient, k: usize) {
    let d = stage(k);
    c.options.username = d.cfg.user.clone();
    c.options.password = d.cfg.password.clone();
}
fn like_new(ch: &mut Ch, c: &mut BinlogClient, k: usize, what: &dyn Fn() -> String) -> Res {
    let d = stage(k);
    let mut fresh = BinlogClient::new(copy(&c.options, &d));
    let (a, mut na) = with_server(stage_server(k), NetPlan::default(), || session31(&mut fresh, 100, true));
    let (b, mut nb) = with_server(stage_server(k), NetPlan::default(), || session31(c, 100, true));
    ch.sample(what);
    ch.step(2);
    ch.outcome(&(a.open.is_some(), a.items.len()));
    if let Some(v) = nb.verdict.clone().or(na.verdict.clone()) {
        return viol(format!("{}: {}", what(), v));
    }
    ensure!(a.open.is_some() == b.open.is_some(), "{}: starting yields {:?}, with a new client {:?}", what(), b.open, a.open);
    let form = |n: &Net| n.conns.iter().map(|c| super::transport::spoken(&c.sent).map(|v| v.into_iter().map(|p| if p.get(4) == Some(&0x1e) { p[..4].to_vec() } else { p }).collect::<Vec<_>>())).collect::<Vec<_>>();
    let (fa, fb) = (form(&na), form(&nb));
    ensure!(fa == fb, "{}: the client sends {:?}, a new one {:?}", what(), fb, fa);
    let (da, db) = (&na.peer::<Server>().dumps, &nb.peer::<Server>().dumps);
    ensure!(da.len() == db.len() && da.iter().zip(db).all(|(x, y)| x.from == y.from && x.flags == y.flags && x.server_id == y.server_id && x.vars == y.vars), "{}: the client requests {:?}, a new one {:?}", what(), db, da);
    msg(compare(&b.items, &a.items), what)?;
    ensure!(a.ended == b.ended, "{}: the stream ends {}, with a new client {}", what(), b.ended, a.ended);
    for i in 0..a.places.len().max(b.places.len()) {
        let (x, y) = (a.places.get(i), b.places.get(i));
        ensure!(x == y, "{}: the position behind {} items is {:?}, with a new client {:?}", what(), i, y, x);
    }
    Ok(())
}
fn c31() -> Vec<Group> {
    vec![
        group("one session before", "every session with every server, left or broken at every point, committed or not; then every server, with its own options or continuing from the client's position", |ch| {
            let k = ch.choose(STAGE);
            let p = past(ch, k)?;
            let commit = ch.flag();
            let k2 = ch.choose(BARE);
            let own = ch.flag();
            let mut c = stage(k).client();
            live_through(&mut c, k, p, commit);
            let before = place(&c);
            if own {
                c.options = stage(k2).client().options;
            } else {
                point_at(&mut c, k2);
            }
            ch.distinct(&(k, p, commit, k2, own));
            ch.state(&(k, p, commit, &before));
            like_new(ch, &mut c, k2, &|| format!("behind a session with server {} ({:?}, committed: {}), server {} ({} options)", k, p, commit, k2, if own { "new" } else { "the same" }))
        }),
        group("two sessions before", "two such sessions, each left at any point, then a third", |ch| {
            let k = ch.choose(STAGE);
            let n = alone(k)?.items.len();
            let p = Past::Left(ch.choose(n + 1));
            let k1 = ch.choose(STAGE);
            let q = past(ch, k1)?;
            let k2 = ch.choose(by_tier(STAGE, BARE));
            let mut c = stage(k).client();
            live_through(&mut c, k, p, true);
            point_at(&mut c, k1);
            live_through(&mut c, k1, q, true);
            point_at(&mut c, k2);
            ch.distinct(&(k, p, k1, q, k2));
            ch.state(&(k, p, k1, q, place(&c)));
            like_new(ch, &mut c, k2, &|| format!("behind sessions with server {} ({:?}) and {} ({:?}), server {}", k, p, k1, q, k2))
        }),
    ]
}
