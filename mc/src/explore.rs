//! Exhaustive exploration of a choice tree, and the bookkeeping every check shares.
//!
//! A check is a set of groups; a group is a body `fn(&mut Ch) -> Res` that builds one execution of the real
//! code from the choices it draws. The explorer enumerates every choice sequence (depth first, split over the
//! worker threads), so a group that finishes has run its body on every execution within its bounds.
//! `Ch::dev` draws an environment deviation: choice 0 is the default answer, everything else costs one unit of
//! the group's deviation budget, and once the budget is spent no alternatives are offered.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

static TIER_THOROUGH: AtomicBool = AtomicBool::new(false);
pub fn set_tier(t: Tier) {
    TIER_THOROUGH.store(t == Tier::Thorough, Relaxed);
}
pub fn thorough() -> bool {
    TIER_THOROUGH.load(Relaxed)
}
/// `q` in the quick tier, `t` in the thorough one.
pub fn by_tier<T>(q: T, t: T) -> T {
    if thorough() {
        t
    } else {
        q
    }
}

pub struct Viol {
    /// Identifies the failing input or history, for the known-findings file.
    pub key: Option<String>,
    pub msg: String,
}
pub type Res = Result<(), Viol>;

pub fn viol<T>(msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { key: None, msg: msg.into() })
}
pub fn viol_key<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { key: Some(key.into()), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return $crate::explore::viol(format!($($a)*)); } };
}

#[derive(Default)]
pub struct IdH(u64);
impl Hasher for IdH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i
    }
}
pub type Set64 = HashSet<u64, BuildHasherDefault<IdH>>;
const SET_CAP: usize = 3_000_000;

#[derive(Default)]
pub struct Stats {
    pub execs: u64,
    pub evals: u64,
    pub steps: u64,
    pub states: Set64,
    pub distinct: Set64,
    pub outcomes: Set64,
    pub capped: bool,
    pub max_depth: usize,
    pub samples: Vec<String>,
    pub notes: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<String, (String, u64)>,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.execs += o.execs;
        self.evals += o.evals;
        self.steps += o.steps;
        self.states.extend(o.states);
        self.distinct.extend(o.distinct);
        self.outcomes.extend(o.outcomes);
        self.capped |= o.capped;
        self.max_depth = self.max_depth.max(o.max_depth);
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s)
            }
        }
        for (k, v) in o.notes {
            *self.notes.entry(k).or_default() += v
        }
        for (k, (m, n)) in o.known {
            self.known.entry(k).or_insert((m, 0)).1 += n
        }
    }
}

pub fn h64<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub const SLOT_CHOICES: usize = 1000;
/// One per worker, in memory shared with the supervising process.
#[repr(C)]
pub struct Slot {
    pub running: AtomicU64,
    pub progress: AtomicU64,
    pub group: AtomicU64,
    pub len: AtomicU64,
    pub choices: [u32; SLOT_CHOICES],
}

pub struct Ch {
    fixed: Vec<u32>,
    pub trace: Vec<(u32, u32)>,
    budget: u32,
    pub st: Stats,
    slot: *mut Slot,
    want_samples: bool,
    pub replaying: bool,
}
impl Ch {
    fn draw(&mut self, n: usize) -> usize {
        assert!(n > 0, "choice among nothing");
        let i = self.trace.len();
        let c = if i < self.fixed.len() { self.fixed[i] } else { 0 };
        if c as usize >= n {
            std::panic::panic_any(Diverged(format!("choice {} of {} at point {}", c, n, i)));
        }
        self.trace.push((c, n as u32));
        unsafe {
            if i < SLOT_CHOICES {
                (*self.slot).choices[i] = c;
                (*self.slot).len.store(i as u64 + 1, Relaxed);
            }
        }
        c as usize
    }
    /// One of `0..n`; every alternative is explored.
    pub fn choose(&mut self, n: usize) -> usize {
        self.draw(n)
    }
    pub fn flag(&mut self) -> bool {
        self.draw(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.draw(xs.len())]
    }
    pub fn of<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.draw(xs.len())]
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.draw((hi_incl - lo + 1) as usize) as u64
    }
    /// Environment deviation: 0 is the default answer, anything else spends budget.
    pub fn dev(&mut self, n: usize) -> usize {
        let c = self.draw(if self.budget == 0 { 1 } else { n });
        if c != 0 {
            self.budget -= 1;
        }
        c
    }
    pub fn budget_left(&self) -> u32 {
        self.budget
    }
    /// The input or history of this execution, for the count of distinct non-trivial cases.
    pub fn distinct<T: std::hash::Hash + ?Sized>(&mut self, t: &T) {
        if self.st.distinct.len() < SET_CAP {
            self.st.distinct.insert(h64(t));
        } else {
            self.st.capped = true
        }
    }
    pub fn state<T: std::hash::Hash + ?Sized>(&mut self, t: &T) {
        if self.st.states.len() < SET_CAP {
            self.st.states.insert(h64(t));
        } else {
            self.st.capped = true
        }
    }
    pub fn outcome<T: std::hash::Hash + ?Sized>(&mut self, t: &T) {
        if self.st.outcomes.len() < SET_CAP {
            self.st.outcomes.insert(h64(t));
        }
    }
    pub fn step(&mut self, k: u64) {
        self.st.steps += k
    }
    /// Evaluations made by a loop inside the body, beyond the one per execution.
    pub fn evals(&mut self, k: u64) {
        self.st.evals += k;
        self.tick();
    }
    pub fn note(&mut self, k: &'static str, n: u64) {
        *self.st.notes.entry(k).or_default() += n
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_samples && self.st.samples.len() < 3 {
            let mut s = f();
            if s.len() > 900 {
                let mut k = 900;
                while !s.is_char_boundary(k) {
                    k -= 1
                }
                s.truncate(k);
                s.push_str("...")
            }
            self.st.samples.push(s)
        }
    }
    pub fn tick(&self) {
        unsafe { (*self.slot).progress.fetch_add(1, Relaxed) };
    }
    /// A known finding met inside a loop that goes on.
    pub fn known(&mut self, v: Viol) -> Res {
        match &v.key {
            Some(k) if is_known(k) => {
                let k = k.clone();
                let e = self.st.known.entry(k).or_insert((v.msg.clone(), 0));
                e.1 += 1;
                Ok(())
            }
            _ => Err(v),
        }
    }
}
pub struct Diverged(pub String);

static KNOWN: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub fn set_known(k: Vec<String>) {
    *KNOWN.lock().unwrap() = k;
}
fn is_known(k: &str) -> bool {
    KNOWN.lock().unwrap().iter().any(|x| x == k)
}

pub struct Group {
    pub name: &'static str,
    pub what: &'static str,
    pub dev: u32,
    /// One worker only: the code under test is used by nothing but the execution in progress.
    pub solo: bool,
    pub body: Box<dyn Fn(&mut Ch) -> Res + Sync + Send>,
}
pub fn group(name: &'static str, what: &'static str, body: impl Fn(&mut Ch) -> Res + Sync + Send + 'static) -> Group {
    Group { name, what, dev: 0, solo: false, body: Box::new(body) }
}
pub fn group_dev(name: &'static str, what: &'static str, dev: u32, body: impl Fn(&mut Ch) -> Res + Sync + Send + 'static) -> Group {
    Group { name, what, dev, solo: false, body: Box::new(body) }
}
pub fn group_solo(name: &'static str, what: &'static str, body: impl Fn(&mut Ch) -> Res + Sync + Send + 'static) -> Group {
    Group { name, what, dev: 0, solo: true, body: Box::new(body) }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-text panic>".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}
pub fn last_panic() -> String {
    let (m, l) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
    format!("panic at {}: {}", l, m)
}
pub enum Caught {
    /// The code under test panicked.
    Panic(String),
    /// The harness itself is broken.
    Engine(String),
}
/// Runs `f`; a panic raised by the code under test comes back as text.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(p) => {
            if let Some(d) = p.downcast_ref::<Diverged>() {
                return Err(Caught::Engine(format!("replay diverged: {}", d.0)));
            }
            let (msg, loc) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") {
                Err(Caught::Engine(format!("harness panic at {}: {}", loc, msg)))
            } else {
                Err(Caught::Panic(format!("panic at {}: {}", loc, msg)))
            }
        }
    }
}

pub enum Verdict {
    Held,
    Violated { choices: Vec<u32>, msg: String },
    Engine(String),
}
pub struct GroupResult {
    pub verdict: Verdict,
    pub stats: Stats,
    pub exhaustive: bool,
    pub wall: f64,
}

enum One {
    Ok,
    Viol(Viol),
    Engine(String),
}
fn run_one(g: &Group, gi: usize, ch: &mut Ch, fixed: Vec<u32>) -> One {
    ch.fixed = fixed;
    ch.trace.clear();
    ch.budget = g.dev;
    unsafe {
        (*ch.slot).group.store(gi as u64, Relaxed);
        (*ch.slot).len.store(0, Relaxed);
        (*ch.slot).progress.fetch_add(1, Relaxed);
        (*ch.slot).running.store(1, SeqCst);
    }
    crate::alloc::reset_live();
    let r = catch(|| (g.body)(ch));
    unsafe { (*ch.slot).running.store(0, SeqCst) };
    crate::env::deactivate();
    if let Some(m) = crate::env::take_engine() {
        return One::Engine(format!("harness failure inside an intercepted call: {}", m));
    }
    ch.st.execs += 1;
    ch.st.max_depth = ch.st.max_depth.max(ch.trace.len());
    if ch.trace.len() < ch.fixed.len() {
        return One::Engine(format!("execution drew {} choices, {} were given", ch.trace.len(), ch.fixed.len()));
    }
    let v = match r {
        Ok(Ok(())) => return One::Ok,
        Ok(Err(v)) => v,
        Err(Caught::Panic(m)) => Viol { key: None, msg: m },
        Err(Caught::Engine(m)) => return One::Engine(m),
    };
    match ch.known(v) {
        Ok(()) => One::Ok,
        Err(v) => One::Viol(v),
    }
}

fn new_ch(slot: *mut Slot) -> Ch {
    Ch { fixed: vec![], trace: vec![], budget: 0, st: Stats::default(), slot, want_samples: false, replaying: false }
}

/// Runs one execution on its own.
pub fn replay(g: &Group, gi: usize, choices: &[u32], slot: *mut Slot) -> Verdict {
    let mut ch = new_ch(slot);
    ch.replaying = true;
    match run_one(g, gi, &mut ch, choices.to_vec()) {
        One::Ok => Verdict::Held,
        One::Viol(v) => Verdict::Violated { choices: choices.to_vec(), msg: v.msg },
        One::Engine(m) => Verdict::Engine(m),
    }
}

struct SendPtr(*mut Slot);
unsafe impl Send for SendPtr {}
unsafe impl Sync for SendPtr {}

pub fn explore(g: &Group, gi: usize, slots: *mut Slot, threads: usize, deadline: Instant) -> GroupResult {
    let t0 = Instant::now();
    let threads = if g.solo { 1 } else { threads };
    // Split the tree into at least `want` subtrees, each identified by the choices leading to it.
    let want = threads * 24;
    let mut queue: std::collections::VecDeque<Vec<u32>> = vec![vec![]].into();
    let mut items: Vec<Vec<u32>> = vec![];
    let mut total = Stats::default();
    while let Some(p) = queue.pop_front() {
        if queue.len() + items.len() + 1 >= want {
            items.push(p);
            items.extend(queue.drain(..));
            break;
        }
        let plen = p.len();
        let mut dry = new_ch(slots);
        dry.want_samples = total.samples.len() < 3;
        match run_one(g, gi, &mut dry, p.clone()) {
            One::Engine(m) => {
                return GroupResult { verdict: Verdict::Engine(m), stats: total, exhaustive: false, wall: t0.elapsed().as_secs_f64() }
            }
            One::Viol(v) => {
                total.merge(dry.st);
                let choices = dry.trace.iter().map(|x| x.0).collect();
                return GroupResult { verdict: Verdict::Violated { choices, msg: v.msg }, stats: total, exhaustive: false, wall: t0.elapsed().as_secs_f64() };
            }
            One::Ok => {}
        }
        match (plen..dry.trace.len()).find(|&i| dry.trace[i].1 > 1) {
            None => {
                // A single execution: it has just been run.
                total.merge(dry.st)
            }
            Some(i) => {
                let base: Vec<u32> = dry.trace[..i].iter().map(|x| x.0).collect();
                for k in 0..dry.trace[i].1 {
                    let mut q = base.clone();
                    q.push(k);
                    queue.push_back(q);
                }
            }
        }
    }
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let timed_out = AtomicBool::new(false);
    let found: Mutex<Vec<(Vec<u32>, String)>> = Mutex::new(vec![]);
    let engine: Mutex<Option<String>> = Mutex::new(None);
    let merged: Mutex<Stats> = Mutex::new(total);
    std::thread::scope(|s| {
        for t in 0..threads {
            let slot = SendPtr(unsafe { slots.add(t) });
            let (next, stop, timed_out, found, engine, merged, items) = (&next, &stop, &timed_out, &found, &engine, &merged, &items);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let slot = slot;
                    let mut ch = new_ch(slot.0);
                    'items: while !stop.load(Relaxed) {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= items.len() {
                            break;
                        }
                        ch.want_samples = i % 7 == 0;
                        let p = items[i].len();
                        let mut fixed = items[i].clone();
                        let mut prev: Vec<(u32, u32)> = vec![];
                        let mut k = 0u64;
                        loop {
                            let flen = fixed.len();
                            match run_one(g, gi, &mut ch, fixed) {
                                One::Ok => {}
                                One::Viol(v) => {
                                    found.lock().unwrap().push((ch.trace.iter().map(|x| x.0).collect(), v.msg));
                                    stop.store(true, Relaxed);
                                    break 'items;
                                }
                                One::Engine(m) => {
                                    *engine.lock().unwrap() = Some(m);
                                    stop.store(true, Relaxed);
                                    break 'items;
                                }
                            }
                            // The same prefix must offer the same choices again.
                            if !prev.is_empty() {
                                for j in 0..flen {
                                    if ch.trace[j].1 != prev[j].1 {
                                        *engine.lock().unwrap() = Some(format!("nondeterministic harness: {} alternatives became {} at point {}", prev[j].1, ch.trace[j].1, j));
                                        stop.store(true, Relaxed);
                                        break 'items;
                                    }
                                }
                            }
                            let mut j = ch.trace.len();
                            let nxt = loop {
                                if j <= p {
                                    break None;
                                }
                                j -= 1;
                                if ch.trace[j].0 + 1 < ch.trace[j].1 {
                                    let mut f: Vec<u32> = ch.trace[..j].iter().map(|x| x.0).collect();
                                    f.push(ch.trace[j].0 + 1);
                                    break Some(f);
                                }
                            };
                            match nxt {
                                None => continue 'items,
                                Some(f) => {
                                    std::mem::swap(&mut prev, &mut ch.trace);
                                    fixed = f
                                }
                            }
                            k += 1;
                            if k % 64 == 0 && (stop.load(Relaxed) || Instant::now() > deadline) {
                                if !stop.load(Relaxed) {
                                    timed_out.store(true, Relaxed);
                                }
                                break 'items;
                            }
                        }
                    }
                    merged.lock().unwrap().merge(std::mem::take(&mut ch.st));
                })
                .expect("worker thread");
        }
    });
    let mut found = found.into_inner().unwrap();
    found.sort_by(|a, b| (a.0.len(), &a.0).cmp(&(b.0.len(), &b.0)));
    let engine = engine.into_inner().unwrap();
    let exhaustive = !timed_out.load(Relaxed) && found.is_empty() && engine.is_none();
    let verdict = if let Some((choices, msg)) = found.into_iter().next() {
        Verdict::Violated { choices, msg }
    } else if let Some(m) = engine {
        Verdict::Engine(m)
    } else {
        Verdict::Held
    };
    GroupResult { verdict, stats: merged.into_inner().unwrap(), exhaustive, wall: t0.elapsed().as_secs_f64() }
}

pub fn fmt_choices(c: &[u32]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}
