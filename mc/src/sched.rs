//! A scheduler for a few threads, of which one runs at a time. A thread may be taken off at every call it makes to
//! the operating system to transfer data and, if asked for, at every allocation; the plan says where.
//!
//! A plan is a list of segment lengths: the first thread runs that many points, then the next one, and so on; behind
//! the plan each thread runs to its end. If the thread whose turn it is sleeps (it waits for another one, for a lock
//! say), the threads run freely from there on: what they deliver must be the same.
use std::cell::Cell;
use std::collections::VecDeque;
use std::sync::{Condvar, Mutex};
use std::time::Duration;

struct State {
    turn: usize,
    left: u64,
    plan: VecDeque<u64>,
    done: Vec<bool>,
    free: bool,
    points: Vec<u64>,
    ticks: u64,
    tids: Vec<i64>,
}
struct Sched {
    m: Mutex<State>,
    cv: Condvar,
    fine: bool,
}
thread_local! {
    static ME: Cell<(*const Sched, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}
const PATIENCE: Duration = Duration::from_millis(3);

/// Whether the thread sleeps, as the kernel sees it.
fn asleep(tid: i64) -> bool {
    let f = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    matches!(f.rsplit(") ").next().and_then(|x| x.chars().next()), Some('S' | 'D'))
}

impl State {
    fn next(&mut self) {
        let n = self.done.len();
        for k in 1..=n {
            let t = (self.turn + k) % n;
            if !self.done[t] {
                self.turn = t;
                break;
            }
        }
        self.left = self.plan.pop_front().unwrap_or(u64::MAX);
    }
}
impl Sched {
    fn lock(&self) -> std::sync::MutexGuard<'_, State> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// Waits for this thread's turn.
    fn wait(&self, me: usize) {
        let mut g = self.lock();
        let mut seen = (g.ticks, 0);
        while !(g.free || g.turn == me) {
            let (h, t) = self.cv.wait_timeout(g, PATIENCE).unwrap_or_else(|e| e.into_inner());
            g = h;
            if g.ticks != seen.0 {
                seen = (g.ticks, 0);
            } else if t.timed_out() && g.tids[g.turn] != 0 {
                let tid = g.tids[g.turn];
                drop(g);
                let s = asleep(tid);
                g = self.lock();
                // It was told of its turn long before: three looks in a row.
                seen.1 = if s && g.ticks == seen.0 { seen.1 + 1 } else { 0 };
                if seen.1 >= 3 {
                    g.free = true;
                    self.cv.notify_all();
                }
            }
        }
    }
    fn point(&self, me: usize) {
        {
            let mut g = self.lock();
            g.ticks += 1;
            g.points[me] += 1;
            if g.free || g.turn != me {
                return;
            }
            if g.left > 0 && g.left != u64::MAX {
                g.left -= 1;
            }
            if g.left > 0 {
                return;
            }
            g.next();
            self.cv.notify_all();
        }
        self.wait(me)
    }
    fn end(&self, me: usize) {
        let mut g = self.lock();
        g.ticks += 1;
        g.done[me] = true;
        if g.turn == me {
            g.next();
        }
        self.cv.notify_all();
    }
}
pub fn point() {
    let Ok((s, me)) = ME.try_with(|m| m.get()) else { return };
    if s.is_null() || INSIDE.with(|i| i.replace(true)) {
        return;
    }
    unsafe { (*s).point(me) };
    INSIDE.with(|i| i.set(false));
}
#[inline]
pub fn allocation() {
    if let Ok((s, _)) = ME.try_with(|m| m.get()) {
        if !s.is_null() && unsafe { (*s).fine } {
            point()
        }
    }
}
pub struct Ran<T> {
    pub results: Vec<T>,
    /// How many points each thread passed.
    pub points: Vec<u64>,
    /// The plan was given up.
    pub free: bool,
}
/// Runs the jobs on threads of their own, beginning with `first`.
pub fn run<'a, T: Send + 'a>(first: usize, plan: &[u64], fine: bool, jobs: Vec<Box<dyn FnOnce() -> T + Send + 'a>>) -> Ran<T> {
    let n = jobs.len();
    let mut p: VecDeque<u64> = plan.iter().copied().collect();
    let left = p.pop_front().unwrap_or(u64::MAX);
    let s = Sched {
        m: Mutex::new(State { turn: first, left, plan: p, done: vec![false; n], free: false, points: vec![0; n], ticks: 0, tids: vec![0; n] }),
        cv: Condvar::new(),
        fine,
    };
    let results = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .into_iter()
            .enumerate()
            .map(|(i, j)| {
                let s = &s;
                sc.spawn(move || {
                    s.lock().tids[i] = unsafe { libc::syscall(libc::SYS_gettid) };
                    s.wait(i);
                    ME.with(|m| m.set((s, i)));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j));
                    ME.with(|m| m.set((std::ptr::null(), 0)));
                    s.end(i);
                    match r {
                        Ok(x) => x,
                        Err(p) => std::panic::resume_unwind(p),
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|p| std::panic::resume_unwind(p))).collect()
    });
    let g = s.lock();
    Ran { results, points: g.points.clone(), free: g.free }
}
