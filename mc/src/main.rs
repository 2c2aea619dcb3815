//! Model checker for mysql_cdc: `mc check <ID> [--tier quick|thorough]`, `mc replay <file>`, `mc list`.
mod alloc;
mod env;
#[macro_use]
mod explore;
mod obs;
mod props;
mod sched;
mod server;
mod wire;

use explore::*;
use std::fmt::Write as _;
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

pub struct Check {
    pub id: &'static str,
    /// `model_checking`, `exploration` or `fault_enumeration`.
    pub level: &'static str,
    /// How cases are made and what makes one distinct and non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub groups: fn() -> Vec<Group>,
}

const THREADS: usize = 8;
const STALL: Duration = Duration::from_secs(30);

fn verif() -> std::path::PathBuf {
    std::env::var_os("MC_VERIF").map(Into::into).unwrap_or_else(|| "/verif".into())
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn slots() -> *mut Slot {
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Slot>() * THREADS, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0)
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut Slot
}

fn known_findings(id: &str) -> Vec<String> {
    let path = verif().join("known_findings.txt");
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        if let Some(r) = l.trim().strip_prefix("KNOWN ") {
            let mut prop = "";
            let mut key = "";
            for w in r.split_whitespace() {
                if let Some(x) = w.strip_prefix("property=") {
                    prop = x
                } else if let Some(x) = w.strip_prefix("key=") {
                    key = x
                }
            }
            if prop == id && !key.is_empty() {
                v.push(key.to_string())
            }
        }
    }
    v
}

struct Totals {
    execs: u64,
    evals: u64,
    steps: u64,
    states: u64,
    distinct: u64,
    outcomes: u64,
    capped: bool,
    exhaustive: bool,
    max_depth: usize,
    samples: Vec<String>,
    known: Vec<(String, String, u64)>,
    per_group: String,
}

fn write_evidence(c: &Check, tier: Tier, t: &Totals, wall: f64, violations: u64) {
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n",
        js(c.id),
        if tier == Tier::Quick { "quick" } else { "thorough" },
        seed,
        js(c.level)
    );
    let evals = t.execs + t.evals;
    if c.level == "model_checking" {
        let _ = write!(o, "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n", t.states, t.steps, evals);
        let _ = write!(o, "  \"distinct_histories\": {},\n  \"distinct_outcomes\": {},\n", t.distinct, t.outcomes);
    } else {
        let _ = write!(o, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", evals, t.distinct);
        let _ = write!(o, "  \"distinct_outcomes\": {},\n", t.outcomes);
    }
    let _ = write!(o, "  \"executions_of_the_real_code\": {},\n  \"max_choice_depth\": {},\n", t.execs, t.max_depth);
    if t.capped {
        let _ = write!(o, "  \"distinct_counts_are_lower_bounds\": true,\n");
    }
    let _ = write!(o, "  \"exhaustive\": {},\n  \"rule\": {},\n", t.exhaustive, js(c.rule));
    let _ = write!(o, "  \"groups\": [\n{}\n  ],\n", t.per_group);
    let _ = write!(o, "  \"known_findings_met\": {},\n", t.known.iter().map(|k| k.2).sum::<u64>());
    let s: Vec<String> = t.samples.iter().map(|s| format!("   {}", js(s))).collect();
    let _ = write!(o, "  \"samples\": [\n{}\n  ]\n }},\n", s.join(",\n"));
    let a: Vec<String> = c.assumptions.iter().map(|s| format!("  {}", js(s))).collect();
    let _ = write!(o, " \"assumptions\": [\n{}\n ],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", a.join(",\n"), wall, violations);
    let p = dir.join(format!("{}.json", c.id));
    let tmp = dir.join(format!("{}.json.tmp", c.id));
    std::fs::write(&tmp, o).expect("evidence");
    std::fs::rename(&tmp, &p).expect("evidence");
}

fn write_replay(c: &Check, tier: Tier, g: &Group, choices: &[u32], msg: &str) -> String {
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}.replay", c.id));
    let text = format!(
        "property {}\ntier {}\ngroup {}\nchoices {}\n# {}\n# re-run: /verif/check.sh replay {}\n",
        c.id,
        if tier == Tier::Quick { "quick" } else { "thorough" },
        g.name,
        fmt_choices(choices),
        msg.replace('\n', "\n# "),
        p.display()
    );
    std::fs::write(&p, text).expect("replay file");
    p.display().to_string()
}

fn violation(c: &Check, tier: Tier, g: &Group, choices: &[u32], msg: &str, mut t: Totals, wall: f64) -> ! {
    let p = write_replay(c, tier, g, choices, msg);
    t.exhaustive = false;
    if t.samples.is_empty() {
        t.samples.push(msg.to_string());
    }
    write_evidence(c, tier, &t, wall, 1);
    println!("group {}: choices [{}]\n{}", g.name, fmt_choices(choices), msg);
    println!("VIOLATION property={} replay={}", c.id, p);
    std::process::exit(1)
}

fn totals() -> Totals {
    Totals { execs: 0, evals: 0, steps: 0, states: 0, distinct: 0, outcomes: 0, capped: false, exhaustive: true, max_depth: 0, samples: vec![], known: vec![], per_group: String::new() }
}

/// The exploring process. Exits 0, 1 (after reporting) or 3.
fn run_check(c: &Check, tier: Tier, slots: *mut Slot, only: Option<&str>) -> ! {
    let t0 = Instant::now();
    let total_time = Duration::from_secs(if tier == Tier::Quick { 240 } else { 780 });
    let mut groups = (c.groups)();
    if let Some(o) = only {
        groups.retain(|g| g.name == o);
    }
    let mut t = totals();
    let mut states = Set64::default();
    let mut distinct = Set64::default();
    let mut outcomes = Set64::default();
    let ng = groups.len();
    for (gi, g) in groups.iter().enumerate() {
        let left = total_time.saturating_sub(t0.elapsed());
        let deadline = Instant::now() + left / (ng - gi) as u32;
        let r = explore(g, gi, slots, THREADS, deadline);
        let s = r.stats;
        t.execs += s.execs;
        t.evals += s.evals;
        t.steps += s.steps;
        t.capped |= s.capped;
        t.exhaustive &= r.exhaustive;
        t.max_depth = t.max_depth.max(s.max_depth);
        let salt = gi as u64;
        let (d, st, oc) = (s.distinct.len(), s.states.len(), s.outcomes.len());
        states.extend(s.states);
        distinct.extend(s.distinct.iter().map(|x| x ^ salt.wrapping_mul(0x9E3779B97F4A7C15)));
        outcomes.extend(s.outcomes);
        t.states = states.len() as u64;
        t.distinct = distinct.len() as u64;
        t.outcomes = outcomes.len() as u64;
        for x in s.samples {
            if t.samples.len() < 12 {
                t.samples.push(format!("[{}] {}", g.name, x))
            }
        }
        for (k, (m, n)) in s.known {
            match t.known.iter_mut().find(|x| x.0 == k) {
                Some(x) => x.2 += n,
                None => t.known.push((k, m, n)),
            }
        }
        if !t.per_group.is_empty() {
            t.per_group.push_str(",\n");
        }
        let notes: Vec<String> = s.notes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
        let _ = write!(
            t.per_group,
            "   {{\"name\": {}, \"what\": {}, \"executions\": {}, \"evaluations\": {}, \"distinct\": {}, \"states\": {}, \"steps\": {}, \"outcomes\": {}, \"deviation_budget\": {}, \"exhaustive\": {}, \"wall_s\": {:.2}{}{}}}",
            js(g.name), js(g.what), s.execs, s.execs + s.evals, d, st, s.steps, oc, g.dev, r.exhaustive, r.wall,
            if notes.is_empty() { "" } else { ", " },
            notes.join(", ")
        );
        println!(
            "{} {}: {} executions, {} evaluations, {} distinct, {} states, {} outcomes, {}{:.2} s",
            c.id, g.name, s.execs, s.execs + s.evals, d, st, oc,
            if r.exhaustive { "" } else { "NOT exhaustive, " },
            r.wall
        );
        match r.verdict {
            Verdict::Held => {}
            Verdict::Engine(m) => {
                println!("ERROR of the check, not a verdict: group {}: {}", g.name, m);
                std::process::exit(3)
            }
            Verdict::Violated { choices, msg } => {
                // Only what happens again counts.
                for _ in 0..2 {
                    match replay(g, gi, &choices, slots) {
                        Verdict::Violated { .. } => {}
                        Verdict::Held if g.solo => {
                            // Nothing else runs: what came before in this process is what makes the difference.
                            let msg = format!("{} (not again on its own: it depends on what the process did before)", msg);
                            violation(c, tier, g, &choices, &msg, t, t0.elapsed().as_secs_f64())
                        }
                        Verdict::Held => {
                            println!("ERROR of the check, not a verdict: group {}: not reproducible: [{}] {}", g.name, fmt_choices(&choices), msg);
                            std::process::exit(3)
                        }
                        Verdict::Engine(m) => {
                            println!("ERROR of the check, not a verdict: group {}: {}", g.name, m);
                            std::process::exit(3)
                        }
                    }
                }
                violation(c, tier, g, &choices, &msg, t, t0.elapsed().as_secs_f64())
            }
        }
    }
    for (k, m, n) in &t.known {
        println!("KNOWN-FINDING: property={} {} ({} cases; {})", c.id, k, n, m.replace('\n', " "));
    }
    write_evidence(c, tier, &t, t0.elapsed().as_secs_f64(), 0);
    println!("{}: held; {} evaluations, exhaustive={}, {:.1} s", c.id, t.execs + t.evals, t.exhaustive, t0.elapsed().as_secs_f64());
    std::process::exit(0)
}

fn flush() {
    use std::io::Write;
    let _ = std::io::stdout().flush();
}
fn fork_run(f: impl FnOnce()) -> i32 {
    flush();
    let p = unsafe { libc::fork() };
    assert!(p >= 0, "fork");
    if p == 0 {
        unsafe {
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        }
        f();
        std::process::exit(0);
    }
    p
}
enum End {
    Exit(i32),
    Signal(i32),
}
fn decode(st: i32) -> End {
    if libc::WIFEXITED(st) {
        End::Exit(libc::WEXITSTATUS(st))
    } else {
        End::Signal(libc::WTERMSIG(st))
    }
}
/// Waits at most `t`.
fn wait_for(p: i32, t: Duration) -> Option<End> {
    let t0 = Instant::now();
    loop {
        let mut st = 0;
        let r = unsafe { libc::waitpid(p, &mut st, libc::WNOHANG) };
        if r == p {
            return Some(decode(st));
        }
        if t0.elapsed() > t {
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}
fn kill(p: i32) {
    unsafe {
        libc::kill(p, libc::SIGKILL);
        let mut st = 0;
        libc::waitpid(p, &mut st, 0);
    }
}

/// Runs the check in a child and watches it; a crash or a stall is attributed to the execution in progress and
/// counts only if that execution alone does it again in a fresh process.
fn supervise(c: &Check, tier: Tier, only: Option<&str>) -> ! {
    let t0 = Instant::now();
    let slots = slots();
    let child = fork_run(|| run_check(c, tier, slots, only));
    let mut last = [(0u64, 0u64); THREADS];
    let mut since = [Instant::now(); THREADS];
    let mut suspects: Vec<usize> = vec![];
    let how;
    'watch: loop {
        match wait_for(child, Duration::from_millis(100)) {
            Some(End::Exit(code)) => std::process::exit(code),
            Some(End::Signal(s)) => {
                how = format!("the process was ended by signal {}", s);
                suspects.extend((0..THREADS).filter(|&i| unsafe { (*slots.add(i)).running.load(SeqCst) == 1 }));
                break 'watch;
            }
            None => {}
        }
        for i in 0..THREADS {
            let s = unsafe { &*slots.add(i) };
            let now = (s.running.load(SeqCst), s.progress.load(Relaxed));
            if now != last[i] || now.0 == 0 {
                last[i] = now;
                since[i] = Instant::now();
            } else if since[i].elapsed() > STALL {
                suspects.push(i);
            }
        }
        if !suspects.is_empty() {
            how = format!("no progress for {} s", STALL.as_secs());
            kill(child);
            break 'watch;
        }
    }
    let mut groups = (c.groups)();
    if let Some(o) = only {
        groups.retain(|g| g.name == o);
    }
    let cases: Vec<(usize, Vec<u32>)> = suspects
        .iter()
        .map(|&i| {
            let s = unsafe { &*slots.add(i) };
            let n = (s.len.load(Relaxed) as usize).min(SLOT_CHOICES);
            (s.group.load(Relaxed) as usize, s.choices[..n].to_vec())
        })
        .collect();
    for (gi, choices) in cases {
        let g = &groups[gi];
        let p = fork_run(|| {
            let code = match replay(g, gi, &choices, slots) {
                Verdict::Held => 0,
                Verdict::Violated { msg, .. } => {
                    println!("{}", msg);
                    1
                }
                Verdict::Engine(m) => {
                    println!("ERROR of the check, not a verdict: group {}: {}", g.name, m);
                    3
                }
            };
            flush();
            std::process::exit(code)
        });
        let msg = match wait_for(p, STALL) {
            None => {
                kill(p);
                format!("this execution does not end within {} s", STALL.as_secs())
            }
            Some(End::Signal(s)) => format!("this execution ends the process with signal {} ({})", s, if s == 6 { "abort: allocation refused, or a panic that cannot unwind" } else if s == 11 { "segmentation fault or stack overflow" } else { "killed" }),
            Some(End::Exit(1)) => "this execution violates the property (see above)".to_string(),
            Some(End::Exit(0)) => continue,
            Some(End::Exit(n)) => std::process::exit(n),
        };
        let mut t = totals();
        t.execs = 1;
        t.distinct = 1;
        t.states = 1;
        violation(c, tier, g, &choices, &msg, t, t0.elapsed().as_secs_f64())
    }
    println!("ERROR of the check, not a verdict: {} and no execution does that on its own", how);
    std::process::exit(3)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    install_hook();
    let checks = props::all();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    if let Some(i) = args.iter().position(|a| a == "--tier") {
        tier = if args.get(i + 1).map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    }
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for c in checks {
                println!("{} {}", c.id, c.level)
            }
        }
        Some("check") => {
            let id = args.get(1).expect("property id");
            let c = checks.iter().find(|c| c.id == id).unwrap_or_else(|| {
                println!("unknown property {}", id);
                std::process::exit(2)
            });
            set_tier(tier);
            set_known(known_findings(id));
            let only = args.iter().position(|a| a == "--group").map(|i| args[i + 1].clone());
            supervise(c, tier, only.as_deref())
        }
        Some("replay") => {
            let text = std::fs::read_to_string(args.get(1).expect("replay file")).expect("replay file");
            let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string()).unwrap_or_default();
            set_tier(if get("tier ") == "thorough" { Tier::Thorough } else { Tier::Quick });
            let id = get("property ");
            let c = checks.iter().find(|c| c.id == id).expect("property of the replay file");
            set_known(known_findings(&id));
            let groups = (c.groups)();
            let gi = groups.iter().position(|g| g.name == get("group ")).expect("group of the replay file");
            let choices: Vec<u32> = get("choices").split_whitespace().map(|x| x.parse().expect("choice")).collect();
            match replay(&groups[gi], gi, &choices, slots()) {
                Verdict::Held => println!("held"),
                Verdict::Violated { msg, .. } => {
                    println!("{}\nVIOLATION property={} replay={}", msg, id, args[1]);
                    std::process::exit(1)
                }
                Verdict::Engine(m) => {
                    println!("ERROR of the check, not a verdict: {}", m);
                    std::process::exit(3)
                }
            }
        }
        _ => {
            println!("usage: mc check <ID> [--tier quick|thorough] [--group NAME] | mc replay <file> | mc list");
            std::process::exit(2)
        }
    }
}
