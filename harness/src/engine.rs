//! Case generation, execution, shrinking and replay. One process runs many cases of one property;
//! the driver (../check.py) starts the processes and judges how they end.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use crate::breed::{Dice, Grammar};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Nothing is instrumented where the interpreter watches; it stops the case itself.
#[cfg(miri)]
mod stand_in {
    pub unsafe fn vt_fuel_set(_: i64) {}
    pub unsafe fn vt_fuel_get() -> i64 {
        i64::MAX
    }
    pub unsafe fn vt_edges_covered() -> u32 {
        0
    }
    pub unsafe fn vt_edges_total() -> u32 {
        0
    }
    pub unsafe fn vt_edges_spent() -> i64 {
        0
    }
    pub unsafe fn vt_edges_seen() -> u32 {
        0
    }
    pub unsafe fn vt_case_begin() {}
    pub unsafe fn vt_case_new() -> u32 {
        0
    }
}
#[cfg(miri)]
use stand_in::*;

#[cfg(not(miri))]
extern "C" {
    fn vt_fuel_set(f: i64);
    fn vt_fuel_get() -> i64;
    fn vt_edges_spent() -> i64;
    fn vt_edges_covered() -> u32;
    fn vt_edges_total() -> u32;
    fn vt_edges_seen() -> u32;
    fn vt_case_begin();
    fn vt_case_new() -> u32;
}

pub type R<T = ()> = Result<T, String>;

thread_local! {
    static SCALE: Cell<i64> = Cell::new(1);
    static QUIET: Cell<bool> = Cell::new(false);
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Allow the current thread this many more instrumented edges before the case counts as not terminating.
pub fn fuel(n: i64) {
    unsafe { vt_fuel_set(n.saturating_mul(SCALE.with(|s| s.get()))) }
}
pub fn fuel_left() -> i64 {
    unsafe { vt_fuel_get() }
}

/// Edges executed by the current thread since `mark`.
pub struct Meter(i64);
impl Meter {
    pub fn start() -> Meter {
        Meter(fuel_left())
    }
    pub fn used(&self) -> i64 {
        self.0 - fuel_left()
    }
}

/// Run something that is expected to panic (or may), quietly.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if !QUIET.try_with(|q| q.get()).unwrap_or(true) {
            eprintln!("harness panic: {} at {}", msg, loc);
        }
        let _ = LAST_PANIC.try_with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                *l = format!("{} at {}", msg, loc);
            }
        });
    }));
}

/// What a case did, for the evidence.
#[derive(Default)]
pub struct Stats {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    pub counters: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
}
impl Stats {
    pub fn class(&mut self, c: &'static str) {
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }
    pub fn class_if(&mut self, cond: bool, c: &'static str) {
        if cond {
            self.class(c)
        }
    }
    pub fn add(&mut self, c: &'static str, n: u64) {
        *self.counters.entry(c).or_insert(0) += n;
    }
    pub fn max(&mut self, c: &'static str, n: u64) {
        let e = self.maxima.entry(c).or_insert(0);
        *e = (*e).max(n);
    }
}

pub trait Prop {
    const ID: &'static str;
    /// Whether running out of edges breaks the property (otherwise the case is inconclusive).
    const FUEL_IS_VIOLATION: bool = true;
    type Case: Serialize + DeserializeOwned + Debug + Clone;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    fn run(case: &Self::Case, st: &mut Stats) -> R;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

fn case_rng(seed: u64, id: &str, index: u64) -> TestRng {
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    for (i, b) in id.bytes().take(8).enumerate() {
        s[8 + i] = b;
    }
    s[16..24].copy_from_slice(&index.to_le_bytes());
    s[24..].copy_from_slice(b"palmtree");
    TestRng::from_seed(RngAlgorithm::ChaCha, &s)
}

fn tree_for<P: Prop>(seed: u64, tier: Tier, index: u64) -> Box<dyn ValueTree<Value = P::Case>> {
    let mut runner = TestRunner::new_with_rng(Config::default(), case_rng(seed, P::ID, index));
    P::strategy(tier).new_tree(&mut runner).expect("strategy without filters")
}

/// Outcome of one case run in this process.
fn run_one<P: Prop>(case: &P::Case, st: &mut Stats) -> R {
    fuel(60_000_000);
    let r = match catch(|| P::run(case, st)) {
        Ok(r) => r,
        Err(p) => Err(format!("unexpected panic: {}", p)),
    };
    unsafe { vt_fuel_set(i64::MAX) };
    r
}

#[derive(Serialize, Deserialize)]
struct WorkOut {
    id: String,
    evaluations: u64,
    nontrivial: u64,
    inconclusive: u64,
    classes: BTreeMap<String, u64>,
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    edges_covered: u32,
    edges_total: u32,
    failed: Option<(u64, String)>,
    stopped_early: bool,
    #[serde(default)]
    kept: u64,
}

impl WorkOut {
    fn new(id: &str) -> WorkOut {
        WorkOut {
            id: id.into(),
            evaluations: 0,
            nontrivial: 0,
            inconclusive: 0,
            classes: Default::default(),
            counters: Default::default(),
            maxima: Default::default(),
            samples: vec![],
            edges_covered: 0,
            edges_total: 0,
            failed: None,
            stopped_early: false,
            kept: 0,
        }
    }
    fn count<X: Serialize>(&mut self, st: &Stats, seen: &mut HashSet<u64>, case: &X) {
        self.evaluations += 1;
        for c in &st.classes {
            *self.classes.entry(c.to_string()).or_insert(0) += 1;
        }
        for (k, v) in &st.counters {
            *self.counters.entry(k.to_string()).or_insert(0) += v;
        }
        for (k, v) in &st.maxima {
            let e = self.maxima.entry(k.to_string()).or_insert(0);
            *e = (*e).max(*v);
        }
        if st.nontrivial {
            let js = serde_json::to_string(case).unwrap();
            if seen.insert(fnv(js.as_bytes())) && self.samples.len() < 2 && js.len() < 3000 {
                self.samples.push(serde_json::to_value(case).unwrap());
            }
        }
    }
    fn write(&mut self, path: &str, seen: &HashSet<u64>) -> i32 {
        self.nontrivial = seen.len() as u64;
        std::fs::write(path, serde_json::to_string(self).unwrap()).unwrap();
        let mut hs: Vec<u8> = Vec::with_capacity(seen.len() * 8);
        for h in seen {
            hs.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(format!("{}.hashes", path), hs).unwrap();
        self.failed.is_some() as i32
    }
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub profile: String,
    pub message: String,
    /// Cases to run one after another; the last one fails.
    pub cases: Vec<serde_json::Value>,
}

struct Args(BTreeMap<String, String>);
impl Args {
    fn get(&self, k: &str) -> &str {
        self.0.get(k).unwrap_or_else(|| panic!("missing --{}", k))
    }
    fn num(&self, k: &str) -> u64 {
        self.get(k).parse().unwrap()
    }
    fn opt(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).map(|v| v.parse().unwrap()).unwrap_or(d)
    }
}

fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

#[cfg(miri)]
fn limit_memory() {}

#[cfg(not(miri))]
fn limit_memory() {
    unsafe {
        let gb = 6u64 << 30;
        let r = libc::rlimit { rlim_cur: gb, rlim_max: gb };
        if std::env::var_os("VT_NO_RLIMIT").is_none() {
            libc::setrlimit(libc::RLIMIT_AS, &r);
        }
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

pub fn main<P: Prop>() {
    let mut av = std::env::args().skip(1);
    let mode = av.next().unwrap_or_default();
    let mut m = BTreeMap::new();
    while let Some(k) = av.next() {
        let v = av.next().unwrap_or_default();
        m.insert(k.trim_start_matches("--").to_string(), v);
    }
    let a = Args(m);
    let tier = if a.0.get("tier").map(|t| t == "thorough").unwrap_or(false) { Tier::Thorough } else { Tier::Quick };
    SCALE.with(|s| s.set(a.opt("fuel-scale", 1) as i64));
    limit_memory();
    install_hook();
    // A roomy stack: deep trees are dropped recursively, and the amount must not depend on the caller's limits.
    let h = std::thread::Builder::new()
        .stack_size(if cfg!(miri) { 1 << 20 } else { 64 << 20 })
        .spawn(move || {
            SCALE.with(|s| s.set(a.opt("fuel-scale", 1) as i64));
            match mode.as_str() {
                "work" => work::<P>(&a, tier),
                "hunt" => hunt::<P>(&a, tier),
                "pick" => pick::<P>(&a, tier),
                "list" => list::<P>(&a),
                "shrink" => shrink::<P>(&a, tier),
                "replay" => replay::<P>(&a),
                "show" => {
                    let c = tree_for::<P>(a.num("seed"), tier, a.num("index")).current();
                    println!("{}", serde_json::to_string(&c).unwrap());
                    0
                }
                _ => {
                    eprintln!("modes: work hunt pick list shrink replay show");
                    2
                }
            }
        })
        .unwrap();
    let code = h.join().unwrap_or(2);
    std::io::stdout().flush().ok();
    // No destructors of the harness matter from here on.
    #[cfg(miri)]
    std::process::exit(code);
    #[cfg(not(miri))]
    unsafe { libc::_exit(code) }
}

/// Run cases from, from+step, ... below to.
fn work<P: Prop>(a: &Args, tier: Tier) -> i32 {
    let (seed, from, to, step) = (a.num("seed"), a.num("from"), a.num("to"), a.num("step"));
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(a.opt("wall", 86400));
    let progress = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(a.get("progress")).unwrap();
    let mut out = WorkOut::new(P::ID);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut i = from;
    while i < to {
        if std::time::Instant::now() >= deadline {
            out.stopped_early = true;
            break;
        }
        {
            use std::os::unix::fs::FileExt;
            progress.write_all_at(&i.to_le_bytes(), 0).unwrap();
        }
        let case = tree_for::<P>(seed, tier, i).current();
        let mut st = Stats::default();
        let r = run_one::<P>(&case, &mut st);
        out.count(&st, &mut seen, &case);
        if let Err(e) = r {
            out.failed = Some((i, e));
            break;
        }
        i += step;
    }
    unsafe {
        out.edges_covered = vt_edges_covered();
        out.edges_total = vt_edges_total();
    }
    out.write(a.get("out"), &seen)
}

/// Write the non-trivial cases among from, from+step, ... below to that take no more than so many edges, one per line,
/// up to so many of them.
fn pick<P: Prop>(a: &Args, tier: Tier) -> i32 {
    let (seed, from, to, step) = (a.num("seed"), a.num("from"), a.num("to"), a.num("step"));
    let (want, min, max) = (a.num("want"), a.num("min-edges") as i64, a.num("max-edges") as i64);
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(a.opt("wall", 86400));
    // Written as it goes, for a case may end the process.
    let mut out = std::fs::OpenOptions::new().append(true).create(true).open(a.get("out")).unwrap();
    let (mut n, mut i) = (0, from);
    while i < to && n < want && std::time::Instant::now() < deadline {
        std::fs::write(a.get("progress"), i.to_string()).unwrap();
        let case = tree_for::<P>(seed, tier, i).current();
        let mut st = Stats::default();
        unsafe { vt_fuel_set(i64::MAX) };
        let before = unsafe { vt_edges_spent() };
        let r = run_one::<P>(&case, &mut st);
        let spent = unsafe { vt_edges_spent() } - before;
        // A case that fails here already is another check's business, but a failing one all the same.
        if r.is_err() || (st.nontrivial && spent >= min && spent <= max) {
            out.write_all(format!("{} {} {}\n", i, spent, serde_json::to_string(&case).unwrap()).as_bytes()).unwrap();
            n += 1;
        }
        i += step;
    }
    0
}

/// Run the cases of a file that `pick` wrote, telling which one is under way.
fn list<P: Prop>(a: &Args) -> i32 {
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(a.opt("wall", 86400));
    for l in std::fs::read_to_string(a.get("file")).unwrap().lines() {
        if std::time::Instant::now() >= deadline {
            eprintln!("STOPPED");
            return 0;
        }
        let mut f = l.splitn(3, ' ');
        let i = f.next().unwrap();
        let case: P::Case = serde_json::from_str(f.nth(1).unwrap()).unwrap();
        eprintln!("CASE {}", i);
        let mut st = Stats::default();
        if let Err(e) = run_one::<P>(&case, &mut st) {
            eprintln!("FAILED {}", e);
            return 1;
        }
        eprintln!("DONE {}", i);
    }
    0
}

enum Verdict {
    Pass,
    Fail(String),
    /// took too long or was killed: says nothing
    Unknown(String),
}

/// Run cases in a child process, so that crashes and hangs are contained.
fn run_forked<P: Prop>(cases: &[P::Case], wall: u64) -> Verdict {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return Verdict::Unknown("pipe".into());
        }
        let pid = libc::fork();
        if pid < 0 {
            return Verdict::Unknown("fork".into());
        }
        if pid == 0 {
            libc::close(fds[0]);
            libc::alarm(wall as u32);
            // stderr goes to the pipe, so that fuel and abort messages are seen
            libc::dup2(fds[1], 2);
            let mut code = 0;
            for c in cases {
                let mut st = Stats::default();
                if let Err(e) = run_one::<P>(c, &mut st) {
                    let m = e.as_bytes();
                    libc::write(fds[1], m.as_ptr() as *const _, m.len());
                    code = 1;
                    break;
                }
            }
            libc::_exit(code);
        }
        libc::close(fds[1]);
        let mut msg = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            if msg.len() < 100_000 {
                msg.extend_from_slice(&buf[..n as usize]);
            }
        }
        libc::close(fds[0]);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        let msg = String::from_utf8_lossy(&msg).into_owned();
        if libc::WIFEXITED(status) {
            match libc::WEXITSTATUS(status) {
                0 => Verdict::Pass,
                77 if P::FUEL_IS_VIOLATION => Verdict::Fail("does not terminate (edge budget exhausted)".into()),
                77 => Verdict::Unknown("edge budget exhausted".into()),
                1 => Verdict::Fail(msg),
                n => Verdict::Fail(format!("process exit {}: {}", n, msg)),
            }
        } else if libc::WIFSIGNALED(status) {
            match libc::WTERMSIG(status) {
                libc::SIGALRM | libc::SIGKILL | libc::SIGTERM => Verdict::Unknown("stopped".into()),
                s => Verdict::Fail(format!(
                    "crash: {}: {}",
                    match s {
                        libc::SIGSEGV => "SIGSEGV",
                        libc::SIGABRT => "SIGABRT",
                        libc::SIGBUS => "SIGBUS",
                        libc::SIGILL => "SIGILL",
                        libc::SIGFPE => "SIGFPE",
                        libc::SIGTRAP => "SIGTRAP",
                        _ => "signal",
                    },
                    msg
                )),
            }
        } else {
            Verdict::Unknown("status".into())
        }
    }
}

/// Have a command judge one case: it is given a file such as `pick` writes, and exits with 0 (holds), 1 (fails, with its
/// output saying why) or anything else (says nothing).
fn run_via<P: Prop>(case: &P::Case, via: &str, scratch: &str) -> Verdict {
    let file = format!("{}.case", scratch);
    std::fs::write(&file, format!("0 0 {}\n", serde_json::to_string(case).unwrap())).unwrap();
    let mut words = via.split(' ');
    let out = std::process::Command::new(words.next().unwrap()).args(words).arg(&file).output();
    let _ = std::fs::remove_file(&file);
    match out {
        Ok(o) => {
            let text = String::from_utf8_lossy(&o.stdout).trim().to_string();
            match o.status.code() {
                Some(0) => Verdict::Pass,
                Some(1) => Verdict::Fail(text),
                _ => Verdict::Unknown(text),
            }
        }
        Err(e) => Verdict::Unknown(e.to_string()),
    }
}

/// Reproduce a failing case in isolation, shrink it, write the replay file. Exit 0: written; 3: did not reproduce.
fn shrink<P: Prop>(a: &Args, tier: Tier) -> i32 {
    let seed = a.num("seed");
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(a.opt("wall", 60));
    let write = |cases: Vec<serde_json::Value>, message: String| {
        let r = Replay { property: P::ID.into(), profile: a.get("profile").into(), message, cases };
        std::fs::write(a.get("replay"), serde_json::to_string_pretty(&r).unwrap()).unwrap();
    };
    let via = a.0.get("via");
    let judge = |c: &P::Case, wall: u64| match via {
        Some(via) => run_via::<P>(c, via, a.get("replay")),
        None => run_forked::<P>(std::slice::from_ref(c), wall),
    };
    if let Some(file) = a.0.get("case") {
        let case: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
        return shrink_found::<P>(seed, tier, case, deadline, &|c| judge(c, 60), &write);
    }
    let (index, from, step) = (a.num("index"), a.num("from"), a.num("step"));
    let mut vt = tree_for::<P>(seed, tier, index);
    let mut first = Verdict::Pass;
    for _ in 0..3 {
        first = judge(&vt.current(), 150);
        if let Verdict::Fail(_) = first {
            break;
        }
    }
    let mut msg = match first {
        Verdict::Fail(m) => m,
        Verdict::Unknown(m) => {
            println!("the case gave no verdict when run alone: {}", m);
            return 3;
        }
        Verdict::Pass if via.is_some() => {
            println!("the failure did not reproduce");
            return 3;
        }
        Verdict::Pass => {
            // The failure needs what earlier cases of the same process left behind.
            let mut idx = vec![index];
            let mut i = index;
            while i >= from + step && idx.len() < 2000 {
                i -= step;
                idx.push(i);
            }
            idx.reverse();
            let all: Vec<P::Case> = idx.iter().map(|i| tree_for::<P>(seed, tier, *i).current()).collect();
            match run_forked::<P>(&all, 300) {
                Verdict::Fail(m) => {
                    // Shortest suffix by halving.
                    let mut lo = 0;
                    let mut n = all.len();
                    while n > 1 && std::time::Instant::now() < deadline {
                        n /= 2;
                        if let Verdict::Fail(_) = run_forked::<P>(&all[all.len() - n..], 60) {
                            lo = all.len() - n;
                        } else {
                            break;
                        }
                    }
                    write(all[lo..].iter().map(|c| serde_json::to_value(c).unwrap()).collect(), m);
                    return 0;
                }
                _ => {
                    println!("the failure did not reproduce");
                    return 3;
                }
            }
        }
    };
    let mut best = vt.current();
    write(vec![serde_json::to_value(&best).unwrap()], msg.clone());
    let mut steps = 0;
    if vt.simplify() {
        loop {
            steps += 1;
            if steps > 4000 || std::time::Instant::now() > deadline {
                break;
            }
            let c = vt.current();
            match judge(&c, 10) {
                Verdict::Fail(m) => {
                    best = c;
                    msg = m;
                    if !vt.simplify() {
                        break;
                    }
                }
                _ => {
                    if !vt.complicate() {
                        break;
                    }
                }
            }
        }
    }
    write(vec![serde_json::to_value(&best).unwrap()], msg.clone());
    println!("{}", msg);
    0
}

/// Make a case that the guided search found smaller: by leaving out elements of its sequences, and by putting smaller
/// generated values in place of others.
fn shrink_found<P: Prop>(
    seed: u64,
    tier: Tier,
    case: serde_json::Value,
    deadline: std::time::Instant,
    judge: &dyn Fn(&P::Case) -> Verdict,
    write: &dyn Fn(Vec<serde_json::Value>, String),
) -> i32 {
    let parse = |v: &serde_json::Value| serde_json::from_value::<P::Case>(v.clone()).ok();
    let mut msg = match parse(&case).map(|c| judge(&c)) {
        Some(Verdict::Fail(m)) => m,
        _ => {
            println!("the failure did not reproduce");
            return 3;
        }
    };
    let mut g = Grammar::default();
    g.learn((0..400).map(|i| serde_json::to_value(tree_for::<P>(seed, tier, (1 << 40) + i).current()).unwrap()).collect());
    let mut best = case;
    write(vec![best.clone()], msg.clone());
    let mut fails = |v: &serde_json::Value| match parse(v).map(|c| judge(&c)) {
        Some(Verdict::Fail(m)) => {
            msg = m;
            true
        }
        _ => false,
    };
    loop {
        let before = best.clone();
        g.smaller(&mut best, &mut |v| std::time::Instant::now() < deadline && fails(v));
        if best == before || std::time::Instant::now() >= deadline {
            break;
        }
    }
    write(vec![best], msg.clone());
    println!("{}", msg);
    0
}

/// Cases bred from those that did something new, by what they ran, recombined with generated parts.
fn hunt<P: Prop>(a: &Args, tier: Tier) -> i32 {
    use std::os::unix::fs::FileExt;
    let (seed, from, count) = (a.num("seed"), a.num("from"), a.num("count"));
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(a.opt("wall", 86400));
    let open = |n: &str| std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(a.get(n)).unwrap();
    let (progress, current) = (open("progress"), open("case"));
    let mut out = WorkOut::new(P::ID);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut x = Dice::new(seed ^ from.wrapping_mul(0x9E3779B97F4A7C15));
    let mut g = Grammar::default();
    let fresh = |n: u64| serde_json::to_value(tree_for::<P>(seed, tier, (1 << 41) + (from << 24) + n).current()).unwrap();
    let warm = 400.min(count / 4 + 1);
    g.learn((0..warm).map(fresh).collect());
    // what was kept, and how many edges it takes
    let mut kept: Vec<(serde_json::Value, i64)> = vec![];
    let mut n = 0;
    while n < count {
        if std::time::Instant::now() >= deadline {
            out.stopped_early = true;
            break;
        }
        let value = if n < warm || kept.is_empty() || x.below(5) == 0 {
            let v = fresh(n);
            if n >= warm {
                g.see(&v, &mut x);
            }
            v
        } else {
            // the newer and the cheaper the likelier
            let pick = |x: &mut Dice| {
                if x.below(2) == 0 {
                    kept.len() - 1 - x.below(kept.len() / 4 + 1)
                } else {
                    x.below(kept.len())
                }
            };
            let (i, j) = (pick(&mut x), pick(&mut x));
            let i = if kept[i].1 <= kept[j].1 { i } else { j };
            let mut v = kept[i].0.clone();
            let other = kept[x.below(kept.len())].0.clone();
            for _ in 0..1 + x.below(4) {
                g.mutate(&mut v, &other, &mut x);
            }
            v
        };
        n += 1;
        let case: P::Case = match serde_json::from_value(value.clone()) {
            Ok(c) => c,
            Err(_) => continue,
        };
        let text = serde_json::to_vec(&value).unwrap();
        current.write_all_at(&text, 0).unwrap();
        current.set_len(text.len() as u64).unwrap();
        progress.write_all_at(&n.to_le_bytes(), 0).unwrap();
        let mut st = Stats::default();
        unsafe {
            vt_fuel_set(i64::MAX);
            vt_case_begin();
        }
        let spent = unsafe { vt_edges_spent() };
        let r = run_one::<P>(&case, &mut st);
        let spent = unsafe { vt_edges_spent() } - spent;
        out.count(&st, &mut seen, &case);
        if unsafe { vt_case_new() } > 0 {
            out.kept += 1;
            if kept.len() < 3000 {
                kept.push((value, spent));
            } else {
                let i = x.below(kept.len());
                kept.remove(i);
                kept.push((value, spent));
            }
        }
        if let Err(e) = r {
            out.failed = Some((n, e));
            break;
        }
    }
    unsafe {
        out.edges_covered = vt_edges_seen();
        out.edges_total = vt_edges_total();
    }
    out.write(a.get("out"), &seen)
}

/// Exit 1 if the recorded case still fails, 0 if not.
fn replay<P: Prop>(a: &Args) -> i32 {
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(a.get("file")).unwrap()).unwrap();
    let cases: Vec<P::Case> = r.cases.into_iter().map(|c| serde_json::from_value(c).unwrap()).collect();
    match run_forked::<P>(&cases, 600) {
        Verdict::Pass => {
            println!("holds");
            0
        }
        Verdict::Fail(m) => {
            println!("fails: {}", m);
            1
        }
        Verdict::Unknown(m) => {
            println!("no verdict: {}", m);
            2
        }
    }
}
