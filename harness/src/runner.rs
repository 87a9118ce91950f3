//! Case runner: a fork per case, eight workers, shrinking, replay files, evidence.
use crate::det;
use crate::tape::Tape;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Viol {
    pub rule: String,
    pub detail: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct CaseResult {
    pub violation: Option<Viol>,
    pub nontrivial: bool,
    pub sig: u64,
    pub tags: BTreeMap<String, u64>,
    pub sample: String,
    pub used: Vec<u32>,
    pub trace: Vec<String>,
    pub harness_error: Option<String>,
}

impl CaseResult {
    pub fn tag(&mut self, k: &str, v: u64) {
        *self.tags.entry(k.to_string()).or_insert(0) += v;
    }
    pub fn fail(&mut self, rule: &str, detail: String) {
        if self.violation.is_none() {
            self.violation = Some(Viol { rule: rule.to_string(), detail });
        }
    }
}

pub type CaseFn = fn(&mut Tape, bool) -> CaseResult;

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub case: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    pub assumptions: &'static [&'static str],
}

impl Property {
    /// C11R is C11 in the build with weighted lots.
    pub fn shown(&self) -> &'static str {
        self.id.strip_suffix('R').unwrap_or(self.id)
    }
    /// A case that spins, or kills its process, breaks these.
    fn covers_spin(&self) -> bool {
        ["C11", "C12", "C13", "C14", "C15", "C16", "C20"].contains(&self.shown())
    }
}

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// Panics raised so far in this (child) process, outside the harness' own sources.
pub fn panics() -> Vec<String> {
    PANICS.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        eprintln!("{:>8} {} {}", det::now_ms(), r.level(), r.args());
    }
    fn flush(&self) {}
}

fn install_hook() {
    if std::env::var("VERIF_LOG").is_ok() {
        let _ = log::set_logger(&Log);
        log::set_max_level(log::LevelFilter::Debug);
    }
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let mut g = PANICS.lock().unwrap_or_else(|e| e.into_inner());
        if g.len() < 64 {
            g.push(format!("{} at {}", msg, loc));
        }
        if std::env::var("VERIF_PANIC").is_ok() {
            eprintln!("panic {} at {}\n{}", msg, loc, std::backtrace::Backtrace::force_capture());
        }
    }));
}

pub enum Outcome {
    Done(CaseResult),
    Hang,
    Crash(i32),
}

const CPU_CAP_S: i64 = 30;

/// Run one case in a forked child.
pub fn run_forked(f: CaseFn, fixed: Option<Vec<u32>>, seed: u64, trace: bool) -> Outcome {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let it = libc::itimerval {
                it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
                it_value: libc::timeval { tv_sec: CPU_CAP_S, tv_usec: 0 },
            };
            libc::syscall(libc::SYS_setitimer, 2 /* ITIMER_PROF */, &it as *const _, 0usize);
            libc::alarm(120);
            let h = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    det::enter(seed);
                    let r = std::panic::catch_unwind(move || {
                        let mut t = match fixed {
                            Some(v) => Tape::fixed(v, seed),
                            None => Tape::from_seed(seed),
                        };
                        let mut r = f(&mut t, trace);
                        r.used = t.used;
                        r
                    });
                    r.unwrap_or_else(|_| CaseResult {
                        harness_error: Some(format!("harness panic: {:?}", panics().last())),
                        ..Default::default()
                    })
                })
                .unwrap();
            let r = h.join().unwrap_or_else(|_| CaseResult {
                harness_error: Some("harness thread died".into()),
                ..Default::default()
            });
            let s = serde_json::to_vec(&r).unwrap();
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            let _ = w.write_all(&s);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut r = std::fs::File::from_raw_fd(fds[0]);
        let mut buf = Vec::new();
        let _ = r.read_to_end(&mut buf);
        let mut st = 0i32;
        loop {
            let w = libc::waitpid(pid, &mut st, 0);
            if w == pid || *libc::__errno_location() != libc::EINTR {
                break;
            }
        }
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            if s == libc::SIGPROF {
                return Outcome::Hang;
            }
            return Outcome::Crash(s);
        }
        match serde_json::from_slice::<CaseResult>(&buf) {
            Ok(r) => Outcome::Done(r),
            Err(_) => Outcome::Crash(-libc::WEXITSTATUS(st)),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
struct Batch {
    evals: u64,
    nontrivial: u64,
    sigs: Vec<u64>,
    tags: BTreeMap<String, u64>,
    cases_with: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
    failures: Vec<(u64, Viol, Vec<u32>)>,
    errors: Vec<(u64, String)>,
    hangs: Vec<u64>,
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub rule: String,
    pub detail: String,
    pub hash_seed: String,
    pub tape: Vec<u32>,
    pub case_index: i64,
    pub trace: Vec<String>,
}

fn case_seed(id: &str, seed: u64, i: u64) -> u64 {
    let mut h = seed;
    for b in id.bytes() {
        h = det::splitmix(h ^ b as u64);
    }
    det::splitmix(h ^ det::splitmix(i))
}

fn jobs() -> u64 {
    std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}

fn worker(p: &Property, seed: u64, w: u64, n: u64, cases: u64, deadline: Instant, fd: i32) {
    let mut out = unsafe { std::fs::File::from_raw_fd(fd) };
    let mut b = Batch::default();
    let mut i = w;
    let mut last = Instant::now();
    let flush = |b: &mut Batch, out: &mut std::fs::File| {
        let mut s = serde_json::to_vec(&b).unwrap();
        s.push(b'\n');
        let _ = out.write_all(&s);
        *b = Batch::default();
    };
    while i < cases {
        if Instant::now() > deadline {
            break;
        }
        let cs = case_seed(p.id, seed, i);
        match run_forked(p.case, None, cs, false) {
            Outcome::Done(r) => {
                if let Some(e) = r.harness_error {
                    b.errors.push((i, e));
                } else {
                    b.evals += 1;
                    if r.nontrivial {
                        b.nontrivial += 1;
                        b.sigs.push(r.sig);
                    }
                    for (k, v) in &r.tags {
                        *b.tags.entry(k.clone()).or_insert(0) += v;
                        if *v > 0 {
                            *b.cases_with.entry(k.clone()).or_insert(0) += 1;
                        }
                    }
                    if r.nontrivial && i < 64 {
                        b.samples.push((i, r.sample.clone()));
                    }
                    if let Some(v) = r.violation {
                        b.failures.push((i, v, r.used));
                        flush(&mut b, &mut out);
                        break;
                    }
                }
            }
            Outcome::Hang => b.hangs.push(i),
            Outcome::Crash(s) => b.errors.push((i, format!("child died, signal {}", s))),
        }
        if b.errors.len() > 4 || b.hangs.len() > 1 {
            break;
        }
        if last.elapsed() > Duration::from_millis(300) {
            flush(&mut b, &mut out);
            last = Instant::now();
        }
        i += n;
    }
    flush(&mut b, &mut out);
}

pub struct RunOpts {
    pub seed: u64,
    pub tier: String,
    pub cases: Option<u64>,
    pub evidence: Option<String>,
    pub replay_dir: String,
    pub known: Vec<String>,
    pub deadline_s: u64,
}

/// Returns the exit code.
pub fn run_property(p: &Property, o: &RunOpts, directed: &[(&'static str, fn() -> Option<String>)]) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let cases = o.cases.unwrap_or(if o.tier == "thorough" { p.thorough } else { p.quick });
    let mut violated = false;
    let mut known_hits = 0;
    // Directed histories (known findings and repaired defects).
    for (name, f) in directed {
        let res = run_directed(*f);
        match res {
            Ok(None) => {}
            Ok(Some(detail)) => {
                if o.known.iter().any(|k| k == name) {
                    println!("KNOWN-FINDING: property={} {}: {}", p.shown(), name, detail);
                    known_hits += 1;
                } else {
                    let path = write_replay(o, p.id, &Replay {
                        property: p.id.into(),
                        rule: format!("directed:{}", name),
                        detail: detail.clone(),
                        hash_seed: "0".into(),
                        tape: vec![],
                        case_index: -1,
                        trace: vec![],
                    });
                    println!("directed history {}: {}", name, detail);
                    println!("VIOLATION property={} replay={}", p.shown(), path);
                    violated = true;
                }
            }
            Err(e) => {
                eprintln!("harness error in directed history {}: {}", name, e);
                return 2;
            }
        }
    }
    let n = jobs();
    let deadline = t0 + Duration::from_secs(o.deadline_s);
    let mut readers = vec![];
    let mut pids = vec![];
    for w in 0..n {
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                worker(p, o.seed, w, n, cases, deadline, fds[1]);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            libc::fcntl(fds[0], libc::F_SETFL, libc::O_NONBLOCK);
            readers.push((fds[0], Vec::<u8>::new(), true));
            pids.push(pid);
        }
    }
    let mut tot = Batch::default();
    let mut sigs: HashSet<u64> = HashSet::new();
    loop {
        let mut open = false;
        let mut fl: Vec<libc::pollfd> =
            readers.iter().filter(|r| r.2).map(|r| libc::pollfd { fd: r.0, events: libc::POLLIN, revents: 0 }).collect();
        if !fl.is_empty() {
            unsafe { libc::poll(fl.as_mut_ptr(), fl.len() as u64, 1000) };
        }
        for r in readers.iter_mut() {
            if !r.2 {
                continue;
            }
            open = true;
            let mut buf = [0u8; 65536];
            loop {
                let k = unsafe { libc::read(r.0, buf.as_mut_ptr() as *mut _, buf.len()) };
                if k > 0 {
                    r.1.extend_from_slice(&buf[..k as usize]);
                } else {
                    if k == 0 {
                        r.2 = false;
                    }
                    break;
                }
            }
            while let Some(pos) = r.1.iter().position(|b| *b == b'\n') {
                let line: Vec<u8> = r.1.drain(..=pos).collect();
                if let Ok(b) = serde_json::from_slice::<Batch>(&line) {
                    tot.evals += b.evals;
                    tot.nontrivial += b.nontrivial;
                    sigs.extend(b.sigs);
                    for (k, v) in b.tags {
                        *tot.tags.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in b.cases_with {
                        *tot.cases_with.entry(k).or_insert(0) += v;
                    }
                    tot.samples.extend(b.samples);
                    tot.failures.extend(b.failures);
                    tot.errors.extend(b.errors);
                    tot.hangs.extend(b.hangs);
                }
            }
        }
        if !open || !tot.failures.is_empty() {
            break;
        }
    }
    for pid in &pids {
        unsafe {
            libc::kill(*pid, libc::SIGKILL);
            let mut st = 0;
            libc::waitpid(*pid, &mut st, 0);
        }
    }
    if let Some((i, v, used)) = tot.failures.first().cloned() {
        let hs = case_seed(p.id, o.seed, i);
        println!("case {} fails: {} — {}", i, v.rule, v.detail);
        let (tape, v2, trace, execs) = shrink(p, hs, used.clone(), &v);
        println!("shrunk from {} to {} choices in {} executions: {} — {}", used.len(), tape.len(), execs, v2.rule, v2.detail);
        for l in trace.iter().take(400) {
            println!("    {}", l);
        }
        let path = write_replay(o, p.id, &Replay {
            property: p.id.into(),
            rule: v2.rule.clone(),
            detail: v2.detail.clone(),
            hash_seed: hs.to_string(),
            tape,
            case_index: i as i64,
            trace,
        });
        println!("VIOLATION property={} replay={}", p.shown(), path);
        violated = true;
    }
    let mut hang_fail = false;
    if !violated && p.covers_spin() {
        // stack overflows, aborts
        let died = tot.errors.iter().find(|e| e.1.starts_with("child died")).cloned();
        if let Some((i, e)) = died {
            let hs = case_seed(p.id, o.seed, i);
            if let Outcome::Crash(s) = run_forked(p.case, None, hs, false) {
                if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL].contains(&s) {
                    let path = write_replay(o, p.id, &Replay {
                        property: p.id.into(),
                        rule: "spin".into(),
                        detail: format!("the case kills the process: {}", e),
                        hash_seed: hs.to_string(),
                        tape: vec![],
                        case_index: i as i64,
                        trace: vec![],
                    });
                    println!("case {} kills the process: {}", i, e);
                    println!("VIOLATION property={} replay={}", p.shown(), path);
                    violated = true;
                }
            }
        }
    }
    if !violated && !tot.hangs.is_empty() {
        let i = tot.hangs[0];
        let hs = case_seed(p.id, o.seed, i);
        // CPU-time bound, so independent of machine load; confirm once more.
        if let Outcome::Hang = run_forked(p.case, None, hs, false) {
            if p.covers_spin() {
                let path = write_replay(o, p.id, &Replay {
                    property: p.id.into(),
                    rule: "spin".into(),
                    detail: format!("case spins: more than {} s of CPU", CPU_CAP_S),
                    hash_seed: hs.to_string(),
                    tape: vec![],
                    case_index: i as i64,
                    trace: vec![],
                });
                println!("VIOLATION property={} replay={}", p.shown(), path);
                violated = true;
            } else {
                hang_fail = true;
            }
        }
    }
    tot.samples.sort();
    tot.samples.truncate(3);
    let truncated = tot.evals < cases && !violated;
    let wall = t0.elapsed().as_secs_f64();
    println!(
        "property={} tier={} seed={} evaluations={} distinct_nontrivial={} wall={:.1}s errors={} hangs={}",
        p.id, o.tier, o.seed, tot.evals, sigs.len(), wall, tot.errors.len(), tot.hangs.len()
    );
    for (k, v) in &tot.cases_with {
        println!("  {:40} cases={} total={}", k, v, tot.tags.get(k).unwrap_or(&0));
    }
    if let Some(path) = &o.evidence {
        let ev = serde_json::json!({
            "property": p.shown(), "tier": o.tier, "seed": o.seed, "level": "exploration",
            "coverage": {
                "evaluations": tot.evals,
                "distinct_nontrivial": sigs.len(),
                "rule": p.rule,
                "samples": tot.samples.iter().map(|s| format!("case {}: {}", s.0, s.1)).collect::<Vec<_>>(),
                "cases_with": tot.cases_with,
                "totals": tot.tags,
                "planned_cases": cases,
                "directed_histories": directed.len(),
                "stopped_early": truncated,
            },
            "assumptions": p.assumptions,
            "wall_s": wall,
            "violations": if violated {1} else {0},
            "known_findings": known_hits,
        });
        let _ = std::fs::write(path, serde_json::to_string_pretty(&ev).unwrap());
    }
    if violated {
        return 1;
    }
    if !tot.errors.is_empty() {
        eprintln!("harness errors: {:?}", &tot.errors[..tot.errors.len().min(3)]);
        return 2;
    }
    if hang_fail {
        eprintln!("a case exceeded its CPU budget twice: {:?}", tot.hangs);
        return 2;
    }
    if tot.evals < cases / 4 || (sigs.is_empty() && cases > 0) {
        eprintln!("too few cases explored: {} of {}", tot.evals, cases);
        return 2;
    }
    0
}

fn write_replay(o: &RunOpts, id: &str, r: &Replay) -> String {
    let _ = std::fs::create_dir_all(&o.replay_dir);
    let mut h = 0u64;
    for x in &r.tape {
        h = det::splitmix(h ^ *x as u64);
    }
    for b in r.rule.bytes() {
        h = det::splitmix(h ^ b as u64);
    }
    let path = format!("{}/{}-{:012x}.json", o.replay_dir, id, h & 0xffff_ffff_ffff);
    let _ = std::fs::write(&path, serde_json::to_string_pretty(r).unwrap());
    path
}

static DIRECTED: Mutex<Option<fn() -> Option<String>>> = Mutex::new(None);
fn directed_case(_t: &mut Tape, _trace: bool) -> CaseResult {
    let f = DIRECTED.lock().unwrap().unwrap();
    let mut r = CaseResult::default();
    if let Some(d) = f() {
        r.fail("directed", d);
    }
    r
}

pub fn run_directed(f: fn() -> Option<String>) -> Result<Option<String>, String> {
    *DIRECTED.lock().unwrap() = Some(f);
    match run_forked(directed_case, Some(vec![]), 7, false) {
        Outcome::Done(r) => match r.harness_error {
            Some(e) => Err(e),
            None => Ok(r.violation.map(|v| v.detail)),
        },
        Outcome::Hang => Ok(Some("the history spins".into())),
        Outcome::Crash(s) => Err(format!("child died {}", s)),
    }
}

pub fn fails_like(p: &Property, hs: u64, tape: &[u32], rule: &str) -> Option<CaseResult> {
    match run_forked(p.case, Some(tape.to_vec()), hs, false) {
        Outcome::Done(r) => match &r.violation {
            Some(v) if v.rule == rule => Some(r),
            _ => None,
        },
        _ => None,
    }
}

fn shrink(p: &Property, hs: u64, tape: Vec<u32>, v: &Viol) -> (Vec<u32>, Viol, Vec<String>, u64) {
    let t0 = Instant::now();
    let budget = Duration::from_secs(std::env::var("VERIF_SHRINK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(40));
    let mut execs = 0u64;
    let mut best = tape;
    let mut bv = v.clone();
    let ok = |cand: &[u32], execs: &mut u64| -> Option<CaseResult> {
        *execs += 1;
        fails_like(p, hs, cand, &v.rule)
    };
    let accept = |r: CaseResult, cand: Vec<u32>, best: &mut Vec<u32>, bv: &mut Viol| {
        let mut c = cand;
        c.truncate(r.used.len());
        while c.last() == Some(&0) {
            c.pop();
        }
        *best = c;
        *bv = r.violation.unwrap();
    };
    let mut progress = true;
    while progress && t0.elapsed() < budget {
        progress = false;
        // Truncate.
        let mut len = best.len() / 2;
        while len > 0 && t0.elapsed() < budget {
            if best.len() > len {
                let cand = best[..best.len() - len].to_vec();
                if let Some(r) = ok(&cand, &mut execs) {
                    accept(r, cand, &mut best, &mut bv);
                    progress = true;
                    continue;
                }
            }
            len /= 2;
        }
        // Delete chunks, then zero chunks.
        for mode in 0..2 {
            let mut size = (best.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best.len() && t0.elapsed() < budget {
                    let e = (i + size).min(best.len());
                    let mut cand = best.clone();
                    if mode == 0 {
                        cand.drain(i..e);
                    } else {
                        if cand[i..e].iter().all(|x| *x == 0) {
                            i += size;
                            continue;
                        }
                        cand[i..e].iter_mut().for_each(|x| *x = 0);
                    }
                    if let Some(r) = ok(&cand, &mut execs) {
                        accept(r, cand, &mut best, &mut bv);
                        progress = true;
                        if mode == 1 {
                            i += size;
                        }
                    } else {
                        i += size;
                    }
                }
                if size == 1 || t0.elapsed() >= budget {
                    break;
                }
                size /= 2;
            }
        }
        // Lower single values.
        let mut i = 0;
        while i < best.len() && t0.elapsed() < budget {
            if best[i] > 1 {
                for c in [1, best[i] / 2, best[i] - 1] {
                    if i < best.len() && c < best[i] {
                        let mut cand = best.clone();
                        cand[i] = c;
                        if let Some(r) = ok(&cand, &mut execs) {
                            accept(r, cand, &mut best, &mut bv);
                            progress = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    let trace = match run_forked(p.case, Some(best.clone()), hs, true) {
        Outcome::Done(r) => r.trace,
        _ => vec![],
    };
    (best, bv, trace, execs)
}

pub fn run_one(p: &Property, seed: u64, i: u64) -> i32 {
    install_hook();
    match run_forked(p.case, None, case_seed(p.id, seed, i), true) {
        Outcome::Done(r) => {
            for l in &r.trace {
                println!("{}", l);
            }
            println!("tags {:?}\nsample {}\nnontrivial {} error {:?}\nviolation {:?}", r.tags, r.sample, r.nontrivial, r.harness_error, r.violation);
            0
        }
        Outcome::Hang => {
            println!("hang");
            2
        }
        Outcome::Crash(s) => {
            println!("crash {}", s);
            2
        }
    }
}

pub fn replay(p: &Property, r: &Replay) -> i32 {
    install_hook();
    let hs: u64 = r.hash_seed.parse().unwrap_or(0);
    let fixed = if r.rule == "spin" { None } else { Some(r.tape.clone()) };
    match run_forked(p.case, fixed, hs, true) {
        Outcome::Done(c) => {
            for l in &c.trace {
                println!("{}", l);
            }
            match c.violation {
                Some(v) => {
                    println!("reproduced: {} — {}", v.rule, v.detail);
                    1
                }
                None => {
                    println!("not reproduced");
                    0
                }
            }
        }
        Outcome::Hang => {
            println!("reproduced: the case spins");
            1
        }
        Outcome::Crash(s) => {
            println!("child died {}", s);
            if r.rule == "spin" {
                1
            } else {
                2
            }
        }
    }
}

pub fn replay_directed(name: &str, f: fn() -> Option<String>) -> i32 {
    install_hook();
    match run_directed(f) {
        Ok(Some(d)) => {
            println!("reproduced: {}: {}", name, d);
            1
        }
        Ok(None) => {
            println!("not reproduced");
            0
        }
        Err(e) => {
            println!("harness error: {}", e);
            2
        }
    }
}
