//! Batch driver: seeded search over simulated runs in worker processes, crash
//! containment, minimisation, replay files, known findings, evidence.
use crate::choice::{fnv, mix, Choices};
use crate::ctx::{Ctx, Outcome, Violation};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::panic::AssertUnwindSafe;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy)]
pub struct Scenario {
    pub name: &'static str,
    pub weight: u64,
    pub run: fn(&mut Ctx) -> Outcome,
}

#[derive(Clone)]
pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub scenarios: &'static [Scenario],
    /// what makes a run count as non-trivial and distinct
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub fn verif_dir() -> PathBuf {
    if let Ok(d) = std::env::var("VERIF_DIR") {
        return PathBuf::from(d);
    }
    // <verif>/<crate>/target/<profile>/<bin>
    let exe = std::env::current_exe().unwrap();
    exe.ancestors()
        .find(|p| p.join("properties.jsonl").exists())
        .map(|p| p.to_path_buf())
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

/// Scratch directory of this batch (created and removed by the driver process).
pub fn scratch_root() -> PathBuf {
    match std::env::var_os("SIM_SCRATCH") {
        Some(d) => PathBuf::from(d),
        None => std::env::temp_dir().join(format!("vsim-{}", std::process::id())),
    }
}

fn make_scratch() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() && std::env::var_os("SIM_DISK").is_none() {
        PathBuf::from("/dev/shm")
    } else {
        std::env::temp_dir()
    };
    let mut d = base.join(format!("vsim-{}", std::process::id()));
    if std::fs::create_dir_all(&d).is_err() {
        d = std::env::temp_dir().join(format!("vsim-{}", std::process::id()));
        let _ = std::fs::create_dir_all(&d);
    }
    std::env::set_var("SIM_SCRATCH", &d);
    d
}

// ---------------------------------------------------------------- one run

static LAST_PANIC: Mutex<Option<(String, u32, String)>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let (f, l) = info
            .location()
            .map(|l| (l.file().to_owned(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if std::env::var("SIM_BT").is_ok() {
            eprintln!("PANIC {f}:{l} {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some((f, l, msg));
    }));
}

/// Description of the last panic on any thread of the current run.
pub fn take_panic() -> Option<(String, u32, String)> {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take()
}

pub fn normalise(s: &str) -> String {
    let mut out = String::new();
    let mut in_num = false;
    for c in s.chars() {
        if c.is_ascii_digit() {
            if !in_num {
                out.push('#');
            }
            in_num = true;
        } else {
            in_num = false;
            if !c.is_control() {
                out.push(c);
            }
        }
    }
    out.chars().take(90).collect()
}

/// Set by harnesses whose runs touch nothing but memory: nothing of the machine can make them
/// fail, so an assertion of theirs that fails (a known value which is not there, an answer which is
/// not the model's) is the code under test having left the state it has to be in. Elsewhere such a
/// panic is an error of the check.
pub static IN_MEMORY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn in_memory(f: &str) -> bool {
    IN_MEMORY.load(std::sync::atomic::Ordering::Relaxed) && !f.contains("simcore")
}

fn unexpected(f: &str, l: u32, msg: &str) -> Violation {
    Violation::new(format!("unexpected-state:{}", normalise(msg)), format!("the scenario relies on it at {f}:{l}: {msg}"))
}

fn is_harness_file(f: &str) -> bool {
    // gen/ holds copies of /repo's sources: code under test
    (f.starts_with("src/") || f.contains("/verif/")) && !f.contains("/gen/")
}

/// Turn a caught panic of the code under test into a violation. A panic raised
/// by harness code is re-raised: it is an error of the check.
pub fn panic_violation(what: &str) -> Violation {
    match take_panic() {
        Some((f, l, msg)) => panic_record(what, "", &f, l, &msg),
        None => Violation::new(format!("panic:{what}"), "panic without location"),
    }
}

pub fn panic_record(what: &str, thread: &str, f: &str, l: u32, msg: &str) -> Violation {
    if is_harness_file(f) {
        if in_memory(f) {
            return unexpected(f, l, msg);
        }
        panic!("harness panic at {f}:{l}: {msg}");
    }
    let short = f
        .split("/gen/mm/")
        .last()
        .unwrap_or(f)
        .split("/repo/")
        .last()
        .unwrap_or(f)
        .split(".cargo/registry/")
        .last()
        .unwrap_or(f)
        .to_string();
    let short = match short.find("/library/") {
        Some(i) => short[i + 1..].to_string(),
        None => short,
    };
    let thread = if thread.is_empty() { String::new() } else { format!(" ({thread} thread)") };
    Violation::new(
        format!("panic:{what}:{short}:{}", normalise(msg)),
        format!("{what}{thread} panicked at {f}:{l}: {msg}"),
    )
}

/// Run a call into the code under test; a panic becomes a violation.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
    take_panic();
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(panic_violation(what)),
    }
}

pub struct CaseResult {
    pub violation: Option<Violation>,
    pub harness_error: Option<String>,
    pub ctx: Ctx,
}

pub fn execute(sc: &Scenario, choices: Choices, keep: bool, rand_seed: u64) -> CaseResult {
    let run = sc.run;
    let ctx = Ctx::new(choices, keep);
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            crate::rand_seam::reseed(rand_seed);
            let mut ctx = ctx;
            let r = std::panic::catch_unwind(AssertUnwindSafe(|| run(&mut ctx)));
            match r {
                Ok(Ok(())) => CaseResult {
                    violation: None,
                    harness_error: None,
                    ctx,
                },
                Ok(Err(v)) => CaseResult {
                    violation: Some(v),
                    harness_error: None,
                    ctx,
                },
                Err(_) => {
                    let p = take_panic();
                    let (f, l, msg) = p.unwrap_or_default();
                    if is_harness_file(&f) && in_memory(&f) {
                        CaseResult {
                            violation: Some(unexpected(&f, l, &msg)),
                            harness_error: None,
                            ctx,
                        }
                    } else if is_harness_file(&f) || f.is_empty() {
                        CaseResult {
                            violation: None,
                            harness_error: Some(format!("{f}:{l}: {msg}")),
                            ctx,
                        }
                    } else {
                        // a panic of the code under test outside guard()
                        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) =
                            Some((f, l, msg));
                        let v = panic_violation("call");
                        CaseResult {
                            violation: Some(v),
                            harness_error: None,
                            ctx,
                        }
                    }
                }
            }
        })
        .expect("spawn run thread");
    h.join().expect("run thread")
}

fn pick_scenario(p: &Property, idx: u64) -> &'static Scenario {
    let total: u64 = p.scenarios.iter().map(|s| s.weight).sum();
    let mut k = mix(idx, fnv(p.id.as_bytes())) % total;
    for s in p.scenarios {
        if k < s.weight {
            return s;
        }
        k -= s.weight;
    }
    unreachable!()
}

fn run_seed(p: &Property, base: u64, idx: u64) -> u64 {
    mix(mix(base, fnv(p.id.as_bytes())), idx)
}

fn merge(into: &mut BTreeMap<String, u64>, from: &Value) {
    if let Some(o) = from.as_object() {
        for (k, v) in o {
            *into.entry(k.clone()).or_default() += v.as_u64().unwrap_or(0);
        }
    }
}

// ---------------------------------------------------------------- worker

fn worker(p: &Property, base: u64, idxs: Vec<u64>) -> i32 {
    install_hook();
    let out = std::io::stdout();
    for idx in idxs {
        {
            let mut o = out.lock();
            let _ = writeln!(o, "B {idx}");
            let _ = o.flush();
        }
        let sc = pick_scenario(p, idx);
        let seed = run_seed(p, base, idx);
        let r = execute(sc, Choices::seeded(seed), false, seed);
        if let Some(e) = r.harness_error {
            println!("H {idx} {} {}", sc.name, e.replace('\n', " "));
            return 4;
        }
        if let Some(v) = r.violation {
            println!(
                "V {idx} {}",
                json!({"class": v.class, "detail": v.detail, "scenario": sc.name})
            );
        }
        println!(
            "E {idx} {}",
            json!({"d": format!("{:016x}", r.ctx.digest()), "f": r.ctx.faults, "p": r.ctx.probes,
                   "c": r.ctx.checks, "t": r.ctx.sim_us, "n": r.ctx.choices.log.len(), "s": sc.name})
        );
    }
    println!("S");
    let _ = out.lock().flush();
    0
}

// ---------------------------------------------------------------- driver

#[derive(Default)]
struct Acc {
    runs: u64,
    checks: u64,
    sim_us: u64,
    draws: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    per_scenario: BTreeMap<String, u64>,
    digests: BTreeSet<String>,
    by_idx: BTreeMap<u64, String>,
    faulty_runs: u64,
}

struct Found {
    idx: u64,
    scenario: String,
    v: Violation,
}

enum Msg {
    Line(usize, String),
    Exit(usize, Option<i32>, Option<i32>, String),
}

struct WorkerState {
    remaining: Vec<u64>,
    current: Option<u64>,
    pid: u32,
    last: Instant,
    done: bool,
    hung: bool,
}

fn spawn_worker(
    p: &Property,
    base: u64,
    w: usize,
    idxs: &[u64],
    tx: &mpsc::Sender<Msg>,
) -> u32 {
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(exe)
        .arg("worker")
        .arg(p.id)
        .arg(base.to_string())
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("spawn worker");
    let pid = child.id();
    let list: Vec<String> = idxs.iter().map(|i| i.to_string()).collect();
    let mut stdin = child.stdin.take().unwrap();
    let _ = stdin.write_all(list.join(" ").as_bytes());
    drop(stdin);
    let stdout = child.stdout.take().unwrap();
    let mut stderr = child.stderr.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        let eh = std::thread::spawn(move || {
            let mut s = Vec::new();
            let mut buf = [0u8; 4096];
            use std::io::Read;
            while let Ok(n) = stderr.read(&mut buf) {
                if n == 0 {
                    break;
                }
                if s.len() < 65536 {
                    s.extend_from_slice(&buf[..n]);
                }
            }
            String::from_utf8_lossy(&s).into_owned()
        });
        for line in BufReader::new(stdout).lines() {
            match line {
                Ok(l) => {
                    let _ = tx.send(Msg::Line(w, l));
                }
                Err(_) => break,
            }
        }
        let st = child.wait().ok();
        let err = eh.join().unwrap_or_default();
        use std::os::unix::process::ExitStatusExt;
        let _ = tx.send(Msg::Exit(
            w,
            st.and_then(|s| s.code()),
            st.and_then(|s| s.signal()),
            err,
        ));
    });
    pid
}

fn crash_violation(sig: Option<i32>, code: Option<i32>, err: &str, hung: bool) -> Violation {
    if hung {
        return Violation::new("hang", "the run made no progress (no bounded termination)");
    }
    let class = if err.contains("memory allocation of") {
        "abort:unbounded-allocation".to_string()
    } else if err.contains("stack overflow") || err.contains("overflowed its stack") {
        "abort:stack-overflow".to_string()
    } else {
        format!("abort:signal-{:?}-code-{:?}", sig, code)
    };
    Violation::new(class, err.trim().chars().take(400).collect::<String>())
}

pub fn kill(pid: u32) {
    extern "C" {
        fn kill(pid: i32, sig: i32) -> i32;
    }
    unsafe {
        kill(pid as i32, 9);
    }
}

const HANG: Duration = Duration::from_secs(90);

#[allow(clippy::too_many_arguments)]
fn run_batch(
    p: &Property,
    base: u64,
    idxs: Vec<u64>,
    workers: usize,
    deadline: Instant,
    known: &dyn Fn(&Violation) -> Option<String>,
    known_hits: &mut BTreeMap<String, u64>,
    acc: &mut Acc,
) -> Result<Option<Found>, String> {
    let (tx, rx) = mpsc::channel();
    let mut st: Vec<WorkerState> = (0..workers)
        .map(|w| WorkerState {
            remaining: idxs
                .iter()
                .copied()
                .enumerate()
                .filter(|(i, _)| i % workers == w)
                .map(|(_, v)| v)
                .rev()
                .collect(),
            current: None,
            pid: 0,
            last: Instant::now(),
            done: false,
            hung: false,
        })
        .collect();
    for (w, s) in st.iter_mut().enumerate() {
        if s.remaining.is_empty() {
            s.done = true;
            continue;
        }
        let list: Vec<u64> = s.remaining.iter().rev().copied().collect();
        s.pid = spawn_worker(p, base, w, &list, &tx);
    }
    let mut found: Option<Found> = None;
    let mut err = None;
    let mut stopping = false;
    while st.iter().any(|s| !s.done) {
        let msg = rx.recv_timeout(Duration::from_millis(500));
        if !stopping && Instant::now() > deadline {
            stopping = true;
            for s in st.iter_mut().filter(|s| !s.done) {
                kill(s.pid);
            }
        }
        if !stopping {
            for s in st.iter_mut().filter(|s| !s.done) {
                if s.last.elapsed() > HANG {
                    s.hung = true;
                    kill(s.pid);
                    s.last = Instant::now();
                }
            }
        }
        let mut report = |idx: u64, scenario: String, v: Violation, found: &mut Option<Found>| {
            if let Some(k) = known(&v) {
                *known_hits.entry(k).or_default() += 1;
                false
            } else {
                let better = found.as_ref().map(|f| idx < f.idx).unwrap_or(true);
                if better {
                    *found = Some(Found { idx, scenario, v });
                }
                true
            }
        };
        match msg {
            Err(_) => {}
            Ok(Msg::Line(w, l)) => {
                st[w].last = Instant::now();
                let mut it = l.splitn(3, ' ');
                let tag = it.next().unwrap_or("");
                let idx: u64 = it.next().and_then(|s| s.parse().ok()).unwrap_or(0);
                let rest = it.next().unwrap_or("");
                match tag {
                    "B" => {
                        st[w].current = Some(idx);
                        while let Some(x) = st[w].remaining.last().copied() {
                            st[w].remaining.pop();
                            if x == idx {
                                break;
                            }
                        }
                    }
                    "E" => {
                        st[w].current = None;
                        let v: Value = serde_json::from_str(rest).unwrap_or(Value::Null);
                        acc.runs += 1;
                        acc.checks += v["c"].as_u64().unwrap_or(0);
                        acc.sim_us += v["t"].as_u64().unwrap_or(0);
                        acc.draws += v["n"].as_u64().unwrap_or(0);
                        merge(&mut acc.faults, &v["f"]);
                        merge(&mut acc.probes, &v["p"]);
                        if v["f"].as_object().map(|o| !o.is_empty()).unwrap_or(false) {
                            acc.faulty_runs += 1;
                        }
                        *acc.per_scenario
                            .entry(v["s"].as_str().unwrap_or("?").into())
                            .or_default() += 1;
                        let d = v["d"].as_str().unwrap_or("").to_string();
                        if v["c"].as_u64().unwrap_or(0) > 0 {
                            acc.digests.insert(d.clone());
                        }
                        acc.by_idx.insert(idx, d);
                    }
                    "V" => {
                        let v: Value = serde_json::from_str(rest).unwrap_or(Value::Null);
                        let viol = Violation::new(
                            v["class"].as_str().unwrap_or("?"),
                            v["detail"].as_str().unwrap_or(""),
                        );
                        if report(
                            idx,
                            v["scenario"].as_str().unwrap_or("").into(),
                            viol,
                            &mut found,
                        ) && !stopping
                        {
                            stopping = true;
                            for s in st.iter().filter(|s| !s.done) {
                                kill(s.pid);
                            }
                        }
                    }
                    "H" => {
                        err = Some(format!("harness error in run {idx}: {rest}"));
                    }
                    _ => {}
                }
            }
            Ok(Msg::Exit(w, code, sig, e)) => {
                if code == Some(0) || stopping || err.is_some() {
                    st[w].done = true;
                } else {
                    let hung = st[w].hung;
                    st[w].hung = false;
                    match st[w].current.take() {
                        None => {
                            err = Some(format!("worker died between runs: {code:?} {sig:?} {e}"));
                            st[w].done = true;
                        }
                        Some(idx) => {
                            let sc = pick_scenario(p, idx);
                            acc.runs += 1;
                            // a stalled or overloaded machine also ends workers:
                            // only what happens again is the run's own doing
                            let v = if hung || sig == Some(9) {
                                let draws = record_crashing(p, sc, base, idx);
                                let again = run_case_subprocess(p, sc.name, &draws, run_seed(p, base, idx)).0;
                                for s in st.iter_mut() {
                                    s.last = Instant::now();
                                }
                                if again.is_none() {
                                    eprintln!("run {idx} ended with its worker, but not when repeated: not counted");
                                }
                                again
                            } else {
                                Some(crash_violation(sig, code, &e, hung))
                            };
                            let bad = match v {
                                Some(v) => report(idx, sc.name.to_string(), v, &mut found),
                                None => false,
                            };
                            if bad {
                                stopping = true;
                                for s in st.iter().filter(|s| !s.done) {
                                    kill(s.pid);
                                }
                                st[w].done = true;
                            } else {
                                let list: Vec<u64> =
                                    st[w].remaining.iter().rev().copied().collect();
                                if list.is_empty() {
                                    st[w].done = true;
                                } else {
                                    st[w].last = Instant::now();
                                    st[w].pid = spawn_worker(p, base, w, &list, &tx);
                                }
                            }
                        }
                    }
                }
                if err.is_some() {
                    for s in st.iter().filter(|s| !s.done) {
                        kill(s.pid);
                    }
                    for s in st.iter_mut() {
                        s.done = true;
                    }
                }
            }
        }
    }
    if found.is_some() {
        return Ok(found);
    }
    match err {
        Some(e) => Err(e),
        None => Ok(None),
    }
}

// ---------------------------------------------------------------- minimise

fn run_case_subprocess(
    p: &Property,
    scenario: &str,
    choices: &[u64],
    rand_seed: u64,
) -> (Option<Violation>, Vec<u64>) {
    let dir = std::env::temp_dir().join(format!("simcase-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join("case.json");
    let _ = std::fs::write(
        &f,
        json!({"property": p.id, "scenario": scenario, "choices": choices, "rand_seed": rand_seed})
            .to_string(),
    );
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(exe)
        .arg("runcase")
        .arg(&f)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("spawn case");
    let pid = child.id();
    let (tx, rx) = mpsc::channel::<()>();
    let flag = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let f2 = flag.clone();
    let wd = std::thread::spawn(move || {
        if rx.recv_timeout(Duration::from_secs(30)).is_err() {
            f2.store(true, std::sync::atomic::Ordering::SeqCst);
            kill(pid);
        }
    });
    let mut out = String::new();
    let mut e = String::new();
    use std::io::Read;
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = se.read_to_end(&mut b);
        String::from_utf8_lossy(&b).into_owned()
    });
    let _ = so.read_to_string(&mut out);
    let status = child.wait().ok();
    let _ = tx.send(());
    let _ = wd.join();
    e.push_str(&h.join().unwrap_or_default());
    let hung = flag.load(std::sync::atomic::Ordering::SeqCst);
    let _ = std::fs::remove_dir_all(&dir);
    use std::os::unix::process::ExitStatusExt;
    for l in out.lines() {
        if let Some(j) = l.strip_prefix("R ") {
            let v: Value = serde_json::from_str(j).unwrap_or(Value::Null);
            let log = v["choices"]
                .as_array()
                .map(|a| a.iter().filter_map(|x| x.as_u64()).collect())
                .unwrap_or_default();
            let viol = v["class"].as_str().map(|c| {
                Violation::new(c, v["detail"].as_str().unwrap_or(""))
            });
            return (viol, log);
        }
    }
    (
        Some(crash_violation(
            status.and_then(|s| s.signal()),
            status.and_then(|s| s.code()),
            &e,
            hung,
        )),
        choices.to_vec(),
    )
}

fn minimise(
    p: &Property,
    sc: &Scenario,
    class: &str,
    start: Vec<u64>,
    rand_seed: u64,
    budget: Duration,
) -> (Vec<u64>, u64) {
    let t0 = Instant::now();
    let crashy = class.starts_with("abort") || class == "hang";
    let mut tries = 0u64;
    let mut test = |c: &[u64]| -> Option<Vec<u64>> {
        tries += 1;
        if crashy {
            let (v, log) = run_case_subprocess(p, sc.name, c, rand_seed);
            if v.map(|v| v.class == class).unwrap_or(false) {
                return Some(log);
            }
            None
        } else {
            let r = execute(sc, Choices::replay(c.to_vec()), false, rand_seed);
            match r.violation {
                Some(v) if v.class == class => Some(r.ctx.choices.log),
                _ => None,
            }
        }
    };
    let mut best = start;
    if class == "hang" {
        return (best, 0);
    }
    let simpler = |a: &[u64], b: &[u64]| -> bool {
        // shortlex
        (a.len(), a) < (b.len(), b)
    };
    let mut improved = true;
    while improved && t0.elapsed() < budget {
        improved = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() && t0.elapsed() < budget {
                let mut c = best.clone();
                let end = (i + size).min(c.len());
                c.drain(i..end);
                match test(&c) {
                    Some(log) if simpler(&log, &best) => {
                        best = log;
                        improved = true;
                    }
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks, then single values lower
        for size in [8usize, 1] {
            let mut i = 0;
            while i < best.len() && t0.elapsed() < budget {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..end].iter_mut().for_each(|v| *v = 0);
                    if let Some(log) = test(&c) {
                        if simpler(&log, &best) {
                            best = log;
                            improved = true;
                        }
                    }
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() && t0.elapsed() < budget {
            let mut lo = 0u64;
            while i < best.len() && lo < best[i] && t0.elapsed() < budget {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                match test(&c) {
                    Some(log) if simpler(&log, &best) => {
                        best = log;
                        improved = true;
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
    }
    (best, tries)
}

// ---------------------------------------------------------------- known findings

pub struct Known {
    pub entries: Vec<(String, String, String)>, // property, class pattern, text
}

impl Known {
    pub fn load(dir: &Path) -> Known {
        let mut entries = Vec::new();
        if let Ok(s) = std::fs::read_to_string(dir.join("known_findings.json")) {
            let v: Value = serde_json::from_str(&s).unwrap_or(Value::Null);
            if let Some(a) = v["open"].as_array() {
                for e in a {
                    entries.push((
                        e["property"].as_str().unwrap_or("").into(),
                        e["class"].as_str().unwrap_or("").into(),
                        e["what"].as_str().unwrap_or("").into(),
                    ));
                }
            }
        }
        Known { entries }
    }
    pub fn matches(&self, prop: &str, class: &str) -> Option<String> {
        self.entries
            .iter()
            .find(|(p, c, _)| p == prop && c == class)
            .map(|(_, _, t)| t.clone())
    }
}

// ---------------------------------------------------------------- main

fn find_prop<'a>(props: &'a [Property], id: &str) -> &'a Property {
    props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    })
}

fn arg_u64(args: &[String], name: &str) -> Option<u64> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1))
        .and_then(|s| s.parse().ok())
}

pub fn main_with(props: &[Property]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let own = match args.get(1).map(|s| s.as_str()) {
        Some("check") | Some("replay") | Some("seed")
            if std::env::var_os("SIM_SCRATCH").is_none() =>
        {
            Some(make_scratch())
        }
        _ => None,
    };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let p = find_prop(props, &args[2]);
            let base: u64 = args[3].parse().unwrap();
            let mut s = String::new();
            use std::io::Read;
            std::io::stdin().read_to_string(&mut s).unwrap();
            let idxs = s.split_whitespace().map(|x| x.parse().unwrap()).collect();
            worker(p, base, idxs)
        }
        Some("runcase") => {
            install_hook();
            let v: Value =
                serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let p = find_prop(props, v["property"].as_str().unwrap());
            let sc = find_scenario(p, v["scenario"].as_str().unwrap());
            let r = execute(
                sc,
                Choices::replay(choices_of(&v)),
                false,
                v["rand_seed"].as_u64().unwrap(),
            );
            if let Some(h) = r.harness_error {
                eprintln!("harness error: {h}");
                std::process::exit(4);
            }
            println!(
                "R {}",
                json!({"class": r.violation.as_ref().map(|v| v.class.clone()),
                       "detail": r.violation.as_ref().map(|v| v.detail.clone()),
                       "choices": r.ctx.choices.log,
                       "digest": format!("{:016x}", r.ctx.digest())})
            );
            0
        }
        Some("replay") => replay(props, &args[2]),
        Some("seed") => {
            // debugging: run one index verbosely
            install_hook();
            let p = find_prop(props, &args[2]);
            let base: u64 = args[3].parse().unwrap();
            let idx: u64 = args[4].parse().unwrap();
            let sc = pick_scenario(p, idx);
            let seed = run_seed(p, base, idx);
            let r = execute(sc, Choices::seeded(seed), true, seed);
            println!("scenario {}", sc.name);
            for e in &r.ctx.events {
                println!("  {e}");
            }
            println!("violation: {:?} harness: {:?}", r.violation, r.harness_error);
            println!("faults {:?}\nprobes {:?}", r.ctx.faults, r.ctx.probes);
            0
        }
        Some("check") => {
            let p = find_prop(props, &args[2]);
            check(p, &args)
        }
        Some("list") => {
            for p in props {
                println!("{} {:?}", p.id, p.scenarios.iter().map(|s| s.name).collect::<Vec<_>>());
            }
            0
        }
        _ => {
            eprintln!("usage: check <ID> | replay <file> | seed <ID> <base> <idx> | list");
            2
        }
    };
    let _ = std::io::stdout().flush();
    if let Some(d) = own {
        let _ = std::fs::remove_dir_all(&d);
    }
    std::process::exit(code)
}

fn choices_of(v: &Value) -> Vec<u64> {
    v["choices"]
        .as_array()
        .map(|a| a.iter().filter_map(|x| x.as_u64()).collect())
        .unwrap_or_default()
}

fn find_scenario(p: &Property, name: &str) -> &'static Scenario {
    p.scenarios
        .iter()
        .find(|s| s.name == name)
        .expect("scenario of replay file")
}

fn replay(props: &[Property], file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file"))
        .expect("replay json");
    let p = find_prop(props, v["property"].as_str().unwrap());
    let sc = find_scenario(p, v["scenario"].as_str().unwrap());
    let rs = v["rand_seed"].as_u64().unwrap();
    let want = v["violation"]["class"].as_str().unwrap_or("");
    let got;
    if want.starts_with("abort") || want == "hang" {
        let (g, _) = run_case_subprocess(p, sc.name, &choices_of(&v), rs);
        got = g;
    } else {
        install_hook();
        let r = execute(sc, Choices::replay(choices_of(&v)), true, rs);
        for e in &r.ctx.events {
            println!("  {e}");
        }
        if let Some(h) = r.harness_error {
            eprintln!("harness error: {h}");
            return 3;
        }
        got = r.violation;
    }
    match got {
        Some(g) if g.class == want => {
            println!("reproduced: {} -- {}", g.class, g.detail);
            println!("VIOLATION property={} replay={}", p.id, file);
            1
        }
        Some(g) => {
            println!("different violation: {} -- {}", g.class, g.detail);
            1
        }
        None => {
            println!("not reproduced: the property holds on this history");
            0
        }
    }
}

fn check(p: &Property, args: &[String]) -> i32 {
    let t0 = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if args.iter().any(|a| a == "--thorough") {
        "thorough".to_string()
    } else if args.iter().any(|a| a == "--quick") {
        "quick".to_string()
    } else {
        tier
    };
    let base: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<u64>().ok().or_else(|| Some(fnv(s.as_bytes()))))
        .unwrap_or(1);
    let base = arg_u64(args, "--seed").unwrap_or(base);
    let workers = arg_u64(args, "--workers").unwrap_or_else(|| {
        std::thread::available_parallelism()
            .map(|n| n.get() as u64)
            .unwrap_or(4)
            .min(8)
    }) as usize;
    let runs = arg_u64(args, "--runs").unwrap_or(if tier == "thorough" {
        p.thorough_runs
    } else {
        p.quick_runs
    });
    let wall = arg_u64(args, "--wall").unwrap_or(if tier == "thorough" { 3000 } else { 420 });
    println!(
        "simulation property={} tier={} VERIF_SEED={} runs={} workers={}",
        p.id, tier, base, runs, workers
    );
    let dir = verif_dir();
    let known = Known::load(&dir);
    let km = |v: &Violation| known.matches(p.id, &v.class);
    let mut hits = BTreeMap::new();
    let mut acc = Acc::default();
    let res = run_batch(
        p,
        base,
        (0..runs).collect(),
        workers,
        t0 + Duration::from_secs(wall),
        &km,
        &mut hits,
        &mut acc,
    );
    let found = match res {
        Ok(f) => f,
        Err(e) => {
            eprintln!("CHECK-ERROR property={} {e}", p.id);
            return 3;
        }
    };
    let search_s = t0.elapsed().as_secs_f64();

    // determinism: replay a sample in other processes, other partition
    let mut resampled = 0u64;
    let mut diverged = 0u64;
    if found.is_none() {
        let sample: Vec<u64> = acc
            .by_idx
            .keys()
            .copied()
            .filter(|i| mix(*i, 77) % 16 == 0)
            .take(if tier == "thorough" { 2000 } else { 160 })
            .collect();
        let mut acc2 = Acc::default();
        let mut h2 = BTreeMap::new();
        let _ = run_batch(
            p,
            base,
            sample,
            3.min(workers.max(1)),
            Instant::now() + Duration::from_secs(120),
            &km,
            &mut h2,
            &mut acc2,
        );
        for (i, d) in &acc2.by_idx {
            resampled += 1;
            if acc.by_idx.get(i) != Some(d) {
                diverged += 1;
                eprintln!("determinism: run {i} diverged");
            }
        }
    }

    let mut violations = Vec::new();
    let mut code = 0;
    if let Some(f) = &found {
        let sc = find_scenario(p, &f.scenario);
        let seed = run_seed(p, base, f.idx);
        install_hook();
        let crashy = f.v.class.starts_with("abort") || f.v.class == "hang";
        // recover the draws of the failing seed
        let start = if crashy {
            // the run kills its process: regenerate draws long enough
            let mut c = Choices::seeded(seed);
            // bounds are unknown outside the run; replay through a subprocess
            // using the seed itself instead of a draw list
            let _ = &mut c;
            record_crashing(p, sc, base, f.idx)
        } else {
            execute(sc, Choices::seeded(seed), false, seed).ctx.choices.log
        };
        let orig_len = start.len();
        let (best, tries) = minimise(
            p,
            sc,
            &f.v.class,
            start,
            seed,
            Duration::from_secs(if tier == "thorough" { 120 } else { 45 }),
        );
        let (events, fin) = if crashy {
            let (v, _) = run_case_subprocess(p, sc.name, &best, seed);
            (vec![], v)
        } else {
            let r = execute(sc, Choices::replay(best.clone()), true, seed);
            (r.ctx.events, r.violation)
        };
        let fin = fin.unwrap_or_else(|| f.v.clone());
        let rdir = dir.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let rf = rdir.join(format!("{}-{}-{}.json", p.id, base, f.idx));
        let _ = std::fs::write(
            &rf,
            serde_json::to_string_pretty(&json!({
                "property": p.id, "scenario": sc.name, "verif_seed": base, "run_index": f.idx,
                "rand_seed": seed, "violation": {"class": fin.class, "detail": fin.detail},
                "choices": best, "draws_before_minimisation": orig_len,
                "minimisation_runs": tries, "schedule_and_fault_trace": events,
                "how_to_replay": format!("{} replay {}", std::env::current_exe().unwrap().display(), rf.display()),
            }))
            .unwrap(),
        );
        // replay in a fresh process
        let out = Command::new(std::env::current_exe().unwrap())
            .arg("replay")
            .arg(&rf)
            .output();
        let rep = out.map(|o| o.status.code() == Some(1)).unwrap_or(false);
        println!(
            "violation class={} run={} draws {}->{} replayed_in_fresh_process={}",
            fin.class,
            f.idx,
            orig_len,
            best.len(),
            rep
        );
        println!("  {}", fin.detail.replace('\n', " "));
        for e in events.iter().rev().take(25).collect::<Vec<_>>().iter().rev() {
            println!("  | {e}");
        }
        println!("VIOLATION property={} replay={}", p.id, rf.display());
        violations.push(json!({"class": fin.class, "detail": fin.detail, "replay": rf.display().to_string(), "reproduced": rep}));
        code = 1;
    }
    for (k, n) in &hits {
        println!("KNOWN-FINDING: property={} {} (hit in {} runs)", p.id, k, n);
    }
    let wall_s = t0.elapsed().as_secs_f64();
    let samples: Vec<Value> = acc
        .by_idx
        .iter()
        .take(5)
        .map(|(i, d)| json!({"run": i, "seed": format!("{:016x}", run_seed(p, base, *i)), "event_log_digest": d}))
        .collect();
    let ev = json!({
        "property": p.id, "tier": tier, "seed": base, "level": p.level,
        "coverage": {
            "evaluations": acc.checks.max(acc.runs),
            "distinct_nontrivial": acc.digests.len(),
            "rule": p.rule,
            "samples": samples,
            "simulated_runs": acc.runs,
            "runs_with_faults": acc.faulty_runs,
            "seeds_per_hour": (acc.runs as f64 / search_s.max(0.001) * 3600.0).round(),
            "simulated_time_s": acc.sim_us as f64 / 1e6,
            "draws": acc.draws,
            "faults_injected": acc.faults,
            "probes": acc.probes,
            "runs_per_scenario": acc.per_scenario,
            "distinct_measure": "digest of the run's full event log (operations, schedule decisions, faults fired, results)",
            "determinism": {"runs_repeated_in_other_process": resampled, "diverged": diverged},
            "components_real": p.real, "components_stub": p.stub,
            "workers": workers,
            "known_findings_hit": hits,
        },
        "wall_s": wall_s, "assumptions": p.assumptions, "violations": violations,
    });
    let edir = dir.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(
        edir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .expect("write evidence");
    println!(
        "runs={} checks={} distinct={} faults={:?} diverged={}/{} search={:.1}s",
        acc.runs,
        acc.checks,
        acc.digests.len(),
        acc.faults,
        diverged,
        resampled,
        search_s
    );
    println!("probes={:?}", acc.probes);
    if code == 0 && found.is_none() {
        println!("OK property={}", p.id);
    }
    code
}

/// A run that kills its process cannot hand back its draw log, so a child runs
/// the seed with every draw appended to a file.
fn record_crashing(p: &Property, sc: &Scenario, base: u64, idx: u64) -> Vec<u64> {
    let _ = (sc, base);
    let seed = run_seed(p, base, idx);
    let f = std::env::temp_dir().join(format!("simrec-{}-{}", std::process::id(), idx));
    let _ = std::fs::remove_file(&f);
    let mut child = Command::new(std::env::current_exe().unwrap())
        .arg("worker")
        .arg(p.id)
        .arg(base.to_string())
        .env("SIM_RECORD", &f)
        .stdin(Stdio::piped())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn recorder");
    let _ = child
        .stdin
        .take()
        .unwrap()
        .write_all(idx.to_string().as_bytes());
    let t = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(_)) => break,
            _ if t.elapsed() > Duration::from_secs(40) => {
                let _ = child.kill();
                let _ = child.wait();
                break;
            }
            _ => std::thread::sleep(Duration::from_millis(20)),
        }
    }
    let _ = seed;
    let data = std::fs::read(&f).unwrap_or_default();
    let _ = std::fs::remove_file(&f);
    data.chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect()
}
