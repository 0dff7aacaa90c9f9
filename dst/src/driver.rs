//! Runs simulations: worker processes, watchdogs, minimisation, replay files, evidence.

use std::collections::{BTreeMap, HashSet};
use std::fs::{self, File};
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::core::{mix64, Ctx, Violation};
use crate::env::{catch, fresh_seed, install_panic_hook, with_hash_seed, Caught};
use crate::props::{self, Prop, PROPS};

/// CPU seconds one run may take before it counts as hung (normal runs take well under 0.1)
const HANG_CPU: f64 = 20.0;
/// The same while minimising
const HANG_CPU_MIN: u64 = 5;
/// Wall seconds without CPU use before a run counts as deadlocked
const STALL_WALL: f64 = 90.0;
const AS_LIMIT: u64 = 2 << 30;

fn profile() -> &'static str {
    if cfg!(debug_assertions) {
        "checked"
    } else {
        "plain"
    }
}

fn other_exe(prof: &str) -> PathBuf {
    let me = std::env::current_exe().expect("current_exe");
    if prof == profile() {
        return me;
    }
    me.parent().unwrap().parent().unwrap().join(prof).join(me.file_name().unwrap())
}

fn run_profile(run: u64) -> &'static str {
    if run % 2 == 0 {
        "checked"
    } else {
        "plain"
    }
}

fn run_seed(seed: u64, prop: &str, run: u64) -> u64 {
    let mut h = mix64(seed ^ 0xC0C0);
    for b in prop.bytes() {
        h = mix64(h ^ b as u64);
    }
    mix64(h ^ mix64(run))
}

/// One simulated run on the calling process. The first choice is the hash seed of the run's thread.
fn execute(p: &Prop, ctx: &Ctx) -> Result<(), Violation> {
    let h = fresh_seed(ctx);
    let c2 = ctx.clone();
    let f = p.run;
    match catch(move || with_hash_seed(h, move || f(&c2))) {
        Caught::Value(r) => r.map_err(|v| Violation { class: v.class, msg: crate::core::shorten(v.msg) }),
        Caught::Injected(w) => Err(Violation { class: "harness".into(), msg: format!("injected panic '{}' escaped", w) }),
        Caught::Panic(m) if m.contains("the two reference models disagree") || m.contains("harness:") => Err(Violation { class: "harness".into(), msg: m }),
        Caught::Panic(m) => Err(Violation { class: "panic".into(), msg: crate::core::shorten(format!("unexpected panic: {}", m)) }),
    }
}

fn cpu_now() -> f64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
}

fn limit_memory() {
    unsafe {
        let r = libc::rlimit { rlim_cur: AS_LIMIT, rlim_max: AS_LIMIT };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &r);
    }
}

// ---------------------------------------------------------------------------------------------------------
// Worker

static CUR_RUN: AtomicU64 = AtomicU64::new(u64::MAX);

struct WorkerOut {
    runs: u64,
    nontrivial: u64,
    digests: HashSet<u64>,
    steps: u64,
    choices: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    fault_runs: u64,
    samples: Vec<String>,
    fails: Vec<Value>,
    known: BTreeMap<String, u64>,
    trace: Vec<String>,
    slowest: f64,
    slowest_run: u64,
    late: bool,
}

fn known_match<'a>(known: &'a [Known], prop: &str, v: &Violation) -> Option<&'a Known> {
    known.iter().find(|k| k.prop == prop && k.class == v.class && v.msg.contains(&k.substr))
}

/// worker PROP TIER SEED FIRST STEP END DEADLINE_S DIR TRACE
fn worker(a: &[String]) -> i32 {
    let p = props::find(&a[0]).expect("property");
    let thorough = a[1] == "thorough";
    let seed: u64 = a[2].parse().unwrap();
    let first: u64 = a[3].parse().unwrap();
    let step: u64 = a[4].parse().unwrap();
    let end: u64 = a[5].parse().unwrap();
    let deadline = Duration::from_secs_f64(a[6].parse().unwrap());
    let dir = PathBuf::from(&a[7]);
    let trace = a[8] == "1";
    let known = read_known();
    let start = Instant::now();
    let stop_file = dir.join("stop");
    let status_path = dir.join(format!("status.{}", first));
    let mut status = File::create(&status_path).expect("status file");
    limit_memory();

    // watchdog: looks at this process's own CPU clock, so a busy machine cannot cause an alarm
    std::thread::spawn(move || {
        let mut run = u64::MAX;
        let mut cpu0 = 0.0;
        let mut wall0 = Instant::now();
        let mut last_cpu = 0.0;
        let mut last_progress = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let r = CUR_RUN.load(Ordering::SeqCst);
            let c = cpu_now();
            if r != run {
                run = r;
                cpu0 = c;
                wall0 = Instant::now();
                last_cpu = c;
                last_progress = wall0;
                continue;
            }
            let _ = wall0;
            if run == u64::MAX {
                continue;
            }
            if c - last_cpu > 0.05 {
                last_cpu = c;
                last_progress = Instant::now();
            }
            if c - cpu0 > HANG_CPU {
                unsafe { libc::_exit(77) }
            }
            if last_progress.elapsed().as_secs_f64() > STALL_WALL {
                unsafe { libc::_exit(78) }
            }
        }
    });

    let mut o = WorkerOut {
        runs: 0, nontrivial: 0, digests: HashSet::new(), steps: 0, choices: 0, faults: BTreeMap::new(), probes: BTreeMap::new(),
        fault_runs: 0, samples: vec![], fails: vec![], known: BTreeMap::new(), trace: vec![], slowest: 0.0, slowest_run: 0, late: false,
    };
    let mut run = first;
    let mut polled = Instant::now();
    let mut stop_at = u64::MAX;
    while run < end && run < stop_at {
        if run_profile(run) != profile() {
            run += step;
            continue;
        }
        if polled.elapsed().as_millis() > 50 {
            polled = Instant::now();
            if start.elapsed() > deadline {
                o.late = true;
                break;
            }
            if let Ok(s) = fs::read_to_string(&stop_file) {
                if let Ok(n) = s.trim().parse() {
                    stop_at = n;
                }
            }
        }
        use std::os::unix::fs::FileExt;
        let _ = status.write_all_at(&run.to_le_bytes(), 0);
        CUR_RUN.store(run, Ordering::SeqCst);
        let ctx = Ctx::random(run_seed(seed, p.id, run), false, thorough);
        let c0 = cpu_now();
        let res = execute(p, &ctx);
        let dt = cpu_now() - c0;
        if dt > o.slowest {
            o.slowest = dt;
            o.slowest_run = run;
        }
        let mut i = ctx.inner();
        o.runs += 1;
        o.steps += i.steps;
        o.choices += i.rec.len() as u64;
        if i.nontrivial {
            o.nontrivial += 1;
            o.digests.insert(i.digest);
            if o.samples.len() < 2 && i.rec.len() > 8 {
                if let Some(s) = i.sample.take() {
                    o.samples.push(format!("run {}: {}", run, s.chars().take(600).collect::<String>()));
                }
            }
        }
        if !i.faults.is_empty() {
            o.fault_runs += 1;
        }
        for (k, v) in i.faults.iter() {
            *o.faults.entry(k.to_string()).or_insert(0) += *v;
        }
        for (k, v) in i.probes.iter() {
            *o.probes.entry(k.to_string()).or_insert(0) += *v;
        }
        if trace {
            o.trace.push(format!("{} {:016x} {} {} {}", run, i.digest, i.steps, i.rec.len(), match res { Ok(()) => "ok".to_string(), Err(ref v) => v.class.clone() }));
        }
        if let Err(v) = res {
            if let Some(k) = known_match(&known, p.id, &v) {
                *o.known.entry(k.desc.clone()).or_insert(0) += 1;
            } else {
                o.fails.push(json!({"run": run, "class": v.class, "msg": v.msg, "choices": i.rec.clone()}));
                break;
            }
        }
        drop(i);
        run += step;
    }
    CUR_RUN.store(u64::MAX, Ordering::SeqCst);
    let dig: Vec<u64> = o.digests.into_iter().collect();
    let mut bytes = Vec::with_capacity(dig.len() * 8);
    for d in dig {
        bytes.extend_from_slice(&d.to_le_bytes());
    }
    fs::write(dir.join(format!("digests.{}", first)), bytes).expect("digests");
    if trace {
        fs::write(dir.join(format!("trace.{}", first)), o.trace.join("\n") + "\n").expect("trace");
    }
    let v = json!({
        "runs": o.runs, "nontrivial": o.nontrivial, "steps": o.steps, "choices": o.choices, "faults": o.faults, "probes": o.probes,
        "fault_runs": o.fault_runs, "samples": o.samples, "fails": o.fails, "known": o.known, "slowest": o.slowest,
        "slowest_run": o.slowest_run, "late": o.late,
    });
    fs::write(dir.join(format!("out.{}", first)), serde_json::to_vec(&v).unwrap()).expect("out");
    0
}

// ---------------------------------------------------------------------------------------------------------
// One run in a forked child: survives hangs and aborts

struct Tried {
    class: Option<String>,
    msg: String,
    choices: Vec<u64>,
    digest: u64,
    log: Vec<String>,
    steps: u64,
}

struct Pending {
    pid: i32,
    pipe: File,
    buf: Vec<u8>,
    start: Instant,
    cpu_limit: u64,
    sink: Option<PathBuf>,
}

enum Source<'a> {
    Seed(u64),
    Choices(&'a [u64]),
}

fn spawn_run(p: &Prop, src: Source, thorough: bool, cpu_limit: u64, sink: Option<PathBuf>) -> Pending {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            limit_memory();
            let r = libc::rlimit { rlim_cur: cpu_limit, rlim_max: cpu_limit + 1 };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
            let log = sink.is_some();
            let ctx = match src {
                Source::Seed(s) => Ctx::random(s, log, thorough),
                Source::Choices(c) => Ctx::replay(c.to_vec(), log, thorough),
            };
            if let Some(ref s) = sink {
                ctx.inner().sink = File::create(s).ok();
            }
            let res = execute(p, &ctx);
            let i = ctx.inner();
            let (class, msg) = match res {
                Ok(()) => (None, String::new()),
                Err(v) => (Some(v.class), v.msg),
            };
            let v = json!({"class": class, "msg": msg, "choices": i.rec, "digest": i.digest, "log": i.log, "steps": i.steps});
            let mut f = File::from_raw_fd(fds[1]);
            let _ = f.write_all(&serde_json::to_vec(&v).unwrap());
            drop(f);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let pipe = File::from_raw_fd(fds[0]);
        let fl = libc::fcntl(fds[0], libc::F_GETFL);
        libc::fcntl(fds[0], libc::F_SETFL, fl | libc::O_NONBLOCK);
        Pending { pid, pipe, buf: vec![], start: Instant::now(), cpu_limit, sink }
    }
}

fn finish_run(mut q: Pending) -> Tried {
    let mut killed = false;
    let status = loop {
        let mut pfd = libc::pollfd { fd: q.pipe.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        unsafe { libc::poll(&mut pfd, 1, 100) };
        let mut eof = false;
        let mut tmp = [0u8; 65536];
        loop {
            match q.pipe.read(&mut tmp) {
                Ok(0) => {
                    eof = true;
                    break;
                }
                Ok(n) => q.buf.extend_from_slice(&tmp[..n]),
                Err(_) => break,
            }
        }
        let mut st = 0;
        if eof {
            unsafe { libc::waitpid(q.pid, &mut st, 0) };
            break st;
        }
        if q.start.elapsed().as_secs_f64() > STALL_WALL + 4.0 * q.cpu_limit as f64 && !killed {
            killed = true;
            unsafe { libc::kill(q.pid, libc::SIGKILL) };
        }
    };
    if let Ok(v) = serde_json::from_slice::<Value>(&q.buf) {
        return Tried {
            class: v["class"].as_str().map(|s| s.to_string()),
            msg: v["msg"].as_str().unwrap_or("").to_string(),
            choices: v["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default(),
            digest: v["digest"].as_u64().unwrap_or(0),
            steps: v["steps"].as_u64().unwrap_or(0),
            log: v["log"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default(),
        };
    }
    let sig = if libc::WIFSIGNALED(status) { libc::WTERMSIG(status) } else { 0 };
    let (class, msg) = if killed {
        ("hang", "the run stopped making progress (deadlock)".to_string())
    } else if sig == libc::SIGXCPU || sig == libc::SIGKILL {
        ("hang", format!("the run did not finish within {} CPU seconds", q.cpu_limit))
    } else {
        ("abort", format!("the process died (signal {}, status {}): out of memory, stack overflow or abort", sig, status))
    };
    let mut choices = vec![];
    let mut log = vec![];
    if let Some(s) = q.sink.as_ref().and_then(|s| fs::read_to_string(s).ok()) {
        for l in s.lines() {
            if let Some(c) = l.strip_prefix("c ") {
                if let Ok(n) = c.parse() {
                    choices.push(n);
                }
            } else if let Some(t) = l.strip_prefix("l ") {
                log.push(t.to_string());
            }
        }
    }
    Tried { class: Some(class.to_string()), msg, choices, digest: 0, steps: 0, log }
}

// ---------------------------------------------------------------------------------------------------------
// Minimisation (process: `minimise IN OUT`, must be the binary of the failing profile)

/// A smaller history, as a change to the current one (histories can be long: they are made when they are tried)
#[derive(Clone, Copy)]
enum Cut {
    Keep(usize),
    Delete(usize, usize),
    Zero(usize, usize),
    Set(usize, u64),
}

impl Cut {
    fn of(&self, cur: &[u64]) -> Vec<u64> {
        let mut c = cur.to_vec();
        match *self {
            Cut::Keep(n) => c.truncate(n),
            Cut::Delete(at, k) => {
                c.drain(at..at + k);
            }
            Cut::Zero(at, k) => c[at..at + k].iter_mut().for_each(|x| *x = 0),
            Cut::Set(at, v) => c[at] = v,
        }
        c
    }
}

fn candidates(cur: &[u64], phase: usize) -> Vec<Cut> {
    let n = cur.len();
    let mut out = vec![];
    match phase {
        // cut the tail
        0 => {
            let mut k = n / 2;
            while k > 0 {
                out.push(Cut::Keep(n - k));
                k /= 2;
            }
        }
        // delete blocks / zero blocks
        1 | 2 => {
            let mut sizes = vec![];
            let mut k = n / 4;
            while k > 96 {
                sizes.push(k);
                k /= 3;
            }
            sizes.extend([64usize, 32, 16, 8, 4, 3, 2, 1]);
            for size in sizes {
                if size > n {
                    continue;
                }
                let mut at = 0;
                while at + size <= n {
                    if phase == 1 {
                        out.push(Cut::Delete(at, size));
                    } else if cur[at..at + size].iter().any(|x| *x != 0) {
                        out.push(Cut::Zero(at, size));
                    }
                    at += (size / 2).max(1);
                }
            }
        }
        // lower single values
        _ => {
            for at in 0..n {
                if cur[at] > 0 {
                    for v in [cur[at] / 2, cur[at] - 1] {
                        if v < cur[at] && v != 0 {
                            out.push(Cut::Set(at, v));
                        }
                    }
                }
            }
        }
    }
    out
}

fn minimise(a: &[String]) -> i32 {
    let v: Value = serde_json::from_slice(&fs::read(&a[0]).expect("in")).expect("json");
    let p = props::find(v["property"].as_str().unwrap()).expect("property");
    let thorough = v["thorough"].as_bool().unwrap_or(false);
    let budget = Duration::from_secs_f64(v["budget"].as_f64().unwrap_or(45.0));
    let start = Instant::now();
    let class;
    let mut cur: Vec<u64>;
    let sink = PathBuf::from(format!("{}.sink", a[1]));
    let seed = run_seed(v["seed"].as_u64().unwrap(), p.id, v["run"].as_u64().unwrap());
    if let Some(c) = v["choices"].as_array() {
        cur = c.iter().map(|x| x.as_u64().unwrap()).collect();
        class = v["class"].as_str().unwrap().to_string();
    } else {
        // the worker died: repeat the run from its seed, writing choices out as they are made
        let t = finish_run(spawn_run(p, Source::Seed(seed), thorough, HANG_CPU as u64, Some(sink.clone())));
        cur = t.choices;
        class = match t.class {
            Some(c) => c,
            None => {
                fs::write(&a[1], serde_json::to_vec(&json!({"gone": true})).unwrap()).expect("out");
                return 0;
            }
        };
    }
    let orig = cur.clone();
    let slow = class == "hang" || class == "abort";
    let cpu = if slow { HANG_CPU_MIN } else { HANG_CPU_MIN * 2 };
    let width = if slow { 8 } else { 6 };
    let mut tries = 0u64;
    'outer: loop {
        let before = cur.clone();
        for phase in 0..4 {
            let mut from = 0usize;
            'again: loop {
                let cs = candidates(&cur, phase);
                let mut at = from.min(cs.len());
                while at < cs.len() {
                    if start.elapsed() > budget {
                        break 'outer;
                    }
                    let batch: Vec<Vec<u64>> = cs[at..(at + width).min(cs.len())].iter().map(|c| c.of(&cur)).collect();
                    let pend: Vec<Pending> = batch.iter().map(|c| spawn_run(p, Source::Choices(c), thorough, cpu, None)).collect();
                    tries += batch.len() as u64;
                    let mut hit = None;
                    for (k, q) in pend.into_iter().enumerate() {
                        let t = finish_run(q);
                        if hit.is_none() && t.class.as_deref() == Some(&class) {
                            let next = if slow { batch[k].clone() } else { t.choices };
                            // only ever move to something smaller
                            if (next.len(), &next) < (cur.len(), &cur) {
                                hit = Some((k, next));
                            }
                        }
                    }
                    if let Some((k, next)) = hit {
                        cur = next;
                        from = if phase == 0 { 0 } else { (at + k).saturating_sub(1) };
                        continue 'again;
                    }
                    at += batch.len();
                }
                break;
            }
        }
        if cur == before {
            break;
        }
    }
    // the final word: a logged run under the full limits
    for cand in [cur, orig] {
        let t = finish_run(spawn_run(p, Source::Choices(&cand), thorough, HANG_CPU as u64, Some(sink.clone())));
        if t.class.as_deref() == Some(&class) {
            let out = json!({"class": class, "msg": t.msg, "choices": cand, "digest": t.digest, "log": t.log, "steps": t.steps, "tries": tries});
            fs::write(&a[1], serde_json::to_vec(&out).unwrap()).expect("out");
            let _ = fs::remove_file(&sink);
            return 0;
        }
    }
    let _ = fs::remove_file(&sink);
    fs::write(&a[1], serde_json::to_vec(&json!({"gone": true})).unwrap()).expect("out");
    0
}

// ---------------------------------------------------------------------------------------------------------
// Replay

fn replay(file: &str) -> i32 {
    let v: Value = match fs::read(file).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {}", file);
            return 2;
        }
    };
    let prof = v["profile"].as_str().unwrap_or("checked");
    if prof != profile() {
        return match Command::new(other_exe(prof)).arg("replay").arg(file).status() {
            Ok(s) => s.code().unwrap_or(2),
            Err(e) => {
                eprintln!("{}", e);
                2
            }
        };
    }
    let p = props::find(v["property"].as_str().unwrap_or("")).expect("property");
    let choices: Vec<u64> = v["choices"].as_array().expect("choices").iter().map(|x| x.as_u64().unwrap()).collect();
    let sink = std::env::temp_dir().join(format!("dst-replay-{}", std::process::id()));
    let t = finish_run(spawn_run(p, Source::Choices(&choices), v["thorough"].as_bool().unwrap_or(false), HANG_CPU as u64, Some(sink.clone())));
    let _ = fs::remove_file(&sink);
    for l in &t.log {
        println!("  {}", l);
    }
    match t.class {
        None => {
            println!("replay: the run holds (recorded violation: {})", v["class"].as_str().unwrap_or("?"));
            0
        }
        Some(c) => {
            println!("replay: {}: {}", c, t.msg);
            let same = Some(c.as_str()) == v["class"].as_str() && v["digest"].as_u64() == Some(t.digest);
            println!("replay: {} the recorded violation", if same { "exactly reproduces" } else { "differs from" });
            println!("VIOLATION property={} replay={}", p.id, file);
            1
        }
    }
}

// ---------------------------------------------------------------------------------------------------------
// Known findings

struct Known {
    prop: String,
    class: String,
    substr: String,
    desc: String,
}

/// Lines `known: property=C01 class=abc match="text" what fails`; all other lines are for people
fn read_known() -> Vec<Known> {
    let mut out = vec![];
    let f = root().join("known_findings.txt");
    for l in fs::read_to_string(f).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let get = |k: &str| r.split_whitespace().find_map(|w| w.strip_prefix(k)).unwrap_or("").to_string();
            let substr = r.split("match=\"").nth(1).and_then(|s| s.split('"').next()).unwrap_or("").to_string();
            let desc = r.rsplit("\" ").next().unwrap_or(r).to_string();
            out.push(Known { prop: get("property="), class: get("class="), substr, desc });
        }
    }
    out
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("DST_ROOT").unwrap_or_else(|_| "/verif".to_string()))
}

// ---------------------------------------------------------------------------------------------------------
// Check

fn die(msg: &str) -> ! {
    eprintln!("harness error: {}", msg);
    std::process::exit(2)
}

fn check(id: &str) -> i32 {
    let p = match props::find(id) {
        Some(p) => p,
        None => die("no such property"),
    };
    let start = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let tier = if thorough { "thorough" } else { "quick" };
    let workers: u64 = std::env::var("DST_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let workers = (workers.max(2) / 2) * 2;
    let trace = std::env::var("DST_TRACE").ok();
    let deadline: f64 = std::env::var("DST_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 780.0 } else { 240.0 });
    let total = std::env::var("DST_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    println!("{}: seed {} tier {} runs {} workers {}", p.id, seed, tier, total, workers);

    let out_dir = root().join("out");
    let dir = out_dir.join(format!("work-{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap_or_else(|e| die(&format!("{}", e)));

    let mut kids: Vec<(u64, Child, Option<i32>)> = vec![];
    for w in 0..workers {
        let c = Command::new(other_exe(run_profile(w)))
            .arg("worker")
            .args([p.id, tier, &seed.to_string(), &w.to_string(), &workers.to_string(), &total.to_string(), &deadline.to_string()])
            .arg(&dir)
            .arg(if trace.is_some() { "1" } else { "0" })
            .stdin(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| die(&format!("cannot start worker: {}", e)));
        kids.push((w, c, None));
    }
    // fails: (run, class, msg, choices)
    let mut fails: Vec<(u64, Option<Value>)> = vec![];
    let mut outs: Vec<Value> = vec![];
    loop {
        let mut running = false;
        for (w, c, done) in kids.iter_mut() {
            if done.is_some() {
                continue;
            }
            match c.try_wait() {
                Ok(None) => running = true,
                Ok(Some(st)) => {
                    use std::os::unix::process::ExitStatusExt;
                    let code = st.code().unwrap_or(-st.signal().unwrap_or(99));
                    *done = Some(code);
                    let mut lowest = None;
                    if code == 0 {
                        let v: Value = fs::read(dir.join(format!("out.{}", w))).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_else(|| die("worker output unreadable"));
                        for f in v["fails"].as_array().into_iter().flatten() {
                            lowest = f["run"].as_u64();
                            fails.push((lowest.unwrap(), Some(f.clone())));
                        }
                        outs.push(v);
                    } else {
                        let b = fs::read(dir.join(format!("status.{}", w))).unwrap_or_default();
                        if b.len() < 8 {
                            die(&format!("worker {} ended with {} before its first run", w, code));
                        }
                        let mut n = [0u8; 8];
                        n.copy_from_slice(&b[..8]);
                        let run = u64::from_le_bytes(n);
                        eprintln!("worker {} ended with {} during run {}", w, code, run);
                        lowest = Some(run);
                        fails.push((run, None));
                    }
                    if let Some(r) = lowest {
                        let cur: u64 = fs::read_to_string(dir.join("stop")).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(u64::MAX);
                        if r < cur {
                            let tmp = dir.join("stop.tmp");
                            let _ = fs::write(&tmp, r.to_string());
                            let _ = fs::rename(&tmp, dir.join("stop"));
                        }
                    }
                }
                Err(e) => die(&format!("wait: {}", e)),
            }
        }
        if !running {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }

    let mut digests: HashSet<u64> = HashSet::new();
    for w in 0..workers {
        for c in fs::read(dir.join(format!("digests.{}", w))).unwrap_or_default().chunks_exact(8) {
            let mut n = [0u8; 8];
            n.copy_from_slice(c);
            digests.insert(u64::from_le_bytes(n));
        }
    }
    if let Some(t) = trace {
        let mut all = String::new();
        for w in 0..workers {
            all += &fs::read_to_string(dir.join(format!("trace.{}", w))).unwrap_or_default();
        }
        let mut lines: Vec<(u64, &str)> = all.lines().map(|l| (l.split(' ').next().unwrap().parse().unwrap(), l)).collect();
        lines.sort();
        let text: Vec<&str> = lines.into_iter().map(|l| l.1).collect();
        let _ = fs::write(t, text.join("\n") + "\n");
    }

    fails.sort_by_key(|f| f.0);
    let mut code = 0;
    let mut violations = 0;
    let mut harness = None;
    for (run, f) in fails.iter() {
        let mut req = json!({"property": p.id, "thorough": thorough, "seed": seed, "run": run, "budget": std::env::var("DST_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(45.0)});
        if let Some(f) = f {
            if f["class"] == "harness" {
                harness = Some(format!("run {}: {}", run, f["msg"]));
                continue;
            }
            req["choices"] = f["choices"].clone();
            req["class"] = f["class"].clone();
        }
        println!("run {} failed: {}", run, f.as_ref().map(|f| format!("{}: {}", f["class"].as_str().unwrap_or("?"), f["msg"].as_str().unwrap_or("?"))).unwrap_or("worker died or hung".into()));
        let prof = run_profile(*run);
        let rin = dir.join("min.in");
        let rout = dir.join("min.out");
        fs::write(&rin, serde_json::to_vec(&req).unwrap()).unwrap();
        let _ = fs::remove_file(&rout);
        let st = Command::new(other_exe(prof)).arg("minimise").arg(&rin).arg(&rout).stdin(Stdio::null()).status();
        let m: Value = fs::read(&rout).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(json!({"gone": true}));
        let m = if m["gone"] == true && f.is_some() {
            // whatever stopped the minimisation, the run as it was recorded is worth another try
            req["budget"] = json!(0.0);
            fs::write(&rin, serde_json::to_vec(&req).unwrap()).unwrap();
            let _ = Command::new(other_exe(prof)).arg("minimise").arg(&rin).arg(&rout).stdin(Stdio::null()).status();
            fs::read(&rout).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(json!({"gone": true}))
        } else {
            m
        };
        if m["gone"] == true {
            harness = Some(format!("run {} failed once but not when repeated ({:?})", run, st));
            continue;
        }
        let v = Violation { class: m["class"].as_str().unwrap().into(), msg: m["msg"].as_str().unwrap().into() };
        if v.class == "harness" {
            harness = Some(v.msg);
            continue;
        }
        let rdir = out_dir.join("replay");
        let _ = fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-{}-{}.json", p.id, seed, run));
        let file = json!({
            "property": p.id, "seed": seed, "run": run, "profile": prof, "thorough": thorough, "class": v.class, "message": v.msg,
            "digest": m["digest"], "steps": m["steps"], "choices": m["choices"], "minimisation_runs": m["tries"],
            "original_choices": req["choices"].as_array().map(|a| a.len()), "events": m["log"],
            "how_to_replay": format!("cd /verif && ./check.sh replay {}", path.display()),
        });
        fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).unwrap_or_else(|e| die(&format!("{}", e)));
        let again = Command::new(other_exe(prof)).arg("replay").arg(&path).stdin(Stdio::null()).output();
        let (same, text) = match again {
            Ok(o) => {
                let t = String::from_utf8_lossy(&o.stdout).to_string();
                (o.status.code() == Some(1) && t.contains("exactly reproduces"), t)
            }
            Err(e) => (false, format!("{}", e)),
        };
        println!("minimised to {} choices: {}: {}", m["choices"].as_array().map(|a| a.len()).unwrap_or(0), v.class, v.msg);
        for l in m["log"].as_array().into_iter().flatten().take(60) {
            println!("    {}", l.as_str().unwrap_or(""));
        }
        if !same && v.class != "hang" && v.class != "abort" {
            println!("warning: replay in a fresh process differs:\n{}", text);
        } else {
            println!("replayed in a fresh process: same violation");
        }
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
        violations = 1;
        break;
    }

    // evidence
    let sum = |k: &str| -> u64 { outs.iter().map(|o| o[k].as_u64().unwrap_or(0)).sum() };
    let merge = |k: &str| -> BTreeMap<String, u64> {
        let mut m = BTreeMap::new();
        for o in &outs {
            for (n, v) in o[k].as_object().into_iter().flatten() {
                *m.entry(n.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
            }
        }
        m
    };
    let mut samples: Vec<Value> = vec![];
    for o in &outs {
        for s in o["samples"].as_array().into_iter().flatten() {
            if samples.len() < 5 {
                samples.push(s.clone());
            }
        }
    }
    let wall = start.elapsed().as_secs_f64();
    let runs = sum("runs");
    for (d, n) in merge("known") {
        println!("KNOWN-FINDING: property={} {} ({} runs)", p.id, d, n);
    }
    let slowest = outs.iter().map(|o| o["slowest"].as_f64().unwrap_or(0.0)).fold(0.0, f64::max);
    let slowest_run = outs.iter().find(|o| o["slowest"].as_f64() == Some(slowest)).map(|o| o["slowest_run"].clone());
    let late = outs.iter().any(|o| o["late"] == true);
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed as i64, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": digests.len(),
            "rule": format!("{}. Distinct = different digest of everything observed during the run (operations, results, schedule).", p.rule),
            "samples": samples,
            "nontrivial_runs": sum("nontrivial"),
            "runs_per_hour": (runs as f64 / wall * 3600.0) as u64,
            "seeds_per_hour": (runs as f64 / wall * 3600.0) as u64,
            "planned_runs": total,
            "stopped_at_time_limit": late,
            "simulated_steps": sum("steps"),
            "simulated_time": "the library has no clock: simulated time is counted in scheduler steps (simulated_steps)",
            "choices_drawn": sum("choices"),
            "runs_with_faults": sum("fault_runs"),
            "faults_fired": merge("faults"),
            "rare_conditions_hit": merge("probes"),
            "slowest_run_cpu_s": slowest,
            "slowest_run": slowest_run,
            "builds": "even runs: overflow checks and debug assertions on; odd runs: release arithmetic",
            "real_code": p.real,
            "stubs": ["symbol sources, byte streams and storage (simulated)", "hash seeds (getrandom answered from the run's choices)", "task scheduling (one thread at a time, chosen by the run)"],
        },
        "assumptions": ["sampling: a clean batch is evidence, not proof", "reference models in /verif/dst are correct (pattern verdicts come from two independent ones that are compared with each other)"],
        "wall_s": wall,
        "violations": violations,
    });
    let edir = root().join("evidence");
    let _ = fs::create_dir_all(&edir);
    if std::env::var("DST_NO_EVIDENCE").is_err() {
        fs::write(edir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap_or_else(|e| die(&format!("{}", e)));
    }
    println!("{} runs, {} non-trivial, {} distinct non-trivial, {} steps, {:.1} s, slowest run {:.3} CPU s (run {:?})", runs, sum("nontrivial"), digests.len(), sum("steps"), wall, slowest, slowest_run);
    println!("faults {:?}", merge("faults"));
    println!("conditions {:?}", merge("probes"));
    let _ = remove_work(&dir);
    if code == 0 {
        if let Some(h) = harness {
            die(&h);
        }
        println!("OK property={}", p.id);
    }
    code
}

fn remove_work(dir: &Path) -> std::io::Result<()> {
    for e in fs::read_dir(dir)? {
        fs::remove_file(e?.path())?;
    }
    fs::remove_dir(dir)
}

/// one PROP TIER SEED RUN: a single run with its event log (for people)
fn one(a: &[String]) -> i32 {
    let p = props::find(&a[0]).expect("property");
    let seed: u64 = a[2].parse().unwrap();
    let run: u64 = a[3].parse().unwrap();
    if run_profile(run) != profile() {
        return Command::new(other_exe(run_profile(run))).arg("one").args(a).status().ok().and_then(|s| s.code()).unwrap_or(2);
    }
    let sink = std::env::temp_dir().join(format!("dst-one-{}", std::process::id()));
    let t = finish_run(spawn_run(p, Source::Seed(run_seed(seed, p.id, run)), a[1] == "thorough", HANG_CPU as u64, Some(sink.clone())));
    let _ = fs::remove_file(&sink);
    for l in &t.log {
        println!("  {}", l);
    }
    println!("digest {:016x} steps {} choices {} {:?} {}", t.digest, t.steps, t.choices.len(), t.class, t.msg);
    t.class.is_some() as i32
}

pub fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => check(&a[1]),
        Some("worker") => worker(&a[1..]),
        Some("minimise") => minimise(&a[1..]),
        Some("replay") => replay(&a[1]),
        Some("one") => one(&a[1..]),
        Some("list") => {
            for p in PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: dst check PROP | replay FILE | one PROP TIER SEED RUN | list");
            2
        }
    };
    std::process::exit(code)
}
