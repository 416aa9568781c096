//! The supervising process: one worker process per job, so that crashes and endless loops of the
//! code under test are seen, attributed and confirmed in a fresh process.

use crate::bfs::{Stats, Viol};
use crate::shapes::Catalogue;
use crate::trace::Trace;
use crate::Job;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}
fn flat(s: &str) -> String {
    s.replace(['\n', '\t', '\r'], " ")
}

fn limits() {
    unsafe {
        let gb = 6u64 << 30;
        let l = libc::rlimit { rlim_cur: gb, rlim_max: gb };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

fn quiet() {
    if std::env::var_os("MC_LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

/// Seconds a single job may take; reaching it is reported as a cap.
pub fn job_seconds(thorough: bool) -> u64 {
    std::env::var("MC_JOB_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 240 })
}

pub fn worker(prop: &str, thorough: bool, n: usize, trace: &str) -> i32 {
    limits();
    let cat = Catalogue::new();
    let job = crate::jobs(prop, thorough, &cat).swap_remove(n);
    let mut tr = Trace::open(trace).expect("trace file");
    let mut st = Stats { deadline: Some(Instant::now() + Duration::from_secs(job_seconds(thorough))), ..Default::default() };
    quiet();
    let v = job.explore(&cat, &mut tr, &mut st);
    let mut out = std::io::stdout().lock();
    let _ = writeln!(
        out,
        "STAT\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}",
        st.states, st.transitions, st.ops, st.observed, st.compared, st.max_depth, st.other, st.pruned, st.capped, st.sequences, st.executions, st.deadlocks, st.outcomes, st.scenarios
    );
    for s in &st.samples {
        let _ = writeln!(out, "SAMPLE\t{}", flat(s));
    }
    for s in &st.known {
        let _ = writeln!(out, "KNOWN\t{}", flat(s));
    }
    for s in &st.notes {
        let _ = writeln!(out, "NOTE\t{}", flat(s));
    }
    if let Some(v) = v {
        let _ = writeln!(out, "VIOL\t{}\t{}\t{}\t{}", v.tag, hex(&v.path), flat(&v.msg), flat(&v.text));
    }
    let _ = writeln!(out, "END");
    let _ = out.flush();
    // worlds that are forgotten or broken must not be touched by destructors
    unsafe { libc::_exit(0) }
}

pub fn one(prop: &str, thorough: bool, name: &str, path: &str, trace: &str) -> i32 {
    limits();
    let cat = Catalogue::new();
    let Some(job) = crate::jobs(prop, thorough, &cat).into_iter().find(|j| j.name() == name) else {
        println!("NOJOB");
        return 2;
    };
    let mut tr = Trace::open(trace).expect("trace file");
    quiet();
    let v = job.replay(&unhex(path), &cat, &mut tr);
    let mut out = std::io::stdout().lock();
    match v {
        Some(v) => {
            let _ = writeln!(out, "VIOL\t{}\t{}\t{}\t{}", v.tag, hex(&v.path), flat(&v.msg), flat(&v.text));
        }
        None => {
            let _ = writeln!(out, "CLEAN");
        }
    }
    let _ = writeln!(out, "END");
    let _ = out.flush();
    unsafe { libc::_exit(0) }
}

enum End {
    Lines(Vec<String>),
    /// died or stopped moving, with what it was doing
    Crash(String, Vec<u8>),
    Killed,
    /// the worker itself failed (not the code under test)
    Error(String),
}

fn hang_limit() -> Duration {
    Duration::from_secs(20)
}

/// Run a child to its end, watching its heartbeat.
fn watch(mut c: Child, trace: &str, stop: &AtomicBool) -> End {
    let out = c.stdout.take().unwrap();
    let reader = std::thread::spawn(move || BufReader::new(out).lines().map_while(Result::ok).collect::<Vec<_>>());
    let err = c.stderr.take().unwrap();
    let errs = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = err.take(1 << 16).read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let tr = Trace::open(trace).ok();
    let mut beat = 0;
    let mut since = Instant::now();
    let mut pause = 1;
    let mut why = None;
    let status = loop {
        match c.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {}
            Err(e) => return End::Error(e.to_string()),
        }
        if stop.load(SeqCst) {
            let _ = c.kill();
            let _ = c.wait();
            let _ = reader.join();
            return End::Killed;
        }
        if let Some(t) = &tr {
            let b = t.read().0;
            if b != beat {
                beat = b;
                since = Instant::now();
            } else if since.elapsed() > hang_limit() && b > 0 {
                why = Some("does not come back".to_string());
                let _ = c.kill();
            }
        }
        std::thread::sleep(Duration::from_millis(pause));
        pause = (pause * 2).min(20);
    };
    let lines = reader.join().unwrap_or_default();
    let errs = errs.join().unwrap_or_default();
    if lines.last().map(|l| l.as_str()) == Some("END") {
        return End::Lines(lines);
    }
    let doing = tr.map(|t| t.read().1).unwrap_or_default();
    use std::os::unix::process::ExitStatusExt;
    match (why, status.signal()) {
        (Some(w), _) => End::Crash(w, doing),
        (None, Some(s)) => End::Crash(format!("dies with signal {s} {}", flat(errs.trim())), doing),
        (None, None) => End::Error(format!("worker ended with {status}: {}", flat(&errs))),
    }
}

fn spawn(args: &[&str]) -> std::io::Result<Child> {
    Command::new(std::env::current_exe()?).args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn()
}

struct Found {
    job: String,
    tag: String,
    msg: String,
    text: String,
    path: Vec<u8>,
}

/// Does this history break the property in a fresh process?
fn confirm(prop: &str, tier: &str, job: &Job, path: &[u8], dir: &str) -> Result<Option<Found>, String> {
    let trace = format!("{dir}/confirm-{:?}.tr", std::thread::current().id()).replace(['(', ')'], "");
    let _ = std::fs::remove_file(&trace);
    let c = spawn(&["one", prop, tier, job.name(), &hex(path), &trace]).map_err(|e| e.to_string())?;
    match watch(c, &trace, &AtomicBool::new(false)) {
        End::Lines(l) => {
            for x in &l {
                let f: Vec<&str> = x.split('\t').collect();
                if f[0] == "VIOL" {
                    return Ok(Some(Found { job: job.name().into(), tag: f[1].into(), path: unhex(f[2]), msg: f[3].into(), text: f[4].into() }));
                }
            }
            Ok(None)
        }
        End::Crash(why, doing) => {
            let p = if doing.is_empty() { path.to_vec() } else { doing };
            Ok(Some(Found { job: job.name().into(), tag: "Crash".into(), msg: format!("the process {why}"), text: job.text(&p), path: p }))
        }
        End::Killed => Err("killed".into()),
        End::Error(e) => Err(e),
    }
}

/// Does the whole exploration find a violation again in a fresh process? For code whose behaviour depends on
/// what happened in the same process before, in other worlds.
fn again(prop: &str, tier: &str, n: usize, job: &Job, dir: &str) -> Option<Found> {
    let trace = format!("{dir}/again-{n}.tr");
    let _ = std::fs::remove_file(&trace);
    let c = spawn(&["worker", prop, tier, &n.to_string(), &trace]).ok()?;
    let end = watch(c, &trace, &AtomicBool::new(false));
    let _ = std::fs::remove_file(&trace);
    let note = "(only after the other histories of this exploration in the same process)";
    match end {
        End::Lines(l) => l.iter().map(|x| x.split('\t').collect::<Vec<_>>()).find(|f| f[0] == "VIOL").map(|f| Found {
            job: job.name().into(),
            tag: f[1].into(),
            path: unhex(f[2]),
            msg: format!("{} {note}", f[3]),
            text: f[4].into(),
        }),
        End::Crash(why, doing) => Some(Found { job: job.name().into(), tag: "Crash".into(), msg: format!("the process {why} {note}"), text: job.text(&doing), path: doing }),
        _ => None,
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn root() -> String {
    std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into())
}

#[derive(Default)]
struct Sum {
    n: [u64; 14],
    samples: Vec<String>,
    known: Vec<String>,
    notes: Vec<String>,
    times: Vec<(f64, String)>,
}

pub fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let cat = Catalogue::new();
    let jobs = crate::jobs(prop, tier == "thorough", &cat);
    if jobs.is_empty() {
        eprintln!("no jobs for {prop}");
        return 2;
    }
    let dir = format!("{}/mc-{}-{}", std::env::temp_dir().display(), prop, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let sum = Mutex::new(Sum::default());
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let error: Mutex<Option<String>> = Mutex::new(None);
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    std::thread::scope(|s| {
        for _ in 0..cores.min(jobs.len()) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= jobs.len() || stop.load(SeqCst) {
                    return;
                }
                let trace = format!("{dir}/{i}.tr");
                let t = Instant::now();
                let end = match spawn(&["worker", prop, tier, &i.to_string(), &trace]) {
                    Ok(c) => watch(c, &trace, &stop),
                    Err(e) => End::Error(e.to_string()),
                };
                let _ = std::fs::remove_file(&trace);
                let mut suspect: Option<Vec<u8>> = None;
                let mut why = String::new();
                match end {
                    End::Lines(l) => {
                        let mut g = sum.lock().unwrap();
                        g.times.push((t.elapsed().as_secs_f64(), jobs[i].name().to_string()));
                        for x in &l {
                            let f: Vec<&str> = x.split('\t').collect();
                            match f[0] {
                                "STAT" => {
                                    for (k, v) in f[1..].iter().enumerate() {
                                        let v: u64 = v.parse().unwrap_or(0);
                                        if k == 5 {
                                            g.n[k] = g.n[k].max(v)
                                        } else {
                                            g.n[k] += v
                                        }
                                    }
                                }
                                "SAMPLE" => g.samples.push(f[1].into()),
                                "KNOWN" => g.known.push(f[1].into()),
                                "NOTE" => g.notes.push(format!("{}: {}", jobs[i].name(), f[1])),
                                "VIOL" => {
                                    suspect = Some(unhex(f[2]));
                                    why = format!("{} ({})", f[3], f[4]);
                                }
                                _ => {}
                            }
                        }
                    }
                    End::Crash(w, doing) => {
                        why = format!("the process {w}");
                        suspect = Some(doing)
                    }
                    End::Killed => return,
                    End::Error(e) => {
                        *error.lock().unwrap() = Some(format!("{}: {e}", jobs[i].name()));
                        stop.store(true, SeqCst);
                        return;
                    }
                }
                if let Some(p) = suspect {
                    for _ in 0..5 {
                        match confirm(prop, tier, &jobs[i], &p, &dir) {
                            Ok(Some(f)) => {
                                let mut g = found.lock().unwrap();
                                if g.as_ref().is_none_or(|o| f.path.len() < o.path.len()) {
                                    *g = Some(f);
                                }
                                stop.store(true, SeqCst);
                                return;
                            }
                            Ok(None) => {}
                            Err(e) => why.push_str(&format!(" [{e}]")),
                        }
                    }
                    if let Some(f) = again(prop, tier, i, &jobs[i], &dir) {
                        let mut g = found.lock().unwrap();
                        if g.is_none() {
                            *g = Some(f);
                        }
                        stop.store(true, SeqCst);
                        return;
                    }
                    *error.lock().unwrap() = Some(format!("{}: seen once but not in a fresh process: {why}", jobs[i].name()));
                    stop.store(true, SeqCst);
                    return;
                }
            });
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
    let sum = sum.into_inner().unwrap();
    let found = found.into_inner().unwrap();
    let error = error.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    let done = sum.times.len();
    evidence(prop, tier, seed, wall, &sum, jobs.len(), done, found.as_ref());
    if std::env::var_os("MC_TIMES").is_some() {
        let mut t: Vec<_> = sum.times.iter().collect();
        t.sort_by(|a, b| b.0.total_cmp(&a.0));
        for (s, n) in t.iter().take(12) {
            println!("  {s:7.2}s {n}");
        }
    }
    for k in &sum.known {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    println!(
        "{prop} {tier}: jobs {done}/{}, states {}, transitions {}, comparisons {}, executions {}, sequences {}, pruned {}, other issues {}, caps {}, {wall:.1} s",
        jobs.len(), sum.n[0], sum.n[1], sum.n[4], sum.n[10], sum.n[9], sum.n[7], sum.n[6], sum.n[8]
    );
    for n in sum.notes.iter().take(if std::env::var_os("MC_ALL").is_some() { usize::MAX } else { 20 }) {
        println!("  note: {n}");
    }
    if let Some(f) = found {
        let d = format!("{}/replays", root());
        let _ = std::fs::create_dir_all(&d);
        let file = format!("{d}/{prop}-{tier}.txt");
        let body = format!("property {prop}\ntier {tier}\njob {}\npath {}\nkind {}\nwhat {}\nhistory {}\n", f.job, hex(&f.path), f.tag, f.msg, f.text);
        let _ = std::fs::write(&file, body);
        println!("  job: {}\n  history: {}\n  {}: {}", f.job, f.text, f.tag, f.msg);
        println!("VIOLATION property={prop} replay={file}");
        return 1;
    }
    if let Some(e) = error {
        eprintln!("error of the check: {e}");
        println!("error of the check: {e}");
        return 2;
    }
    0
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, seed: i64, wall: f64, s: &Sum, jobs: usize, done: usize, v: Option<&Found>) {
    let d = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&d);
    // spread the samples over the jobs
    let step = (s.samples.len() / 12).max(1);
    let samples: Vec<String> = s.samples.iter().step_by(step).take(12).map(|x| js(&x.chars().take(1200).collect::<String>())).collect();
    let n = &s.n;
    let seqlike = n[10] == 0;
    let mut cov = vec![
        format!("\"states\": {}", n[0]),
        format!("\"transitions\": {}", n[1]),
        format!("\"traces_validated_against_impl\": {}", if seqlike { n[3] } else { n[10] }),
        format!("\"operations_executed\": {}", n[2]),
        format!("\"comparisons_model_vs_implementation\": {}", n[4]),
        format!("\"max_depth\": {}", n[5]),
        format!("\"explorations\": {done}"),
        format!("\"explorations_planned\": {jobs}"),
        format!("\"histories_left_because_of_issues_outside_this_property\": {}", n[7]),
        format!("\"depth_or_time_caps_reached\": {}", n[8]),
        format!("\"call_sequences\": {}", n[9]),
        format!("\"schedules_executed\": {}", n[10]),
        format!("\"schedules_ending_in_deadlock\": {}", n[11]),
        format!("\"distinct_outcomes\": {}", n[12]),
        format!("\"scenarios\": {}", n[13]),
        format!("\"exhaustive\": {}", done == jobs && v.is_none() && !s.notes.iter().any(|n| n.contains("cap"))),
        format!("\"samples\": [{}]", samples.join(", ")),
    ];
    if !s.known.is_empty() {
        cov.push(format!("\"known_findings_seen\": [{}]", s.known.iter().take(100).map(|k| js(k)).collect::<Vec<_>>().join(", ")));
    }
    if !s.notes.is_empty() {
        cov.push(format!("\"notes\": [{}]", s.notes.iter().take(50).map(|k| js(k)).collect::<Vec<_>>().join(", ")));
    }
    let assumptions = [
        "the model checked is the real code of /repo, rebuilt from its working tree; only parking_lot is replaced by a controlled stand-in with the same state machine",
        "bounds: numbers of entities, component types, groups, threads, operations and preemptions as listed per exploration in DESIGN.md; nothing is claimed beyond them",
        "scheduling points at lock acquisitions and between calls; data races below the locks are excluded by Rust's type system outside unsafe blocks",
    ];
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n",
        js(prop),
        js(tier),
        cov.join(",\n  "),
        assumptions.iter().map(|a| js(a)).collect::<Vec<_>>().join(", "),
        v.is_some() as u8
    );
    let _ = std::fs::write(format!("{d}/{prop}.json"), body);
}

pub fn replay(file: &str) -> i32 {
    let Ok(body) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let get = |k: &str| body.lines().find_map(|l| l.strip_prefix(&format!("{k} "))).unwrap_or("").to_string();
    let (prop, tier, job, path) = (get("property"), get("tier"), get("job"), get("path"));
    let cat = Catalogue::new();
    let Some(j) = crate::jobs(&prop, tier == "thorough", &cat).into_iter().find(|j| j.name() == job) else {
        eprintln!("no such job: {job}");
        return 2;
    };
    let dir = std::env::temp_dir().display().to_string();
    let r = confirm(&prop, &tier, &j, &unhex(&path), &dir).map(|f| {
        f.or_else(|| {
            let n = crate::jobs(&prop, tier == "thorough", &cat).iter().position(|j| j.name() == job)?;
            body.contains("in the same process)").then(|| again(&prop, &tier, n, &j, &dir)).flatten()
        })
    });
    match r {
        Ok(Some(f)) => {
            println!("history: {}\n{}: {}", f.text, f.tag, f.msg);
            println!("VIOLATION property={prop} replay={file}");
            1
        }
        Ok(None) => {
            println!("the history does not break {prop}");
            0
        }
        Err(e) => {
            eprintln!("{e}");
            2
        }
    }
}

#[allow(unused)]
fn _t(v: Viol) {}
