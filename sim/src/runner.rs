//! Workers, search, minimisation, replay, evidence.

use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::case::{make_case, Case, Outcome, Prop, Viol};
use crate::exec::{exec, Exec};
use crate::sim::Sched;

#[derive(Serialize, Deserialize)]
#[serde(tag = "t")]
enum Line {
    Start { i: u64 },
    Viol { i: u64, case: Box<Case>, viol: Viol, fatal: bool },
    Harness { i: u64, msg: String },
    Cov(Box<Cov>),
    Recycle { next: u64 },
    End,
}

#[derive(Serialize, Deserialize, Default)]
struct Cov {
    runs: u64,
    steps: u64,
    sim_ns: u64,
    fired: BTreeMap<String, u64>,
    fired_runs: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    scens: BTreeMap<String, u64>,
    hashes: Vec<u64>,
    trivial: u64,
}

impl Cov {
    fn add(&mut self, case: &Case, o: &Outcome) {
        self.runs += 1;
        self.steps += o.steps;
        self.sim_ns += o.sim_ns;
        for (k, v) in &o.fired {
            *self.fired.entry(k.clone()).or_default() += v;
            *self.fired_runs.entry(k.clone()).or_default() += 1;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_default() += v;
        }
        *self.scens.entry(case.scen.clone()).or_default() += 1;
        if o.hash != 0 && !case.ops.is_empty() {
            self.hashes.push(o.hash);
        } else {
            self.trivial += 1;
        }
    }
    fn merge(&mut self, o: Cov) {
        self.runs += o.runs;
        self.steps += o.steps;
        self.sim_ns += o.sim_ns;
        self.trivial += o.trivial;
        for (a, b) in [
            (&mut self.fired, o.fired),
            (&mut self.fired_runs, o.fired_runs),
            (&mut self.probes, o.probes),
            (&mut self.scens, o.scens),
        ] {
            for (k, v) in b {
                *a.entry(k).or_default() += v;
            }
        }
    }
}

fn emit(l: &Line) {
    let mut o = std::io::stdout().lock();
    let _ = serde_json::to_writer(&mut o, l);
    let _ = o.write_all(b"\n");
    let _ = o.flush();
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1)?.parse::<u64>().ok())
        .unwrap_or(0)
        * 4096
        / 1_000_000
}

/// Tasks which end in cycles of references keep their runtime with its descriptors.
fn many_fds(runs: u64) -> bool {
    runs % 64 == 0 && std::fs::read_dir("/proc/self/fd").map(|d| d.count() > 3000).unwrap_or(true)
}

pub fn limit_memory() {
    let l = libc::rlimit {
        rlim_cur: 3 << 30,
        rlim_max: 3 << 30,
    };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

/// flsim worker PROP SEED FIRST STEP SECONDS MAX
pub fn worker(p: &'static Prop, seed: u64, first: u64, step: u64, secs: f64, max: u64) {
    limit_memory();
    let start = Instant::now();
    let mut cov = Cov::default();
    let mut last = Instant::now();
    let mut i = first;
    let mut seen: HashSet<String> = HashSet::new();
    while start.elapsed().as_secs_f64() < secs && i < max {
        emit(&Line::Start { i });
        let case = make_case(p, seed, i);
        match exec(p, &case, false) {
            Exec::Done(o) => {
                cov.add(&case, &o);
                if let Some(msg) = o.harness {
                    emit(&Line::Harness { i, msg });
                }
                if let Some(viol) = o.viol {
                    if seen.insert(viol.kind.clone()) {
                        emit(&Line::Viol {
                            i,
                            case: Box::new(case),
                            viol,
                            fatal: false,
                        });
                    }
                }
            }
            Exec::Hang(msg) => {
                emit(&Line::Cov(Box::new(std::mem::take(&mut cov))));
                emit(&Line::Viol {
                    i,
                    case: Box::new(case),
                    viol: Viol {
                        kind: "hang".into(),
                        msg,
                    },
                    fatal: true,
                });
                std::process::exit(0);
            }
        }
        i += step;
        let full = many_fds(i / step);
        if full || last.elapsed() > Duration::from_secs(2) {
            emit(&Line::Cov(Box::new(std::mem::take(&mut cov))));
            last = Instant::now();
            if full || rss_mb() > 1200 {
                emit(&Line::Recycle { next: i });
                std::process::exit(0);
            }
        }
    }
    emit(&Line::Cov(Box::new(cov)));
    emit(&Line::End);
}

/// flsim exec: cases on stdin, outcomes on stdout
pub fn exec_server(props: &'static [Prop]) {
    limit_memory();
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { return };
        let Ok((trace, case)) = serde_json::from_str::<(bool, Case)>(&l) else {
            return;
        };
        let p = props.iter().find(|p| p.id == case.prop).expect("property");
        let o = match exec(p, &case, trace) {
            Exec::Done(o) => *o,
            Exec::Hang(msg) => {
                let o = Outcome {
                    viol: Some(Viol {
                        kind: "hang".into(),
                        msg,
                    }),
                    ..Default::default()
                };
                println!("{}", serde_json::to_string(&o).unwrap());
                std::process::exit(0);
            }
        };
        println!("{}", serde_json::to_string(&o).unwrap());
    }
}

struct Server {
    child: Child,
    stdin: ChildStdin,
    rx: mpsc::Receiver<String>,
    runs: u32,
}

impl Server {
    fn new() -> Self {
        let mut child = Command::new(std::env::current_exe().unwrap())
            .arg("exec")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("exec server");
        let stdin = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                let Ok(l) = l else { return };
                if tx.send(l).is_err() {
                    return;
                }
            }
        });
        Server { child, stdin, rx, runs: 0 }
    }

    fn run(&mut self, trace: bool, case: &Case) -> Outcome {
        self.runs += 1;
        if self.runs > 200 {
            *self = Server::new();
        }
        let l = serde_json::to_string(&(trace, case)).unwrap();
        let ok = writeln!(self.stdin, "{l}").and_then(|_| self.stdin.flush());
        let r = match ok {
            Ok(_) => self.rx.recv_timeout(Duration::from_secs(240)).ok(),
            Err(_) => None,
        };
        match r {
            Some(l) => {
                let o: Outcome = serde_json::from_str(&l).expect("outcome");
                if o.viol.as_ref().map(|v| v.kind == "hang") == Some(true) {
                    *self = Server::new();
                }
                o
            }
            None => {
                *self = Server::new();
                Outcome {
                    viol: Some(Viol {
                        kind: "process died".into(),
                        msg: "the process running the node died (abort, out of memory)".into(),
                    }),
                    ..Default::default()
                }
            }
        }
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn minimise(srv: &mut Server, case: Case, kind: &str, secs: u64) -> (Case, u64) {
    let end = Instant::now() + Duration::from_secs(secs);
    let mut best = case;
    let mut tried = 0u64;
    let mut same = |c: &Case, tried: &mut u64| {
        *tried += 1;
        srv.run(false, c).viol.map(|v| v.kind == kind).unwrap_or(false)
    };
    for round in 0..2 {
        // Operations
        let mut n = 2usize.max(best.ops.len() / 2);
        n = n.min(best.ops.len().max(1));
        while n >= 1 && Instant::now() < end {
            let mut i = 0;
            let mut removed = false;
            while i < best.ops.len() && Instant::now() < end {
                let mut c = best.clone();
                let to = (i + n).min(c.ops.len());
                c.ops.drain(i..to);
                if same(&c, &mut tried) {
                    best = c;
                    removed = true;
                } else {
                    i += n;
                }
            }
            if n == 1 && !removed {
                break;
            }
            n = if n == 1 { 1 } else { n / 2 };
        }
        // Schedule and fault kinds
        if round == 0 {
            for s in [
                Sched::default(),
                Sched { slow: 0, stall: 0, ..best.sched.clone() },
                Sched { tick_ns: 0, ..best.sched.clone() },
                Sched { defer: 0, ..best.sched.clone() },
                Sched { stall: 0, ..best.sched.clone() },
            ] {
                if Instant::now() > end {
                    break;
                }
                let c = Case { sched: s.clone(), ..best.clone() };
                if same(&c, &mut tried) {
                    best = c;
                    if s.defer == 0 && s.slow == 0 && s.stall == 0 && s.tick_ns == 0 {
                        break;
                    }
                }
            }
        }
        // How often each kind of fault is needed
        let o = {
            tried += 1;
            Server::new().run(false, &best)
        };
        for (k, v) in o.fired {
            let (mut lo, mut hi) = (0u64, v);
            // hi is known to work
            while lo < hi && Instant::now() < end {
                let mid = if lo == 0 && hi == v { 0 } else { (lo + hi) / 2 };
                let mut c = best.clone();
                c.limits.insert(k.clone(), mid);
                if same(&c, &mut tried) {
                    best = c;
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
        }
    }
    // Smaller numbers in the operations
    for i in 0..best.ops.len() {
        if Instant::now() > end {
            break;
        }
        let mut paths = vec![];
        numbers(&best.ops[i], &mut vec![], &mut paths);
        for (path, v) in paths {
            for nv in [0, v / 2] {
                if nv == v || Instant::now() > end {
                    continue;
                }
                let mut c = best.clone();
                set_number(&mut c.ops[i], &path, nv);
                if same(&c, &mut tried) {
                    best = c;
                    break;
                }
            }
        }
    }
    (best, tried)
}

fn numbers(v: &Value, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, i64)>) {
    match v {
        Value::Number(n) => {
            if let Some(n) = n.as_i64() {
                if n > 0 {
                    out.push((path.clone(), n));
                }
            }
        }
        Value::Object(o) => {
            for (k, v) in o {
                path.push(k.clone());
                numbers(v, path, out);
                path.pop();
            }
        }
        Value::Array(a) if a.len() <= 8 => {
            for (i, v) in a.iter().enumerate() {
                path.push(i.to_string());
                numbers(v, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}

fn set_number(v: &mut Value, path: &[String], n: i64) {
    match path.split_first() {
        None => *v = json!(n),
        Some((k, rest)) => match v {
            Value::Object(o) => set_number(o.get_mut(k).unwrap(), rest, n),
            Value::Array(a) => set_number(&mut a[k.parse::<usize>().unwrap()], rest, n),
            _ => {}
        },
    }
}

struct Known {
    kind: String,
    desc: String,
}

fn known(prop: &str) -> Vec<Known> {
    let txt = std::fs::read_to_string("/verif/known_findings.txt").unwrap_or_default();
    txt.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (id, rest) = l.split_once(' ')?;
            let rest = rest.strip_prefix("kind=\"")?;
            let (kind, desc) = rest.split_once("\" ")?;
            (id == prop).then(|| Known {
                kind: kind.into(),
                desc: desc.into(),
            })
        })
        .collect()
}

enum Msg {
    Line(usize, Line),
    Gone(usize),
}

fn spawn_worker(
    p: &Prop,
    seed: u64,
    w: usize,
    first: u64,
    step: u64,
    secs: f64,
    max: u64,
    tx: &mpsc::Sender<Msg>,
) -> Child {
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args([
            "worker",
            p.id,
            &seed.to_string(),
            &first.to_string(),
            &step.to_string(),
            &secs.to_string(),
            &max.to_string(),
        ])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(if std::env::var("FLSIM_ERR").is_ok() {
            Stdio::inherit()
        } else {
            Stdio::null()
        })
        .spawn()
        .expect("worker");
    let out = child.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            let Ok(l) = l else { break };
            if let Ok(l) = serde_json::from_str::<Line>(&l) {
                if tx.send(Msg::Line(w, l)).is_err() {
                    return;
                }
            }
        }
        let _ = tx.send(Msg::Gone(w));
    });
    child
}

pub struct Opts {
    pub seed: u64,
    pub tier: String,
    pub secs: f64,
    pub workers: usize,
    pub max: u64,
    pub all: bool,
}

/// Removes what the runs left on the disk, also when they were killed.
struct Cleanup;
impl Cleanup {
    fn new() -> Self {
        let d = format!("/dev/shm/flsim-{}", std::process::id());
        let d = if std::fs::create_dir_all(&d).is_ok() {
            d
        } else {
            format!("/tmp/flsim-{}", std::process::id())
        };
        std::env::set_var("FLSIM_SCRATCH", &d);
        Cleanup
    }
}
impl Drop for Cleanup {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(crate::sim::scratch_root());
    }
}

pub fn run(p: &'static Prop, o: &Opts) -> i32 {
    let _clean = Cleanup::new();
    let t0 = Instant::now();
    let knowns = known(p.id);
    for k in &knowns {
        println!("KNOWN-FINDING: property={} {}", p.id, k.desc);
    }
    // Fixed cases first: determinism of this build.
    let mut srv = Server::new();
    let mut det_checked = 0;
    for i in 0..4u64 {
        let c = make_case(p, o.seed, i);
        let a = srv.run(false, &c);
        let b = Server::new().run(false, &c);
        det_checked += 1;
        if a.hash != b.hash || a.viol != b.viol || a.steps != b.steps {
            // Not a statement about the property.
            eprintln!(
                "HARNESS: case {i} is not deterministic: {:x}/{} {:?} vs. {:x}/{} {:?}",
                a.hash, a.steps, a.viol, b.hash, b.steps, b.viol
            );
        }
    }
    let (tx, rx) = mpsc::channel();
    let nw = o.workers;
    let mut alive = vec![true; nw];
    let mut cur = vec![0u64; nw];
    let mut next: Vec<Option<u64>> = vec![None; nw];
    let mut children: Vec<Child> = (0..nw)
        .map(|w| spawn_worker(p, o.seed, w, w as u64, nw as u64, o.secs, o.max, &tx))
        .collect();
    let mut cov = Cov::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut found: Vec<(u64, Case, Viol)> = vec![];
    let mut harness: Vec<(u64, String)> = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut stop_at: Option<Instant> = None;
    let mut deaths: BTreeMap<u64, u32> = BTreeMap::new();
    while alive.iter().any(|a| *a) {
        let left = match stop_at {
            Some(s) => s.saturating_duration_since(Instant::now()),
            None => Duration::from_secs(300),
        };
        let m = match rx.recv_timeout(left) {
            Ok(m) => m,
            Err(_) => break,
        };
        match m {
            Msg::Line(w, Line::Start { i }) => cur[w] = i,
            Msg::Line(w, Line::Viol { i, case, viol, fatal }) => {
                if fatal {
                    next[w] = Some(i + nw as u64);
                }
                if let Some(k) = knowns.iter().find(|k| k.kind == viol.kind) {
                    *known_hits.entry(k.kind.clone()).or_default() += 1;
                } else {
                    if std::env::var("FLSIM_ERR").is_ok() {
                        eprintln!("found in {i}: {} - {}", viol.kind, viol.msg);
                    }
                    found.push((i, *case, viol));
                    if stop_at.is_none() && !o.all {
                        // The others may find an earlier one still.
                        stop_at = Some(Instant::now() + Duration::from_secs(2));
                    }
                }
            }
            Msg::Line(_, Line::Harness { i, msg }) => harness.push((i, msg)),
            Msg::Line(_, Line::Cov(mut c)) => {
                hashes.extend(std::mem::take(&mut c.hashes));
                cov.merge(*c);
            }
            Msg::Line(w, Line::Recycle { next: n }) => next[w] = Some(n),
            Msg::Line(w, Line::End) => {
                alive[w] = false;
                next[w] = None;
            }
            Msg::Gone(w) => {
                if !alive[w] {
                    continue;
                }
                let _ = children[w].wait();
                if next[w].is_none() {
                    let i = cur[w];
                    *deaths.entry(i).or_default() += 1;
                    next[w] = Some(i + nw as u64);
                    found.push((
                        i,
                        make_case(p, o.seed, i),
                        Viol {
                            kind: "process died".into(),
                            msg: "the process running the nodes died".into(),
                        },
                    ));
                    if stop_at.is_none() {
                        stop_at = Some(Instant::now() + Duration::from_secs(2));
                    }
                }
                let secs = o.secs - t0.elapsed().as_secs_f64();
                match next[w].take() {
                    Some(n) if secs > 0.5 && stop_at.is_none() => {
                        children[w] =
                            spawn_worker(p, o.seed, w, n, nw as u64, secs, o.max, &tx);
                    }
                    _ => alive[w] = false,
                }
            }
        }
    }
    for c in children.iter_mut() {
        let _ = c.kill();
        let _ = c.wait();
    }
    let explore_s = t0.elapsed().as_secs_f64();
    // Confirm, in a fresh process, the earliest first.
    found.sort_by_key(|f| f.0);
    let mut kinds: HashSet<String> = HashSet::new();
    let mut violation = None;
    let mut unconfirmed = 0;
    for (i, case, v) in &found {
        if !kinds.insert(v.kind.clone()) {
            continue;
        }
        let again = Server::new().run(false, case);
        match again.viol {
            Some(v2) if v2.kind == v.kind => {
                if o.all {
                    println!("FOUND {} case {i}: {} - {}", p.id, v2.kind, v2.msg);
                    let _ = std::fs::create_dir_all("/verif/replays");
                    let n = kinds.len();
                    let _ = std::fs::write(
                        format!("/verif/replays/{}-all-{n}.json", p.id),
                        serde_json::to_string_pretty(
                            &json!({"property": p.id, "case": case, "violation": v2}),
                        )
                        .unwrap(),
                    );
                }
                if violation.is_none() {
                    violation = Some((*i, case.clone(), v2));
                    if !o.all {
                        break;
                    }
                }
            }
            other => {
                unconfirmed += 1;
                kinds.remove(&v.kind);
                eprintln!(
                    "HARNESS: case {i} does not reproduce: {} - {} vs. {:?}",
                    v.kind, v.msg, other
                );
            }
        }
    }
    let mut replay = None;
    if let Some((i, case, v)) = &violation {
        let secs = if o.tier == "thorough" { 180 } else { 60 };
        let (min, tried) = minimise(&mut srv, case.clone(), &v.kind, secs);
        let last = Server::new().run(true, &min);
        let path = format!("/verif/replays/{}-{}-{}.json", p.id, o.seed, i);
        let _ = std::fs::create_dir_all("/verif/replays");
        let j = json!({
            "property": p.id,
            "violation": last.viol,
            "found_as": v,
            "base_seed": o.seed,
            "index": i,
            "case": min,
            "hash": format!("{:016x}", Server::new().run(false, &min).hash),
            "faults": last.fired,
            "minimisation_runs": tried,
            "original": {"ops": case.ops.len(), "sched": case.sched},
            "trace": last.trace,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("replay file");
        replay = Some((path, last.viol.unwrap_or(v.clone())));
    }
    write_evidence(
        p, o, &cov, &hashes, &harness, &known_hits, explore_s, t0, replay.is_some(), det_checked,
        unconfirmed,
    );
    println!(
        "{}: {} runs ({} distinct), {:.1} h simulated, {} steps, {:.0} s; faults {:?}; probes {:?}; scenarios {:?}",
        p.id,
        cov.runs,
        hashes.len(),
        cov.sim_ns as f64 / 3.6e12,
        cov.steps,
        explore_s,
        cov.fired,
        cov.probes,
        cov.scens,
    );
    for (i, m) in harness.iter().take(5) {
        eprintln!("HARNESS: case {i}: {m}");
    }
    if let Some((path, v)) = replay {
        println!("{}: {}", v.kind, v.msg);
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    if !harness.is_empty() || cov.runs == 0 {
        return 2;
    }
    0
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    p: &Prop,
    o: &Opts,
    cov: &Cov,
    hashes: &HashSet<u64>,
    harness: &[(u64, String)],
    known_hits: &BTreeMap<String, u64>,
    explore_s: f64,
    t0: Instant,
    violated: bool,
    det: u64,
    unconfirmed: u64,
) {
    let samples: Vec<Value> = (0..3u64)
        .map(|i| {
            let mut c = make_case(p, o.seed, i);
            let n = c.ops.len();
            c.ops.truncate(12);
            json!({"index": i, "ops_total": n, "case": c})
        })
        .collect();
    let missing: Vec<&str> = p
        .reach
        .iter()
        .filter(|r| !cov.probes.contains_key(**r))
        .cloned()
        .collect();
    let j = json!({
        "property": p.id,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": cov.runs,
            "distinct_nontrivial": hashes.len(),
            "rule": p.rule,
            "distinct_measure": "hash over the order in which tasks were polled, the faults that fired, file operations and the events the scenario records; runs without operations or without any such event do not count",
            "samples": samples,
            "runs_per_hour": (cov.runs as f64 / explore_s * 3600.0) as u64,
            "simulated_hours": cov.sim_ns as f64 / 3.6e12,
            "scheduler_steps": cov.steps,
            "faults_injected": cov.fired,
            "runs_with_fault": cov.fired_runs,
            "probes": cov.probes,
            "probes_never_hit": missing,
            "scenarios": cov.scens,
            "real_code": p.real,
            "stubs": p.stub,
            "worker_processes": o.workers,
            "known_findings_hit": known_hits,
            "determinism_cases_run_twice": det,
            "unconfirmed": unconfirmed,
            "harness_errors": harness.len(),
        },
        "assumptions": [
            "tasks interleave at await points on one thread; data races inside one poll are not explored",
            "the stubs listed behave like the libraries they replace",
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violated as u32,
    });
    let _ = std::fs::create_dir_all("/verif/evidence");
    std::fs::write(
        format!("/verif/evidence/{}.json", p.id),
        serde_json::to_string_pretty(&j).unwrap(),
    )
    .expect("evidence");
}

pub fn replay(props: &'static [Prop], path: &str) -> i32 {
    let _clean = Cleanup::new();
    let txt = std::fs::read_to_string(path).expect("replay file");
    let j: Value = serde_json::from_str(&txt).expect("replay json");
    let case: Case = serde_json::from_value(j["case"].clone()).expect("case");
    let _ = props;
    let o = Server::new().run(true, &case);
    for l in &o.trace {
        println!("{l}");
    }
    let plain = Server::new().run(false, &case);
    println!("hash {:016x} steps {}", plain.hash, plain.steps);
    match (&o.viol, &o.harness) {
        (Some(v), _) => {
            println!("{}: {}", v.kind, v.msg);
            println!("VIOLATION property={} replay={}", case.prop, path);
            1
        }
        (None, Some(h)) => {
            println!("HARNESS: {h}");
            2
        }
        _ => {
            println!("no violation");
            0
        }
    }
}

/// Every case of a range twice, in different processes and after different predecessors.
pub fn determinism(p: &'static Prop, seed: u64, n: u64) -> i32 {
    let _clean = Cleanup::new();
    let mut bad = 0;
    let mut a = Server::new();
    let mut b = Server::new();
    let mut second = vec![];
    for i in 0..n {
        let c = make_case(p, seed, i);
        let x = a.run(std::env::var("FLSIM_EVLOG").is_ok(), &c);
        second.push((i, c, x));
    }
    second.reverse();
    for (i, c, x) in second {
        let y = b.run(i % 2 == 0 || std::env::var("FLSIM_EVLOG").is_ok(), &c);
        if x.hash != y.hash || x.viol != y.viol || x.steps != y.steps || x.sim_ns != y.sim_ns {
            bad += 1;
            if std::env::var("FLSIM_EVLOG").is_ok() {
                std::fs::write(format!("/tmp/det-{i}-a"), x.trace.join("\n")).unwrap();
                std::fs::write(format!("/tmp/det-{i}-b"), y.trace.join("\n")).unwrap();
            }
            println!(
                "{} case {i} ({}): {:x}/{}/{:?} vs {:x}/{}/{:?}",
                p.id, c.scen, x.hash, x.steps, x.viol, y.hash, y.steps, y.viol
            );
        }
    }
    println!("{}: {n} cases twice, {bad} differ", p.id);
    (bad > 0) as i32
}
