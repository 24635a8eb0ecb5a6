//! Executes one case in a process of its own.

use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::panic::AssertUnwindSafe;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Once;

use crate::case::{Case, Outcome, Prop, Viol};
use crate::os;
use crate::sim::{Root, Sim};

struct NullLog;

impl log::Log for NullLog {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.target().starts_with("fl")
    }
    fn log(&self, r: &log::Record) {
        if !self.enabled(r.metadata()) {
            return;
        }
        if let Some(s) = os::current() {
            if s.trace.is_some() {
                s.note(|| {
                    format!("log[{}] {} {}", s.cur.get(), r.level(), r.args())
                        .chars()
                        .take(600)
                        .collect()
                });
            } else if r.level() <= log::Level::Info {
                // The arguments are code, too.
                struct Sink;
                impl std::fmt::Write for Sink {
                    fn write_str(&mut self, _: &str) -> std::fmt::Result {
                        Ok(())
                    }
                }
                let _ = std::fmt::Write::write_fmt(&mut Sink, *r.args());
            }
        }
    }
    fn flush(&self) {}
}

static LOG: NullLog = NullLog;
static INIT: Once = Once::new();

pub fn init(verbose: bool) {
    INIT.call_once(|| {
        crate::sim::install();
        let _ = log::set_logger(&LOG);
        log::set_max_level(if verbose {
            log::LevelFilter::Trace
        } else {
            log::LevelFilter::Info
        });
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            let Some(s) = os::current() else {
                return old(info);
            };
            if s.over.get() || s.abort.borrow().is_some() {
                return;
            }
            let loc = info
                .location()
                .map(|l| (l.file().to_string(), l.line()))
                .unwrap_or_default();
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or(info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            s.note(|| format!("panic of node {}: {msg} at {}:{}", s.cur.get(), loc.0, loc.1));
            s.panics
                .borrow_mut()
                .push((loc.0.clone(), format!("{msg} ({}:{})", loc.0, loc.1)));
        }));
    });
}

/// The panics which the harness itself is responsible for.
fn is_harness(file: &str) -> bool {
    file.starts_with("src/") || file.contains("/verif/")
}

fn body(p: &Prop, case: &Case, trace: bool, progress: &'static AtomicU64) -> Outcome {
    let scen = p
        .scens
        .iter()
        .find(|s| s.name == case.scen)
        .unwrap_or_else(|| panic!("no scenario {}", case.scen));
    let sim = Box::new(Sim::new(
        case.seed,
        case.sched.clone(),
        case.limits.clone(),
        trace,
        progress,
    ));
    os::enter(&*sim);
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .build()
        .expect("runtime");
    let res = std::panic::catch_unwind(AssertUnwindSafe(|| {
        rt.block_on(Root(Box::pin((scen.run)(Rc::new(case.clone())))))
    }));
    sim.over.set(true);
    let mut out = Outcome {
        hash: sim.hash.get(),
        steps: sim.steps.get(),
        sim_ns: sim.now_ns(),
        fired: sim
            .fired
            .borrow()
            .iter()
            .map(|(k, v)| (k.to_string(), *v))
            .collect(),
        probes: sim
            .probes
            .borrow()
            .iter()
            .map(|(k, v)| (k.to_string(), *v))
            .collect(),
        ..Default::default()
    };
    let panics = sim.panics.borrow().clone();
    let panic_viol = panics.iter().find(|(f, _)| !is_harness(f)).map(|(f, m)| {
        let short = f.rsplit("/repo/").next().unwrap_or(f);
        let short = short.rsplit("/library/").next().unwrap_or(short);
        // Numbers vary from run to run
        let head: String = m
            .split(" (")
            .next()
            .unwrap_or("")
            .chars()
            .filter(|c| !c.is_ascii_digit())
            .take(60)
            .collect();
        Viol {
            kind: format!("panic in {short}: {head}"),
            msg: m.clone(),
        }
    });
    match res {
        Err(_) => match panic_viol {
            Some(v) if panics.iter().all(|(f, _)| !is_harness(f)) => out.viol = Some(v),
            _ => {
                out.harness = Some(format!(
                    "panic in the harness: {:?}",
                    panics.last().map(|p| p.1.clone())
                ))
            }
        },
        Ok(Err(abort)) => {
            if let Some(v) = panic_viol {
                out.viol = Some(v);
            } else if abort == "steps" {
                out.viol = Some(Viol {
                    kind: "livelock".into(),
                    msg: format!("no end after {} steps", sim.steps.get()),
                });
            } else if abort == "deadlock" || abort == "sim-time" {
                out.viol = Some(Viol {
                    kind: "nothing ever happens again".into(),
                    msg: format!("{abort} at {} s", sim.now_ns() / 1_000_000_000),
                });
            } else if let Some(v) = abort.strip_prefix("viol:") {
                out.viol = serde_json::from_str(v).ok();
            } else {
                out.harness = Some(format!("aborted: {abort}"));
            }
        }
        Ok(Ok(Err(v))) => {
            if v.kind.starts_with("harness") {
                out.harness = Some(v.msg);
            } else {
                out.viol = panic_viol.or(Some(v));
            }
        }
        Ok(Ok(Ok(()))) => out.viol = panic_viol,
    }
    if let Some(t) = &sim.trace {
        out.trace = t.borrow().clone();
    }
    drop(rt);
    os::enter(std::ptr::null());
    drop(sim);
    out
}

pub enum Exec {
    Done(Box<Outcome>),
    /// The run never ended and had to be stopped.
    Hang(String),
}

pub const HANG_CPU_NS: u64 = 15_000_000_000;
const TOTAL_CPU_NS: u64 = 150_000_000_000;

fn run_thread(p: &'static Prop, case: &Case, trace: bool, progress: &'static AtomicU64) -> Outcome {
    let case = case.clone();
    let th = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let r = std::panic::catch_unwind(AssertUnwindSafe(|| body(p, &case, trace, progress)));
            os::enter(std::ptr::null());
            r.unwrap_or_else(|e| Outcome {
                harness: Some(format!(
                    "panic outside of the run: {:?}",
                    e.downcast_ref::<String>()
                )),
                ..Default::default()
            })
        })
        .expect("thread");
    th.join().unwrap_or_else(|_| Outcome {
        harness: Some("run thread died".into()),
        ..Default::default()
    })
}

/// Runs the case in a copy of this process, so that whatever global state the code and its
/// libraries keep is the same in every run. The process must have only one thread.
pub fn exec(p: &'static Prop, case: &Case, trace: bool) -> Exec {
    init(trace);
    let progress = unsafe {
        let m = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(m != libc::MAP_FAILED, "mmap");
        &*(m as *const AtomicU64)
    };
    let done = exec_in(p, case, trace, progress);
    unsafe { libc::munmap(progress as *const AtomicU64 as *mut libc::c_void, 4096) };
    done
}

fn exec_in(p: &'static Prop, case: &Case, trace: bool, progress: &'static AtomicU64) -> Exec {
    let mut fds = [0; 2];
    assert!(unsafe { libc::pipe(fds.as_mut_ptr()) } == 0, "pipe");
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe { libc::close(fds[0]) };
        os::limit_memory();
        if trace {
            log::set_max_level(log::LevelFilter::Trace);
        }
        let o = run_thread(p, case, trace, progress);
        let mut out = unsafe { std::fs::File::from_raw_fd(fds[1]) };
        let _ = out.write_all(&serde_json::to_vec(&o).unwrap_or_default());
        drop(out);
        unsafe { libc::_exit(0) };
    }
    unsafe { libc::close(fds[1]) };
    let mut pipe = unsafe { std::fs::File::from_raw_fd(fds[0]) };
    let mut data = vec![];
    let (mut last, mut since) = (u64::MAX, 0);
    let hang = loop {
        let mut pf = libc::pollfd {
            fd: fds[0],
            events: libc::POLLIN,
            revents: 0,
        };
        let n = unsafe { libc::poll(&mut pf, 1, if last == u64::MAX { 2000 } else { 250 }) };
        if n > 0 {
            // The outcome comes at once, at the end.
            let _ = pipe.read_to_end(&mut data);
            break None;
        }
        let cpu = os::process_cpu(pid);
        let now = progress.load(Ordering::Relaxed);
        if now != last {
            last = now;
            since = cpu;
        } else if cpu > since + HANG_CPU_NS {
            break Some(format!(
                "a task never returned after step {now}: {} s of CPU time",
                HANG_CPU_NS / 1_000_000_000
            ));
        }
        if cpu > TOTAL_CPU_NS {
            break Some(format!("the run took {} s", TOTAL_CPU_NS / 1_000_000_000));
        }
    };
    unsafe {
        if hang.is_some() {
            libc::kill(pid, libc::SIGKILL);
        }
        libc::waitpid(pid, std::ptr::null_mut(), 0);
    }
    if let Some(h) = hang {
        return Exec::Hang(h);
    }
    Exec::Done(Box::new(serde_json::from_slice(&data).unwrap_or_else(
        |_| Outcome {
            viol: Some(Viol {
                kind: "process died".into(),
                msg: "the process running the node died (abort, out of memory)".into(),
            }),
            ..Default::default()
        },
    )))
}
