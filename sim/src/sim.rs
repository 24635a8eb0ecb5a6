//! State of one simulated run: clock, randomness, scheduler, nodes, disk.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

use flarch::sim::{Acceptor, BoxFuture, Pipe, World};
use serde::{Deserialize, Serialize};
use tokio::task::JoinHandle;

use crate::os::{self, FileFault};
use crate::rng::{mix, Rng};

pub const WALL_BASE_NS: u64 = 1_700_000_000_000_000_000;

/// Knobs of the schedule, drawn per run.
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Sched {
    /// Chance that a poll is put off, in permille
    pub defer: u32,
    /// Chance that a task is a slow one, in permille: every poll is put off several times
    pub slow: u32,
    /// Chance that a poll is put off by some milliseconds, in permille
    pub stall: u32,
    /// Every reading of the clock takes up to so many nanoseconds
    pub tick_ns: u64,
}

impl Sched {
    pub fn random(r: &mut Rng) -> Self {
        match r.below(10) {
            0 => Sched::default(),
            1..=3 => Sched {
                defer: *r.pick(&[50, 200, 400, 600]),
                tick_ns: *r.pick(&[0, 100, 5_000]),
                ..Default::default()
            },
            4..=6 => Sched {
                defer: *r.pick(&[0, 50, 200]),
                slow: *r.pick(&[50, 200, 400]),
                tick_ns: *r.pick(&[0, 100, 5_000, 50_000]),
                stall: 0,
            },
            _ => Sched {
                defer: *r.pick(&[0, 100, 300]),
                slow: *r.pick(&[0, 100, 300]),
                stall: *r.pick(&[1, 5, 20]),
                tick_ns: *r.pick(&[0, 100, 5_000, 50_000]),
            },
        }
    }
}

pub struct NodeState {
    pub inc: Cell<u32>,
    pub alive: Cell<bool>,
    pub skew_ns: Cell<i64>,
    pub stall_until: Cell<u64>,
    /// Disk does not take anything anymore
    pub frozen: Cell<bool>,
    /// Crash at this many file operations from now
    pub crash_in: Cell<Option<u32>>,
    pub file_ops: Cell<u32>,
}

#[derive(Default)]
pub struct Disk {
    prefix: RefCell<Vec<u8>>,
    fds: RefCell<Vec<i32>>,
    /// Permille per kind of operation
    pub rate: RefCell<BTreeMap<&'static str, u32>>,
    /// Chance for a short read or write, which is legal at any time
    pub short: Cell<u32>,
    /// Paths need to contain this for faults to be injected
    pub only: RefCell<Vec<u8>>,
}

impl Disk {
    pub fn inside(&self, p: &[u8]) -> bool {
        let prefix = self.prefix.borrow();
        !prefix.is_empty() && p.starts_with(&prefix) && !p.windows(3).any(|w| w == b"/..")
    }
    pub fn set_prefix(&self, p: &str) {
        *self.prefix.borrow_mut() = p.as_bytes().to_vec();
    }
    pub fn track(&self, fd: i32) {
        self.fds.borrow_mut().push(fd);
    }
    pub fn untrack(&self, fd: i32) {
        if let Ok(mut f) = self.fds.try_borrow_mut() {
            f.retain(|x| *x != fd);
        }
    }
    pub fn tracked(&self, fd: i32) -> bool {
        self.fds.borrow().contains(&fd)
    }
}

pub struct Sim {
    pub seed: u64,
    pub sched: Sched,
    now: Cell<u64>,
    sched_rng: RefCell<Rng>,
    os_rng: RefCell<Rng>,
    net_rng: RefCell<Rng>,
    tick_rng: RefCell<Rng>,
    pub rng: RefCell<Rng>,
    fault_rng: RefCell<BTreeMap<&'static str, Rng>>,
    pub limits: BTreeMap<String, u64>,
    pub fired: RefCell<BTreeMap<&'static str, u64>>,
    /// Decisions of each kind, fired or not
    pub probes: RefCell<BTreeMap<&'static str, u64>>,
    pub nodes: Vec<NodeState>,
    pub cur: Cell<u32>,
    pub steps: Cell<u64>,
    pub max_steps: Cell<u64>,
    pub max_ns: Cell<u64>,
    pub hash: Cell<u64>,
    next_task: Cell<u64>,
    pub abort: RefCell<Option<String>>,
    main_waker: RefCell<Option<Waker>>,
    pub panics: RefCell<Vec<(String, String)>>,
    pub trace: Option<RefCell<Vec<String>>>,
    pub disk: Disk,
    pub net: crate::net::Net,
    /// No faults and no stalls anymore
    pub calm: Cell<bool>,
    pub over: Cell<bool>,
    pub spawned: Cell<u64>,
    /// Tasks that are put off for some time
    pub held: Cell<i64>,
    pub progress: &'static std::sync::atomic::AtomicU64,
}

impl Sim {
    pub fn new(
        seed: u64,
        sched: Sched,
        limits: BTreeMap<String, u64>,
        trace: bool,
        progress: &'static std::sync::atomic::AtomicU64,
    ) -> Self {
        Sim {
            seed,
            sched,
            now: Cell::new(1_000_000_000),
            sched_rng: RefCell::new(Rng::stream(seed, "sched")),
            os_rng: RefCell::new(Rng::stream(seed, "os")),
            net_rng: RefCell::new(Rng::stream(seed, "net")),
            tick_rng: RefCell::new(Rng::stream(seed, "tick")),
            rng: RefCell::new(Rng::stream(seed, "run")),
            fault_rng: Default::default(),
            limits,
            fired: Default::default(),
            probes: Default::default(),
            nodes: (0..64)
                .map(|_| NodeState {
                    inc: Cell::new(0),
                    alive: Cell::new(true),
                    skew_ns: Cell::new(0),
                    stall_until: Cell::new(0),
                    frozen: Cell::new(false),
                    crash_in: Cell::new(None),
                    file_ops: Cell::new(0),
                })
                .collect(),
            cur: Cell::new(0),
            steps: Cell::new(0),
            max_steps: Cell::new(3_000_000),
            max_ns: Cell::new(1_000_000_000 * 86_400 * 3),
            hash: Cell::new(0),
            next_task: Cell::new(1),
            abort: Default::default(),
            main_waker: Default::default(),
            panics: Default::default(),
            trace: trace.then(|| RefCell::new(vec![])),
            disk: Disk::default(),
            net: Default::default(),
            calm: Cell::new(false),
            over: Cell::new(false),
            spawned: Cell::new(0),
            held: Cell::new(0),
            progress,
        }
    }

    fn tick(&self) {
        if self.sched.tick_ns > 0 {
            let d = self.tick_rng.borrow_mut().below(self.sched.tick_ns);
            self.now.set(self.now.get() + d);
        }
    }
    pub fn mono_ns(&self) -> u64 {
        self.tick();
        self.now.get()
    }
    /// Does not let time pass
    pub fn now_ns(&self) -> u64 {
        self.now.get()
    }
    pub fn now_ms(&self) -> u64 {
        self.now.get() / 1_000_000
    }
    pub fn wall_ns(&self) -> u64 {
        self.tick();
        let skew = self
            .nodes
            .get(self.cur.get() as usize)
            .map(|n| n.skew_ns.get())
            .unwrap_or(0);
        (WALL_BASE_NS + self.now.get()).wrapping_add_signed(skew)
    }
    pub fn advance(&self, ns: u64) {
        self.now.set(self.now.get() + ns);
        if self.now.get() > self.max_ns.get() {
            self.stop("sim-time");
        }
    }
    /// Nothing is runnable: jump to the next timer.
    pub fn idle(&self, timeout: i32) {
        if timeout < 0 {
            self.stop("deadlock");
        } else {
            self.advance(timeout as u64 * 1_000_000);
        }
    }
    pub fn stop(&self, why: &str) {
        let mut a = self.abort.borrow_mut();
        if a.is_none() {
            *a = Some(why.into());
        }
        if let Some(w) = self.main_waker.borrow().as_ref() {
            w.wake_by_ref();
        }
    }
    pub fn os_random(&self, buf: &mut [u8]) {
        let mut r = self.os_rng.borrow_mut();
        for c in buf.chunks_mut(8) {
            let b = r.u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    pub fn net_below(&self, n: u64) -> u64 {
        self.net_rng.borrow_mut().below(n)
    }
    pub fn ev(&self, a: u64, b: u64) {
        self.hash
            .set(mix(self.hash.get() ^ a.wrapping_mul(0x9e3779b97f4a7c15)).wrapping_add(b));
        if evlog() {
            self.note(|| format!("ev {a} {b}"));
        }
    }
    pub fn note(&self, f: impl FnOnce() -> String) {
        if let Some(t) = &self.trace {
            let mut t = t.borrow_mut();
            if t.len() < 20_000 || evlog() {
                t.push(format!("{:>12.9} {}", self.now.get() as f64 / 1e9 - 1.0, f()));
            }
        }
    }
    pub fn probe(&self, name: &'static str) {
        *self.probes.borrow_mut().entry(name).or_default() += 1;
    }
    fn count_fault(&self, kind: &'static str) -> bool {
        let mut fired = self.fired.borrow_mut();
        let f = fired.entry(kind).or_default();
        if let Some(l) = self.limits.get(kind) {
            if *f >= *l {
                return false;
            }
        }
        *f += 1;
        true
    }
    /// Records a fault that is part of the operations of the case.
    pub fn did(&self, kind: &'static str) {
        *self.fired.borrow_mut().entry(kind).or_default() += 1;
        self.ev(77, crate::rng::hash_bytes(kind.as_bytes()));
        self.note(|| format!("fault {kind}"));
    }
    /// Seeded decision whether a fault of this kind happens here.
    pub fn fault(&self, kind: &'static str, permille: u32) -> bool {
        if permille == 0 || self.calm.get() {
            return false;
        }
        let hit = self
            .fault_rng
            .borrow_mut()
            .entry(kind)
            .or_insert_with(|| Rng::stream(self.seed, kind))
            .chance(permille);
        if hit && self.count_fault(kind) {
            self.ev(7, crate::rng::hash_bytes(kind.as_bytes()));
            self.note(|| format!("fault {kind}"));
            return true;
        }
        false
    }
    pub fn fired_of(&self, kinds: &[&str]) -> u64 {
        let f = self.fired.borrow();
        kinds.iter().map(|k| f.get(k).copied().unwrap_or(0)).sum()
    }
    pub fn lacks_dir(&self, dir: &str) -> bool {
        os::outside(|| !std::path::Path::new(dir).is_dir())
    }
    pub fn node(&self, n: u32) -> &NodeState {
        &self.nodes[n as usize]
    }
    /// The node does nothing for some time.
    pub fn stall(&self, n: u32, ms: u64) {
        self.did("node-stall");
        let n = self.node(n);
        n.stall_until.set(n.stall_until.get().max(self.now_ns() + ms * 1_000_000));
    }
    pub fn runs(&self, node: u32, inc: u32) -> bool {
        let n = self.node(node);
        n.alive.get() && n.inc.get() == inc
    }
    /// Stops everything of a node; only its files survive.
    pub fn kill(&self, n: u32) {
        let node = self.node(n);
        node.alive.set(false);
        node.frozen.set(true);
        node.crash_in.set(None);
        self.ev(8, n as u64);
        self.note(|| format!("node {n} killed"));
        self.net.killed(n);
    }
    pub fn revive(&self, n: u32) {
        let node = self.node(n);
        node.inc.set(node.inc.get() + 1);
        node.alive.set(true);
        node.frozen.set(false);
        node.crash_in.set(None);
        node.stall_until.set(0);
        self.ev(9, n as u64);
        self.note(|| format!("node {n} starts again"));
    }

    pub fn file_op(&self, op: &'static str, path: &[u8], len: usize) -> FileFault {
        let n = self.node(self.cur.get());
        if n.frozen.get() {
            return FileFault::Errno(libc::EIO);
        }
        let read = matches!(op, "read" | "open-read" | "stat");
        if !read {
            n.file_ops.set(n.file_ops.get() + 1);
        }
        self.ev(5, len as u64);
        self.note(|| {
            format!(
                "file {op} {} ({len}) by {}",
                String::from_utf8_lossy(&path[self.disk.prefix.borrow().len().min(path.len())..]),
                self.cur.get()
            )
        });
        if let (Some(c), false) = (n.crash_in.get(), read) {
            if c == 0 {
                let cur = self.cur.get();
                self.did("crash-in-file-op");
                let part = if op == "write" && len > 0 {
                    self.net_below(len as u64) as usize
                } else {
                    0
                };
                // The rest of this poll still runs, but can do nothing anymore.
                self.kill(cur);
                return if part > 0 {
                    self.did("torn-write");
                    FileFault::Short(part)
                } else {
                    FileFault::Errno(libc::EIO)
                };
            }
            n.crash_in.set(Some(c - 1));
        }
        let only = self.disk.only.borrow();
        if !only.is_empty()
            && !path.is_empty()
            && !path.windows(only.len()).any(|w| w == only.as_slice())
        {
            return FileFault::None;
        }
        let rate = self.disk.rate.borrow().get(op).copied().unwrap_or(0);
        match op {
            "write" => {
                if self.fault("disk-write-error", rate) {
                    let e = if self.net_below(2) == 0 { libc::ENOSPC } else { libc::EIO };
                    return FileFault::Errno(e);
                }
                if len > 1 && self.fault("disk-short-write", self.disk.short.get()) {
                    return FileFault::Short(1 + self.net_below(len as u64 - 1) as usize);
                }
                if self.fault("disk-eintr", self.disk.short.get() / 4) {
                    return FileFault::Errno(libc::EINTR);
                }
            }
            "read" => {
                if self.fault("disk-read-error", rate) {
                    return FileFault::Errno(libc::EIO);
                }
                if len > 1 && self.fault("disk-short-read", self.disk.short.get()) {
                    return FileFault::Short(1 + self.net_below(16.min(len as u64 - 1)) as usize);
                }
                if self.fault("disk-eintr", self.disk.short.get() / 4) {
                    return FileFault::Errno(libc::EINTR);
                }
            }
            "open-write" => {
                if self.fault("disk-create-error", rate) {
                    let e = *[libc::ENOSPC, libc::EIO, libc::EMFILE, libc::EROFS]
                        .get(self.net_below(4) as usize)
                        .unwrap();
                    return FileFault::Errno(e);
                }
            }
            "open-read" => {
                if self.fault("disk-open-error", rate) {
                    let e = if self.net_below(2) == 0 { libc::EIO } else { libc::EMFILE };
                    return FileFault::Errno(e);
                }
            }
            "stat" => {
                if self.fault("disk-stat-error", rate) {
                    return FileFault::Errno(libc::EIO);
                }
            }
            _ => {
                if self.fault("disk-other-error", rate) {
                    return FileFault::Errno(if op == "rename" { libc::ENOSPC } else { libc::EIO });
                }
            }
        }
        FileFault::None
    }
}

thread_local! {
    static SCRATCH: Cell<u32> = const { Cell::new(0) };
}

/// A new directory outside of everything that matters, for the disks of the nodes.
/// It is removed with all others when the exploration ends.
pub fn scratch_root() -> String {
    std::env::var("FLSIM_SCRATCH")
        .unwrap_or_else(|_| format!("/dev/shm/flsim-{}", std::process::id()))
}

pub struct Scratch(pub String);

impl Scratch {
    pub fn new() -> Self {
        static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        // The same length always, as lengths are part of what happens
        let d = format!("{}/{:08}-{:08}", scratch_root(), std::process::id(), n);
        os::outside(|| {
            std::fs::create_dir_all(&d).expect("scratch directory");
        });
        sim().disk.set_prefix(&d);
        Scratch(d)
    }
    pub fn of(&self, node: u32) -> String {
        format!("{}/n{node}", self.0)
    }
    /// What really is on the disk
    pub fn files(&self, node: u32) -> BTreeMap<String, Vec<u8>> {
        let dir = self.of(node);
        os::outside(|| {
            let mut r = BTreeMap::new();
            if let Ok(d) = std::fs::read_dir(&dir) {
                for e in d.flatten() {
                    let n = e.file_name().to_string_lossy().to_string();
                    r.insert(n, std::fs::read(e.path()).unwrap_or_default());
                }
            }
            r
        })
    }
    /// Replaces the content of the directory
    pub fn put(&self, node: u32, files: &BTreeMap<String, Vec<u8>>) {
        let dir = self.of(node);
        os::outside(|| {
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(&dir).expect("scratch directory");
            for (n, c) in files {
                std::fs::write(format!("{dir}/{n}"), c).expect("scratch file");
            }
        })
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        os::outside(|| {
            let _ = std::fs::remove_dir_all(&self.0);
        });
    }
}

/// Kinds of violations which are listed as known findings
pub fn is_known(kind: &str) -> bool {
    static K: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        os::outside(|| std::fs::read_to_string("/verif/known_findings.txt").unwrap_or_default())
            .lines()
            .filter(|l| l.starts_with("known: "))
            .filter_map(|l| Some(l.split_once("kind=\"")?.1.split_once('"')?.0.to_string()))
            .collect()
    })
    .iter()
    .any(|k| k == kind)
}

/// Reports a violation, unless it is a known finding: then the run goes on.
pub fn finding(kind: &'static str, msg: String) -> crate::case::Res {
    if is_known(kind) {
        sim().probe(kind);
        sim().note(|| format!("known finding: {kind}: {msg}"));
        return Ok(());
    }
    crate::case::viol(kind, msg)
}

pub fn sim() -> &'static Sim {
    os::current().expect("not in a simulation")
}

// ---------------------------------------------------------------- tasks

pub struct SimTask {
    f: BoxFuture<()>,
    node: u32,
    inc: u32,
    id: u64,
    slow: u32,
    left: u32,
    deferred: bool,
    sleep: Option<(Pin<Box<tokio::time::Sleep>>, Held)>,
}

/// A task that is put off for some time
struct Held;
impl Held {
    fn new() -> Self {
        let s = sim();
        s.held.set(s.held.get() + 1);
        Held
    }
}
impl Drop for Held {
    fn drop(&mut self) {
        if let Some(s) = os::current() {
            s.held.set(s.held.get() - 1);
        }
    }
}

impl SimTask {
    pub fn new(f: BoxFuture<()>, node: u32) -> Self {
        let s = sim();
        let id = s.next_task.get();
        s.next_task.set(id + 1);
        s.spawned.set(s.spawned.get() + 1);
        let slow = if s.sched.slow > 0 && !s.calm.get() {
            let mut r = s.sched_rng.borrow_mut();
            if r.chance(s.sched.slow) {
                1 + r.below(12) as u32
            } else {
                0
            }
        } else {
            0
        };
        SimTask {
            f,
            node,
            inc: s.node(node).inc.get(),
            id,
            slow,
            left: slow,
            deferred: false,
            sleep: None,
        }
    }
}

impl Future for SimTask {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let Some(s) = os::current() else {
            return Poll::Pending;
        };
        if s.over.get() || s.abort.borrow().is_some() {
            return Poll::Pending;
        }
        if !s.runs(self.node, self.inc) {
            // Never polled again: its memory is gone.
            self.sleep = None;
            return Poll::Pending;
        }
        loop {
            if let Some((sl, _)) = self.sleep.as_mut() {
                if sl.as_mut().poll(cx).is_pending() {
                    return Poll::Pending;
                }
                self.sleep = None;
            }
            let until = s.node(self.node).stall_until.get();
            if until > s.now_ns() {
                let d = std::time::Duration::from_nanos(until - s.now_ns());
                self.sleep = Some((Box::pin(tokio::time::sleep(d)), Held::new()));
                continue;
            }
            break;
        }
        if !s.calm.get() {
            if self.left > 0 {
                if self.left == self.slow && !s.count_fault("slow-task") {
                    self.left = 0;
                } else {
                    self.left -= 1;
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
            }
            self.left = self.slow;
            if !self.deferred && s.sched.defer > 0 {
                if s.sched_rng.borrow_mut().chance(s.sched.defer) && s.count_fault("defer") {
                    self.deferred = true;
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
            }
            self.deferred = false;
            if s.sched.stall > 0 {
                let hit = s.sched_rng.borrow_mut().chance(s.sched.stall);
                if hit && s.count_fault("task-stall") {
                    let ms = 1 + s.sched_rng.borrow_mut().below(200);
                    let mut sl =
                        Box::pin(tokio::time::sleep(std::time::Duration::from_millis(ms)));
                    if sl.as_mut().poll(cx).is_pending() {
                        self.sleep = Some((sl, Held::new()));
                        return Poll::Pending;
                    }
                }
            }
        }
        let steps = s.steps.get() + 1;
        s.steps.set(steps);
        s.progress.store(steps, std::sync::atomic::Ordering::Relaxed);
        if steps > s.max_steps.get() {
            s.stop("steps");
            return Poll::Pending;
        }
        s.ev(1, self.id);
        let old = s.cur.replace(self.node);
        let r = self.f.as_mut().poll(cx);
        s.cur.set(old);
        if !s.runs(self.node, self.inc) {
            return Poll::Pending;
        }
        r
    }
}

struct SimWorld;

impl World for SimWorld {
    fn spawn(&self, f: BoxFuture<()>) -> JoinHandle<()> {
        tokio::spawn(SimTask::new(f, sim().cur.get()))
    }
    fn bind(&self, addr: &str) -> std::io::Result<Box<dyn Acceptor>> {
        crate::net::bind(addr)
    }
    fn connect(&self, addr: &str) -> BoxFuture<std::io::Result<Box<dyn Pipe>>> {
        crate::net::connect(addr)
    }
}

pub fn install() {
    flarch::sim::set_world(Box::new(SimWorld));
    flmodules::sim::set_fetch(crate::net::fetch);
}

/// Runs a future as part of a node. None if the node crashed meanwhile.
pub struct OnNode<F> {
    f: Pin<Box<F>>,
    node: u32,
    inc: u32,
}

pub fn on_node<F: Future>(node: u32, f: F) -> OnNode<F> {
    OnNode {
        f: Box::pin(f),
        node,
        inc: sim().node(node).inc.get(),
    }
}

impl<F: Future> Future for OnNode<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let s = sim();
        if !s.runs(self.node, self.inc) {
            return Poll::Ready(None);
        }
        let old = s.cur.replace(self.node);
        let r = self.f.as_mut().poll(cx);
        s.cur.set(old);
        if !s.runs(self.node, self.inc) {
            return Poll::Ready(None);
        }
        r.map(Some)
    }
}

/// Synchronous variant of [on_node].
pub fn as_node<T>(node: u32, f: impl FnOnce() -> T) -> T {
    let s = sim();
    let old = s.cur.replace(node);
    let r = f();
    s.cur.set(old);
    r
}

/// The main future of a run; ends when the run is aborted.
pub struct Root<F>(pub Pin<Box<F>>);

impl<F: Future> Future for Root<F> {
    type Output = Result<F::Output, String>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let s = sim();
        *s.main_waker.borrow_mut() = Some(cx.waker().clone());
        if let Some(a) = s.abort.borrow().clone() {
            return Poll::Ready(Err(a));
        }
        self.0.as_mut().poll(cx).map(Ok)
    }
}

pub async fn sleep_ms(ms: u64) {
    tokio::time::sleep(std::time::Duration::from_millis(ms)).await
}

/// Lets all tasks run until only timers, and messages on the network, are left.
pub async fn quiesce() {
    // The clock moves only when nothing is runnable.
    let mut calm = 0;
    for _ in 0..100_000 {
        sleep_ms(1).await;
        calm = if sim().held.get() == 0 { calm + 1 } else { 0 };
        if calm == 3 {
            return;
        }
    }
}

pub async fn within<F: Future>(ms: u64, f: F) -> Option<F::Output> {
    tokio::time::timeout(std::time::Duration::from_millis(ms), f)
        .await
        .ok()
}

/// For debugging: every event goes to the trace.
fn evlog() -> bool {
    static ON: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *ON.get_or_init(|| std::env::var("FLSIM_EVLOG").is_ok())
}
