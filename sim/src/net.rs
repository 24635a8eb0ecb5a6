//! The simulated network: TCP streams, WebRTC data channels (a stub of the
//! webrtc library behind `WebRTCSpawner`), and HTTP answers.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::Future;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex, Weak};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use flarch::broker::{Broker, SubsystemHandler};
use flarch::sim::{Acceptor, BoxFuture, Pipe};
use flarch::web_rtc::messages::{
    ConnectionStateMap, DataChannelState, PeerMessage, SignalingState, WebRTCInput, WebRTCOutput,
    WebRTCSpawner,
};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::time::Sleep;

use crate::os;
use crate::sim::{sim, sleep_ms, SimTask};

#[derive(Default)]
pub struct Net {
    listeners: RefCell<BTreeMap<u16, Arc<Mutex<ListenerInner>>>>,
    conns: RefCell<Vec<ConnRef>>,
    next_conn: Cell<u64>,
    blocked: RefCell<BTreeSet<(u32, u32)>>,
    heal: RefCell<Vec<Waker>>,
    pub cfg: NetCfg,
    rtc: RefCell<BTreeMap<u64, RtcEnd>>,
    rtc_next: Cell<u64>,
    pub http: RefCell<Option<Rc<dyn Fn(&str) -> HttpAnswer>>>,
    pub http_seen: RefCell<Vec<(u32, String)>>,
}

pub struct NetCfg {
    pub lat_min_us: Cell<u64>,
    pub lat_var_us: Cell<u64>,
    /// Capacity of a TCP direction
    pub tcp_cap: Cell<usize>,
    /// Permille
    pub partial: Cell<u32>,
    /// A killed node leaves its TCP peers in the dark
    pub silent_kill: Cell<bool>,
    /// Permille: data channel setup that never opens
    pub rtc_fail: Cell<u32>,
    /// Milliseconds until a dead data channel is noticed
    pub rtc_dead_ms: Cell<u64>,
}

impl Default for NetCfg {
    fn default() -> Self {
        NetCfg {
            lat_min_us: Cell::new(500),
            lat_var_us: Cell::new(20_000),
            tcp_cap: Cell::new(65536),
            partial: Cell::new(0),
            silent_kill: Cell::new(false),
            rtc_fail: Cell::new(0),
            rtc_dead_ms: Cell::new(5_000),
        }
    }
}

struct ConnRef {
    id: u64,
    a: u32,
    b: u32,
    ab: Weak<Mutex<Half>>,
    ba: Weak<Mutex<Half>>,
}

#[derive(Default)]
struct ListenerInner {
    node: u32,
    q: VecDeque<SimTcp>,
    waker: Option<Waker>,
    closed: bool,
}

fn wake(w: &mut Option<Waker>) {
    if let Some(w) = w.take() {
        w.wake();
    }
}

fn pair(a: u32, b: u32) -> (u32, u32) {
    (a.min(b), a.max(b))
}

impl Net {
    pub fn latency_ns(&self) -> u64 {
        let s = sim();
        (self.cfg.lat_min_us.get() + s.net_below(self.cfg.lat_var_us.get() + 1)) * 1000
    }
    pub fn is_blocked(&self, a: u32, b: u32) -> bool {
        self.blocked.borrow().contains(&pair(a, b))
    }
    pub fn block(&self, a: u32, b: u32) {
        if a != b && self.blocked.borrow_mut().insert(pair(a, b)) {
            sim().note(|| format!("net: {a} and {b} cut"));
            self.rtc_watch(a, b);
        }
    }
    pub fn unblock(&self, a: u32, b: u32) {
        self.blocked.borrow_mut().remove(&pair(a, b));
        self.wake_heal();
    }
    pub fn heal_all(&self) {
        self.blocked.borrow_mut().clear();
        self.wake_heal();
    }
    fn wake_heal(&self) {
        for w in self.heal.borrow_mut().drain(..) {
            w.wake();
        }
    }
    pub fn wait_heal(&self, w: &Waker) {
        self.heal.borrow_mut().push(w.clone());
    }

    /// Ids of all live TCP connections with their ends.
    pub fn tcp_list(&self) -> Vec<(u64, u32, u32)> {
        self.conns
            .borrow_mut()
            .retain(|c| c.ab.strong_count() + c.ba.strong_count() > 0);
        self.conns.borrow().iter().map(|c| (c.id, c.a, c.b)).collect()
    }
    /// Connections of which both ends are still there
    pub fn tcp_open(&self, a: u32, b: u32) -> usize {
        self.conns
            .borrow()
            .iter()
            .filter(|c| pair(c.a, c.b) == pair(a, b))
            .filter(|c| c.ab.strong_count() == 2)
            .filter(|c| c.ab.upgrade().is_some_and(|h| !h.lock().unwrap().reset))
            .count()
    }
    fn with_conn(&self, id: u64, f: impl Fn(&mut Half)) {
        if let Some(c) = self.conns.borrow().iter().find(|c| c.id == id) {
            for h in [&c.ab, &c.ba] {
                if let Some(h) = h.upgrade() {
                    let mut h = h.lock().unwrap();
                    f(&mut h);
                    wake(&mut h.rw);
                    wake(&mut h.ww);
                }
            }
        }
    }
    pub fn tcp_reset(&self, id: u64) {
        self.with_conn(id, |h| h.reset = true);
    }
    /// Nothing passes anymore, but nobody is told.
    pub fn tcp_blackhole(&self, id: u64) {
        self.with_conn(id, |h| h.hole = true);
    }
    pub fn tcp_unhole(&self, id: u64) {
        self.with_conn(id, |h| h.hole = false);
    }
    pub fn killed(&self, n: u32) {
        let silent = self.cfg.silent_kill.get();
        for (id, a, b) in self.tcp_list() {
            if a == n || b == n {
                if silent {
                    self.with_conn(id, |h| {
                        h.hole = true;
                        h.gone = true;
                    });
                } else {
                    self.tcp_reset(id);
                }
            }
        }
        self.listeners.borrow_mut().retain(|_, l| {
            let mut l = l.lock().unwrap();
            if l.node == n {
                l.closed = true;
                l.q.clear();
            }
            l.node != n
        });
        self.rtc_killed(n);
    }
}

// ---------------------------------------------------------------- TCP

enum Seg {
    Data(Vec<u8>),
    Fin,
}

#[derive(Default)]
pub struct Half {
    q: VecDeque<(u64, Seg)>,
    bytes: usize,
    last: u64,
    fin_seen: bool,
    fin_sent: bool,
    reset: bool,
    hole: bool,
    /// The machine at the other end went away without a word
    gone: bool,
    reader_gone: bool,
    rw: Option<Waker>,
    ww: Option<Waker>,
}

pub struct SimTcp {
    tx: Arc<Mutex<Half>>,
    rx: Arc<Mutex<Half>>,
    node: u32,
    peer: u32,
    sleep: Option<(u64, Pin<Box<Sleep>>)>,
}

impl std::fmt::Debug for SimTcp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "SimTcp({}->{})", self.node, self.peer)
    }
}

impl AsyncRead for SimTcp {
    fn poll_read(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        let Some(s) = os::current() else {
            return Poll::Pending;
        };
        let this = &mut *self;
        loop {
            let mut rx = this.rx.lock().unwrap();
            if rx.reset {
                return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
            }
            if rx.fin_seen {
                return Poll::Ready(Ok(()));
            }
            rx.rw = Some(cx.waker().clone());
            if rx.hole {
                return Poll::Pending;
            }
            if s.net.is_blocked(this.node, this.peer) {
                s.net.wait_heal(cx.waker());
                return Poll::Pending;
            }
            let now = s.now_ns();
            let Some((ready, seg)) = rx.q.front_mut() else {
                return Poll::Pending;
            };
            if *ready > now {
                let ready = *ready;
                drop(rx);
                if this.sleep.as_ref().map(|(r, _)| *r != ready).unwrap_or(true) {
                    let d = Duration::from_nanos(ready - now);
                    this.sleep = Some((ready, Box::pin(tokio::time::sleep(d))));
                }
                if this.sleep.as_mut().unwrap().1.as_mut().poll(cx).is_pending() {
                    return Poll::Pending;
                }
                this.sleep = None;
                // The timer's resolution is coarser than the clock's.
                let mut rx = this.rx.lock().unwrap();
                if let Some((r, _)) = rx.q.front_mut() {
                    *r = (*r).min(s.now_ns());
                }
                continue;
            }
            match seg {
                Seg::Fin => {
                    rx.q.pop_front();
                    rx.fin_seen = true;
                    return Poll::Ready(Ok(()));
                }
                Seg::Data(d) => {
                    let mut n = d.len().min(buf.remaining());
                    if n > 1 && s.fault("tcp-split", s.net.cfg.partial.get()) {
                        n = 1 + s.net_below(n as u64 - 1) as usize;
                    }
                    buf.put_slice(&d[..n]);
                    d.drain(..n);
                    if d.is_empty() {
                        rx.q.pop_front();
                    }
                    rx.bytes -= n;
                    wake(&mut rx.ww);
                    return Poll::Ready(Ok(()));
                }
            }
        }
    }
}

impl AsyncWrite for SimTcp {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<io::Result<usize>> {
        let Some(s) = os::current() else {
            return Poll::Pending;
        };
        let mut tx = self.tx.lock().unwrap();
        if tx.reset {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if tx.reader_gone || tx.fin_sent {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if tx.gone {
            tx.gone = false;
            s.probe("tcp silently gone");
            let (peer, tx, rx) = (self.peer, self.tx.clone(), self.rx.clone());
            spawn_on(self.node, async move {
                // Sent again and again, until the peer is back and refuses it
                let mut ms = 1_000;
                while ms < 300_000 {
                    sleep_ms(ms).await;
                    if sim().node(peer).alive.get() {
                        break;
                    }
                    ms *= 2;
                }
                for h in [tx, rx] {
                    let mut h = h.lock().unwrap();
                    h.reset = true;
                    wake(&mut h.rw);
                    wake(&mut h.ww);
                }
            });
        }
        let cap = s.net.cfg.tcp_cap.get();
        if tx.bytes >= cap {
            tx.ww = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = buf.len().min(cap - tx.bytes);
        if n > 1 && s.fault("tcp-partial-write", s.net.cfg.partial.get()) {
            n = 1 + s.net_below(n as u64 - 1) as usize;
        }
        let ready = tx.last.max(s.now_ns() + s.net.latency_ns());
        tx.last = ready;
        tx.bytes += n;
        tx.q.push_back((ready, Seg::Data(buf[..n].to_vec())));
        wake(&mut tx.rw);
        Poll::Ready(Ok(n))
    }

    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }

    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.fin();
        Poll::Ready(Ok(()))
    }
}

impl SimTcp {
    fn fin(&self) {
        let Some(s) = os::current() else { return };
        let mut tx = self.tx.lock().unwrap();
        if !tx.fin_sent {
            tx.fin_sent = true;
            let ready = tx.last.max(s.now_ns() + s.net.latency_ns());
            tx.q.push_back((ready, Seg::Fin));
            wake(&mut tx.rw);
        }
    }
}

impl Drop for SimTcp {
    fn drop(&mut self) {
        self.fin();
        let mut rx = self.rx.lock().unwrap();
        rx.reader_gone = true;
        wake(&mut rx.ww);
    }
}

struct ListenerHandle {
    port: u16,
    inner: Arc<Mutex<ListenerInner>>,
}

impl Drop for ListenerHandle {
    fn drop(&mut self) {
        if let Some(s) = os::current() {
            self.inner.lock().unwrap().closed = true;
            let mut l = s.net.listeners.borrow_mut();
            if l.get(&self.port).map(|i| Arc::ptr_eq(i, &self.inner)) == Some(true) {
                l.remove(&self.port);
            }
        }
    }
}

impl Acceptor for ListenerHandle {
    fn accept(&self) -> BoxFuture<io::Result<(Box<dyn Pipe>, SocketAddr)>> {
        let inner = self.inner.clone();
        Box::pin(std::future::poll_fn(move |cx| {
            let mut l = inner.lock().unwrap();
            match l.q.pop_front() {
                Some(c) => {
                    let addr = SocketAddr::from(([10, 0, 0, c.peer as u8], 1000));
                    Poll::Ready(Ok((Box::new(c) as Box<dyn Pipe>, addr)))
                }
                None => {
                    l.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }))
    }
}

fn port_of(addr: &str) -> io::Result<u16> {
    addr.rsplit(':')
        .next()
        .and_then(|p| p.parse().ok())
        .ok_or_else(|| io::ErrorKind::InvalidInput.into())
}

pub fn bind(addr: &str) -> io::Result<Box<dyn Acceptor>> {
    let s = sim();
    let port = port_of(addr)?;
    let mut l = s.net.listeners.borrow_mut();
    if l.contains_key(&port) {
        return Err(io::ErrorKind::AddrInUse.into());
    }
    let inner = Arc::new(Mutex::new(ListenerInner {
        node: s.cur.get(),
        ..Default::default()
    }));
    l.insert(port, inner.clone());
    Ok(Box::new(ListenerHandle { port, inner }))
}

pub fn connect(addr: &str) -> BoxFuture<io::Result<Box<dyn Pipe>>> {
    let s = sim();
    let node = s.cur.get();
    let addr = addr.to_string();
    Box::pin(async move { Ok(Box::new(connect_raw(node, &addr).await?) as Box<dyn Pipe>) })
}

pub async fn connect_raw(node: u32, addr: &str) -> io::Result<SimTcp> {
    let port = port_of(addr)?;
    let lat = sim().net.latency_ns();
    tokio::time::sleep(Duration::from_nanos(lat)).await;
    let find = || {
        sim().net
            .listeners
            .borrow()
            .get(&port)
            .cloned()
            .filter(|l| !l.lock().unwrap().closed)
    };
    for _ in 0..10 {
        let Some(l) = find() else {
            return Err(io::ErrorKind::ConnectionRefused.into());
        };
        let peer = l.lock().unwrap().node;
        if sim().net.is_blocked(node, peer) {
            sleep_ms(500).await;
            continue;
        }
        let s = sim();
        let ab = Arc::new(Mutex::new(Half::default()));
        let ba = Arc::new(Mutex::new(Half::default()));
        let id = s.net.next_conn.get();
        s.net.next_conn.set(id + 1);
        s.net.conns.borrow_mut().push(ConnRef {
            id,
            a: node,
            b: peer,
            ab: Arc::downgrade(&ab),
            ba: Arc::downgrade(&ba),
        });
        let client = SimTcp {
            tx: ab.clone(),
            rx: ba.clone(),
            node,
            peer,
            sleep: None,
        };
        let server = SimTcp {
            tx: ba,
            rx: ab,
            node: peer,
            peer: node,
            sleep: None,
        };
        let mut l = l.lock().unwrap();
        l.q.push_back(server);
        wake(&mut l.waker);
        return Ok(client);
    }
    Err(io::ErrorKind::TimedOut.into())
}

// ---------------------------------------------------------------- WebRTC stub

struct RtcEnd {
    node: u32,
    inc: u32,
    gen: u32,
    /// (endpoint, its generation)
    remote: Option<(u64, u32)>,
    outgoing: Option<bool>,
    /// Own side can send
    channel: bool,
    /// The open event was delivered
    open: bool,
    /// In flight to this end
    inbox: VecDeque<(u64, u32, String)>,
    pumping: bool,
    last: u64,
    broker: Broker<WebRTCInput, WebRTCOutput>,
}

struct RtcStub {
    id: u64,
    queue: Vec<String>,
}

fn spawn_on(node: u32, f: impl Future<Output = ()> + Send + 'static) {
    tokio::spawn(SimTask::new(Box::pin(f), node));
}

/// To be given to `WebRTCConn::new`.
pub fn rtc_spawner() -> WebRTCSpawner {
    Box::new(|| Box::new(Box::pin(new_rtc())))
}

async fn new_rtc() -> anyhow::Result<Broker<WebRTCInput, WebRTCOutput>> {
    let mut broker = Broker::new();
    let id = {
        let s = sim();
        let id = s.net.rtc_next.get() + 1;
        s.net.rtc_next.set(id);
        let node = s.cur.get();
        s.net.rtc.borrow_mut().insert(
            id,
            RtcEnd {
                node,
                inc: s.node(node).inc.get(),
                gen: 0,
                remote: None,
                outgoing: None,
                channel: false,
                open: false,
                inbox: VecDeque::new(),
                pumping: false,
                last: 0,
                broker: broker.clone(),
            },
        );
        id
    };
    broker
        .add_handler(Box::new(RtcStub { id, queue: vec![] }))
        .await?;
    Ok(broker)
}

fn end<T>(id: u64, f: impl FnOnce(&mut RtcEnd) -> T) -> T {
    f(sim().net.rtc.borrow_mut().get_mut(&id).expect("rtc end"))
}

fn rtc_emit(id: u64, gen: u32, out: Vec<WebRTCOutput>, ins: Vec<WebRTCInput>) {
    let b = end(id, |e| (e.gen == gen).then(|| e.broker.clone()));
    if let Some(mut b) = b {
        for m in out {
            let _ = b.emit_msg_out(m);
        }
        for m in ins {
            let _ = b.emit_msg_in(m);
        }
    }
}

impl RtcStub {
    fn state(&self) -> ConnectionStateMap {
        let (setup, open) = end(self.id, |e| (e.outgoing.is_some(), e.open));
        ConnectionStateMap {
            signaling: if open {
                SignalingState::Stable
            } else if setup {
                SignalingState::Setup
            } else {
                SignalingState::Closed
            },
            data_connection: Some(if open {
                DataChannelState::Open
            } else {
                DataChannelState::Connecting
            }),
            ..Default::default()
        }
    }

    fn flush(&mut self) {
        let Some((rid, rgen, me)) = end(self.id, |e| {
            (e.channel && (e.open || e.outgoing == Some(false)))
                .then(|| e.remote.map(|r| (r.0, r.1, e.node)))
                .flatten()
        }) else {
            return;
        };
        for m in self.queue.drain(..) {
            rtc_send(me, rid, rgen, m);
        }
    }

    fn reset(&mut self) {
        rtc_close(self.id, true);
    }

    fn setup(&mut self, pm: PeerMessage) -> Option<WebRTCOutput> {
        let id = self.id;
        match pm {
            PeerMessage::Init => {
                if end(id, |e| e.outgoing.is_some()) {
                    self.reset();
                }
                let gen = end(id, |e| {
                    e.outgoing = Some(true);
                    e.gen
                });
                self.ice(gen);
                Some(WebRTCOutput::Setup(PeerMessage::Offer(format!(
                    "offer:{id}:{gen}"
                ))))
            }
            PeerMessage::Offer(o) => {
                let (oid, ogen) = parse(&o, "offer:")?;
                if end(id, |e| e.outgoing.is_some()) {
                    self.reset();
                }
                let gen = end(id, |e| {
                    e.outgoing = Some(false);
                    e.remote = Some((oid, ogen));
                    e.gen
                });
                self.ice(gen);
                Some(WebRTCOutput::Setup(PeerMessage::Answer(format!(
                    "answer:{id}:{gen}"
                ))))
            }
            PeerMessage::Answer(a) => {
                let (aid, agen) = parse(&a, "answer:")?;
                let ok = end(id, |e| {
                    (e.outgoing == Some(true) && e.remote.is_none()).then(|| {
                        e.remote = Some((aid, agen));
                        e.gen
                    })
                });
                if let Some(gen) = ok {
                    rtc_try_open(id, gen, aid, agen);
                }
                None
            }
            PeerMessage::IceCandidate(_) => None,
        }
    }

    fn ice(&self, gen: u32) {
        let id = self.id;
        let node = end(id, |e| e.node);
        let lat = sim().net.latency_ns();
        spawn_on(node, async move {
            tokio::time::sleep(Duration::from_nanos(lat)).await;
            rtc_emit(
                id,
                gen,
                vec![WebRTCOutput::Setup(PeerMessage::IceCandidate(format!(
                    "ice:{id}:{gen}"
                )))],
                vec![WebRTCInput::UpdateState],
            );
        });
    }
}

fn parse(s: &str, pre: &str) -> Option<(u64, u32)> {
    let (a, b) = s.strip_prefix(pre)?.split_once(':')?;
    let (id, gen) = (a.parse().ok()?, b.parse().ok()?);
    sim().net.rtc.borrow().contains_key(&id).then_some((id, gen))
}

/// Both ends have their descriptions - the channel opens, unless something prevents it.
fn rtc_try_open(id: u64, gen: u32, rid: u64, rgen: u32) {
    let s = sim();
    if s.fault("rtc-setup-fails", s.net.cfg.rtc_fail.get()) {
        return;
    }
    let node = end(id, |e| e.node);
    let rnode = end(rid, |e| e.node);
    let lats = [s.net.latency_ns(), s.net.latency_ns(), s.net.latency_ns()];
    // Not part of any node: the network decides.
    spawn_on(0, async move {
        tokio::time::sleep(Duration::from_nanos(lats[0])).await;
        let mut tries = 0;
        while sim().net.is_blocked(node, rnode) {
            sleep_ms(500).await;
            tries += 1;
            if tries > 20 {
                return;
            }
        }
        let valid = |a: u64, ag: u32, b: u64, bg: u32| {
            let inc_ok = |n: u32, i: u32| sim().runs(n, i);
            end(a, |e| {
                e.gen == ag && e.remote == Some((b, bg)) && inc_ok(e.node, e.inc)
            })
        };
        if !valid(id, gen, rid, rgen) || !valid(rid, rgen, id, gen) {
            return;
        }
        for ((a, ag), lat) in [(id, gen), (rid, rgen)].into_iter().zip(&lats[1..]) {
            let node = end(a, |e| {
                e.channel = true;
                e.node
            });
            let lat = *lat;
            spawn_on(node, async move {
                tokio::time::sleep(Duration::from_nanos(lat)).await;
                if end(a, |e| {
                    let ok = e.gen == ag && e.channel;
                    if ok {
                        e.open = true;
                    }
                    ok
                }) {
                    rtc_emit(
                        a,
                        ag,
                        vec![WebRTCOutput::Connected],
                        vec![WebRTCInput::Flush, WebRTCInput::UpdateState],
                    );
                }
            });
        }
    });
}

fn rtc_send(_from: u32, to: u64, gen: u32, msg: String) {
    let s = sim();
    let lat = s.net.latency_ns();
    let now = s.now_ns();
    let start = end(to, |e| {
        let ready = e.last.max(now + lat);
        e.last = ready;
        e.inbox.push_back((ready, gen, msg));
        let start = !e.pumping;
        e.pumping = true;
        start.then_some(e.node)
    });
    if let Some(node) = start {
        spawn_on(node, rtc_pump(to));
    }
}

async fn rtc_pump(id: u64) {
    loop {
        let Some((ready, gen, _)) = end(id, |e| {
            let f = e.inbox.front().cloned();
            if f.is_none() {
                e.pumping = false;
            }
            f
        }) else {
            return;
        };
        let now = sim().now_ns();
        if ready > now {
            tokio::time::sleep(Duration::from_nanos(ready - now)).await;
        }
        let peer = end(id, |e| e.remote.map(|r| r.0));
        if let Some(peer) = peer {
            let (a, b) = (end(id, |e| e.node), end(peer, |e| e.node));
            std::future::poll_fn(|cx| {
                if sim().net.is_blocked(a, b) {
                    sim().net.wait_heal(cx.waker());
                    return Poll::Pending;
                }
                Poll::Ready(())
            })
            .await;
        }
        let Some((_, mgen, msg)) = end(id, |e| e.inbox.pop_front()) else {
            continue;
        };
        let _ = gen;
        // What arrives before the open event announces the connection itself,
        // as the libc implementation does.
        let out = end(id, |e| {
            (e.gen == mgen && e.channel).then(|| {
                let mut out = vec![];
                if !e.open {
                    out.push(WebRTCOutput::Connected);
                }
                out.push(WebRTCOutput::Text(msg));
                out
            })
        });
        if let Some(out) = out {
            rtc_emit(id, mgen, out, vec![]);
        }
    }
}

/// Closes this end. The other one notices later.
fn rtc_close(id: u64, tell: bool) {
    let remote = end(id, |e| {
        e.gen += 1;
        e.outgoing = None;
        e.channel = false;
        e.open = false;
        e.inbox.clear();
        e.remote.take()
    });
    if let (Some((rid, rgen)), true) = (remote, tell) {
        let lat = sim().net.latency_ns() / 1_000_000 + 1;
        rtc_down_later(rid, rgen, lat);
    }
}

fn rtc_down_later(id: u64, gen: u32, ms: u64) {
    if !end(id, |e| e.gen == gen && e.channel) {
        return;
    }
    let node = end(id, |e| e.node);
    spawn_on(node, async move {
        sleep_ms(ms).await;
        let was = end(id, |e| {
            let was = e.gen == gen && e.channel;
            if was {
                e.open = false;
                e.channel = false;
            }
            was
        });
        if was {
            rtc_emit(id, gen, vec![WebRTCOutput::Disconnected], vec![]);
        }
    });
}

impl Net {
    /// Pairs of nodes with an open channel: (endpoint, generation, node, peer node)
    pub fn rtc_list(&self) -> Vec<(u64, u32, u32, u32)> {
        let r = self.rtc.borrow();
        r.iter()
            .filter(|(_, e)| e.channel)
            .filter_map(|(id, e)| {
                let peer = e.remote?.0;
                Some((*id, e.gen, e.node, r.get(&peer)?.node))
            })
            .collect()
    }
    fn rtc_watch(&self, a: u32, b: u32) {
        let dead = self.cfg.rtc_dead_ms.get();
        for (id, gen, n, p) in self.rtc_list() {
            if pair(n, p) == pair(a, b) {
                let ms = dead + sim().net_below(dead + 1);
                spawn_on(n, async move {
                    sleep_ms(ms).await;
                    if sim().net.is_blocked(n, p) {
                        rtc_down_later(id, gen, 1);
                    }
                });
            }
        }
    }
    /// The channel breaks; each end notices at its own time.
    pub fn rtc_break(&self, a: u32, b: u32, max_ms: u64) {
        for (id, gen, n, p) in self.rtc_list() {
            if pair(n, p) == pair(a, b) {
                rtc_down_later(id, gen, 1 + sim().net_below(max_ms + 1));
            }
        }
    }
    fn rtc_killed(&self, node: u32) {
        let dead = self.cfg.rtc_dead_ms.get();
        for (id, gen, n, p) in self.rtc_list() {
            if p == node && n != node {
                rtc_down_later(id, gen, dead + sim().net_below(dead + 1));
            }
        }
        for e in self.rtc.borrow_mut().values_mut() {
            if e.node == node {
                e.channel = false;
                e.open = false;
                e.gen += 1;
            }
        }
    }
}

#[async_trait::async_trait]
impl SubsystemHandler<WebRTCInput, WebRTCOutput> for RtcStub {
    async fn messages(&mut self, msgs: Vec<WebRTCInput>) -> Vec<WebRTCOutput> {
        let mut out = vec![];
        for msg in msgs {
            match msg {
                WebRTCInput::Text(s) => {
                    self.queue.push(s);
                    self.flush();
                }
                WebRTCInput::Setup(pm) => out.extend(self.setup(pm)),
                WebRTCInput::Flush => self.flush(),
                WebRTCInput::UpdateState => out.push(WebRTCOutput::State(self.state())),
                WebRTCInput::Reset | WebRTCInput::Disconnect => {
                    if end(self.id, |e| e.outgoing.is_some()) {
                        self.reset();
                    }
                }
            }
        }
        out
    }
}

// ---------------------------------------------------------------- HTTP

#[derive(Clone, Debug, Default)]
pub struct HttpAnswer {
    /// Until the header arrives
    pub delay_ms: u64,
    /// The request fails
    pub fail: bool,
    pub status: u16,
    pub headers: Vec<(String, Vec<u8>)>,
    /// Pieces of the body with the delay before each; None is a broken connection.
    pub chunks: Vec<(u64, Option<Vec<u8>>)>,
}

pub fn fetch(url: String) -> Pin<Box<dyn Future<Output = flmodules::sim::FetchResult> + Send>> {
    let ans = {
        let s = sim();
        s.net.http_seen.borrow_mut().push((s.cur.get(), url.clone()));
        let h = s.net.http.borrow().clone();
        h.map(|h| h(&url)).unwrap_or(HttpAnswer {
            fail: true,
            ..Default::default()
        })
    };
    Box::pin(async move {
        sleep_ms(ans.delay_ms).await;
        if ans.fail {
            return Err(reqwest::Client::builder()
                .user_agent("a\nb")
                .build()
                .expect_err("no such agent"));
        }
        let mut b = http::Response::builder().status(ans.status);
        for (k, v) in &ans.headers {
            b = b.header(k.as_str(), v.as_slice());
        }
        let chunks: VecDeque<_> = ans.chunks.into();
        let stream = futures::stream::unfold(chunks, |mut c| async move {
            let (ms, d) = c.pop_front()?;
            if ms > 0 {
                sleep_ms(ms).await;
            }
            Some(match d {
                Some(d) => (Ok::<_, io::Error>(bytes::Bytes::from(d)), c),
                None => (Err(io::ErrorKind::ConnectionReset.into()), VecDeque::new()),
            })
        });
        Ok(b.body(reqwest::Body::wrap_stream(stream))
            .expect("http answer")
            .into())
    })
}
