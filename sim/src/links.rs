//! A network of simulated connections below the [BrokerNetwork] of complete or partial nodes.
//!
//! It behaves towards the modules above like flmodules' Network: it connects on demand, tells
//! about connections and disconnections, and hands out lists of the nodes which are online.
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
use std::sync::{Arc, Mutex};

use flarch::broker::Broker;
use flarch::nodeids::NodeID;
use flmodules::network::broker::{BrokerNetwork, NetworkIn, NetworkOut};
use flmodules::network::signal::FledgerConfig;
use flmodules::nodeconfig::NodeInfo;
use flmodules::router::messages::NetworkWrapper;
use serde::{Deserialize, Serialize};
use tokio::sync::Notify;

use crate::props::util::go;
use crate::rng::Rng;
use crate::sim::{as_node, sim};

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct LinkCfg {
    /// Time a message takes, in milliseconds
    pub min_ms: u64,
    pub max_ms: u64,
    /// Permille per message
    pub drop: u32,
    pub dup: u32,
    pub reorder: u32,
    pub corrupt: u32,
}

impl LinkCfg {
    pub fn gen(r: &mut Rng, lossy: bool) -> Self {
        let rate = |r: &mut Rng| {
            if !lossy || r.chance(400) {
                0
            } else {
                *r.pick(&[5, 30, 150, 400])
            }
        };
        let min_ms = *r.pick(&[0, 1, 20]);
        LinkCfg {
            min_ms,
            max_ms: min_ms + *r.pick(&[0, 1, 50, 500]),
            drop: rate(r),
            dup: rate(r),
            reorder: rate(r),
            corrupt: 0,
        }
    }
}

pub enum Ev {
    Msg(u32, u32, u64, NetworkWrapper),
    Connect(u32, u32),
    /// Tells the first one that the second one is gone
    Gone(u32, u32),
    List(u32),
    Tick,
    Config(u32, FledgerConfig),
}

struct End {
    info: NodeInfo,
    id: NodeID,
    broker: BrokerNetwork,
    inc: u32,
    pending: BTreeMap<u32, Vec<NetworkWrapper>>,
}

struct Item {
    at: u64,
    seq: u64,
    ev: Ev,
}
impl PartialEq for Item {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for Item {}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

#[derive(Default)]
struct Inner {
    cfg: LinkCfg,
    lossy: bool,
    ends: BTreeMap<u32, End>,
    /// Connections with a number, which changes when they break
    conns: BTreeMap<(u32, u32), u64>,
    blocked: BTreeSet<(u32, u32)>,
    /// Nodes that cannot reach the signalling server
    offline: BTreeSet<u32>,
    connecting: BTreeSet<(u32, u32)>,
    last: BTreeMap<(u32, u32), u64>,
    queue: BinaryHeap<Item>,
    seq: u64,
    epoch: u64,
    sent: u64,
    log: Option<Vec<(u64, u32, u32, NetworkWrapper)>>,
    system_realm: Option<flmodules::flo::realm::RealmID>,
    max_list: Option<usize>,
    /// Nodes only connect where this allows it
    graph: Option<BTreeSet<(u32, u32)>>,
    over: bool,
}

fn key(a: u32, b: u32) -> (u32, u32) {
    (a.min(b), a.max(b))
}

impl Inner {
    fn push(&mut self, at: u64, ev: Ev) {
        self.seq += 1;
        let seq = self.seq;
        self.queue.push(Item { at, seq, ev });
    }
    fn delay(&self) -> u64 {
        let s = sim();
        (self.cfg.min_ms + s.net_below(self.cfg.max_ms - self.cfg.min_ms + 1)) * 1_000_000
    }
    fn running(&self, n: u32) -> bool {
        self.ends.get(&n).is_some_and(|e| sim().runs(n, e.inc))
    }
    fn up(&self, a: u32, b: u32) -> bool {
        a != b && self.running(a) && self.running(b) && !self.blocked.contains(&key(a, b))
    }
    fn find(&self, id: &NodeID) -> Option<u32> {
        self.ends.iter().find(|(_, e)| e.id == *id).map(|(n, _)| *n)
    }
    fn emit(&mut self, n: u32, msg: NetworkOut) {
        if !self.running(n) {
            return;
        }
        sim().note(|| format!("links -> {n}: {}", short(&msg)));
        let e = self.ends.get_mut(&n).unwrap();
        as_node(n, || {
            let _ = e.broker.emit_msg_out(msg);
        });
    }
    fn send(&mut self, from: u32, to: u32, w: NetworkWrapper) {
        let Some(epoch) = self.conns.get(&key(from, to)).copied() else {
            return;
        };
        self.sent += 1;
        let s = sim();
        let lossy = self.lossy as u32;
        if let Some(l) = self.log.as_mut() {
            l.push((s.now_ns(), from, to, w.clone()));
        }
        if s.fault("msg-drop", self.cfg.drop * lossy) {
            return;
        }
        let mut n = 1;
        if s.fault("msg-dup", self.cfg.dup * lossy) {
            n = 2;
        }
        for _ in 0..n {
            let mut w = w.clone();
            if s.fault("msg-corrupt", self.cfg.corrupt * lossy) {
                corrupt(&mut w);
            }
            let mut at = s.now_ns() + self.delay();
            if s.fault("msg-reorder", self.cfg.reorder * lossy) {
                at += s.net_below(3_000) * 1_000_000;
            } else {
                let l = self.last.entry((from, to)).or_default();
                at = at.max(*l);
                *l = at;
            }
            self.push(at, Ev::Msg(from, to, epoch, w));
        }
    }
    fn connect(&mut self, a: u32, b: u32) {
        if a == b || self.conns.contains_key(&key(a, b)) || !self.connecting.insert((a, b)) {
            return;
        }
        let at = sim().now_ns() + self.delay() * 3;
        self.push(at, Ev::Connect(a, b));
    }
    fn disconnect(&mut self, a: u32, b: u32) {
        if self.conns.remove(&key(a, b)).is_some() {
            sim().ev(51, (a * 64 + b) as u64);
            for (x, y) in [(a, b), (b, a)] {
                let at = sim().now_ns() + self.delay();
                self.push(at, Ev::Gone(x, y));
            }
        }
    }
    fn list(&self) -> Vec<NodeInfo> {
        let mut l: Vec<NodeInfo> = self
            .ends
            .iter()
            .filter(|(n, _)| self.running(**n) && !self.offline.contains(n))
            .map(|(_, e)| e.info.clone())
            .collect();
        if let Some(max) = self.max_list {
            while l.len() > max {
                let i = sim().net_below(l.len() as u64) as usize;
                l.remove(i);
            }
        }
        l
    }
    fn input(&mut self, n: u32, msg: NetworkIn) {
        match msg {
            NetworkIn::MessageToNode(id, w) => {
                let Some(to) = self.find(&id) else { return };
                if self.conns.contains_key(&key(n, to)) {
                    self.send(n, to, w);
                } else if n != to {
                    let p = self.ends.get_mut(&n).unwrap().pending.entry(to).or_default();
                    if p.len() < 50 {
                        p.push(w);
                    }
                    self.connect(n, to);
                }
            }
            NetworkIn::Connect(id) => {
                if let Some(to) = self.find(&id) {
                    self.connect(n, to);
                }
            }
            NetworkIn::Disconnect(id) => {
                if let Some(to) = self.find(&id) {
                    if self.conns.contains_key(&key(n, to)) {
                        self.disconnect(n, to);
                    }
                }
            }
            NetworkIn::WSUpdateListRequest => {
                let at = sim().now_ns() + self.delay();
                self.push(at, Ev::List(n));
            }
            NetworkIn::StatsToWS(_) => {}
        }
    }
    fn handle(&mut self, ev: Ev) {
        let s = sim();
        match ev {
            Ev::Msg(from, to, epoch, w) => {
                if self.conns.get(&key(from, to)) != Some(&epoch) || !self.up(from, to) {
                    return;
                }
                s.ev(52, (from * 64 + to) as u64);
                let id = self.ends[&from].id;
                self.emit(to, NetworkOut::MessageFromNode(id, w));
            }
            Ev::Connect(a, b) => {
                self.connecting.remove(&(a, b));
                let allowed = self.graph.as_ref().is_none_or(|g| g.contains(&key(a, b)));
                if self.conns.contains_key(&key(a, b))
                    || !self.up(a, b)
                    || !allowed
                    || self.offline.contains(&a)
                    || self.offline.contains(&b)
                {
                    if let Some(e) = self.ends.get_mut(&a) {
                        e.pending.remove(&b);
                    }
                    return;
                }
                self.epoch += 1;
                self.conns.insert(key(a, b), self.epoch);
                s.ev(53, (a * 64 + b) as u64);
                for (x, y) in [(a, b), (b, a)] {
                    let id = self.ends[&y].id;
                    self.emit(x, NetworkOut::Connected(id));
                    let p = self.ends.get_mut(&x).unwrap().pending.remove(&y);
                    for w in p.unwrap_or_default() {
                        self.send(x, y, w);
                    }
                }
            }
            Ev::Gone(a, b) => {
                // A new connection in between hides the loss of the old one.
                if !self.conns.contains_key(&key(a, b)) {
                    if let Some(id) = self.ends.get(&b).map(|e| e.id) {
                        self.emit(a, NetworkOut::Disconnected(id));
                    }
                }
            }
            Ev::List(n) => {
                if !self.offline.contains(&n) {
                    let l = self.list();
                    self.emit(n, NetworkOut::NodeListFromWS(l));
                }
            }
            Ev::Config(n, c) => {
                if !self.offline.contains(&n) {
                    self.emit(n, NetworkOut::SystemConfig(c));
                }
            }
            Ev::Tick => {
                for n in self.ends.keys().copied().collect::<Vec<_>>() {
                    let at = s.now_ns() + s.net_below(1000) * 1_000_000;
                    self.push(at, Ev::List(n));
                }
                self.push(s.now_ns() + 60_000_000_000, Ev::Tick);
            }
        }
    }
}

fn short(m: &NetworkOut) -> String {
    match m {
        NetworkOut::MessageFromNode(_, w) => {
            format!("message {} {}", w.module, w.msg.replace('\n', " "))
        }
        NetworkOut::NodeListFromWS(l) => format!("list of {}", l.len()),
        m => format!("{m:?}"),
    }
    .chars()
    .take(220)
    .collect()
}

/// Changes some characters of a message.
pub fn corrupt(w: &mut NetworkWrapper) {
    let s = sim();
    let mut b: Vec<char> = w.msg.chars().collect();
    if b.is_empty() {
        return;
    }
    match s.net_below(4) {
        0 => b.truncate(s.net_below(b.len() as u64) as usize),
        1 => {
            let i = s.net_below(b.len() as u64) as usize;
            let j = s.net_below(b.len() as u64) as usize;
            b.swap(i, j);
        }
        2 => {
            let i = s.net_below(b.len() as u64) as usize;
            b[i] = *['0', 'a', ':', '\n', '[', 'é', '-', ' ']
                .get(s.net_below(8) as usize)
                .unwrap();
        }
        _ => {
            let i = s.net_below(b.len() as u64) as usize;
            let j = i + s.net_below((b.len() - i) as u64) as usize;
            b.drain(i..j);
        }
    }
    w.msg = b.into_iter().collect();
}

#[derive(Clone)]
pub struct Links {
    inner: Arc<Mutex<Inner>>,
    wake: Arc<Notify>,
}

impl Links {
    pub fn new(cfg: LinkCfg) -> Self {
        let l = Links {
            inner: Arc::new(Mutex::new(Inner {
                cfg,
                lossy: true,
                ..Default::default()
            })),
            wake: Arc::new(Notify::new()),
        };
        l.with(|i| i.push(sim().now_ns() + 60_000_000_000, Ev::Tick));
        let m = l.clone();
        go(0, async move { m.pump().await });
        l
    }
    fn with<T>(&self, f: impl FnOnce(&mut Inner) -> T) -> T {
        f(&mut self.inner.lock().unwrap())
    }
    async fn pump(self) {
        loop {
            let next = self.with(|i| {
                while !i.over && i.queue.peek().is_some_and(|t| t.at <= sim().now_ns()) {
                    let it = i.queue.pop().unwrap();
                    i.handle(it.ev);
                }
                if i.over {
                    None
                } else {
                    Some(i.queue.peek().map(|t| t.at))
                }
            });
            let Some(next) = next else { return };
            match next {
                Some(at) => {
                    let d = at.saturating_sub(sim().now_ns());
                    tokio::select! {
                        _ = tokio::time::sleep(std::time::Duration::from_nanos(d)) => {}
                        _ = self.wake.notified() => {}
                    }
                }
                None => self.wake.notified().await,
            }
        }
    }

    /// The node starts, maybe again; the returned broker is for its modules.
    pub async fn attach(&self, n: u32, info: NodeInfo) -> BrokerNetwork {
        let mut broker: BrokerNetwork = as_node(n, Broker::new);
        let (mut tap, _) = crate::sim::on_node(n, broker.get_tap_in())
            .await
            .expect("running")
            .expect("tap");
        let inc = sim().node(n).inc.get();
        let id = info.get_id();
        self.drop_all(n);
        self.with(|i| {
            i.ends.insert(
                n,
                End {
                    info,
                    id,
                    broker: broker.clone(),
                    inc,
                    pending: Default::default(),
                },
            );
            let system_realm = i.system_realm.clone();
            let at = sim().now_ns() + i.delay();
            i.push(at, Ev::Config(n, FledgerConfig { system_realm }));
            // Everybody learns about the new node.
            for m in i.ends.keys().copied().collect::<Vec<_>>() {
                let at = sim().now_ns() + i.delay() + 1_000_000;
                i.push(at, Ev::List(m));
            }
        });
        self.wake.notify_one();
        let l = self.clone();
        go(0, async move {
            while let Some(m) = tap.recv().await {
                if !sim().runs(n, inc) {
                    return;
                }
                l.with(|i| i.input(n, m));
                l.wake.notify_one();
            }
        });
        broker
    }
    /// All connections of this node break; the others notice it.
    pub fn drop_all(&self, n: u32) {
        self.with(|i| {
            let cs: Vec<_> = i
                .conns
                .keys()
                .copied()
                .filter(|(a, b)| *a == n || *b == n)
                .collect();
            for (a, b) in cs {
                i.disconnect(a, b);
            }
        });
        self.wake.notify_one();
    }
    pub fn break_conn(&self, a: u32, b: u32) {
        sim().did("conn-break");
        self.with(|i| i.disconnect(a, b));
        self.wake.notify_one();
    }
    /// The node is killed.
    pub fn kill(&self, n: u32) {
        sim().did("crash");
        sim().kill(n);
        self.drop_all(n);
    }
    pub fn block(&self, a: u32, b: u32) {
        if a == b {
            return;
        }
        sim().did("partition");
        self.with(|i| {
            i.blocked.insert(key(a, b));
            i.disconnect(a, b);
        });
        self.wake.notify_one();
    }
    pub fn unblock(&self, a: u32, b: u32) {
        self.with(|i| i.blocked.remove(&key(a, b)));
    }
    pub fn offline(&self, n: u32, off: bool) {
        if off {
            sim().did("signal-offline");
        }
        self.with(|i| {
            if off {
                i.offline.insert(n);
            } else {
                i.offline.remove(&n);
                let at = sim().now_ns() + i.delay();
                for m in i.ends.keys().copied().collect::<Vec<_>>() {
                    i.push(at, Ev::List(m));
                }
            }
        });
        self.wake.notify_one();
    }
    /// No losses, no partitions
    pub fn heal(&self) {
        self.with(|i| {
            i.blocked.clear();
            i.offline.clear();
            i.lossy = false;
            let at = sim().now_ns() + i.delay();
            for m in i.ends.keys().copied().collect::<Vec<_>>() {
                i.push(at, Ev::List(m));
            }
        });
        self.wake.notify_one();
    }
    pub fn lossy(&self, on: bool) {
        self.with(|i| i.lossy = on);
    }
    pub fn set_graph(&self, edges: &[(u32, u32)]) {
        self.with(|i| i.graph = Some(edges.iter().map(|(a, b)| key(*a, *b)).collect()));
    }
    pub fn set_realm(&self, r: Option<flmodules::flo::realm::RealmID>) {
        self.with(|i| i.system_realm = r);
    }
    pub fn set_max_list(&self, n: Option<usize>) {
        self.with(|i| i.max_list = n);
    }
    pub fn connect(&self, a: u32, b: u32) {
        self.with(|i| i.connect(a, b));
        self.wake.notify_one();
    }
    pub fn connected(&self, a: u32, b: u32) -> bool {
        self.with(|i| i.conns.contains_key(&key(a, b)))
    }
    pub fn conns(&self) -> Vec<(u32, u32)> {
        self.with(|i| i.conns.keys().copied().collect())
    }
    pub fn peers(&self, n: u32) -> BTreeSet<u32> {
        self.conns()
            .into_iter()
            .filter_map(|(a, b)| {
                if a == n {
                    Some(b)
                } else if b == n {
                    Some(a)
                } else {
                    None
                }
            })
            .collect()
    }
    /// A message appears at a node as if it came from another one.
    pub fn inject(&self, from: u32, to: u32, w: NetworkWrapper) {
        self.with(|i| {
            if let Some(id) = i.ends.get(&from).map(|e| e.id) {
                i.emit(to, NetworkOut::MessageFromNode(id, w));
            }
        });
    }
    pub fn inject_out(&self, to: u32, m: NetworkOut) {
        self.with(|i| i.emit(to, m));
    }
    pub fn record(&self, on: bool) {
        self.with(|i| i.log = on.then(Vec::new));
    }
    pub fn recorded(&self) -> Vec<(u64, u32, u32, NetworkWrapper)> {
        self.with(|i| i.log.clone().unwrap_or_default())
    }
    pub fn sent(&self) -> u64 {
        self.with(|i| i.sent)
    }
    /// Ends the task and lets go of the brokers.
    pub fn end(&self) {
        self.with(|i| {
            i.over = true;
            i.ends.clear();
        });
        self.wake.notify_one();
    }
}
