//! C06, C07, C08: events spread between nodes, are bounded, and survive.
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

use flarch::broker::Broker;
use flarch::data_storage::{DataStorage, DataStorageFile, DataStorageTemp};
use flarch::nodeids::NodeID;
use flmodules::gossip_events::broker::{Gossip, GossipIn, GossipOut};
use flmodules::gossip_events::core::{Category, Event};
use flmodules::gossip_events::intern::ModuleMessage;
use flmodules::network::broker::{BrokerNetwork, NetworkIn, NetworkOut};
use flmodules::nodeconfig::{NodeConfig, NodeInfo};
use flmodules::random_connections::broker::{BrokerRandom, RandomBroker, RandomIn, RandomOut};
use flmodules::router::messages::NetworkWrapper;
use flmodules::timer::Timer;
use serde::{Deserialize, Serialize};

use super::util::{disk_faults, gen_disk, go, Bad, DiskCfg};
use crate::case::{viol, Case, Prop, Res, Viol};
use crate::check;
use crate::links::{LinkCfg, Links};
use crate::rng::Rng;
use crate::sim::{as_node, on_node, sim, sleep_ms, within, Scratch};

/// What a random-connections module does, but connected to exactly the peers of the links.
pub async fn direct_random(n: u32, mut net: BrokerNetwork) -> BrokerRandom {
    let mut rnd: BrokerRandom = as_node(n, Broker::new);
    let (mut tin, _) = on_node(n, rnd.get_tap_in()).await.unwrap().unwrap();
    let (mut tout, _) = on_node(n, net.get_tap_out()).await.unwrap().unwrap();
    let peers: Arc<Mutex<Vec<NodeID>>> = Default::default();
    let (p, mut to_net) = (peers.clone(), net.clone());
    go(n, async move {
        while let Some(m) = tin.recv().await {
            if let RandomIn::NetworkWrapperToNetwork(id, w) = m {
                if p.lock().unwrap().contains(&id) {
                    let _ = to_net.emit_msg_in(NetworkIn::MessageToNode(id, w));
                }
            }
        }
    });
    let mut to_rnd = rnd.clone();
    go(n, async move {
        while let Some(m) = tout.recv().await {
            match m {
                NetworkOut::Connected(id) => {
                    let mut p = peers.lock().unwrap();
                    p.retain(|i| *i != id);
                    p.push(id);
                    let _ = to_rnd.emit_msg_out(RandomOut::NodeIDsConnected(p.clone().into()));
                }
                NetworkOut::Disconnected(id) => {
                    let mut p = peers.lock().unwrap();
                    p.retain(|i| *i != id);
                    let _ = to_rnd.emit_msg_out(RandomOut::NodeIDsConnected(p.clone().into()));
                }
                NetworkOut::MessageFromNode(id, w) => {
                    let _ = to_rnd.emit_msg_out(RandomOut::NetworkWrapperFromNetwork(id, w));
                }
                _ => {}
            }
        }
    });
    rnd
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cfg {
    nodes: u32,
    link: LinkCfg,
    /// With the real module choosing the connections
    random: bool,
    /// How the nodes are connected otherwise
    edges: Vec<(u32, u32)>,
    disk: Option<DiskCfg>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Add { n: u32, text: u32, ago: u32 },
    Kill { n: u32 },
    Start { n: u32 },
    Break { a: u32, b: u32 },
    Block { a: u32, b: u32 },
    Unblock { a: u32, b: u32 },
    Stall { n: u32, ms: u64 },
    Clock { n: u32, ms: i64 },
    Wait { ms: u64 },
    CrashIn { n: u32, after: u32 },
    Disk { on: bool },
}

/// Connected graph over 1..=n
pub fn gen_edges(r: &mut Rng, n: u32) -> Vec<(u32, u32)> {
    let mut e = vec![];
    let kind = r.below(4);
    for i in 2..=n {
        let to = match kind {
            0 => i - 1,
            1 => 1,
            _ => 1 + r.below((i - 1) as u64) as u32,
        };
        e.push((to, i));
    }
    if kind >= 2 {
        for _ in 0..r.below(n as u64 + 1) {
            let (a, b) = (1 + r.below(n as u64) as u32, 1 + r.below(n as u64) as u32);
            if a != b {
                e.push((a.min(b), a.max(b)));
            }
        }
    }
    e
}

fn gen_ops(r: &mut Rng, nodes: u32, disk: bool, adds: u32) -> Vec<Op> {
    let node = |r: &mut Rng| 1 + r.below(nodes as u64) as u32;
    let faults = *r.pick(&[0, 1, 2]);
    let d = disk as u32;
    (0..4 + r.us(30))
        .map(|_| {
            let (n, b) = (node(r), node(r));
            match r.weighted(&[
                adds,
                2 * faults,
                3 * faults,
                2 * faults,
                2 * faults,
                2 * faults,
                faults,
                faults,
                6,
                4 * faults * d,
                3 * faults * d,
            ]) {
                0 => Op::Add {
                    n,
                    text: r.below(1000) as u32,
                    ago: *r.pick(&[0, 0, 0, 5, 1000]),
                },
                1 => Op::Kill { n },
                2 => Op::Start { n },
                3 => Op::Break { a: n, b },
                4 => Op::Block { a: n, b },
                5 => Op::Unblock { a: n, b },
                6 => Op::Stall {
                    n,
                    ms: *r.pick(&[100, 5_000, 90_000]),
                },
                7 => Op::Clock {
                    n,
                    ms: *r.pick(&[-100_000, -5, 5, 100_000]),
                },
                8 => Op::Wait {
                    ms: *r.pick(&[0, 1, 100, 2_000, 61_000]),
                },
                9 => Op::CrashIn {
                    n,
                    after: r.below(5) as u32,
                },
                _ => Op::Disk { on: r.chance(600) },
            }
        })
        .collect()
}

fn gen_spread(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let nodes = 2 + r.below(5) as u32;
    let c = Cfg {
        nodes,
        link: LinkCfg::gen(r, true),
        random: r.chance(350),
        edges: gen_edges(r, nodes),
        disk: None,
    };
    let ops = gen_ops(r, nodes, false, 8);
    (c, ops)
}

fn gen_disk_case(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let nodes = 1 + r.below(3) as u32;
    let c = Cfg {
        nodes,
        link: LinkCfg::gen(r, false),
        random: false,
        edges: gen_edges(r, nodes),
        disk: Some(gen_disk(r)),
    };
    let mut ops = gen_ops(r, nodes, true, 12);
    let at = r.us(ops.len());
    ops.insert(at, Op::Disk { on: true });
    (c, ops)
}

const TEXTS: [&str; 14] = [
    "hello", "", "~", "null", "1e3", "- a\n- b", "a: b", " x ", "\u{e9}\u{1f600}", "\"'`", "\t#x",
    "line\r\nend\n", "{[", "\u{7f}\u{0}",
];

pub const BAD: [&str; 6] = [
    "disk-write-error",
    "disk-create-error",
    "disk-other-error",
    "disk-open-error",
    "disk-read-error",
    "disk-stat-error",
];

struct GNode {
    info: NodeInfo,
    temp: Box<dyn DataStorage + Send>,
    gossip: Option<Gossip>,
}

/// What all nodes did, over all their lives
#[derive(Default)]
struct Seen {
    /// Times that each event was announced on a node
    announced: BTreeMap<(u32, NodeID), u32>,
    events: BTreeMap<NodeID, Event>,
    /// Errors of the disks before the event was added
    errors: BTreeMap<NodeID, u64>,
    /// Added and announced without an error of a disk in between
    safe: BTreeSet<(u32, NodeID)>,
}

struct World {
    cfg: Cfg,
    links: Links,
    nodes: BTreeMap<u32, GNode>,
    added: Vec<Event>,
    seen: Arc<Mutex<Seen>>,
    bad: Bad,
    dir: Option<Scratch>,
}

impl World {
    fn new(cfg: Cfg, use_disk: bool) -> Self {
        let links = Links::new(cfg.link.clone());
        if !cfg.random {
            links.set_graph(&cfg.edges);
        }
        let nodes = (1..=cfg.nodes)
            .map(|n| {
                (
                    n,
                    GNode {
                        info: as_node(n, NodeConfig::new).info,
                        temp: DataStorageTemp::new_box(),
                        gossip: None,
                    },
                )
            })
            .collect();
        World {
            cfg,
            links,
            nodes,
            added: vec![],
            seen: Default::default(),
            bad: Bad::new(),
            dir: use_disk.then(Scratch::new),
        }
    }

    fn storage(&self, n: u32) -> Box<dyn DataStorage + Send> {
        match &self.dir {
            Some(d) => as_node(n, || {
                Box::new(DataStorageFile::new(d.of(n), "".into())) as Box<dyn DataStorage + Send>
            }),
            None => self.nodes[&n].temp.clone(),
        }
    }

    async fn start(&mut self, n: u32) -> Res {
        let s = sim();
        let bad0 = s.fired_of(&BAD);
        let info = self.nodes[&n].info.clone();
        let st = self.storage(n);
        let net = self.links.attach(n, info.clone()).await;
        let random = self.cfg.random;
        let id = info.get_id();
        let seen = self.seen.clone();
        let net2 = net.clone();
        let rnd = if random {
            None
        } else {
            Some(direct_random(n, net.clone()).await)
        };
        let r = within(
            20_000,
            on_node(n, async move {
                let timer = Timer::start().await?.broker;
                let rnd = match rnd {
                    Some(r) => r,
                    None => RandomBroker::start(id, timer.clone(), net2).await?.broker,
                };
                Gossip::start(st, info, timer, rnd).await
            }),
        )
        .await;
        let Some(r) = r else {
            return viol("starting never ends", format!("node {n}"));
        };
        let mut g = match r {
            None => return Ok(()),
            Some(Ok(g)) => g,
            Some(Err(e)) => {
                check!(
                    s.fired_of(&BAD) > bad0,
                    "the gossip module does not start although the disk is fine",
                    "{e:?}"
                );
                s.probe("start-failed");
                s.kill(n);
                return Ok(());
            }
        };
        let Some(Ok((mut tap, _))) = on_node(n, g.broker.get_tap_out()).await else {
            return Ok(());
        };
        let watch = g.storage.clone();
        let inc = s.node(n).inc.get();
        let bad = self.bad.clone();
        let lacks = self.dir.as_ref().map(|d| d.of(n));
        go(n, async move {
            while let Some(GossipOut::NewEvent(ev)) = tap.recv().await {
                let s = sim();
                if !s.runs(n, inc) {
                    return;
                }
                let id = ev.get_id();
                let mut se = seen.lock().unwrap();
                let c = se.announced.entry((n, id)).or_default();
                *c += 1;
                let c = *c;
                s.ev(61, n as u64);
                let was_safe = se.safe.contains(&(n, id)) || lacks.is_none();
                if c > 1 && was_safe && ev.category == Category::TextMessage {
                    // 50 are kept, and the scenarios have less
                    bad.set(
                        "an event is announced more than once",
                        format!("node {n}: {ev:?}, {c} times"),
                    );
                }
                let is_stored = watch.borrow().event(&id).is_some();
                if !is_stored && ev.category == Category::TextMessage {
                    bad.set(
                        "an event that is not stored is announced",
                        format!("node {n}: {ev:?}"),
                    );
                }
                let e = s.fired_of(&BAD);
                if se.errors.get(&id) == Some(&e)
                    && !lacks.as_ref().is_some_and(|d| s.lacks_dir(d))
                {
                    se.safe.insert((n, id));
                }
                se.events.insert(id, ev);
            }
        });
        self.nodes.get_mut(&n).unwrap().gossip = Some(g);
        if !self.cfg.random {
            for (a, b) in self.cfg.edges.clone() {
                if a == n || b == n {
                    self.links.connect(a, b);
                }
            }
        }
        Ok(())
    }

    fn up(&self, n: u32) -> bool {
        sim().node(n).alive.get() && self.nodes[&n].gossip.is_some()
    }

    fn kill(&mut self, n: u32) {
        self.links.kill(n);
        self.nodes.get_mut(&n).unwrap().gossip = None;
    }

    /// Nodes that died by themselves
    fn reap(&mut self) {
        for n in 1..=self.cfg.nodes {
            if !sim().node(n).alive.get() && self.nodes[&n].gossip.is_some() {
                self.links.drop_all(n);
                self.nodes.get_mut(&n).unwrap().gossip = None;
            }
        }
    }

    async fn restart(&mut self, n: u32) -> Res {
        if !sim().node(n).alive.get() {
            sim().revive(n);
            sim().probe("restarted");
        }
        if self.nodes[&n].gossip.is_none() {
            self.start(n).await?;
        }
        Ok(())
    }

    fn check_event(&self, ev: &Event) -> Res {
        let ok = match ev.category {
            Category::TextMessage => self.added.contains(ev),
            Category::NodeInfo => self
                .nodes
                .values()
                .any(|g| g.info.get_id() == ev.src && g.info.encode() == ev.msg),
        };
        check!(ok, "an event appears that nobody added", "{ev:?}");
        Ok(())
    }

    fn check_events(&self) -> Res {
        self.bad.res()?;
        for ev in self.seen.lock().unwrap().events.values() {
            self.check_event(ev)?;
        }
        for (n, g) in &self.nodes {
            if let (Some(g), true) = (&g.gossip, self.up(*n)) {
                for cat in [Category::TextMessage, Category::NodeInfo] {
                    let evs = g.events(cat);
                    for e in &evs {
                        self.check_event(e)?;
                    }
                    if cat == Category::NodeInfo {
                        let srcs: BTreeSet<NodeID> = evs.iter().map(|e| e.src).collect();
                        check!(
                            srcs.len() == evs.len(),
                            "more than one description of a node is kept",
                            "node {n}: {evs:?}"
                        );
                    }
                }
            }
        }
        Ok(())
    }

    async fn op(&mut self, op: Op) -> Res {
        let s = sim();
        let w = |n: u32| 1 + (n.max(1) - 1) % self.cfg.nodes;
        match op {
            Op::Add { n, text, ago } => {
                let n = w(n);
                if !self.up(n) {
                    return Ok(());
                }
                let now = as_node(n, flarch::tasks::now);
                let t = TEXTS[text as usize % TEXTS.len()];
                let msg = if text % 3 == 0 { t.to_string() } else { format!("{t}{text}") };
                let ev = Event {
                    category: Category::TextMessage,
                    src: self.nodes[&n].info.get_id(),
                    created: now - ago as i64,
                    msg,
                };
                if !self.added.contains(&ev) {
                    self.added.push(ev.clone());
                }
                let errors = s.fired_of(&BAD);
                self.seen.lock().unwrap().errors.entry(ev.get_id()).or_insert(errors);
                let g = self.nodes.get_mut(&n).unwrap().gossip.as_mut().unwrap();
                let _ = as_node(n, || g.broker.emit_msg_in(GossipIn::AddEvent(ev)));
                s.probe("event");
            }
            Op::Kill { n } => self.kill(w(n)),
            Op::Start { n } => self.restart(w(n)).await?,
            Op::Break { a, b } => {
                let (a, b) = (w(a), w(b));
                if self.links.connected(a, b) {
                    self.links.break_conn(a, b);
                }
            }
            Op::Block { a, b } => self.links.block(w(a), w(b)),
            Op::Unblock { a, b } => {
                let (a, b) = (w(a), w(b));
                self.links.unblock(a, b);
                if !self.cfg.random && self.cfg.edges.contains(&(a.min(b), a.max(b))) {
                    self.links.connect(a, b);
                }
            }
            Op::Stall { n, ms } => s.stall(w(n), ms),
            Op::Clock { n, ms } => {
                s.did("clock-jump");
                let k = &s.node(w(n)).skew_ns;
                k.set(k.get() + ms * 1_000_000);
            }
            Op::Wait { ms } => sleep_ms(ms).await,
            Op::CrashIn { n, after } => s.node(w(n)).crash_in.set(Some(after)),
            Op::Disk { on } => {
                if let Some(d) = &self.cfg.disk {
                    disk_faults(d, on);
                }
            }
        }
        Ok(())
    }

    async fn calm(&mut self) -> Res {
        let s = sim();
        if let Some(d) = &self.cfg.disk {
            disk_faults(d, false);
        }
        for n in 1..=self.cfg.nodes {
            s.node(n).crash_in.set(None);
            s.node(n).stall_until.set(0);
        }
        s.calm.set(true);
        self.links.heal();
        self.reap();
        for n in 1..=self.cfg.nodes {
            self.restart(n).await?;
        }
        if !self.cfg.random {
            for (a, b) in self.cfg.edges.clone() {
                self.links.connect(a, b);
            }
        }
        Ok(())
    }
}

fn wrapped(w: &NetworkWrapper) -> Option<ModuleMessage> {
    if let Some(m) = w.unwrap_yaml::<ModuleMessage>("Gossip") {
        return Some(m);
    }
    // Through the random connections
    let m: flmodules::random_connections::intern::ModuleMessage = w.unwrap_yaml("Network")?;
    match m {
        flmodules::random_connections::intern::ModuleMessage::Module(w) => w.unwrap_yaml("Gossip"),
        _ => None,
    }
}

async fn run_spread(case: Rc<Case>) -> Res {
    let cfg: Cfg = case.cfg();
    let s = sim();
    let mut w = World::new(cfg, false);
    for n in 1..=w.cfg.nodes {
        w.start(n).await?;
    }
    for op in case.ops::<Op>() {
        w.op(op).await?;
        w.bad.res()?;
    }
    sleep_ms(10).await;
    w.check_events()?;
    w.calm().await?;
    // The first rounds are left out by every node.
    let rounds = 8 + w.cfg.nodes as u64;
    sleep_ms(rounds * 60_000 + if w.cfg.random { 120_000 } else { 0 }).await;
    w.check_events()?;
    // Who added an event may have died before it was stored.
    let must: BTreeSet<NodeID> = {
        let se = w.seen.lock().unwrap();
        w.added
            .iter()
            .map(|e| e.get_id())
            .filter(|id| se.announced.keys().any(|(_, i)| i == id))
            .collect()
    };
    for cat in [Category::TextMessage, Category::NodeInfo] {
        let mut first: Option<BTreeSet<NodeID>> = None;
        for (n, g) in &w.nodes {
            let g = g.gossip.as_ref().expect("running");
            let have: BTreeSet<NodeID> = g.events(cat).iter().map(|e| e.get_id()).collect();
            if cat == Category::TextMessage {
                for id in &must {
                    check!(
                        have.contains(id),
                        "an event does not reach all nodes",
                        "node {n} lacks {:?}; connections {:?}",
                        w.added.iter().find(|e| e.get_id() == *id),
                        w.links.conns()
                    );
                }
            } else {
                check!(
                    have.len() == w.cfg.nodes as usize,
                    "a description of a node does not reach all nodes",
                    "node {n} has {} of {}; connections {:?}",
                    have.len(),
                    w.cfg.nodes,
                    w.links.conns()
                );
            }
            match &first {
                None => first = Some(have),
                Some(f) => check!(
                    *f == have,
                    "nodes do not agree about the events",
                    "node {n} {cat:?}: {have:?} instead of {f:?}"
                ),
            }
        }
    }
    if !must.is_empty() {
        s.probe("converged");
    }
    // Nothing left to say
    w.links.record(true);
    sleep_ms(181_000).await;
    for (_, a, b, m) in w.links.recorded() {
        if let Some(m) = wrapped(&m) {
            s.probe("heartbeat");
            if matches!(&m, ModuleMessage::Events(_) | ModuleMessage::RequestEvents(_)) {
                return viol(
                    "events are sent although everybody knows them",
                    format!("{a} to {b}: {m:?}"),
                );
            }
        }
    }
    w.bad.res()?;
    w.links.end();
    Ok(())
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OrderCfg {
    nodes: u32,
    /// Category, source, creation, text of each event
    events: Vec<(bool, u32, i64, u32)>,
    dup: u32,
    batch: u32,
    /// Several messages at once
    rush: bool,
    restart: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum OrderOp {
    /// This event will be given to the nodes
    Event { i: usize },
}

fn gen_order(r: &mut Rng) -> (OrderCfg, Vec<OrderOp>) {
    let info = r.chance(400);
    let many = r.chance(600);
    let n = if many { 40 + r.us(90) } else { 1 + r.us(30) };
    let span = *r.pick(&[1, 3, 20, 1000, 1_000_000]);
    let srcs = *r.pick(&[1, 3, 30, 130]);
    let base = *r.pick(&[0, 1_700_000_000_000, -5, i64::MAX - 1_000_000, i64::MIN]);
    let events: Vec<_> = (0..n)
        .map(|_| {
            (
                if r.chance(100) { !info } else { info },
                r.below(srcs) as u32,
                base + r.below(span) as i64,
                r.below(4) as u32,
            )
        })
        .collect();
    let ops = (0..events.len()).map(|i| OrderOp::Event { i }).collect();
    (
        OrderCfg {
            nodes: 2 + r.below(3) as u32,
            events,
            dup: *r.pick(&[0, 100, 500]),
            batch: *r.pick(&[1, 1, 5, 60]),
            rush: r.chance(400),
            restart: r.chance(300),
        },
        ops,
    )
}

struct Solo {
    net: BrokerRandom,
    gossip: Gossip,
    store: Box<dyn DataStorage + Send>,
    info: NodeInfo,
}

async fn solo(n: u32, store: Box<dyn DataStorage + Send>, info: NodeInfo) -> Result<Solo, Viol> {
    let rnd: BrokerRandom = as_node(n, Broker::new);
    let (r2, st, i2) = (rnd.clone(), store.clone(), info.clone());
    let g = within(
        20_000,
        on_node(n, async move {
            let timer = Timer::simul().broker;
            Gossip::start(st, i2, timer, r2).await
        }),
    )
    .await;
    match g {
        Some(Some(Ok(gossip))) => Ok(Solo {
            net: rnd,
            gossip,
            store,
            info,
        }),
        e => viol("the gossip module does not start", format!("{:?}", e.is_some())),
    }
}

const MAX_TEXT: usize = 50;
const MAX_INFO: usize = 100;

async fn run_order(case: Rc<Case>) -> Res {
    let cfg: OrderCfg = case.cfg();
    let s = sim();
    let mut r = Rng::stream(case.seed, "order");
    let evs: Vec<Event> = case
        .ops::<OrderOp>()
        .into_iter()
        .map(|OrderOp::Event { i }| {
            let (info, src, created, t) = cfg.events[i % cfg.events.len()];
            Event {
                category: if info { Category::NodeInfo } else { Category::TextMessage },
                src: NodeID::from([src as u8 ^ 0x55; 32]),
                created,
                msg: format!("{} {t}", if info { "info" } else { "text" }),
            }
        })
        .collect();
    let mut ends: Vec<BTreeMap<&str, BTreeSet<NodeID>>> = vec![];
    let base_info: Vec<NodeInfo> = (1..=cfg.nodes).map(|n| as_node(n, NodeConfig::new).info).collect();
    let bad = Bad::new();
    for n in 1..=cfg.nodes {
        let info = base_info[n as usize - 1].clone();
        let mut so = solo(n, DataStorageTemp::new_box(), info).await?;
        let mut order: Vec<usize> = (0..evs.len()).collect();
        r.shuffle(&mut order);
        for i in 0..order.len() {
            if r.chance(cfg.dup) {
                let d = order[r.us(i + 1)];
                order.push(d);
            }
        }
        let (mut tap, _) = on_node(n, so.gossip.broker.get_tap_out()).await.unwrap().unwrap();
        let mut pos = 0;
        let peer = NodeID::from([9u8; 32]);
        // What is displaced never comes back, so everything is announced at most once.
        let mut known: BTreeSet<NodeID> = BTreeSet::new();
        let mut batches = 0;
        while pos < order.len() {
            let len = (1 + r.us(cfg.batch as usize)).min(order.len() - pos);
            let batch: Vec<Event> = order[pos..pos + len].iter().map(|i| evs[*i].clone()).collect();
            pos += len;
            batches += 1;
            s.ev(62, len as u64);
            if len == 1 && r.chance(300) {
                let ev = batch[0].clone();
                as_node(n, || so.gossip.broker.emit_msg_in(GossipIn::AddEvent(ev))).unwrap();
            } else {
                let m = ModuleMessage::Events(batch.clone());
                let m = NetworkWrapper::wrap_yaml("Gossip", &m).unwrap();
                as_node(n, || {
                    so.net.emit_msg_out(RandomOut::NetworkWrapperFromNetwork(peer, m))
                })
                .unwrap();
            }
            if cfg.rush && pos < order.len() && r.chance(800) {
                continue;
            }
            sleep_ms(5_000).await;
            while let Ok(GossipOut::NewEvent(e)) = tap.try_recv() {
                s.probe("announced");
                let id = e.get_id();
                if !known.insert(id) {
                    bad.set("a known event is announced again", format!("{e:?}"));
                }
                if len == 1 && batches == 1 && so.gossip.event(&id).is_none() {
                    bad.set("an event that is not kept is announced", format!("{e:?}"));
                }
            }
            batches = 0;
            bad.res()?;
            for (cat, max) in [(Category::TextMessage, MAX_TEXT), (Category::NodeInfo, MAX_INFO)] {
                let l = so.gossip.events(cat).len();
                check!(l <= max, "more events are kept than configured", "{cat:?}: {l}");
            }
            if cfg.restart && r.chance(30) {
                s.kill(n);
                s.revive(n);
                s.did("crash");
                so = solo(n, so.store.clone(), so.info.clone()).await?;
                tap = on_node(n, so.gossip.broker.get_tap_out()).await.unwrap().unwrap().0;
            }
        }
        // The newest ones are there.
        let mut end = BTreeMap::new();
        for (cat, max, name) in [
            (Category::TextMessage, MAX_TEXT, "text"),
            (Category::NodeInfo, MAX_INFO, "info"),
        ] {
            let have = so.gossip.events(cat);
            let mut want: BTreeMap<NodeID, Event> = BTreeMap::new();
            for e in evs.iter().filter(|e| e.category == cat) {
                want.insert(e.get_id(), e.clone());
            }
            for e in &have {
                if e.src == so.info.get_id() {
                    want.insert(e.get_id(), e.clone());
                } else {
                    check!(want.contains_key(&e.get_id()), "an event appears that nobody added", "{e:?}");
                }
            }
            let mut all: Vec<Event> = want.into_values().collect();
            if cat == Category::NodeInfo {
                let mut best: BTreeMap<NodeID, i64> = BTreeMap::new();
                for e in &all {
                    let b = best.entry(e.src).or_insert(e.created);
                    *b = (*b).max(e.created);
                }
                all.retain(|e| best[&e.src] == e.created);
                for e in &have {
                    check!(
                        all.contains(e),
                        "an older description of a node is kept",
                        "{e:?} instead of {}",
                        best[&e.src]
                    );
                }
                let distinct: BTreeSet<NodeID> = have.iter().map(|e| e.src).collect();
                check!(distinct.len() == have.len(), "more than one description of a node is kept", "");
                let n_src = best.len();
                check!(
                    have.len() == n_src.min(max),
                    "fewer events are kept than there is place for",
                    "{} of {n_src} nodes",
                    have.len()
                );
                let oldest = have.iter().map(|e| e.created).min();
                for (src, c) in &best {
                    check!(
                        have.iter().any(|e| e.src == *src) || Some(*c) <= oldest,
                        "a newer event makes place for an older one",
                        "{src} with {c}, the oldest kept is {oldest:?}"
                    );
                }
            } else {
                check!(
                    have.len() == all.len().min(max),
                    "fewer events are kept than there is place for",
                    "{} of {}",
                    have.len(),
                    all.len()
                );
                let oldest = have.iter().map(|e| e.created).min();
                for e in &all {
                    check!(
                        have.contains(e) || Some(e.created) <= oldest,
                        "a newer event makes place for an older one",
                        "{e:?}, the oldest kept is {oldest:?}"
                    );
                }
                if all.len() > max {
                    s.probe("displaced");
                }
            }
            // The own description of the nodes differs.
            let ids: BTreeSet<NodeID> = have
                .iter()
                .filter(|e| e.src != so.info.get_id())
                .map(|e| e.get_id())
                .collect();
            let full = have.len() >= max && cat == Category::NodeInfo;
            if !full {
                end.insert(name, ids);
            }
        }
        ends.push(end);
    }
    for e in &ends[1..] {
        for (k, v) in e {
            if let Some(f) = ends[0].get(k) {
                check!(
                    f == v,
                    "what is kept depends on the order of arrival",
                    "{k}: {:?} only in one",
                    f.symmetric_difference(v).collect::<Vec<_>>()
                );
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

async fn run_disk(case: Rc<Case>) -> Res {
    let cfg: Cfg = case.cfg();
    let s = sim();
    let mut w = World::new(cfg, true);
    for n in 1..=w.cfg.nodes {
        w.start(n).await?;
    }
    // Known since the last start
    let check_safe = |w: &World, n: u32| -> Res {
        let Some(g) = &w.nodes[&n].gossip else { return Ok(()) };
        let se = w.seen.lock().unwrap();
        for (m, id) in &se.safe {
            if *m != n || se.events[id].category != Category::TextMessage {
                continue;
            }
            check!(
                g.event(id).is_some(),
                "an announced event is lost",
                "node {n}: {:?}",
                se.events[id]
            );
            s.probe("kept");
        }
        Ok(())
    };
    for op in case.ops::<Op>() {
        let was = match &op {
            Op::Start { n } => Some(1 + (n.max(&1) - 1) % w.cfg.nodes),
            _ => None,
        };
        w.reap();
        let fresh = was.is_some_and(|n| !w.up(n));
        w.op(op).await?;
        w.reap();
        w.bad.res()?;
        if let (Some(n), true) = (was, fresh) {
            check_safe(&w, n)?;
        }
    }
    sleep_ms(10).await;
    w.reap();
    w.check_events()?;
    for n in 1..=w.cfg.nodes {
        if s.node(n).alive.get() {
            w.kill(n);
        }
    }
    w.calm().await?;
    for n in 1..=w.cfg.nodes {
        check!(w.up(n), "the gossip module does not start although the disk is fine", "node {n}");
        check_safe(&w, n)?;
    }
    sleep_ms(10).await;
    w.check_events()?;
    w.links.end();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            rule: "2 to 6 nodes, connected in a line, a star or at random, or by the random connections module, add texts while messages get lost, duplicated, delayed and reordered, connections break, nodes crash, restart, stall and have their clocks jump; afterwards everything works for 10 to 14 minutes",
            real: &["flmodules Gossip, RandomBroker, Timer, Broker"],
            stub: &["Network is replaced by simulated connections; half of the runs also replace RandomBroker", "storage in memory, which survives crashes"],
            reach: &["restarted", "converged", "event", "heartbeat"],
            scens: vec![crate::scen!("spread", 1, gen_spread, run_spread)],
        },
        Prop {
            id: "C07",
            rule: "up to 130 events of both categories, with equal and extreme times, given to 2 to 4 nodes in different orders and batches, repeated, with restarts",
            real: &["flmodules Gossip, Broker"],
            stub: &["messages are given to the module directly", "storage in memory"],
            reach: &["displaced", "announced"],
            scens: vec![crate::scen!("order", 1, gen_order, run_order)],
        },
        Prop {
            id: "C08",
            rule: "1 to 3 nodes with files on failing disks add texts and crash, also in the middle of changes of the disk",
            real: &["flmodules Gossip, Timer, Broker", "flarch DataStorageFile"],
            stub: &["Network and RandomBroker are replaced by simulated connections", "libc file calls fail and the process dies as the simulator decides"],
            reach: &["restarted", "kept", "start-failed"],
            scens: vec![crate::scen!("disk", 1, gen_disk_case, run_disk)],
        },
    ]
}
