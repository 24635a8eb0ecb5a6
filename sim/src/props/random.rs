//! C15: the random overlay.
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

use flarch::nodeids::NodeID;
use flmodules::network::broker::{BrokerNetwork, NetworkIn, NetworkOut};
use flmodules::nodeconfig::{NodeConfig, NodeInfo};
use flmodules::random_connections::broker::{BrokerRandom, RandomBroker, RandomIn, RandomOut};
use flmodules::random_connections::core::RandomStats;
use flmodules::random_connections::intern::ModuleMessage;
use flmodules::router::messages::NetworkWrapper;
use flmodules::timer::Timer;
use serde::{Deserialize, Serialize};
use tokio::sync::watch;

use super::util::{go, Bad};
use crate::case::{viol, Case, Prop, Res};
use crate::check;
use crate::links::{LinkCfg, Links};
use crate::rng::Rng;
use crate::sim::{as_node, on_node, sim, sleep_ms, within};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cfg {
    nodes: u32,
    link: LinkCfg,
    max_list: Option<usize>,
    /// The modules use other connections too
    direct: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Start { n: u32, rename: bool },
    Kill { n: u32 },
    Send { a: u32, b: u32 },
    /// A message for a node which never existed
    SendNobody { a: u32 },
    Fail { n: u32, b: u32 },
    Drop { a: u32, b: u32 },
    Break { a: u32, b: u32 },
    Block { a: u32, b: u32 },
    Unblock { a: u32, b: u32 },
    Offline { n: u32, off: bool },
    Phantoms { n: u32, c: u32 },
    Direct { a: u32, b: u32 },
    List { n: u32 },
    Stall { n: u32, ms: u64 },
    Wait { ms: u64 },
}

fn gen(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let nodes = if r.chance(300) { 8 + r.below(9) } else { 2 + r.below(6) } as u32;
    let node = |r: &mut Rng| 1 + r.below(nodes as u64) as u32;
    let faults = *r.pick(&[0, 1, 1, 2]);
    let direct = r.chance(300);
    let ops = (0..4 + r.us(40))
        .map(|_| {
            let (n, b) = (node(r), node(r));
            match r.weighted(&[
                2 + 2 * faults,
                3 * faults,
                10,
                1,
                faults,
                faults,
                3 * faults,
                2 * faults,
                2 * faults,
                2 * faults,
                faults,
                if direct { 2 } else { 0 },
                1,
                faults,
                8,
            ]) {
                0 => Op::Start { n, rename: r.chance(300) },
                1 => Op::Kill { n },
                2 => Op::Send { a: n, b },
                3 => Op::SendNobody { a: n },
                4 => Op::Fail { n, b },
                5 => Op::Drop { a: n, b },
                6 => Op::Break { a: n, b },
                7 => Op::Block { a: n, b },
                8 => Op::Unblock { a: n, b },
                9 => Op::Offline { n, off: r.chance(500) },
                10 => Op::Phantoms { n, c: 1 + r.below(6) as u32 },
                11 => Op::Direct { a: n, b },
                12 => Op::List { n },
                13 => Op::Stall { n, ms: *r.pick(&[100, 5_000, 30_000]) },
                _ => Op::Wait { ms: *r.pick(&[0, 1, 100, 2_000, 12_000, 61_000]) },
            }
        })
        .collect();
    let c = Cfg {
        nodes,
        link: LinkCfg {
            min_ms: *r.pick(&[0, 1, 20]),
            max_ms: 20 + *r.pick(&[0, 30, 500]),
            ..Default::default()
        },
        max_list: if r.chance(150) { Some(1 + r.us(nodes as usize)) } else { None },
        direct,
    };
    (c, ops)
}

#[derive(Default)]
struct Log {
    /// What the modules were told last
    ids: Vec<NodeID>,
    infos: Vec<NodeInfo>,
    /// Told about by lists, or connected by itself
    told: BTreeSet<NodeID>,
    asked: BTreeSet<NodeID>,
    /// Times each message arrived
    got: BTreeMap<u64, u32>,
}

struct RNode {
    info: NodeInfo,
    net: BrokerNetwork,
    rnd: BrokerRandom,
    stats: watch::Receiver<RandomStats>,
    log: Arc<Mutex<Log>>,
}

struct World {
    cfg: Cfg,
    links: Links,
    infos: BTreeMap<u32, NodeInfo>,
    nodes: BTreeMap<u32, RNode>,
    /// Each message: from, to, while connected
    sent: Arc<Mutex<BTreeMap<u64, (NodeID, NodeID)>>>,
    bad: Bad,
    next: u64,
}

fn ids(n: &flmodules::random_connections::nodes::Nodes) -> BTreeSet<NodeID> {
    n.get_nodes().0.into_iter().collect()
}

impl World {
    fn id(&self, n: u32) -> NodeID {
        self.infos[&n].get_id()
    }
    async fn start(&mut self, n: u32, rename: bool) -> Res {
        if self.nodes.contains_key(&n) {
            return Ok(());
        }
        let s = sim();
        if !s.node(n).alive.get() {
            s.revive(n);
            s.probe("restarted");
        }
        if rename {
            self.next += 1;
            let name = format!("renamed {}", self.next);
            self.infos.get_mut(&n).unwrap().name = name;
        }
        let info = self.infos[&n].clone();
        let id = info.get_id();
        let mut net = self.links.attach(n, info.clone()).await;
        let net2 = net.clone();
        let Some(Ok((mut tout, _))) = on_node(n, net.get_tap_out()).await else {
            return Ok(());
        };
        let Some(Ok((mut tin, _))) = on_node(n, net.get_tap_in()).await else {
            return Ok(());
        };
        let r = within(
            20_000,
            on_node(n, async move {
                let timer = Timer::start().await?.broker;
                RandomBroker::start(id, timer, net2).await
            }),
        )
        .await;
        let Some(r) = r else {
            return viol("starting never ends", format!("node {n}"));
        };
        let mut rb = match r {
            None => return Ok(()),
            Some(Ok(rb)) => rb,
            Some(Err(e)) => return viol("the module does not start", format!("{e:?}")),
        };
        let Some(Ok((mut tap, _))) = on_node(n, rb.broker.get_tap_out()).await else {
            return Ok(());
        };
        let log: Arc<Mutex<Log>> = Default::default();
        let inc = s.node(n).inc.get();
        let l = log.clone();
        go(n, async move {
            while let Some(m) = tout.recv().await {
                if !sim().runs(n, inc) {
                    return;
                }
                match m {
                    NetworkOut::NodeListFromWS(list) => {
                        l.lock().unwrap().told.extend(list.iter().map(|i| i.get_id()))
                    }
                    NetworkOut::Connected(id) => {
                        l.lock().unwrap().told.insert(id);
                    }
                    _ => {}
                }
            }
        });
        let l = log.clone();
        let bad = self.bad.clone();
        go(n, async move {
            while let Some(m) = tin.recv().await {
                if !sim().runs(n, inc) {
                    return;
                }
                if let NetworkIn::Connect(to) = m {
                    if to == id {
                        bad.set("a node asks for a connection to itself", format!("node {n}"));
                    }
                    l.lock().unwrap().asked.insert(to);
                }
            }
        });
        let l = log.clone();
        let bad = self.bad.clone();
        let sent = self.sent.clone();
        go(n, async move {
            while let Some(m) = tap.recv().await {
                if !sim().runs(n, inc) {
                    return;
                }
                let mut l = l.lock().unwrap();
                match m {
                    RandomOut::NodeIDsConnected(ids) => l.ids = ids.0,
                    RandomOut::NodeInfosConnected(infos) => l.infos = infos,
                    RandomOut::NetworkWrapperFromNetwork(from, w) => {
                        sim().ev(65, n as u64);
                        let k: u64 = w.msg.parse().unwrap_or(0);
                        if w.module != "Test" || sent.lock().unwrap().get(&k) != Some(&(from, id)) {
                            bad.set(
                                "a message arrives that nobody sent",
                                format!("at node {n} from {from}: {w:?}"),
                            );
                        }
                        let c = l.got.entry(k).or_default();
                        *c += 1;
                        if *c > 1 {
                            bad.set("a message arrives more than once", format!("at node {n}: {w:?}"));
                        }
                    }
                }
            }
        });
        self.nodes.insert(
            n,
            RNode {
                info,
                net,
                rnd: rb.broker,
                stats: rb.stats,
                log,
            },
        );
        Ok(())
    }

    fn check(&self) -> Res {
        self.bad.res()?;
        for (n, r) in &self.nodes {
            let st = r.stats.borrow();
            let (c, g) = (ids(&st.connected), ids(&st.connecting));
            let id = r.info.get_id();
            check!(
                c.len() == st.connected.0.len() && g.len() == st.connecting.0.len(),
                "a node is twice in the same list",
                "node {n}: {st:?}"
            );
            check!(
                c.is_disjoint(&g),
                "a node is connected and connecting at once",
                "node {n}: {st:?}"
            );
            check!(
                !c.contains(&id) && !g.contains(&id) && !st.known.0.contains(&id),
                "a node knows itself as a peer",
                "node {n}: {st:?}"
            );
            let l = r.log.lock().unwrap();
            let set: BTreeSet<_> = l.ids.iter().collect();
            check!(
                set.len() == l.ids.len(),
                "a node is twice in the list of connected nodes",
                "node {n}: {:?}",
                l.ids
            );
        }
        Ok(())
    }

    async fn send(&mut self, a: u32, to: NodeID) -> u64 {
        self.next += 1;
        let k = self.next;
        let Some(r) = self.nodes.get_mut(&a) else { return k };
        self.sent.lock().unwrap().insert(k, (r.info.get_id(), to));
        let w = NetworkWrapper {
            module: "Test".into(),
            msg: k.to_string(),
        };
        let _ = as_node(a, || r.rnd.emit_msg_in(RandomIn::NetworkWrapperToNetwork(to, w)));
        k
    }

    async fn op(&mut self, op: Op) -> Res {
        let s = sim();
        let w = |n: u32| 1 + (n.max(1) - 1) % self.cfg.nodes;
        match op {
            Op::Start { n, rename } => self.start(w(n), rename).await?,
            Op::Kill { n } => {
                let n = w(n);
                if self.nodes.remove(&n).is_some() {
                    self.links.kill(n);
                }
            }
            Op::Send { a, b } => {
                let to = self.id(w(b));
                self.send(w(a), to).await;
            }
            Op::SendNobody { a } => {
                self.send(w(a), NodeID::rnd()).await;
            }
            Op::Fail { n, b } => {
                let (n, b) = (w(n), w(b));
                let id = self.id(b);
                if n != b {
                    if let Some(r) = self.nodes.get_mut(&n) {
                        let _ = as_node(n, || r.rnd.emit_msg_in(RandomIn::NodeFailure(id)));
                        s.probe("failure");
                    }
                }
            }
            Op::Drop { a, b } => {
                let (a, b) = (w(a), w(b));
                let to = self.id(b);
                if a != b && self.links.connected(a, b) {
                    if let Some(r) = self.nodes.get_mut(&a) {
                        let m = NetworkWrapper::wrap_yaml("Network", &ModuleMessage::DropConnection).unwrap();
                        let _ = as_node(a, || r.net.emit_msg_in(NetworkIn::MessageToNode(to, m)));
                        s.probe("drop");
                    }
                }
            }
            Op::Break { a, b } => {
                let (a, b) = (w(a), w(b));
                if self.links.connected(a, b) {
                    self.links.break_conn(a, b);
                }
            }
            Op::Block { a, b } => self.links.block(w(a), w(b)),
            Op::Unblock { a, b } => self.links.unblock(w(a), w(b)),
            Op::Offline { n, off } => self.links.offline(w(n), off),
            Op::Phantoms { n, c } => {
                let n = w(n);
                if self.nodes.contains_key(&n) {
                    let l = (0..c).map(|_| as_node(n, NodeConfig::new).info).collect();
                    s.did("list-with-unreachable-nodes");
                    self.links.inject_out(n, NetworkOut::NodeListFromWS(l));
                }
            }
            Op::Direct { a, b } => {
                let (a, b) = (w(a), w(b));
                let to = self.id(b);
                if let (true, Some(r)) = (a != b, self.nodes.get_mut(&a)) {
                    r.log.lock().unwrap().told.insert(to);
                    let _ = as_node(a, || r.net.emit_msg_in(NetworkIn::Connect(to)));
                }
            }
            Op::List { n } => {
                let n = w(n);
                if let Some(r) = self.nodes.get_mut(&n) {
                    let _ = as_node(n, || r.net.emit_msg_in(NetworkIn::WSUpdateListRequest));
                }
            }
            Op::Stall { n, ms } => s.stall(w(n), ms),
            Op::Wait { ms } => sleep_ms(ms).await,
        }
        Ok(())
    }

    /// Everything is as it should be, now that nothing changes any more.
    fn settled(&self) -> Res {
        let n_all = self.nodes.len();
        for (n, r) in &self.nodes {
            let peers: BTreeSet<NodeID> =
                self.links.peers(*n).into_iter().map(|p| self.id(p)).collect();
            let st = r.stats.borrow();
            let l = r.log.lock().unwrap();
            check!(
                ids(&st.connected) == peers,
                "the list of connections is not the real one",
                "node {n}: {:?} instead of {peers:?}",
                ids(&st.connected)
            );
            check!(
                l.ids.iter().copied().collect::<BTreeSet<_>>() == peers,
                "modules see a wrong list of connections",
                "node {n}: {:?} instead of {peers:?}",
                l.ids
            );
            let mut seen = BTreeSet::new();
            for i in &l.infos {
                check!(
                    seen.insert(i.get_id()),
                    "modules see a node twice",
                    "node {n}: {:?}",
                    l.infos
                );
                let now = self.infos.values().find(|j| j.get_id() == i.get_id());
                check!(
                    self.cfg.max_list.is_some() || now.is_some_and(|j| j.name == i.name),
                    "modules see an old description of a node",
                    "node {n}: {i:?} instead of {now:?}"
                );
            }
            check!(
                seen == peers || self.cfg.max_list.is_some(),
                "modules lack the description of a connected node",
                "node {n}: {:?}, but connected to {peers:?}",
                l.infos
            );
            let known = if self.cfg.max_list.is_some() { 1 } else { n_all - 1 };
            let need = match known {
                0 | 1 => known,
                k => ((k as f64).ln() * 2.).ceil() as usize,
            }
            .min(n_all - 1);
            check!(
                peers.len() >= need,
                "a node has too few connections",
                "node {n}: {} of {need}; {st:?}",
                peers.len()
            );
            for a in &l.asked {
                check!(
                    l.told.contains(a),
                    "a node asks for a connection to a node it does not know of",
                    "node {n}: {a}"
                );
            }
        }
        Ok(())
    }
}

async fn run(case: Rc<Case>) -> Res {
    let cfg: Cfg = case.cfg();
    let s = sim();
    let links = Links::new(cfg.link.clone());
    links.set_max_list(cfg.max_list);
    let infos = (1..=cfg.nodes).map(|n| (n, as_node(n, NodeConfig::new).info)).collect();
    let mut w = World {
        cfg,
        links,
        infos,
        nodes: Default::default(),
        sent: Default::default(),
        bad: Bad::new(),
        next: 0,
    };
    for n in 1..=w.cfg.nodes {
        w.start(n, false).await?;
    }
    for op in case.ops::<Op>() {
        w.op(op).await?;
        w.check()?;
    }
    for n in 1..=w.cfg.nodes {
        s.node(n).stall_until.set(0);
    }
    s.calm.set(true);
    w.links.heal();
    for n in 1..=w.cfg.nodes {
        // Some stay away
        if (case.seed + n as u64) % 4 != 0 || s.node(n).alive.get() {
            w.start(n, false).await?;
        }
    }
    for _ in 0..60 {
        sleep_ms(5_000).await;
        w.check()?;
    }
    sleep_ms(100_000).await;
    w.check()?;
    // The links may still move, if a connection is added
    let mut last = w.settled();
    for _ in 0..10 {
        if last.is_ok() {
            break;
        }
        sleep_ms(3_000).await;
        last = w.settled();
    }
    last?;
    s.probe("settled");
    // Messages
    let all: Vec<u32> = w.nodes.keys().copied().collect();
    let mut must = vec![];
    for a in &all {
        for b in &all {
            let to = w.id(*b);
            if a != b && w.links.connected(*a, *b) {
                let k = w.send(*a, to).await;
                must.push((*a, *b, k));
            }
        }
    }
    sleep_ms(8_000).await;
    w.check()?;
    for (a, b, k) in must {
        check!(
            w.nodes[&b].log.lock().unwrap().got.contains_key(&k),
            "a message between connected nodes does not arrive",
            "from {a} to {b}"
        );
        s.probe("message");
    }
    let conns = w.links.conns();
    for a in &all {
        for b in &all {
            if a != b && !conns.contains(&(*a.min(b), *a.max(b))) {
                let to = w.id(*b);
                let k = w.send(*a, to).await;
                sleep_ms(200).await;
                if !w.links.connected(*a, *b) {
                    check!(
                        !w.nodes[b].log.lock().unwrap().got.contains_key(&k),
                        "a message arrives although the nodes are not connected",
                        "from {a} to {b}"
                    );
                    s.probe("message to an unconnected node");
                }
                check!(
                    !w.links.connected(*a, *b) || w.links.connected(*b, *a),
                    "harness",
                    ""
                );
            }
        }
    }
    sleep_ms(70_000).await;
    w.check()?;
    w.settled()?;
    w.links.end();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C15",
        rule: "2 to 16 nodes connect over simulated links while nodes crash, come back (also with another name), lose links, get blocked, lose the signalling server, stall, report failures, ask for the end of connections, and get lists with unreachable nodes; then everything works for 7 minutes",
        real: &["flmodules RandomBroker, Timer, Broker"],
        stub: &["Network is replaced by simulated connections"],
        reach: &["restarted", "failure", "drop", "settled", "message", "message to an unconnected node"],
        scens: vec![crate::scen!("overlay", 1, gen, run)],
    }]
}
