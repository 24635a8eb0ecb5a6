//! C14: the network layer of several nodes, with simulated data channels, and either the real
//! signalling server behind simulated TCP, or signalling made by the harness.
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

use flarch::broker::Broker;
use flarch::nodeids::NodeID;
use flarch::web_rtc::web_socket_client::WebSocketClient;
use flarch::web_rtc::web_socket_server::WebSocketServer;
use flarch::web_rtc::websocket::{BrokerWSClient, WSClientIn, WSClientOut};
use flarch::web_rtc::WebRTCConn;
use flmodules::network::broker::{Network, NetworkIn, NetworkOut};
use flmodules::network::signal::{
    SignalConfig, SignalServer, WSSignalMessageFromNode, WSSignalMessageToNode, SIGNAL_VERSION,
};
use flmodules::nodeconfig::{NodeConfig, NodeInfo};
use flmodules::router::messages::{NetworkWrapper, RouterOut};
use flmodules::router::broker::RouterNetwork;
use flmodules::timer::Timer;
use flarch::nodeids::U256;
use serde::{Deserialize, Serialize};

use super::nodeconn::text;
use super::util::{go, Bad};
use crate::case::{viol, Case, Prop, Res, Viol};
use crate::check;
use crate::net::rtc_spawner;
use crate::rng::Rng;
use crate::sim::{as_node, on_node, quiesce, sim, sleep_ms, within};

const SRV: u32 = 20;
const PORT: u16 = 8765;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cfg {
    nodes: u32,
    lat_ms: u64,
    /// Permille of signalling messages lost
    drop: u32,
    rtc_fail: u32,
    dead_ms: u64,
    rush: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Connect { a: u32, b: u32 },
    Send { a: u32, b: u32, kind: u32, len: u32 },
    Disconnect { a: u32, b: u32 },
    List { a: u32 },
    Break { a: u32, b: u32 },
    Cut { a: u32, b: u32 },
    Heal,
    Signal { a: u32, down: bool },
    Crash { a: u32 },
    Restart { a: u32 },
    Stall { a: u32, ms: u64 },
    Quiet,
    Wait { ms: u64 },
}

fn gen_ops(r: &mut Rng, faults: u32, far: u64) -> Vec<Op> {
    (0..3 + r.us(30))
        .map(|_| {
            let (a, b) = (r.below(4) as u32, r.below(4) as u32);
            match r.weighted(&[6, 10, 2 * faults, 1, 3 * faults, faults, 2 * faults, 2 * faults, 2 * faults, 2 * faults, 1, 2, 8]) {
                0 => Op::Connect { a, b },
                1 => Op::Send {
                    a,
                    b,
                    kind: r.below(12) as u32,
                    len: match r.weighted(&[8, 2, 1]) {
                        0 => r.below(50),
                        1 => r.below(5_000),
                        _ => r.below(60_000),
                    } as u32,
                },
                2 => Op::Disconnect { a, b },
                3 => Op::List { a },
                4 => Op::Break { a, b },
                5 => Op::Cut { a, b },
                6 => Op::Heal,
                7 => Op::Signal { a, down: r.chance(500) },
                8 => Op::Crash { a },
                9 => Op::Restart { a },
                10 => Op::Stall { a, ms: *r.pick(&[50, 2_000]) },
                11 => Op::Quiet,
                _ => Op::Wait {
                    ms: match r.below(4) {
                        0 => 0,
                        1 => r.below(4 * far + 10),
                        2 => r.below(12 * far + 10),
                        _ => *r.pick(&[300, 3_000, 9_000]),
                    },
                },
            }
        })
        .collect()
}

fn gen_cfg(r: &mut Rng, faults: bool) -> Cfg {
    let f = faults as u32;
    Cfg {
        nodes: 2 + r.below(3) as u32,
        lat_ms: *r.pick(&[0, 5, 50, 250]),
        drop: f * *r.pick(&[0, 0, 100, 400]),
        rtc_fail: f * *r.pick(&[0, 0, 200, 500]),
        dead_ms: *r.pick(&[500, 3_000, 8_000]),
        rush: *r.pick(&[0, 500, 1000]),
    }
}

fn gen_perfect(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let c = gen_cfg(r, false);
    let o = gen_ops(r, 0, c.lat_ms);
    (c, o)
}
fn gen_faults(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let c = gen_cfg(r, true);
    let o = gen_ops(r, 1, c.lat_ms);
    (c, o)
}

#[derive(Default)]
struct Server {
    /// By node: the broker of its client
    clients: BTreeMap<usize, BrokerWSClient>,
    infos: BTreeMap<usize, NodeInfo>,
    down: BTreeSet<usize>,
    /// Time of the last message on its way
    last: BTreeMap<(usize, bool), u64>,
    lossy: bool,
}

#[derive(Clone)]
struct Sent {
    from: usize,
    to: usize,
    text: String,
    got: bool,
}

#[derive(Default)]
struct Shared {
    ids: Vec<NodeID>,
    sent: Vec<Sent>,
    /// What node and incarnation is told
    connected: BTreeMap<(usize, u32), BTreeSet<usize>>,
    router: BTreeMap<(usize, u32), BTreeSet<usize>>,
    inc: Vec<u32>,
}

struct Live {
    net: Network,
    config: NodeConfig,
    _timer: Timer,
}

struct World {
    cfg: Cfg,
    full: bool,
    keys: Vec<NodeConfig>,
    live: Vec<Option<Live>>,
    sh: Arc<Mutex<Shared>>,
    srv: Arc<Mutex<Server>>,
    server_up: bool,
    bad: Bad,
    r: Rng,
}

fn node_of(i: usize) -> u32 {
    i as u32 + 1
}

/// A message on its way from or to the signalling server
fn post(srv: &Arc<Mutex<Server>>, cfg: &Cfg, i: usize, up: bool, m: String) {
    let s = sim();
    let at = {
        let mut l = srv.lock().unwrap();
        if l.down.contains(&i) {
            s.did("signal-lost");
            return;
        }
        if l.lossy && s.fault("signal-lost", cfg.drop) {
            return;
        }
        let at = s.now_ns() + s.net_below(cfg.lat_ms * 1_000_000 + 1);
        let e = l.last.entry((i, up)).or_default();
        *e = at.max(*e + 1);
        *e
    };
    let (srv, cfg) = (srv.clone(), cfg.clone());
    go(0, async move {
        let now = sim().now_ns();
        tokio::time::sleep(std::time::Duration::from_nanos(at.saturating_sub(now))).await;
        if up {
            arrived(&srv, &cfg, i, m);
            return;
        }
        let (down, c) = {
            let l = srv.lock().unwrap();
            (l.down.contains(&i), l.clients.get(&i).cloned())
        };
        if let (false, Some(mut c)) = (down, c) {
            as_node(node_of(i), || {
                let _ = c.emit_msg_out(WSClientOut::Message(m));
            });
        }
    });
}

fn arrived(srv: &Arc<Mutex<Server>>, cfg: &Cfg, i: usize, m: String) {
    let Ok(m) = serde_json::from_str::<WSSignalMessageFromNode>(&m) else {
        return;
    };
    let mut out = vec![];
    {
        let mut l = srv.lock().unwrap();
        match m {
            WSSignalMessageFromNode::Announce(a) => {
                l.infos.insert(i, a.node_info);
            }
            WSSignalMessageFromNode::ListIDsRequest => {
                let infos = l.infos.values().cloned().collect();
                out.push((i, WSSignalMessageToNode::ListIDsReply(infos)));
            }
            WSSignalMessageFromNode::PeerSetup(p) => {
                let find = |id: &NodeID| l.infos.iter().find(|(_, n)| n.get_id() == *id).map(|(i, _)| *i);
                let (a, b) = (find(&p.id_init), find(&p.id_follow));
                let to = if a == Some(i) { b } else { a };
                if let Some(to) = to {
                    out.push((to, WSSignalMessageToNode::PeerSetup(p)));
                }
            }
            WSSignalMessageFromNode::NodeStats(_) => {}
        }
    }
    for (to, m) in out {
        post(srv, cfg, to, false, serde_json::to_string(&m).unwrap());
    }
}

impl World {
    async fn new(cfg: Cfg, seed: u64, full: bool, faults: bool) -> Result<Self, Viol> {
        let s = sim();
        s.net.cfg.lat_var_us.set(cfg.lat_ms * 1000);
        s.net.cfg.rtc_dead_ms.set(cfg.dead_ms);
        s.net.cfg.rtc_fail.set(cfg.rtc_fail);
        let n = cfg.nodes as usize;
        let keys: Vec<_> = (0..n).map(|i| as_node(node_of(i), NodeConfig::new)).collect();
        let mut w = World {
            full,
            live: (0..n).map(|_| None).collect(),
            sh: Default::default(),
            srv: Default::default(),
            server_up: false,
            bad: Bad::new(),
            r: Rng::stream(seed, "texts"),
            keys,
            cfg,
        };
        {
            let mut l = w.sh.lock().unwrap();
            l.ids = w.keys.iter().map(|k| k.info.get_id()).collect();
            l.inc = vec![0; n];
        }
        w.srv.lock().unwrap().lossy = faults;
        if full {
            w.start_server().await?;
        }
        for i in 0..n {
            w.start(i).await?;
        }
        sleep_ms(10 * w.cfg.lat_ms + 3_000).await;
        quiesce().await;
        Ok(w)
    }

    async fn start_server(&mut self) -> Res {
        let r = within(
            20_000,
            on_node(SRV, async {
                let wss = WebSocketServer::new(PORT).await?;
                SignalServer::start(
                    wss,
                    SignalConfig {
                        ttl_minutes: 2,
                        system_realm: None,
                        max_list_len: None,
                    },
                )
                .await
            }),
        )
        .await;
        check!(matches!(r, Some(Some(Ok(_)))), "the signalling server does not start", "");
        self.server_up = true;
        Ok(())
    }

    fn hello(&self, i: usize) {
        let m = WSSignalMessageToNode::Challenge(SIGNAL_VERSION, as_node(SRV, U256::rnd));
        post(&self.srv, &self.cfg, i, false, serde_json::to_string(&m).unwrap());
    }

    async fn start(&mut self, i: usize) -> Res {
        let node = node_of(i);
        let config = self.keys[i].clone();
        let full = self.full;
        let c2 = config.clone();
        let r = within(
            30_000,
            on_node(node, async move {
                let ws: BrokerWSClient = if full {
                    WebSocketClient::connect(&format!("ws://localhost:{PORT}")).await?
                } else {
                    Broker::new()
                };
                let ws2 = ws.clone();
                let (tap, _) = ws2.clone().get_tap_in().await?;
                let mut timer = Timer::start().await?;
                let rtc = WebRTCConn::new(rtc_spawner()).await?;
                let mut net = Network::start(c2, ws, rtc, &mut timer).await?;
                let (out, _) = net.broker.get_tap_out().await?;
                let mut router = RouterNetwork::start(net.broker.clone()).await?;
                let (rout, _) = router.get_tap_out().await?;
                anyhow::Ok((net, timer, ws2, tap, out, rout))
            }),
        )
        .await;
        let (net, timer, ws, mut tap, mut out, mut rout) = match r {
            Some(Some(Ok(r))) => r,
            Some(Some(Err(e))) => return viol("a node does not start", format!("{e:?}")),
            _ => return viol("a node does not start", ""),
        };
        let inc = {
            let mut l = self.sh.lock().unwrap();
            l.inc[i] += 1;
            let inc = l.inc[i];
            l.connected.insert((i, inc), Default::default());
            l.router.insert((i, inc), Default::default());
            inc
        };
        if !full {
            let (srv, cfg) = (self.srv.clone(), self.cfg.clone());
            srv.lock().unwrap().clients.insert(i, ws);
            go(node, async move {
                while let Some(m) = tap.recv().await {
                    if let WSClientIn::Message(m) = m {
                        post(&srv, &cfg, i, true, m);
                    }
                }
            });
            self.hello(i);
        }
        let (sh, bad) = (self.sh.clone(), self.bad.clone());
        go(node, async move {
            while let Some(m) = out.recv().await {
                if let Err(v) = sh.lock().unwrap().net_out(i, inc, m) {
                    bad.set(&v.kind, v.msg);
                }
            }
        });
        let sh = self.sh.clone();
        go(node, async move {
            while let Some(m) = rout.recv().await {
                if let RouterOut::NodeIDsConnected(ids) = m {
                    let mut l = sh.lock().unwrap();
                    let set = ids.0.iter().filter_map(|id| l.index(id)).collect();
                    l.router.insert((i, inc), set);
                }
            }
        });
        self.live[i] = Some(Live {
            net,
            config,
            _timer: timer,
        });
        Ok(())
    }

    fn emit(&mut self, i: usize, m: NetworkIn) {
        if let Some(l) = self.live[i].as_mut() {
            as_node(node_of(i), || {
                let _ = l.net.broker.emit_msg_in(m);
            });
        }
    }

    fn send(&mut self, a: usize, b: usize, kind: u32, len: u32) -> Option<usize> {
        self.live[a].as_ref()?;
        let k = self.sh.lock().unwrap().sent.len();
        let t = format!("{}#{a}.{b}.{k}", text(&mut self.r, kind, len));
        let id = {
            let mut l = self.sh.lock().unwrap();
            l.sent.push(Sent {
                from: a,
                to: b,
                text: t.clone(),
                got: false,
            });
            l.ids[b]
        };
        sim().ev(80, k as u64);
        self.emit(
            a,
            NetworkIn::MessageToNode(
                id,
                NetworkWrapper {
                    module: "T".into(),
                    msg: t,
                },
            ),
        );
        Some(k)
    }

    /// What the nodes think of their connections, when nothing happened for a while
    fn compare(&self) -> Res {
        let s = sim();
        let mut truth: BTreeMap<usize, BTreeSet<usize>> = Default::default();
        for (_, _, n, p) in s.net.rtc_list() {
            truth.entry(n as usize - 1).or_default().insert(p as usize - 1);
        }
        let l = self.sh.lock().unwrap();
        for (i, live) in self.live.iter().enumerate() {
            let Some(live) = live else { continue };
            let key = (i, l.inc[i]);
            let mut t = truth.get(&i).cloned().unwrap_or_default();
            let mut c = l.connected.get(&key).cloned().unwrap_or_default();
            // A node can only connect half-way to itself: both ends have the same name.
            t.remove(&i);
            c.remove(&i);
            check!(
                c == t,
                "a node's connections are not those it told about",
                "node {i}: data channels to {t:?}, told {c:?}"
            );
            let w: BTreeSet<usize> =
                live.net.connections.borrow().iter().filter_map(|id| l.index(id)).collect();
            check!(
                w == t,
                "the list of connections is wrong",
                "node {i}: data channels to {t:?}, listed {w:?}"
            );
            let r = l.router.get(&key).cloned().unwrap_or_default();
            check!(
                r == t,
                "the router's list of connections is wrong",
                "node {i}: data channels to {t:?}, listed {r:?}"
            );
            if !t.is_empty() {
                s.probe("compared");
            }
        }
        Ok(())
    }

    async fn quiet(&mut self) -> Res {
        sleep_ms(2 * self.cfg.dead_ms + 40 * self.cfg.lat_ms + 12_000).await;
        quiesce().await;
        self.bad.res()?;
        self.compare()
    }

    async fn op(&mut self, op: Op) -> Res {
        let s = sim();
        let n = self.keys.len();
        let i = |x: u32| x as usize % n;
        match op {
            Op::Connect { a, b } => {
                let id = self.keys[i(b)].info.get_id();
                self.emit(i(a), NetworkIn::Connect(id));
            }
            Op::Send { a, b, kind, len } => {
                self.send(i(a), i(b), kind, len);
            }
            Op::Disconnect { a, b } => {
                let id = self.keys[i(b)].info.get_id();
                self.emit(i(a), NetworkIn::Disconnect(id));
            }
            Op::List { a } => self.emit(i(a), NetworkIn::WSUpdateListRequest),
            Op::Break { a, b } => {
                s.did("channel-breaks");
                s.net.rtc_break(node_of(i(a)), node_of(i(b)), 2 * self.cfg.dead_ms);
            }
            Op::Cut { a, b } => {
                s.did("cut");
                s.net.block(node_of(i(a)), node_of(i(b)));
            }
            Op::Heal => s.net.heal_all(),
            Op::Signal { a, down } => {
                s.did("signalling-down");
                if self.full {
                    if down && self.server_up && a == 0 {
                        s.kill(SRV);
                        self.server_up = false;
                    } else if down {
                        for (id, x, y) in s.net.tcp_list() {
                            let n = node_of(i(a));
                            if (x, y) == (n, SRV) || (x, y) == (SRV, n) {
                                s.net.tcp_reset(id);
                            }
                        }
                    } else if !self.server_up {
                        s.revive(SRV);
                        self.start_server().await?;
                    }
                } else if down {
                    self.srv.lock().unwrap().down.insert(i(a));
                } else {
                    self.srv.lock().unwrap().down.remove(&i(a));
                    self.hello(i(a));
                }
            }
            Op::Crash { a } => {
                if self.live[i(a)].take().is_some() {
                    s.did("crash");
                    s.kill(node_of(i(a)));
                    let mut l = self.srv.lock().unwrap();
                    l.down.remove(&i(a));
                    l.clients.remove(&i(a));
                    l.infos.remove(&i(a));
                }
            }
            Op::Restart { a } => {
                if self.live[i(a)].is_none() {
                    s.revive(node_of(i(a)));
                    self.start(i(a)).await?;
                }
            }
            Op::Stall { a, ms } => s.stall(node_of(i(a)), ms),
            Op::Quiet => {
                if !self.cuts() {
                    self.quiet().await?;
                    s.probe("quiet");
                }
            }
            Op::Wait { ms } => sleep_ms(ms).await,
        }
        Ok(())
    }

    fn cuts(&self) -> bool {
        let n = self.keys.len() as u32;
        (1..=n).any(|a| (1..a).any(|b| sim().net.is_blocked(a, b)))
    }

    async fn finish(&mut self, faults: bool) -> Res {
        let s = sim();
        s.calm.set(true);
        if !faults {
            sleep_ms(60 * self.cfg.lat_ms + 15_000).await;
            self.quiet().await?;
            let l = self.sh.lock().unwrap();
            for m in l.sent.iter().filter(|m| m.from != m.to) {
                check!(
                    m.got,
                    "a message is lost although nothing fails",
                    "{} -> {}: {:.40}, {} bytes",
                    m.from,
                    m.to,
                    m.text,
                    m.text.len()
                );
                s.probe("all-arrive");
            }
            return Ok(());
        }
        s.net.heal_all();
        s.net.cfg.rtc_fail.set(0);
        let down = std::mem::take(&mut self.srv.lock().unwrap().down);
        self.srv.lock().unwrap().lossy = false;
        if self.full && !self.server_up {
            s.revive(SRV);
            self.start_server().await?;
        }
        let n = self.keys.len();
        for i in 0..n {
            if self.live[i].is_none() {
                s.revive(node_of(i));
                self.start(i).await?;
            } else if !self.full && (down.contains(&i) || self.cfg.drop > 0) {
                self.hello(i);
            }
        }
        if self.full {
            sleep_ms(70_000).await;
        }
        self.quiet().await?;
        for round in 0..2 {
            let mut want = vec![];
            for a in 0..n {
                for b in 0..n {
                    if a != b && (round == 0 || self.r.chance(500)) {
                        want.extend(self.send(a, b, 0, 30));
                        if self.r.chance(300) {
                            self.quiet().await?;
                        }
                    }
                }
            }
            self.quiet().await?;
            let l = self.sh.lock().unwrap();
            for k in want {
                let m = &l.sent[k];
                check!(
                    m.got,
                    "a message does not arrive although everything works again",
                    "{} -> {}: {:.40}",
                    m.from,
                    m.to,
                    m.text
                );
                s.probe("works-again");
                for (x, y) in [(m.from, m.to), (m.to, m.from)] {
                    check!(
                        l.connected[&(x, l.inc[x])].contains(&y),
                        "a message arrives without the nodes being connected",
                        "{x} -> {y}"
                    );
                }
            }
            drop(l);
            if round == 0 {
                for a in 0..n {
                    for b in 0..a {
                        if self.r.chance(500) {
                            s.net.rtc_break(node_of(a), node_of(b), self.cfg.dead_ms);
                        }
                    }
                }
                self.quiet().await?;
            }
        }
        Ok(())
    }
}

impl Shared {
    fn index(&self, id: &NodeID) -> Option<usize> {
        self.ids.iter().position(|i| i == id)
    }

    fn net_out(&mut self, i: usize, inc: u32, m: NetworkOut) -> Res {
        let s = sim();
        match m {
            NetworkOut::Connected(id) => {
                let Some(p) = self.index(&id) else {
                    return viol("a connection to an unknown node", format!("{id}"));
                };
                s.ev(81, (i * 8 + p) as u64);
                check!(p != i, "a node is connected to itself", "node {i}");
                check!(
                    self.connected.entry((i, inc)).or_default().insert(p),
                    "connected twice without a disconnection",
                    "node {i} to {p}"
                );
            }
            NetworkOut::Disconnected(id) => {
                let Some(p) = self.index(&id) else {
                    return viol("a connection to an unknown node", format!("{id}"));
                };
                s.ev(82, (i * 8 + p) as u64);
                s.probe("disconnected");
                check!(
                    self.connected.entry((i, inc)).or_default().remove(&p),
                    "disconnected without being connected",
                    "node {i} from {p}"
                );
            }
            NetworkOut::MessageFromNode(id, nw) => {
                let Some(p) = self.index(&id) else {
                    return viol("a message from an unknown node", format!("{id}"));
                };
                s.ev(83, (i * 8 + p) as u64);
                let Some(k) = self.sent.iter().position(|m| m.text == nw.msg && nw.module == "T") else {
                    return viol("a message that nobody sent", format!("{:.60}", nw.msg));
                };
                let m = &mut self.sent[k];
                check!(
                    m.from == p && m.to == i,
                    "a message is given to another node or attributed to another one",
                    "{} -> {} arrives at {i} as from {p}",
                    m.from,
                    m.to
                );
                check!(!m.got, "a message arrives twice", "{} -> {}", m.from, m.to);
                m.got = true;
                s.probe("arrived");
                check!(
                    self.connected.entry((i, inc)).or_default().contains(&p),
                    "a message from a node that is not connected",
                    "node {i} from {p}"
                );
            }
            _ => {}
        }
        Ok(())
    }
}

async fn run(case: Rc<Case>) -> Res {
    let cfg: Cfg = case.cfg();
    let faults = case.scen.ends_with("faults");
    let full = case.scen.starts_with("server");
    let mut r = Rng::stream(case.seed, "rush");
    let mut w = World::new(cfg, case.seed, full, faults).await?;
    for op in case.ops::<Op>() {
        w.op(op).await?;
        w.bad.res()?;
        if !r.chance(w.cfg.rush) {
            quiesce().await;
        }
    }
    w.finish(faults).await
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C14",
        rule: "two to four nodes connect, disconnect and send messages of any length and with any characters to each other, at any time, while data channels break or never open, nodes are cut off, crash and restart, and signalling messages are lost or the signalling server goes away; part of the runs without failures",
        real: &["flmodules Network, RouterNetwork, Timer, SignalServer (server scenarios)", "flarch WebRTCConn, NodeConnection, Broker, WebSocketServer, WebSocketClient (server scenarios)", "tokio-tungstenite (server scenarios)"],
        stub: &["the webrtc library: simulated data channels", "TCP is simulated", "signalling without the server in part of the scenarios"],
        reach: &["arrived", "compared", "disconnected", "works-again", "all-arrive", "quiet"],
        scens: vec![
            crate::scen!("perfect", 2, gen_perfect, run),
            crate::scen!("faults", 4, gen_faults, run),
            crate::scen!("server-perfect", 1, gen_perfect, run),
            crate::scen!("server-faults", 1, gen_faults, run),
        ],
    }]
}
