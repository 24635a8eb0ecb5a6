//! C25: complete nodes with all their modules, and the signalling server.
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

use flarch::data_storage::{DataStorage, DataStorageFile};
use flarch::nodeids::NodeID;
use flarch::web_rtc::web_socket_client::WebSocketClient;
use flarch::web_rtc::web_socket_server::WebSocketServer;
use flarch::web_rtc::websocket::BrokerWSClient;
use flarch::web_rtc::{BrokerWebRTCConn, WebRTCConn};
use flcrypto::access::Condition;
use flcrypto::signer::SignerTrait;
use flcrypto::signer_ed25519::SignerEd25519;
use flmodules::dht_storage::broker::DHTStorage;
use flmodules::dht_storage::core::RealmConfig;
use flmodules::dht_storage::realm_view::{RealmView, RealmViewBuilder};
use flmodules::flo::realm::RealmID;
use flmodules::gossip_events::core::Category;
use flmodules::network::broker::Network;
use flmodules::network::signal::{SignalConfig, SignalServer};
use flmodules::timer::Timer;
use flnode::node::Node;
use serde::{Deserialize, Serialize};

use crate::case::{viol, Case, Prop, Res, Viol};
use crate::check;
use crate::net::{rtc_spawner, HttpAnswer};
use crate::props::util::{disk_faults, DiskCfg};
use crate::rng::Rng;
use crate::sim::{as_node, on_node, quiesce, sim, sleep_ms, within, Scratch};

pub const SRV: u32 = 20;
pub const PORT: u16 = 8765;
pub const MIN: u64 = 60_000;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Cfg {
    pub nodes: u32,
    pub lat_ms: u64,
    pub rtc_fail: u32,
    pub dead_ms: u64,
    pub ttl: u16,
    /// Connections of a crashed node or server are not closed
    pub silent: bool,
    pub partial: u32,
    /// How often accesses to the disk fail
    pub disk: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Chat { n: u32 },
    Realm { n: u32 },
    Web { n: u32 },
    Crash { n: u32 },
    /// At one of the next accesses to the disk
    CrashSoon { n: u32, k: u64 },
    Restart { n: u32 },
    Server { up: bool },
    Reset { n: u32 },
    Cut { a: u32, b: u32 },
    /// From the signalling server
    CutServer { n: u32 },
    Heal,
    Break { a: u32, b: u32 },
    Stall { n: u32, ms: u64 },
    Skew { n: u32, s: i64 },
    Wait { ms: u64 },
}

fn gen(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let nodes = 2 + r.below(4) as u32;
    let node = |r: &mut Rng| 1 + r.below(nodes as u64) as u32;
    let f = *r.pick(&[0, 1, 1, 2]);
    let ops = (0..4 + r.us(26))
        .map(|_| {
            let (n, b) = (node(r), node(r));
            match r.weighted(&[8, 2, 2, 2 * f, 2 * f, 3 * f, 3 * f, f, 2 * f, 2 * f, 2 * f, 2 * f, f, f, 9]) {
                0 => Op::Chat { n },
                1 => Op::Realm { n },
                2 => Op::Web { n },
                3 => Op::Crash { n },
                4 => Op::CrashSoon { n, k: 1 + r.below(30) },
                5 => Op::Restart { n },
                6 => Op::Server { up: r.chance(600) },
                7 => Op::Reset { n },
                8 => Op::Cut { a: n, b },
                9 => Op::CutServer { n },
                10 => Op::Heal,
                11 => Op::Break { a: n, b },
                12 => Op::Stall { n, ms: *r.pick(&[100, 5_000, 40_000]) },
                13 => Op::Skew { n, s: *r.pick(&[-100_000, -10, 10, 3_600, 100_000]) },
                _ => Op::Wait { ms: *r.pick(&[0, 10, 1_000, 7_000, 65_000, 3 * MIN]) },
            }
        })
        .collect();
    let c = Cfg {
        nodes,
        lat_ms: *r.pick(&[0, 5, 100]),
        rtc_fail: f * *r.pick(&[0, 0, 100, 250]),
        dead_ms: *r.pick(&[500, 3_000, 8_000]),
        ttl: *r.pick(&[2, 2, 5]),
        silent: f > 0 && r.chance(300),
        partial: *r.pick(&[0, 0, 100, 400]),
        disk: f * *r.pick(&[0, 0, 10, 50]),
    };
    (c, ops)
}

/// The connections of a node
#[derive(Clone)]
pub struct Conns {
    pub ws: BrokerWSClient,
    pub rtc: BrokerWebRTCConn,
}

pub struct World {
    pub cfg: Cfg,
    dir: Scratch,
    pub live: BTreeMap<u32, Node>,
    pub conns: BTreeMap<u32, Conns>,
    pub ids: BTreeMap<u32, NodeID>,
    server: bool,
    /// Chat messages which at least one node has shown
    shown: BTreeSet<String>,
    /// Messages which were written
    written: BTreeSet<String>,
    pub realms: Vec<RealmID>,
    stall_end: u64,
}

pub fn page(url: &str) -> Vec<u8> {
    format!("<html>{url}").into_bytes()
}

impl World {
    /// Sets up the network
    pub fn new(cfg: Cfg) -> Self {
        let s = sim();
        s.net.cfg.lat_var_us.set(cfg.lat_ms * 1000);
        s.net.cfg.rtc_dead_ms.set(cfg.dead_ms);
        s.net.cfg.rtc_fail.set(cfg.rtc_fail);
        s.net.cfg.silent_kill.set(cfg.silent);
        s.net.cfg.partial.set(cfg.partial);
        *s.net.http.borrow_mut() = Some(Rc::new(|url: &str| HttpAnswer {
            status: 200,
            chunks: vec![(0, Some(page(url)))],
            ..Default::default()
        }));
        World {
            dir: Scratch::new(),
            cfg,
            live: Default::default(),
            conns: Default::default(),
            ids: Default::default(),
            server: false,
            shown: Default::default(),
            written: Default::default(),
            realms: vec![],
            stall_end: 0,
        }
    }

    pub async fn start_server(&mut self) -> Res {
        if self.server {
            return Ok(());
        }
        let s = sim();
        if !s.node(SRV).alive.get() {
            s.revive(SRV);
            s.probe("server restarted");
        }
        let ttl_minutes = self.cfg.ttl;
        let r = within(
            20_000,
            on_node(SRV, async move {
                let wss = WebSocketServer::new(PORT).await?;
                let cfg = SignalConfig { ttl_minutes, system_realm: None, max_list_len: None };
                SignalServer::start(wss, cfg).await
            }),
        )
        .await;
        check!(matches!(r, Some(Some(Ok(_)))), "the signalling server does not start", "");
        self.server = true;
        Ok(())
    }

    pub async fn start(&mut self, n: u32) -> Res {
        self.dead();
        if self.live.contains_key(&n) {
            return Ok(());
        }
        let s = sim();
        if !s.node(n).alive.get() {
            s.revive(n);
            s.probe("restarted");
        }
        let dir = self.dir.of(n);
        let r = within(
            100_000,
            on_node(n, async move {
                let st: Box<dyn DataStorage + Send> =
                    Box::new(DataStorageFile::new(dir, "fl".into()));
                let config = Node::get_config(st.clone_box())?;
                let ws = WebSocketClient::connect(&format!("ws://localhost:{PORT}")).await?;
                let mut timer = Timer::start().await?;
                let rtc = WebRTCConn::new(rtc_spawner()).await?;
                let conns = Conns { ws: ws.clone(), rtc: rtc.clone() };
                let net = Network::start(config.clone(), ws, rtc, &mut timer).await?;
                let node = Node::start(st, config, net.broker, timer.broker).await?;
                anyhow::Ok((node, conns))
            }),
        )
        .await;
        match r {
            None => viol("a node does not start", format!("node {n} after 100 s")),
            // It crashed again.
            Some(None) => Ok(()),
            // The same as the node program does: it ends, and has to be started again
            Some(Some(Err(e))) => {
                if s.node(n).alive.get() {
                    let text = e.to_string();
                    s.note(|| format!("node {n} doesn't start: {text}"));
                    s.probe("did not start");
                    s.kill(n);
                }
                Ok(())
            }
            Some(Some(Ok((node, conns)))) => {
                let id = node.node_config.info.get_id();
                let old = *self.ids.entry(n).or_insert(id);
                check!(old == id, "a node has another identity after a restart", "node {n}");
                self.live.insert(n, node);
                self.conns.insert(n, conns);
                Ok(())
            }
        }
    }

    pub fn dead(&mut self) {
        self.live.retain(|n, _| sim().node(*n).alive.get());
    }

    pub fn chat(&self, n: u32) -> BTreeSet<String> {
        let Some(g) = self.live.get(&n).and_then(|l| l.gossip.as_ref()) else {
            return Default::default();
        };
        as_node(n, || g.events(Category::TextMessage)).into_iter().map(|e| e.msg).collect()
    }

    pub fn look(&mut self) -> Res {
        self.dead();
        for n in self.live.keys().copied().collect::<Vec<_>>() {
            for m in self.chat(n) {
                check!(
                    self.written.contains(&m),
                    "a chat message appears that nobody wrote",
                    "node {n}: {m:?}"
                );
                self.shown.insert(m);
            }
        }
        Ok(())
    }

    pub async fn op(&mut self, op: Op) -> Res {
        self.op_unchecked(op).await?;
        self.look()
    }

    pub async fn op_unchecked(&mut self, op: Op) -> Res {
        let s = sim();
        let w = |n: u32| 1 + (n.max(1) - 1) % self.cfg.nodes;
        match op {
            Op::Chat { n } => {
                let n = w(n);
                let Some(node) = self.live.get_mut(&n) else {
                    return Ok(());
                };
                let msg = format!("message {}", self.written.len());
                self.written.insert(msg.clone());
                let r = within(60_000, on_node(n, node.add_chat_message(msg))).await;
                check!(r.is_some(), "writing a message does not end", "node {n}");
            }
            Op::Realm { n } => {
                let n = w(n);
                let Some(ds) = self.live.get(&n).and_then(|l| l.dht_storage.clone()) else {
                    return Ok(());
                };
                // What could not be written is lost with the node
                if self.realms.len() == 3 || self.cfg.disk > 0 {
                    return Ok(());
                }
                if let Some(id) = self.new_realm(n, ds).await? {
                    quiesce().await;
                    if s.node(n).alive.get() {
                        self.realms.push(id);
                        s.probe("realm");
                    }
                }
            }
            Op::Web { n } => {
                let n = w(n);
                let Some(mut wp) = self.live.get(&n).and_then(|l| l.webproxy.clone()) else {
                    return Ok(());
                };
                let r = within(
                    100_000,
                    on_node(n, async move {
                        let mut res = wp.get("http://web/x").await.ok()?;
                        Some(res.bytes().await)
                    }),
                )
                .await;
                let Some(r) = r else {
                    return viol("a web request does not end", format!("node {n}"));
                };
                if let Some(Some(b)) = r {
                    check!(
                        page("http://web/x").starts_with(&b),
                        "a web request returns something else",
                        "node {n}: {b:?}"
                    );
                }
            }
            Op::Crash { n } => {
                let n = w(n);
                if self.live.remove(&n).is_some() {
                    s.did("crash");
                    s.kill(n);
                }
            }
            Op::CrashSoon { n, k } => {
                let n = w(n);
                if self.live.contains_key(&n) {
                    s.node(n).crash_in.set(Some(k as u32));
                }
            }
            Op::Restart { n } => self.start(w(n)).await?,
            Op::Server { up } => {
                if up {
                    self.start_server().await?;
                } else if self.server {
                    s.did("server-crash");
                    self.server = false;
                    s.kill(SRV);
                }
            }
            Op::Reset { n } => {
                for (id, a, b) in s.net.tcp_list() {
                    if (a, b) == (w(n), SRV) || (b, a) == (w(n), SRV) {
                        s.did("tcp-reset");
                        s.net.tcp_reset(id);
                    }
                }
            }
            Op::Cut { a, b } => {
                if w(a) != w(b) {
                    s.did("partition");
                    s.net.block(w(a), w(b));
                }
            }
            Op::CutServer { n } => {
                s.did("partition");
                s.net.block(w(n), SRV);
            }
            Op::Heal => s.net.heal_all(),
            Op::Break { a, b } => {
                s.did("channel-breaks");
                s.net.rtc_break(w(a), w(b), 2 * self.cfg.dead_ms);
            }
            Op::Stall { n, ms } => {
                s.stall(w(n), ms);
                self.stall_end = self.stall_end.max(s.now_ms() + ms);
            }
            Op::Skew { n, s: sec } => {
                s.did("clock-jump");
                s.node(w(n)).skew_ns.set(sec * 1_000_000_000);
            }
            Op::Wait { ms } => sleep_ms(ms).await,
        }
        Ok(())
    }

    /// A new realm can be created and read
    pub async fn realm_works(&mut self, n: u32) -> Res {
        let ds = self.live.get(&n).and_then(|l| l.dht_storage.clone()).unwrap();
        let id = self.new_realm(n, ds.clone()).await?;
        let Some(id) = id else {
            return viol("a realm cannot be created", format!("node {n}"));
        };
        quiesce().await;
        let view = within(60_000, on_node(n, RealmView::new_from_id(ds, id))).await;
        let page = match &view {
            Some(Some(Ok(v))) => v.get_page_from_path("/root").map(|p| p.get_index()).ok(),
            _ => None,
        };
        check!(page == Some("<html>root".into()), "a new realm cannot be read", "node {n}: {page:?}");
        Ok(())
    }

    async fn new_realm(&self, n: u32, ds: DHTStorage) -> Result<Option<RealmID>, Viol> {
        let signer = as_node(n, SignerEd25519::new);
        let cond = Condition::Verifier(signer.verifier());
        let sig = vec![signer];
        let build = RealmViewBuilder::new(ds, "realm".into(), cond.clone(), sig.clone())
            .config(RealmConfig { max_space: 1_000_000, max_flo_size: 100_000 })
            .root_http("root".into(), "<html>root".into(), None, cond.clone(), sig.clone())
            .root_tag("root".into(), None, cond, sig);
        let r = within(600_000, on_node(n, build.build())).await;
        if r.is_none() {
            return Err(Viol {
                kind: "creating a realm does not end".into(),
                msg: format!("node {n}"),
            });
        }
        Ok(match r {
            Some(Some(Ok(view))) => Some(view.realm.realm_id()),
            _ => None,
        })
    }

    /// Web requests succeed
    pub async fn web_works(&self, n: u32) -> Res {
        let mut wp = self.live[&n].webproxy.clone().unwrap();
        let url = format!("http://web/{n}");
        let u = url.clone();
        let r = within(
            100_000,
            on_node(n, async move {
                let mut res = wp.get(&u).await.ok()?;
                Some(res.bytes().await)
            }),
        )
        .await;
        check!(
            matches!(&r, Some(Some(Some(b))) if *b == page(&url)),
            "a web request fails although everything works again",
            "node {n}: {r:?}"
        );
        Ok(())
    }

    /// What is still missing for everything to be as it should be
    async fn missing(&mut self) -> Result<Option<(&'static str, String)>, crate::case::Viol> {
        self.dead();
        self.look()?;
        for n in 1..=self.cfg.nodes {
            let Some(node) = self.live.get(&n) else {
                return Ok(Some(("a node does not run", format!("node {n}"))));
            };
            let others: BTreeSet<NodeID> =
                self.ids.iter().filter(|i| *i.0 != n).map(|i| *i.1).collect();
            let (online, connected, infos) = as_node(n, || {
                (node.nodes_online(), node.nodes_connected(), node.nodes_info_all())
            });
            let (Ok(online), Ok(connected), Ok(infos)) = (online, connected, infos) else {
                return Ok(Some(("a node has no lists of nodes", format!("node {n}"))));
            };
            let online: BTreeSet<_> = online.iter().map(|i| i.get_id()).collect();
            if online != others {
                return Ok(Some((
                    "a node does not know which nodes are online",
                    format!("node {n}: {} instead of {}", online.len(), others.len()),
                )));
            }
            let connected: BTreeSet<_> = connected.iter().map(|i| i.get_id()).collect();
            if connected.is_empty() || !connected.is_subset(&others) {
                return Ok(Some(("a node is not connected", format!("node {n}: {connected:?}"))));
            }
            if let Some(id) = self.ids.values().find(|id| !infos.contains_key(id)) {
                return Ok(Some((
                    "a node has no description of another one",
                    format!("node {n}: {id}"),
                )));
            }
            let chat = self.chat(n);
            if let Some(m) = self.shown.iter().find(|m| !chat.contains(*m)) {
                return Ok(Some((
                    "a chat message is missing",
                    format!("node {n}: {m:?}, has {} of {}", chat.len(), self.shown.len()),
                )));
            }
            let Some(mut ds) = node.dht_storage.clone() else {
                return Ok(Some(("a node has no storage", format!("node {n}"))));
            };
            let realms = within(60_000, on_node(n, async { ds.get_realm_ids().await })).await;
            let Some(Some(Ok(realms))) = realms else {
                return Ok(Some(("a storage does not answer", format!("node {n}"))));
            };
            for r in &self.realms {
                if !realms.contains(r) {
                    return Ok(Some(("a realm is missing", format!("node {n}: {r}"))));
                }
                let open = RealmView::new_from_id(ds.clone(), r.clone());
                let view = within(60_000, on_node(n, open)).await;
                let page = match &view {
                    Some(Some(Ok(v))) => v.get_page_from_path("/root").map(|p| p.get_index()).ok(),
                    _ => None,
                };
                if page != Some("<html>root".into()) {
                    return Ok(Some(("a page of a realm is missing", format!("node {n}: {r}"))));
                }
            }
        }
        Ok(None)
    }
}

async fn run(case: Rc<Case>) -> Res {
    let cfg: Cfg = case.cfg();
    let s = sim();
    let mut w = World::new(cfg);
    w.start_server().await?;
    for n in 1..=w.cfg.nodes {
        w.start(n).await?;
    }
    sleep_ms(10_000).await;
    let d = w.cfg.disk;
    let disk = DiskCfg { write: d, create: d, open: d, read: d, stat: d, other: d, short: d };
    disk_faults(&disk, true);
    for op in case.ops::<Op>() {
        w.op(op).await?;
    }
    w.look()?;
    s.calm.set(true);
    disk_faults(&disk, false);
    if d > 0 {
        // Of these, the ones which could not be written are lost with their node
        w.shown.clear();
        w.look()?;
    }
    s.net.cfg.rtc_fail.set(0);
    s.net.heal_all();
    for n in 1..=w.cfg.nodes {
        s.node(n).crash_in.set(None);
    }
    sleep_ms(w.stall_end.saturating_sub(s.now_ms())).await;
    // Until the last broken channel is noticed
    sleep_ms(5 * w.cfg.dead_ms).await;
    w.start_server().await?;
    let mut left = 30;
    loop {
        for n in 1..=w.cfg.nodes {
            w.start(n).await?;
        }
        let Some((kind, msg)) = w.missing().await? else {
            break;
        };
        if left == 0 {
            return viol(&format!("{kind} long after the last failure"), msg);
        }
        left -= 1;
        sleep_ms(MIN).await;
    }
    s.probe("recovered");
    if !w.shown.is_empty() {
        s.probe("chat");
    }
    // And it works
    for n in 1..=w.cfg.nodes {
        w.op(Op::Chat { n }).await?;
        w.web_works(n).await?;
    }
    quiesce().await;
    w.look()?;
    sleep_ms(3 * MIN).await;
    if let Some((kind, msg)) = w.missing().await? {
        return viol(&format!("{kind} although everything works again"), msg);
    }
    check!(
        w.shown.len() >= w.cfg.nodes as usize,
        "a chat message is not shown where it was written",
        ""
    );
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        rule: "2 to 5 complete nodes and the signalling server write chat messages, create realms and make web requests, while nodes and the server crash and restart, connections break, nodes are cut off from each other and from the server, stall, and have wrong clocks; then everything is repaired, and within 30 minutes all nodes must know each other, be connected, and show all messages and realms",
        real: &["flnode Node with all its modules", "flmodules Network, SignalServer, Timer and all others", "flarch WebRTCConn, NodeConnection, WebSocketServer, WebSocketClient, DataStorageFile, Broker", "tokio-tungstenite"],
        stub: &["the webrtc library: simulated data channels", "TCP is simulated", "web server and HTTP client"],
        reach: &["recovered", "chat", "realm", "restarted", "server restarted"],
        scens: vec![crate::scen!("network", 1, gen, run)],
    }]
}
