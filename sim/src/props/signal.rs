//! C09, C10: the signalling server, with connections made up by the harness.
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

use flarch::broker::Broker;
use flarch::nodeids::{NodeID, U256};
use flarch::web_rtc::messages::{PeerInfo, PeerMessage};
use flarch::web_rtc::websocket::{BrokerWSServer, WSServerIn, WSServerOut};
use flmodules::network::signal::{
    MessageAnnounce, NodeStat, SignalConfig, SignalOut, SignalServer, WSSignalMessageFromNode,
    WSSignalMessageToNode, SIGNAL_VERSION,
};
use flmodules::nodeconfig::{NodeConfig, NodeInfo};
use serde::{Deserialize, Serialize};

use super::util::{go, Bad};
use crate::case::{viol, Case, Prop, Res, Viol};
use crate::check;
use crate::rng::Rng;
use crate::sim::{as_node, on_node, quiesce, sim, sleep_ms, within};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cfg {
    nodes: u32,
    ttl: u16,
    max_list: Option<usize>,
    /// Permille: the next operation does not wait for the answers to this one
    rush: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum How {
    Valid,
    /// Somebody else's description, own key
    WrongKey(u32),
    /// A changed signature
    Flip(u32),
    /// The challenge of another connection
    Other(u32),
    /// What another connection sent
    Replay(u32),
    Empty,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Connect { n: u32 },
    Announce { c: u32, how: How },
    List { c: u32 },
    Peer { c: u32, a: u32, b: u32 },
    Stats { c: u32 },
    Garbage { c: u32, kind: u32, x: u32 },
    Close { c: u32 },
    Alive { skip: u32 },
    Probe,
    Stall { ms: u64 },
    Wait { ms: u64 },
}

fn gen_ops(r: &mut Rng, attack: u32) -> Vec<Op> {
    let long = *r.pick(&[0, 1, 4]);
    (0..6 + r.us(50))
        .map(|_| {
            let c = r.below(8) as u32;
            match r.weighted(&[8, 12, 3, 6, 2, 3 * attack, 4, 3 + 4 * long, 6, 1, 4]) {
                0 => Op::Connect { n: r.below(8) as u32 },
                1 => Op::Announce {
                    c,
                    how: match r.weighted(&[6, attack, attack, attack, 2 * attack, attack]) {
                        0 => How::Valid,
                        1 => How::WrongKey(r.below(8) as u32),
                        2 => How::Flip(r.below(512) as u32),
                        3 => How::Other(r.below(8) as u32),
                        4 => How::Replay(r.below(8) as u32),
                        _ => How::Empty,
                    },
                },
                2 => Op::List { c },
                3 => Op::Peer {
                    c,
                    a: r.below(8) as u32,
                    b: r.below(8) as u32,
                },
                4 => Op::Stats { c },
                5 => Op::Garbage {
                    c,
                    kind: r.below(14) as u32,
                    x: r.below(1000) as u32,
                },
                6 => Op::Close { c },
                7 => Op::Alive {
                    skip: if r.chance(500) { 99 } else { r.below(8) as u32 },
                },
                8 => Op::Probe,
                9 => Op::Stall {
                    ms: *r.pick(&[100, 3_000]),
                },
                _ => Op::Wait {
                    ms: if r.chance(100 * long) {
                        *r.pick(&[58_000, 61_000, 125_000, 200_000])
                    } else {
                        *r.pick(&[0, 100, 5_000])
                    },
                },
            }
        })
        .collect()
}

fn gen_identity(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let c = Cfg {
        nodes: 2 + r.below(4) as u32,
        ttl: *r.pick(&[1, 2, 2, 5]),
        max_list: *r.pick(&[None, None, None, Some(0), Some(1), Some(2), Some(10)]),
        rush: *r.pick(&[0, 0, 300, 800]),
    };
    (c, gen_ops(r, 2))
}

fn gen_online(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let c = Cfg {
        nodes: 1 + r.below(4) as u32,
        ttl: *r.pick(&[1, 2, 2, 3, 5]),
        max_list: None,
        rush: *r.pick(&[0, 0, 300, 800]),
    };
    (c, gen_ops(r, 0))
}

struct Conn {
    node: usize,
    challenge: Option<U256>,
    /// The node that is registered, or was, by this connection
    announced: Option<NodeID>,
    open: bool,
    last: u64,
    times: Vec<u64>,
    close_told: bool,
}

#[derive(Default)]
struct Seen {
    msgs: Vec<(usize, String, u64)>,
    closes: Vec<(usize, u64)>,
    new_nodes: Vec<NodeID>,
    stats: Vec<Vec<NodeStat>>,
}

struct World {
    cfg: Cfg,
    wss: BrokerWSServer,
    keys: Vec<NodeConfig>,
    conns: Vec<Conn>,
    /// What is registered now
    reg: BTreeMap<NodeID, (usize, NodeInfo)>,
    /// And what was since the last check
    was: Vec<(NodeID, usize, String)>,
    seen: Arc<Mutex<Seen>>,
    /// Announcements that were accepted
    sent: Vec<String>,
    challenges: BTreeSet<U256>,
    peers: Vec<(usize, PeerInfo)>,
    replaced: BTreeSet<usize>,
    want_new: Vec<NodeID>,
    want_stats: Vec<Vec<NodeStat>>,
    number: u32,
    bad: Bad,
    checked: u64,
}

const SRV: u32 = 1;

impl World {
    async fn new(cfg: Cfg) -> Result<Self, Viol> {
        let mut wss: BrokerWSServer = as_node(SRV, Broker::new);
        let seen: Arc<Mutex<Seen>> = Default::default();
        let (mut tap, _) = on_node(SRV, wss.get_tap_in()).await.unwrap().unwrap();
        let conf = SignalConfig {
            ttl_minutes: cfg.ttl,
            system_realm: None,
            max_list_len: cfg.max_list,
        };
        let srv = within(
            20_000,
            on_node(SRV, SignalServer::start(wss.clone(), conf)),
        )
        .await;
        let Some(Some(Ok(mut srv))) = srv else {
            return viol("the signalling server does not start", "");
        };
        let (mut out, _) = on_node(SRV, srv.get_tap_out()).await.unwrap().unwrap();
        let (se, bad, w2) = (seen.clone(), Bad::new(), wss.clone());
        let b2 = bad.clone();
        go(0, async move {
            while let Some(m) = tap.recv().await {
                let now = sim().now_ms();
                match m {
                    WSServerIn::Message(i, t) => se.lock().unwrap().msgs.push((i, t, now)),
                    WSServerIn::Close(i) => {
                        se.lock().unwrap().closes.push((i, now));
                        let mut w3 = w2.clone();
                        let d = sim().net_below(100);
                        go(0, async move {
                            sleep_ms(d).await;
                            as_node(SRV, || {
                                let _ = w3.emit_msg_out(WSServerOut::Disconnection(i));
                            });
                        });
                    }
                    WSServerIn::Stop => b2.set("the server is stopped", "".into()),
                }
            }
        });
        let se = seen.clone();
        go(0, async move {
            while let Some(m) = out.recv().await {
                let mut se = se.lock().unwrap();
                match m {
                    SignalOut::NewNode(id) => se.new_nodes.push(id),
                    SignalOut::NodeStats(s) => se.stats.push(s),
                    _ => {}
                }
            }
        });
        let keys = (0..=cfg.nodes)
            .map(|_| as_node(SRV, NodeConfig::new))
            .collect();
        Ok(World {
            cfg,
            wss,
            keys,
            conns: vec![],
            reg: Default::default(),
            was: vec![],
            seen,
            sent: vec![],
            challenges: Default::default(),
            peers: vec![],
            replaced: Default::default(),
            want_new: vec![],
            want_stats: vec![],
            number: 0,
            bad,
            checked: 0,
        })
    }

    fn emit(&mut self, m: WSServerOut) {
        as_node(SRV, || {
            let _ = self.wss.emit_msg_out(m);
        });
    }

    fn connect(&mut self, n: u32) -> usize {
        let i = self.conns.len();
        let node = n as usize % self.keys.len();
        self.conns.push(Conn {
            node,
            challenge: None,
            announced: None,
            open: true,
            last: sim().now_ms(),
            times: vec![sim().now_ms()],
            close_told: false,
        });
        sim().ev(70, node as u64);
        self.emit(WSServerOut::NewConnection(i));
        i
    }

    fn conn(&self, c: u32) -> Option<usize> {
        if self.conns.is_empty() {
            return None;
        }
        // The last ones are the interesting ones.
        let n = self.conns.len();
        let i = n - 1 - (c as usize % n.min(8));
        self.conns[i].open.then_some(i)
    }

    fn text(&mut self, i: usize, t: String) {
        self.conns[i].last = sim().now_ms();
        self.conns[i].times.push(sim().now_ms());
        sim().ev(71, i as u64);
        self.emit(WSServerOut::Message(i, t));
    }
    fn send(&mut self, i: usize, m: &WSSignalMessageFromNode) -> String {
        let t = serde_json::to_string(m).unwrap();
        self.text(i, t.clone());
        t
    }

    fn is_reg(&self, i: usize) -> Option<NodeID> {
        self.reg.iter().find(|(_, (c, _))| *c == i).map(|(id, _)| *id)
    }

    fn announce(&mut self, i: usize, how: &How) {
        let c = &self.conns[i];
        let Some(ch) = c.challenge else { return };
        let own = self.keys[c.node].clone();
        let mut ann = MessageAnnounce {
            version: SIGNAL_VERSION,
            challenge: ch,
            node_info: own.info.clone(),
            signature: own.sign(ch.to_bytes()),
        };
        let mut valid = true;
        match how {
            How::Valid => {}
            How::WrongKey(n) => {
                let of = &self.keys[*n as usize % self.keys.len()];
                valid = of.info.get_id() == own.info.get_id();
                ann.node_info = of.info.clone();
            }
            How::Flip(b) => {
                valid = false;
                let b = *b as usize;
                ann.signature[b / 8 % 64] ^= 1 << (b % 8);
            }
            How::Other(o) => {
                let n = self.conns.len();
                let j = n - 1 - (*o as usize % n.min(8));
                let Some(other) = self.conns[j].challenge else { return };
                valid = j == i;
                ann.challenge = other;
                ann.signature = own.sign(other.to_bytes());
            }
            How::Replay(k) => {
                if self.sent.is_empty() {
                    return;
                }
                let t = self.sent[*k as usize % self.sent.len()].clone();
                // Each one was accepted already, so its challenge is used up.
                self.text(i, t);
                return;
            }
            How::Empty => {
                valid = false;
                ann.signature = vec![];
            }
        }
        let info = ann.node_info.clone();
        let t = self.send(i, &WSSignalMessageFromNode::Announce(ann));
        if valid && self.conns[i].announced.is_none() {
            sim().probe("announced");
            let id = info.get_id();
            self.sent.push(t);
            self.conns[i].announced = Some(id);
            self.want_new.push(id);
            self.was.push((id, i, info.encode()));
            if let Some((old, _)) = self.reg.insert(id, (i, info)) {
                sim().probe("replaced");
                self.replaced.insert(old);
            }
        } else if !valid {
            sim().did("wrong-announcement");
        }
    }

    fn peer(&mut self, i: usize, a: NodeID, b: NodeID) -> PeerInfo {
        self.number += 1;
        let pi = PeerInfo {
            id_init: a,
            id_follow: b,
            message: PeerMessage::Offer(format!("{}", self.number)),
        };
        self.peers.push((i, pi.clone()));
        self.send(i, &WSSignalMessageFromNode::PeerSetup(pi.clone()));
        pi
    }

    fn gone(&mut self, i: usize) {
        self.conns[i].open = false;
        if let Some(id) = self.is_reg(i) {
            self.reg.remove(&id);
        }
    }

    fn garbage(&mut self, i: usize, kind: u32, x: u32) {
        sim().did("made-up-message");
        let own = self.keys[self.conns[i].node].clone();
        let ch = self.conns[i].challenge.unwrap_or(U256::zero());
        let ann = serde_json::to_value(WSSignalMessageFromNode::Announce(MessageAnnounce {
            version: SIGNAL_VERSION,
            challenge: ch,
            node_info: own.info.clone(),
            signature: own.sign(ch.to_bytes()),
        }))
        .unwrap();
        let s = ann.to_string();
        let key = super::util::hex(&own.info.pubkey);
        let t = match kind {
            0 => String::new(),
            1 => s[..x as usize % s.len()].to_string(),
            2 => s.replace(&key, &key[..x as usize % key.len() / 2 * 2]),
            3 => s.replace(&key, &format!("{key}{key}")),
            4 => {
                let mut v = ann.clone();
                v["Announce"]["node_info"] = serde_json::json!({"NodeInfoV1": {}});
                v.to_string()
            }
            5 => "[".repeat(2000),
            6 => format!("{{\"PeerSetup\":{{\"id_init\":\"{}\",\"id_follow\":\"00\",\"message\":\"Init\"}}}}", "0".repeat(x as usize % 100)),
            7 => format!("{{\"PeerSetup\":{{\"id_init\":\"{}\",\"id_follow\":\"{}\",\"message\":\"Init\"}}}}", "\u{e9}".repeat(32), "zz".repeat(32)),
            8 => {
                let mut b = s.clone().into_bytes();
                let n = b.len();
                b[x as usize % n] = b'0' + (x % 10) as u8;
                // The key or the signature or the challenge may be another one now.
                let t = String::from_utf8_lossy(&b).to_string();
                match serde_json::from_str::<WSSignalMessageFromNode>(&t) {
                    Ok(WSSignalMessageFromNode::Announce(_)) => return,
                    _ => t,
                }
            }
            9 => "{\"NodeStats\":[{\"id\":\"\",\"version\":\"\",\"ping_ms\":-1,\"ping_rx\":99999999999}]}".into(),
            10 => s.replace(&key, &"00".repeat(32)),
            11 => s.replace(&key, &format!("01{}", "00".repeat(31))),
            12 => "\"ListIDsRequest".into(),
            _ => s.replace("Announce", "Challenge"),
        };
        self.text(i, t);
    }

    /// Waits for the answers and checks them.
    async fn settle(&mut self) -> Res {
        let s = sim();
        quiesce().await;
        sleep_ms(101).await;
        quiesce().await;
        self.bad.res()?;
        let seen = std::mem::take(&mut *self.seen.lock().unwrap());
        let ttl = self.cfg.ttl as u64 * 60_000;
        for (i, at) in seen.closes {
            check!(i < self.conns.len(), "an unknown connection is closed", "{i}");
            if self.conns[i].open {
                // What came just before may not have been looked at.
                let last = self.conns[i].times.iter().filter(|t| **t + 5_000 <= at).max();
                let idle = at.saturating_sub(last.copied().unwrap_or(at));
                s.probe("dropped");
                check!(
                    idle + 5_000 >= ttl || self.replaced.contains(&i),
                    "an active connection is dropped",
                    "connection {i} after {idle} ms of silence"
                );
                self.gone(i);
            }
        }
        let in_was = |w: &Self, i: usize| w.was.iter().any(|(_, c, _)| *c == i);
        for (i, t, _) in seen.msgs {
            let m: WSSignalMessageToNode = match serde_json::from_str(&t) {
                Ok(m) => m,
                Err(e) => return viol("the server sends an unknown message", format!("{t}: {e:?}")),
            };
            check!(i < self.conns.len(), "a message to an unknown connection", "{i}: {m:?}");
            match m {
                WSSignalMessageToNode::Challenge(v, c) => {
                    check!(v == SIGNAL_VERSION, "wrong version", "{v}");
                    check!(
                        self.challenges.insert(c),
                        "a challenge is used twice",
                        "connection {i}"
                    );
                    check!(
                        self.conns[i].challenge.is_none(),
                        "a connection gets two challenges",
                        "{i}"
                    );
                    self.conns[i].challenge = Some(c);
                }
                WSSignalMessageToNode::ListIDsReply(l) => {
                    check!(
                        in_was(self, i),
                        "a list is sent to a connection that is not registered",
                        "connection {i} of node {}",
                        self.conns[i].node
                    );
                    let mut ids = BTreeSet::new();
                    for n in &l {
                        check!(
                            self.was.iter().any(|(_, _, e)| *e == n.encode()),
                            "a list contains a node that is not registered",
                            "{n:?}"
                        );
                        check!(ids.insert(n.get_id()), "a node is listed twice", "{n:?}");
                    }
                }
                WSSignalMessageToNode::PeerSetup(pi) => {
                    let Some(k) = self.peers.iter().position(|(_, p)| *p == pi) else {
                        return viol("a connection setup is delivered more often than sent", format!("{pi:?}"));
                    };
                    let (from, _) = self.peers.remove(k);
                    let ok = self.was.iter().any(|(f, c, _)| {
                        *c == from
                            && pi.get_remote(f).is_some_and(|to| {
                                self.was.iter().any(|(t, c, _)| *c == i && *t == to)
                            })
                    });
                    check!(
                        ok,
                        "a connection setup is delivered to the wrong connection or for the wrong sender",
                        "from {from} to {i}: {pi:?}"
                    );
                    s.probe("peer-setup");
                }
                WSSignalMessageToNode::SystemConfig(_) => {
                    check!(
                        in_was(self, i),
                        "the configuration is sent to a connection that is not registered",
                        "connection {i}"
                    );
                }
                WSSignalMessageToNode::Error(e) => {
                    check!(
                        self.replaced.contains(&i),
                        "a connection is told that another one replaces it, and there is none",
                        "connection {i}: {e}"
                    );
                }
            }
        }
        let mut want = std::mem::take(&mut self.want_new);
        for n in seen.new_nodes {
            match want.iter().position(|w| *w == n) {
                Some(k) => {
                    want.remove(k);
                }
                None => return viol("a node is registered without proving that it has the key", format!("{n}")),
            }
        }
        check!(want.is_empty(), "a node that proved to have the key is not registered", "{want:?}");
        let mut want = std::mem::take(&mut self.want_stats);
        for st in seen.stats {
            match want.iter().position(|w| *w == st) {
                Some(k) => {
                    want.remove(k);
                }
                None => return viol("statistics of a connection that is not registered", format!("{st:?}")),
            }
        }
        check!(want.is_empty(), "statistics are lost", "{want:?}");
        for (i, c) in self.conns.iter().enumerate() {
            let idle = s.now_ms() - c.last;
            check!(
                !c.open || c.close_told || idle < ttl + 60_000 + 10_000,
                "a silent connection is not dropped",
                "connection {i} after {idle} ms of silence"
            );
            check!(
                !c.open || c.challenge.is_some() || idle < 3_000,
                "a connection gets no challenge",
                "{i}"
            );
        }
        self.was = self
            .reg
            .iter()
            .map(|(id, (c, i))| (*id, *c, i.encode()))
            .collect();
        self.peers.clear();
        self.replaced.clear();
        self.checked = s.now_ms();
        Ok(())
    }

    /// One registered connection asks who is there, and sends something to everybody.
    async fn probe(&mut self) -> Res {
        self.settle().await?;
        let s = sim();
        let ttl = self.cfg.ttl as u64 * 60_000;
        let c = self.connect(self.keys.len() as u32 - 1);
        self.settle().await?;
        self.announce(c, &How::Valid);
        self.settle().await?;
        let me = self.keys.last().unwrap().info.get_id();
        self.send(c, &WSSignalMessageFromNode::ListIDsRequest);
        let targets: Vec<(NodeID, usize)> = self
            .reg
            .iter()
            .filter(|(id, _)| **id != me)
            .map(|(id, (c, _))| (*id, *c))
            .collect();
        let mut sent = vec![];
        for (id, to) in &targets {
            sent.push((self.peer(c, me, *id), *to));
        }
        quiesce().await;
        let idle = |w: &Self, i: usize| s.now_ms() - w.conns[i].last;
        let msgs: Vec<(usize, WSSignalMessageToNode)> = self
            .seen
            .lock()
            .unwrap()
            .msgs
            .iter()
            .filter_map(|(i, t, _)| Some((*i, serde_json::from_str(t).ok()?)))
            .collect();
        let list = msgs.iter().find_map(|(i, m)| match m {
            WSSignalMessageToNode::ListIDsReply(l) if *i == c => Some(l.clone()),
            _ => None,
        });
        let Some(list) = list else {
            return viol("a registered node gets no list", format!("connection {c}"));
        };
        // Near the limit, either is right.
        let sure: Vec<NodeID> = self
            .reg
            .iter()
            .filter(|(_, (i, _))| idle(self, *i) + 10_000 < ttl || *i == c)
            .map(|(id, _)| *id)
            .collect();
        let listed: BTreeSet<NodeID> = list.iter().map(|n| n.get_id()).collect();
        match self.cfg.max_list {
            None => {
                for id in &sure {
                    check!(listed.contains(id), "a registered node is not listed", "{id}");
                }
                s.probe("listed");
            }
            Some(m) => check!(
                list.len() <= m && list.len() >= m.min(sure.len()),
                "the list has a wrong length",
                "{} of {} with a limit of {m}",
                list.len(),
                sure.len()
            ),
        }
        for (pi, to) in sent {
            if sure.contains(&pi.id_follow) {
                check!(
                    msgs.iter()
                        .any(|(i, m)| *i == to && *m == WSSignalMessageToNode::PeerSetup(pi.clone())),
                    "a registered node is not reachable",
                    "{} by connection {to}",
                    pi.id_follow
                );
                s.probe("reachable");
            }
        }
        self.settle().await?;
        self.emit(WSServerOut::Disconnection(c));
        self.gone(c);
        Ok(())
    }

    async fn op(&mut self, op: Op) -> Res {
        match op {
            Op::Connect { n } => {
                self.connect(n);
            }
            Op::Announce { c, how } => {
                if let Some(i) = self.conn(c) {
                    self.announce(i, &how);
                }
            }
            Op::List { c } => {
                if let Some(i) = self.conn(c) {
                    self.send(i, &WSSignalMessageFromNode::ListIDsRequest);
                }
            }
            Op::Peer { c, a, b } => {
                if let Some(i) = self.conn(c) {
                    let id = |n: u32| self.keys[n as usize % self.keys.len()].info.get_id();
                    let (a, b) = (id(a), id(b));
                    self.peer(i, a, b);
                }
            }
            Op::Stats { c } => {
                if let Some(i) = self.conn(c) {
                    self.number += 1;
                    let st = vec![NodeStat {
                        id: self.keys[0].info.get_id(),
                        version: "v".into(),
                        ping_ms: self.number,
                        ping_rx: 1,
                    }];
                    // While it is being dropped, both are right.
                    let idle = sim().now_ms() - self.conns[i].last;
                    if idle + 10_000 > self.cfg.ttl as u64 * 60_000 {
                        return Ok(());
                    }
                    if self.is_reg(i).is_some() {
                        self.want_stats.push(st.clone());
                    }
                    self.send(i, &WSSignalMessageFromNode::NodeStats(st));
                }
            }
            Op::Garbage { c, kind, x } => {
                if let Some(i) = self.conn(c) {
                    self.garbage(i, kind, x);
                }
            }
            Op::Close { c } => {
                if let Some(i) = self.conn(c) {
                    self.emit(WSServerOut::Disconnection(i));
                    self.gone(i);
                }
            }
            Op::Alive { skip } => {
                for i in 0..self.conns.len() {
                    if self.conns[i].open && self.conns[i].node != skip as usize {
                        self.text(i, "{}".into());
                    }
                }
            }
            Op::Probe => self.probe().await?,
            Op::Stall { ms } => sim().stall(SRV, ms),
            Op::Wait { ms } => {
                if ms > 3_000 {
                    self.settle().await?;
                }
                sleep_ms(ms).await
            }
        }
        Ok(())
    }
}

async fn run(case: Rc<Case>) -> Res {
    let cfg: Cfg = case.cfg();
    let mut r = Rng::stream(case.seed, "rush");
    let mut w = World::new(cfg).await?;
    for op in case.ops::<Op>() {
        w.op(op).await?;
        if !r.chance(w.cfg.rush) {
            w.settle().await?;
        }
        // Dropping goes on in the background, which makes what is right uncertain.
        if sim().now_ms() > w.checked + 20_000 {
            w.settle().await?;
        }
    }
    w.settle().await?;
    w.probe().await?;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let real: &'static [&'static str] = &["flmodules SignalServer, Timer, Broker, NodeConfig"];
    let stub: &'static [&'static str] = &["the websocket server is replaced by made-up connections"];
    vec![
        Prop {
            id: "C09",
            rule: "up to 6 nodes, some of them malicious, open connections, announce themselves correctly, with wrong keys, with changed, foreign and repeated signatures, ask for lists, send connection setups in any name and made-up messages, close, and fall silent",
            real,
            stub,
            reach: &["announced", "replaced", "listed", "peer-setup", "reachable"],
            scens: vec![crate::scen!("identity", 1, gen_identity, run)],
        },
        Prop {
            id: "C10",
            rule: "up to 5 nodes open several connections each, announce themselves, replace, close, and fall silent for up to some minutes",
            real,
            stub,
            reach: &["announced", "replaced", "listed", "dropped", "reachable"],
            scens: vec![crate::scen!("online", 1, gen_online, run)],
        },
    ]
}
