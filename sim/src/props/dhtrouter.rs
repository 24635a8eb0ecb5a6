//! C16, C17: the routing table of the DHT, and the messages it routes.
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

use flarch::broker::Broker;
use flarch::nodeids::{NodeID, U256};
use flmodules::dht_router::broker::{BrokerDHTRouter, DHTRouter, DHTRouterIn, DHTRouterOut};
use flmodules::dht_router::intern::{ModuleMessage, Stats};
use flmodules::dht_router::kademlia::Config;
use flmodules::network::broker::{BrokerNetwork, NetworkIn, NetworkOut};
use flmodules::nodeconfig::NodeInfo;
use flmodules::router::broker::RouterNetwork;
use flmodules::router::messages::NetworkWrapper;
use flmodules::timer::Timer;
use serde::{Deserialize, Serialize};
use tokio::sync::watch;

use super::util::{go, Bad};
use crate::case::{viol, Case, Prop, Res, Viol};
use crate::check;
use crate::links::{LinkCfg, Links};
use crate::rng::Rng;
use crate::sim::{as_node, on_node, quiesce, sim, sleep_ms, within};

const MIN: u64 = 60_000;

/// Number of leading bits which are the same
pub fn share(a: &U256, b: &U256) -> usize {
    let (a, b) = (a.to_bytes(), b.to_bytes());
    for i in 0..256 {
        let m = 0x80 >> (i % 8);
        if (a[i / 8] ^ b[i / 8]) & m != 0 {
            return i;
        }
    }
    256
}

/// An id which shares exactly this number of bits with the root
pub fn at_depth(root: &U256, depth: usize, rnd: &mut Rng) -> U256 {
    let mut b = root.to_bytes();
    let mut o = b;
    for x in o.iter_mut() {
        *x = rnd.below(256) as u8;
    }
    for i in 0..256 {
        let m = 0x80u8 >> (i % 8);
        let bit = match i.cmp(&depth) {
            std::cmp::Ordering::Less => b[i / 8] & m,
            std::cmp::Ordering::Equal => !b[i / 8] & m,
            std::cmp::Ordering::Greater => o[i / 8] & m,
        };
        b[i / 8] = (b[i / 8] & !m) | bit;
    }
    U256::from(b)
}

pub fn info(n: u32, id: U256) -> NodeInfo {
    as_node(n, || NodeInfo::new_from_id(id))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cfg {
    k: usize,
    interval: u32,
    factor: u32,
    /// Distances of the peers
    depths: Vec<usize>,
    delay_ms: u64,
    ids: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Connect { p: usize },
    Disconnect { p: usize },
    Alive { p: usize, on: bool },
    Listed { p: usize, on: bool },
    List,
    Talk { p: usize },
    Reply { p: usize, first: usize, count: usize, own: bool },
    Closest { p: usize, exact: bool },
    Direct { p: usize },
    Broadcast,
    Wait { min: u64 },
    Secs { s: u64 },
    /// All say something
    Chat,
    /// Those at larger distances leave or come
    Far { d: usize, on: bool },
    /// A peer sends a message on its way through this node
    Route { p: usize, key: usize, exact: bool, direct: bool },
}

fn gen_table(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let n = *r.pick(&[3, 8, 20, 45]);
    let shape = r.below(4);
    let depths = (0..1 + r.us(n))
        .map(|_| match shape {
            // As with random ids
            0 => {
                let mut d = 0;
                while d < 30 && r.chance(500) {
                    d += 1;
                }
                d
            }
            1 => r.us(4),
            2 => r.us(40),
            _ => *r.pick(&[0, 1, 1, 1, 7, 8, 9, 100]),
        })
        .collect::<Vec<_>>();
    let n = depths.len();
    let k = 1 + r.us(4);
    let cfg = Cfg {
        k,
        interval: *r.pick(&[2, 2, 3, 3, 10]),
        factor: 2 + r.below(3) as u32,
        depths: depths.clone(),
        delay_ms: *r.pick(&[0, 10, 3_000]),
        ids: r.below(1 << 40),
    };
    let churn = *r.pick(&[0, 1, 3]);
    let ops = (0..5 + r.us(60))
        .map(|_| {
            let p = r.us(n);
            match r.weighted(&[
                4,
                2 * churn,
                3 * churn,
                2 + churn,
                4,
                3,
                1,
                3,
                2,
                2,
                5,
                3,
                2,
                churn,
                5,
            ]) {
                0 => Op::Connect { p },
                1 => Op::Disconnect { p },
                2 => Op::Alive { p, on: r.chance(600) },
                3 => Op::Listed { p, on: r.chance(700) },
                4 => Op::List,
                5 => Op::Talk { p },
                6 => Op::Reply {
                    p,
                    first: r.us(n),
                    count: r.us(n + 1),
                    own: r.chance(300),
                },
                7 => Op::Closest { p, exact: r.chance(500) },
                8 => Op::Direct { p },
                9 => Op::Broadcast,
                10 => Op::Wait { min: *r.pick(&[1, 1, 2, 5, 12, 35]) },
                12 => Op::Chat,
                13 => Op::Far {
                    d: *r.pick(&depths),
                    on: r.chance(500),
                },
                14 => Op::Route {
                    p,
                    key: r.us(n + 1),
                    exact: r.chance(500),
                    direct: r.chance(400),
                },
                _ => Op::Secs { s: *r.pick(&[0, 1, 30]) },
            }
        })
        .collect();
    if r.chance(300) {
        return merging(r, cfg);
    }
    (cfg, ops)
}

/// Peers further away come and go, and others are spare ones meanwhile.
fn merging(r: &mut Rng, mut cfg: Cfg) -> (Cfg, Vec<Op>) {
    let k = 1 + r.us(3);
    let (d, levels) = (r.us(4), 1 + r.us(3));
    let mut depths = vec![];
    for l in 0..=levels {
        depths.extend((0..1 + r.us(2 * k + 1)).map(|_| d + l));
    }
    r.shuffle(&mut depths);
    let n = depths.len();
    cfg.k = k;
    cfg.depths = depths;
    let mut ops = vec![];
    for p in 0..n {
        if r.chance(900) {
            ops.push(Op::Listed { p, on: true });
            ops.push(Op::Connect { p });
        }
    }
    ops.push(Op::List);
    for _ in 0..4 + r.us(12) {
        ops.push(match r.weighted(&[6, 4, 3, 2, 1, 1]) {
            0 => Op::Chat,
            1 => Op::Wait { min: *r.pick(&[1, 1, 2, 5]) },
            2 => Op::Far {
                d: d + r.us(levels),
                on: r.chance(500),
            },
            3 => Op::List,
            4 => Op::Alive { p: r.us(n), on: r.chance(500) },
            _ => Op::Connect { p: r.us(n) },
        });
    }
    (cfg, ops)
}

struct Peer {
    id: NodeID,
    connected: bool,
    listed: bool,
    alive: bool,
    /// Answers since then
    alive_since: u64,
    /// When a message of it arrived last
    last: Option<u64>,
    gone: Option<u64>,
    /// Is in the table as long as it keeps talking
    kept: bool,
    /// Was in the table at the last check
    had: bool,
}

struct Table {
    cfg: Cfg,
    root: NodeID,
    peers: Vec<Peer>,
    net: BrokerNetwork,
    /// Messages of the test that were sent
    out: Vec<(NodeID, ModuleMessage)>,
    /// ... and those that arrived
    up: Vec<DHTRouterOut>,
    /// Active ones that were announced
    lists: BTreeSet<NodeID>,
    ended: bool,
    /// Time of the last check
    checked: u64,
}

type Shared = Arc<Mutex<Table>>;

impl Table {
    fn emit(&mut self, m: NetworkOut) {
        sim().note(|| format!("to the node: {m:?}").chars().take(200).collect());
        let _ = as_node(1, || self.net.emit_msg_out(m));
    }
    fn connect(&mut self, p: usize) {
        if !self.peers[p].connected {
            self.peers[p].connected = true;
            self.peers[p].alive_since = sim().now_ms();
            let id = self.peers[p].id;
            self.emit(NetworkOut::Connected(id));
        }
    }
    fn disconnect(&mut self, p: usize) {
        if self.peers[p].connected {
            self.peers[p].connected = false;
            self.peers[p].kept = false;
            self.peers[p].gone = Some(sim().now_ms());
            let id = self.peers[p].id;
            self.emit(NetworkOut::Disconnected(id));
        }
    }
    fn say(&mut self, p: usize, m: &ModuleMessage) {
        if self.ended || !self.peers[p].connected || !self.peers[p].alive {
            return;
        }
        let soon = self.peers[p].last.is_some_and(|l| self.soon(l));
        self.peers[p].kept &= soon;
        // It was in the table meanwhile, and is too young to be removed.
        let q = &self.peers[p];
        let early = q.last.is_some_and(|l| {
            l <= self.checked
                && q.gone.is_none_or(|g| g < l)
                && self.now() - l + MIN + 2_000
                    <= self.timeout_ms() - self.cfg.interval as u64 * MIN
        });
        if q.had && early {
            self.peers[p].kept = true;
        }
        self.peers[p].last = Some(sim().now_ms());
        let id = self.peers[p].id;
        let w = NetworkWrapper::wrap_yaml("DHTRouter", m).unwrap();
        self.emit(NetworkOut::MessageFromNode(id, w));
    }
    fn list(&mut self) {
        let l = self
            .peers
            .iter()
            .filter(|p| p.listed)
            .map(|p| info(1, p.id))
            .collect();
        self.emit(NetworkOut::NodeListFromWS(l));
    }
    fn now(&self) -> u64 {
        sim().now_ms()
    }
    fn timeout_ms(&self) -> u64 {
        (self.cfg.interval * self.cfg.factor) as u64 * MIN
    }
    /// It was active, did not disconnect, and never was silent for long since
    fn in_time(&self, p: &Peer) -> bool {
        p.kept && p.last.is_some_and(|l| self.soon(l))
    }
    fn soon(&self, last: u64) -> bool {
        // The first tick can come right after its message.
        self.now() - last + MIN + 2_000 <= self.timeout_ms()
    }
    fn find(&self, id: &NodeID) -> Option<usize> {
        self.peers.iter().position(|p| p.id == *id)
    }
}

fn check_stats(root: &NodeID, k: usize, st: &Stats) -> Res {
    let all: BTreeSet<_> = st.all_nodes.iter().collect();
    check!(
        all.len() == st.all_nodes.len(),
        "a peer is twice in the table",
        "{st:?}"
    );
    check!(!all.contains(root), "the node is in its own table", "{st:?}");
    let active: Vec<_> = st.bucket_nodes.iter().flatten().collect();
    check!(
        active.len() == st.active && active.iter().all(|a| all.contains(a)),
        "the numbers of the table do not fit",
        "{st:?}"
    );
    let last = st.bucket_nodes.len().saturating_sub(1);
    for (d, b) in st.bucket_nodes.iter().enumerate() {
        check!(
            d == last || b.len() <= k,
            "there are too many active peers at a distance",
            "{} at {d}, k is {k}",
            b.len()
        );
        for id in b {
            let s = share(root, id);
            check!(
                s == d || d == last && s >= d,
                "a peer is listed at a wrong distance",
                "{id} at {d} instead of {s}"
            );
        }
    }
    Ok(())
}

pub fn active(st: &Stats) -> BTreeSet<NodeID> {
    st.bucket_nodes.iter().flatten().copied().collect()
}

/// Another key which differs from this one in the last bits only.
fn blur(id: &U256) -> U256 {
    let mut b = id.to_bytes();
    b[31] ^= 0x55;
    b[30] ^= 0xaa;
    U256::from(b)
}

fn orig_id() -> U256 {
    U256::from([7u8; 32])
}

struct TWorld {
    /// Check the table itself too
    table: bool,
    t: Shared,
    dht: BrokerDHTRouter,
    stats: watch::Receiver<Stats>,
    bad: Bad,
    /// Active before, at this time
    was: (u64, BTreeSet<NodeID>),
    /// In the table before
    had: BTreeSet<NodeID>,
    sent: u64,
}

impl TWorld {
    fn check(&mut self) -> Res {
        self.bad.res()?;
        let st = self.stats.borrow().clone();
        let mut t = self.t.lock().unwrap();
        if let Some(m) = t.up.first() {
            return viol("something arrives that nobody sent", format!("{m:?}"));
        }
        if !self.table {
            return Ok(());
        }
        check_stats(&t.root, t.cfg.k, &st)?;
        let now = t.now();
        let act = active(&st);
        for id in &act {
            let Some(p) = t.find(id) else {
                return viol("an unknown peer is active", format!("{id}"));
            };
            let p = &t.peers[p];
            let Some(last) = p.last else {
                return viol("a peer is active that never answered", format!("{id}"));
            };
            check!(
                p.gone.is_none_or(|g| g <= last),
                "a disconnected peer is active",
                "{id}, since {} s; {st:?}",
                (now - p.gone.unwrap()) / 1000
            );
            check!(
                now - last <= t.timeout_ms() + 1_000,
                "a peer is active that does not answer",
                "{id} since {} s",
                (now - last) / 1000
            );
        }
        let (then, was) = &self.was;
        for id in act.difference(was) {
            check!(
                t.lists.contains(id),
                "a peer is active that was not announced",
                "{id}; {st:?}"
            );
        }
        t.lists.clear();
        for id in was.difference(&act) {
            let p = &t.peers[t.find(id).unwrap()];
            let d = share(&t.root, id);
            let others = act.iter().filter(|a| share(&t.root, a) == d).count();
            // They were there when it became a spare one
            let left = t
                .peers
                .iter()
                .filter(|p| share(&t.root, &p.id) == d && p.gone.is_some_and(|g| g >= *then))
                .count();
            let in_time = t.in_time(p);
            if p.connected
                && p.gone.is_none_or(|g| g < *then)
                && (in_time
                    || p.alive && p.alive_since + (t.cfg.interval as u64 + 1) * MIN <= *then)
            {
                check!(
                    others + left >= t.cfg.k,
                    "a peer that answers is not active any more",
                    "{id} at distance {d}, with {others} others; {st:?}"
                );
                sim().probe("became spare");
            }
        }
        // Those that answer stay in the table while there is place
        let has: BTreeSet<NodeID> = st.all_nodes.iter().copied().collect();
        let (mut lost, mut left) = (vec![], vec![]);
        for id in self.had.difference(&has) {
            let p = &t.peers[t.find(id).unwrap()];
            let in_time = t.in_time(p);
            if p.connected && p.gone.is_none_or(|g| g < *then) && in_time {
                lost.push(id);
            } else {
                left.push(id);
            }
        }
        for id in lost {
            let d = share(&t.root, id);
            let near = |i: &&NodeID| share(&t.root, i) == d;
            let here = has.iter().filter(near).count();
            let gone = left.iter().copied().filter(near).count();
            // It can have left and come back in the meantime
            if t.peers.iter().filter(|p| near(&&p.id)).count() > 2 * t.cfg.k {
                continue;
            }
            check!(
                here + gone >= 2 * t.cfg.k,
                "a peer that answers is forgotten",
                "{id} at distance {d}, with {here} others; {st:?}"
            );
            sim().probe("no place");
        }
        t.checked = now;
        for p in t.peers.iter_mut() {
            p.had = has.contains(&p.id);
            if act.contains(&p.id) {
                p.kept = p.connected;
            } else if !has.contains(&p.id) {
                p.kept = false;
            }
        }
        self.had = has;
        self.was = (now, act);
        Ok(())
    }

    /// All peers are here for good, or gone.
    fn settled(&self) -> Res {
        if !self.table {
            return Ok(());
        }
        let st = self.stats.borrow().clone();
        let t = self.t.lock().unwrap();
        let act = active(&st);
        let mut live: BTreeMap<usize, BTreeSet<NodeID>> = Default::default();
        for p in &t.peers {
            if p.alive && p.listed {
                live.entry(share(&t.root, &p.id)).or_default().insert(p.id);
            }
        }
        for id in &act {
            check!(
                live.values().any(|l| l.contains(id)),
                "a peer that is gone is active",
                "{id}; {st:?}"
            );
        }
        for (d, l) in &live {
            let n = act.intersection(l).count();
            check!(
                n >= t.cfg.k.min(l.len()),
                "too few peers are active at a distance",
                "{n} of {} at {d}; {st:?}; {}",
                l.len(),
                l.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",")
            );
            if l.len() > t.cfg.k {
                sim().probe("spares");
            }
        }
        Ok(())
    }

    async fn send(&mut self, m: DHTRouterIn) -> Vec<(NodeID, ModuleMessage)> {
        self.t.lock().unwrap().out.clear();
        let _ = as_node(1, || self.dht.emit_msg_in(m));
        quiesce().await;
        self.t.lock().unwrap().out.clone()
    }

    fn here(&self, key: &U256) -> bool {
        let t = self.t.lock().unwrap();
        t.find(key).is_some_and(|p| t.peers[p].connected)
    }

    fn wrapper(&mut self) -> NetworkWrapper {
        self.sent += 1;
        NetworkWrapper {
            module: "Test".into(),
            msg: format!("{}", self.sent),
        }
    }

    async fn op(&mut self, op: Op) -> Res {
        let s = sim();
        let root = self.t.lock().unwrap().root;
        let np = self.t.lock().unwrap().peers.len();
        match op {
            Op::Connect { p } => self.t.lock().unwrap().connect(p % np),
            Op::Disconnect { p } => {
                s.did("peer-disconnects");
                self.t.lock().unwrap().disconnect(p % np)
            }
            Op::Alive { p, on } => {
                let mut t = self.t.lock().unwrap();
                let now = t.now();
                let p = &mut t.peers[p % np];
                if !on {
                    s.did("peer-stalls");
                }
                if on && !p.alive {
                    p.alive_since = now;
                }
                p.alive = on;
            }
            Op::Listed { p, on } => self.t.lock().unwrap().peers[p % np].listed = on,
            Op::List => self.t.lock().unwrap().list(),
            Op::Route { p, key, exact, direct } => {
                let (from, key) = {
                    let t = self.t.lock().unwrap();
                    let key = t.peers.get(key % (np + 1)).map_or(root, |k| k.id);
                    (t.peers[p % np].id, if exact { key } else { blur(&key) })
                };
                // Only those send it here that are not closer
                if key != root && share(&from, &key) > share(&root, &key) {
                    return Ok(());
                }
                quiesce().await;
                let st = self.stats.borrow().clone();
                let w = self.wrapper();
                let here = self.here(&key);
                let (out, up) = {
                    let mut t = self.t.lock().unwrap();
                    if !t.peers[p % np].connected || !t.peers[p % np].alive {
                        return Ok(());
                    }
                    t.out.clear();
                    let m = match direct {
                        true => ModuleMessage::Direct(orig_id(), key, w.clone()),
                        false => ModuleMessage::Closest(orig_id(), key, w.clone()),
                    };
                    t.say(p % np, &m);
                    drop(t);
                    quiesce().await;
                    let mut t = self.t.lock().unwrap();
                    (t.out.clone(), std::mem::take(&mut t.up))
                };
                let orig = orig_id();
                if key == root {
                    check!(
                        out.is_empty() && up == [DHTRouterOut::MessageDest(orig, from, w)],
                        "a message for this node is not delivered once",
                        "{out:?}, {up:?}"
                    );
                    s.probe("here");
                    return self.check();
                }
                self.check_hop(&st, &out, key, here, Some(from))?;
                let (want_out, want_up) = match (out.first(), direct) {
                    (None, true) => (None, None),
                    (None, false) => (None, Some(DHTRouterOut::MessageClosest(orig, from, key, w))),
                    (Some(_), true) => (Some(ModuleMessage::Direct(orig, key, w)), None),
                    (Some((to, _)), false) => (
                        Some(ModuleMessage::Closest(orig, key, w.clone())),
                        Some(DHTRouterOut::MessageRouting(orig, from, *to, key, w)),
                    ),
                };
                check!(
                    out.first().map(|o| &o.1) == want_out.as_ref() && up.first() == want_up.as_ref(),
                    "a message is not routed as it was sent",
                    "{out:?}, {up:?}"
                );
                check!(up.len() <= 1, "a message is delivered twice", "{up:?}");
                s.probe("routed");
            }
            Op::Chat => {
                let mut t = self.t.lock().unwrap();
                for p in 0..np {
                    t.say(p, &ModuleMessage::Pong);
                }
            }
            Op::Far { d, on } => {
                let mut t = self.t.lock().unwrap();
                for p in 0..np {
                    if t.cfg.depths[p] > d {
                        t.peers[p].listed = on;
                        if on {
                            t.connect(p);
                        } else {
                            t.disconnect(p);
                        }
                    }
                }
            }
            Op::Talk { p } => self.t.lock().unwrap().say(p % np, &ModuleMessage::Pong),
            Op::Reply { p, first, count, own } => {
                let mut t = self.t.lock().unwrap();
                let mut ids: Vec<_> = t.peers.iter().map(|p| p.id).skip(first).take(count).collect();
                if own {
                    ids.push(root);
                }
                t.say(p % np, &ModuleMessage::ConnectedIDsReply(ids));
            }
            Op::Wait { min } => {
                for _ in 0..min {
                    sleep_ms(MIN).await;
                    self.check()?;
                }
            }
            Op::Secs { s } => sleep_ms(s * 1000).await,
            Op::Broadcast => {
                quiesce().await;
                let act = active(&self.stats.borrow());
                let w = self.wrapper();
                let out = self.send(DHTRouterIn::MessageBroadcast(w.clone())).await;
                let to: BTreeSet<_> = out.iter().map(|o| o.0).collect();
                check!(
                    to == act && out.len() == to.len(),
                    "a broadcast does not go to each active peer once",
                    "to {:?} instead of {act:?}",
                    out.iter().map(|o| o.0).collect::<Vec<_>>()
                );
                for (_, m) in out {
                    check!(
                        m == ModuleMessage::Neighbour(w.clone()),
                        "a message is altered",
                        "{m:?}"
                    );
                }
            }
            Op::Closest { p, exact } => {
                quiesce().await;
                let st = self.stats.borrow().clone();
                let id = self.t.lock().unwrap().peers[p % np].id;
                let key = if exact {
                    id
                } else {
                    blur(&id)
                };
                let w = self.wrapper();
                let here = self.here(&key);
                let out = self.send(DHTRouterIn::MessageClosest(key, w.clone())).await;
                self.check_hop(&st, &out, key, here, None)?;
                if let Some((_, m)) = out.first() {
                    check!(
                        *m == ModuleMessage::Closest(root, key, w),
                        "a message is altered",
                        "{m:?}"
                    );
                    s.probe("hop");
                }
            }
            Op::Direct { p } => {
                quiesce().await;
                let st = self.stats.borrow().clone();
                let key = self.t.lock().unwrap().peers[p % np].id;
                let w = self.wrapper();
                let here = self.here(&key);
                let out = self.send(DHTRouterIn::MessageDirect(key, w.clone())).await;
                self.check_hop(&st, &out, key, here, None)?;
                if let Some((_, m)) = out.first() {
                    check!(
                        *m == ModuleMessage::Direct(root, key, w),
                        "a message is altered",
                        "{m:?}"
                    );
                }
            }
        }
        quiesce().await;
        self.check()
    }

    /// [here]: whether the destination was connected before sending.
    fn check_hop(
        &self,
        st: &Stats,
        out: &[(NodeID, ModuleMessage)],
        key: U256,
        here: bool,
        from: Option<NodeID>,
    ) -> Res {
        let t = self.t.lock().unwrap();
        let act = active(st);
        check!(out.len() <= 1, "a message goes out more than once", "{out:?}");
        let connected = t.find(&key).is_some_and(|p| t.peers[p].connected);
        // It connected or disconnected at the same time
        if here != connected {
            return Ok(());
        }
        let d = share(&t.root, &key);
        match out.first() {
            None => {
                check!(
                    !connected && !act.iter().any(|a| share(&t.root, a) == d),
                    "a message is not sent although there is a closer peer",
                    "key {key}, active {act:?}"
                );
            }
            Some((to, _)) => {
                check!(
                    !connected || *to == key,
                    "a message does not go to the connected destination",
                    "{to} instead of {key}"
                );
                check!(
                    connected || act.contains(to),
                    "a message is sent to a peer that is not active",
                    "{to}; {st:?}"
                );
                check!(
                    from != Some(*to),
                    "a message goes back to where it came from",
                    "{to} for {key}"
                );
                check!(
                    share(to, &key) > d || from.is_some() && share(to, &key) == d,
                    "a message does not get closer to its key",
                    "{to} for {key}"
                );
            }
        }
        Ok(())
    }
}

async fn run_table(case: Rc<Case>) -> Res {
    let cfg: Cfg = case.cfg();
    let s = sim();
    let mut r = Rng::stream(cfg.ids, "ids");
    let root = U256::from(std::array::from_fn::<u8, 32, _>(|_| r.below(256) as u8));
    let peers = cfg
        .depths
        .iter()
        .map(|d| Peer {
            id: at_depth(&root, *d, &mut r),
            connected: false,
            listed: false,
            alive: true,
            alive_since: 0,
            last: None,
            gone: None,
            kept: false,
            had: false,
        })
        .collect();
    let mut net: BrokerNetwork = as_node(1, Broker::new);
    let (mut tap, _) = on_node(1, net.get_tap_in()).await.unwrap().unwrap();
    let kc = Config {
        root,
        k: cfg.k,
        ping_interval: cfg.interval,
        ping_timeout: cfg.interval * cfg.factor,
    };
    let k = cfg.k;
    let delay = cfg.delay_ms;
    let t: Shared = Arc::new(Mutex::new(Table {
        cfg,
        root,
        peers,
        net: net.clone(),
        out: vec![],
        up: vec![],
        lists: Default::default(),
        ended: false,
        checked: 0,
    }));
    let sh = t.clone();
    let bad = Bad::new();
    let b2 = bad.clone();
    // The other nodes
    go(0, async move {
        while let Some(m) = tap.recv().await {
            let NetworkIn::MessageToNode(to, w) = m else { continue };
            let Some(m) = w.unwrap_yaml::<ModuleMessage>("DHTRouter") else {
                b2.set("a message of the router cannot be read", format!("{w:?}"));
                continue;
            };
            let mut tt = sh.lock().unwrap();
            if tt.ended {
                return;
            }
            let Some(p) = tt.find(&to) else {
                if to == tt.root {
                    b2.set("a node sends a message to itself", format!("{m:?}"));
                }
                continue;
            };
            let reply = match &m {
                ModuleMessage::Ping => ModuleMessage::Pong,
                ModuleMessage::ConnectedIDsRequest => ModuleMessage::ConnectedIDsReply(vec![]),
                _ => {
                    tt.out.push((to, m));
                    continue;
                }
            };
            if m == ModuleMessage::ConnectedIDsRequest && !tt.peers[p].connected {
                continue;
            }
            drop(tt);
            let sh = sh.clone();
            go(0, async move {
                sleep_ms(sim().net_below(delay + 1)).await;
                let mut t = sh.lock().unwrap();
                if !t.ended && t.peers[p].alive && t.peers[p].listed {
                    t.connect(p);
                }
                t.say(p, &reply);
            });
        }
    });
    let d = within(
        20_000,
        on_node(1, async move {
            let timer = Timer::start().await?.broker;
            let router = RouterNetwork::start(net).await?;
            DHTRouter::start(kc, timer, router).await
        }),
    )
    .await;
    let Some(Some(Ok(mut d))) = d else {
        return viol("the router does not start", "");
    };
    let (mut dtap, _) = on_node(1, d.broker.get_tap_out()).await.unwrap().unwrap();
    let b2 = bad.clone();
    let sh = t.clone();
    go(1, async move {
        while let Some(m) = dtap.recv().await {
            match m {
                DHTRouterOut::NodeList(l) => {
                    let set: BTreeSet<_> = l.iter().collect();
                    sh.lock().unwrap().lists.extend(l.iter().copied());
                    if set.len() != l.len() || set.contains(&root) {
                        b2.set("the list of nodes is wrong", format!("{l:?}"));
                    }
                    sim().probe("list");
                }
                m => sh.lock().unwrap().up.push(m),
            }
        }
    });
    let mut w = TWorld {
        table: case.prop != "C17",
        t: t.clone(),
        dht: d.broker,
        stats: d.stats,
        bad,
        was: (0, Default::default()),
        had: Default::default(),
        sent: 0,
    };
    quiesce().await;
    for op in case.ops::<Op>() {
        w.op(op).await?;
    }
    if !w.table {
        t.lock().unwrap().ended = true;
        return Ok(());
    }
    s.calm.set(true);
    let minutes = {
        let mut t = w.t.lock().unwrap();
        let now = t.now();
        for p in 0..t.peers.len() {
            let here = (case.seed >> (p % 60)) & 3 != 0;
            t.peers[p].listed = here;
            t.peers[p].alive = here;
            t.peers[p].alive_since = now;
            if here {
                t.connect(p);
            } else {
                t.disconnect(p);
            }
        }
        t.list();
        (t.cfg.interval * t.cfg.factor * 3 + 3 * t.cfg.interval + 5) as u64
    };
    for round in 0..1 + ((case.seed >> 61) & 1) {
        for _ in 0..minutes {
            w.t.lock().unwrap().list();
            sleep_ms(MIN).await;
            w.check()?;
        }
        w.settled()?;
        if round == 0 {
            // Some active ones leave
            let act = w.was.1.clone();
            let mut t = w.t.lock().unwrap();
            for (i, id) in act.iter().enumerate() {
                if (case.seed >> (i % 50)) & 1 == 1 {
                    let p = t.find(id).unwrap();
                    t.peers[p].listed = false;
                    t.peers[p].alive = false;
                    if (case.seed >> (i % 40)) & 4 == 0 {
                        t.disconnect(p);
                    }
                    s.probe("active one leaves");
                }
            }
        }
    }
    let _ = k;
    t.lock().unwrap().ended = true;
    s.probe("settled");
    Ok(())
}

// ---------------------------------------------------------------- routing between nodes

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NetCfg {
    nodes: u32,
    k: usize,
    interval: u32,
    link: LinkCfg,
    max_list: Option<usize>,
    /// Number of bits in which the ids differ at the start, or random
    spread: u32,
    ids: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum NetOp {
    Kill { n: u32 },
    Start { n: u32 },
    Break { a: u32, b: u32 },
    Block { a: u32, b: u32 },
    Unblock { a: u32, b: u32 },
    Closest { n: u32, key: u64 },
    ClosestNode { n: u32, to: u32 },
    Direct { n: u32, to: u32 },
    Broadcast { n: u32 },
    Neighbour { n: u32, to: u32 },
    Stall { n: u32, ms: u64 },
    Wait { ms: u64 },
}

fn gen_net(r: &mut Rng) -> (NetCfg, Vec<NetOp>) {
    let nodes = *r.pick(&[2, 3, 5, 9, 14, 20]);
    let node = |r: &mut Rng| 1 + r.below(nodes as u64) as u32;
    let churn = *r.pick(&[0, 1, 2]);
    let ops = (0..4 + r.us(30))
        .map(|_| {
            let (n, b) = (node(r), node(r));
            match r.weighted(&[
                3 * churn,
                3 * churn,
                3 * churn,
                churn,
                churn,
                8,
                3,
                6,
                2,
                3,
                churn,
                8,
            ]) {
                0 => NetOp::Kill { n },
                1 => NetOp::Start { n },
                2 => NetOp::Break { a: n, b },
                3 => NetOp::Block { a: n, b },
                4 => NetOp::Unblock { a: n, b },
                5 => NetOp::Closest { n, key: r.below(1 << 40) },
                6 => NetOp::ClosestNode { n, to: b },
                7 => NetOp::Direct { n, to: b },
                8 => NetOp::Broadcast { n },
                9 => NetOp::Neighbour { n, to: b },
                10 => NetOp::Stall { n, ms: *r.pick(&[100, 30_000]) },
                _ => NetOp::Wait { ms: *r.pick(&[0, 10, 2_000, 61_000, 600_000]) },
            }
        })
        .collect();
    (
        NetCfg {
            nodes,
            k: 1 + r.us(3),
            interval: *r.pick(&[2, 5]),
            link: LinkCfg {
                drop: if r.chance(300) { 50 } else { 0 },
                ..LinkCfg::gen(r, false)
            },
            max_list: if r.chance(300) { Some(1 + r.us(nodes as usize)) } else { None },
            spread: *r.pick(&[0, 0, 3, 12]),
            ids: r.below(1 << 40),
        },
        ops,
    )
}

#[derive(Clone, Debug)]
enum Saw {
    Transit { orig: NodeID, last: NodeID, next: NodeID, key: U256 },
    Closest { orig: NodeID, last: NodeID, key: U256 },
    Dest { orig: NodeID, last: NodeID },
    Neighbour { from: NodeID },
}

#[derive(Default)]
struct Got {
    /// For each message: time, node, what
    msgs: BTreeMap<u64, Vec<(u32, Saw)>>,
}

struct DNode {
    dht: BrokerDHTRouter,
    stats: watch::Receiver<Stats>,
}

struct NWorld {
    cfg: NetCfg,
    links: Links,
    ids: BTreeMap<u32, NodeID>,
    nodes: BTreeMap<u32, DNode>,
    got: Arc<Mutex<Got>>,
    sent: BTreeMap<u64, (u32, Kind)>,
    next: u64,
    bad: Bad,
}

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Closest(U256),
    Direct(NodeID),
    Broadcast,
    Neighbour(NodeID),
}

impl NWorld {
    fn key(&self, seed: u64) -> U256 {
        let mut r = Rng::stream(seed, "key");
        let base = self.ids[&(1 + (seed % self.cfg.nodes as u64) as u32)];
        at_depth(&base, r.us(12), &mut r)
    }

    async fn start(&mut self, n: u32) -> Res {
        if self.nodes.contains_key(&n) {
            return Ok(());
        }
        let s = sim();
        if !s.node(n).alive.get() {
            s.revive(n);
            s.probe("restarted");
        }
        let root = self.ids[&n];
        let net = self.links.attach(n, info(n, root)).await;
        let kc = Config {
            root,
            k: self.cfg.k,
            ping_interval: self.cfg.interval,
            ping_timeout: self.cfg.interval * 3,
        };
        let d = within(
            20_000,
            on_node(n, async move {
                let timer = Timer::start().await?.broker;
                let router = RouterNetwork::start(net).await?;
                DHTRouter::start(kc, timer, router).await
            }),
        )
        .await;
        let Some(Some(Ok(mut d))) = d else {
            return viol("the router does not start", format!("node {n}"));
        };
        let (mut tap, _) = on_node(n, d.broker.get_tap_out()).await.unwrap().unwrap();
        let got = self.got.clone();
        let inc = s.node(n).inc.get();
        let bad = self.bad.clone();
        go(n, async move {
            while let Some(m) = tap.recv().await {
                if !sim().runs(n, inc) {
                    return;
                }
                let (w, saw) = match m {
                    DHTRouterOut::MessageNeighbour(from, w) => (w, Saw::Neighbour { from }),
                    DHTRouterOut::MessageRouting(orig, last, next, key, w) => {
                        (w, Saw::Transit { orig, last, next, key })
                    }
                    DHTRouterOut::MessageClosest(orig, last, key, w) => {
                        (w, Saw::Closest { orig, last, key })
                    }
                    DHTRouterOut::MessageDest(orig, last, w) => (w, Saw::Dest { orig, last }),
                    DHTRouterOut::NodeList(l) => {
                        if l.contains(&root) {
                            bad.set("the node is in its own list", format!("node {n}"));
                        }
                        continue;
                    }
                    DHTRouterOut::SystemRealm(_) => continue,
                };
                sim().ev(66, n as u64);
                let k: u64 = w.msg.parse().unwrap_or(0);
                if w.module != "Test" {
                    bad.set("a message is altered", format!("node {n}: {w:?}"));
                }
                got.lock().unwrap().msgs.entry(k).or_default().push((n, saw));
            }
        });
        self.nodes.insert(
            n,
            DNode {
                dht: d.broker,
                stats: d.stats,
            },
        );
        Ok(())
    }

    fn send(&mut self, n: u32, kind: Kind) -> Option<u64> {
        let d = self.nodes.get_mut(&n)?;
        self.next += 1;
        let k = self.next;
        self.sent.insert(k, (n, kind.clone()));
        let w = NetworkWrapper {
            module: "Test".into(),
            msg: k.to_string(),
        };
        let m = match kind {
            Kind::Closest(key) => DHTRouterIn::MessageClosest(key, w),
            Kind::Direct(id) => DHTRouterIn::MessageDirect(id, w),
            Kind::Broadcast => DHTRouterIn::MessageBroadcast(w),
            Kind::Neighbour(id) => DHTRouterIn::MessageNeighbour(id, w),
        };
        let _ = as_node(n, || d.dht.emit_msg_in(m));
        Some(k)
    }

    /// What has to hold at any time
    fn check(&self) -> Res {
        self.bad.res()?;
        for (n, d) in &self.nodes {
            check_stats(&self.ids[n], self.cfg.k, &d.stats.borrow())?;
        }
        let got = self.got.lock().unwrap();
        for (k, l) in &got.msgs {
            let Some((from, kind)) = self.sent.get(k) else {
                return viol("a message arrives that nobody sent", format!("{l:?}"));
            };
            let fid = self.ids[from];
            let mut seen = BTreeSet::new();
            for (n, saw) in l {
                check!(
                    seen.insert(*n),
                    "a message visits a node twice",
                    "message {k} {kind:?}, node {n}: {l:?}"
                );
                check!(
                    n != from,
                    "a message comes back to its sender",
                    "message {k} {kind:?}, node {n}: {l:?}"
                );
                let ok = match (kind, saw) {
                    (Kind::Closest(k), Saw::Transit { orig, key, next, last }) => {
                        let me = share(&self.ids[n], k);
                        *orig == fid
                            && key == k
                            && share(last, k) <= me
                            && share(next, k) >= me
                            && next != last
                    }
                    (Kind::Closest(k), Saw::Closest { orig, key, last }) => {
                        *orig == fid
                            && key == k
                            && self.ids[n] != *k
                            && share(last, k) <= share(&self.ids[n], k)
                    }
                    (Kind::Closest(id), Saw::Dest { orig, .. })
                    | (Kind::Direct(id), Saw::Dest { orig, .. }) => {
                        *orig == fid && self.ids[n] == *id
                    }
                    (Kind::Broadcast, Saw::Neighbour { from }) => *from == fid,
                    (Kind::Neighbour(id), Saw::Neighbour { from }) => {
                        *from == fid && self.ids[n] == *id
                    }
                    _ => false,
                };
                check!(
                    ok,
                    "a message arrives where or how it should not",
                    "message {k} {kind:?} from {from} {fid}, node {n} {}: {saw:?}",
                    self.ids[n]
                );
            }
            let ends = l
                .iter()
                .filter(|(_, s)| !matches!(s, Saw::Transit { .. } | Saw::Neighbour { .. }))
                .count();
            check!(ends <= 1, "a message ends more than once", "message {k}: {l:?}");
        }
        Ok(())
    }

    fn table_ok(&self) -> Res {
        for (n, d) in &self.nodes {
            let st = d.stats.borrow();
            let act = active(&st);
            let me = self.ids[n];
            let mut live: BTreeMap<usize, Vec<NodeID>> = Default::default();
            for m in self.nodes.keys().filter(|m| *m != n) {
                live.entry(share(&me, &self.ids[m])).or_default().push(self.ids[m]);
            }
            for a in &act {
                check!(
                    self.nodes.keys().any(|m| self.ids[m] == *a),
                    "a peer that is gone is active",
                    "node {n}: {a}"
                );
            }
            for (dd, l) in live {
                let c = l.iter().filter(|i| act.contains(i)).count();
                check!(
                    c >= self.cfg.k.min(l.len()),
                    "too few peers are active at a distance",
                    "node {n} {me}: {c} of {} at {dd}; {st:?}",
                    l.len()
                );
            }
        }
        Ok(())
    }

    /// All messages of a network that does not change
    async fn route_all(&mut self, seed: u64) -> Res {
        let s = sim();
        let all: Vec<u32> = self.nodes.keys().copied().collect();
        let mut todo = vec![];
        let mut r = Rng::stream(seed, "route");
        for n in &all {
            for m in &all {
                if n != m {
                    todo.push((*n, Kind::Direct(self.ids[m])));
                    todo.push((*n, Kind::Closest(self.ids[m])));
                }
            }
            for _ in 0..6 {
                let k = self.key(r.below(1 << 40));
                todo.push((*n, Kind::Closest(k)));
            }
            todo.push((*n, Kind::Broadcast));
        }
        for i in (1..todo.len()).rev() {
            todo.swap(i, r.us(i + 1));
        }
        todo.truncate(60);
        let mut nums = vec![];
        for (n, k) in todo {
            let act = active(&self.nodes[&n].stats.borrow());
            let num = self.send(n, k.clone()).unwrap();
            nums.push((num, n, k, act));
        }
        sleep_ms(40_000).await;
        self.check()?;
        let got = self.got.lock().unwrap();
        for (num, n, k, act) in nums {
            let l = got.msgs.get(&num).cloned().unwrap_or_default();
            let me = self.ids[&n];
            match &k {
                Kind::Direct(id) => {
                    check!(
                        l.len() == 1 && self.ids[&l[0].0] == *id,
                        "a direct message does not reach its destination",
                        "from {n} to {id}: {l:?}"
                    );
                    s.probe("direct");
                }
                Kind::Broadcast => {
                    let to: BTreeSet<_> = l.iter().map(|x| self.ids[&x.0]).collect();
                    check!(
                        to == act,
                        "a broadcast does not reach the active peers",
                        "from {n}: {to:?} instead of {act:?}"
                    );
                    s.probe("broadcast");
                }
                Kind::Closest(key) => {
                    let best = all.iter().map(|m| share(&self.ids[m], key)).max().unwrap();
                    if l.is_empty() {
                        check!(
                            share(&me, key) == best,
                            "a message does not reach the closest node",
                            "from {n} {me} for {key}: not sent"
                        );
                        s.probe("already closest");
                        continue;
                    }
                    let (last, end) = l.last().unwrap();
                    check!(
                        matches!(end, Saw::Closest { .. } | Saw::Dest { .. }),
                        "a message does not end",
                        "from {n} for {key}: {l:?}"
                    );
                    check!(
                        share(&self.ids[last], key) == best,
                        "a message does not reach the closest node",
                        "from {n} {me} for {key}: {l:?}"
                    );
                    // A chain
                    let mut at = me;
                    for (i, (m, saw)) in l.iter().enumerate() {
                        let prev = match saw {
                            Saw::Transit { last, .. } => *last,
                            Saw::Closest { last, .. } => *last,
                            Saw::Dest { last, .. } => *last,
                            _ => at,
                        };
                        check!(
                            prev == at,
                            "a node on the way does not see the message",
                            "from {n} for {key}: {l:?}"
                        );
                        at = self.ids[m];
                        if let Saw::Transit { next, .. } = saw {
                            check!(
                                l.get(i + 1).is_some_and(|x| self.ids[&x.0] == *next),
                                "a message does not go where it was announced",
                                "from {n} for {key}: {l:?}"
                            );
                            s.probe("transit");
                        }
                    }
                    s.probe("closest");
                }
                _ => {}
            }
        }
        Ok(())
    }

    async fn op(&mut self, op: NetOp) -> Res {
        let s = sim();
        let w = |n: u32| 1 + (n.max(1) - 1) % self.cfg.nodes;
        match op {
            NetOp::Kill { n } => {
                let n = w(n);
                if self.nodes.remove(&n).is_some() {
                    self.links.kill(n);
                }
            }
            NetOp::Start { n } => self.start(w(n)).await?,
            NetOp::Break { a, b } => {
                let (a, b) = (w(a), w(b));
                if self.links.connected(a, b) {
                    self.links.break_conn(a, b);
                }
            }
            NetOp::Block { a, b } => self.links.block(w(a), w(b)),
            NetOp::Unblock { a, b } => self.links.unblock(w(a), w(b)),
            NetOp::Closest { n, key } => {
                let k = self.key(key);
                self.send(w(n), Kind::Closest(k));
            }
            NetOp::ClosestNode { n, to } => {
                let id = self.ids[&w(to)];
                self.send(w(n), Kind::Closest(id));
            }
            NetOp::Direct { n, to } => {
                let id = self.ids[&w(to)];
                self.send(w(n), Kind::Direct(id));
            }
            NetOp::Broadcast { n } => {
                self.send(w(n), Kind::Broadcast);
            }
            NetOp::Neighbour { n, to } => {
                let (n, to) = (w(n), w(to));
                if n != to {
                    let id = self.ids[&to];
                    self.send(n, Kind::Neighbour(id));
                }
            }
            NetOp::Stall { n, ms } => s.stall(w(n), ms),
            NetOp::Wait { ms } => sleep_ms(ms).await,
        }
        Ok(())
    }
}

async fn run_net(case: Rc<Case>) -> Res {
    let cfg: NetCfg = case.cfg();
    let s = sim();
    let links = Links::new(cfg.link.clone());
    links.set_max_list(cfg.max_list);
    let mut r = Rng::stream(cfg.ids, "ids");
    let base = U256::from(std::array::from_fn::<u8, 32, _>(|_| r.below(256) as u8));
    let ids = (1..=cfg.nodes)
        .map(|n| {
            let d = match cfg.spread {
                0 => 0,
                m => r.us(m as usize),
            };
            let id = if cfg.spread == 0 {
                U256::from(std::array::from_fn::<u8, 32, _>(|_| r.below(256) as u8))
            } else {
                at_depth(&base, d, &mut r)
            };
            (n, id)
        })
        .collect();
    let mut w = NWorld {
        cfg,
        links,
        ids,
        nodes: Default::default(),
        got: Default::default(),
        sent: Default::default(),
        next: 0,
        bad: Bad::new(),
    };
    for n in 1..=w.cfg.nodes {
        w.start(n).await?;
    }
    if case.seed % 2 == 0 {
        sleep_ms(6 * MIN).await;
    }
    for op in case.ops::<NetOp>() {
        w.op(op).await?;
        w.check()?;
    }
    for n in 1..=w.cfg.nodes {
        s.node(n).stall_until.set(0);
    }
    s.calm.set(true);
    w.links.heal();
    for n in 1..=w.cfg.nodes {
        if (case.seed >> (n % 60)) & 3 != 0 {
            w.start(n).await?;
        }
    }
    let rounds = w.cfg.interval as u64 * 3 * 3 + 10;
    for i in 0..rounds {
        sleep_ms(MIN).await;
        if i % 4 == 0 {
            w.check()?;
        }
    }
    // Lists with a part of the nodes take longer.
    let mut last: Result<(), Viol> = w.table_ok();
    for _ in 0..if w.cfg.max_list.is_some() { 60 } else { 5 } {
        if last.is_ok() {
            break;
        }
        sleep_ms(MIN).await;
        last = w.table_ok();
    }
    last?;
    s.probe("settled");
    w.check()?;
    w.route_all(case.seed).await?;
    w.links.end();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            rule: "a node with up to 45 peers at chosen distances, which connect, leave, stall, answer late, and are told about by lists and by other peers, or up to 20 nodes together; then the set of peers stays the same for three timeouts, and loses some active ones",
            real: &["flmodules DHTRouter, Kademlia, RouterNetwork, Timer, Broker"],
            stub: &["the other nodes in the scenario table, the network in both"],
            reach: &["list", "spares", "active one leaves", "settled", "became spare"],
            scens: vec![
                crate::scen!("table", 4, gen_table, run_table),
                crate::scen!("net", 1, gen_net, run_net),
            ],
        },
        Prop {
            id: "C17",
            rule: "2 to 20 nodes with random or close ids route messages by key, to a node, and to all neighbours, while nodes crash, return, stall, lose connections and messages; then the network settles and 60 messages are routed; or one node with up to 45 peers at chosen distances, that come and go, and for which each hop is checked",
            real: &["flmodules DHTRouter, Kademlia, RouterNetwork, Timer, Broker"],
            stub: &["Network is replaced by simulated connections", "the other nodes in the scenario table"],
            reach: &["restarted", "direct", "broadcast", "closest", "transit", "already closest", "settled", "routed", "here"],
            scens: vec![
                crate::scen!("net", 1, gen_net, run_net),
                crate::scen!("table", 2, gen_table, run_table),
            ],
        },
    ]
}
