//! C11: messages which no correct node or server sends.
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

use flarch::nodeids::{NodeID, U256};
use flarch::web_rtc::node_connection::{NCInput, NCOutput};
use flarch::web_rtc::web_socket_client::WebSocketClient;
use flarch::web_rtc::websocket::{BrokerWSClient, WSClientIn, WSClientOut};
use flarch::web_rtc::{WebRTCConnIn, WebRTCConnOut};
use flmodules::gossip_events::core::Category;
use flmodules::network::signal::{MessageAnnounce, WSSignalMessageFromNode, WSSignalMessageToNode};
use flmodules::nodeconfig::NodeConfig;
use serde::{Deserialize, Serialize};
use serde_yaml::{Mapping, Value};
use tokio::sync::mpsc::UnboundedReceiver;

use super::world::{self, World, MIN, PORT};
use crate::case::{viol, Case, Prop, Res};
use crate::check;
use crate::rng::Rng;
use crate::sim::{as_node, on_node, quiesce, sim, sleep_ms, within};

/// The first hostile client of the signalling server
const HOSTILE: u32 = 30;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cfg {
    world: world::Cfg,
    /// In permille: only slightly changed, taken as is, or made up
    raw: u32,
    made: u32,
    /// Empty mappings: serde_yaml panics when it expects an enum instead
    empty: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// A text arrives at a node over the connection to another one
    Peer { to: u32, from: u32, count: u32, seed: u64 },
    /// A text arrives at a node from the signalling server
    Node { to: u32, count: u32, seed: u64 },
    /// A text arrives at the signalling server
    Server { from: u32, count: u32, seed: u64 },
    /// A client connects to the server
    Client { announce: bool },
    Leave { c: u32 },
    Good(world::Op),
}

fn gen(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let nodes = 2 + r.below(3) as u32;
    let node = |r: &mut Rng| 1 + r.below(nodes as u64) as u32;
    let ops = (0..5 + r.us(40))
        .map(|_| {
            let (n, seed) = (node(r), r.below(u64::MAX >> 1));
            let count = *r.pick(&[1, 1, 3, 20]);
            match r.weighted(&[12, 4, 4, 2, 1, 8]) {
                0 => Op::Peer { to: n, from: r.below(nodes as u64 + 2) as u32, count, seed },
                1 => Op::Node { to: n, count, seed },
                2 => Op::Server { from: r.below(3) as u32, count, seed },
                3 => Op::Client { announce: r.chance(700) },
                4 => Op::Leave { c: r.below(3) as u32 },
                _ => Op::Good(match r.below(6) {
                    0 | 1 => world::Op::Chat { n },
                    2 => world::Op::Realm { n },
                    3 => world::Op::Web { n },
                    _ => world::Op::Wait { ms: *r.pick(&[0, 10, 1_000, 7_000, MIN, 2 * MIN]) },
                }),
            }
        })
        .collect();
    let world = world::Cfg {
        nodes,
        lat_ms: *r.pick(&[0, 5]),
        dead_ms: 500,
        ttl: *r.pick(&[2, 2, 5]),
        ..Default::default()
    };
    let c = Cfg { world, empty: r.chance(50), raw: *r.pick(&[0, 100, 500]), made: *r.pick(&[0, 200, 700]) };
    (c, ops)
}

// ---------------------------------------------------------------- Texts

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Kind {
    Peer,
    ToNode,
    FromNode,
}

/// Texts which have been sent, by what they look like
#[derive(Default)]
struct Corpus(BTreeMap<(Kind, String), Vec<String>>);

/// The names in it
fn shape(t: &str) -> String {
    t.split(|c: char| !c.is_ascii_alphanumeric() && c != '_')
        .filter(|w| w.starts_with(|c: char| c.is_ascii_uppercase()))
        .filter(|w| w.len() < 20)
        .take(8)
        .collect::<Vec<_>>()
        .join(" ")
}

impl Corpus {
    fn add(&mut self, kind: Kind, t: String) {
        let l = self.0.entry((kind, shape(&t))).or_default();
        l.push(t);
        if l.len() > 10 {
            l.remove(0);
        }
    }
    fn pick(&self, r: &mut Rng, kind: Kind) -> Option<String> {
        let l: Vec<_> = self.0.iter().filter(|k| k.0 .0 == kind).collect();
        if l.is_empty() {
            return None;
        }
        let t = l[r.us(l.len())].1;
        Some(t[r.us(t.len())].clone())
    }
}

fn odd_string(r: &mut Rng, old: &str) -> String {
    let hex = !old.is_empty() && old.chars().all(|c| c.is_ascii_hexdigit());
    let n = r.below(if hex { 9 } else { 14 });
    match n {
        0 => "".into(),
        1 => old.chars().skip(1).collect(),
        2 => old.chars().take(r.us(old.len() + 1)).collect(),
        3 => format!("{old}{old}"),
        4 => {
            // The same length, but a character takes two bytes
            let k = r.us(old.len() + 1);
            let mut c: Vec<char> = old.chars().collect();
            let k = k.min(c.len());
            c.insert(k, 'é');
            c.into_iter().collect()
        }
        5 => {
            let mut c: Vec<char> = old.chars().collect();
            if !c.is_empty() {
                let k = r.us(c.len());
                c[k] = *r.pick(&['0', 'f', 'g', 'é', ' ', '\0', '\u{1F600}', '-']);
            }
            c.into_iter().collect()
        }
        6 => format!("0x{old}"),
        7 => "f".repeat(*r.pick(&[1, 2, 63, 64, 65, 66, 128])),
        8 => "0".repeat(64),
        9 => "---\n".into(),
        10 => "x".repeat(*r.pick(&[100, 20_000, 70_000])),
        11 => "[".repeat(10_000),
        12 => "\u{202e}\u{0}\n\r\t: -é".into(),
        _ => format!("{}: {{}}", old),
    }
}

fn leaf(r: &mut Rng) -> Value {
    match r.below(12) {
        0 => Value::Null,
        1 => Value::Bool(r.chance(500)),
        2 => Value::from(0u64),
        3 => Value::from(1u64),
        4 => Value::from(u64::MAX),
        5 => Value::from(i64::MIN),
        6 => Value::from(-1i64),
        7 => Value::from(*r.pick(&[f64::NAN, f64::INFINITY, -0.0, 1e300, -1e300])),
        8 => Value::String("".into()),
        9 => Value::Sequence(vec![]),
        10 => Value::Mapping(Mapping::new()),
        _ => Value::from(1u64 << r.below(64)),
    }
}

/// The number of places in it
fn size(v: &Value) -> u64 {
    1 + match v {
        Value::Sequence(l) => l.iter().map(size).sum(),
        Value::Mapping(m) => m.iter().map(|e| size(e.1)).sum(),
        _ => 0,
    }
}

fn change(r: &mut Rng, v: &mut Value, other: &Value) {
    // Texts in texts
    if let Value::String(s) = v {
        if s.len() > 4 && !s.contains(['&', '*']) && (s.starts_with("---") || s.starts_with('{')) && r.chance(900) {
            let json = s.starts_with('{');
            let inner = serde_yaml::from_str::<Value>(s).ok();
            // A text which is read as itself has nothing in it.
            if let Some(mut inner) = inner.filter(|i| !i.is_string()) {
                mutate(r, &mut inner, other);
                *s = print(&inner, json);
                return;
            }
        }
    }
    match (r.below(10), &mut *v) {
        (0..=4, Value::String(s)) => *s = odd_string(r, s),
        (0..=5, Value::Number(n)) => {
            *v = match (r.below(6), n.as_u64(), n.as_f64()) {
                (0, Some(n), _) => Value::from(n.wrapping_add(1)),
                (1, Some(n), _) => Value::from(n.wrapping_sub(1)),
                (2, Some(n), _) => Value::from(n.wrapping_mul(1_000_000)),
                (3, _, Some(f)) => Value::from(-f),
                _ => leaf(r),
            }
        }
        (0, Value::Sequence(l)) => l.clear(),
        (1, Value::Sequence(l)) if !l.is_empty() => {
            let n = *r.pick(&[1, 10, 300]);
            let e = l[r.us(l.len())].clone();
            if size(&e) * n < 3_000 {
                l.extend((0..n).map(|_| e.clone()));
            }
        }
        (2, Value::Sequence(l)) if !l.is_empty() => {
            let k = r.us(l.len());
            l.remove(k);
        }
        (3, Value::Sequence(l)) => {
            for k in (1..l.len()).rev() {
                l.swap(k, r.us(k + 1));
            }
        }
        (4, Value::Sequence(l)) => l.push(leaf(r)),
        (0 | 1, Value::Mapping(m)) if !m.is_empty() => {
            let k = m.iter().nth(r.us(m.len())).unwrap().0.clone();
            m.remove(&k);
        }
        (2, Value::Mapping(m)) if m.len() > 1 => {
            // Two values exchanged
            let k: Vec<_> = m.iter().map(|e| e.0.clone()).collect();
            let (a, b) = (k[r.us(k.len())].clone(), k[r.us(k.len())].clone());
            let (va, vb) = (m[&a].clone(), m[&b].clone());
            m.insert(a, vb);
            m.insert(b, va);
        }
        (3, Value::Mapping(m)) => {
            m.insert(Value::from("unknown"), leaf(r));
        }
        (6 | 7, _) => *v = part(r, other),
        (8, _) => {
            let old = v.clone();
            *v = Value::Sequence(vec![old]);
        }
        _ => *v = leaf(r),
    }
}

/// Something in it
fn part(r: &mut Rng, v: &Value) -> Value {
    let mut n = r.below(size(v));
    let mut res = v.clone();
    at(&mut res.clone(), &mut n, &mut |v| res = v.clone());
    res
}

fn at(v: &mut Value, n: &mut u64, f: &mut dyn FnMut(&mut Value)) -> bool {
    if *n == 0 {
        f(v);
        return true;
    }
    *n -= 1;
    match v {
        Value::Sequence(l) => l.iter_mut().any(|v| at(v, n, f)),
        Value::Mapping(m) => m.iter_mut().any(|v| at(v.1, n, f)),
        _ => false,
    }
}

fn mutate(r: &mut Rng, v: &mut Value, other: &Value) {
    for _ in 0..*r.pick(&[1, 1, 1, 2, 4]) {
        let mut n = r.below(size(v));
        at(v, &mut n, &mut |v| change(r, v, other));
    }
}

fn print(v: &Value, json: bool) -> String {
    if json {
        serde_json::to_string(v).unwrap_or_default()
    } else {
        serde_yaml::to_string(v).unwrap_or_default()
    }
}

fn garble(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..*r.pick(&[1, 1, 3, 10]) {
        if c.is_empty() {
            break;
        }
        let k = r.us(c.len());
        match r.below(5) {
            0 => c.truncate(k),
            1 => c[k] = *r.pick(&['0', '"', '{', '}', '[', ':', '\n', ' ', 'é', '-', '\0', '9', '&', '*', '!']),
            2 => {
                c.remove(k);
            }
            3 => c.insert(k, *r.pick(&['0', '"', '{', ']', ':', '\n', 'é', '\\', '~'])),
            _ => {
                let e = (k + r.us(20)).min(c.len());
                let p: Vec<char> = c[k..e].to_vec();
                c.splice(k..k, p);
            }
        }
    }
    c.into_iter().collect()
}

fn wrap(module: &str, msg: &str) -> String {
    let mut m = Mapping::new();
    m.insert("module".into(), module.into());
    m.insert("msg".into(), msg.into());
    serde_yaml::to_string(&Value::Mapping(m)).unwrap()
}

/// Texts which nobody sends
fn made_up(r: &mut Rng, kind: Kind, ids: &[NodeID]) -> String {
    let id = |r: &mut Rng| match r.below(4) {
        0 => "0".repeat(64),
        1 => odd_string(r, &"a1".repeat(32)),
        _ => format!("{:x}", r.pick(ids)),
    };
    let module = *r.pick(&["Network", "DHTRouter", "Gossip", "WebProxy", "DHTStorage", "Random", ""]);
    let list = |r: &mut Rng| {
        let n = *r.pick(&[0, 1, 2, 200]);
        (0..n).map(|_| format!("\n  - {}", id(r))).collect::<String>()
    };
    match kind {
        Kind::Peer => {
            let t = match r.below(24) {
                0 => format!("SignalIn:\n  Message: {}", id(r)),
                1 => "SignalIn: Disconnect".into(),
                2 => "SignalOut: Disconnect".into(),
                3 => format!("SignalOut:\n  Message: {}", id(r)),
                4 => "DropConnection".into(),
                5 => "Ping".into(),
                6 => "Pong".into(),
                7 => "ConnectedIDsRequest".into(),
                8 => format!("ConnectedIDsReply:{}", list(r)),
                9 => format!("KnownEventIDs:{}", list(r)),
                10 => format!("RequestEvents:{}", list(r)),
                11 => "RequestEventIDs".into(),
                12 => format!(
                    "Events:\n  - category: {}\n    src: {}\n    created: {}\n    msg: {}",
                    r.pick(&["TextMessage", "NodeInfo"]),
                    id(r),
                    r.pick(&["0", "-1", ".nan", ".inf", "-.inf", "1e308", "~"]),
                    r.pick(&["\"\"", "a", "\"{}\"", "\"---\\n\""])
                ),
                13 => format!("Request:\n  - {}\n  - {}", id(r), r.pick(&["\"\"", "http://web/é", "ftp:", "\"\\0\""])),
                14 => format!(
                    "Response:\n  - {}\n  - {}",
                    id(r),
                    r.pick(&["Done", "Body: \"\"", "Body: [1, 2]", "Error: e", "Body: é"])
                ),
                15 => format!(
                    "Response:\n  - {}\n  - Header:\n      proxy: {}\n      status: {}\n      headers: []",
                    id(r),
                    id(r),
                    r.pick(&["0", "200", "70000", "-1"])
                ),
                16 => {
                    // Messages in messages
                    let mut t = "Ping".to_string();
                    for _ in 0..*r.pick(&[1, 2, 5, 9]) {
                        t = format!("Neighbour:\n{}", wrap("DHTRouter", &t).replace("---", "").replace('\n', "\n  "));
                    }
                    t
                }
                17 => format!(
                    "{}:\n  - {}\n  - {}\n  - module: {}\n    msg: x",
                    r.pick(&["Closest", "Direct"]),
                    id(r),
                    id(r),
                    r.pick(&["DHTStorage", "DHTRouter", "Gossip", ""])
                ),
                18 => "RequestRealmIDs".into(),
                19 => format!("AvailableRealmIDs:{}", list(r)),
                20 => format!("RequestFloMetas: {}", id(r)),
                21 => format!("AvailableFlos:\n  - {}\n  - []", id(r)),
                22 => "[".repeat(*r.pick(&[1, 200, 20_000])),
                _ => {
                    // Grows when it is read
                    let mut t = "a: &a [x, x, x, x, x, x, x, x, x]\n".to_string();
                    for (a, b) in ["ab", "bc", "cd", "de", "ef", "fg", "gh", "hi"].iter().map(|s| s.split_at(1)) {
                        t += &format!("{b}: &{b} [*{a}, *{a}, *{a}, *{a}, *{a}, *{a}, *{a}, *{a}, *{a}]\n");
                    }
                    t
                }
            };
            if r.chance(100) {
                return t;
            }
            if r.chance(400) {
                let inner: Value = serde_yaml::from_str(&wrap(module, &t)).unwrap();
                let mut m = Mapping::new();
                m.insert(Value::from(*r.pick(&["Module", "Neighbour"])), inner);
                return wrap(
                    r.pick(&["Network", "Network", "DHTRouter"]),
                    &serde_yaml::to_string(&Value::Mapping(m)).unwrap(),
                );
            }
            wrap(module, &t)
        }
        Kind::ToNode => match r.below(9) {
            0 => format!("{{\"Challenge\":[{},\"{}\"]}}", r.pick(&["0", "2", "3", "4", "18446744073709551615"]), id(r)),
            1 => "{\"ListIDsReply\":[]}".into(),
            2 => format!("{{\"Error\":\"{}\"}}", id(r)),
            3 => "{\"SystemConfig\":{\"system_realm\":null}}".into(),
            4 => format!("{{\"SystemConfig\":{{\"system_realm\":\"{}\"}}}}", id(r)),
            5 | 6 => format!(
                "{{\"PeerSetup\":{{\"id_init\":\"{}\",\"id_follow\":\"{}\",\"message\":{}}}}}",
                id(r),
                id(r),
                r.pick(&["\"Init\"", "{\"Offer\":\"\"}", "{\"Answer\":\"x\"}", "{\"IceCandidate\":\"\"}"])
            ),
            7 => "[".repeat(*r.pick(&[1, 200, 20_000])),
            _ => "".into(),
        },
        Kind::FromNode => match r.below(8) {
            0 => "\"ListIDsRequest\"".into(),
            1 => "{\"NodeStats\":[]}".into(),
            2 => format!(
                "{{\"NodeStats\":[{{\"id\":\"{}\",\"version\":\"\",\"ping_ms\":4294967296,\"ping_rx\":-1}}]}}",
                id(r)
            ),
            3 | 4 => format!(
                "{{\"PeerSetup\":{{\"id_init\":\"{}\",\"id_follow\":\"{}\",\"message\":{}}}}}",
                id(r),
                id(r),
                r.pick(&["\"Init\"", "{\"Offer\":\"\"}", "{\"Answer\":\"x\"}", "{\"IceCandidate\":\"\"}"])
            ),
            5 => "[".repeat(*r.pick(&[1, 200, 20_000])),
            6 => "null".into(),
            _ => "{\"Announce\":{}}".into(),
        },
    }
}

// ---------------------------------------------------------------- Runs

struct Client {
    node: u32,
    ws: BrokerWSClient,
    rx: UnboundedReceiver<WSClientOut>,
}

struct Hostile {
    cfg: Cfg,
    w: World,
    corpus: Corpus,
    taps: Vec<(Kind, Box<dyn FnMut() -> Vec<String>>)>,
    clients: Vec<Client>,
    next: u32,
}

impl Hostile {
    /// Reads what the nodes and the server send
    async fn listen(&mut self, n: u32) {
        let Some(mut c) = self.w.conns.get(&n).cloned() else {
            return;
        };
        let taps = on_node(n, async move {
            (
                c.ws.get_tap_out().await,
                c.ws.get_tap_in().await,
                c.rtc.get_tap_out().await,
                c.rtc.get_tap_in().await,
            )
        })
        .await;
        let Some((Ok((mut a, _)), Ok((mut b, _)), Ok((mut c, _)), Ok((mut d, _)))) = taps else {
            return;
        };
        fn all<T>(r: &mut UnboundedReceiver<T>) -> Vec<T> {
            std::iter::from_fn(|| r.try_recv().ok()).collect()
        }
        self.taps.push((
            Kind::ToNode,
            Box::new(move || {
                all(&mut a)
                    .into_iter()
                    .filter_map(|m| match m {
                        WSClientOut::Message(t) => Some(t),
                        _ => None,
                    })
                    .collect()
            }),
        ));
        self.taps.push((
            Kind::FromNode,
            Box::new(move || {
                all(&mut b)
                    .into_iter()
                    .filter_map(|m| match m {
                        WSClientIn::Message(t) => Some(t),
                        _ => None,
                    })
                    .collect()
            }),
        ));
        self.taps.push((
            Kind::Peer,
            Box::new(move || {
                all(&mut c)
                    .into_iter()
                    .filter_map(|m| match m {
                        WebRTCConnOut::Message(_, NCOutput::Text(t)) => Some(t),
                        _ => None,
                    })
                    .collect()
            }),
        ));
        self.taps.push((
            Kind::Peer,
            Box::new(move || {
                all(&mut d)
                    .into_iter()
                    .filter_map(|m| match m {
                        WebRTCConnIn::Message(_, NCInput::Text(t)) => Some(t),
                        _ => None,
                    })
                    .collect()
            }),
        ));
    }

    fn hear(&mut self) {
        for (kind, tap) in &mut self.taps {
            for t in tap() {
                self.corpus.add(*kind, t);
            }
        }
    }

    fn text(&mut self, r: &mut Rng, kind: Kind) -> String {
        let ids: Vec<NodeID> = self.w.ids.values().copied().collect();
        if r.chance(self.cfg.made) {
            return made_up(r, kind, &ids);
        }
        let Some(t) = self.corpus.pick(r, kind) else {
            return made_up(r, kind, &ids);
        };
        let other = self.corpus.pick(r, kind).unwrap();
        if r.chance(self.cfg.raw) {
            return t;
        }
        // With aliases, texts grow when they are read.
        if t.contains(['&', '*']) || other.contains(['&', '*']) {
            return garble(r, &t);
        }
        let (Ok(mut v), Ok(o)) =
            (serde_yaml::from_str::<Value>(&t), serde_yaml::from_str::<Value>(&other))
        else {
            return garble(r, &t);
        };
        if r.chance(200) {
            return garble(r, &t);
        }
        mutate(r, &mut v, &o);
        print(&v, kind != Kind::Peer)
    }

    async fn client(&mut self, announce: bool) -> Res {
        if self.clients.len() >= 3 {
            return Ok(());
        }
        let n = HOSTILE + self.next % 20;
        self.next += 1;
        let s = sim();
        if !s.node(n).alive.get() {
            s.revive(n);
        }
        let r = within(
            20_000,
            on_node(n, async {
                let mut ws = WebSocketClient::connect(&format!("ws://localhost:{PORT}")).await?;
                let (rx, _) = ws.get_tap_out().await?;
                anyhow::Ok((ws, rx))
            }),
        )
        .await;
        let Some(Some(Ok((mut ws, mut rx)))) = r else {
            return viol("a client cannot connect", format!("client {n}"));
        };
        if announce {
            let challenge = within(20_000, async {
                loop {
                    if let Some(WSClientOut::Message(t)) = rx.recv().await {
                        if let Ok(WSSignalMessageToNode::Challenge(v, c)) = serde_json::from_str(&t)
                        {
                            return (v, c);
                        }
                    }
                }
            })
            .await;
            let Some((version, challenge)) = challenge else {
                return viol("the signalling server sends no challenge", format!("client {n}"));
            };
            as_node(n, || {
                let nc = NodeConfig::new();
                let m = WSSignalMessageFromNode::Announce(MessageAnnounce {
                    version,
                    challenge,
                    node_info: nc.info.clone(),
                    signature: nc.sign(challenge.to_bytes()),
                });
                ws.emit_msg_in(WSClientIn::Message(serde_json::to_string(&m).unwrap())).ok();
            });
            s.probe("hostile client announced");
        }
        self.clients.push(Client { node: n, ws, rx });
        Ok(())
    }

    fn leave(&mut self, c: usize) {
        let c = self.clients.remove(c);
        sim().kill(c.node);
    }

    async fn op(&mut self, op: Op) -> Res {
        let s = sim();
        self.hear();
        let w = |n: u32| 1 + (n.max(1) - 1) % self.cfg.world.nodes;
        match op {
            Op::Peer { to, from, count, seed } => {
                let to = w(to);
                let mut r = Rng::new(seed);
                let id = match self.w.ids.get(&(from + 1)) {
                    Some(id) if from + 1 != to => *id,
                    _ => as_node(to, U256::rnd),
                };
                for _ in 0..count {
                    let mut t = self.text(&mut r, Kind::Peer);
                    if !self.cfg.empty {
                        t = t.replace("{}", "{ a: 1 }");
                    }
                    s.did("text-from-peer");
                    s.note(|| format!("hostile to {to}: {t:?}"));
                    let Some(c) = self.w.conns.get_mut(&to) else { continue };
                    as_node(to, || {
                        c.rtc.emit_msg_out(WebRTCConnOut::Message(id, NCOutput::Text(t))).ok();
                    });
                    if r.chance(300) {
                        quiesce().await;
                    }
                }
            }
            Op::Node { to, count, seed } => {
                let to = w(to);
                let mut r = Rng::new(seed);
                for _ in 0..count {
                    let t = self.text(&mut r, Kind::ToNode);
                    // The server may decide that a node takes other realms only.
                    let other_realms = matches!(
                        serde_json::from_str(&t),
                        Ok(WSSignalMessageToNode::SystemConfig(c)) if c.system_realm.is_some()
                    );
                    if other_realms {
                        continue;
                    }
                    s.did("text-from-server");
                    s.note(|| format!("hostile to {to}: {t:?}"));
                    let Some(c) = self.w.conns.get_mut(&to) else { continue };
                    as_node(to, || {
                        c.ws.emit_msg_out(WSClientOut::Message(t)).ok();
                    });
                    if r.chance(300) {
                        quiesce().await;
                    }
                }
            }
            Op::Server { from, count, seed } => {
                if self.clients.is_empty() {
                    return Ok(());
                }
                let mut r = Rng::new(seed);
                let k = from as usize % self.clients.len();
                while let Ok(m) = self.clients[k].rx.try_recv() {
                    if let WSClientOut::Message(t) = m {
                        // A node that signs the challenge of another connection is
                        // replaced by that one.
                        if t.contains("Challenge") {
                            continue;
                        }
                        self.corpus.add(Kind::ToNode, t);
                    }
                }
                for _ in 0..count {
                    let t = self.text(&mut r, Kind::FromNode);
                    s.did("text-to-server");
                    s.note(|| format!("hostile to server: {t:?}"));
                    let c = &mut self.clients[k];
                    as_node(c.node, || {
                        c.ws.emit_msg_in(WSClientIn::Message(t)).ok();
                    });
                }
            }
            Op::Client { announce } => self.client(announce).await?,
            Op::Leave { c } => {
                if !self.clients.is_empty() {
                    self.leave(c as usize % self.clients.len());
                }
            }
            Op::Good(op) => self.w.op_unchecked(op).await?,
        }
        Ok(())
    }

    /// What does not work
    async fn missing(&mut self, text: &str) -> Result<Option<(&'static str, String)>, crate::case::Viol> {
        for n in 1..=self.cfg.world.nodes {
            let Some(node) = self.w.live.get(&n) else {
                return Ok(Some(("a node does not run", format!("node {n}"))));
            };
            let others: BTreeSet<NodeID> =
                self.w.ids.iter().filter(|i| *i.0 != n).map(|i| *i.1).collect();
            let (online, connected, infos) = as_node(n, || {
                (node.nodes_online(), node.nodes_connected(), node.nodes_info_all())
            });
            // What gossip says about the nodes is not signed, so it can be wrong.
            let (Ok(_), Ok(_), Ok(_)) = (online, connected, infos) else {
                return Ok(Some(("a node has no lists of nodes", format!("node {n}"))));
            };
            let (online, connected) = as_node(n, || {
                let r = node.random.as_ref().unwrap();
                let s = r.stats.borrow();
                (s.known.0.clone(), s.connected.get_nodes().0)
            });
            let online: BTreeSet<_> = online.into_iter().collect();
            // Nodes which nobody tried to reach stay in the list.
            if !others.is_subset(&online) {
                return Ok(Some((
                    "a node does not know which nodes are online",
                    format!("node {n}: {:?}", others.difference(&online).collect::<Vec<_>>()),
                )));
            }
            if !connected.iter().any(|c| others.contains(c)) {
                return Ok(Some(("a node is not connected", format!("node {n}: {connected:?}"))));
            }
            let chat = as_node(n, || node.gossip.as_ref().unwrap().events(Category::TextMessage));
            if chat.len() < 50 && !chat.iter().any(|e| e.msg == text) {
                return Ok(Some(("a chat message is missing", format!("node {n}"))));
            }
        }
        Ok(None)
    }
}

async fn run(case: Rc<Case>) -> Res {
    let cfg: Cfg = case.cfg();
    let s = sim();
    let mut h = Hostile {
        w: World::new(cfg.world.clone()),
        cfg,
        corpus: Default::default(),
        taps: vec![],
        clients: vec![],
        next: 0,
    };
    h.w.start_server().await?;
    for n in 1..=h.cfg.world.nodes {
        h.w.start(n).await?;
        h.listen(n).await;
    }
    sleep_ms(10_000).await;
    for op in case.ops::<Op>() {
        h.op(op).await?;
    }
    s.calm.set(true);
    while !h.clients.is_empty() {
        h.leave(0);
    }
    quiesce().await;
    h.hear();
    let n = 1 + (case.seed % h.cfg.world.nodes as u64) as u32;
    let text = "written at the end".to_string();
    let r = {
        let node = h.w.live.get_mut(&n).unwrap();
        within(60_000, on_node(n, node.add_chat_message(text.clone()))).await
    };
    check!(matches!(r, Some(Some(Ok(_)))), "writing a message fails", "node {n}");
    let mut left = 30;
    while let Some((kind, msg)) = h.missing(&text).await? {
        if left == 0 {
            return viol(&format!("{kind} long after the last wrong message"), msg);
        }
        left -= 1;
        sleep_ms(MIN).await;
    }
    for n in 1..=h.cfg.world.nodes {
        h.w.web_works(n).await?;
        h.w.realm_works(n).await?;
    }
    s.probe("works");
    for k in h.corpus.0.keys() {
        s.probe(match k.0 {
            Kind::Peer => "shape of peer",
            Kind::ToNode => "shape to node",
            Kind::FromNode => "shape from node",
        });
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C11",
        rule: "2 to 4 complete nodes and the signalling server exchange what they usually do, while texts arrive at the nodes over their connections, from the signalling server, and at the server from clients which announced themselves or not: texts that were heard before, changed in one or several places of their (nested) structure or in their characters, repeated, sent to others, and made up; afterwards all nodes must be listed and connected, and chat messages, realms and web requests must work",
        real: &["flnode Node with all its modules", "flmodules Network, SignalServer, Timer and all others", "flarch WebRTCConn, NodeConnection, WebSocketServer, WebSocketClient, DataStorageFile, Broker", "tokio-tungstenite, serde_yaml, serde_json"],
        stub: &["the webrtc library: simulated data channels", "TCP is simulated", "web server and HTTP client"],
        reach: &["works", "hostile client announced", "shape of peer", "shape to node", "shape from node"],
        scens: vec![crate::scen!("texts", 1, gen, run)],
    }]
}
