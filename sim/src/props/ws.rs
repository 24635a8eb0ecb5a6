//! C12: the websocket server and its clients, over simulated TCP.
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

use flarch::web_rtc::web_socket_client::WebSocketClient;
use flarch::web_rtc::web_socket_server::WebSocketServer;
use flarch::web_rtc::websocket::{
    BrokerWSClient, BrokerWSServer, WSClientIn, WSClientOut, WSServerIn, WSServerOut,
};
use futures::{SinkExt, StreamExt};
use serde::{Deserialize, Serialize};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio_tungstenite::tungstenite::Message;

use super::util::{go, Bad};
use crate::case::{viol, Case, Prop, Res, Viol};
use crate::check;
use crate::net::connect_raw;
use crate::rng::Rng;
use crate::sim::{as_node, on_node, quiesce, sim, sleep_ms, within};

const SRV: u32 = 1;
const PORT: u16 = 8765;
const RAW: u32 = 20;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cfg {
    clients: u32,
    cap: usize,
    partial: u32,
    lat_us: u64,
    rush: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Send { c: u32, n: u32, len: u32 },
    Srv { c: u32, n: u32, len: u32 },
    /// The server closes the connection
    Close { c: u32 },
    Disc { c: u32 },
    Conn { c: u32 },
    Evil { kind: u32, x: u32 },
    /// Sends to some connection, mostly one of those who do not read
    Flood { k: u32, n: u32, len: u32 },
    Reset { k: u32 },
    Cut { c: u32 },
    Heal,
    Kill { c: u32 },
    Restart,
    Stall { c: u32, ms: u64 },
    Wait { ms: u64 },
}

fn gen_ops(r: &mut Rng, faults: u32) -> Vec<Op> {
    let evil = *r.pick(&[0, 1, 3]);
    (0..5 + r.us(35))
        .map(|_| {
            let c = r.below(6) as u32;
            let len = match r.weighted(&[6, 2, 1]) {
                0 => r.below(40) as u32,
                1 => r.below(3_000) as u32,
                _ => r.below(100_000) as u32,
            };
            let n = 1 + r.below(4) as u32;
            match r.weighted(&[
                12,
                10,
                2 * faults,
                2 * faults,
                3 * faults,
                4 * evil,
                3 * evil,
                3 * faults,
                faults,
                2 * faults,
                faults,
                faults,
                1,
                5,
            ]) {
                0 => Op::Send { c, n, len },
                1 => Op::Srv { c, n, len },
                2 => Op::Close { c },
                3 => Op::Disc { c },
                4 => Op::Conn { c },
                5 => Op::Evil {
                    kind: r.below(9) as u32,
                    x: r.below(1000) as u32,
                },
                6 => Op::Flood {
                    k: r.below(20) as u32,
                    n: 1 + r.below(20) as u32,
                    len: r.below(9_000) as u32,
                },
                7 => Op::Reset {
                    k: r.below(20) as u32,
                },
                8 => Op::Cut { c },
                9 => Op::Heal,
                10 => Op::Kill { c },
                11 => Op::Restart,
                12 => Op::Stall {
                    c,
                    ms: *r.pick(&[50, 2_000]),
                },
                _ => Op::Wait {
                    ms: *r.pick(&[0, 20, 1_500, 15_000]),
                },
            }
        })
        .collect()
}

fn gen_cfg(r: &mut Rng) -> Cfg {
    Cfg {
        clients: 1 + r.below(4) as u32,
        cap: *r.pick(&[65_536, 65_536, 4_000, 500]),
        partial: *r.pick(&[0, 0, 100, 500]),
        lat_us: *r.pick(&[0, 2_000, 20_000, 200_000]),
        rush: *r.pick(&[0, 500, 900]),
    }
}

fn gen_apart(r: &mut Rng) -> (Cfg, Vec<Op>) {
    (gen_cfg(r), gen_ops(r, 0))
}

fn gen_faults(r: &mut Rng) -> (Cfg, Vec<Op>) {
    (gen_cfg(r), gen_ops(r, 1))
}

#[derive(Default, Clone)]
struct ConnState {
    /// Which client, and its incarnation, this is
    client: Option<(u32, u32)>,
    /// Number of the last message in this direction
    last_in: Option<u64>,
    last_out: Option<u64>,
    sent_out: u64,
    gone: bool,
    closed: bool,
}

#[derive(Default)]
struct Shared {
    /// By epoch of the server and number
    conns: BTreeMap<(u32, usize), ConnState>,
    /// What was sent by client, incarnation, number
    up: BTreeMap<(u32, u32, u64), String>,
    down: BTreeMap<(u32, usize, u64), String>,
    /// Arrived
    got_up: BTreeSet<(u32, u32, u64)>,
    got_down: BTreeSet<(u32, usize, u64)>,
    disconnects: BTreeMap<(u32, u32), u32>,
    raw_up: BTreeSet<String>,
}

struct Client {
    broker: Option<BrokerWSClient>,
    inc: u32,
    sent: u64,
    /// Told to be disconnected
    off: bool,
    disc_told: u32,
}

struct World {
    cfg: Cfg,
    server: Option<BrokerWSServer>,
    epoch: u32,
    clients: Vec<Client>,
    sh: Arc<Mutex<Shared>>,
    bad: Bad,
    raw_n: u32,
    r: Rng,
    cut: BTreeSet<u32>,
    /// The first client can be relied on from this message on
    clean: Option<(u32, u64)>,
    /// And these messages from the server must arrive
    clean_down: Vec<(u32, usize, u64)>,
}

fn pad(r: &mut Rng, len: u32) -> String {
    const PARTS: [&str; 6] = ["abc ", "{\"x\":1}", "\u{e9}", "\u{1f600}", "\0", "\r\n"];
    let mut s = String::new();
    let p = *r.pick(&PARTS);
    while s.len() < len as usize {
        s.push_str(if r.chance(900) { p } else { *r.pick(&PARTS) });
    }
    s
}

impl World {
    fn conn_addr() -> String {
        format!("ws://localhost:{PORT}")
    }

    async fn start_server(&mut self) -> Res {
        let e = self.epoch;
        let w = within(20_000, on_node(SRV, WebSocketServer::new(PORT))).await;
        let Some(Some(Ok(mut srv))) = w else {
            return viol("the server does not start", "");
        };
        let (mut tap, _) = on_node(SRV, srv.get_tap_out()).await.unwrap().unwrap();
        let (sh, bad) = (self.sh.clone(), self.bad.clone());
        go(0, async move {
            while let Some(m) = tap.recv().await {
                let mut sh = sh.lock().unwrap();
                if let Err(v) = sh.from_server(e, m) {
                    bad.set(&v.kind, v.msg);
                }
            }
        });
        self.server = Some(srv);
        Ok(())
    }

    async fn start_client(&mut self, c: u32) -> Res {
        let node = 2 + c;
        let inc = self.clients[c as usize].inc;
        let w = within(
            20_000,
            on_node(node, WebSocketClient::connect(&Self::conn_addr())),
        )
        .await;
        let mut cl = match w {
            Some(Some(Ok(cl))) => cl,
            _ => return viol("the client does not start", format!("client {c}")),
        };
        let (mut tap, _) = on_node(node, cl.get_tap_out()).await.unwrap().unwrap();
        let (sh, bad) = (self.sh.clone(), self.bad.clone());
        go(0, async move {
            while let Some(m) = tap.recv().await {
                let mut sh = sh.lock().unwrap();
                if let Err(v) = sh.from_client(c, inc, m) {
                    bad.set(&v.kind, v.msg);
                }
            }
        });
        let cl_s = &mut self.clients[c as usize];
        cl_s.broker = Some(cl);
        cl_s.sent = 0;
        cl_s.off = false;
        cl_s.disc_told = 0;
        Ok(())
    }

    async fn new(cfg: Cfg, seed: u64) -> Result<Self, Viol> {
        let s = sim();
        s.net.cfg.tcp_cap.set(cfg.cap);
        s.net.cfg.partial.set(cfg.partial);
        s.net.cfg.lat_var_us.set(cfg.lat_us);
        let mut w = World {
            clients: (0..cfg.clients)
                .map(|_| Client {
                    broker: None,
                    inc: 0,
                    sent: 0,
                    off: false,
                    disc_told: 0,
                })
                .collect(),
            cfg,
            server: None,
            epoch: 0,
            sh: Default::default(),
            bad: Bad::new(),
            raw_n: 0,
            r: Rng::stream(seed, "texts"),
            cut: Default::default(),
            clean: None,
            clean_down: vec![],
        };
        w.start_server().await?;
        for c in 0..w.cfg.clients {
            w.start_client(c).await?;
        }
        w.clean_up().await?;
        Ok(w)
    }

    fn len(&self, len: u32) -> u32 {
        // What does not arrive in a second is not useful.
        let lat = (self.cfg.lat_us / 1000 + 1) as usize;
        len.min((self.cfg.cap * (4_000 / (lat + 10)).max(8)) as u32 / 8)
    }

    fn send_up(&mut self, c: u32, len: u32) -> (u32, u32, u64) {
        let len = self.len(len);
        let p = pad(&mut self.r, len);
        let cl = &mut self.clients[c as usize];
        let k = cl.sent;
        cl.sent += 1;
        let t = format!("c:{c}:{}:{k}:{p}", cl.inc);
        let key = (c, cl.inc, k);
        self.sh.lock().unwrap().up.insert(key, t.clone());
        if let Some(b) = cl.broker.as_mut() {
            as_node(2 + c, || {
                let _ = b.emit_msg_in(WSClientIn::Message(t));
            });
        }
        key
    }

    fn send_down(&mut self, id: usize, len: u32) -> (u32, usize, u64) {
        let len = self.len(len);
        let p = pad(&mut self.r, len);
        let e = self.epoch;
        let mut sh = self.sh.lock().unwrap();
        let k = {
            let c = sh.conns.entry((e, id)).or_default();
            c.sent_out += 1;
            c.sent_out - 1
        };
        let t = format!("s:{e}:{id}:{k}:{p}");
        sh.down.insert((e, id, k), t.clone());
        drop(sh);
        as_node(SRV, || {
            let _ = self.server.as_mut().unwrap().emit_msg_in(WSServerIn::Message(id, t));
        });
        (e, id, k)
    }

    fn id_of(&self, c: u32) -> Option<usize> {
        let inc = self.clients[c as usize].inc;
        self.sh
            .lock()
            .unwrap()
            .conns
            .iter()
            .rev()
            .find(|((e, _), s)| *e == self.epoch && s.client == Some((c, inc)) && !s.gone && !s.closed)
            .map(|((_, id), _)| *id)
    }

    /// Waits until something sent by the client arrives.
    async fn connected(&mut self, c: u32, ms: u64) -> Option<u64> {
        let end = sim().now_ms() + ms;
        while sim().now_ms() < end {
            let key = self.send_up(c, 0);
            for _ in 0..6 {
                sleep_ms(500).await;
                if self.sh.lock().unwrap().got_up.contains(&key) {
                    return Some(key.2);
                }
                if self.bad.res().is_err() {
                    return None;
                }
            }
        }
        None
    }

    /// The first client is never disturbed itself.
    async fn clean_up(&mut self) -> Res {
        let k = self.connected(0, 30_000).await;
        self.bad.res()?;
        let Some(k) = k else {
            return viol(
                "a client cannot connect to a server that is there",
                "the first client",
            );
        };
        self.clean = Some((self.clients[0].inc, k));
        self.clean_down.clear();
        Ok(())
    }

    fn arrived(&self) -> bool {
        let sh = self.sh.lock().unwrap();
        self.clean.is_none_or(|(inc, from)| {
            (from..self.clients[0].sent).all(|k| sh.got_up.contains(&(0, inc, k)))
        }) && self.clean_down.iter().all(|k| sh.got_down.contains(k))
    }

    async fn settle(&mut self) -> Res {
        quiesce().await;
        sleep_ms(4_000).await;
        quiesce().await;
        for _ in 0..10 {
            if self.arrived() {
                break;
            }
            sleep_ms(2_000).await;
        }
        self.bad.res()?;
        let sh = self.sh.lock().unwrap();
        if let Some((inc, from)) = self.clean {
            for k in from..self.clients[0].sent {
                check!(
                    sh.got_up.contains(&(0, inc, k)),
                    "a message to the server is lost although the connection is up",
                    "number {k} of the first client"
                );
            }
            sim().probe("clean-checked");
        }
        for k in self.clean_down.drain(..) {
            check!(
                sh.got_down.contains(&k),
                "a message to a client is lost although the connection is up",
                "number {} on connection {}",
                k.2,
                k.1
            );
            sim().probe("clean-down-checked");
        }
        drop(sh);
        if self.clean.is_some() {
            let id = self.id_of(0);
            check!(
                id.is_some(),
                "the connection of a client that was not disturbed is gone",
                ""
            );
        }
        Ok(())
    }

    fn evil(&mut self, kind: u32, x: u32) {
        sim().did("hostile-client");
        self.raw_n += 1;
        let node = RAW + self.raw_n % 20;
        let sh = self.sh.clone();
        let tag = self.raw_n;
        let lat = self.cfg.lat_us / 500 + 100;
        go(node, async move {
            let Ok(mut tcp) = connect_raw(node, &World::conn_addr()).await else {
                return;
            };
            let hello = format!(
                "GET / HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nX-{tag}: 1\r\n\r\n"
            );
            match kind {
                // Says nothing
                0 => {
                    sleep_ms(3_600_000).await;
                }
                // Comes and goes
                1 => drop(tcp),
                // Starts a handshake, and stops
                2 => {
                    let n = x as usize % hello.len();
                    let _ = tcp.write_all(&hello.as_bytes()[..n]).await;
                    if x % 2 == 0 {
                        sleep_ms(3_600_000).await;
                    }
                }
                // No handshake
                3 => {
                    let _ = tcp.write_all(&vec![x as u8; 2000]).await;
                    sleep_ms(5_000).await;
                }
                // A handshake, and then rubbish
                4 => {
                    let _ = tcp.write_all(hello.as_bytes()).await;
                    sleep_ms(lat).await;
                    let mut r = Rng::new(x as u64);
                    let b: Vec<u8> = (0..1 + x % 40).map(|_| r.u64() as u8).collect();
                    let _ = tcp.write_all(&b).await;
                    sleep_ms(if x % 3 == 0 { 100_000 } else { 0 }).await;
                }
                // A handshake, and gone
                5 => {
                    let _ = tcp.write_all(hello.as_bytes()).await;
                    sleep_ms(x as u64 % (2 * lat)).await;
                }
                // Never reads
                6 => {
                    let _ = tcp.write_all(hello.as_bytes()).await;
                    sleep_ms(3_600_000).await;
                }
                // Half a message
                7 => {
                    let _ = tcp.write_all(hello.as_bytes()).await;
                    sleep_ms(lat).await;
                    let _ = tcp.write_all(&[0x81, 0xfe, 0x10, 0x00, 1, 2, 3, 4, 5]).await;
                    let mut b = [0u8; 10];
                    let _ = tcp.read(&mut b).await;
                    sleep_ms(50_000).await;
                }
                // A proper client that leaves in its own way
                _ => {
                    let Ok((mut ws, _)) =
                        tokio_tungstenite::client_async("ws://localhost/", tcp).await
                    else {
                        return;
                    };
                    for i in 0..x % 4 {
                        let t = format!("raw {tag} {i}");
                        sh.lock().unwrap().raw_up.insert(t.clone());
                        let _ = ws.send(Message::text(t)).await;
                        let _ = ws.send(Message::binary(vec![1, 2, 3])).await;
                        let _ = ws.send(Message::Ping(vec![1].into())).await;
                    }
                    if x % 5 == 0 {
                        let _ = ws.close(None).await;
                    }
                    if x % 7 == 0 {
                        while let Some(Ok(_)) = ws.next().await {}
                    }
                }
            }
        });
    }

    async fn op(&mut self, op: Op) -> Res {
        let s = sim();
        let nc = self.clients.len() as u32;
        // The first client is only disturbed together with the server.
        let other = |c: u32| if nc > 1 { Some(1 + c % (nc - 1)) } else { None };
        match op {
            Op::Send { c, n, len } => {
                for _ in 0..n {
                    self.send_up(c % nc, len);
                }
            }
            Op::Srv { c, n, len } => {
                let c = c % nc;
                if let Some(id) = self.id_of(c) {
                    for _ in 0..n {
                        let k = self.send_down(id, len);
                        if c == 0 {
                            self.clean_down.push(k);
                        }
                    }
                }
            }
            Op::Close { c } => {
                if let Some(id) = other(c).and_then(|c| self.id_of(c)) {
                    s.probe("closed-by-server");
                    as_node(SRV, || {
                        let _ = self.server.as_mut().unwrap().emit_msg_in(WSServerIn::Close(id));
                    });
                    self.sh
                        .lock()
                        .unwrap()
                        .conns
                        .get_mut(&(self.epoch, id))
                        .unwrap()
                        .closed = true;
                    // Sent afterwards: must not go anywhere
                    if c > 3 {
                        self.send_down(id, 10);
                    }
                }
            }
            Op::Disc { c } => {
                if let Some(c) = other(c) {
                    let cl = &mut self.clients[c as usize];
                    if let Some(b) = cl.broker.as_mut() {
                        s.probe("client-disconnects");
                        cl.off = true;
                        cl.disc_told += 1;
                        as_node(2 + c, || {
                            let _ = b.emit_msg_in(WSClientIn::Disconnect);
                        });
                    }
                }
            }
            Op::Conn { c } => {
                if let Some(c) = other(c) {
                    let cl = &mut self.clients[c as usize];
                    if let Some(b) = cl.broker.as_mut() {
                        s.probe("client-connects");
                        cl.off = false;
                        as_node(2 + c, || {
                            let _ = b.emit_msg_in(WSClientIn::Connect);
                        });
                    }
                }
            }
            Op::Evil { kind, x } => self.evil(kind, x),
            Op::Flood { k, n, len } => {
                let ids: Vec<usize> = {
                    let sh = self.sh.lock().unwrap();
                    sh.conns
                        .iter()
                        .filter(|((e, _), s)| *e == self.epoch && s.client.is_none() && !s.gone)
                        .map(|((_, id), _)| *id)
                        .collect()
                };
                if !ids.is_empty() {
                    let id = ids[k as usize % ids.len()];
                    s.probe("flood");
                    for _ in 0..n {
                        self.send_down(id, len);
                    }
                }
            }
            Op::Reset { k } => {
                let l: Vec<u64> = s
                    .net
                    .tcp_list()
                    .iter()
                    .filter(|(_, a, b)| *a != 2 && *b != 2)
                    .map(|(id, _, _)| *id)
                    .collect();
                if !l.is_empty() {
                    s.did("tcp-reset");
                    s.net.tcp_reset(l[k as usize % l.len()]);
                }
            }
            Op::Cut { c } => {
                if let Some(c) = other(c) {
                    s.did("partition");
                    self.cut.insert(c);
                    s.net.block(SRV, 2 + c);
                }
            }
            Op::Heal => {
                for c in std::mem::take(&mut self.cut) {
                    s.net.unblock(SRV, 2 + c);
                }
            }
            Op::Kill { c } => {
                if let Some(c) = other(c) {
                    s.did("crash");
                    s.kill(2 + c);
                    s.revive(2 + c);
                    self.clients[c as usize].inc += 1;
                    self.clients[c as usize].broker = None;
                    self.start_client(c).await?;
                }
            }
            Op::Restart => {
                self.settle().await?;
                s.did("server-crash");
                self.clean = None;
                self.clean_down.clear();
                s.kill(SRV);
                sleep_ms(self.r.below(8_000)).await;
                s.revive(SRV);
                self.epoch += 1;
                self.start_server().await?;
                self.clean_up().await?;
            }
            Op::Stall { c, ms } => s.stall(1 + c % (nc + 1), ms),
            Op::Wait { ms } => sleep_ms(ms).await,
        }
        Ok(())
    }

    /// No faults anymore: everybody is connected who wants to be.
    async fn finish(&mut self) -> Res {
        let s = sim();
        s.calm.set(true);
        s.net.heal_all();
        for c in 0..self.clients.len() as u32 {
            if self.clients[c as usize].off {
                continue;
            }
            let k = self.connected(c, 60_000).await;
            self.bad.res()?;
            check!(
                k.is_some(),
                "a client does not connect again to a server that is reachable",
                "client {c}"
            );
            let sent: Vec<_> = (0..3).map(|_| self.send_up(c, 100)).collect();
            quiesce().await;
            sleep_ms(3_000).await;
            for k in sent {
                check!(
                    self.sh.lock().unwrap().got_up.contains(&k),
                    "a message to the server is lost although the connection is up",
                    "number {} of client {c}",
                    k.2
                );
            }
            let Some(id) = self.id_of(c) else {
                return viol("the connection of a client that was not disturbed is gone", format!("client {c}"));
            };
            let sent: Vec<_> = (0..3).map(|_| self.send_down(id, 100)).collect();
            quiesce().await;
            sleep_ms(4_000).await;
            for k in sent {
                check!(
                    self.sh.lock().unwrap().got_down.contains(&k),
                    "a message to a client is lost although the connection is up",
                    "number {} on connection {id}",
                    k.2
                );
            }
            s.probe("reconnected");
        }
        sleep_ms(30_000).await;
        self.settle().await?;
        let sh = self.sh.lock().unwrap();
        for (c, cl) in self.clients.iter().enumerate() {
            let n = s.net.tcp_open(2 + c as u32, SRV);
            check!(
                n == !cl.off as usize,
                "a client does not have the connections it should have",
                "client {c} has {n}, wants to be connected: {}",
                !cl.off
            );
            let open: Vec<_> = sh
                .conns
                .iter()
                .filter(|((e, _), s)| {
                    *e == self.epoch && !s.gone && s.client.is_some_and(|(x, _)| x == c as u32)
                })
                .collect();
            check!(
                open.len() <= n,
                "the end of a connection is not announced",
                "client {c}: {:?}",
                open.iter().map(|((_, i), _)| i).collect::<Vec<_>>()
            );
        }
        for (c, cl) in self.clients.iter().enumerate() {
            let n = sh.disconnects.get(&(c as u32, cl.inc)).copied().unwrap_or(0);
            check!(
                n == cl.disc_told,
                "disconnecting is not confirmed once",
                "client {c}: {n} instead of {}",
                cl.disc_told
            );
        }
        for ((e, id), st) in sh.conns.iter() {
            if *e == self.epoch && st.closed {
                check!(
                    st.gone,
                    "the end of a connection is not announced",
                    "connection {id} was closed"
                );
            }
        }
        Ok(())
    }
}

fn parse(t: &str, tag: &str) -> Option<(u32, u64, u64)> {
    let mut p = t.splitn(5, ':');
    if p.next()? != tag {
        return None;
    }
    let a = p.next()?.parse().ok()?;
    let b = p.next()?.parse().ok()?;
    let c = p.next()?.parse().ok()?;
    p.next()?;
    Some((a, b, c))
}

impl Shared {
    fn from_server(&mut self, e: u32, m: WSServerOut) -> Res {
        sim().ev(80, e as u64);
        match m {
            WSServerOut::NewConnection(id) => {
                check!(
                    !self.conns.contains_key(&(e, id)),
                    "a connection number is used twice",
                    "{id}"
                );
                self.conns.insert((e, id), Default::default());
            }
            WSServerOut::Disconnection(id) => {
                let Some(c) = self.conns.get_mut(&(e, id)) else {
                    return viol("an unknown connection ends", format!("{id}"));
                };
                check!(!c.gone, "the end of a connection is announced twice", "{id}");
                c.gone = true;
                sim().probe("disconnection");
            }
            WSServerOut::Message(id, t) => {
                let Some(c) = self.conns.get_mut(&(e, id)) else {
                    return viol("a message before its connection", format!("{id}"));
                };
                check!(!c.gone, "a message after the end of its connection", "{id}");
                let Some((cl, inc, k)) = parse(&t, "c") else {
                    check!(
                        self.raw_up.remove(&t),
                        "a message nobody sent, or for the second time",
                        "{t:.50}"
                    );
                    return Ok(());
                };
                let key = (cl, inc as u32, k);
                check!(
                    self.up.get(&key) == Some(&t),
                    "a message is not what was sent",
                    "{t:.50}"
                );
                check!(
                    self.got_up.insert(key),
                    "a message is delivered twice",
                    "{t:.50}"
                );
                let who = (cl, inc as u32);
                check!(
                    c.client.is_none() || c.client == Some(who),
                    "a message comes out of the connection of another one",
                    "{id}: {t:.50}"
                );
                c.client = Some(who);
                check!(
                    c.last_in.is_none_or(|l| l + 1 == k),
                    "messages of a connection are lost or reordered",
                    "{k} after {:?} on connection {id}",
                    c.last_in
                );
                c.last_in = Some(k);
                sim().probe("up");
            }
            WSServerOut::Stopped => {}
        }
        Ok(())
    }

    fn from_client(&mut self, cl: u32, inc: u32, m: WSClientOut) -> Res {
        sim().ev(81, cl as u64);
        match m {
            WSClientOut::Message(t) => {
                let Some((e, id, k)) = parse(&t, "s") else {
                    return viol("a message nobody sent", format!("{t:.50}"));
                };
                let key = (e, id as usize, k);
                check!(
                    self.down.get(&key) == Some(&t),
                    "a message is not what was sent",
                    "{t:.50}"
                );
                check!(self.got_down.insert(key), "a message is delivered twice", "{t:.50}");
                let c = self.conns.get_mut(&(e, id as usize)).unwrap();
                check!(
                    c.client.is_none() || c.client == Some((cl, inc)),
                    "a message is delivered to another client",
                    "{t:.50} to client {cl}"
                );
                check!(
                    c.last_out.map_or(0, |l| l + 1) == k,
                    "messages of a connection are lost or reordered",
                    "{k} after {:?} to client {cl}",
                    c.last_out
                );
                c.last_out = Some(k);
                sim().probe("down");
            }
            WSClientOut::Disconnect => {
                *self.disconnects.entry((cl, inc)).or_default() += 1;
            }
            _ => {}
        }
        Ok(())
    }
}

async fn run(case: Rc<Case>) -> Res {
    let cfg: Cfg = case.cfg();
    let mut r = Rng::stream(case.seed, "rush");
    let mut w = World::new(cfg, case.seed).await?;
    for op in case.ops::<Op>() {
        w.op(op).await?;
        w.bad.res()?;
        if !r.chance(w.cfg.rush) {
            w.settle().await?;
        }
    }
    w.settle().await?;
    w.finish().await
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C12",
        rule: "a server, up to 4 clients and any number of hostile ones over TCP connections that split, delay and limit what is sent; the server and all but one of the clients send, close, disconnect, reconnect, crash, stall, are cut off and reset; hostile clients stop at any point of the handshake, send rubbish or never read",
        real: &["flarch WebSocketServer, WebSocketClient, Broker", "tungstenite"],
        stub: &["TCP is simulated, without timeouts of its own"],
        reach: &["up", "down", "clean-checked", "clean-down-checked", "disconnection", "reconnected", "flood", "closed-by-server", "client-disconnects"],
        scens: vec![
            crate::scen!("apart", 1, gen_apart, run),
            crate::scen!("faults", 2, gen_faults, run),
        ],
    }]
}
