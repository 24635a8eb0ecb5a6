//! C13: texts over the connection of two nodes, with data channels made by the harness.
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

use flarch::broker::Broker;
use flarch::web_rtc::messages::{
    ConnectionStateMap, DataChannelState, PeerMessage, SignalingState, WebRTCInput, WebRTCOutput,
    WebRTCSpawner,
};
use flarch::web_rtc::node_connection::{Direction, NCInput, NCOutput, NodeConnection};
use serde::{Deserialize, Serialize};

use super::util::{go, Bad};
use crate::case::{viol, Case, Prop, Res, Viol};
use crate::check;
use crate::rng::Rng;
use crate::sim::{as_node, on_node, quiesce, sim, sleep_ms, within};

type Rtc = Broker<WebRTCInput, WebRTCOutput>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cfg {
    lat: u64,
    /// Permille, of every piece
    drop: u32,
    dup: u32,
    reorder: u32,
    rush: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Text { n: u32, kind: u32, len: u32 },
    /// Many short texts at once
    Burst { n: u32, count: u32 },
    Open { ch: u32 },
    Break { ch: u32 },
    State { n: u32, ch: u32 },
    Foreign { n: u32, ch: u32, kind: u32, x: u32 },
    Stall { n: u32, ms: u64 },
    Wait { ms: u64 },
}

fn gen_ops(r: &mut Rng, foreign: u32) -> Vec<Op> {
    let big = *r.pick(&[1, 3]);
    (0..4 + r.us(30))
        .map(|_| {
            let n = r.below(2) as u32;
            let ch = r.below(2) as u32;
            match r.weighted(&[36, 12, 6, 6, 15 * foreign, 3, 9, 1]) {
                0 => Op::Text {
                    n,
                    kind: r.below(12) as u32,
                    len: match r.weighted(&[5, 3, 2 * big, big]) {
                        0 => r.below(60) as u32,
                        1 => r.below(4_000) as u32,
                        2 => *r.pick(&[8192, 16383, 16384, 16385, 32767, 32768, 32769, 49152]),
                        _ if r.chance(30) => r.below(4_000_000) as u32,
                        _ => r.below(150_000) as u32,
                    },
                },
                1 => Op::Open { ch },
                2 => Op::Break { ch },
                3 => Op::State { n, ch },
                4 => Op::Foreign {
                    n,
                    ch,
                    kind: r.below(12) as u32,
                    x: r.below(10_000) as u32,
                },
                5 => Op::Stall {
                    n,
                    ms: *r.pick(&[10, 1000]),
                },
                6 => Op::Wait {
                    ms: *r.pick(&[0, 5, 200]),
                },
                _ => Op::Burst {
                    n,
                    count: *r.pick(&[5, 40, 130, 300, 1100]),
                },
            }
        })
        .collect()
}

fn gen_perfect(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let c = Cfg {
        lat: *r.pick(&[0, 1, 50, 300]),
        drop: 0,
        dup: 0,
        reorder: 0,
        rush: *r.pick(&[0, 500, 1000]),
    };
    (c, gen_ops(r, 0))
}

fn gen_pieces(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let c = Cfg {
        lat: *r.pick(&[0, 1, 50]),
        drop: *r.pick(&[0, 50, 300]),
        dup: *r.pick(&[0, 50, 300]),
        reorder: *r.pick(&[0, 100, 500]),
        rush: *r.pick(&[0, 500, 1000]),
    };
    (c, gen_ops(r, 1))
}

pub fn text(r: &mut Rng, kind: u32, len: u32) -> String {
    let parts: &[&str] = match kind {
        0..=2 => &["a", "b", "0", " "],
        3 => &["\"", "\\", "\\n", "'", "{", "}", ":", ",", "[", "#", "-", "\t"],
        4 => &["\u{e9}", "\u{fc}", "x"],
        5 => &["\u{1f600}", "\u{10ffff}", "\u{20ac}"],
        6 => &["\0", "\u{1}", "\u{1b}", "\u{1f}", "\u{7f}", "a"],
        7 => &["\u{2028}", "\u{2029}", "\u{85}", "a", " "],
        8 => &["\u{feff}", "\u{fffe}", "\u{ffff}", "\u{fffd}", "\u{80}", "\u{9f}"],
        9 => &["\n", "\r\n", "\r", "  ", "a: b"],
        10 => &["---\n", "...\n", "!!binary ", "|\n", "~", "null", "0x10", "1e5", "*a", "&a"],
        _ => &["\u{e000}", "\u{d7ff}", "\u{301}", "\u{200d}", "\u{202e}", "z"],
    };
    let mut s = String::new();
    let one = r.chance(300);
    let p = *r.pick(parts);
    while s.len() < len as usize {
        s.push_str(if one || (s.len() > 200 && !r.chance(100)) { p } else { *r.pick(parts) });
    }
    s
}

/// A channel; side 0 is the one where it is outgoing, which is node `ch`.
#[derive(Default)]
struct Chan {
    open: bool,
    /// Changes with every opening
    gen: u32,
    told: [bool; 2],
    pending: [Vec<String>; 2],
    flying: [VecDeque<(u64, String)>; 2],
    pumping: [bool; 2],
}

#[derive(Default)]
struct Shared {
    chans: [Chan; 2],
    /// By node and channel
    ends: BTreeMap<(usize, usize), Rtc>,
    /// By sending node: text, phase, delivered
    sent: [Vec<(String, u32, bool)>; 2],
    made_up: Vec<String>,
    phase: u32,
    faulty: bool,
    strict: bool,
    last: [Option<usize>; 2],
}

struct World {
    cfg: Cfg,
    nc: Vec<Broker<NCInput, NCOutput>>,
    sh: Arc<Mutex<Shared>>,
    bad: Bad,
    number: u32,
    r: Rng,
}

fn node_of(n: usize) -> u32 {
    n as u32 + 1
}

fn emit(sh: &Arc<Mutex<Shared>>, n: usize, ch: usize, m: WebRTCOutput) {
    let b = sh.lock().unwrap().ends.get(&(n, ch)).cloned();
    if let Some(mut b) = b {
        as_node(node_of(n), || {
            let _ = b.emit_msg_out(m);
        });
    }
}

/// Something goes into the channel at a node.
fn put(sh: &Arc<Mutex<Shared>>, cfg: &Cfg, n: usize, ch: usize, t: String) {
    let s = sim();
    let mut l = sh.lock().unwrap();
    let faulty = l.faulty;
    let c = &mut l.chans[ch];
    if !c.open {
        c.pending[n].push(t);
        return;
    }
    let mut times = 1;
    if faulty && s.fault("piece-lost", cfg.drop) {
        return;
    }
    if faulty && s.fault("piece-repeated", cfg.dup) {
        times = 2;
    }
    for _ in 0..times {
        let at = s.now_ns() + s.net_below(cfg.lat * 1_000_000 + 1);
        let q = &mut c.flying[n];
        let at = at.max(q.back().map(|b| b.0).unwrap_or(0));
        q.push_back((at, t.clone()));
        if faulty && q.len() > 1 && s.fault("piece-reordered", cfg.reorder) {
            let (i, j) = (s.net_below(q.len() as u64) as usize, q.len() - 1);
            let (a, b) = (q[i].1.clone(), q[j].1.clone());
            q[i].1 = b;
            q[j].1 = a;
        }
    }
    if !c.pumping[n] {
        c.pumping[n] = true;
        let gen = c.gen;
        drop(l);
        go(0, pump(sh.clone(), n, ch, gen));
    }
}

async fn pump(sh: Arc<Mutex<Shared>>, n: usize, ch: usize, gen: u32) {
    loop {
        let at = {
            let mut l = sh.lock().unwrap();
            let c = &mut l.chans[ch];
            if c.gen != gen {
                return;
            }
            let Some((at, _)) = c.flying[n].front() else {
                c.pumping[n] = false;
                return;
            };
            *at
        };
        let now = sim().now_ns();
        if at > now {
            tokio::time::sleep(std::time::Duration::from_nanos(at - now)).await;
        }
        let (t, told) = {
            let mut l = sh.lock().unwrap();
            let c = &mut l.chans[ch];
            if c.gen != gen {
                return;
            }
            let Some((_, t)) = c.flying[n].pop_front() else {
                continue;
            };
            (t, c.told[1 - n])
        };
        if !told {
            emit(&sh, 1 - n, ch, WebRTCOutput::Connected);
        }
        emit(&sh, 1 - n, ch, WebRTCOutput::Text(t));
    }
}

impl World {
    async fn new(cfg: Cfg, seed: u64, faulty: bool) -> Result<Self, Viol> {
        let sh: Arc<Mutex<Shared>> = Default::default();
        {
            let mut l = sh.lock().unwrap();
            l.faulty = faulty;
            l.strict = !faulty;
        }
        let bad = Bad::new();
        let mut nc = vec![];
        for n in 0..2 {
            let new: Arc<Mutex<Vec<Rtc>>> = Default::default();
            let new2 = new.clone();
            let spawner: WebRTCSpawner = Box::new(move || {
                let new = new2.clone();
                Box::new(Box::pin(async move {
                    let b: Rtc = Broker::new();
                    new.lock().unwrap().push(b.clone());
                    Ok(b)
                }))
            });
            let w = within(
                10_000,
                on_node(node_of(n), async { NodeConnection::new(&spawner).await }),
            )
            .await;
            let Some(Some(Ok(mut con))) = w else {
                return viol("the connection cannot be created", "");
            };
            let ends = std::mem::take(&mut *new.lock().unwrap());
            check!(ends.len() == 2, "a connection needs two channels", "{}", ends.len());
            for mut e in ends {
                let (mut tap, _) = on_node(node_of(n), e.get_tap_in()).await.unwrap().unwrap();
                let (sh, cfg) = (sh.clone(), cfg.clone());
                let mut ch = None;
                go(0, async move {
                    while let Some(m) = tap.recv().await {
                        match (m, ch) {
                            (WebRTCInput::Setup(PeerMessage::IceCandidate(c)), None) => {
                                let c = if c == "out" { n } else { 1 - n };
                                ch = Some(c);
                                sh.lock().unwrap().ends.insert((n, c), e.clone());
                            }
                            (WebRTCInput::Text(t), Some(c)) => put(&sh, &cfg, n, c, t),
                            _ => {}
                        }
                    }
                });
            }
            for (dir, t) in [(Direction::Incoming, "in"), (Direction::Outgoing, "out")] {
                as_node(node_of(n), || {
                    let _ = con.emit_msg_in(NCInput::Setup(
                        dir,
                        PeerMessage::IceCandidate(t.into()),
                    ));
                });
            }
            let (mut tap, _) = on_node(node_of(n), con.get_tap_out()).await.unwrap().unwrap();
            let (sh2, b2) = (sh.clone(), bad.clone());
            go(0, async move {
                while let Some(m) = tap.recv().await {
                    if let NCOutput::Text(t) = m {
                        if let Err(v) = sh2.lock().unwrap().arrived(1 - n, t) {
                            b2.set(&v.kind, v.msg);
                        }
                    }
                }
            });
            nc.push(con);
        }
        quiesce().await;
        check!(sh.lock().unwrap().ends.len() == 4, "setup messages are lost", "");
        Ok(World {
            cfg,
            nc,
            sh,
            bad,
            number: 0,
            r: Rng::stream(seed, "texts"),
        })
    }

    fn open(&mut self, ch: usize) {
        {
            let mut l = self.sh.lock().unwrap();
            l.phase += 1;
            let c = &mut l.chans[ch];
            if c.open {
                return;
            }
            c.open = true;
            c.gen += 1;
            c.told = [false; 2];
            c.pumping = [false; 2];
        }
        sim().ev(90, ch as u64);
        for n in 0..2 {
            let (sh, cfg) = (self.sh.clone(), self.cfg.clone());
            let d = sim().net_below(2 * self.cfg.lat + 1);
            let (dir, m) = if n == ch {
                (Direction::Outgoing, PeerMessage::Init)
            } else {
                (Direction::Incoming, PeerMessage::Offer("offer".into()))
            };
            as_node(node_of(n), || {
                let _ = self.nc[n].emit_msg_in(NCInput::Setup(dir, m));
            });
            let gen = self.sh.lock().unwrap().chans[ch].gen;
            go(0, async move {
                sleep_ms(d).await;
                let pending = {
                    let mut l = sh.lock().unwrap();
                    let c = &mut l.chans[ch];
                    if c.gen != gen || !c.open {
                        return;
                    }
                    c.told[n] = true;
                    std::mem::take(&mut c.pending[n])
                };
                emit(&sh, n, ch, WebRTCOutput::Connected);
                for t in pending {
                    put(&sh, &cfg, n, ch, t);
                }
            });
        }
    }

    async fn op(&mut self, op: Op) -> Res {
        let s = sim();
        match op {
            Op::Text { n, kind, len } => {
                let n = n as usize;
                let t = format!("{}#{n}.{}", text(&mut self.r, kind, len), self.number);
                self.number += 1;
                let mut l = self.sh.lock().unwrap();
                let p = l.phase;
                l.sent[n].push((t.clone(), p, false));
                drop(l);
                if t.len() > 16384 {
                    s.probe("long");
                }
                s.ev(91, t.len() as u64);
                as_node(node_of(n), || {
                    let _ = self.nc[n].emit_msg_in(NCInput::Text(t));
                });
            }
            Op::Burst { n, count } => {
                let n = n as usize;
                for _ in 0..count {
                    let t = format!("b#{n}.{}", self.number);
                    self.number += 1;
                    let mut l = self.sh.lock().unwrap();
                    let p = l.phase;
                    l.sent[n].push((t.clone(), p, false));
                    drop(l);
                    as_node(node_of(n), || {
                        let _ = self.nc[n].emit_msg_in(NCInput::Text(t));
                    });
                }
                s.probe("burst");
            }
            Op::Open { ch } => {
                // Which of two open channels is used must be certain.
                quiesce().await;
                self.open(ch as usize);
                if self.sh.lock().unwrap().chans.iter().all(|c| c.open) {
                    sleep_ms(2 * self.cfg.lat + 1).await;
                    quiesce().await;
                }
            }
            Op::Break { ch } => {
                let ch = ch as usize;
                let faulty = self.sh.lock().unwrap().faulty;
                if !faulty {
                    // Nothing is lost.
                    sleep_ms(4 * self.cfg.lat + 1_500).await;
                    quiesce().await;
                    let l = self.sh.lock().unwrap();
                    let c = &l.chans[ch];
                    if c.open && (!c.told.iter().all(|t| *t) || c.flying.iter().any(|f| !f.is_empty())) {
                        return Ok(());
                    }
                }
                {
                    let mut l = self.sh.lock().unwrap();
                    l.phase += 1;
                    let c = &mut l.chans[ch];
                    if !c.open {
                        return Ok(());
                    }
                    c.open = false;
                    c.gen += 1;
                    c.flying.iter_mut().for_each(|f| f.clear());
                    c.pumping = [false; 2];
                }
                s.did("channel-breaks");
                for n in 0..2 {
                    emit(&self.sh, n, ch, WebRTCOutput::Disconnected);
                }
                quiesce().await;
            }
            Op::State { n, ch } => {
                let open = {
                    let l = self.sh.lock().unwrap();
                    let c = &l.chans[ch as usize];
                    c.open && c.told[n as usize]
                };
                emit(
                    &self.sh,
                    n as usize,
                    ch as usize,
                    WebRTCOutput::State(ConnectionStateMap {
                        signaling: if open { SignalingState::Stable } else { SignalingState::Setup },
                        data_connection: Some(if open {
                            DataChannelState::Open
                        } else {
                            DataChannelState::Connecting
                        }),
                        ..Default::default()
                    }),
                );
            }
            Op::Foreign { n, ch, kind, x } => {
                quiesce().await;
                let before = crate::alloc::live();
                let ms = self.foreign(kind, x);
                let size: usize = ms.iter().map(|m| m.len()).sum();
                s.did("made-up-piece");
                for m in ms {
                    emit(&self.sh, n as usize, ch as usize, WebRTCOutput::Text(m));
                }
                quiesce().await;
                if self.cfg.rush == 0 {
                    let more = crate::alloc::live().saturating_sub(before);
                    check!(
                        more < 200_000 + 20 * size,
                        "pieces of a message use much more memory than they are long",
                        "{more} bytes for {size} bytes"
                    );
                    s.probe("memory-checked");
                }
            }
            Op::Stall { n, ms } => s.stall(1 + n, ms),
            Op::Wait { ms } => sleep_ms(ms).await,
        }
        Ok(())
    }

    fn foreign(&mut self, kind: u32, x: u32) -> Vec<String> {
        self.number += 1;
        let id = format!("{:064x}", self.number + 1_000_000);
        let p = |part: u64, total: u64, data: &str| {
            format!("{{\"id\":\"{id}\",\"part\":{part},\"total\":{total},\"data\":\"{data}\"}}")
        };
        let made = |t: &str| self.sh.lock().unwrap().made_up.push(t.to_string());
        match kind {
            0 => vec![p(0, 100_000 + x as u64, "a")],
            1 => vec![p(0, 0, "b")],
            2 => vec![p(2, 2, "c"), p(3, 2, "d")],
            3 => vec![p(x as u64, 1 << (20 + x % 16), "e")],
            4 => vec![p(u64::MAX, u64::MAX, "f")],
            5 => {
                made("ghi");
                vec![p(0, 3, "g"), p(1, 2, "h"), p(2, 2, "i")]
            }
            6 => {
                made("xyz");
                vec![p(2, 3, "z"), p(0, 3, "x"), p(0, 3, "x"), p(1, 3, "y")]
            }
            7 => vec![String::new(), "{".into(), "[]".into(), "null".into(), "~".into()],
            8 => (0..x % 50).map(|i| p(i as u64, 1000, "")).collect(),
            9 => vec![format!("{{\"id\":\"{}\",\"part\":0,\"total\":1,\"data\":\"n\"}}", &id[..x as usize % 64])],
            10 => vec![p(0, 2, "half")],
            _ => vec![format!("{}{}", "[".repeat(x as usize), "{\"data\":")],
        }
    }

    async fn finish(&mut self, faulty: bool) -> Res {
        let s = sim();
        s.calm.set(true);
        quiesce().await;
        if faulty {
            self.sh.lock().unwrap().faulty = false;
            let n = self.sh.lock().unwrap().sent[0].len();
            for ch in 0..2 {
                self.op(Op::Break { ch }).await?;
            }
            quiesce().await;
            self.open(0);
            sleep_ms(4 * self.cfg.lat + 1_000).await;
            quiesce().await;
            let base = n.min(self.sh.lock().unwrap().sent[0].len());
            for len in [10, 40_000, 100] {
                self.op(Op::Text { n: 0, kind: 0, len }).await?;
            }
            sleep_ms(20 * self.cfg.lat + 2_000).await;
            quiesce().await;
            self.bad.res()?;
            let l = self.sh.lock().unwrap();
            for (t, _, ok) in &l.sent[0][base..] {
                check!(*ok, "a text does not arrive over a channel that works again", "{} bytes", t.len());
            }
            s.probe("works-again");
            return Ok(());
        }
        self.open(0);
        sleep_ms(100 * self.cfg.lat + 2_000).await;
        quiesce().await;
        self.bad.res()?;
        let l = self.sh.lock().unwrap();
        for n in 0..2 {
            for (t, _, ok) in &l.sent[n] {
                check!(*ok, "a text is lost", "from {n}: {} bytes: {t:.40}", t.len());
            }
        }
        Ok(())
    }
}

impl Shared {
    fn arrived(&mut self, from: usize, t: String) -> Res {
        sim().ev(92, t.len() as u64);
        let Some(i) = self.sent[from].iter().position(|s| s.0 == t) else {
            check!(
                self.made_up.contains(&t),
                "a text arrives that nobody sent",
                "{} bytes: {t:.60?}",
                t.len()
            );
            return Ok(());
        };
        sim().probe("arrived");
        let (phase, again) = (self.sent[from][i].1, self.sent[from][i].2);
        self.sent[from][i].2 = true;
        if !self.strict {
            return Ok(());
        }
        check!(!again, "a text arrives twice", "{} bytes", t.len());
        if let Some(l) = self.last[from] {
            check!(
                l < i || self.sent[from][l].1 != phase,
                "texts arrive in another order",
                "{i} after {l}"
            );
        }
        self.last[from] = Some(i);
        Ok(())
    }
}

async fn run(case: Rc<Case>) -> Res {
    let cfg: Cfg = case.cfg();
    let faulty = case.scen == "pieces";
    let mut r = Rng::stream(case.seed, "rush");
    let mut w = World::new(cfg, case.seed, faulty).await?;
    for op in case.ops::<Op>() {
        w.op(op).await?;
        w.bad.res()?;
        if !r.chance(w.cfg.rush) {
            quiesce().await;
        }
    }
    w.finish(faulty).await
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C13",
        rule: "two ends of a node connection exchange texts of up to 150 kB, with any characters, over two data channels that open, break and report their state at any time; in part of the runs the channels lose, repeat and reorder pieces, and pieces of made-up messages arrive",
        real: &["flarch NodeConnection, Broker"],
        stub: &["the data channels are made by the harness"],
        reach: &["arrived", "long", "burst", "memory-checked", "works-again"],
        scens: vec![
            crate::scen!("perfect", 1, gen_perfect, run),
            crate::scen!("pieces", 1, gen_pieces, run),
        ],
    }]
}
