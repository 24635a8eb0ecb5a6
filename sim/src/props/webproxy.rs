//! C24: web requests through another node.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use flarch::data_storage::DataStorageTemp;
use flarch::nodeids::NodeID;
use flmodules::network::broker::NetworkOut;
use flmodules::nodeconfig::NodeInfo;
use flmodules::random_connections::broker::{RandomBroker, RandomOut};
use flmodules::router::broker::RouterRandom;
use flmodules::timer::Timer;
use flmodules::web_proxy::broker::WebProxy;
use flmodules::web_proxy::core::WebProxyConfig;
use flmodules::Modules;
use serde::{Deserialize, Serialize};

use super::util::{go, Bad};
use crate::case::{viol, Case, Prop, Res};
use crate::check;
use crate::links::{LinkCfg, Links};
use crate::net::HttpAnswer;
use crate::rng::Rng;
use crate::sim::{as_node, on_node, quiesce, sim, sleep_ms, within};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cfg {
    nodes: u32,
    link: LinkCfg,
    /// Which nodes offer to be a proxy
    offers: u64,
}

/// What the web server answers
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Answer {
    delay: u64,
    fail: bool,
    status: u16,
    /// Kinds of headers
    headers: Vec<u32>,
    /// Size of the parts with the delay before each
    parts: Vec<(u64, u32)>,
    /// The connection to the web server breaks after that
    breaks: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Reader {
    /// All at once
    Bytes,
    /// Part by part, with a delay between
    Parts { ms: u64 },
    /// Gives up after some parts
    Some { parts: u32 },
    /// Keeps the answer without ever reading it
    Never,
    /// Doesn't even wait for the answer
    Abandon { ms: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Get { n: u32, ans: Answer, reader: Reader },
    Start { n: u32 },
    Kill { n: u32 },
    Break { a: u32, b: u32 },
    /// The connection of a late request, or its proxy
    Cut { back: usize, kill: bool },
    Block { a: u32, b: u32 },
    Unblock { a: u32, b: u32 },
    Wait { ms: u64 },
}

fn gen_answer(r: &mut Rng) -> Answer {
    let many = *r.pick(&[0, 1, 4, 12, 12, 40, 300]);
    let size = *r.pick(&[1, 20, 1_000, 5_000]);
    let slow = *r.pick(&[0, 0, 10, 300, 3_000, 3_000]);
    Answer {
        delay: *r.pick(&[0, 0, 5, 500, 3_000, 4_900, 5_100, 20_000]),
        fail: r.chance(80),
        status: *r.pick(&[200, 200, 200, 404, 500, 204]),
        headers: (0..r.below(5)).map(|_| r.below(5) as u32).collect(),
        parts: (0..r.below(many + 1))
            .map(|_| {
                let ms = if slow > 0 && r.chance(200) { r.below(slow) } else { 0 };
                (ms, r.below(size + 1) as u32)
            })
            .collect(),
        breaks: r.chance(150),
    }
}

fn gen(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let nodes = 2 + r.below(5) as u32;
    let node = |r: &mut Rng| 1 + r.below(nodes as u64) as u32;
    let faults = *r.pick(&[0, 0, 1, 3]);
    let ops = (0..3 + r.us(25))
        .map(|_| {
            let (n, b) = (node(r), node(r));
            match r.weighted(&[12, 2 * faults, faults, faults, faults, faults, 6, 4 * faults]) {
                0 => Op::Get {
                    n,
                    ans: gen_answer(r),
                    reader: match r.below(9) {
                        0..=3 => Reader::Bytes,
                        4 | 5 => Reader::Parts { ms: *r.pick(&[0, 1, 50, 1_000]) },
                        6 => Reader::Some { parts: r.below(5) as u32 },
                        7 => Reader::Never,
                        _ => Reader::Abandon { ms: *r.pick(&[0, 1, 20, 500, 3_000]) },
                    },
                },
                1 => Op::Start { n },
                2 => Op::Kill { n },
                3 => Op::Break { a: n, b },
                4 => Op::Block { a: n, b },
                5 => Op::Unblock { a: n, b },
                7 => Op::Cut { back: r.us(3), kill: r.chance(300) },
                _ => Op::Wait { ms: *r.pick(&[0, 0, 1, 100, 2_000, 12_000]) },
            }
        })
        .collect();
    let c = Cfg {
        nodes,
        link: LinkCfg {
            min_ms: *r.pick(&[0, 1, 20]),
            max_ms: 20 + *r.pick(&[0, 30, 300]),
            ..Default::default()
        },
        offers: if r.chance(600) { u64::MAX } else { r.below(64) },
    };
    (c, ops)
}

fn header(kind: u32) -> (String, Vec<u8>) {
    match kind {
        0 => ("content-type".into(), b"text/html; charset=utf-8".to_vec()),
        1 => ("set-cookie".into(), b"a=b; Path=/".to_vec()),
        2 => ("set-cookie".into(), b"c=d".to_vec()),
        3 => ("x-title".into(), "Caf\u{e9} \u{1f980}".as_bytes().to_vec()),
        _ => ("x-latin".into(), vec![b'C', b'a', b'f', 0xe9]),
    }
}

/// What the web server sends
#[derive(Clone)]
struct Sent {
    ans: Answer,
    body: Vec<u8>,
}

struct PNode {
    info: NodeInfo,
    wp: WebProxy,
    /// The connected nodes as the module knows them
    infos: Arc<Mutex<Vec<NodeInfo>>>,
}

/// One request and what came of it
#[derive(Clone, Default)]
struct Got {
    /// Milliseconds until there was an answer or an error
    took: Option<u64>,
    error: Option<String>,
    proxy: Option<NodeID>,
    status: u16,
    headers: BTreeMap<String, Vec<String>>,
    body: Vec<u8>,
    /// All of the body has been read
    ended: bool,
    faults: u64,
}

struct Req {
    n: u32,
    inc: u32,
    reader: Reader,
    ans: Answer,
    at: u64,
    /// A proxy was connected, and nothing was disturbed when it started
    clean: bool,
    faults: u64,
    got: Arc<Mutex<Got>>,
}

struct World {
    cfg: Cfg,
    links: Links,
    infos: BTreeMap<u32, NodeInfo>,
    nodes: BTreeMap<u32, PNode>,
    web: Rc<RefCell<BTreeMap<String, Sent>>>,
    reqs: Vec<Req>,
    blocks: std::collections::BTreeSet<(u32, u32)>,
    /// Everything that can make messages disappear
    faults: Arc<AtomicU64>,
    bad: Bad,
}

fn url(k: usize) -> String {
    format!("http://web/{k}")
}

impl World {
    fn fault(&self) {
        self.faults.fetch_add(1, Ordering::Relaxed);
    }

    async fn start(&mut self, n: u32) -> Res {
        if self.nodes.contains_key(&n) {
            return Ok(());
        }
        let s = sim();
        if !s.node(n).alive.get() {
            s.revive(n);
            s.probe("restarted");
        }
        self.fault();
        let info = self.infos[&n].clone();
        let id = info.get_id();
        let mut net = self.links.attach(n, info.clone()).await;
        let net2 = net.clone();
        let r = within(
            20_000,
            on_node(n, async move {
                let (tout, _) = net.get_tap_out().await?;
                let timer = Timer::start().await?.broker;
                let mut rnd = RandomBroker::start(id, timer, net2).await?.broker;
                let (tap, _) = rnd.get_tap_out().await?;
                let st = DataStorageTemp::new_box();
                let router = RouterRandom::start(rnd).await?;
                let wp = WebProxy::start(st, id, router, WebProxyConfig::default()).await?;
                Ok::<_, anyhow::Error>((wp, tap, tout))
            }),
        )
        .await;
        let (wp, mut tap, mut tout) = match r {
            Some(Some(Ok(x))) => x,
            Some(None) => return Ok(()),
            _ => return viol("the module does not start", format!("node {n}")),
        };
        let faults = self.faults.clone();
        go(n, async move {
            while let Some(m) = tout.recv().await {
                if let NetworkOut::Disconnected(_) = m {
                    faults.fetch_add(1, Ordering::Relaxed);
                }
            }
        });
        let infos: Arc<Mutex<Vec<NodeInfo>>> = Default::default();
        let i = infos.clone();
        go(n, async move {
            while let Some(m) = tap.recv().await {
                if let RandomOut::NodeInfosConnected(l) = m {
                    *i.lock().unwrap() = l;
                }
            }
        });
        self.nodes.insert(n, PNode { info, wp, infos });
        Ok(())
    }

    fn offers(&self, n: u32) -> bool {
        self.cfg.offers >> (n - 1) & 1 == 1
    }

    /// The nodes this one can use as a proxy
    fn proxies(&self, n: u32) -> Vec<u32> {
        let Some(p) = self.nodes.get(&n) else {
            return vec![];
        };
        let own = p.info.get_id();
        let known = p.infos.lock().unwrap();
        let at = |id: NodeID| self.infos.iter().find(|i| i.1.get_id() == id).map(|i| *i.0);
        known
            .iter()
            .map(|i| i.get_id())
            .filter(|id| *id != own)
            .filter_map(at)
            .filter(|p| self.offers(*p))
            .collect()
    }

    fn get(&mut self, n: u32, ans: Answer, reader: Reader) {
        if !self.nodes.contains_key(&n) {
            return;
        }
        let s = sim();
        let k = self.reqs.len();
        let mut r = Rng::stream(k as u64, "body");
        let len = ans.parts.iter().map(|p| p.1 as usize).sum();
        let body = (0..len).map(|_| r.below(256) as u8).collect();
        self.web.borrow_mut().insert(url(k), Sent { ans: ans.clone(), body });
        let proxies = self.proxies(n);
        let clean = !proxies.is_empty()
            && self.blocks.is_empty()
            && proxies
                .iter()
                .all(|p| self.nodes.contains_key(p) && self.links.connected(n, *p));
        if proxies.is_empty() {
            s.probe("no proxy");
        }
        let got: Arc<Mutex<Got>> = Default::default();
        let req = Req {
            n,
            inc: s.node(n).inc.get(),
            reader: reader.clone(),
            ans,
            at: s.now_ms(),
            clean,
            faults: self.faults.load(Ordering::Relaxed),
            got: got.clone(),
        };
        self.reqs.push(req);
        let faults = self.faults.clone();
        let mut wp = self.nodes[&n].wp.clone();
        go(n, async move {
            let start = sim().now_ms();
            let asked = url(k);
            let res = match &reader {
                Reader::Abandon { ms } => match within(*ms, wp.get(&asked)).await {
                    Some(res) => res,
                    None => {
                        sim().probe("abandoned");
                        return;
                    }
                },
                _ => wp.get(&asked).await,
            };
            let mut res = {
                let mut g = got.lock().unwrap();
                g.took = Some(sim().now_ms() - start);
                g.faults = faults.load(Ordering::Relaxed);
                match res {
                    Ok(res) => {
                        g.proxy = Some(res.proxy());
                        g.status = res.headers().status.code;
                        g.headers = res.headers().headers.into_iter().collect();
                        res
                    }
                    Err(e) => {
                        g.error = Some(e.to_string());
                        return;
                    }
                }
            };
            match reader {
                Reader::Bytes => got.lock().unwrap().body = res.bytes().await.to_vec(),
                Reader::Parts { .. } | Reader::Some { .. } | Reader::Abandon { .. } => {
                    let mut count = 0;
                    while let Some(c) = res.chunk().await {
                        got.lock().unwrap().body.extend(c);
                        count += 1;
                        match reader {
                            Reader::Parts { ms } if ms > 0 => sleep_ms(ms).await,
                            Reader::Some { parts } if count > parts => {
                                sim().probe("given up");
                                return;
                            }
                            _ => {}
                        }
                    }
                }
                Reader::Never => {
                    sim().probe("never read");
                    std::future::pending::<()>().await
                }
            }
            let mut g = got.lock().unwrap();
            g.ended = true;
            g.faults = faults.load(Ordering::Relaxed);
        });
    }

    /// What must be true of all requests at any time
    fn check(&self, k: usize) -> Res {
        let s = sim();
        let r = &self.reqs[k];
        let g = r.got.lock().unwrap().clone();
        let sent = self.web.borrow()[&url(k)].clone();
        let seen: Vec<u32> = s
            .net
            .http_seen
            .borrow()
            .iter()
            .filter(|x| x.1 == url(k))
            .map(|x| x.0)
            .collect();
        check!(
            seen.len() <= 1,
            "a page is fetched more than once",
            "request {k} of node {}: by {seen:?}",
            r.n
        );
        for p in &seen {
            check!(
                *p != r.n && self.offers(*p),
                "a page is fetched by a node that is not a proxy",
                "request {k} of node {}: by node {p}",
                r.n
            );
        }
        if let Some(p) = g.proxy {
            check!(
                seen.first().is_some_and(|s| self.infos[s].get_id() == p),
                "an answer comes from another node than the proxy",
                "request {k} of node {}: {p}, fetched by {seen:?}",
                r.n
            );
            let mut want: BTreeMap<String, Vec<Option<String>>> = BTreeMap::new();
            for (n, v) in r.ans.headers.iter().map(|h| header(*h)) {
                want.entry(n).or_default().push(String::from_utf8(v).ok());
            }
            let same = g.headers.len() == want.len()
                && g.headers.iter().all(|(n, v)| {
                    want.get(n).is_some_and(|w| {
                        w.len() == v.len()
                            && w.iter().zip(v).all(|(w, v)| w.as_ref().is_none_or(|w| w == v))
                    })
                });
            check!(
                g.status == r.ans.status && same,
                "the header is not the one of the web server",
                "request {k} of node {}: {} {:?} instead of {} {want:?}",
                r.n,
                g.status,
                g.headers,
                r.ans.status
            );
            s.probe("answer");
        }
        if !sent.body.starts_with(&g.body) {
            let at = sent.body.iter().zip(&g.body).take_while(|(a, b)| a == b).count();
            return viol(
                "the content is not the one of the web server",
                format!(
                    "request {k} of node {}: {} bytes of {}, but only {at} are right",
                    r.n,
                    g.body.len(),
                    sent.body.len()
                ),
            );
        }
        Ok(())
    }

    /// What must be true of all requests after some time
    fn done(&self, k: usize) -> Res {
        let s = sim();
        let r = &self.reqs[k];
        if !s.runs(r.n, r.inc) || matches!(r.reader, Reader::Abandon { .. }) {
            return Ok(());
        }
        let g = r.got.lock().unwrap().clone();
        let Some(took) = g.took else {
            return viol(
                "a request has no answer and no error",
                format!("request {k} of node {} at {} ms", r.n, r.at),
            );
        };
        check!(
            took < 10_000,
            "a request takes longer than its timeout",
            "request {k} of node {}: {took} ms",
            r.n
        );
        let quiet = r.clean && r.faults == g.faults;
        if g.error.is_some() {
            check!(
                !quiet || r.ans.fail || r.ans.delay > 3_000,
                "a request fails although nothing is wrong",
                "request {k} of node {}: {:?}",
                r.n,
                g.error
            );
            s.probe("error");
            return Ok(());
        }
        let sent = self.web.borrow()[&url(k)].body.len();
        let whole = r.reader == Reader::Bytes || matches!(r.reader, Reader::Parts { .. });
        if !whole {
            return Ok(());
        }
        check!(
            g.ended,
            "the content of an answer never ends",
            "request {k} of node {}: {} of {sent} bytes",
            r.n,
            g.body.len()
        );
        if quiet {
            check!(
                g.body.len() == sent || r.ans.breaks,
                "a part of the content is missing",
                "request {k} of node {}: {} of {sent} bytes",
                r.n,
                g.body.len()
            );
            s.probe(if r.ans.breaks { "broke off" } else { "complete" });
        } else {
            s.probe("disturbed");
        }
        Ok(())
    }

    async fn op(&mut self, op: Op) -> Res {
        let w = |n: u32| 1 + (n.max(1) - 1) % self.cfg.nodes;
        match op {
            Op::Get { n, ans, reader } => self.get(w(n), ans, reader),
            Op::Start { n } => self.start(w(n)).await?,
            Op::Kill { n } => {
                let n = w(n);
                if self.nodes.remove(&n).is_some() {
                    self.fault();
                    self.links.kill(n);
                }
            }
            Op::Break { a, b } => {
                let (a, b) = (w(a), w(b));
                if self.links.connected(a, b) {
                    self.fault();
                    self.links.break_conn(a, b);
                }
            }
            Op::Cut { back, kill } => {
                let seen = sim().net.http_seen.borrow().clone();
                let Some((p, url)) = seen.iter().rev().nth(back) else {
                    return Ok(());
                };
                let k: usize = url.rsplit('/').next().and_then(|k| k.parse().ok()).unwrap_or(0);
                let (p, n) = (*p, self.reqs[k].n);
                if kill && self.nodes.remove(&p).is_some() {
                    self.fault();
                    self.links.kill(p);
                } else if self.links.connected(p, n) {
                    self.fault();
                    self.links.break_conn(p, n);
                    sim().probe("cut");
                }
            }
            Op::Block { a, b } => {
                let (a, b) = (w(a), w(b));
                self.fault();
                self.blocks.insert((a, b));
                self.links.block(a, b);
            }
            Op::Unblock { a, b } => {
                let (a, b) = (w(a), w(b));
                self.blocks.retain(|x| *x != (a, b) && *x != (b, a));
                self.links.unblock(a, b);
            }
            Op::Wait { ms } => sleep_ms(ms).await,
        }
        self.bad.res()?;
        for k in 0..self.reqs.len() {
            self.check(k)?;
        }
        Ok(())
    }
}

async fn run(case: Rc<Case>) -> Res {
    let cfg: Cfg = case.cfg();
    let s = sim();
    let links = Links::new(cfg.link.clone());
    let infos = (1..=cfg.nodes)
        .map(|n| {
            let mut i = as_node(n, flmodules::nodeconfig::NodeConfig::new).info;
            i.modules = if cfg.offers >> (n - 1) & 1 == 1 {
                Modules::all()
            } else {
                Modules::all() - Modules::WEBPROXY_REQUESTS
            };
            (n, i)
        })
        .collect();
    let web: Rc<RefCell<BTreeMap<String, Sent>>> = Default::default();
    let w2 = web.clone();
    *s.net.http.borrow_mut() = Some(Rc::new(move |url: &str| {
        let Some(sent) = w2.borrow().get(url).cloned() else {
            return HttpAnswer { fail: true, ..Default::default() };
        };
        let mut left = &sent.body[..];
        let mut chunks: Vec<(u64, Option<Vec<u8>>)> = vec![];
        for (ms, len) in &sent.ans.parts {
            let (a, b) = left.split_at(*len as usize);
            chunks.push((*ms, Some(a.to_vec())));
            left = b;
        }
        if sent.ans.breaks {
            chunks.push((0, None));
        }
        HttpAnswer {
            delay_ms: sent.ans.delay,
            fail: sent.ans.fail,
            status: sent.ans.status,
            headers: sent.ans.headers.iter().map(|h| header(*h)).collect(),
            chunks,
        }
    }));
    let mut w = World {
        cfg,
        links,
        infos,
        nodes: Default::default(),
        web,
        reqs: vec![],
        blocks: Default::default(),
        faults: Default::default(),
        bad: Bad::new(),
    };
    for n in 1..=w.cfg.nodes {
        w.start(n).await?;
    }
    sleep_ms(15_000).await;
    for op in case.ops::<Op>() {
        w.op(op).await?;
    }
    s.calm.set(true);
    // Longer than any answer and any reader takes
    w.links.heal();
    w.blocks.clear();
    sleep_ms(400_000).await;
    for n in 1..=w.cfg.nodes {
        w.start(n).await?;
    }
    sleep_ms(130_000).await;
    // Now it has to work.
    let mut r = Rng::stream(case.seed, "last");
    let last = w.reqs.len();
    for n in 1..=w.cfg.nodes {
        for _ in 0..2 {
            let mut ans = gen_answer(&mut r);
            ans.delay = 0;
            w.get(n, ans, Reader::Bytes);
        }
    }
    for _ in 0..20 {
        sleep_ms(20_000).await;
    }
    quiesce().await;
    w.bad.res()?;
    for k in 0..w.reqs.len() {
        w.check(k)?;
        w.done(k)?;
    }
    if (last..w.reqs.len()).any(|k| w.reqs[k].clean) {
        s.probe("works at the end");
    }
    w.links.end();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        rule: "2 to 6 nodes, of which some or all are proxies, make concurrent requests for web pages, which are answered in any number of parts with delays, fail or break off; the readers are fast, slow, or give up, while connections break and nodes crash and restart; status, headers and content are compared with what the web server sent",
        real: &["flmodules WebProxy, RouterRandom, RandomConnections, Timer, Broker"],
        stub: &["Network is replaced by simulated connections", "web server and HTTP client"],
        reach: &["answer", "complete", "broke off", "error", "abandoned", "given up", "never read", "no proxy", "disturbed", "cut", "restarted", "works at the end"],
        scens: vec![crate::scen!("requests", 1, gen, run)],
    }]
}
