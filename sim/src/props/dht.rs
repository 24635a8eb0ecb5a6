//! C18 to C22: the storage of the DHT.
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

use flarch::broker::Broker;
use flarch::data_storage::{DataStorage, DataStorageFile, DataStorageTemp};
use flarch::nodeids::{NodeID, U256};
use flcrypto::access::Condition;
use flcrypto::tofrombytes::ToFromBytes;
use flmodules::dht_router::broker::{BrokerDHTRouter, DHTRouter, DHTRouterOut};
use flmodules::dht_router::kademlia::Config;
use flmodules::dht_storage::broker::{DHTStorage, DHTStorageIn, DHTStorageOut};
use flmodules::dht_storage::core::{Cuckoo, DHTConfig, FloConfig, RealmConfig};
use flmodules::dht_storage::intern::{MessageClosest, MessageDest, MessageNeighbour};
use flmodules::flo::flo::{Flo, FloID, FloWrapper};
use flmodules::flo::realm::{FloRealm, GlobalID, RealmID};
use flmodules::nodeconfig::NodeInfo;
use flmodules::router::broker::RouterNetwork;
use flmodules::router::messages::NetworkWrapper;
use flmodules::timer::Timer;
use serde::{Deserialize, Serialize};
use tokio::sync::mpsc::UnboundedReceiver;

use super::dhtrouter::{at_depth, share};
use super::gossip::BAD;
use super::util::{disk_faults, gen_disk, go, Bad, DiskCfg};
use crate::case::{viol, Case, Prop, Res, Viol};
use crate::check;
use crate::links::{LinkCfg, Links};
use crate::rng::Rng;
use crate::sim::{as_node, on_node, quiesce, sim, sleep_ms, within, Scratch};

const MIN: u64 = 60_000;
/// Time that a request may take longer than its timeout
const SLACK: u64 = 1_500;
/// Shorter timeouts may pass before the node looks into its storage.
const LONG: u64 = 5_000;

// ---------------------------------------------------------------- objects

/// What the storage keeps for an object
#[derive(Serialize, Deserialize)]
struct Mirror {
    flo: Flo,
    cuckoos: Vec<FloID>,
    time_create: i64,
    time_update: i64,
    time_read: i64,
    reads: i64,
}

fn mirror(flo: &Flo, cuckoos: &[FloID]) -> u64 {
    Mirror {
        flo: flo.clone(),
        cuckoos: cuckoos.to_vec(),
        time_create: 1_700_000_000_000,
        time_update: 0,
        time_read: 0,
        reads: 0,
    }
    .size() as u64
}

fn key(f: &FloID) -> [u8; 32] {
    let u: &U256 = f;
    u.to_bytes()
}

struct Obj {
    realm: usize,
    parent: Option<usize>,
    id: FloID,
    vers: Vec<Flo>,
}

/// All objects that exist anywhere; the first ones are the descriptions of the realms.
#[derive(Default)]
pub struct Made {
    realms: usize,
    objs: Vec<Obj>,
    index: BTreeMap<[u8; 32], usize>,
}

/// An object as a node holds it
#[derive(Clone, Debug, PartialEq)]
struct Held {
    ver: u32,
    /// Attached objects
    list: Vec<usize>,
    size: u64,
}

type State = BTreeMap<usize, Held>;

fn text(len: usize, salt: u64) -> String {
    let mut s = format!("{salt:x}-");
    while s.len() < len {
        s.push((b'a' + (s.len() % 26) as u8) as char);
    }
    s
}

impl Made {
    fn add(&mut self, realm: usize, parent: Option<usize>, flo: Flo) -> usize {
        let id = flo.flo_id();
        self.index.insert(key(&id), self.objs.len());
        self.objs.push(Obj {
            realm,
            parent,
            id,
            vers: vec![flo],
        });
        self.objs.len() - 1
    }

    fn add_realm(&mut self, name: &str, max_space: u64) {
        let f = FloRealm::new(
            name,
            Condition::Pass,
            RealmConfig {
                max_space,
                max_flo_size: 1_000_000,
            },
            &[],
        )
        .expect("harness: realm");
        let i = self.objs.len();
        self.add(i, None, f.flo().clone());
        self.realms = i + 1;
    }

    /// Another version of the description, with other space
    fn resize(&mut self, realm: usize, max_space: u64) {
        let f: FloRealm = self.objs[realm].vers.last().unwrap().clone().try_into().unwrap();
        let mut c = serde_json::to_value(f.cache()).unwrap();
        c["config"]["max_space"] = max_space.into();
        let f = f
            .edit_data_signers(Condition::Pass, |r| *r = serde_json::from_value(c).unwrap(), &[])
            .expect("harness: new description");
        self.objs[realm].vers.push(f.flo().clone());
    }

    fn space(&self, realm: usize, ver: u32) -> u64 {
        let f: FloRealm = self.objs[realm].vers[ver as usize].clone().try_into().unwrap();
        f.cache().get_config().max_space
    }

    fn rid(&self, realm: usize) -> RealmID {
        self.objs[realm].vers[0].realm_id()
    }

    fn gid(&self, o: usize) -> GlobalID {
        self.rid(self.objs[o].realm).global_id(self.objs[o].id.clone())
    }

    /// A new object, if possible with so many bits in common with the id
    fn create(
        &mut self,
        realm: usize,
        parent: Option<usize>,
        len: usize,
        near: Option<(&U256, usize)>,
    ) -> usize {
        let mut force = None;
        if let Some((id, depth)) = near {
            for _ in 0..3000 {
                let h = U256::rnd();
                if share(id, &Flo::calc_flo_id(&h)) == depth {
                    force = Some(h);
                    break;
                }
            }
        }
        let salt = self.objs.len() as u64;
        let f = Flo::new_signer(
            self.rid(realm),
            Condition::Pass,
            &text(len, salt),
            FloConfig {
                cuckoo: match parent {
                    Some(p) => Cuckoo::Parent(self.objs[p].id.clone()),
                    None if salt % 2 == 0 => Cuckoo::None,
                    None => Cuckoo::Duration(100_000),
                },
                force_id: force,
            },
            &[],
        )
        .expect("harness: object");
        self.add(realm, parent, f)
    }

    fn update(&mut self, o: usize, len: usize) {
        let v = self.objs[o].vers.len() as u64;
        let f = self.objs[o]
            .vers
            .last()
            .unwrap()
            .update_data_signers(Condition::Pass, text(len, v + 1000), &[])
            .expect("harness: new version");
        self.objs[o].vers.push(f);
    }

    fn find(&self, id: &FloID) -> Option<usize> {
        self.index.get(&key(id)).copied()
    }

    fn children(&self, o: usize) -> Vec<usize> {
        (0..self.objs.len())
            .filter(|c| self.objs[*c].parent == Some(o))
            .collect()
    }

    /// Checks that it is one which has been made
    fn known(&self, f: &Flo) -> Result<usize, Viol> {
        let Some(o) = self.find(&f.flo_id()) else {
            return viol("an object appears that nobody made", format!("{f:?}"));
        };
        if self.objs[o].vers.get(f.version() as usize) != Some(f) {
            return viol(
                "the content of an object is not the one of its version",
                format!("object {o} version {}: {f:?}", f.version()),
            );
        }
        Ok(o)
    }

    fn list(&self, parent: usize, ids: &[FloID], prop: &str) -> Result<Vec<usize>, Viol> {
        let mut l = vec![];
        for id in ids {
            let c = self.find(id);
            if prop == "C20" {
                check!(
                    c.is_some_and(|c| self.objs[c].parent == Some(parent)),
                    "an object is listed as attached that did not declare it",
                    "object {parent}: {id} {c:?}"
                );
                check!(
                    !l.contains(&c.unwrap()),
                    "an attached object is listed twice",
                    "object {parent}: {l:?} {c:?}"
                );
            }
            l.extend(c);
        }
        l.sort();
        Ok(l)
    }

    fn state(&self, flos: &[(Flo, Vec<FloID>)], prop: &str) -> Result<State, Viol> {
        let mut st = State::new();
        for (f, ids) in flos {
            let o = self.known(f)?;
            let h = Held {
                ver: f.version(),
                list: self.list(o, ids, prop)?,
                size: mirror(f, ids),
            };
            check!(st.insert(o, h).is_none(), "an object is held twice", "object {o}");
        }
        Ok(st)
    }

    /// Every held child is listed.
    fn attached(&self, st: &State) -> Res {
        for c in st.keys() {
            let Some(p) = self.objs[*c].parent else { continue };
            if let Some(h) = st.get(&p) {
                check!(
                    h.list.contains(c),
                    "an attached object is not listed",
                    "object {p} does not list {c}, but {:?}",
                    h.list
                );
                sim().probe("attached");
            }
        }
        Ok(())
    }
}

/// Whether the first one has all that the second one has
fn lacks(have: &State, want: &State) -> Option<(usize, Option<Held>, Held)> {
    for (o, w) in want {
        let h = have.get(o);
        if !h.is_some_and(|h| h.ver >= w.ver && w.list.iter().all(|c| h.list.contains(c))) {
            return Some((*o, h.cloned(), w.clone()));
        }
    }
    None
}

fn wrap<T: Serialize>(m: &T) -> NetworkWrapper {
    NetworkWrapper::wrap_yaml("DHTStorage", m).expect("harness: message")
}

// ---------------------------------------------------------------- requests

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Ask {
    Flo(usize),
    List(usize),
    Realms,
    Flos,
}

/// A request and what came of it
struct Req {
    node: u32,
    inc: u32,
    ask: Ask,
    since: u64,
    timeout: u64,
    /// What the node held
    start: State,
    /// Others will answer
    must: bool,
    end: Option<(u64, Ans)>,
    checked: bool,
}

enum Ans {
    Flo(Result<FloWrapper<String>, String>),
    List(Result<Vec<FloID>, String>),
    Realms(Result<Vec<RealmID>, String>),
    Flos(Result<Vec<Flo>, String>),
}

#[derive(Default, Clone)]
struct Reqs(Arc<Mutex<Vec<Req>>>);

impl Reqs {
    fn ask(
        &self,
        made: &Made,
        node: u32,
        mut ds: DHTStorage,
        ask: Ask,
        timeout: u64,
        start: State,
        must: bool,
    ) {
        let s = sim();
        let gid = match &ask {
            Ask::Flo(o) | Ask::List(o) => Some(made.gid(*o)),
            _ => None,
        };
        let i = {
            let mut l = self.0.lock().unwrap();
            l.push(Req {
                node,
                inc: s.node(node).inc.get(),
                ask: ask.clone(),
                since: s.now_ms(),
                timeout,
                start,
                must,
                end: None,
                checked: false,
            });
            l.len() - 1
        };
        let l = self.0.clone();
        go(node, async move {
            let a = match ask {
                Ask::Flo(_) => Ans::Flo(
                    ds.get_flo_timeout::<String>(gid.as_ref().unwrap(), timeout)
                        .await
                        .map_err(|e| e.to_string()),
                ),
                Ask::List(_) => Ans::List(
                    ds.get_cuckoos(gid.as_ref().unwrap())
                        .await
                        .map_err(|e| e.to_string()),
                ),
                Ask::Realms => Ans::Realms(ds.get_realm_ids().await.map_err(|e| e.to_string())),
                Ask::Flos => Ans::Flos(ds.get_flos().await.map_err(|e| e.to_string())),
            };
            sim().ev(81, i as u64);
            l.lock().unwrap()[i].end = Some((sim().now_ms(), a));
        });
    }

    fn check(&self, made: &Made) -> Res {
        let s = sim();
        let mut l = self.0.lock().unwrap();
        for (i, r) in l.iter_mut().enumerate() {
            if r.checked || !s.runs(r.node, r.inc) {
                continue;
            }
            let stalled = s.node(r.node).stall_until.get() > s.now_ns();
            let Some((t, ans)) = &r.end else {
                check!(
                    stalled || s.now_ms() <= r.since + r.timeout + SLACK,
                    "a request does not end",
                    "request {i} of node {}: {:?} since {} ms",
                    r.node,
                    r.ask,
                    s.now_ms() - r.since
                );
                continue;
            };
            r.checked = true;
            check!(
                *t <= r.since + r.timeout + SLACK || s.fired_of(&["node-stall"]) > 0,
                "a request takes longer than its timeout",
                "request {i} of node {}: {:?} took {} ms instead of {}",
                r.node,
                r.ask,
                t - r.since,
                r.timeout
            );
            match (&r.ask, ans) {
                (Ask::Flo(o), Ans::Flo(Ok(w))) => {
                    let f = w.flo();
                    check!(
                        f.global_id() == made.gid(*o),
                        "a request gets the answer of another one",
                        "request {i} for object {o}: {f:?}"
                    );
                    made.known(f)?;
                    let local = r.start.get(o).map(|h| h.ver);
                    check!(
                        local <= Some(f.version()),
                        "an answer is older than what the node has",
                        "request {i} of node {} for object {o}: version {} instead of {local:?}",
                        r.node,
                        f.version()
                    );
                    s.probe(if local.is_some() { "own answer" } else { "answer of others" });
                }
                (Ask::Flo(o), Ans::Flo(Err(e))) => {
                    check!(
                        (r.timeout < LONG || !r.start.contains_key(o)) && !r.must,
                        "an object is not found",
                        "request {i} of node {} for object {o}, which it {}: {e}",
                        r.node,
                        if r.must { "can reach" } else { "has" }
                    );
                    s.probe("no answer");
                }
                (Ask::List(o), Ans::List(Ok(ids))) => {
                    let l = made.list(*o, ids, "C20")?;
                    // The list of any node may be the first to arrive.
                    if let Some(h) = r.start.get(o) {
                        check!(
                            h.list.iter().all(|c| l.contains(c)),
                            "an answer has fewer attached objects than the node has",
                            "request {i} of node {} for object {o}: {l:?} instead of {:?}",
                            r.node,
                            h.list
                        );
                    }
                    s.probe("list");
                }
                (Ask::List(o), Ans::List(Err(e))) => check!(
                    r.timeout < LONG || !r.start.contains_key(o),
                    "attached objects are not found",
                    "request {i} of node {} for object {o}: {e}",
                    r.node
                ),
                (Ask::Realms, Ans::Realms(Ok(l))) => {
                    for o in (0..made.realms).filter(|o| r.start.contains_key(o)) {
                        check!(
                            l.contains(&made.rid(o)),
                            "a realm is missing in the list",
                            "request {i} of node {}: {l:?} without {o}",
                            r.node
                        );
                    }
                    check!(
                        l.iter().all(|id| (0..made.realms).any(|o| made.rid(o) == *id)),
                        "a realm appears that nobody made",
                        "{l:?}"
                    );
                    s.probe("realms");
                }
                (Ask::Flos, Ans::Flos(Ok(l))) => {
                    let mut have = BTreeMap::new();
                    for f in l {
                        have.insert(made.known(f)?, f.version());
                    }
                    for (o, h) in &r.start {
                        check!(
                            have.get(o) >= Some(&h.ver),
                            "an object is missing in the list of all",
                            "request {i} of node {}: object {o} {h:?}, {:?}",
                            r.node,
                            have.get(o)
                        );
                    }
                }
                (_, Ans::Realms(Err(e))) | (_, Ans::Flos(Err(e))) if r.timeout >= LONG => {
                    return viol(
                        "the node does not tell what it holds",
                        format!("request {i} of node {} {:?}: {e}", r.node, r.ask),
                    )
                }
                _ => {}
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- one node

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cfg {
    /// Space of each realm
    spaces: Vec<u64>,
    /// Bits of the node that are those of the first realm
    depth: usize,
    /// The node only accepts these
    only: Vec<usize>,
    disk: Option<DiskCfg>,
    /// Several operations at once
    rush: u32,
    /// Answers of this time are waited for
    timeout: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    New { realm: usize, depth: usize, len: usize, parent: Option<usize>, via: u32 },
    Update { o: usize, len: usize, via: u32 },
    /// Some version again
    Store { o: usize, back: u32, via: u32 },
    /// Several at once from a neighbour
    Batch { list: Vec<(usize, u32)> },
    /// Tells about an attached object, which is not there maybe
    Attach { o: usize, closest: bool },
    Space { realm: usize, space: u64, via: u32 },
    System { realm: usize },
    Unknown { o: usize },
    Lists { o: usize, some: u32 },
    Ask { ask: Ask, timeout: u64 },
    Neighbour { kind: u32, o: usize },
    Wait { ms: u64 },
    Restart,
    CrashIn { after: u32 },
    Disk { on: bool },
    Garbage { kind: u32 },
}

fn gen_ops(r: &mut Rng, cfg: &Cfg, n: usize, len: &[usize], w: &[u32; 16]) -> Vec<Op> {
    let realms = cfg.spaces.len();
    let max = *r.pick(&[6, 15, 40]);
    let deep = *r.pick(&[1, 3, 7]);
    (0..n)
        .map(|_| {
            let o = r.us(max);
            let via = r.below(5) as u32;
            match r.weighted(w) {
                0 => Op::New {
                    realm: r.us(realms),
                    depth: r.us(deep + 1),
                    len: *r.pick(len),
                    parent: r.chance(400).then(|| r.us(max)),
                    via,
                },
                1 => Op::Update { o, len: *r.pick(len), via },
                2 => Op::Store { o, back: r.below(3) as u32, via },
                3 => Op::Batch {
                    list: (0..1 + r.us(6)).map(|_| (r.us(max), r.below(3) as u32)).collect(),
                },
                4 => Op::Attach { o, closest: r.chance(500) },
                5 => Op::Space {
                    realm: r.us(realms),
                    space: *r.pick(&cfg.spaces) / 4 * (1 + r.below(12)),
                    via,
                },
                6 => Op::System { realm: r.us(realms) },
                7 => Op::Unknown { o },
                8 => Op::Lists { o, some: r.below(4) as u32 },
                9 => Op::Ask {
                    ask: match r.weighted(&[6, 4, 1, 1]) {
                        0 => Ask::Flo(o),
                        1 => Ask::List(o),
                        2 => Ask::Realms,
                        _ => Ask::Flos,
                    },
                    timeout: *r.pick(&[10, 500, 1000, 20_000]),
                },
                10 => Op::Neighbour { kind: r.below(6) as u32, o },
                11 => Op::Wait { ms: *r.pick(&[0, 1, 300, 5_000, 61_000]) },
                12 => Op::Restart,
                13 => Op::CrashIn { after: r.below(12) as u32 },
                14 => Op::Disk { on: r.chance(600) },
                _ => Op::Garbage { kind: r.below(3) as u32 },
            }
        })
        .collect()
}

fn gen_c18(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let realms = 1 + r.us(2);
    let cfg = Cfg {
        spaces: (0..realms)
            .map(|_| *r.pick(&[100, 1500, 3000, 6000, 20_000, 20_000]))
            .collect(),
        depth: r.us(7),
        only: if r.chance(250) { vec![r.us(realms)] } else { vec![] },
        disk: None,
        rush: if r.chance(150) { 500 } else { 0 },
        timeout: 1000,
    };
    let len = match r.below(3) {
        0 => vec![10],
        1 => vec![0, 100, 1000],
        _ => vec![0, 10, 300, 1000, 3000, 7000],
    };
    let n = 5 + r.us(60);
    let w = [30, 8, 6, 5, 6, 4, 1, 0, 0, 0, 1, 1, 1, 0, 0, 0];
    let ops = gen_ops(r, &cfg, n, &len, &w);
    (cfg, ops)
}

fn large(r: &mut Rng) -> Cfg {
    Cfg {
        spaces: (0..1 + r.us(3)).map(|_| 1_000_000_000).collect(),
        depth: r.us(3),
        only: vec![],
        disk: None,
        rush: if r.chance(300) { 600 } else { 0 },
        timeout: *r.pick(&[100, 1000, 5000]),
    }
}

fn gen_c19(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let cfg = large(r);
    let n = 5 + r.us(40);
    let w = [8, 10, 14, 10, 2, 1, 0, 0, 0, 0, 3, 1, 2, 0, 0, 0];
    let ops = gen_ops(r, &cfg, n, &[0, 10, 100], &w);
    (cfg, ops)
}

fn gen_c20(r: &mut Rng) -> (Cfg, Vec<Op>) {
    if r.chance(250) {
        let (c, o) = gen_c18(r);
        return (c, o);
    }
    let cfg = large(r);
    let n = 5 + r.us(40);
    let w = [14, 6, 6, 8, 8, 1, 0, 0, 0, 0, 3, 1, 2, 0, 0, 0];
    let ops = gen_ops(r, &cfg, n, &[0, 10, 100], &w);
    (cfg, ops)
}

fn gen_c21(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let mut cfg = large(r);
    cfg.disk = Some(gen_disk(r));
    cfg.rush = if r.chance(150) { 400 } else { 0 };
    let n = 5 + r.us(30);
    let w = [14, 6, 4, 4, 6, 1, 0, 0, 1, 0, 1, 1, 5, 5, 6, 2];
    let ops = gen_ops(r, &cfg, n, &[0, 10, 100], &w);
    (cfg, ops)
}

fn gen_c22(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let mut cfg = large(r);
    cfg.rush = *r.pick(&[0, 300, 800]);
    let n = 5 + r.us(40);
    let w = [6, 4, 10, 2, 3, 0, 0, 5, 5, 20, 1, 6, 1, 0, 0, 0];
    let ops = gen_ops(r, &cfg, n, &[0, 10], &w);
    (cfg, ops)
}

/// What an operation puts into the storage
struct Put {
    o: usize,
    ver: u32,
    list: Vec<usize>,
}

struct World {
    prop: String,
    cfg: Cfg,
    id: NodeID,
    made: Made,
    temp: Box<dyn DataStorage + Send>,
    dir: Option<Scratch>,
    ds: Option<DHTStorage>,
    tap: Option<UnboundedReceiver<DHTStorageOut>>,
    router: BrokerDHTRouter,
    /// Realms that are accepted; none are all
    only: BTreeSet<usize>,
    reqs: Reqs,
    /// What was there when the disk had no error
    safe: State,
    errors: u64,
    dirty: bool,
    last: Option<State>,
    rng: Rng,
}

const N: u32 = 1;

impl World {
    fn is(&self, p: &str) -> bool {
        self.prop == p
    }

    async fn start(&mut self) -> Result<bool, Viol> {
        let s = sim();
        let bad0 = s.fired_of(&BAD);
        let st: Box<dyn DataStorage + Send> = match &self.dir {
            Some(d) => as_node(N, || Box::new(DataStorageFile::new(d.of(N), "".into())) as _),
            None => self.temp.clone(),
        };
        let conf = DHTConfig {
            our_id: self.id,
            realms: self.cfg.only.iter().map(|i| self.made.rid(i % self.made.realms)).collect(),
            owned: vec![],
            timeout: self.cfg.timeout,
        };
        self.only = self.cfg.only.iter().map(|i| i % self.made.realms).collect();
        self.router = as_node(N, Broker::new);
        let router = self.router.clone();
        let r = within(
            20_000,
            on_node(N, async move {
                let timer = Timer::start().await?.broker;
                DHTStorage::start(st, conf, timer, router).await
            }),
        )
        .await;
        let Some(r) = r else {
            return viol("starting never ends", "");
        };
        let mut ds = match r {
            None => return Ok(false),
            Some(Ok(ds)) => ds,
            Some(Err(e)) => {
                check!(
                    s.fired_of(&BAD) > bad0,
                    "the storage does not start although the disk is fine",
                    "{e:?}"
                );
                s.probe("start-failed");
                s.kill(N);
                return Ok(false);
            }
        };
        let Some(Ok((tap, _))) = on_node(N, ds.broker.get_tap_out()).await else {
            return Ok(false);
        };
        self.ds = Some(ds);
        self.tap = Some(tap);
        Ok(true)
    }

    fn down(&mut self) {
        if sim().node(N).alive.get() {
            sim().kill(N);
        }
        self.ds = None;
        self.tap = None;
        self.last = None;
    }

    fn up(&self) -> bool {
        sim().node(N).alive.get() && self.ds.is_some()
    }

    /// Brings the node back, if it is not there
    async fn back(&mut self) -> Res {
        let s = sim();
        let mut tries = 0;
        while !self.up() {
            self.down();
            tries += 1;
            if tries > 3 {
                // The disk works again.
                if let Some(d) = &self.cfg.disk {
                    disk_faults(d, false);
                }
                s.node(N).crash_in.set(None);
            }
            check!(tries < 8, "the storage does not start although the disk is fine", "");
            s.revive(N);
            if !self.start().await? {
                continue;
            }
            s.probe("restarted");
            let Some(st) = self.look().await? else { continue };
            self.restored(&st)?;
            self.last = Some(st);
        }
        Ok(())
    }

    fn restored(&mut self, st: &State) -> Res {
        if self.is("C21") {
            if let Some((o, have, want)) = lacks(st, &self.safe) {
                return viol(
                    "what was stored is lost after a restart",
                    format!("object {o}: {have:?} instead of {want:?}"),
                );
            }
            if !self.safe.is_empty() {
                sim().probe("kept");
            }
            self.safe = st.clone();
            self.dirty = false;
        }
        self.always(st)
    }

    /// What the node holds, if it lives
    async fn look(&mut self) -> Result<Option<State>, Viol> {
        let (Some(ds), Some(tap)) = (&mut self.ds, &mut self.tap) else {
            return Ok(None);
        };
        while tap.try_recv().is_ok() {}
        if as_node(N, || ds.broker.emit_msg_in(DHTStorageIn::GetFlos)).is_err() {
            return Ok(None);
        }
        let got = within(10_000, async {
            loop {
                match tap.recv().await {
                    Some(DHTStorageOut::FloValues(f)) => return Some(f),
                    Some(_) => {}
                    None => return None,
                }
            }
        })
        .await;
        if !self.up() {
            return Ok(None);
        }
        let Some(Some(flos)) = got else {
            return viol("the storage does not answer any more", "");
        };
        Ok(Some(self.made.state(&flos, &self.prop)?))
    }

    fn held(&self, st: &State, realm: usize) -> bool {
        st.keys().any(|o| self.made.objs[*o].realm == realm)
    }

    /// What has to hold at any time
    fn always(&self, st: &State) -> Res {
        let s = sim();
        if self.is("C20") {
            self.made.attached(st)?;
        }
        if !self.is("C18") {
            return Ok(());
        }
        let stats = self.ds.as_ref().unwrap().stats.borrow().clone();
        for realm in 0..self.made.realms {
            let rid = self.made.rid(realm);
            let mine: Vec<_> =
                st.iter().filter(|(o, _)| self.made.objs[**o].realm == realm).collect();
            let rs = stats.realm_stats.get(&rid);
            if mine.is_empty() {
                check!(rs.is_none(), "a realm without a description is held", "{realm}: {rs:?}");
                continue;
            }
            let Some(desc) = st.get(&realm) else {
                return viol("the description of a realm is evicted", format!("realm {realm}: {st:?}"));
            };
            let max = self.made.space(realm, desc.ver);
            let low: u64 = mine
                .iter()
                .map(|(o, h)| {
                    (self.made.objs[**o].vers[h.ver as usize].size() + 33 * h.list.len()) as u64
                })
                .sum();
            check!(
                mine.len() == 1 || low <= max,
                "a realm takes more space than configured",
                "realm {realm}: at least {low} of {max}, {mine:?}"
            );
            let Some(rs) = rs else {
                return viol("a realm is not in the statistics", format!("realm {realm}"));
            };
            let sum: u64 = mine.iter().map(|(_, h)| h.size).sum();
            check!(
                rs.size.abs_diff(sum) <= 64 * mine.len() as u64,
                "the reported size is not the one of what is held",
                "realm {realm}: {} instead of {sum}",
                rs.size
            );
            check!(
                mine.len() == 1 || rs.size <= max,
                "a realm takes more space than configured",
                "realm {realm}: {} of {max}",
                rs.size
            );
            check!(
                rs.config.max_space == max,
                "an old configuration of a realm is used",
                "realm {realm}: {} instead of {max}",
                rs.config.max_space
            );
            check!(
                rs.flos == mine.len() && rs.distribution.iter().sum::<usize>() == mine.len(),
                "the reported number of objects is not the one of what is held",
                "realm {realm}: {rs:?} instead of {}",
                mine.len()
            );
            if mine.len() == 1 && low > max {
                s.probe("only the description");
            }
        }
        Ok(())
    }

    fn dist(&self, o: usize) -> usize {
        share(&self.id, &self.made.objs[o].id)
    }

    /// What one operation may change
    fn step(&self, before: &State, after: &State, put: Option<&Put>, many: bool) -> Res {
        let s = sim();
        if self.is("C19") {
            for (o, b) in before {
                let a = after.get(o);
                check!(
                    a.is_some_and(|a| a.ver >= b.ver),
                    "a version goes back",
                    "object {o}: {a:?} after {b:?}"
                );
            }
            if let Some(p) = put {
                let realm = self.made.objs[p.o].realm;
                if p.o == realm || self.held(before, realm) {
                    check!(
                        after.get(&p.o).is_some_and(|a| a.ver >= p.ver),
                        "a newer version is not stored",
                        "object {} version {}: {:?}",
                        p.o,
                        p.ver,
                        after.get(&p.o)
                    );
                    match before.get(&p.o) {
                        Some(b) if b.ver > p.ver => s.probe("older version"),
                        Some(b) if b.ver < p.ver => s.probe("newer version"),
                        _ => {}
                    }
                }
            }
        }
        if self.is("C20") && self.cfg.spaces[0] > 1_000_000 {
            for (o, b) in before {
                let Some(a) = after.get(o) else { continue };
                check!(
                    b.list.iter().all(|c| a.list.contains(c)),
                    "an attached object is not listed any more",
                    "object {o}: {a:?} after {b:?}"
                );
            }
        }
        if !self.is("C18") {
            return Ok(());
        }
        for realm in 0..self.made.realms {
            if !self.held(before, realm) {
                check!(
                    !self.held(after, realm) || self.only.is_empty() || self.only.contains(&realm),
                    "a realm is stored that is not accepted",
                    "realm {realm}, accepted are {:?}",
                    self.only
                );
                continue;
            }
            if !self.only.is_empty() && !self.only.contains(&realm) {
                continue;
            }
            let in_realm = |o: &usize| self.made.objs[*o].realm == realm && *o != realm;
            let gone: Vec<usize> =
                before.keys().filter(|o| in_realm(o) && !after.contains_key(o)).copied().collect();
            // With several at once, a farther one may come after a nearer one has gone.
            if gone.is_empty() || many {
                continue;
            }
            s.probe("evicted");
            let near = gone.iter().map(|o| self.dist(*o)).max().unwrap();
            for k in after.keys().filter(|o| in_realm(o)) {
                check!(
                    self.dist(*k) >= near,
                    "an object goes although a farther one stays",
                    "realm {realm}: {gone:?} go, the nearest shares {near} bits, {k} shares {}",
                    self.dist(*k)
                );
            }
            let max = self.made.space(realm, after[&realm].ver);
            let sum: u64 = after
                .iter()
                .filter(|(o, _)| self.made.objs[**o].realm == realm)
                .map(|(_, h)| h.size)
                .sum();
            let big = gone
                .iter()
                .filter(|o| self.dist(**o) == near)
                .map(|o| match put {
                    Some(p) if p.o == *o => {
                        mirror(&self.made.objs[*o].vers[p.ver as usize], &[])
                            + 33 * (before[o].list.len() + p.list.len()) as u64
                    }
                    _ => before[o].size,
                })
                .max()
                .unwrap();
            // One that went itself, because lists of attached objects got longer
            let own = put.is_some_and(|p| !after.contains_key(&p.o));
            // Lists of attached objects may have been longer.
            check!(
                own || sum + big + 128 + put.map_or(0, |p| p.list.len() as u64 * 40) > max,
                "more is evicted than needed",
                "realm {realm}: {gone:?} go, but {sum} and {big} fit into {max}"
            );
        }
        let Some(p) = put else { return Ok(()) };
        let realm = self.made.objs[p.o].realm;
        if !self.held(before, realm) {
            if p.o == realm && (self.only.is_empty() || self.only.contains(&realm)) {
                check!(
                    after.contains_key(&p.o),
                    "the description of an accepted realm is not stored",
                    "realm {realm}"
                );
            }
            return Ok(());
        }
        let flo = &self.made.objs[p.o].vers[p.ver as usize];
        let old = before.get(&p.o);
        if p.o == realm {
            check!(
                after[&realm].ver >= p.ver,
                "a newer description of a realm is not stored",
                "realm {realm} version {}: {:?}",
                p.ver,
                after[&realm]
            );
            return Ok(());
        }
        let max = self.made.space(realm, before[&realm].ver);
        if flo.size() as u64 * 3 > max || old.is_some_and(|b| b.ver >= p.ver) {
            return Ok(());
        }
        let used: u64 = before
            .iter()
            .filter(|(o, _)| self.made.objs[**o].realm == realm && **o != p.o)
            .map(|(_, h)| h.size)
            .sum();
        let above: u64 = before
            .iter()
            .filter(|(o, _)| {
                self.made.objs[**o].realm == realm && **o != realm && self.dist(**o) < self.dist(p.o)
            })
            .map(|(_, h)| h.size)
            .sum();
        let lists = 40 * (2 + self.made.children(p.o).len() + p.list.len()) as u64;
        let need = mirror(flo, &[]) + 64 + lists;
        if used.saturating_sub(above) + need <= max {
            check!(
                after.get(&p.o).is_some_and(|a| a.ver >= p.ver),
                "an object is refused although there is space, or could be made",
                "object {} of {need} at {}, {used} of {max} used, {above} farther",
                p.o,
                self.dist(p.o)
            );
            s.probe("accepted");
        } else if !after.contains_key(&p.o) {
            s.probe("refused");
        }
        Ok(())
    }

    fn emit(&mut self, m: DHTRouterOut) {
        let _ = as_node(N, || self.router.emit_msg_out(m));
    }

    fn store(&mut self, o: usize, ver: u32, via: u32) -> Put {
        let flo = self.made.objs[o].vers[ver as usize].clone();
        let mut put = Put { o, ver, list: vec![] };
        let (a, b, c) = (U256::rnd(), U256::rnd(), U256::rnd());
        let k: U256 = *flo.flo_id();
        match via {
            0 => {
                let ds = self.ds.as_mut().unwrap();
                let _ = as_node(N, || ds.store_flo(flo));
            }
            1 => {
                let m = wrap(&MessageClosest::StoreFlo(flo));
                self.emit(DHTRouterOut::MessageRouting(a, b, c, k, m));
            }
            2 => {
                let m = wrap(&MessageClosest::StoreFlo(flo));
                self.emit(DHTRouterOut::MessageClosest(a, b, k, m));
            }
            _ => {
                let kids = self.made.children(o);
                put.list = kids.into_iter().filter(|_| self.rng.chance(500)).collect();
                let ids: Vec<FloID> =
                    put.list.iter().map(|c| self.made.objs[*c].id.clone()).collect();
                if via == 3 {
                    let m = wrap(&MessageNeighbour::Flos(vec![(flo, ids)]));
                    self.emit(DHTRouterOut::MessageNeighbour(a, m));
                } else {
                    let m = wrap(&MessageDest::FloValue((flo, ids)));
                    self.emit(DHTRouterOut::MessageDest(a, b, m));
                }
            }
        }
        put
    }

    /// None if nothing can be said about single steps
    async fn op(&mut self, op: Op) -> Result<Option<Put>, Viol> {
        let s = sim();
        let w = |o: usize| o % self.made.objs.len();
        let (a, b) = (U256::rnd(), U256::rnd());
        match op {
            Op::New { realm, depth, len, parent, via } => {
                let realm = realm % self.made.realms;
                let parent = parent.map(w).filter(|p| self.made.objs[*p].realm == realm);
                let id = self.id;
                let o = self.made.create(realm, parent, len, Some((&id, depth)));
                return Ok(Some(self.store(o, 0, via)));
            }
            Op::Update { o, len, via } => {
                let o = w(o);
                if o < self.made.realms {
                    let sp = self.made.space(o, self.made.objs[o].vers.len() as u32 - 1);
                    self.made.resize(o, sp);
                } else {
                    self.made.update(o, len);
                }
                let v = self.made.objs[o].vers.len() as u32 - 1;
                return Ok(Some(self.store(o, v, via)));
            }
            Op::Store { o, back, via } => {
                let o = w(o);
                let v = (self.made.objs[o].vers.len() as u32 - 1).saturating_sub(back);
                return Ok(Some(self.store(o, v, via)));
            }
            Op::Batch { list } => {
                let l: Vec<_> = list
                    .iter()
                    .map(|(o, back)| {
                        let o = w(*o);
                        let ob = &self.made.objs[o];
                        let v = (ob.vers.len() - 1).saturating_sub(*back as usize);
                        let kids = self.made.children(o);
                        let kids: Vec<_> = kids
                            .into_iter()
                            .filter(|_| self.rng.chance(500))
                            .map(|c| self.made.objs[c].id.clone())
                            .collect();
                        (ob.vers[v].clone(), kids)
                    })
                    .collect();
                let m = wrap(&MessageNeighbour::Flos(l));
                self.emit(DHTRouterOut::MessageNeighbour(a, m));
                s.probe("batch");
            }
            Op::Attach { o, closest } => {
                let o = w(o);
                if let Some(p) = self.made.objs[o].parent {
                    let m = wrap(&MessageClosest::StoreCuckooID(self.made.gid(o)));
                    let k: U256 = *self.made.objs[p].id;
                    self.emit(if closest {
                        DHTRouterOut::MessageClosest(a, b, k, m)
                    } else {
                        DHTRouterOut::MessageRouting(a, b, U256::rnd(), k, m)
                    });
                }
            }
            Op::Space { realm, space, via } => {
                let realm = realm % self.made.realms;
                self.made.resize(realm, space);
                let v = self.made.objs[realm].vers.len() as u32 - 1;
                return Ok(Some(self.store(realm, v, via)));
            }
            Op::System { realm } => {
                let realm = realm % self.made.realms;
                self.only.insert(realm);
                let r = self.made.rid(realm);
                self.emit(DHTRouterOut::SystemRealm(r));
            }
            Op::Unknown { o } => {
                let m = wrap(&MessageDest::UnknownFlo(self.made.gid(w(o))));
                self.emit(DHTRouterOut::MessageDest(a, b, m));
            }
            Op::Lists { o, some } => {
                let o = w(o);
                let kids = self.made.children(o);
                let mut l: Vec<_> = kids
                    .into_iter()
                    .filter(|_| self.rng.chance(250 * (some + 1)))
                    .map(|c| self.made.objs[c].id.clone())
                    .collect();
                // What the node itself has comes first; others know at least as much.
                if let Some(h) = self.last.as_ref().and_then(|s| s.get(&o)) {
                    l = h.list.iter().map(|c| self.made.objs[*c].id.clone()).collect();
                }
                let m = wrap(&MessageDest::CookooIDs(self.made.gid(o), l));
                self.emit(DHTRouterOut::MessageDest(a, b, m));
            }
            Op::Ask { ask, timeout } => {
                let ask = match ask {
                    Ask::Flo(o) => {
                        let o = w(o);
                        // The descriptions are of another type.
                        if o < self.made.realms {
                            return Ok(None);
                        }
                        Ask::Flo(o)
                    }
                    Ask::List(o) => Ask::List(w(o)),
                    a => a,
                };
                let timeout = match &ask {
                    Ask::Flo(_) => timeout,
                    Ask::Flos => 1000,
                    _ => self.cfg.timeout,
                };
                let st = self.last.clone().unwrap_or_default();
                let ds = self.ds.clone().unwrap();
                self.reqs.ask(&self.made, N, ds, ask, timeout, st, false);
            }
            Op::Neighbour { kind, o } => {
                let o = w(o);
                let rid = self.made.rid(self.made.objs[o].realm);
                let all: Vec<RealmID> = (0..self.made.realms).map(|i| self.made.rid(i)).collect();
                let m = match kind {
                    0 => MessageNeighbour::RequestRealmIDs,
                    1 => MessageNeighbour::AvailableRealmIDs(all),
                    2 => MessageNeighbour::RequestFloMetas(rid),
                    3 => MessageNeighbour::AvailableFlos(rid, vec![]),
                    4 => MessageNeighbour::RequestFlos(rid, vec![self.made.objs[o].id.clone()]),
                    _ => MessageNeighbour::Flos(vec![]),
                };
                self.emit(DHTRouterOut::MessageNeighbour(a, wrap(&m)));
            }
            Op::Wait { ms } => sleep_ms(ms).await,
            Op::Restart => {
                self.down();
                self.back().await?;
            }
            Op::CrashIn { after } => s.node(N).crash_in.set(Some(after)),
            Op::Disk { on } => {
                if let Some(d) = &self.cfg.disk {
                    disk_faults(d, on);
                }
            }
            Op::Garbage { kind } => self.garbage(kind).await?,
        }
        Ok(None)
    }

    /// The content of the files cannot be read for some time.
    async fn garbage(&mut self, kind: u32) -> Res {
        let s = sim();
        let Some(dir) = &self.dir else { return Ok(()) };
        if s.node(N).alive.get() {
            s.kill(N);
        }
        let files = dir.files(N);
        if files.is_empty() {
            return self.back().await;
        }
        let junk: &[u8] = match kind {
            0 => b"- 1\n- 2\n",
            1 => b"\x00\xff\xfe{[",
            _ => b"a: [1, 2",
        };
        dir.put(N, &files.keys().map(|k| (k.clone(), junk.to_vec())).collect());
        s.did("unreadable file");
        self.down();
        if let Some(d) = &self.cfg.disk {
            disk_faults(d, false);
        }
        s.node(N).crash_in.set(None);
        s.revive(N);
        let fired = s.fired_of(&BAD);
        let r = self.start().await;
        match r {
            Ok(_) => {
                // It runs without its data.
                s.probe("starts without its data");
                if self.ds.is_some() {
                    self.store(0, 0, 0);
                    let o = self.made.create(0, None, 10, None);
                    self.store(o, 0, 0);
                }
            }
            Err(v) if v.kind.starts_with("the storage does not start") => {
                s.probe("refuses unreadable data");
                check!(fired == s.fired_of(&BAD), "harness: errors", "");
            }
            Err(v) => return Err(v),
        }
        sleep_ms(1_000).await;
        let dir = self.dir.as_ref().unwrap();
        let now = dir.files(N);
        check!(
            now.values().any(|c| c == junk),
            "unreadable data is overwritten",
            "{:?}",
            now.iter().map(|(k, v)| (k, v.len())).collect::<Vec<_>>()
        );
        if s.node(N).alive.get() {
            s.kill(N);
        }
        dir.put(N, &files);
        self.down();
        self.back().await
    }

    /// After an operation
    async fn after(&mut self, put: Option<Put>, single: bool, many: bool) -> Res {
        let s = sim();
        if !self.up() {
            self.back().await?;
            return Ok(());
        }
        let before = self.last.take();
        let Some(st) = self.look().await? else {
            return self.back().await;
        };
        let errors = s.fired_of(&BAD);
        if self.is("C21") {
            if errors > self.errors {
                self.dirty = true;
            } else if before.as_ref() != Some(&st) {
                // All has been saved now.
                self.dirty = false;
            }
            if !self.dirty {
                self.safe = st.clone();
            }
        }
        self.errors = errors;
        self.always(&st)?;
        if let (Some(b), true) = (&before, single) {
            self.step(b, &st, put.as_ref(), many)?;
        }
        self.last = Some(st);
        self.reqs.check(&self.made)
    }
}

async fn run_store(case: Rc<Case>) -> Res {
    let cfg: Cfg = case.cfg();
    let s = sim();
    let mut made = Made::default();
    as_node(0, || {
        for (i, sp) in cfg.spaces.iter().enumerate() {
            made.add_realm(&format!("realm{i}"), *sp);
        }
    });
    let mut rng = Rng::stream(case.seed, "dht");
    let first: U256 = *made.objs[0].id;
    let mut w = World {
        prop: case.prop.clone(),
        id: at_depth(&first, cfg.depth, &mut rng),
        dir: cfg.disk.is_some().then(Scratch::new),
        cfg,
        made,
        temp: DataStorageTemp::new_box(),
        ds: None,
        tap: None,
        router: as_node(N, Broker::new),
        only: Default::default(),
        reqs: Default::default(),
        safe: Default::default(),
        errors: 0,
        dirty: false,
        last: None,
        rng,
    };
    check!(w.start().await?, "the storage does not start although the disk is fine", "");
    w.last = Some(State::new());
    for o in 0..w.made.realms {
        if w.rng.chance(900) {
            let p = w.store(o, 0, 0);
            quiesce().await;
            w.after(Some(p), true, false).await?;
        }
    }
    let mut single = true;
    for op in case.ops::<Op>() {
        let slow = matches!(op, Op::Wait { .. } | Op::Restart | Op::Garbage { .. });
        let many = matches!(op, Op::Batch { .. });
        let put = w.op(op).await?;
        if !slow && w.rng.chance(w.cfg.rush) {
            single = false;
            if !w.up() {
                w.back().await?;
            }
            continue;
        }
        quiesce().await;
        w.after(put, single && !slow, many).await?;
        single = true;
    }
    quiesce().await;
    w.after(None, false, true).await?;
    if let Some(d) = &w.cfg.disk {
        disk_faults(d, false);
    }
    s.node(N).crash_in.set(None);
    sleep_ms(25_000).await;
    w.reqs.check(&w.made)?;
    let before = w.look().await?;
    w.down();
    w.back().await?;
    if let (Some(b), Some(a), true) = (before, &w.last, w.cfg.disk.is_none()) {
        let lists = w.is("C20") || w.is("C18");
        let same = b.len() == a.len()
            && b.iter().all(|(o, h)| {
                a.get(o).is_some_and(|x| x.ver == h.ver && (x.list == h.list || !lists))
            });
        check!(
            same,
            "a restart changes what is held",
            "{:?} instead of {:?}",
            a,
            b
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- several nodes

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NetCfg {
    nodes: u32,
    link: LinkCfg,
    realms: usize,
    /// The realms that each node accepts; none are all
    only: Vec<Option<usize>>,
    k: usize,
    ids: u64,
    timeout: u64,
    /// Time before the first operation
    warm_min: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum NetOp {
    New { n: u32, realm: usize, near: u32, len: usize, parent: Option<usize> },
    Update { n: u32, o: usize, len: usize },
    Again { n: u32, o: usize, back: u32 },
    Kill { n: u32 },
    Start { n: u32 },
    Break { a: u32, b: u32 },
    Block { a: u32, b: u32 },
    Unblock { a: u32, b: u32 },
    Stall { n: u32, ms: u64 },
    Sync { n: u32 },
    Propagate { n: u32 },
    Ask { n: u32, ask: Ask, timeout: u64 },
    Wait { ms: u64 },
}

fn gen_net(r: &mut Rng) -> (NetCfg, Vec<NetOp>) {
    let nodes = 2 + r.below(6) as u32;
    let realms = 1 + r.us(2);
    let node = |r: &mut Rng| 1 + r.below(nodes as u64) as u32;
    let churn = *r.pick(&[0, 1, 2]);
    let max = *r.pick(&[4, 10, 20]);
    let ops = (0..5 + r.us(40))
        .map(|_| {
            let (n, b, o) = (node(r), node(r), r.us(max));
            match r.weighted(&[
                8,
                7,
                3,
                2 * churn,
                3 * churn,
                2 * churn,
                2 * churn,
                2 * churn,
                churn,
                3,
                2,
                6,
                8,
            ]) {
                0 => NetOp::New {
                    n,
                    realm: r.us(realms),
                    near: b,
                    len: *r.pick(&[0, 10, 1000]),
                    parent: r.chance(500).then_some(o),
                },
                1 => NetOp::Update { n, o, len: *r.pick(&[0, 10, 1000]) },
                2 => NetOp::Again { n, o, back: r.below(3) as u32 },
                3 => NetOp::Kill { n },
                4 => NetOp::Start { n },
                5 => NetOp::Break { a: n, b },
                6 => NetOp::Block { a: n, b },
                7 => NetOp::Unblock { a: n, b },
                8 => NetOp::Stall { n, ms: *r.pick(&[100, 30_000]) },
                9 => NetOp::Sync { n },
                10 => NetOp::Propagate { n },
                11 => NetOp::Ask {
                    n,
                    ask: match r.weighted(&[6, 3, 1, 1]) {
                        0 => Ask::Flo(o),
                        1 => Ask::List(o),
                        2 => Ask::Realms,
                        _ => Ask::Flos,
                    },
                    timeout: *r.pick(&[10, 500, 1000, 20_000]),
                },
                _ => NetOp::Wait { ms: *r.pick(&[0, 10, 500, 10_000, 61_000, 200_000]) },
            }
        })
        .collect();
    let limited = r.chance(300);
    let cfg = NetCfg {
        nodes,
        link: LinkCfg::gen(r, true),
        realms,
        only: (0..nodes).map(|_| (limited && r.chance(400)).then(|| r.us(realms))).collect(),
        k: *r.pick(&[1, 2, 20]),
        ids: r.below(1 << 40),
        timeout: *r.pick(&[500, 1000, 5000]),
        warm_min: *r.pick(&[0, 2, 15]),
    };
    (cfg, ops)
}

struct DNode {
    ds: DHTStorage,
    tap: UnboundedReceiver<DHTStorageOut>,
    table: tokio::sync::watch::Receiver<flmodules::dht_router::intern::Stats>,
}

struct NWorld {
    prop: String,
    cfg: NetCfg,
    links: Links,
    ids: BTreeMap<u32, NodeID>,
    stores: BTreeMap<u32, Box<dyn DataStorage + Send>>,
    nodes: BTreeMap<u32, DNode>,
    made: Made,
    reqs: Reqs,
    last: BTreeMap<u32, State>,
    bad: Bad,
}

impl NWorld {
    fn accepts(&self, n: u32, realm: usize) -> bool {
        self.cfg.only[n as usize - 1].is_none_or(|r| r % self.made.realms == realm)
    }

    async fn start(&mut self, n: u32) -> Res {
        if self.nodes.contains_key(&n) {
            return Ok(());
        }
        let s = sim();
        if !s.node(n).alive.get() {
            s.revive(n);
            s.probe("restarted");
        }
        let root = self.ids[&n];
        let net = self.links.attach(n, as_node(n, || NodeInfo::new_from_id(root))).await;
        let kc = Config { k: self.cfg.k, ..Config::default(root) };
        let conf = DHTConfig {
            our_id: root,
            realms: (0..self.made.realms)
                .filter(|r| self.cfg.only[n as usize - 1].is_some() && self.accepts(n, *r))
                .map(|r| self.made.rid(r))
                .collect(),
            owned: vec![],
            timeout: self.cfg.timeout,
        };
        let st = self.stores[&n].clone();
        let d = within(
            20_000,
            on_node(n, async move {
                let timer = Timer::start().await?.broker;
                let router = RouterNetwork::start(net).await?;
                let r = DHTRouter::start(kc, timer.clone(), router).await?;
                let ds = DHTStorage::start(st, conf, timer, r.broker).await?;
                anyhow::Ok((ds, r.stats))
            }),
        )
        .await;
        let Some(Some(Ok((mut ds, table)))) = d else {
            return viol("the storage does not start", format!("node {n}"));
        };
        let (tap, _) = on_node(n, ds.broker.get_tap_out()).await.unwrap().unwrap();
        self.nodes.insert(n, DNode { ds, tap, table });
        if let Some(st) = self.look(n).await? {
            if let (Some(b), "C19") = (self.last.get(&n), self.prop.as_str()) {
                for (o, b) in b {
                    let a = st.get(o);
                    check!(
                        a.is_some_and(|a| a.ver >= b.ver),
                        "a version goes back",
                        "node {n}, object {o}: {a:?} after {b:?}"
                    );
                }
            }
            self.last.insert(n, st);
        }
        Ok(())
    }

    async fn look(&mut self, n: u32) -> Result<Option<State>, Viol> {
        let s = sim();
        let Some(d) = self.nodes.get_mut(&n) else { return Ok(None) };
        if s.node(n).stall_until.get() > s.now_ns() {
            return Ok(None);
        }
        while d.tap.try_recv().is_ok() {}
        let _ = as_node(n, || d.ds.broker.emit_msg_in(DHTStorageIn::GetFlos));
        let tap = &mut d.tap;
        let got = within(10_000, async {
            loop {
                match tap.recv().await {
                    Some(DHTStorageOut::FloValues(f)) => return f,
                    Some(_) => {}
                    None => std::future::pending().await,
                }
            }
        })
        .await;
        let Some(flos) = got else {
            return viol("the storage does not answer any more", format!("node {n}"));
        };
        let st = self.made.state(&flos, &self.prop)?;
        for o in st.keys() {
            let realm = self.made.objs[*o].realm;
            check!(
                self.accepts(n, realm),
                "a realm is stored that is not accepted",
                "node {n}, realm {realm}"
            );
        }
        Ok(Some(st))
    }

    /// All nodes, compared with what they had before
    async fn check(&mut self) -> Res {
        self.bad.res()?;
        for n in self.nodes.keys().copied().collect::<Vec<_>>() {
            let Some(st) = self.look(n).await? else { continue };
            if let Some(b) = self.last.get(&n) {
                for (o, b) in b {
                    let a = st.get(o);
                    if self.prop == "C19" {
                        check!(
                            a.is_some_and(|a| a.ver >= b.ver),
                            "a version goes back",
                            "node {n}, object {o}: {a:?} after {b:?}"
                        );
                    }
                    if self.prop == "C20" {
                        check!(
                            a.is_some_and(|a| b.list.iter().all(|c| a.list.contains(c))),
                            "an attached object is not listed any more",
                            "node {n}, object {o}: {a:?} after {b:?}"
                        );
                    }
                }
            }
            if self.prop == "C20" {
                self.made.attached(&st)?;
            }
            self.last.insert(n, st);
        }
        self.reqs.check(&self.made)
    }

    fn put(&mut self, n: u32, o: usize, ver: usize) {
        let f = self.made.objs[o].vers[ver].clone();
        if let Some(d) = self.nodes.get_mut(&n) {
            let _ = as_node(n, || d.ds.store_flo(f));
        }
    }

    async fn op(&mut self, op: NetOp) -> Res {
        let s = sim();
        let w = |n: u32| 1 + (n.max(1) - 1) % self.cfg.nodes;
        let ow = |o: usize| o % self.made.objs.len();
        match op {
            NetOp::New { n, realm, near, len, parent } => {
                let realm = realm % self.made.realms;
                let parent = parent.map(ow).filter(|p| self.made.objs[*p].realm == realm);
                let id = self.ids[&w(near)];
                let n = w(n);
                if self.nodes.contains_key(&n) {
                    let o = self.made.create(realm, parent, len, Some((&id, 3)));
                    self.put(n, o, 0);
                }
            }
            NetOp::Update { n, o, len } => {
                let (n, o) = (w(n), ow(o));
                if o >= self.made.realms && self.nodes.contains_key(&n) {
                    self.made.update(o, len);
                    self.put(n, o, self.made.objs[o].vers.len() - 1);
                }
            }
            NetOp::Again { n, o, back } => {
                let (n, o) = (w(n), ow(o));
                let v = (self.made.objs[o].vers.len() - 1).saturating_sub(back as usize);
                self.put(n, o, v);
            }
            NetOp::Kill { n } => {
                let n = w(n);
                if self.nodes.remove(&n).is_some() {
                    self.links.kill(n);
                }
            }
            NetOp::Start { n } => self.start(w(n)).await?,
            NetOp::Break { a, b } => {
                let (a, b) = (w(a), w(b));
                if self.links.connected(a, b) {
                    self.links.break_conn(a, b);
                }
            }
            NetOp::Block { a, b } => self.links.block(w(a), w(b)),
            NetOp::Unblock { a, b } => self.links.unblock(w(a), w(b)),
            NetOp::Stall { n, ms } => s.stall(w(n), ms),
            NetOp::Sync { n } => {
                let n = w(n);
                if let Some(d) = self.nodes.get_mut(&n) {
                    let _ = as_node(n, || d.ds.sync());
                }
            }
            NetOp::Propagate { n } => {
                let n = w(n);
                if let Some(d) = self.nodes.get_mut(&n) {
                    let _ = as_node(n, || d.ds.propagate());
                }
            }
            NetOp::Ask { n, ask, timeout } => {
                let n = w(n);
                let ask = match ask {
                    Ask::Flo(o) if ow(o) < self.made.realms => return Ok(()),
                    Ask::Flo(o) => Ask::Flo(ow(o)),
                    Ask::List(o) => Ask::List(ow(o)),
                    a => a,
                };
                self.ask(n, ask, timeout, false).await?;
            }
            NetOp::Wait { ms } => sleep_ms(ms).await,
        }
        Ok(())
    }

    async fn ask(&mut self, n: u32, ask: Ask, timeout: u64, must: bool) -> Res {
        if self.prop != "C22" {
            return Ok(());
        }
        let Some(st) = self.look(n).await? else { return Ok(()) };
        let timeout = match &ask {
            Ask::Flo(_) => timeout,
            Ask::Flos => 1000,
            _ => self.cfg.timeout,
        };
        let ds = self.nodes[&n].ds.clone();
        self.reqs.ask(&self.made, n, ds, ask, timeout, st, must);
        Ok(())
    }

    /// Nodes from which this one gets the objects of a realm
    fn sources(&self, n: u32, realm: usize) -> BTreeSet<u32> {
        let mut seen = BTreeSet::from([n]);
        let mut todo = vec![n];
        while let Some(a) = todo.pop() {
            let act = super::dhtrouter::active(&self.nodes[&a].table.borrow());
            for b in self.nodes.keys() {
                if act.contains(&self.ids[b]) && self.accepts(*b, realm) && seen.insert(*b) {
                    todo.push(*b);
                }
            }
        }
        seen
    }

    fn converged(&self, start: &BTreeMap<u32, State>) -> Res {
        let s = sim();
        for (n, have) in &self.last {
            for realm in (0..self.made.realms).filter(|r| self.accepts(*n, *r)) {
                let src = self.sources(*n, realm);
                if src.len() > 1 {
                    s.probe("sources");
                }
                for m in &src {
                    let mine = start[m]
                        .iter()
                        .filter(|(o, _)| self.made.objs[**o].realm == realm)
                        .map(|(o, h)| (*o, h.clone()));
                    let want: State = mine
                        .map(|(o, mut h)| {
                            if self.prop != "C20" {
                                h.list.clear();
                            }
                            (o, h)
                        })
                        .collect();
                    if let Some((o, h, want)) = lacks(have, &want) {
                        let kind = match &h {
                            Some(h) if h.ver >= want.ver => {
                                "a node does not get the attached objects that others know"
                            }
                            _ => "a node does not get the newest version of an object",
                        };
                        return viol(
                            kind,
                            format!("node {n} has {h:?} of object {o}, but node {m} {want:?}"),
                        );
                    }
                    if !want.is_empty() && m != n {
                        s.probe("converged");
                    }
                }
            }
        }
        Ok(())
    }
}

async fn run_net(case: Rc<Case>) -> Res {
    let cfg: NetCfg = case.cfg();
    let s = sim();
    let links = Links::new(cfg.link.clone());
    let mut r = Rng::stream(cfg.ids, "ids");
    let ids = (1..=cfg.nodes)
        .map(|n| (n, U256::from(std::array::from_fn::<u8, 32, _>(|_| r.below(256) as u8))))
        .collect();
    let mut made = Made::default();
    as_node(0, || {
        for i in 0..cfg.realms {
            made.add_realm(&format!("realm{i}"), 1_000_000_000);
        }
    });
    let mut w = NWorld {
        prop: case.prop.clone(),
        links,
        ids,
        stores: (1..=cfg.nodes)
            .map(|n| (n, DataStorageTemp::new_box() as Box<dyn DataStorage + Send>))
            .collect(),
        nodes: Default::default(),
        cfg,
        made,
        reqs: Default::default(),
        last: Default::default(),
        bad: Bad::new(),
    };
    for n in 1..=w.cfg.nodes {
        w.start(n).await?;
    }
    for realm in 0..w.made.realms {
        let n = 1 + r.below(w.cfg.nodes as u64) as u32;
        w.put(n, realm, 0);
    }
    sleep_ms(w.cfg.warm_min * MIN).await;
    for (i, op) in case.ops::<NetOp>().into_iter().enumerate() {
        w.op(op).await?;
        if (case.seed >> (i % 60)) & 1 == 0 {
            w.check().await?;
        }
    }
    // The longest stall
    sleep_ms(30_000).await;
    s.calm.set(true);
    w.links.heal();
    for n in 1..=w.cfg.nodes {
        if (case.seed >> (n % 60)) & 7 != 0 {
            w.start(n).await?;
        }
    }
    sleep_ms(10_000).await;
    w.check().await?;
    w.last.retain(|n, _| w.nodes.contains_key(n));
    let start = w.last.clone();
    // Until the routing tables know all, and then one minute for each node on the way
    for _ in 0..4 {
        sleep_ms((15 + w.cfg.nodes as u64) * MIN).await;
        w.check().await?;
        if w.converged(&start).is_ok() {
            break;
        }
    }
    if w.prop != "C22" {
        w.converged(&start)?;
    } else {
        let all: Vec<u32> = w.nodes.keys().copied().collect();
        for _ in 0..if all.is_empty() { 0 } else { 8 } {
            let o = r.us(w.made.objs.len());
            let n = *r.pick(&all);
            if o < w.made.realms {
                continue;
            }
            let realm = w.made.objs[o].realm;
            let near = |m: &u32| share(&w.ids[m], &w.made.objs[o].id);
            let others = all.iter().filter(|m| **m != n);
            let must = w.converged(&start).is_ok()
                && others.clone().all(|m| w.last[m].contains_key(&o) && w.accepts(*m, realm))
                && others.clone().any(|m| near(m) > near(&n))
                && all.len() > 1;
            if must && !w.last[&n].contains_key(&o) {
                s.probe("found by route");
            }
            w.ask(n, Ask::Flo(o), 20_000, must).await?;
        }
        sleep_ms(30_000).await;
        w.check().await?;
    }
    w.links.end();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let real: &[&str] = &[
        "flmodules DHTStorage, Flo, FloRealm, Timer, Broker",
        "flmodules DHTRouter, RouterNetwork in the scenario net",
    ];
    let stub: &[&str] = &[
        "other nodes and the DHT router in the scenario store",
        "Network is replaced by simulated connections in the scenario net",
        "storage in memory, which survives crashes, except for C21",
    ];
    vec![
        Prop {
            id: "C18",
            rule: "a node with one or two realms of 100 to 20000 bytes, limited to some realms or not, gets up to 65 objects of all sizes at all distances, updates, links, and changes of the size of the realms, on all ways, also several at once, and restarts",
            real,
            stub,
            reach: &["evicted", "accepted", "refused", "only the description", "restarted"],
            scens: vec![crate::scen!("store", 1, gen_c18, run_store)],
        },
        Prop {
            id: "C19",
            rule: "old and new versions arrive at a node in all orders on all ways; or 2 to 7 nodes store and update objects while messages get lost, repeated and reordered, connections break and nodes crash, restart and stall; then everything works for 17 minutes or more",
            real,
            stub,
            reach: &["restarted", "converged", "older version", "newer version", "batch"],
            scens: vec![
                crate::scen!("store", 1, gen_c19, run_store),
                crate::scen!("net", 2, gen_net, run_net),
            ],
        },
        Prop {
            id: "C20",
            rule: "parents and attached objects arrive at a node in all orders on all ways, with updates, restarts and little space; or are stored and updated on 2 to 7 nodes with lossy links, crashes and restarts; then everything works for 17 minutes or more",
            real,
            stub,
            reach: &["restarted", "attached", "converged", "batch"],
            scens: vec![
                crate::scen!("store", 1, gen_c20, run_store),
                crate::scen!("net", 2, gen_net, run_net),
            ],
        },
        Prop {
            id: "C21",
            rule: "a node with a file on a failing disk gets objects, updates and links, and crashes, also in the middle of changes of the disk; at times the stored file cannot be read",
            real: &["flmodules DHTStorage, Flo, FloRealm, Timer, Broker", "flarch DataStorageFile"],
            stub: &[
                "other nodes and the DHT router",
                "libc file calls fail and the process dies as the simulator decides",
            ],
            reach: &["restarted", "kept", "start-failed"],
            scens: vec![crate::scen!("store", 1, gen_c21, run_store)],
        },
        Prop {
            id: "C22",
            rule: "requests for objects, lists and realms on a node whose answers come early, late, repeated, old or not at all, or between 2 to 7 nodes with lossy links, crashes and restarts; then objects are looked for in a network that works",
            real,
            stub,
            reach: &["own answer", "answer of others", "no answer", "list", "realms", "found by route"],
            scens: vec![
                crate::scen!("store", 2, gen_c22, run_store),
                crate::scen!("net", 1, gen_net, run_net),
            ],
        },
    ]
}
