//! C23: pages and tags of a realm.
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

use flarch::data_storage::{DataStorage, DataStorageTemp};
use flarch::nodeids::{NodeID, U256};
use flcrypto::access::Condition;
use flcrypto::signer::{Signer, SignerTrait};
use flcrypto::signer_ed25519::SignerEd25519;
use flmodules::dht_router::broker::DHTRouter;
use flmodules::dht_router::kademlia::Config;
use flmodules::dht_storage::broker::{DHTStorage, DHTStorageIn, DHTStorageOut};
use flmodules::dht_storage::core::{Cuckoo, DHTConfig, RealmConfig};
use flmodules::dht_storage::realm_view::{RealmView, RealmViewBuilder};
use flmodules::flo::blob::{BlobAccess, BlobFamily, BlobID, BlobPath};
use flmodules::flo::crypto::FloVerifier;
use flmodules::flo::realm::RealmID;
use flmodules::nodeconfig::NodeInfo;
use flmodules::router::broker::RouterNetwork;
use flmodules::timer::Timer;
use serde::{Deserialize, Serialize};
use tokio::sync::mpsc::UnboundedReceiver;

use crate::case::{viol, Case, Prop, Res, Viol};
use crate::check;
use crate::links::{LinkCfg, Links};
use crate::rng::Rng;
use crate::sim::{as_node, on_node, quiesce, sim, sleep_ms, within};

const MIN: u64 = 60_000;
const VIEWS: u32 = 2;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cfg {
    nodes: u32,
    link: LinkCfg,
    signers: usize,
    /// All signers may change the root
    open: bool,
    ids: u64,
    warm_min: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Attach {
    No,
    Root,
    Parent,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Create {
        n: u32,
        v: u32,
        fresh: bool,
        name: u32,
        parent: Option<usize>,
        attach: Attach,
        who: usize,
        shared: bool,
        len: usize,
    },
    /// Fields that are not given stay the same.
    Edit {
        n: u32,
        v: u32,
        fresh: bool,
        page: usize,
        who: usize,
        name: Option<u32>,
        parent: Option<Option<usize>>,
        len: Option<usize>,
    },
    Tag { n: u32, v: u32, name: u32, top: bool, who: usize },
    Open { n: u32, v: u32 },
    Refresh { n: u32, v: u32 },
    Kill { n: u32 },
    Start { n: u32 },
    Break { a: u32, b: u32 },
    Block { a: u32, b: u32 },
    Unblock { a: u32, b: u32 },
    Sync { n: u32 },
    Wait { ms: u64 },
}

fn gen(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let nodes = *r.pick(&[1, 1, 1, 2, 3, 4]);
    let node = |r: &mut Rng| 1 + r.below(nodes as u64) as u32;
    let churn = if nodes == 1 { 0 } else { *r.pick(&[0, 1, 2]) };
    let signers = 1 + r.us(3);
    let names = *r.pick(&[3, 8, 1000]);
    let max = *r.pick(&[3, 6, 12]);
    let deep = r.chance(500);
    let ops = (0..3 + r.us(24))
        .map(|_| {
            let (n, b, v, fresh) = (node(r), node(r), r.below(VIEWS as u64) as u32, r.chance(400));
            let who = if r.chance(700) { 0 } else { r.us(signers) };
            let up = |r: &mut Rng| if deep || r.chance(500) { r.us(max) } else { 0 };
            match r.weighted(&[
                10,
                10,
                3,
                2,
                2,
                churn,
                2 * churn,
                churn,
                churn,
                2 * churn,
                churn,
                2 + 3 * churn,
            ]) {
                0 => Op::Create {
                    n,
                    v,
                    fresh,
                    name: r.below(names) as u32,
                    parent: r.chance(800).then(|| up(r)),
                    attach: match r.weighted(&[2, 3, 1]) {
                        0 => Attach::No,
                        1 => Attach::Root,
                        _ => Attach::Parent,
                    },
                    who,
                    shared: r.chance(400),
                    len: *r.pick(&[0, 20, 2000]),
                },
                1 => Op::Edit {
                    n,
                    v,
                    fresh,
                    page: r.us(max),
                    who,
                    name: r.chance(400).then(|| r.below(names) as u32),
                    parent: r.chance(500).then(|| r.chance(800).then(|| up(r))),
                    len: r.chance(400).then(|| *r.pick(&[0, 30, 1000])),
                },
                2 => Op::Tag { n, v, name: r.below(names) as u32, top: r.chance(500), who },
                3 => Op::Open { n, v },
                4 => Op::Refresh { n, v },
                5 => Op::Kill { n },
                6 => Op::Start { n },
                7 => Op::Break { a: n, b },
                8 => Op::Block { a: n, b },
                9 => Op::Unblock { a: n, b },
                10 => Op::Sync { n },
                _ => Op::Wait { ms: *r.pick(&[0, 10, 500, 10_000, 61_000]) },
            }
        })
        .collect();
    let cfg = Cfg {
        nodes,
        link: LinkCfg::gen(r, true),
        signers,
        open: r.chance(700),
        ids: r.below(1 << 40),
        warm_min: if nodes == 1 { 0 } else { *r.pick(&[0, 3, 15]) },
    };
    (cfg, ops)
}

// ---------------------------------------------------------------- model

#[derive(Debug)]
struct Item {
    id: U256,
    name: String,
    content: String,
    parent: Option<usize>,
    attached: Option<usize>,
    who: Vec<usize>,
    old: BTreeSet<String>,
}

/// Either the pages or the tags; the first one is the root.
#[derive(Default)]
struct Tree {
    items: Vec<Item>,
    /// Parents with their children
    links: BTreeSet<(usize, usize)>,
}

impl Tree {
    fn full(&self, i: usize) -> Option<String> {
        let mut path = format!("/{}", self.items[i].name);
        let mut seen = BTreeSet::from([i]);
        let mut curr = self.items[i].parent;
        while let Some(p) = curr {
            if !seen.insert(p) {
                return None;
            }
            path = format!("/{}{path}", self.items[p].name);
            curr = self.items[p].parent;
        }
        Some(path)
    }

    fn attached(&self, i: usize) -> impl Iterator<Item = usize> + '_ {
        (0..self.items.len()).filter(move |c| self.items[*c].attached == Some(i))
    }

    /// Everything to which this path leads
    fn find(&self, path: &str) -> BTreeSet<usize> {
        let mut curr = BTreeSet::from([0]);
        let mut found = BTreeSet::new();
        for part in path.trim_start_matches('/').split('/') {
            found = curr
                .iter()
                .flat_map(|i| std::iter::once(*i).chain(self.attached(*i)))
                .filter(|i| self.items[*i].name == part)
                .collect();
            curr = self
                .links
                .iter()
                .filter(|(p, _)| found.contains(p))
                .map(|(_, c)| *c)
                .collect();
        }
        found
    }

    /// The paths have changed.
    fn remember(&mut self) {
        for i in 0..self.items.len() {
            if let Some(f) = self.full(i) {
                self.items[i].old.insert(f);
            }
        }
    }
}

struct DNode {
    ds: DHTStorage,
    tap: UnboundedReceiver<DHTStorageOut>,
    views: BTreeMap<u32, RealmView>,
}

struct World {
    cfg: Cfg,
    links: Links,
    ids: BTreeMap<u32, NodeID>,
    stores: BTreeMap<u32, Box<dyn DataStorage + Send>>,
    nodes: BTreeMap<u32, DNode>,
    signers: Vec<Signer>,
    rid: Option<RealmID>,
    /// By id of the flo
    newest: BTreeMap<U256, u32>,
    pages: Tree,
    tags: Tree,
    number: u64,
}

fn name(n: u32) -> String {
    match n {
        0 => "blog".into(),
        1 => "a b.html".into(),
        2 => "root".into(),
        n => format!("p{n}"),
    }
}

impl World {
    async fn start(&mut self, n: u32) -> Res {
        if self.nodes.contains_key(&n) {
            return Ok(());
        }
        let s = sim();
        if !s.node(n).alive.get() {
            s.revive(n);
            s.probe("restarted");
        }
        let root = self.ids[&n];
        let net = self.links.attach(n, as_node(n, || NodeInfo::new_from_id(root))).await;
        let st = self.stores[&n].clone();
        let d = within(
            20_000,
            on_node(n, async move {
                let timer = Timer::start().await?.broker;
                let router = RouterNetwork::start(net).await?;
                let r = DHTRouter::start(Config::default(root), timer.clone(), router).await?;
                DHTStorage::start(st, DHTConfig::default(root), timer, r.broker).await
            }),
        )
        .await;
        let Some(Some(Ok(mut ds))) = d else {
            return viol("the storage does not start", format!("node {n}"));
        };
        let (tap, _) = on_node(n, ds.broker.get_tap_out()).await.unwrap().unwrap();
        let views = Default::default();
        self.nodes.insert(n, DNode { ds, tap, views });
        Ok(())
    }

    /// What the node has stored
    async fn look(&mut self, n: u32) -> Result<BTreeMap<U256, u32>, Viol> {
        let d = self.nodes.get_mut(&n).unwrap();
        while d.tap.try_recv().is_ok() {}
        let _ = as_node(n, || d.ds.broker.emit_msg_in(DHTStorageIn::GetFlos));
        let tap = &mut d.tap;
        let got = within(10_000, async {
            loop {
                match tap.recv().await {
                    Some(DHTStorageOut::FloValues(f)) => return f,
                    Some(_) => {}
                    None => std::future::pending().await,
                }
            }
        })
        .await;
        let Some(flos) = got else {
            return viol("the storage does not answer any more", format!("node {n}"));
        };
        Ok(flos.iter().map(|(f, _)| (*f.flo_id(), f.version())).collect())
    }

    async fn complete(&mut self, n: u32) -> Result<bool, Viol> {
        let l = self.look(n).await?;
        Ok(self.newest.iter().all(|(i, v)| l.get(i).is_some_and(|l| l >= v)))
    }

    /// If the node is up and has everything, so that it can change something.
    async fn ready(&mut self, n: u32) -> Result<bool, Viol> {
        if !self.nodes.contains_key(&n) {
            return Ok(false);
        }
        for _ in 0..2 {
            if self.complete(n).await? {
                return Ok(true);
            }
            let d = self.nodes.get_mut(&n).unwrap();
            let _ = as_node(n, || d.ds.sync());
            sleep_ms(5_000).await;
        }
        let ok = self.complete(n).await?;
        if !ok {
            sim().probe("not up to date");
        }
        Ok(ok)
    }

    /// After a change on this node
    async fn changed(&mut self, n: u32) -> Res {
        quiesce().await;
        for (i, v) in self.look(n).await? {
            let e = self.newest.entry(i).or_default();
            *e = v.max(*e);
        }
        Ok(())
    }

    async fn open(&mut self, n: u32, v: u32) -> Res {
        let ds = self.nodes[&n].ds.clone();
        let rid = self.rid.clone().unwrap();
        let view = within(600_000, on_node(n, RealmView::new_from_id(ds, rid))).await;
        match view {
            Some(Some(Ok(view))) => {
                self.nodes.get_mut(&n).unwrap().views.insert(v, view);
                Ok(())
            }
            Some(Some(Err(e))) => viol("a realm cannot be opened", format!("node {n}: {e}")),
            _ => viol("opening a realm does not end", format!("node {n}")),
        }
    }

    async fn view(&mut self, n: u32, v: u32) -> Result<&mut RealmView, Viol> {
        if !self.nodes[&n].views.contains_key(&v) {
            self.open(n, v).await?;
        }
        Ok(self.nodes.get_mut(&n).unwrap().views.get_mut(&v).unwrap())
    }

    async fn refresh(&mut self, n: u32, v: u32) -> Res {
        let view = self.view(n, v).await?;
        let r = within(600_000, on_node(n, view.update_all())).await;
        check!(
            matches!(r, Some(Some(Ok(_)))),
            "a view cannot be updated",
            "node {n}: {r:?}"
        );
        Ok(())
    }

    fn cond(&self, who: &[usize]) -> Condition {
        let one = |w: &usize| Condition::Verifier(self.signers[*w].verifier());
        match who {
            [w] => one(w),
            _ => Condition::NofT(1, who.iter().map(one).collect()),
        }
    }

    fn content(&mut self, len: usize) -> String {
        self.number += 1;
        format!("<html>{} {}", self.number, "x".repeat(len))
    }

    /// All paths, links and contents as this view, which has just been updated, shows them
    fn check_view(&self, n: u32, v: u32, when: &str) -> Res {
        let s = sim();
        let view = &self.nodes[&n].views[&v];
        let at = || format!("node {n}, view {v}, {when}");
        for (i, p) in self.pages.items.iter().enumerate() {
            let full = self.pages.full(i);
            let reached = full.as_ref().is_some_and(|f| self.pages.find(f).contains(&i));
            let stored = view.pages.storage.get(&BlobID::from(p.id));
            if let Some(b) = stored {
                check!(
                    b.get_index() == p.content && b.get_path() == Some(&p.name),
                    "a page is not the newest one",
                    "{}: page {i} {:?} {} bytes instead of {:?} {} bytes",
                    at(),
                    b.get_path(),
                    b.get_index().len(),
                    p.name,
                    p.content.len()
                );
                let parents = p.parent.map(|q| BlobID::from(self.pages.items[q].id));
                check!(
                    b.get_parents() == parents.into_iter().collect::<Vec<_>>(),
                    "a page has another parent",
                    "{}: page {i}: {:?} instead of {:?}",
                    at(),
                    b.get_parents(),
                    p.parent
                );
                let mut have: Vec<_> = b.get_children();
                let mut want: Vec<_> = self
                    .pages
                    .links
                    .iter()
                    .filter(|l| l.0 == i)
                    .map(|l| BlobID::from(self.pages.items[l.1].id))
                    .collect();
                have.sort_by_key(|b| b.to_string());
                want.sort_by_key(|b| b.to_string());
                check!(
                    have == want,
                    "a page links to other children",
                    "{}: page {i}: {have:?} instead of {want:?}",
                    at()
                );
                let got = view.get_full_path_id(&BlobID::from(p.id));
                match &full {
                    Some(f) => check!(
                        got.as_ref().is_ok_and(|g| g == f)
                            || got.is_err() && !self.chain_in(view, i),
                        "a page shows another path",
                        "{}: page {i}: {got:?} instead of {f}",
                        at()
                    ),
                    None => {
                        check!(
                            got.is_err(),
                            "a page without end of its path has one",
                            "{}: page {i}: {got:?}",
                            at()
                        );
                        s.probe("loop");
                    }
                }
            } else {
                check!(
                    !reached,
                    "a page is missing",
                    "{}: page {i} {full:?}",
                    at()
                );
            }
            for path in p.old.iter() {
                let want = self.pages.find(path);
                let got = view.get_page_from_path(path);
                let Ok(got) = got else {
                    check!(
                        want.is_empty(),
                        "a page is not found by its path",
                        "{}: {path}, page {want:?}",
                        at()
                    );
                    s.probe("old path");
                    continue;
                };
                let id = got.blob_id();
                let found = want.iter().find(|w| BlobID::from(self.pages.items[**w].id) == id);
                let Some(found) = found else {
                    return viol(
                        "a page is found by a path that is not its one",
                        format!("{}: {path}: {id} {:?} instead of {want:?}", at(), got.get_path()),
                    );
                };
                let exact: Vec<_> = want
                    .iter()
                    .filter(|w| self.pages.full(**w).as_ref() == Some(path))
                    .collect();
                check!(
                    exact.is_empty() || exact.contains(&found),
                    "another page is found than the one of this path",
                    "{}: {path}: page {found} instead of {exact:?}",
                    at()
                );
                if exact.contains(&found) {
                    s.probe(if path.matches('/').count() > 2 { "deep" } else { "found" });
                }
            }
        }
        for (i, t) in self.tags.items.iter().enumerate() {
            let reached = i == 0 || t.attached == Some(0);
            if !reached {
                continue;
            }
            check!(
                view.tags.storage.contains_key(&BlobID::from(t.id)),
                "a tag is missing",
                "{}: tag {i} of {:?}",
                at(),
                t.attached
            );
            if i > 0 {
                s.probe("tag");
            }
        }
        Ok(())
    }

    fn chain_in(&self, view: &RealmView, i: usize) -> bool {
        let mut curr = Some(i);
        while let Some(c) = curr {
            let it = &self.pages.items[c];
            if !view.pages.storage.contains_key(&BlobID::from(it.id)) {
                return false;
            }
            curr = it.parent;
        }
        true
    }

    async fn op(&mut self, op: Op) -> Res {
        let s = sim();
        let nodes = self.cfg.nodes;
        let w = |n: u32| 1 + (n.max(1) - 1) % nodes;
        match op {
            Op::Create { n, v, fresh, name: nm, parent, attach, who, shared, len } => {
                let n = w(n);
                if !self.ready(n).await? {
                    return Ok(());
                }
                if fresh {
                    self.refresh(n, v).await?;
                }
                let who = who % self.signers.len();
                let all = (0..self.signers.len()).collect::<Vec<_>>();
                let may = if shared { all } else { vec![who] };
                let cond = self.cond(&may);
                let parent = parent.map(|p| p % self.pages.items.len());
                let attached = match attach {
                    Attach::No => None,
                    Attach::Root => Some(0),
                    Attach::Parent => parent,
                };
                let id = |i: usize| self.pages.items[i].id;
                let pid = parent.map(|p| BlobID::from(id(p)));
                let cuckoo = attached.map_or(Cuckoo::None, |a| Cuckoo::Parent(id(a).into()));
                let content = self.content(len);
                let signer = self.signers[who].clone();
                let c = content.clone();
                let view = self.view(n, v).await?;
                let r = within(
                    600_000,
                    on_node(
                        n,
                        view.create_http_cuckoo(&name(nm), c, pid, cond, cuckoo, &[&signer]),
                    ),
                )
                .await;
                let page = match r {
                    Some(Some(Ok(p))) => p,
                    r => return viol("a page cannot be created", format!("node {n}: {r:?}")),
                };
                let i = self.pages.items.len();
                self.pages.items.push(Item {
                    id: *page.flo_id(),
                    name: name(nm),
                    content,
                    parent,
                    attached,
                    who: may,
                    old: Default::default(),
                });
                if let Some(p) = parent {
                    if self.pages.items[p].who.contains(&who) {
                        self.pages.links.insert((p, i));
                        s.probe("linked");
                    }
                }
                self.pages.remember();
                self.changed(n).await?;
                check!(
                    self.newest.contains_key(&page.flo_id()),
                    "a page that was created is not stored",
                    "node {n}: page {i}"
                );
                self.after(n, v, fresh, i).await?;
            }
            Op::Edit { n, v, fresh, page, who, name: nm, parent, len } => {
                let n = w(n);
                if !self.ready(n).await? {
                    return Ok(());
                }
                if fresh {
                    self.refresh(n, v).await?;
                }
                let i = page % self.pages.items.len();
                let who = who % self.signers.len();
                let nm = nm.map(name).unwrap_or(self.pages.items[i].name.clone());
                let parent = match parent {
                    // The root stays at the top.
                    Some(p) if i > 0 => p.map(|p| p % self.pages.items.len()),
                    _ => self.pages.items[i].parent,
                };
                let content = match len {
                    Some(l) => self.content(l),
                    None => self.pages.items[i].content.clone(),
                };
                let id = BlobID::from(self.pages.items[i].id);
                let pid = parent.map(|p| BlobID::from(self.pages.items[p].id));
                let ver = self.newest[&self.pages.items[i].id];
                let signer = self.signers[who].clone();
                let (n2, c2) = (nm.clone(), content.clone());
                let view = self.view(n, v).await?;
                if !view.pages.storage.contains_key(&id) {
                    return Ok(());
                }
                let edit = move |b: &mut flmodules::flo::blob::BlobPage| {
                    b.set_path(n2);
                    b.set_data("index.html".into(), c2.into());
                    b.set_parents(pid.into_iter().collect());
                };
                let r = within(600_000, on_node(n, view.update_page(&id, edit, &[&signer]))).await;
                let Some(Some(r)) = r else {
                    return viol("changing a page does not end", format!("node {n}, page {i}"));
                };
                let may = self.pages.items[i].who.contains(&who);
                if !may {
                    check!(
                        r.is_err(),
                        "a page is changed by somebody who may not",
                        "node {n}, page {i}"
                    );
                    s.probe("refused");
                    return Ok(());
                }
                check!(
                    r.is_ok(),
                    "a page cannot be changed",
                    "node {n}, page {i}: {:?}",
                    r.err()
                );
                let before = self.pages.items[i].parent;
                if before != parent {
                    if let Some(b) = before.filter(|b| self.pages.items[*b].who.contains(&who)) {
                        self.pages.links.remove(&(b, i));
                        s.probe("moved away");
                    }
                    if let Some(a) = parent.filter(|a| self.pages.items[*a].who.contains(&who)) {
                        self.pages.links.insert((a, i));
                        s.probe("moved to");
                    }
                }
                let it = &mut self.pages.items[i];
                it.name = nm;
                it.content = content;
                it.parent = parent;
                self.pages.remember();
                self.changed(n).await?;
                check!(
                    self.newest[&self.pages.items[i].id] > ver,
                    "a change of a page is not stored",
                    "node {n}: page {i}, version {ver}"
                );
                self.after(n, v, fresh, i).await?;
            }
            Op::Tag { n, v, name: nm, top, who } => {
                let n = w(n);
                if !self.ready(n).await? {
                    return Ok(());
                }
                let who = who % self.signers.len();
                let cond = self.cond(&[who]);
                let root = self.tags.items[0].id;
                let signer = self.signers[who].clone();
                let (parent, cuckoo) =
                    ((!top).then_some(BlobID::from(root)), Cuckoo::Parent(root.into()));
                let view = self.view(n, v).await?;
                let r = as_node(n, || {
                    view.create_tag_cuckoo(&name(nm), parent, cond, cuckoo, &[&signer])
                });
                let tag = match r {
                    Ok(t) => t,
                    Err(e) => return viol("a tag cannot be created", format!("node {n}: {e}")),
                };
                self.tags.items.push(Item {
                    id: *tag.flo_id(),
                    name: name(nm),
                    content: String::new(),
                    parent: (!top).then_some(0),
                    attached: Some(0),
                    who: vec![who],
                    old: Default::default(),
                });
                self.changed(n).await?;
                check!(
                    self.newest.contains_key(&tag.flo_id()),
                    "a tag that was created is not stored",
                    "node {n}"
                );
            }
            Op::Open { n, v } => {
                let n = w(n);
                if !self.nodes.contains_key(&n) {
                    return Ok(());
                }
                if self.complete(n).await? {
                    self.open(n, v).await?;
                    self.check_view(n, v, "opened")?;
                } else {
                    // The view can miss anything, but only until it is updated.
                    let d = self.nodes.get_mut(&n).unwrap();
                    let open = RealmView::new_from_id(d.ds.clone(), self.rid.clone().unwrap());
                    if let Some(Some(Ok(view))) = within(600_000, on_node(n, open)).await {
                        s.probe("opened early");
                        if view.get_root_page().is_none() {
                            s.probe("opened without root");
                        }
                        self.nodes.get_mut(&n).unwrap().views.insert(v, view);
                    }
                }
            }
            Op::Refresh { n, v } => {
                let n = w(n);
                if self.ready(n).await? {
                    self.refresh(n, v).await?;
                    self.check_view(n, v, "updated")?;
                }
            }
            Op::Kill { n } => {
                let n = w(n);
                if self.nodes.remove(&n).is_some() {
                    self.links.kill(n);
                }
            }
            Op::Start { n } => self.start(w(n)).await?,
            Op::Break { a, b } => {
                let (a, b) = (w(a), w(b));
                if self.links.connected(a, b) {
                    self.links.break_conn(a, b);
                }
            }
            Op::Block { a, b } => self.links.block(w(a), w(b)),
            Op::Unblock { a, b } => self.links.unblock(w(a), w(b)),
            Op::Sync { n } => {
                let n = w(n);
                if let Some(d) = self.nodes.get_mut(&n) {
                    let _ = as_node(n, || d.ds.sync());
                }
            }
            Op::Wait { ms } => sleep_ms(ms).await,
        }
        Ok(())
    }

    /// What the view shows with which something has been changed
    async fn after(&mut self, n: u32, v: u32, fresh: bool, i: usize) -> Res {
        let p = &self.pages.items[i];
        let view = &self.nodes[&n].views[&v];
        let b = view.pages.storage.get(&BlobID::from(p.id));
        check!(
            b.is_some_and(|b| b.get_index() == p.content && b.get_path() == Some(&p.name)),
            "a view does not show what was changed with it",
            "node {n}, view {v}, page {i}"
        );
        if fresh {
            self.refresh(n, v).await?;
            self.check_view(n, v, "updated after a change")?;
        }
        Ok(())
    }
}

async fn run(case: Rc<Case>) -> Res {
    let cfg: Cfg = case.cfg();
    let s = sim();
    let links = Links::new(cfg.link.clone());
    let mut r = Rng::stream(cfg.ids, "ids");
    let ids = (1..=cfg.nodes)
        .map(|n| (n, U256::from(std::array::from_fn::<u8, 32, _>(|_| r.below(256) as u8))))
        .collect();
    let signers = as_node(0, || (0..cfg.signers).map(|_| SignerEd25519::new()).collect());
    let mut w = World {
        links,
        ids,
        stores: (1..=cfg.nodes)
            .map(|n| (n, DataStorageTemp::new_box() as Box<dyn DataStorage + Send>))
            .collect(),
        nodes: Default::default(),
        signers,
        cfg,
        rid: None,
        newest: Default::default(),
        pages: Default::default(),
        tags: Default::default(),
        number: 0,
    };
    for n in 1..=w.cfg.nodes {
        w.start(n).await?;
    }
    // The realm
    let who = if w.cfg.open { (0..w.cfg.signers).collect() } else { vec![0] };
    let cond = w.cond(&who);
    let ds = w.nodes[&1].ds.clone();
    let sig = vec![w.signers[0].clone()];
    let build = RealmViewBuilder::new(ds, "realm".into(), cond.clone(), sig.clone())
        .config(RealmConfig {
            max_space: 1_000_000_000,
            max_flo_size: 1_000_000,
        })
        .root_http("root".into(), "<html>root".into(), None, cond.clone(), sig.clone())
        .root_tag("root".into(), None, cond, sig);
    let view = match within(60_000, on_node(1, build.build())).await {
        Some(Some(Ok(v))) => v,
        r => return viol("a realm cannot be created", format!("{:?}", r.map(|r| r.map(|r| r.err())))),
    };
    w.rid = Some(view.realm.realm_id());
    for (tree, root) in [
        (&mut w.pages, view.get_root_page().map(|p| *p.flo_id())),
        (&mut w.tags, view.get_root_tag().map(|p| *p.flo_id())),
    ] {
        let Some(id) = root else {
            return viol("the root is missing in a new realm", "");
        };
        tree.items.push(Item {
            id,
            name: "root".into(),
            content: "<html>root".into(),
            parent: None,
            attached: None,
            who: who.clone(),
            old: Default::default(),
        });
        tree.remember();
    }
    w.nodes.get_mut(&1).unwrap().views.insert(0, view);
    for sg in &w.signers {
        let f = as_node(1, || FloVerifier::new(w.rid.clone().unwrap(), sg.verifier()));
        let d = w.nodes.get_mut(&1).unwrap();
        let _ = as_node(1, || d.ds.store_flo(f.into()));
    }
    w.changed(1).await?;
    w.check_view(1, 0, "new realm")?;
    sleep_ms(w.cfg.warm_min * MIN).await;
    for op in case.ops::<Op>() {
        w.op(op).await?;
    }
    s.calm.set(true);
    w.links.heal();
    for n in 1..=w.cfg.nodes {
        w.start(n).await?;
    }
    let mut done = true;
    for n in 1..=w.cfg.nodes {
        let mut left = 4 * (15 + w.cfg.nodes);
        while !w.complete(n).await? {
            sleep_ms(MIN).await;
            left -= 1;
            if left == 0 {
                done = false;
                break;
            }
        }
    }
    if !done {
        s.probe("not all synced");
        return Ok(());
    }
    s.probe(if w.cfg.nodes > 1 { "synced" } else { "alone" });
    for n in 1..=w.cfg.nodes {
        for v in w.nodes[&n].views.keys().copied().collect::<Vec<_>>() {
            w.refresh(n, v).await?;
            w.check_view(n, v, "updated at the end")?;
        }
        w.open(n, VIEWS).await?;
        w.check_view(n, VIEWS, "opened at the end")?;
    }
    w.links.end();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        rule: "1 to 4 nodes create pages and tags in a realm, and rename, edit and move pages, with one to three signers of whom some may not change some pages, through views that are old or new, while messages get lost, connections break and nodes crash and restart; then all views are compared with a model of the tree of pages",
        real: &["flmodules RealmView, DHTStorage, DHTRouter, RouterNetwork, Flo, FloBlob, Timer, Broker", "flcrypto signers and conditions"],
        stub: &["Network is replaced by simulated connections", "storage in memory, which survives crashes"],
        reach: &["linked", "moved to", "moved away", "refused", "found", "deep", "old path", "tag", "synced", "restarted", "loop", "opened early"],
        scens: vec![crate::scen!("pages", 1, gen, run)],
    }]
}
