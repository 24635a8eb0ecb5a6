//! C05: identity and keys of a node over crashes and failing disks.
use std::rc::Rc;

use bytes::Bytes;
use flarch::broker::Broker;
use flarch::data_storage::{DataStorage, DataStorageFile};
use flcrypto::signer::{Signer, SignerTrait, VerifierTrait};
use flmodules::nodeconfig::NodeConfig;
use flmodules::timer::Timer;
use flmodules::Modules;
use flnode::node::Node;
use serde::{Deserialize, Serialize};

use super::util::{base64, disk_faults, gen_disk, hex, DiskCfg};
use crate::case::{Case, Prop, Res};
use crate::check;
use crate::rng::Rng;
use crate::sim::{as_node, finding, on_node, sim, sleep_ms, within, Scratch};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cfg {
    disk: DiskCfg,
    /// Which modules run
    modules: u32,
    /// The directory holds a configuration of the previous format
    old: bool,
    /// Faults are only for files with this name
    only: String,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Config,
    Start,
    Rename { n: u32 },
    Signer,
    AddSigner,
    Store,
    Chat { n: u32 },
    Wait { ms: u64 },
    Crash { after: u32 },
    Stop,
    Faults { on: bool },
}

fn gen(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let crash = *r.pick(&[0, 1, 3]);
    let n = 4 + r.us(26);
    let mut ops = vec![Op::Start];
    for _ in 0..n {
        ops.push(match r.weighted(&[2, 10, 3, 5, 2, 1, 2, 2, 3 * crash, 4, 4]) {
            0 => Op::Config,
            1 => Op::Start,
            2 => Op::Rename { n: r.below(1000) as u32 },
            3 => Op::Signer,
            4 => Op::AddSigner,
            5 => Op::Store,
            6 => Op::Chat { n: r.below(1000) as u32 },
            7 => Op::Wait {
                ms: *r.pick(&[10, 1500, 65_000]),
            },
            8 => Op::Crash { after: r.below(7) as u32 },
            9 => Op::Stop,
            _ => Op::Faults { on: r.chance(600) },
        });
    }
    let at = r.us(ops.len().min(4));
    ops.insert(at, Op::Faults { on: true });
    (
        Cfg {
            disk: gen_disk(r),
            modules: *r.pick(&[0xf7, 0xf7, 0, 0, 0x6, 0xc0]),
            old: r.chance(150),
            only: r.pick(&["", "", "nodeConfig", "CryptoStorage", "Gossip"]).to_string(),
        },
        ops,
    )
}

const BAD: [&str; 6] = [
    "disk-write-error",
    "disk-create-error",
    "disk-other-error",
    "disk-open-error",
    "disk-read-error",
    "disk-stat-error",
];

#[derive(Clone, PartialEq, Debug)]
struct Ident {
    pubkey: Vec<u8>,
    keypair: Vec<u8>,
    name: String,
}

impl Ident {
    fn of(c: &NodeConfig) -> Self {
        Ident {
            pubkey: c.info.pubkey.clone(),
            keypair: c.keypair.clone(),
            name: c.info.name.clone(),
        }
    }
}

struct Model {
    /// What the node may be; empty as long as it never was anything
    ident: Vec<Ident>,
    signers: Vec<(Signer, bool)>,
}

impl Model {
    fn config(&mut self, c: &NodeConfig) -> Res {
        let id = Ident::of(c);
        if !self.ident.is_empty() {
            check!(
                self.ident.iter().any(|i| i.keypair == id.keypair && i.pubkey == id.pubkey),
                "the node has another identity",
                "it was {:?}, now is {:?}",
                self.ident.iter().map(|i| hex(&i.pubkey)).collect::<Vec<_>>(),
                hex(&id.pubkey)
            );
            check!(
                self.ident.iter().any(|i| i.name == id.name),
                "the node has another name",
                "it was {:?}, now is {}",
                self.ident.iter().map(|i| &i.name).collect::<Vec<_>>(),
                id.name
            );
        }
        check!(
            id.pubkey.len() == 32 && id.keypair.ends_with(&id.pubkey),
            "the keys of the node do not belong together",
            "{id:?}"
        );
        self.ident = vec![id];
        Ok(())
    }

    fn crypto(&mut self, node: &Node) -> Res {
        let mut left = vec![];
        for (s, saved) in self.signers.drain(..) {
            if node.crypto_storage.signers.contains(&s) {
                left.push((s, true));
                continue;
            }
            check!(
                !saved,
                "a signing key handed out earlier is lost",
                "{:?} is not one of {:?}",
                s,
                node.crypto_storage.signers
            );
            finding(
                "a signing key was handed out although saving it failed",
                format!("{s:?}"),
            )?;
        }
        self.signers = left;
        Ok(())
    }
}

async fn start(
    dir: &str,
    modules: u32,
    m: &mut Model,
    run: bool,
) -> Result<Result<Option<Node>, anyhow::Error>, crate::case::Viol> {
    let ds: Box<dyn DataStorage + Send> = as_node(1, || {
        Box::new(DataStorageFile::new(dir.into(), "fl".into())) as Box<dyn DataStorage + Send>
    });
    let st = ds.clone();
    let cfg = as_node(1, || Node::get_config(st.clone_box()));
    if !sim().node(1).alive.get() {
        return Ok(Err(anyhow::anyhow!("crashed")));
    }
    let mut cfg = match cfg {
        Ok(c) => c,
        Err(e) => return Ok(Err(e)),
    };
    m.config(&cfg)?;
    if !run {
        return Ok(Ok(None));
    }
    cfg.info.modules = Modules::from_bits_truncate(modules);
    let res = within(
        100_000,
        on_node(1, async move {
            let timer = Timer::start().await?;
            Node::start(ds, cfg, Broker::new(), timer.broker).await
        }),
    )
    .await;
    let Some(res) = res else {
        return crate::case::viol("starting never ends", "");
    };
    let Some(res) = res else {
        return Ok(Err(anyhow::anyhow!("crashed")));
    };
    let node = match res {
        Ok(n) => n,
        Err(e) => return Ok(Err(e)),
    };
    m.crypto(&node)?;
    let id = m.ident[0].pubkey.clone();
    let got: [u8; 32] = node.node_config.info.get_id().to_bytes();
    check!(
        got.as_slice() == id.as_slice(),
        "the node has another id than its key",
        "{got:?} {id:?}"
    );
    Ok(Ok(Some(node)))
}

fn sign_with(node: &Node, m: &Model) -> Res {
    let msg = Bytes::from_static(b"0123456789abcdef0123456789abcdef");
    for (s, _) in &m.signers {
        let Some(mine) = node.crypto_storage.signers.iter().find(|t| *t == s) else {
            continue;
        };
        let ok = mine
            .sign(&msg)
            .and_then(|sig| s.verifier().verify(&msg, &sig))
            .is_ok();
        check!(ok, "a stored key signs differently", "{s:?}");
    }
    let sig = node
        .node_config
        .sign(*b"0123456789abcdef0123456789abcdef");
    check!(
        node.node_config.info.verify(&msg, &sig),
        "the node cannot sign with its own key",
        ""
    );
    Ok(())
}

async fn run(case: Rc<Case>) -> Res {
    let cfg: Cfg = case.cfg();
    let s = sim();
    let sc = Scratch::new();
    let dir = sc.of(1);
    let mut m = Model {
        ident: vec![],
        signers: vec![],
    };
    if cfg.old {
        let c = as_node(1, NodeConfig::new);
        let mut ds = as_node(1, || DataStorageFile::new(dir.clone(), "fl".into()));
        let txt = format!(
            "NodeConfigV1:\n  info:\n    name: {}\n    client: libc\n    pubkey: {}\n  keypair: {}\n",
            c.info.name,
            base64(&c.info.pubkey),
            base64(&c.keypair)
        );
        as_node(1, || ds.set("nodeConfig", &txt)).expect("storing");
        m.ident = vec![Ident::of(&c)];
        s.probe("old-format");
    }
    *s.disk.only.borrow_mut() = cfg.only.clone().into_bytes();
    let mut node: Option<Node> = None;
    for op in case.ops::<Op>() {
        if !s.node(1).alive.get() {
            node = None;
            s.revive(1);
            s.probe("restarted");
        }
        let bad0 = s.fired_of(&BAD);
        match op {
            Op::Config | Op::Start => {
                if let (Op::Start, true) = (&op, node.is_some()) {
                    // The previous one ends first.
                    s.kill(1);
                    s.revive(1);
                    node = None;
                }
                let r = start(&dir, cfg.modules, &mut m, matches!(op, Op::Start)).await?;
                if !s.node(1).alive.get() {
                    continue;
                }
                match r {
                    Ok(None) => {}
                    Ok(n) => {
                        node = n;
                        s.probe("started");
                    }
                    Err(e) => {
                        check!(
                            s.fired_of(&BAD) > bad0 || s.lacks_dir(&dir),
                            "the node does not start although the disk is fine",
                            "{e:?}"
                        );
                        s.probe("start-failed");
                    }
                }
            }
            Op::Rename { n } => {
                if m.ident.is_empty() {
                    continue;
                }
                let ds = as_node(1, || DataStorageFile::new(dir.clone(), "fl".into()));
                let Ok(mut c) = as_node(1, || Node::get_config(ds.clone_box())) else {
                    continue;
                };
                m.config(&c)?;
                if !s.node(1).alive.get() {
                    continue;
                }
                c.info.name = format!("name-{n}");
                let r = as_node(1, || Node::set_config(ds.clone_box(), &c.encode()));
                let new = Ident::of(&c);
                if !s.node(1).alive.get() {
                    m.ident.push(new);
                } else {
                    match r {
                        Ok(_) => m.ident = vec![new],
                        Err(e) => check!(
                            s.fired_of(&BAD) > bad0 || s.lacks_dir(&dir),
                            "saving fails although the disk is fine",
                            "{e:?}"
                        ),
                    }
                }
            }
            Op::Signer | Op::AddSigner | Op::Store => {
                if let Some(n) = node.as_mut() {
                    let before = n.crypto_storage.signers.len();
                    let got = as_node(1, || match op {
                        Op::Signer => Some(n.crypto_storage.get_signer()),
                        Op::AddSigner => Some(n.crypto_storage.add_signer()),
                        _ => {
                            n.crypto_storage.store();
                            None
                        }
                    });
                    if !s.node(1).alive.get() {
                        // Nobody saw it.
                        continue;
                    }
                    let saved = s.fired_of(&BAD) == bad0 && !s.lacks_dir(&dir);
                    for k in n.crypto_storage.signers[before..].iter().chain(&got) {
                        if !m.signers.iter().any(|(t, _)| t == k) {
                            m.signers.push((k.clone(), false));
                            s.probe("key");
                        }
                    }
                    if saved && n.crypto_storage.signers.len() > before {
                        // They are all in the same value.
                        m.signers.iter_mut().for_each(|t| t.1 = true);
                    }
                    sign_with(n, &m)?;
                }
            }
            Op::Chat { n } => {
                if let Some(node) = node.as_mut() {
                    let _ = within(10_000, on_node(1, node.add_chat_message(format!("m{n}")))).await;
                    sleep_ms(10).await;
                }
            }
            Op::Wait { ms } => sleep_ms(ms).await,
            Op::Crash { after } => s.node(1).crash_in.set(Some(after)),
            Op::Stop => {
                s.did("crash");
                s.kill(1);
            }
            Op::Faults { on } => disk_faults(&cfg.disk, on),
        }
    }
    disk_faults(&cfg.disk, false);
    for _ in 0..2 {
        if s.node(1).alive.get() {
            s.kill(1);
        }
        s.revive(1);
        match start(&dir, cfg.modules, &mut m, true).await? {
            Ok(Some(n)) => sign_with(&n, &m)?,
            r => {
                return crate::case::viol(
                    "the node does not start although the disk is fine",
                    format!("{:?}", r.err()),
                )
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C05",
        rule: "a node with all or some modules on file storage is started, renamed, asked for keys, and stopped, with crashes at any change of the disk and with system calls failing for all or for some files",
        real: &["flnode Node with all its modules", "flarch DataStorageFile", "NodeConfig, CryptoStorage"],
        stub: &["libc file calls fail and the process dies as the simulator decides", "no network is attached"],
        reach: &["restarted", "started", "start-failed", "key", "old-format"],
        scens: vec![crate::scen!("identity", 1, gen, run)],
    }]
}
