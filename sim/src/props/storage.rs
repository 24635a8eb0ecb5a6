//! C04: file storage on a disk that fails and under crashes.
use std::collections::BTreeMap;
use std::rc::Rc;

use flarch::data_storage::{DataStorage, DataStorageFile};
use serde::{Deserialize, Serialize};

use super::util::{disk_faults, gen_disk, DiskCfg};
use crate::case::{Case, Prop, Res};
use crate::check;
use crate::rng::Rng;
use crate::sim::{as_node, sim, Scratch};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cfg {
    base: String,
    disk: DiskCfg,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Set { h: usize, k: usize, len: usize, fill: u8 },
    Get { h: usize, k: usize },
    Remove { h: usize, k: usize },
    Clone { h: usize },
    Open,
    /// Dies after that many more changes to the disk
    Crash { after: u32 },
    /// Dies now
    Restart,
    Faults { on: bool },
}

const KEYS: [&str; 8] = ["a", "b", "ab", "a_b", "a.yaml", "a.yaml.tmp", "nodeConfig", "a.b"];

fn gen(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let nk = 1 + r.us(KEYS.len());
    let crash = *r.pick(&[0, 1, 3]);
    let ops = (0..3 + r.us(40))
        .map(|_| {
            let (h, k) = (r.us(4), r.us(nk));
            match r.weighted(&[10, 8, 2, 1, 1, crash, crash, 2]) {
                0 => Op::Set {
                    h,
                    k,
                    len: *r.pick(&[0, 1, 10, 100, 5000, 20_000]) + r.us(10),
                    fill: r.below(250) as u8,
                },
                1 => Op::Get { h, k },
                2 => Op::Remove { h, k },
                3 => Op::Clone { h },
                4 => Op::Open,
                5 => Op::Crash { after: r.below(8) as u32 },
                6 => Op::Restart,
                _ => Op::Faults { on: r.chance(600) },
            }
        })
        .collect();
    (
        Cfg {
            base: r.pick(&["", "fledger", "x"]).to_string(),
            disk: gen_disk(r),
        },
        ops,
    )
}

fn value(n: u64, len: usize, fill: u8) -> String {
    // Not empty, every one different, with characters of several bytes
    let mut v = format!("{n}:");
    while v.len() < len {
        v.push(match fill % 5 {
            0 => 'é',
            1 => '\n',
            _ => (b'a' + fill % 26) as char,
        });
    }
    v.push('.');
    v
}

type Model = BTreeMap<usize, Vec<Option<String>>>;

fn short(v: &Option<String>) -> String {
    match v {
        Some(v) => format!("{} ({} bytes)", v.chars().take(12).collect::<String>(), v.len()),
        None => "nothing".into(),
    }
}

fn get(h: &dyn DataStorage, k: usize, m: &mut Model, last: bool) -> Res {
    let s = sim();
    let before = s.fired_of(&["disk-open-error", "disk-read-error", "disk-stat-error"]);
    let r = as_node(1, || h.get(KEYS[k]));
    let faulty = s.fired_of(&["disk-open-error", "disk-read-error", "disk-stat-error"]) > before;
    let cand = m.entry(k).or_insert_with(|| vec![None]);
    match r {
        Ok(v) => {
            let v = (!v.is_empty()).then_some(v);
            check!(
                cand.contains(&v),
                if v.is_none() { "a stored value is lost" } else { "a value that was not stored is read" },
                "key {}: read {}, should be one of {:?}",
                KEYS[k],
                short(&v),
                cand.iter().map(short).collect::<Vec<_>>()
            );
            *cand = vec![v];
        }
        Err(e) => check!(
            faulty && !last,
            "reading fails without a reason",
            "key {}: {e:?}",
            KEYS[k]
        ),
    }
    Ok(())
}

async fn run(case: Rc<Case>) -> Res {
    let cfg: Cfg = case.cfg();
    let s = sim();
    let sc = Scratch::new();
    let dir = sc.of(1);
    let open = || as_node(1, || DataStorageFile::new(dir.clone(), cfg.base.clone()));
    let mut hs: Vec<Box<dyn DataStorage + Send>> = vec![Box::new(open())];
    let mut m = Model::new();
    let mut n = 0;
    let wr = [
        "disk-write-error",
        "disk-create-error",
        "disk-other-error",
        "disk-open-error",
        "disk-read-error",
        "disk-stat-error",
    ];
    disk_faults(&cfg.disk, true);
    let mut ops = case.ops::<Op>();
    ops.push(Op::Restart);
    for op in ops {
        if !s.node(1).alive.get() {
            s.revive(1);
            hs = vec![Box::new(open())];
            s.probe("restarted");
        }
        let l = hs.len();
        s.ev(4, l as u64);
        match op {
            Op::Set { h, k, len, fill } => {
                n += 1;
                let v = value(n, len, fill);
                let before = s.fired_of(&wr);
                let r = as_node(1, || hs[h % l].set(KEYS[k], &v));
                let cand = m.entry(k).or_insert_with(|| vec![None]);
                if !s.node(1).alive.get() {
                    cand.push(Some(v));
                    s.probe("crash-in-set");
                    continue;
                }
                match r {
                    Ok(_) => *cand = vec![Some(v)],
                    Err(e) => {
                        check!(
                            s.fired_of(&wr) > before || s.lacks_dir(&dir),
                            "storing fails without a reason",
                            "key {}: {e:?}",
                            KEYS[k]
                        );
                        s.probe("set-failed");
                    }
                }
            }
            Op::Get { h, k } => get(&*hs[h % l], k, &mut m, false)?,
            Op::Remove { h, k } => {
                let r = as_node(1, || hs[h % l].remove(KEYS[k]));
                let cand = m.entry(k).or_insert_with(|| vec![None]);
                if !s.node(1).alive.get() {
                    cand.push(None);
                    continue;
                }
                match r {
                    Ok(_) => *cand = vec![None],
                    // Whether there was something to remove is not said.
                    Err(_) => {}
                }
            }
            Op::Clone { h } => {
                let c = as_node(1, || hs[h % l].clone_box());
                hs.push(c);
            }
            Op::Open => hs.push(Box::new(open())),
            Op::Crash { after } => s.node(1).crash_in.set(Some(after)),
            Op::Restart => {
                s.did("crash");
                s.kill(1);
            }
            Op::Faults { on } => disk_faults(&cfg.disk, on),
        }
    }
    // Everything as it should, once the disk is fine.
    disk_faults(&cfg.disk, false);
    s.node(1).crash_in.set(None);
    if !s.node(1).alive.get() {
        s.revive(1);
    }
    let mut h = open();
    for k in 0..KEYS.len() {
        get(&h, k, &mut m, true)?;
    }
    for k in 0..KEYS.len() {
        n += 1;
        let v = value(n, 10, 7);
        let r = as_node(1, || h.set(KEYS[k], &v));
        check!(r.is_ok(), "storing fails without a reason", "{r:?}");
        m.insert(k, vec![Some(v)]);
    }
    for k in 0..KEYS.len() {
        get(&h, k, &mut m, true)?;
    }
    for k in (0..KEYS.len()).step_by(2) {
        let r = as_node(1, || h.remove(KEYS[k]));
        check!(r.is_ok(), "removing fails without a reason", "{r:?}");
        m.insert(k, vec![None]);
    }
    for k in 0..KEYS.len() {
        get(&h, k, &mut m, true)?;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C04",
        rule: "sequences of set, get, remove on up to 8 keys by several handles, with crashes at any change of the disk and failing, short and interrupted system calls",
        real: &["flarch DataStorageFile on a real directory in memory"],
        stub: &["the libc file calls fail and the process dies as the simulator decides"],
        reach: &["restarted", "crash-in-set", "set-failed"],
        scens: vec![crate::scen!("files", 1, gen, run)],
    }]
}
