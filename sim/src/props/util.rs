//! Helpers of the scenarios.
use std::future::Future;
use std::sync::{Arc, Mutex};

use serde::{Deserialize, Serialize};

use crate::case::{Res, Viol};
use crate::rng::Rng;
use crate::sim::{sim, SimTask};

/// Runs a task of a node under the simulated scheduler.
pub fn go<F>(node: u32, f: F) -> Wait<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let (tx, rx) = tokio::sync::oneshot::channel();
    tokio::spawn(SimTask::new(
        Box::pin(async move {
            let r = f.await;
            let _ = tx.send(r);
        }),
        node,
    ));
    Wait(rx)
}

pub struct Wait<T>(tokio::sync::oneshot::Receiver<T>);

impl<T> Wait<T> {
    /// None if it did not end within this time, or never will
    pub async fn within(self, ms: u64) -> Option<T> {
        crate::sim::within(ms, self.0).await.and_then(|r| r.ok())
    }
}

/// Collects what tasks find.
#[derive(Clone, Default)]
pub struct Bad(Arc<Mutex<Option<Viol>>>);

impl Bad {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set(&self, kind: &str, msg: String) {
        sim().note(|| format!("!! {kind}: {msg}"));
        let mut b = self.0.lock().unwrap();
        if b.is_none() {
            *b = Some(Viol {
                kind: kind.into(),
                msg,
            });
        }
    }
    pub fn res(&self) -> Res {
        match self.0.lock().unwrap().clone() {
            Some(v) => Err(v),
            None => Ok(()),
        }
    }
}

/// How a disk fails, in permille per call.
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct DiskCfg {
    pub write: u32,
    pub create: u32,
    pub open: u32,
    pub read: u32,
    pub stat: u32,
    pub other: u32,
    pub short: u32,
}

pub fn gen_disk(r: &mut Rng) -> DiskCfg {
    let rate = |r: &mut Rng| if r.chance(500) { 0 } else { *r.pick(&[20, 100, 400]) };
    if r.chance(250) {
        return DiskCfg {
            short: rate(r),
            ..Default::default()
        };
    }
    DiskCfg {
        write: rate(r),
        create: rate(r),
        open: rate(r),
        read: rate(r),
        stat: rate(r),
        other: rate(r),
        short: rate(r),
    }
}

pub fn disk_faults(c: &DiskCfg, on: bool) {
    let s = sim();
    let f = on as u32;
    let mut r = s.disk.rate.borrow_mut();
    for (k, v) in [
        ("write", c.write),
        ("open-write", c.create),
        ("open-read", c.open),
        ("read", c.read),
        ("stat", c.stat),
        ("rename", c.other),
        ("unlink", c.other),
        ("link", c.other),
        ("mkdir", c.other),
        ("fsync", c.other),
        ("truncate", c.other),
    ] {
        r.insert(k, v * f);
    }
    s.disk.short.set(c.short * f);
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn base64(b: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut r = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16
            | (*c.get(1).unwrap_or(&0) as u32) << 8
            | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            r.push(if i > c.len() {
                '='
            } else {
                T[(n >> (18 - 6 * i)) as usize & 63] as char
            });
        }
    }
    r
}
