//! C03: the timer against simulated time.
use std::rc::Rc;
use std::sync::{Arc, Mutex};

use flarch::broker::Broker;
use flmodules::timer::{Timer, TimerMessage};
use serde::{Deserialize, Serialize};
use tokio::sync::mpsc::UnboundedReceiver;

use super::util::go;
use crate::case::{Case, Prop, Res};
use crate::check;
use crate::rng::Rng;
use crate::sim::{as_node, on_node, sim, sleep_ms};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cfg {
    start_us: u64,
    skew_ms: i64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Wait { ms: u64 },
    Jump { ms: i64 },
    Stall { ms: u64 },
    Tap,
    /// Link a broker to seconds or minutes, by one of the functions there are
    Listen { minute: bool, how: u8 },
    DropTap { k: usize },
}

fn gen(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let long = r.chance(400);
    let ops = (0..1 + r.us(12))
        .map(|_| match r.weighted(&[6, 3, 2, 1, 3, 1]) {
            0 => Op::Wait {
                ms: if long { r.below(200_000) } else { r.below(5_000) },
            },
            1 => Op::Jump {
                ms: match r.us(4) {
                    0 => r.range(-3, 3),
                    1 => r.range(-5_000, 5_000),
                    2 => r.range(-100_000_000, 100_000_000),
                    _ => r.range(-700_000, 700_000),
                },
            },
            2 => Op::Stall { ms: r.below(if long { 150_000 } else { 4_000 }) },
            3 => Op::Tap,
            4 => Op::Listen { minute: r.chance(500), how: r.us(3) as u8 },
            _ => Op::DropTap { k: r.us(3) },
        })
        .collect();
    (
        Cfg {
            start_us: r.below(3_000_000),
            skew_ms: r.range(-2_000_000, 2_000_000),
        },
        ops,
    )
}

/// A timer that fires while all nodes get started one after the other
fn gen_start(r: &mut Rng) -> (Cfg, Vec<Op>) {
    let (c, _) = gen(r);
    (c, vec![Op::Wait { ms: 1 + r.below(70_000) }])
}

type Log = Arc<Mutex<Vec<bool>>>;

struct L {
    minute: bool,
    from: (u64, u64),
    rx: UnboundedReceiver<bool>,
    got: u64,
    /// Keeps it alive
    _b: Broker<bool, ()>,
}

/// Counts of (seconds, minutes)
fn count(log: &Log) -> (u64, u64) {
    let l = log.lock().unwrap();
    let m = l.iter().filter(|m| **m).count() as u64;
    (l.len() as u64 - m, m)
}

async fn run(case: Rc<Case>) -> Res {
    let cfg: Cfg = case.cfg();
    let s = sim();
    s.node(1).skew_ns.set(cfg.skew_ms * 1_000_000);
    tokio::time::sleep(std::time::Duration::from_micros(cfg.start_us)).await;
    let t0 = s.now_ns();
    let Some(Ok(mut timer)) = on_node(1, Timer::start()).await else {
        return crate::case::viol("the timer does not start", "");
    };
    let log: Log = Default::default();
    let (mut rx, _) = on_node(1, timer.broker.get_tap_out()).await.unwrap().expect("tap");
    let l2 = log.clone();
    go(0, async move {
        while let Some(m) = rx.recv().await {
            l2.lock().unwrap().push(m == TimerMessage::Minute);
        }
    });
    // The first tick comes at once.
    let mut waited = 0;
    while count(&log).0 == 0 {
        check!(waited < 10_000, "the timer does not start", "no tick after {waited} ms");
        sleep_ms(1).await;
        waited += 1;
    }
    let t1 = s.now_ns();
    let mut taps: Vec<Option<(UnboundedReceiver<TimerMessage>, Vec<bool>, usize)>> = vec![];
    let mut lis: Vec<L> = vec![];
    // Everything that slows down the ticks
    let verify = |log: &Log, slack_ms: u64, exact: bool| -> Res {
        let (sec, min) = count(log);
        let el = (sim().now_ns() - t0) / 1_000_000;
        let max = el / 1000 + 1;
        let least = ((sim().now_ns() - t1) / 1_000_000).saturating_sub(slack_ms) / 1000;
        check!(
            sec <= max,
            "too many second ticks",
            "{sec} ticks after {el} ms"
        );
        check!(
            !exact || sec >= least,
            "second ticks missing",
            "{sec} ticks after {el} ms"
        );
        let l = log.lock().unwrap();
        let mut n = 0;
        for (i, m) in l.iter().enumerate() {
            if *m {
                check!(n == 60, "minute tick not after 60 seconds", "position {i}: after {n}");
                n = 0;
            } else {
                check!(n < 60, "minute tick missing", "position {i}");
                n += 1;
            }
        }
        let _ = min;
        Ok(())
    };
    for op in case.ops::<Op>() {
        match op {
            Op::Wait { ms } => {
                sleep_ms(ms).await;
                // A tick passes several tasks which may be put off by 200 ms each.
                let stalled = s.node(1).stall_until.get() + 10_000_000_000 > s.now_ns();
                verify(&log, 8_000, !stalled)?;
            }
            Op::Jump { ms } => {
                s.did("clock-jump");
                let sk = s.node(1).skew_ns.get() + ms * 1_000_000;
                s.node(1).skew_ns.set(sk);
            }
            Op::Stall { ms } => s.stall(1, ms),
            Op::Tap => {
                let n = log.lock().unwrap().len();
                let (rx, _) = on_node(1, timer.broker.get_tap_out()).await.unwrap().expect("tap");
                taps.push(Some((rx, vec![], n)));
            }
            Op::DropTap { k } => {
                if !taps.is_empty() {
                    let k = k % taps.len();
                    taps[k] = None;
                }
            }
            Op::Listen { minute, how } => {
                let from = count(&log);
                let mut b: Broker<bool, ()> = as_node(1, Broker::new);
                let (rx, _) = on_node(1, b.get_tap_in()).await.unwrap().expect("tap");
                let r = on_node(1, async {
                    match (how % 3, minute) {
                        (0, false) => Timer::second(timer.broker.clone(), b.clone(), false).await,
                        (0, true) => Timer::minute(timer.broker.clone(), b.clone(), true).await,
                        (1, false) => timer.tick_second(b.clone(), false).await,
                        (1, true) => timer.tick_minute(b.clone(), true).await,
                        (_, false) => timer.tick(b.clone(), false, TimerMessage::Second).await,
                        (_, true) => timer.tick(b.clone(), true, TimerMessage::Minute).await,
                    }
                })
                .await
                .unwrap();
                check!(r.is_ok(), "listening to the timer fails", "{r:?}");
                lis.push(L { minute, from, rx, got: 0, _b: b });
            }
        }
    }
    // Faults end: what was missed is made up for.
    s.calm.set(true);
    let wait = s.node(1).stall_until.get().saturating_sub(s.now_ns()) / 1_000_000;
    sleep_ms(wait + 3_000).await;
    // To the middle between two ticks
    let (n, mut waited) = (count(&log).0, 0);
    while count(&log).0 == n {
        check!(waited < 1_010, "second ticks missing", "no tick for {waited} ms");
        sleep_ms(1).await;
        waited += 1;
    }
    sleep_ms(500).await;
    let (sec, min) = count(&log);
    let now = s.now_ns();
    let (lo, hi) = ((now - t1) / 1_000_000_000 + 1, (now - t0) / 1_000_000_000 + 1);
    check!(
        sec >= lo && sec <= hi,
        "wrong number of second ticks",
        "{sec} ticks instead of {lo} to {hi}"
    );
    verify(&log, 2_000, true)?;
    if min > 0 {
        s.probe("minute");
    }
    s.ev(1, sec);
    for t in taps.iter_mut().flatten() {
        while let Ok(m) = t.0.try_recv() {
            t.1.push(m == TimerMessage::Minute);
        }
        let l = log.lock().unwrap();
        check!(
            t.1.len() <= l.len() && t.1[..] == l[l.len() - t.1.len()..],
            "a listener gets other ticks than another one",
            "{} of {} ticks",
            t.1.len(),
            l.len()
        );
        check!(
            t.1.len() + t.2 + 12 >= l.len(),
            "a listener misses ticks",
            "{} ticks, at {} of {}",
            t.1.len(),
            t.2,
            l.len()
        );
    }
    for l in &mut lis {
        while let Ok(m) = l.rx.try_recv() {
            check!(m == l.minute, "a listener gets a tick it did not ask for", "minute: {m}");
            l.got += 1;
        }
        s.probe("listener");
        let (now, before) = if l.minute { (min, l.from.1) } else { (sec, l.from.0) };
        let late = if l.minute { 1 } else { 12 };
        check!(
            l.got <= now - before + late && l.got + late >= now - before,
            "a listener gets a wrong number of ticks",
            "minute {}: {} instead of {}",
            l.minute,
            l.got,
            now - before
        );
    }
    // One more minute exactly
    let before = count(&log);
    let lb: Vec<u64> = lis.iter().map(|l| l.got).collect();
    sleep_ms(60_000).await;
    let after = count(&log);
    check!(
        after.0 - before.0 == 60 && after.1 - before.1 == 1,
        "not 60 seconds and one minute in a minute",
        "{} seconds and {} minutes",
        after.0 - before.0,
        after.1 - before.1
    );
    for (l, b) in lis.iter_mut().zip(lb) {
        while l.rx.try_recv().is_ok() {
            l.got += 1;
        }
        let want = if l.minute { 1 } else { 60 };
        check!(
            l.got - b == want,
            "a listener gets a wrong number of ticks",
            "minute {}: {} instead of {want} in the last minute",
            l.minute,
            l.got - b
        );
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C03",
        rule: "one timer per run with random start instant, clock jumps, stalls and listeners; each run with its own schedule",
        real: &["flmodules Timer", "flarch Interval, now, broker", "tokio timer wheel on the simulated clock"],
        stub: &["clock_gettime and epoll_wait are the simulator's"],
        reach: &["minute", "listener"],
        scens: vec![crate::scen!("ticks", 3, gen, run), crate::scen!("start", 1, gen_start, run)],
    }]
}
