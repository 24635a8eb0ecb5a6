//! C01 and C02: graphs of linked brokers with several tasks using them.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

use async_trait::async_trait;
use flarch::broker::{Broker, Destination, SubsystemHandler, Translate};
use serde::{Deserialize, Serialize};
use tokio::sync::mpsc::UnboundedReceiver;

use super::util::{go, Bad};
use crate::case::{Case, Prop, Res};
use crate::check;
use crate::rng::{hash_bytes, Rng};
use crate::sim::{sim, sleep_ms, within};

#[derive(Clone, Debug, PartialEq)]
struct M {
    id: u64,
    class: u8,
    depth: u8,
    notap: bool,
    /// Handler which answered
    by: Option<usize>,
    origin: usize,
    path: Vec<(usize, usize)>,
}
#[derive(Clone, Debug)]
struct MI(M);
#[derive(Clone, Debug)]
struct MO(M);
type Br = Broker<MI, MO>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Link {
    from: usize,
    to: usize,
    from_out: bool,
    to_out: bool,
    mask: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hand {
    b: usize,
    mask: u8,
    answers: u8,
    delay: u64,
    /// Also emits a message to another broker itself
    emit: Option<(usize, bool)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cfg {
    n: usize,
    links: Vec<Link>,
    /// Pairs linked in both directions with one call: (from, to, direct)
    pairs: Vec<(usize, usize, bool)>,
    hands: Vec<Hand>,
    tasks: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Emit { b: usize, out: bool, class: u8, notap: bool, not_to: Option<usize>, n: u8 },
    Settle { b: usize },
    SettleMsg { b: usize, out: bool, class: u8 },
    Tap { b: usize, out: bool, sync: bool },
    Handler(Hand),
    Link(Link),
    Remove { k: usize },
    Close { k: usize },
    Sleep { ms: u64 },
    Clone { b: usize },
    Unclone { k: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TOp {
    t: usize,
    op: Op,
}

fn gen_link(r: &mut Rng, n: usize) -> Link {
    let from = r.us(n);
    let to = if n > 1 && !r.chance(30) { (from + 1 + r.us(n - 1)) % n } else { r.us(n) };
    Link {
        from,
        to,
        from_out: r.chance(650),
        to_out: r.chance(350),
        mask: *r.pick(&[15, 15, 15, 5, 10, 1, 7]),
    }
}

fn gen_hand(r: &mut Rng, n: usize) -> Hand {
    Hand {
        b: r.us(n),
        mask: *r.pick(&[0, 15, 15, 3, 5]),
        answers: *r.pick(&[1, 1, 2, 3]),
        delay: *r.pick(&[0, 0, 0, 1, 20]),
        emit: r.chance(200).then(|| (r.us(n), r.chance(500))),
    }
}

fn gen(r: &mut Rng) -> (Cfg, Vec<TOp>) {
    let n = 1 + r.us(4);
    let links = (0..r.us(5)).map(|_| gen_link(r, n)).collect();
    let pairs = if n > 1 {
        (0..r.us(3))
            .map(|_| {
                let a = r.us(n);
                (a, (a + 1 + r.us(n - 1)) % n, r.chance(300))
            })
            .collect()
    } else {
        vec![]
    };
    let hands = (0..r.us(4)).map(|_| gen_hand(r, n)).collect();
    let tasks = 1 + r.us(4);
    let settles = *r.pick(&[0, 1, 4]);
    let churn = *r.pick(&[0, 1, 3]);
    let w = [10, settles, settles, churn * 2, churn, churn / 2, churn, churn, 3, 1, 1];
    let ops = (0..5 + r.us(50))
        .map(|_| {
            let t = r.us(tasks);
            let b = r.us(n);
            let class = r.us(4) as u8;
            let op = match r.weighted(&w) {
                0 => Op::Emit {
                    b,
                    out: r.chance(400),
                    class,
                    notap: r.chance(50),
                    not_to: r.chance(50).then(|| r.us(8)),
                    n: *r.pick(&[1, 1, 2, 5]),
                },
                1 => Op::Settle { b },
                2 => Op::SettleMsg { b, out: r.chance(400), class },
                3 => Op::Tap { b, out: r.chance(500), sync: r.chance(300) },
                4 => Op::Handler(gen_hand(r, n)),
                5 => Op::Link(gen_link(r, n)),
                6 => Op::Remove { k: r.us(8) },
                7 => Op::Close { k: r.us(8) },
                8 => Op::Sleep { ms: *r.pick(&[0, 1, 1, 50]) },
                9 => Op::Clone { b },
                _ => Op::Unclone { k: r.us(4) },
            };
            TOp { t, op }
        })
        .collect();
    (Cfg { n, links, pairs, hands, tasks }, ops)
}

enum Rx {
    In(UnboundedReceiver<MI>),
    Out(UnboundedReceiver<MO>),
    SyncIn(std::sync::mpsc::Receiver<MI>),
    SyncOut(std::sync::mpsc::Receiver<MO>),
}

impl Rx {
    /// Reads what is there. True if no more can come.
    fn drain(&mut self, log: &mut Vec<M>) -> bool {
        use std::sync::mpsc::TryRecvError as S;
        use tokio::sync::mpsc::error::TryRecvError as T;
        loop {
            match self {
                Rx::In(r) => match r.try_recv() {
                    Ok(m) => log.push(m.0),
                    Err(e) => return e == T::Disconnected,
                },
                Rx::Out(r) => match r.try_recv() {
                    Ok(m) => log.push(m.0),
                    Err(e) => return e == T::Disconnected,
                },
                Rx::SyncIn(r) => match r.try_recv() {
                    Ok(m) => log.push(m.0),
                    Err(e) => return e == S::Disconnected,
                },
                Rx::SyncOut(r) => match r.try_recv() {
                    Ok(m) => log.push(m.0),
                    Err(e) => return e == S::Disconnected,
                },
            }
        }
    }
}

enum Kind {
    TapIn,
    TapOut,
    Hand(Hand),
    Link(usize, Link),
}

struct Sub {
    b: usize,
    kind: Kind,
    /// Id in the broker
    id: usize,
    add_end: u64,
    rm_start: Option<u64>,
    rx: Option<Rx>,
    log: Vec<M>,
    /// For handlers: which of the messages they answered
    answered: Vec<bool>,
    /// Messages which must not be in the log, as they are marked to come from this handler
    dropped: bool,
    removed: bool,
    busy: bool,
}

struct Emit {
    seq: u64,
    b: usize,
    out: bool,
    m: M,
    /// (id of the handler in the broker which must not get it)
    not_to: Option<usize>,
}

#[derive(Default)]
struct St {
    seq: u64,
    next: u64,
    subs: Vec<Sub>,
    emits: Vec<Emit>,
    /// Not under churn
    ref_in: Vec<usize>,
    ref_out: Vec<usize>,
    links: Vec<(usize, Link)>,
    next_link: usize,
    handler_ids: HashMap<usize, usize>,
    clones: Vec<(usize, Br)>,
    /// Emissions of handlers keep these brokers alive
    holds: Vec<(usize, usize)>,
    answers: usize,
}

type Sh = Arc<Mutex<St>>;

impl St {
    fn tick(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }
    fn drain(&mut self, i: usize) -> bool {
        let s = &mut self.subs[i];
        match s.rx.as_mut() {
            Some(rx) => rx.drain(&mut s.log),
            None => true,
        }
    }
    fn log(&mut self, b: usize, out: bool) -> &Vec<M> {
        let i = if out { self.ref_out[b] } else { self.ref_in[b] };
        self.drain(i);
        &self.subs[i].log
    }
}

struct H {
    st: Sh,
    sub: usize,
    hand: Hand,
    emit: Option<(Br, usize, bool)>,
}

impl Drop for H {
    fn drop(&mut self) {
        if let Ok(mut st) = self.st.lock() {
            st.subs[self.sub].dropped = true;
        }
    }
}

fn answer(m: &M, sub: usize, k: u8, b: usize) -> M {
    M {
        id: hash_bytes(format!("{} {:?} {sub} {k}", m.id, m.path).as_bytes()),
        class: (m.class + 1) % 4,
        depth: m.depth + 1,
        notap: false,
        by: Some(sub),
        origin: b,
        path: vec![],
    }
}

fn answers(m: &M, sub: usize, h: &Hand) -> Vec<M> {
    if m.depth > 1 || h.mask & (1 << m.class) == 0 {
        return vec![];
    }
    (0..h.answers).map(|k| answer(m, sub, k, h.b)).collect()
}

#[async_trait]
impl SubsystemHandler<MI, MO> for H {
    async fn messages(&mut self, msgs: Vec<MI>) -> Vec<MO> {
        let mut out = vec![];
        for MI(m) in msgs {
            let mut ans = answers(&m, self.sub, &self.hand);
            let busy = {
                let mut st = self.st.lock().unwrap();
                st.answers += ans.len();
                // Handlers answering each other multiply the messages
                st.answers > 400
            };
            if busy {
                ans.clear();
            } else if self.hand.delay > 0 {
                sleep_ms(self.hand.delay).await;
            }
            if let (Some((br, b, o)), false) = (self.emit.as_mut(), ans.is_empty()) {
                let mut e = answer(&m, self.sub, 99, *b);
                e.by = None;
                emit(&self.st, br, *b, *o, e, None);
            }
            {
                let mut st = self.st.lock().unwrap();
                st.subs[self.sub].log.push(m);
                st.subs[self.sub].answered.push(!ans.is_empty());
            }
            out.extend(ans.into_iter().map(MO));
        }
        out
    }
}

fn emit(st: &Sh, br: &mut Br, b: usize, out: bool, m: M, not_to: Option<usize>) {
    let mut s = st.lock().unwrap();
    let seq = s.tick();
    let dst = if m.notap {
        Destination::NoTap
    } else if let Some(h) = not_to {
        Destination::Handled(h)
    } else {
        Destination::All
    };
    sim().ev(100 + b as u64, m.id);
    sim().note(|| format!("emit {} to {b} out={out} {dst:?}", m.id));
    s.emits.push(Emit {
        seq,
        b,
        out,
        m: m.clone(),
        not_to,
    });
    drop(s);
    let r = if out {
        br.emit_msg_out_dest(dst, MO(m))
    } else {
        br.emit_msg_in_dest(dst, MI(m))
    };
    r.expect("broker with a handle accepts messages");
}

fn tr_fn(l: usize, to: usize, mask: u8, m: M) -> Option<M> {
    if mask & (1 << m.class) == 0 {
        return None;
    }
    let mut m = m;
    m.path.push((l, to));
    Some(m)
}

macro_rules! tr {
    ($l:expr, $to:expr, $mask:expr, $a:ident, $b:ident) => {{
        let (l, to, mask) = ($l, $to, $mask);
        let f: Translate<$a, $b> = Box::new(move |m: $a| tr_fn(l, to, mask, m.0).map($b));
        f
    }};
}

async fn add_link(st: &Sh, brs: &mut [Br], li: usize, l: &Link) -> usize {
    let to = brs[l.to].clone();
    let f = &mut brs[l.from];
    let id = match (l.from_out, l.to_out) {
        (true, true) => f.add_translator_o_to(to, tr!(li, l.to, l.mask, MO, MO)).await,
        (true, false) => f.add_translator_o_ti(to, tr!(li, l.to, l.mask, MO, MI)).await,
        (false, true) => f.add_translator_i_to(to, tr!(li, l.to, l.mask, MI, MO)).await,
        (false, false) => f.add_translator_i_ti(to, tr!(li, l.to, l.mask, MI, MI)).await,
    }
    .expect("add link");
    let _ = st;
    id
}

fn new_sub(st: &Sh, b: usize, kind: Kind) -> usize {
    let mut s = st.lock().unwrap();
    s.subs.push(Sub {
        b,
        kind,
        id: 0,
        add_end: u64::MAX,
        rm_start: None,
        rx: None,
        log: vec![],
        answered: vec![],
        dropped: false,
        removed: false,
        busy: false,
    });
    s.subs.len() - 1
}

fn added(st: &Sh, i: usize, id: usize, rx: Option<Rx>) {
    let mut s = st.lock().unwrap();
    let t = s.tick();
    s.subs[i].id = id;
    s.subs[i].rx = rx;
    s.subs[i].add_end = t;
    if matches!(s.subs[i].kind, Kind::Hand(_)) {
        let k = s.handler_ids.len();
        s.handler_ids.insert(k, i);
    }
}

async fn add_tap(st: &Sh, br: &mut Br, b: usize, out: bool, sync: bool) -> usize {
    let i = new_sub(st, b, if out { Kind::TapOut } else { Kind::TapIn });
    let (rx, id) = match (out, sync) {
        (false, false) => br.get_tap_in().await.map(|(r, i)| (Rx::In(r), i)),
        (true, false) => br.get_tap_out().await.map(|(r, i)| (Rx::Out(r), i)),
        (false, true) => br.get_tap_in_sync().await.map(|(r, i)| (Rx::SyncIn(r), i)),
        (true, true) => br.get_tap_out_sync().await.map(|(r, i)| (Rx::SyncOut(r), i)),
    }
    .expect("tap");
    added(st, i, id, Some(rx));
    i
}

async fn add_hand(st: &Sh, brs: &mut [Br], h: &Hand) -> usize {
    let i = new_sub(st, h.b, Kind::Hand(h.clone()));
    let emit = h.emit.map(|(b, o)| (brs[b].clone(), b, o));
    if let Some((b, _)) = h.emit {
        st.lock().unwrap().holds.push((h.b, b));
    }
    let id = brs[h.b]
        .add_handler(Box::new(H {
            st: st.clone(),
            sub: i,
            hand: h.clone(),
            emit,
        }))
        .await
        .expect("handler");
    added(st, i, id, None);
    i
}

/// Everything the message should be delivered to, by static links only: (broker, out, path)
fn deliveries(links: &[(usize, Link)], b: usize, out: bool, m: &M) -> Vec<(usize, bool, M)> {
    let mut res = vec![];
    let mut todo = vec![(b, out, m.clone())];
    while let Some((b, out, m)) = todo.pop() {
        let mut visited = vec![m.origin];
        visited.extend(m.path.iter().map(|p| p.1));
        visited.pop();
        if !visited.contains(&b) {
            for (li, l) in links.iter().filter(|l| l.1.from == b && l.1.from_out == out) {
                if let Some(m) = tr_fn(*li, l.to, l.mask, m.clone()) {
                    todo.push((l.to, l.to_out, m));
                }
            }
        }
        res.push((b, out, m));
    }
    res
}

const LONG: u64 = 1_200_000;

async fn settle(st: &Sh, bad: &Bad, br: &mut Br, b: usize) {
    let (start, upto) = {
        let mut s = st.lock().unwrap();
        (s.tick(), s.emits.len())
    };
    sim().probe("settle");
    match within(LONG, br.settle(vec![])).await {
        None => return bad.set("settle never returns", format!("of broker {b}")),
        Some(Err(e)) => return bad.set("settle fails", format!("of broker {b}: {e}")),
        _ => {}
    }
    let mut s = st.lock().unwrap();
    let links = s.links.clone();
    let emits: Vec<(u64, bool, M)> = s.emits[..upto]
        .iter()
        .filter(|e| e.b == b && e.seq < start)
        .map(|e| (e.seq, e.out, e.m.clone()))
        .collect();
    for (_, out, m) in emits {
        for (tb, tout, tm) in deliveries(&links, b, out, &m) {
            if tm.notap && tout && tm.path.is_empty() {
                continue;
            }
            if !s.log(tb, tout).iter().any(|x| x.id == tm.id && x.path == tm.path) {
                bad.set(
                    "settle returns too early",
                    format!("of broker {b}: message {tm:?} is not handled by broker {tb}"),
                );
                return;
            }
        }
    }
}

async fn task(st: Sh, bad: Bad, mut brs: Vec<Br>, ops: Vec<Op>) {
    let n = brs.len();
    for op in ops {
        match op {
            Op::Emit { b, out, class, notap, not_to, n: num } => {
                let b = b % n;
                for _ in 0..num {
                    let (m, nt) = {
                        let mut s = st.lock().unwrap();
                        s.next += 1;
                        let nt = not_to.filter(|_| !out && !notap).and_then(|k| {
                            let i = *s.handler_ids.get(&(k % s.handler_ids.len().max(1)))?;
                            (s.subs[i].b == b).then_some(s.subs[i].id)
                        });
                        let m = M {
                            id: s.next,
                            class: class % 4,
                            depth: 0,
                            notap,
                            by: None,
                            origin: b,
                            path: vec![],
                        };
                        (m, nt)
                    };
                    emit(&st, &mut brs[b], b, out, m, nt);
                }
            }
            Op::Settle { b } => settle(&st, &bad, &mut brs[b % n], b % n).await,
            Op::SettleMsg { b, out, class } => {
                let b = b % n;
                let m = {
                    let mut s = st.lock().unwrap();
                    s.next += 1;
                    let m = M {
                        id: s.next,
                        class: class % 4,
                        depth: 0,
                        notap: false,
                        by: None,
                        origin: b,
                        path: vec![],
                    };
                    let seq = s.tick();
                    s.emits.push(Emit { seq, b, out, m: m.clone(), not_to: None });
                    m
                };
                sim().note(|| format!("settle_msg {} to {b} out={out}", m.id));
                let r = if out {
                    within(LONG, brs[b].settle_msg_out(MO(m.clone()))).await
                } else {
                    within(LONG, brs[b].settle_msg_in(MI(m.clone()))).await
                };
                match r {
                    None => bad.set("settle never returns", format!("settle_msg of broker {b}")),
                    Some(Err(e)) => bad.set("settle fails", format!("of broker {b}: {e}")),
                    _ => {
                        let mut s = st.lock().unwrap();
                        if !s.log(b, out).iter().any(|x| x.id == m.id) {
                            bad.set(
                                "settle returns too early",
                                format!("of broker {b}: its message {m:?} is not handled"),
                            );
                        }
                    }
                }
            }
            Op::Tap { b, out, sync } => {
                add_tap(&st, &mut brs[b % n], b % n, out, sync).await;
            }
            Op::Handler(mut h) => {
                h.b %= n;
                h.emit = h.emit.map(|(b, o)| (b % n, o));
                add_hand(&st, &mut brs, &h).await;
            }
            Op::Link(mut l) => {
                l.from %= n;
                l.to %= n;
                let li = {
                    let mut s = st.lock().unwrap();
                    s.next_link += 1;
                    s.next_link
                };
                let i = new_sub(&st, l.from, Kind::Link(li, l.clone()));
                let id = add_link(&st, &mut brs, li, &l).await;
                added(&st, i, id, None);
            }
            Op::Remove { k } => {
                let (i, b, id) = {
                    let mut s = st.lock().unwrap();
                    let c: Vec<usize> = (0..s.subs.len())
                        .filter(|i| {
                            let u = &s.subs[*i];
                            u.add_end != u64::MAX
                                && u.rm_start.is_none()
                                && !s.ref_in.contains(i)
                                && !s.ref_out.contains(i)
                                && !u.busy
                        })
                        .collect();
                    if c.is_empty() {
                        continue;
                    }
                    let i = c[k % c.len()];
                    let t = s.tick();
                    s.subs[i].rm_start = Some(t);
                    (i, s.subs[i].b, s.subs[i].id)
                };
                sim().probe("remove");
                sim().note(|| format!("remove {id} of broker {b}"));
                match within(LONG, brs[b].remove_subsystem(id)).await {
                    None => {
                        bad.set("remove_subsystem never returns", format!("of broker {b}"));
                        continue;
                    }
                    Some(Err(e)) => {
                        bad.set("remove_subsystem fails", format!("of broker {b}: {e}"));
                        continue;
                    }
                    _ => {}
                }
                let mut s = st.lock().unwrap();
                let ended = s.drain(i);
                s.subs[i].removed = true;
                let u = &s.subs[i];
                match u.kind {
                    Kind::Hand(_) if !u.dropped => {
                        bad.set("removed handler is still there", format!("of broker {b}"))
                    }
                    Kind::TapIn | Kind::TapOut if !ended => {
                        bad.set("removed tap is still there", format!("of broker {b}"))
                    }
                    _ => {}
                }
            }
            Op::Close { k } => {
                let mut s = st.lock().unwrap();
                let c: Vec<usize> = (0..s.subs.len())
                    .filter(|i| {
                        let u = &s.subs[*i];
                        u.rx.is_some()
                            && u.rm_start.is_none()
                            && !s.ref_in.contains(i)
                            && !s.ref_out.contains(i)
                    })
                    .collect();
                if c.is_empty() {
                    continue;
                }
                let i = c[k % c.len()];
                let t = s.tick();
                s.subs[i].rm_start = Some(t);
                s.drain(i);
                s.subs[i].rx = None;
                sim().probe("close");
            }
            Op::Sleep { ms } => sleep_ms(ms).await,
            Op::Clone { b } => {
                let c = brs[b % n].clone();
                st.lock().unwrap().clones.push((b % n, c));
            }
            Op::Unclone { k } => {
                let c = {
                    let mut s = st.lock().unwrap();
                    let l = s.clones.len();
                    (l > 0).then(|| s.clones.remove(k % l))
                };
                drop(c);
            }
        }
    }
}

async fn run(case: Rc<Case>) -> Res {
    let cfg: Cfg = case.cfg();
    let ops: Vec<TOp> = case.ops();
    let n = cfg.n.max(1);
    let st: Sh = Default::default();
    let bad = Bad::new();
    let mut brs: Vec<Br> = (0..n).map(|_| Broker::new()).collect();
    // References on every broker
    for b in 0..n {
        let h = add_hand(
            &st,
            &mut brs,
            &Hand { b, mask: 0, answers: 0, delay: 0, emit: None },
        )
        .await;
        let t = add_tap(&st, &mut brs[b], b, true, false).await;
        let mut s = st.lock().unwrap();
        s.ref_in.push(h);
        s.ref_out.push(t);
        s.handler_ids.clear();
    }
    let mut stat: Vec<(usize, Link)> = vec![];
    for l in &cfg.links {
        let mut l = l.clone();
        l.from %= n;
        l.to %= n;
        let li = stat.len();
        add_link(&st, &mut brs, li, &l).await;
        stat.push((li, l));
    }
    for (a, b, direct) in &cfg.pairs {
        let (a, b) = (a % n, b % n);
        if a == b {
            continue;
        }
        let (l1, l2) = (stat.len(), stat.len() + 1);
        let other = brs[b].clone();
        if *direct {
            brs[a]
                .add_translator_direct(other, tr!(l1, b, 15u8, MO, MO), tr!(l2, a, 15u8, MI, MI))
                .await
                .expect("link");
            stat.push((l1, Link { from: a, to: b, from_out: true, to_out: true, mask: 15 }));
            stat.push((l2, Link { from: b, to: a, from_out: false, to_out: false, mask: 15 }));
        } else {
            brs[a]
                .add_translator_link(other, tr!(l1, b, 15u8, MO, MI), tr!(l2, a, 15u8, MO, MI))
                .await
                .expect("link");
            stat.push((l1, Link { from: a, to: b, from_out: true, to_out: false, mask: 15 }));
            stat.push((l2, Link { from: b, to: a, from_out: true, to_out: false, mask: 15 }));
        }
    }
    {
        let mut s = st.lock().unwrap();
        s.links = stat.clone();
        s.next_link = stat.len();
    }
    for h in &cfg.hands {
        let mut h = h.clone();
        h.b %= n;
        h.emit = h.emit.map(|(b, o)| (b % n, o));
        add_hand(&st, &mut brs, &h).await;
    }
    // The tasks
    let nt = cfg.tasks.max(1);
    let mut waits = vec![];
    for t in 0..nt {
        let my: Vec<Op> = ops.iter().filter(|o| o.t % nt == t).map(|o| o.op.clone()).collect();
        waits.push(go(0, task(st.clone(), bad.clone(), brs.clone(), my)));
    }
    for w in waits {
        if w.within(10 * LONG).await.is_none() {
            bad.res()?;
            return crate::case::viol("a call never returns", "task did not end");
        }
    }
    bad.res()?;
    // At rest
    let mut last = 0;
    for _ in 0..10_000 {
        sleep_ms(2_000).await;
        let mut s = st.lock().unwrap();
        let mut sum = 0;
        for i in 0..s.subs.len() {
            s.drain(i);
            sum += s.subs[i].log.len();
        }
        if sum == last {
            break;
        }
        last = sum;
    }
    for b in 0..n {
        settle(&st, &bad, &mut brs[b].clone(), b).await;
    }
    bad.res()?;
    judge(&mut st.lock().unwrap(), n)?;
    // Everything is let go: brokers nobody holds anymore end.
    let held = {
        let s = st.lock().unwrap();
        let mut edges: BTreeSet<(usize, usize)> = stat.iter().map(|(_, l)| (l.from, l.to)).collect();
        for u in &s.subs {
            if let (Kind::Link(_, l), true) = (&u.kind, !u.removed) {
                edges.insert((l.from, l.to));
            }
        }
        edges.extend(s.holds.iter().cloned());
        // Brokers which are in a cycle or behind one stay.
        let mut alive: BTreeSet<usize> = (0..n).collect();
        loop {
            let gone: Vec<usize> = alive
                .iter()
                .filter(|b| !edges.iter().any(|(f, t)| t == *b && alive.contains(f)))
                .cloned()
                .collect();
            if gone.is_empty() {
                break;
            }
            alive.retain(|b| !gone.contains(b));
        }
        alive
    };
    let clones = std::mem::take(&mut st.lock().unwrap().clones);
    drop(clones);
    drop(brs);
    sleep_ms(60_000).await;
    let mut s = st.lock().unwrap();
    for i in 0..s.subs.len() {
        if held.contains(&s.subs[i].b) {
            continue;
        }
        sim().probe("broker-ended");
        let ended = s.drain(i);
        let u = &s.subs[i];
        match u.kind {
            Kind::TapIn | Kind::TapOut => {
                check!(ended, "tap of a dropped broker does not end", "broker {} tap {}", u.b, u.id)
            }
            Kind::Hand(_) => check!(
                u.dropped,
                "handler of a dropped broker is kept",
                "broker {} handler {}",
                u.b,
                u.id
            ),
            _ => {}
        }
    }
    // And it ends without anything being delivered twice.
    judge(&mut s, n)
}

fn ids(v: &[M]) -> Vec<String> {
    v.iter().map(|m| format!("{}{:?}", m.id % 100_000, m.path)).collect()
}

fn judge(s: &mut St, n: usize) -> Res {
    let stat = s.links.clone();
    let mut logs: BTreeMap<(usize, bool), Vec<M>> = BTreeMap::new();
    for b in 0..n {
        for out in [false, true] {
            logs.insert((b, out), s.log(b, out).clone());
        }
    }
    // What is emitted arrives once, and in order.
    for b in 0..n {
        for out in [false, true] {
            let want: Vec<u64> = s
                .emits
                .iter()
                .filter(|e| e.b == b && e.out == out && !(out && e.m.notap))
                .map(|e| e.m.id)
                .collect();
            let got: Vec<u64> = logs[&(b, out)]
                .iter()
                .filter(|m| m.path.is_empty() && m.by.is_none())
                .map(|m| m.id)
                .collect();
            check!(
                want == got,
                "messages lost, duplicated or out of order",
                "broker {b} out={out}: emitted {want:?} but listeners got {got:?}"
            );
        }
        let mut seen = BTreeSet::new();
        for out in [false, true] {
            for m in &logs[&(b, out)] {
                check!(
                    seen.insert((m.id, m.path.clone(), out)),
                    "message delivered twice",
                    "broker {b} out={out}: {m:?}"
                );
            }
        }
        // What a message that comes around at most can be forwarded
        for m in logs[&(b, false)].iter().chain(&logs[&(b, true)]) {
            check!(
                m.path.len() <= n,
                "message forwarded in circles",
                "broker {b}: {m:?}"
            );
        }
    }
    // Answers
    for (i, u) in s.subs.iter().enumerate() {
        if let Kind::Hand(h) = &u.kind {
            let want: Vec<u64> =
                u.log.iter().zip(&u.answered).filter(|x| *x.1).flat_map(|m| answers(m.0, i, h)).map(|m| m.id).collect();
            let got: Vec<u64> = logs[&(u.b, true)]
                .iter()
                .filter(|m| m.path.is_empty() && m.by == Some(i))
                .map(|m| m.id)
                .collect();
            check!(
                want == got,
                "answers of a handler lost, duplicated or out of order",
                "broker {}: answered {want:?}, listeners got {got:?}",
                u.b
            );
        }
    }
    // Static links: exactly the translation of what was there
    for (li, l) in &stat {
        let want: Vec<M> = logs[&(l.from, l.from_out)]
            .iter()
            .filter_map(|m| forward(*li, l, m))
            .collect();
        let mut got: Vec<M> = logs[&(l.to, l.to_out)]
            .iter()
            .filter(|m| m.path.last() == Some(&(*li, l.to)))
            .cloned()
            .collect();
        if l.from_out {
            for e in s.emits.iter().filter(|e| e.b == l.from && e.out && e.m.notap) {
                let cnt = got.iter().filter(|m| m.id == e.m.id && m.path.len() == 1).count();
                let exp = tr_fn(*li, l.to, l.mask, e.m.clone()).is_some() as usize;
                check!(
                    cnt == exp,
                    "message over a link lost or duplicated",
                    "{l:?}: message {} passed {cnt} times instead of {exp}",
                    e.m.id
                );
            }
            got.retain(|m| !(m.notap && m.path.len() == 1));
        }
        check!(
            want == got,
            "messages over a link lost, duplicated or out of order",
            "{l:?}: should be {:?} but are {:?}",
            ids(&want),
            ids(&got)
        );
    }
    // Listeners which came and went
    for (i, u) in s.subs.iter().enumerate() {
        if s.ref_in.contains(&i) || s.ref_out.contains(&i) || u.add_end == u64::MAX {
            continue;
        }
        let (src, got): (Vec<M>, Vec<M>) = match &u.kind {
            Kind::TapIn => (
                logs[&(u.b, false)]
                    .iter()
                    .filter(|m| !(m.notap && m.path.is_empty()))
                    .cloned()
                    .collect(),
                u.log.clone(),
            ),
            Kind::TapOut => (logs[&(u.b, true)].clone(), u.log.clone()),
            Kind::Hand(_) => {
                let not: BTreeSet<u64> = s
                    .emits
                    .iter()
                    .filter(|e| e.b == u.b && e.not_to == Some(u.id))
                    .map(|e| e.m.id)
                    .collect();
                (
                    logs[&(u.b, false)]
                        .iter()
                        .filter(|m| !(m.path.is_empty() && not.contains(&m.id)))
                        .cloned()
                        .collect(),
                    u.log.clone(),
                )
            }
            Kind::Link(li, l) => (
                logs[&(l.from, l.from_out)]
                    .iter()
                    .filter_map(|m| forward(*li, l, m))
                    .collect(),
                logs[&(l.to, l.to_out)]
                    .iter()
                    .filter(|m| m.path.last() == Some(&(*li, l.to)))
                    .filter(|m| !(l.from_out && m.notap && m.path.len() == 1))
                    .cloned()
                    .collect(),
            ),
        };
        let what = match u.kind {
            Kind::TapIn | Kind::TapOut => "tap",
            Kind::Hand(_) => "handler",
            Kind::Link(..) => "link",
        };
        let must: BTreeSet<u64> = s
            .emits
            .iter()
            .filter(|e| {
                e.b == u.b && e.seq > u.add_end && u.rm_start.map(|r| e.seq < r).unwrap_or(true)
            })
            .map(|e| e.m.id)
            .collect();
        let base = if matches!(u.kind, Kind::Link(..)) { 1 } else { 0 };
        let pos = |m: &M| src.iter().position(|x| x == m);
        let start = match got.first() {
            Some(m) => match pos(m) {
                Some(p) => p,
                None => {
                    return crate::case::viol(
                        format!("{what} gets a message that others do not"),
                        format!("broker {}: {m:?}", u.b),
                    )
                }
            },
            None => 0,
        };
        check!(
            start + got.len() <= src.len() && src[start..start + got.len()] == got[..],
            format!("{what} misses messages or gets them out of order"),
            "broker {}: got {:?}, there were {:?}",
            u.b,
            ids(&got),
            ids(&src)
        );
        // A tap which is closed by its listener cannot be asked for more than it read.
        if matches!(u.kind, Kind::TapIn | Kind::TapOut) && u.rx.is_none() {
            continue;
        }
        for m in src.iter().filter(|m| m.path.len() == base && m.by.is_none()) {
            if must.contains(&m.id) {
                check!(
                    got.contains(m),
                    format!("{what} does not get a message sent while it was there"),
                    "broker {}: {m:?} is missing in {:?}",
                    u.b,
                    ids(&got)
                );
            }
        }
        if u.removed && got.len() > 0 {
            sim().probe("removed-after-messages");
        }
    }
    // Everything there is has a reason.
    for b in 0..n {
        for out in [false, true] {
            for m in &logs[&(b, out)] {
                let known = s.emits.iter().any(|e| e.m.id == m.id) || m.by.is_some();
                check!(known, "message from nowhere", "broker {b}: {m:?}");
                if m.path.len() > 1 {
                    sim().probe("forwarded-twice");
                }
                if m.by.is_some() {
                    sim().probe("answered");
                }
            }
        }
    }
    Ok(())
}

fn forward(li: usize, l: &Link, m: &M) -> Option<M> {
    let mut visited = vec![m.origin];
    visited.extend(m.path.iter().map(|p| p.1));
    visited.pop();
    if visited.contains(&l.from) {
        return None;
    }
    tr_fn(li, l.to, l.mask, m.clone())
}

/// More settles at the same time, less else.
fn gen_settle(r: &mut Rng) -> (Cfg, Vec<TOp>) {
    let (mut cfg, _) = gen(r);
    cfg.n = 2 + r.us(4);
    let n = cfg.n;
    cfg.tasks = 2 + r.us(4);
    if r.chance(700) {
        // Chain or ring of links
        cfg.links.clear();
        for b in 0..n {
            let mut l = gen_link(r, n);
            l.from = b;
            l.to = (b + 1) % n;
            cfg.links.push(l);
        }
    }
    let tasks = cfg.tasks;
    let ops = (0..4 + r.us(30))
        .map(|_| TOp {
            t: r.us(tasks),
            op: match r.weighted(&[6, 6, 3, 2, 1, 1, 2]) {
                0 => Op::Emit {
                    b: r.us(n),
                    out: r.chance(500),
                    class: r.us(4) as u8,
                    notap: false,
                    not_to: None,
                    n: 1 + r.us(2) as u8,
                },
                1 => Op::Settle { b: r.us(n) },
                2 => Op::SettleMsg { b: r.us(n), out: r.chance(500), class: r.us(4) as u8 },
                3 => Op::Sleep { ms: r.below(3) },
                4 => Op::Tap { b: r.us(n), out: r.chance(500), sync: false },
                5 => Op::Link(gen_link(r, n)),
                _ => Op::Remove { k: r.us(6) },
            },
        })
        .collect();
    (cfg, ops)
}

pub fn props() -> Vec<Prop> {
    let real: &[&str] = &["flarch broker (all of it)"];
    let stub: &[&str] = &["handlers and translators are the harness' own"];
    vec![
        Prop {
            id: "C01",
            rule: "graphs of 1-4 brokers with random links, handlers and 1-4 tasks emitting, adding, removing, closing; each run with its own schedule",
            real,
            stub,
            reach: &["remove", "close", "forwarded-twice", "answered", "broker-ended", "removed-after-messages"],
            scens: vec![crate::scen!("graph", 3, gen, run), crate::scen!("settles", 1, gen_settle, run)],
        },
        Prop {
            id: "C02",
            rule: "graphs of 1-5 brokers, mostly cyclic, with several tasks settling and removing at the same time; each run with its own schedule",
            real,
            stub,
            reach: &["settle", "forwarded-twice", "broker-ended"],
            scens: vec![crate::scen!("settles", 3, gen_settle, run), crate::scen!("graph", 1, gen, run)],
        },
    ]
}
