//! C08 (crash-safe saves), C09 (snapshots), C10 (nothing blocks queries).
use crate::run::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Save {
    conf: Conf,
    blocks: Vec<BlockPlan>,
    next: Vec<BlockPlan>,
}

const ACTIONS: &[(i64, &str)] = &[
    (ctl::KILL_BEFORE, "killed before"),
    (ctl::KILL_AFTER, "killed after"),
    (ctl::KILL_PARTIAL, "killed in the middle of"),
    (ctl::FAIL_EIO, "EIO at"),
    (ctl::FAIL_ENOSPC, "ENOSPC at"),
    (ctl::PARTIAL_ENOSPC, "partial write, then ENOSPC at"),
    (ctl::FAIL_EIO_ALL, "EIO from"),
    (ctl::SHORT, "short write at"),
];

/// No file operation for a while (at least one happened since `from`).
fn idle(c: &Ctl, from: i64, limit: Duration) -> bool {
    let end = Instant::now() + limit;
    let mut last = (c.ops(), Instant::now());
    loop {
        let n = c.ops();
        if n != last.0 {
            last = (n, Instant::now());
        } else if n > from && last.1.elapsed() > Duration::from_millis(60) {
            return true;
        }
        if Instant::now() > end {
            return false;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

/// Tells one version of a file from another.
fn stamp(path: &std::path::Path) -> Option<(u64, u64, i64, i64)> {
    use std::os::unix::fs::MetadataExt;
    let m = std::fs::metadata(path).ok()?;
    Some((m.ino(), m.len(), m.mtime(), m.mtime_nsec()))
}

fn at(what: String) -> impl Fn(Fail) -> Fail {
    move |e| match e {
        Fail::Violation(m) => Fail::Violation(format!("{}: {}", what, m)),
        Fail::Stall(m) => Fail::Stall(format!("{}: {}", what, m)),
        e => e,
    }
}

pub fn c08(k: &Check) {
    k.rule("a case is a chain; every file operation of its first save and of a later save is interrupted in every way (8 kinds), the program started again and everything compared; evaluations count chains, the distribution counts interrupted saves");
    k.assume("a kill is SIGKILL between or inside file operations, what was written before stays written (no power loss)");
    k.exhaustive();
    let strategy = || {
        (1u8..4, 1u8..5, prop::collection::vec(block_plan(3), 0..6), prop::collection::vec(block_plan(2), 1..4))
            .prop_map(|(threads, confirmations, blocks, next)| Save { conf: Conf { threads, batch: 3, confirmations }, blocks, next })
    };
    k.section("interrupted saves", k.n(14, 300), 8, strategy, |s: &Save, info| {
        let c = s.conf.confirmations as usize;
        for later in [false, true] {
            for (action, name) in ACTIONS {
                let mut n = 1;
                loop {
                    let sim = chain(&s.blocks, c);
                    let mut w = World::new(sim, &s.conf, &plain_layout())?;
                    let ctl = Ctl::new(&w.scratch.0);
                    w.launch.ctl = Some(ctl.path.clone());
                    let kills = [ctl::KILL_BEFORE, ctl::KILL_AFTER, ctl::KILL_PARTIAL].contains(action);
                    let what = format!("{} file operation {} of {}", name, n, if later { "a later save" } else { "the first save" });
                    if later {
                        w.start()?;
                        w.sync()?;
                    }
                    let from = ctl.ops();
                    let before = stamp(&w.scratch.store());
                    ctl.arm(n, *action);
                    if later {
                        w.node.with(|i| s.next.iter().for_each(|b| i.sim.mine(b)));
                    } else {
                        w.spawn()?;
                    }
                    let mut last = (ctl.ops(), Instant::now());
                    let mut ended = false;
                    loop {
                        if w.ix().exited().is_some() {
                            ended = true;
                            break;
                        }
                        if ctl.ops() != last.0 {
                            last = (ctl.ops(), Instant::now());
                        }
                        // the save is over
                        if last.0 > from && last.1.elapsed() > Duration::from_millis(80) {
                            let fired = ctl.fired();
                            if !(fired && kills) && (fired || stamp(&w.scratch.store()) != before || last.1.elapsed() > LIMIT / 5) {
                                break;
                            }
                        }
                        if last.1.elapsed() > LIMIT {
                            return Err(Fail::Stall(format!("{}: no save took place", what)));
                        }
                        std::thread::sleep(Duration::from_micros(500));
                    }
                    let fired = ctl.fired();
                    if !fired {
                        if ended {
                            return Err(at(what)(w.ix().died("without any interruption")));
                        }
                        break;
                    }
                    if kills && !ended && w.ix().wait_exit(LIMIT).is_none() {
                        return Err(Fail::Harness(format!("{}: still running", what)));
                    }
                    info.label(format!("{} save: {}", if later { "later" } else { "first" }, name));
                    if *action == ctl::SHORT {
                        if ended {
                            return Err(at(what)(w.ix().died("because of a short write")));
                        }
                        w.ix().ready()?;
                        w.sync()?;
                        w.compare(0..=c).map_err(at(what.clone()))?;
                    }
                    let oplog = ctl.log(from);
                    w.stop();
                    let present = w.scratch.store().exists();
                    if later && !present {
                        return bad(format!("{}: the index file is gone (operations: {})", what, oplog));
                    }
                    if present {
                        // the file alone has to do
                        std::fs::remove_dir_all(w.scratch.blocks()).ok();
                        std::fs::create_dir_all(w.scratch.blocks()).ok();
                    }
                    // started again, interrupted a second time at another point, started again
                    ctl.raw().fire_at.store(0, Ordering::SeqCst);
                    w.start().map_err(at(format!("start after: {}", what)))?;
                    w.sync()?;
                    w.compare(0..=c).map_err(at(format!("after a restart following: {}", what)))?;
                    let from = ctl.ops();
                    w.node.with(|i| i.sim.mine(&s.next[0]));
                    w.sync()?;
                    w.compare(0..=c).map_err(at(format!("next block after: {}", what)))?;
                    if !idle(&ctl, from, LIMIT) {
                        return Err(Fail::Stall(format!("{}: no save after the restart", what)));
                    }
                    w.stop();
                    std::fs::remove_dir_all(w.scratch.blocks()).ok();
                    std::fs::create_dir_all(w.scratch.blocks()).ok();
                    w.start().map_err(at(format!("second start after: {}", what)))?;
                    w.sync()?;
                    w.compare(0..=c).map_err(at(format!("second restart after: {}", what)))?;
                    n += 1;
                    if n > 300 {
                        break;
                    }
                }
                info.label(format!("file operations of a save: {}", n - 1));
            }
        }
        info.nontrivial = true;
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Storm {
    conf: Conf,
    initial: Vec<BlockPlan>,
    ops: Vec<Op>,
    /// polls without a change between two operations
    gaps: Vec<u8>,
    threads: u8,
    repeat: u16,
    bulk: u16,
}

type Answer = Vec<BTreeMap<OutPoint, u64>>;

pub fn c09(k: &Check) {
    k.rule("non-trivial if during the storm at least 2 changes of state were applied and at least 50 answers were checked");
    k.assume("the node's state changes only at the start of a poll, so that the state an update sees is one definite state");
    let strategy = || {
        let w = Weights { mine: 5, reorg: 2, back: 1, mem: 1, sync: 0, restart: 0 };
        (
            conf(),
            prop::collection::vec(block_plan(3), 2..6),
            prop::collection::vec(op(w), 8..30),
            prop::collection::vec(0u8..3, 1..5),
            2u8..6,
            prop_oneof![2 => Just(1u16), 4 => 2u16..20, 3 => 60u16..1000],
            prop_oneof![1 => Just(0u16), 2 => 100u16..1200],
        )
            .prop_map(|(conf, initial, mut ops, gaps, threads, repeat, bulk)| {
                // long lists of addresses with few outputs each
                let bulk = if repeat > 20 { 0 } else { bulk };
                // heavy blocks make the application of an update last longer
                if bulk > 0 {
                    for (i, o) in ops.iter_mut().enumerate() {
                        if let Op::Mine(b) = o {
                            b[0].txs.insert(0, TxPlan { ins: vec![i as u16 * 977], outs: vec![OutPlan { kind: 0, addr: i as u8, w: 1 }], segwit: false, len: 2, bulk });
                        }
                    }
                }
                Storm { conf, initial, ops, gaps, threads, repeat, bulk }
            })
    };
    k.section("storm", k.n(110, 2500), 3, strategy, |s: &Storm, info| {
        let c = s.conf.confirmations as usize;
        let mut w = World::new(chain(&s.initial, c), &s.conf, &plain_layout())?;
        w.start()?;
        w.sync()?;
        let addrs = w.addrs.clone();
        // all states, computed beforehand on a copy of the world (deterministic replay)
        let answers = |sim: &Sim| -> Vec<Answer> {
            (0..=c)
                .map(|l| {
                    let by = by_address(&sim.expected(l));
                    addrs.iter().map(|a| by.get(a).cloned().unwrap_or_default()).collect()
                })
                .collect()
        };
        let states: std::sync::Arc<Mutex<Vec<Vec<Answer>>>> = std::sync::Arc::new(Mutex::new(vec![answers(&w.node.lock().sim)]));
        // transitions, each at the start of a poll; afterwards the new state is known before the poll is answered
        let total = {
            let mut total = 0;
            let mut q: Vec<Box<dyn FnOnce(&mut Sim) + Send>> = Vec::new();
            for (i, o) in s.ops.iter().enumerate() {
                for _ in 0..s.gaps[i % s.gaps.len()] {
                    q.push(Box::new(|_| ()));
                }
                let o = o.clone();
                let addrs = addrs.clone();
                let states = states.clone();
                total += 1;
                q.push(Box::new(move |sim| {
                    sim.apply(&o, c);
                    let v = (0..=c)
                        .map(|l| {
                            let by = by_address(&sim.expected(l));
                            addrs.iter().map(|a| by.get(a).cloned().unwrap_or_default()).collect()
                        })
                        .collect();
                    states.lock().unwrap().push(v);
                }));
            }
            w.node.with(|i| i.on_poll.extend(q));
            total
        };
        let applied = AtomicUsize::new(0);
        let checked = AtomicUsize::new(0);
        let stop = std::sync::atomic::AtomicBool::new(false);
        let fail: Mutex<Option<Fail>> = Mutex::new(None);
        let addr = w.ix().addr;
        std::thread::scope(|sc| {
            for t in 0..s.threads {
                let (states, applied, checked, stop, fail, addrs, s) = (&states, &applied, &checked, &stop, &fail, &addrs, s);
                sc.spawn(move || {
                    let mut conn = common::http::Conn::new(addr, LIMIT);
                    let mut x = 0x9e37u32.wrapping_mul(t as u32 + 1) | 1;
                    let mut rnd = |n: usize| {
                        x ^= x << 13;
                        x ^= x >> 17;
                        x ^= x << 5;
                        x as usize % n
                    };
                    // the whole list, repeated
                    let mut list = Vec::new();
                    for _ in 0..s.repeat {
                        list.extend(addrs.iter().copied());
                    }
                    let body = serde_json::to_vec(&list.iter().map(|a| a.text()).collect::<Vec<_>>()).unwrap();
                    while !stop.load(Ordering::SeqCst) {
                        let level = rnd(c + 1);
                        let kind = rnd(5);
                        let low = applied.load(Ordering::SeqCst);
                        let one = rnd(addrs.len());
                        let path = match kind {
                            0 | 1 => format!("/addresses/utxos?confirmations={}", level),
                            2 => format!("/addresses/balance?confirmations={}", level),
                            3 => format!("/addresses/{}/utxos?confirmations={}", addrs[one].text(), level),
                            _ => format!("/addresses/{}/balance?confirmations={}", addrs[one].text(), level),
                        };
                        let r = if kind <= 2 { conn.request("POST", &path, Some(&body)) } else { conn.request("GET", &path, None) };
                        let high = states.lock().unwrap().len() - 1;
                        let set = |f: Fail| {
                            let mut g = fail.lock().unwrap();
                            if g.is_none() {
                                *g = Some(f);
                            }
                            stop.store(true, Ordering::SeqCst);
                        };
                        let r = match r {
                            Ok(r) if r.status == 200 => r,
                            Ok(r) => return set(Fail::Violation(format!("{} answered {}", path, r.status))),
                            Err(common::http::HttpError::Timeout) => return set(Fail::Stall(format!("no answer to {}", path))),
                            Err(e) => {
                                if stop.load(Ordering::SeqCst) {
                                    return;
                                }
                                return set(Fail::Violation(format!("{}: {:?}", path, e)));
                            }
                        };
                        let v: serde_json::Value = match serde_json::from_slice(&r.body) {
                            Ok(v) => v,
                            Err(e) => return set(Fail::Violation(format!("{}: {}", path, e))),
                        };
                        let g = states.lock().unwrap();
                        // the first state, not older than what was already seen, that explains the answer
                        let found = match kind {
                            0 | 1 => parse_utxo_batch(&v, &list).map(|got| {
                                (low..=high).find(|i| got.chunks(addrs.len()).all(|ch| ch == &g[*i][level][..]))
                            }),
                            2 => parse_balance_batch(&v, &list).map(|got| {
                                (low..=high).find(|i| {
                                    let want: Vec<u64> = g[*i][level].iter().map(|m| m.values().sum()).collect();
                                    got.chunks(addrs.len()).all(|ch| ch == &want[..])
                                })
                            }),
                            3 => parse_utxos(&v).map(|got| (low..=high).find(|i| got == g[*i][level][one])),
                            _ => satoshis(&v).map(|got| (low..=high).find(|i| got == g[*i][level][one].values().sum::<u64>())),
                        };
                        drop(g);
                        match found {
                            Err(e) => return set(Fail::Violation(format!("{}: {}", path, e))),
                            Ok(None) => {
                                return set(Fail::Violation(format!(
                                    "the answer to {} is that of no single state between number {} (already visible before the query) and {}",
                                    path, low, high
                                )))
                            }
                            Ok(Some(i)) => {
                                applied.fetch_max(i, Ordering::SeqCst);
                                checked.fetch_add(1, Ordering::SeqCst);
                            }
                        }
                    }
                });
            }
            // the driver: raises the floor whenever another poll arrives (the previous one has been applied)
            let end = Instant::now() + Duration::from_secs(60);
            let mut seen = (w.node.lock().polls, 0usize);
            let mut idle_polls = 0;
            while !stop.load(Ordering::SeqCst) {
                let (polls, left, n) = {
                    let g = w.node.lock();
                    (g.polls, g.on_poll.len(), states.lock().unwrap().len() - 1)
                };
                if polls > seen.0 {
                    // at an earlier moment `seen.1` states had been announced by polls up to seen.0, which are all applied now
                    applied.fetch_max(seen.1, Ordering::SeqCst);
                    seen = (polls, n);
                    if left == 0 {
                        idle_polls += 1;
                    }
                }
                if idle_polls >= 4 || Instant::now() > end {
                    stop.store(true, Ordering::SeqCst);
                }
                if w.ix.as_mut().unwrap().exited().is_some() {
                    let f = w.ix.as_mut().unwrap().died("under queries and updates");
                    *fail.lock().unwrap() = Some(f);
                    stop.store(true, Ordering::SeqCst);
                }
                std::thread::sleep(Duration::from_micros(200));
            }
        });
        if let Some(f) = fail.into_inner().unwrap() {
            return Err(f);
        }
        if w.node.lock().on_poll.len() > 0 {
            return Err(Fail::Stall("the polls stopped".into()));
        }
        w.compare(0..=c)?;
        let n = checked.load(Ordering::SeqCst);
        let distinct = {
            let g = states.lock().unwrap();
            (1..g.len()).filter(|i| g[*i] != g[*i - 1]).count()
        };
        info.nontrivial = distinct >= 2 && n >= 50;
        info.note = Some(json!({"answers checked": n, "transitions": total, "changes": distinct}));
        info.label(format!("answers checked: {}", if n < 50 { "<50" } else if n < 500 { "50-499" } else { "500+" }));
        if s.bulk > 0 {
            info.label("heavy blocks");
        }
        Ok(())
    });
    start_held(k);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Early {
    conf: Conf,
    initial: Vec<BlockPlan>,
    /// per start: changes before it, node call of the first poll at which it is stopped, changes meanwhile
    starts: Vec<(Vec<Op>, u8, Vec<Op>)>,
}

/// While the first poll after a start is stopped nothing may be answered; afterwards the state is that of a completed poll.
fn start_held(k: &Check) {
    let w = Weights { mine: 5, reorg: 2, back: 1, mem: 2, sync: 0, restart: 0 };
    let s = move || {
        (conf(), prop::collection::vec(block_plan(3), 1..8), prop::collection::vec((prop::collection::vec(op(w), 0..4), 0u8..12, prop::collection::vec(op(w), 0..2)), 1..4))
            .prop_map(|(conf, initial, starts)| Early { conf, initial, starts })
    };
    k.section("start held", k.n(400, 8000), 8, s, |v: &Early, info| {
        let c = v.conf.confirmations as usize;
        let mut w = World::new(chain(&v.initial, c), &v.conf, &plain_layout())?;
        for (i, (before, nth, during)) in v.starts.iter().enumerate() {
            w.stop();
            if i > 0 {
                for o in before {
                    w.apply(o);
                }
            }
            let (h0, p0) = w.node.with(|i| {
                i.hold = Some(("*".into(), *nth as u64));
                (i.held, i.polls)
            });
            w.spawn()?;
            if !wait_held(&mut w, h0 + 1, LIMIT)? {
                return Err(Fail::Stall("the program does not ask the node".into()));
            }
            let first = {
                let g = w.node.lock();
                match g.first.as_deref() {
                    None => true,
                    Some("getrawmempool") => g.held_poll == p0 + 1,
                    Some(_) => g.held_poll <= p0,
                }
            };
            if first {
                info.label("stopped in the first poll");
                info.nontrivial = true;
                let addr = w.ix().addr;
                let mut conn = common::http::Conn::new(addr, Duration::from_millis(150));
                for path in ["/addresses/utxos?confirmations=0&addresses=", "/addresses/balance?confirmations=1&addresses="] {
                    let path = format!("{}{}", path, w.addrs[0].text());
                    if let Ok(r) = conn.request("GET", &path, None) {
                        return bad(format!("the first poll has not ended, and {} is answered {}: {}", path, r.status, r.text()));
                    }
                }
            } else {
                info.label("stopped in a later poll");
                w.ix().ready()?;
                w.compare(0..=c)?;
            }
            for o in during {
                w.apply(o);
            }
            w.node.with(|i| {
                i.hold = None;
                i.released = i.held;
            });
            w.ix().ready()?;
            w.sync()?;
            w.compare(0..=c)?;
        }
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gate {
    conf: Conf,
    initial: Vec<BlockPlan>,
    before: Vec<Op>,
    rounds: Vec<(Vec<Op>, u8, u8)>,
}

const METHODS: [&str; 4] = ["getblockhash", "getblock", "getrawtransaction", "getrawmempool"];

/// Stops the update loop at the start of an update, applies `ops`, lets the update run up to the given call and checks that
/// queries are answered from the last applied state meanwhile.
fn gated(w: &mut World, ops: &[Op], method: &str, nth: u64, info: &mut Info) -> R {
    let c = w.c();
    let limit = LIMIT;
    let h0 = w.node.lock().held;
    w.node.hold("getrawmempool", 0);
    if !wait_held(w, h0 + 1, limit)? {
        return Err(Fail::Stall("the indexer stopped polling".into()));
    }
    let before: Vec<Utxo> = (0..=c).map(|l| w.expected(l)).collect();
    let gate_poll = w.node.lock().held_poll;
    for o in ops {
        if let Some(l) = w.apply(o) {
            info.label(format!("during update: {}", l));
        }
    }
    // the call may not occur in this update; some later update then has the new state applied already
    let mut m = method;
    if m == "getblock" || m == "getrawtransaction" {
        // only if certain to be called
        let sure = match m {
            "getblock" => ops.iter().any(|o| matches!(o, Op::Mine(_))),
            _ => w.node.lock().sim.mempool.iter().any(|x| x.missing),
        };
        if !sure {
            m = "getblockhash";
        }
    }
    w.node.with(|i| {
        i.hold = Some((m.to_string(), if m == "getblock" || m == "getrawtransaction" { 0 } else { nth }));
        i.released = i.held;
    });
    if !wait_held(w, h0 + 2, limit)? {
        return Err(Fail::Stall(format!("the update never called {}", m)));
    }
    let same = w.node.lock().held_poll == gate_poll;
    info.label(format!("queries while waiting for {}", m));
    let addrs = w.addrs.clone();
    for l in 0..=c {
        let want = if same { before[l].clone() } else { w.expected(l) };
        // on a connection of its own each time
        w.ix().conn.close();
        compare(w.ix(), &addrs, l, &want).map_err(|e| match e {
            Fail::Violation(m2) => Fail::Violation(format!("while an update waits for the node's answer to {}: {}", m, m2)),
            Fail::Stall(m2) => Fail::Stall(format!("while an update waits for the node's answer to {}: {}", m, m2)),
            e => e,
        })?;
    }
    w.node.release();
    Ok(())
}

fn wait_held(w: &mut World, n: u64, limit: Duration) -> R<bool> {
    let ok = {
        let ix = w.ix.as_mut().unwrap();
        w.node.wait(limit, || ix.exited().is_none(), |i| i.held >= n)
    };
    if !ok && w.ix().exited().is_some() {
        return Err(w.ix().died("while updating"));
    }
    Ok(ok)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Held {
    conf: Conf,
    initial: Vec<BlockPlan>,
    first: Vec<BlockPlan>,
    at: u8,
    during: Vec<Vec<Op>>,
    gate: Option<(u8, u8)>,
    after: Vec<Op>,
    restart: bool,
}

pub fn c10(k: &Check) {
    k.rule("every case stops an update at a node call, or a save at a file operation, and queries meanwhile; non-trivial if the stop took place and changes of the chain or mempool were pending or applied during it");
    let w = Weights { mine: 5, reorg: 2, back: 1, mem: 2, sync: 0, restart: 0 };
    let s = move || {
        (
            conf(),
            prop::collection::vec(block_plan(3), 2..6),
            prop::collection::vec(op(w), 0..4),
            prop::collection::vec((prop::collection::vec(op(w), 1..4), 0u8..4, 0u8..4), 1..5),
        )
            .prop_map(|(conf, initial, before, rounds)| Gate { conf, initial, before, rounds })
    };
    k.section("update held", k.n(650, 12000), 8, s, |g: &Gate, info| {
        let c = g.conf.confirmations as usize;
        let mut w = World::new(chain(&g.initial, c), &g.conf, &plain_layout())?;
        w.start()?;
        for o in &g.before {
            w.apply(o);
        }
        w.sync()?;
        for (ops, m, nth) in &g.rounds {
            gated(&mut w, ops, METHODS[*m as usize % 4], *nth as u64, info)?;
            w.sync()?;
            w.compare(0..=c)?;
        }
        info.nontrivial = true;
        Ok(())
    });
    save_held(k, k.n(650, 12000), w, &|c| (0..=c).collect());
}

/// A save of the index is stopped at one of its file operations while the chain goes on, then completes.
pub fn save_held(k: &Check, n: u32, w: Weights, levels: &(dyn Fn(usize) -> Vec<usize> + Sync)) {
    let always = w.restart > 0;
    let w = Weights { sync: 0, restart: 0, ..w };
    let s = move || {
        (
            conf(),
            prop::collection::vec(block_plan(3), 2..6),
            prop::collection::vec(block_plan(2), 1..3),
            1u8..6,
            prop::collection::vec(prop::collection::vec(op(w), 1..3), 1..6),
            proptest::option::of((0u8..3, 0u8..3)),
            prop::collection::vec(op(w), 0..4),
            any::<bool>(),
        )
            .prop_map(move |(conf, initial, first, at, during, gate, after, restart)| Held { conf, initial, first, at, during, gate, after, restart: restart || always })
    };
    k.section("save held", n, 8, s, |h: &Held, info| {
        let c = h.conf.confirmations as usize;
        let mut w = World::new(chain(&h.initial, c), &h.conf, &plain_layout())?;
        let ctl = Ctl::new(&w.scratch.0);
        w.launch.ctl = Some(ctl.path.clone());
        w.start()?;
        w.sync()?;
        let from = ctl.ops();
        ctl.arm(h.at as i64, ctl::HOLD);
        w.node.with(|i| h.first.iter().for_each(|b| i.sim.mine(b)));
        // held, or the save has fewer operations
        let held = {
            let mut last = (ctl.ops(), Instant::now());
            loop {
                if ctl.held() {
                    break true;
                }
                if ctl.ops() != last.0 {
                    last = (ctl.ops(), Instant::now());
                }
                if last.0 > from && last.1.elapsed() > Duration::from_millis(60) {
                    break false;
                }
                if last.1.elapsed() > LIMIT {
                    if w.ix().exited().is_some() {
                        return Err(w.ix().died("after a block"));
                    }
                    return Err(Fail::Stall("no save took place after a block became final".into()));
                }
                std::thread::sleep(Duration::from_micros(300));
            }
        };
        let ctx = |e: Fail| match e {
            Fail::Violation(m) => Fail::Violation(format!("while the index is being saved (stopped at file operation {}): {}", h.at, m)),
            Fail::Stall(m) => Fail::Stall(format!("while the index is being saved (stopped at file operation {}): {}", h.at, m)),
            e => e,
        };
        if held {
            info.label("save held");
            info.nontrivial = true;
        } else {
            info.label("save has fewer operations");
        }
        w.compare(levels(c)).map_err(ctx)?;
        for ops in &h.during {
            let mut any = false;
            for o in ops {
                if let Some(l) = w.apply(o) {
                    info.label(format!("during save: {}", l));
                    any = true;
                }
            }
            if any {
                w.sync().map_err(ctx)?;
                w.compare(levels(c)).map_err(ctx)?;
            }
        }
        if let Some((m, nth)) = h.gate {
            gated(&mut w, &h.during[0], METHODS[m as usize % 4], nth as u64, info).map_err(ctx)?;
            w.sync().map_err(ctx)?;
            w.compare(levels(c)).map_err(ctx)?;
        }
        ctl.release();
        w.sync()?;
        w.compare(levels(c))?;
        for o in &h.after {
            if w.apply(o).is_some() {
                w.sync()?;
                w.compare(levels(c))?;
            }
        }
        if h.restart {
            w.stop();
            std::fs::remove_dir_all(w.scratch.blocks()).ok();
            std::fs::create_dir_all(w.scratch.blocks()).ok();
            w.start()?;
            w.sync()?;
            w.compare(levels(c))?;
            info.label("restart");
        }
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mid {
    conf: Conf,
    initial: Vec<BlockPlan>,
    /// the node returns transactions of blocks too
    #[serde(default)]
    txindex: bool,
    /// (changes before, call of the next poll at which it is stopped, changes meanwhile)
    rounds: Vec<(Vec<Op>, u8, Vec<Op>)>,
}

/// Polls are stopped at one of their node calls while the chain and the mempool change, then go on.
pub fn mid_poll(k: &Check, n: u32, w: Weights, levels: &(dyn Fn(usize) -> Vec<usize> + Sync)) {
    let w = Weights { sync: 0, restart: 0, ..w };
    let s = move || {
        (
            conf(),
            prop::collection::vec(block_plan(3), 2..8),
            any::<bool>(),
            prop::collection::vec((prop::collection::vec(op(w), 0..4), 0u8..10, prop::collection::vec(op(w), 1..4)), 1..5),
        )
            .prop_map(|(conf, initial, txindex, rounds)| Mid { conf, initial, txindex, rounds })
    };
    k.section("changes in the middle of a poll", n, 8, s, |m: &Mid, info| {
        let c = m.conf.confirmations as usize;
        let mut w = World::new(chain(&m.initial, c), &m.conf, &plain_layout())?;
        w.node.with(|i| i.txindex = m.txindex);
        w.start()?;
        for (before, nth, during) in &m.rounds {
            w.sync()?;
            // at the beginning of a poll
            let h0 = w.node.lock().held;
            w.node.hold("getrawmempool", 0);
            if !wait_held(&mut w, h0 + 1, LIMIT)? {
                return Err(Fail::Stall("the indexer stopped polling".into()));
            }
            for o in before {
                w.apply(o);
            }
            w.node.with(|i| {
                i.hold = Some(("*".to_string(), *nth as u64));
                i.released = i.held;
            });
            if !wait_held(&mut w, h0 + 2, LIMIT)? {
                return Err(Fail::Stall("the indexer stopped polling".into()));
            }
            for o in during {
                if let Some(l) = w.apply(o) {
                    info.label(l);
                    info.nontrivial = true;
                }
            }
            w.node.release();
            w.sync()?;
            w.compare(levels(c))?;
        }
        Ok(())
    });
}
