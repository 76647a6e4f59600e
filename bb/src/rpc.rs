//! C15 (transport of the node's answers), C16 (fail-stop), C18 (configuration), C21 (clock steps).
use crate::run::*;
use common::http::{Conn, HttpError};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::ExitStatusExt;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

pub fn style() -> impl Strategy<Value = Style> {
    (
        any::<bool>(),
        prop_oneof![2 => Just(0u8), 2 => Just(1u8), 1 => 2u8..5],
        prop_oneof![2 => Just(0u16), 1 => 1u16..4, 2 => 4u16..200, 1 => 200u16..5000],
        any::<[bool; 3]>(),
        prop_oneof![4 => Just(false), 1 => Just(true)],
        any::<bool>(),
        prop_oneof![5 => Just(false), 1 => Just(true)],
        (prop_oneof![1 => Just(0u8), 1 => 1u8..6], prop_oneof![3 => Just(false), 1 => Just(true)], prop_oneof![1 => Just(0u8), 1 => 1u8..5]),
    )
        .prop_map(|(chunked, close_every, split, [pretty, extra, reorder], until_close, trailers, slow, (wording, escape, head))| Style {
            wording,
            escape,
            head,
            chunked,
            close_every,
            split,
            pretty,
            extra,
            reorder,
            until_close,
            trailers,
            slow,
        })
}

fn secret() -> impl Strategy<Value = String> {
    prop_oneof![
        1 => Just(String::new()),
        3 => "[a-zA-Z0-9]{1,20}",
        2 => "[ -~]{1,40}",
        1 => "[^\\x00]{1,12}",
        1 => "[a-z]{200,700}",
        1 => Just("pass:word:".to_string()),
        1 => Just("üñí¢ödé-日本語-🦀".to_string()),
        1 => Just("\u{7f}\n\t\"\\%41=".to_string()),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wire {
    h: History,
    user: String,
    pass: String,
    styles: Vec<Style>,
    /// the node is given by a name
    #[serde(default)]
    name: Option<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bulky {
    confirmations: u8,
    /// per block: (outputs, witness, script length class) of its transactions
    blocks: Vec<Vec<(u16, bool, u8)>>,
    /// unconfirmed transactions
    mem: u16,
    styles: Vec<Style>,
}

/// A name of 127.0.0.1, if there is one.
fn local_name(n: u8) -> Option<&'static str> {
    use std::net::ToSocketAddrs;
    let name = ["localhost", "LOCALHOST", "localhost."][n as usize % 3];
    let known = |x: &str| (x, 0).to_socket_addrs().map_or(false, |mut l| l.any(|a| a.ip() == std::net::Ipv4Addr::LOCALHOST));
    [name, "localhost"].into_iter().find(|x| known(x))
}

pub fn c15(k: &Check) {
    k.rule("a case is a history with a transport style that changes with every step and credentials; everything served is compared after every step and every call is checked on the node's side; non-trivial if a style other than the plain one was used and blocks or transactions were fetched under it");
    let w = Weights { mine: 6, reorg: 2, back: 1, mem: 2, sync: 0, restart: 1 };
    let s = move || {
        (history(w, 5, 10), secret(), secret(), prop::collection::vec(style(), 1..6), proptest::option::weighted(0.2, any::<u8>()))
            .prop_map(|(h, user, pass, styles, name)| Wire { h, user, pass, styles, name })
    };
    k.section("transport", k.n(700, 16000), 8, s, |v: &Wire, info| {
        let c = v.h.conf.confirmations as usize;
        let mut w = World::new(chain(&v.h.initial, c), &v.h.conf, &v.h.layout)?;
        w.node.with(|i| {
            i.user = v.user.clone();
            i.pass = v.pass.clone();
            i.style = v.styles[0].clone();
        });
        w.launch = w.launch.clone().set("RPC_SERVER_USER", &v.user).set("RPC_SERVER_PASSWORD", &v.pass);
        if let Some(name) = v.name.and_then(|n| local_name(n)) {
            let inner = w.node.with(|i| (std::mem::take(&mut i.sim), i.user.clone(), i.pass.clone(), i.style.clone()));
            w.node = Node::start_at(inner.0, std::net::Ipv4Addr::LOCALHOST).map_err(|e| Fail::Harness(format!("node: {}", e)))?;
            w.node.with(|i| (i.user, i.pass, i.style) = (inner.1, inner.2, inner.3));
            w.launch = w.launch.clone().set("RPC_SERVER_HOST", name).set("RPC_SERVER_PORT", w.node.port);
            info.label("node given by name");
        }
        w.start()?;
        w.sync()?;
        w.compare(0..=c)?;
        let step = |w: &mut World, n: usize, info: &mut Info| -> R {
            let s = &v.styles[n % v.styles.len()];
            info.label(if s.until_close {
                "closed after each reply, no length"
            } else if s.chunked {
                if s.trailers {
                    "chunked with extensions and trailers"
                } else {
                    "chunked"
                }
            } else {
                "length-delimited"
            });
            if s.close_every == 1 {
                info.label("closed after each reply");
            }
            if s.split > 0 {
                info.label("split replies");
            }
            if s.escape {
                info.label("escapes in JSON strings");
            }
            if s.wording > 0 {
                info.label("other error texts");
            }
            let ctx = |e| match e {
                Fail::Violation(m) => Fail::Violation(format!("transport {:?}: {}", s, m)),
                e => e,
            };
            w.sync().map_err(ctx)?;
            w.compare(0..=c).map_err(ctx)
        };
        for (n, op) in v.h.ops.iter().enumerate() {
            w.node.with(|i| i.style = v.styles[n % v.styles.len()].clone());
            if let Op::Restart { offline } = op {
                w.stop();
                for o in offline {
                    w.apply(o);
                }
                w.start()?;
                step(&mut w, n, info)?;
            } else if let Some(l) = w.apply(op) {
                info.label(l);
                step(&mut w, n, info)?;
                info.nontrivial |= v.styles[n % v.styles.len()] != Style::default();
            }
        }
        if !v.user.is_ascii() || !v.pass.is_ascii() {
            info.label("credentials outside ASCII");
        }
        if (v.user.len() + v.pass.len() + 1) % 3 != 0 {
            info.label("credentials with Base64 padding");
        }
        if v.user.len() + v.pass.len() > 200 {
            info.label("long credentials");
        }
        Ok(())
    });
    // replies of megabytes
    let s = move || {
        let big = prop_oneof![4 => 1u16..300, 4 => 1000u16..4000, 2 => 8000u16..24000, 1 => 40000u16..60000];
        (1u8..5, prop::collection::vec(prop::collection::vec((big, any::<bool>(), 0u8..8), 1..4), 1..4), prop_oneof![6 => 0u16..50, 6 => 400u16..1500, 1 => 4000u16..12000], prop::collection::vec(style(), 1..4)).prop_map(|(confirmations, blocks, mem, styles)| Bulky { confirmations, blocks, mem, styles })
    };
    k.section("large replies", k.n(30, 500), 8, s, |v: &Bulky, info| {
        let conf = Conf { threads: 1, batch: 10, confirmations: v.confirmations };
        let c = v.confirmations as usize;
        let mut w = World::new(chain(&[], c), &conf, &plain_layout())?;
        w.start()?;
        for (n, b) in v.blocks.iter().enumerate() {
            let txs = b.iter().enumerate().map(|(i, (bulk, segwit, len))| TxPlan { ins: vec![i as u16], outs: vec![OutPlan { kind: i as u8, addr: *len, w: 2 }], segwit: *segwit, len: *len, bulk: *bulk }).collect();
            let style = &v.styles[n % v.styles.len()];
            w.node.with(|i| {
                i.style = Style { slow: false, ..style.clone() };
                i.sim.mine(&BlockPlan { coinbase: vec![OutPlan { kind: 0, addr: 1, w: 1 }], value: 0, txs, take: 0 });
                let plans = |k: u16| TxPlan { ins: vec![k], outs: vec![OutPlan { kind: 0, addr: k as u8, w: 1 }], segwit: false, len: 1, bulk: 0 };
                // one after the other on a view that is kept along, not computed anew for each
                let mut view = i.sim.mempool_full();
                while i.sim.mempool.len() < v.mem as usize {
                    let t = i.sim.make_tx(&view, &plans(i.sim.mempool.len() as u16));
                    let Some(t) = t else { break };
                    t.apply(&mut view);
                    i.sim.mempool.push(MemTx { rec: t, missing: false });
                }
            });
            w.sync()?;
            w.compare(0..=c)?;
        }
        let longest = w.node.lock().sim.blocks.iter().map(|b| b.raw.len() * 2).max().unwrap();
        info.nontrivial = longest > 100_000;
        info.label(format!("block of more than {} KB", [7000, 4000, 2000, 500, 100, 16, 0].iter().find(|x| longest >> 10 >= **x).unwrap()));
        Ok(())
    });
    // a node that takes its time
    let long = k.thorough();
    let s = move || {
        let ms = if long { 1000u32..130_000 } else { 1500..34_000 };
        (1u8..4, prop::collection::vec((0u8..4, ms, 0u8..3), 1..=if long { 3 } else { 1 }), any::<bool>(), prop_oneof![1 => Just(None), 1 => style().prop_map(Some)]).prop_map(|(confirmations, naps, startup, style)| Patience { confirmations, naps, startup, style })
    };
    k.watch(600);
    k.section("slow replies", k.n(32, 200), 32, s, |v: &Patience, info| {
        let conf = Conf { threads: 1, batch: 10, confirmations: v.confirmations };
        let c = v.confirmations as usize;
        let mut w = World::new(chain(&[], c), &conf, &plain_layout())?;
        w.node.with(|i| {
            let s = v.style.clone().unwrap_or_default();
            i.style = Style { slow: false, until_close: false, ..s };
        });
        if !v.startup {
            w.start()?;
            w.sync()?;
        }
        for (n, (method, ms, place)) in v.naps.iter().enumerate() {
            let m = CALLS[*method as usize % 4];
            let want = w.node.with(|i| {
                i.sim.mine(&BlockPlan { coinbase: vec![OutPlan { kind: 0, addr: n as u8, w: 1 }], value: 0, txs: vec![], take: 0 });
                let plan = TxPlan { ins: vec![n as u16], outs: vec![OutPlan { kind: 0, addr: 2, w: 1 }], segwit: false, len: 1, bulk: 0 };
                i.sim.apply(&Op::MemAdd(vec![plan]), c);
                i.nap = Some((m.to_string(), *ms, *place));
                i.naps + 1
            });
            if w.ix.is_none() {
                w.spawn()?;
            }
            let limit = Duration::from_millis(*ms as u64) + LIMIT;
            let ix = w.ix.as_mut().unwrap();
            if !w.node.wait(limit, || ix.exited().is_none(), |i| i.naps >= want) {
                if ix.exited().is_some() {
                    return Err(w.ix().died(&format!("while the reply to {} took {} ms", m, ms)));
                }
                return Err(Fail::Stall(format!("{} is not called", m)));
            }
            w.ix().ready()?;
            w.sync()?;
            w.compare(0..=c)?;
            info.label(format!("{} slow {}", m, ["from the beginning", "after the head", "in the middle"][*place as usize % 3]));
            info.nontrivial |= *ms > 5000;
        }
        Ok(())
    });
    // connections that the node closes silently while they are idle
    let s = move || (history(Weights { restart: 0, ..w }, 3, 5), style()).prop_map(|(h, s)| Wire { name: None, h, user: "u".into(), pass: "p".into(), styles: vec![s] });
    k.section("idle connections closed", k.n(32, 300), 16, s, |v: &Wire, info| {
        let c = v.h.conf.confirmations as usize;
        let mut w = World::new(chain(&v.h.initial, c), &v.h.conf, &v.h.layout)?;
        w.node.with(|i| {
            i.user = v.user.clone();
            i.pass = v.pass.clone();
            i.style = Style { close_every: 0, until_close: false, ..v.styles[0].clone() };
        });
        w.launch = w.launch.clone().set("RPC_SERVER_USER", &v.user).set("RPC_SERVER_PASSWORD", &v.pass).set("UPDATE_INTERVAL", 500);
        w.start()?;
        for op in &v.h.ops {
            if w.apply(op).is_none() {
                continue;
            }
            w.sync().map_err(|e| match e {
                Fail::Violation(m) => Fail::Stall(m),
                e => e,
            })?;
            w.compare(0..=c)?;
            // the update is over once nothing was asked for 100 ms; then all connections are closed
            let mut last = (0, Instant::now());
            while last.1.elapsed() < Duration::from_millis(100) {
                let n = w.node.lock().calls;
                if n != last.0 {
                    last = (n, Instant::now());
                }
                std::thread::sleep(Duration::from_millis(2));
            }
            w.node.with(|i| {
                for s in i.conns.drain(..) {
                    let _ = s.shutdown(std::net::Shutdown::Both);
                }
            });
            info.label("idle close");
            info.nontrivial = true;
        }
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Patience {
    confirmations: u8,
    /// method, milliseconds, place
    naps: Vec<(u8, u32, u8)>,
    /// the first reply is slow
    startup: bool,
    style: Option<Style>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Break {
    conf: Conf,
    initial: Vec<BlockPlan>,
    before: Vec<Op>,
    /// what happens in the failing update
    blocks: Vec<BlockPlan>,
    mem: Vec<TxPlan>,
    fault: Fault,
    method: u8,
    nth: u8,
    startup: bool,
    after: Vec<Op>,
}

const CALLS: [&str; 4] = ["getrawmempool", "getrawtransaction", "getblockhash", "getblock"];

fn fault() -> impl Strategy<Value = Fault> {
    prop_oneof![
        3 => prop_oneof![Just(-1i64), Just(-5), Just(-8), Just(-28), Just(-32601), Just(-32603), Just(0), Just(5), Just(8), Just(-3), Just(-22), Just(-50), Just(-80), Just(-85)].prop_map(Fault::Rpc),
        2 => prop_oneof![Just(401u16), Just(403), Just(404), Just(500), Just(502), Just(503), Just(504), Just(400), Just(429), Just(201), Just(202), Just(301)].prop_map(Fault::Http),
        1 => Just(Fault::Garbage),
        1 => Just(Fault::Null),
        1 => Just(Fault::WrongType),
        1 => Just(Fault::ShortHex),
        1 => Just(Fault::HalfHex),
        1 => (0u8..8).prop_map(Fault::CutHex),
        1 => Just(Fault::NotHex),
        1 => Just(Fault::Close),
        1 => Just(Fault::Cut),
        2 => Just(Fault::Down),
    ]
}

/// The error replies the interface gives a harmless meaning.
fn benign(method: &str, f: &Fault) -> bool {
    matches!((method, f), ("getrawtransaction", Fault::Rpc(-5)) | ("getblockhash", Fault::Rpc(-8)))
}

fn failed(s: std::process::ExitStatus) -> bool {
    s.signal().is_some() || s.code() != Some(0)
}

/// Queries all levels until the connection fails or told to stop; every answer has to be that of one of the states.
fn watch(addr: std::net::SocketAddr, addrs: &[Addr], states: &[Vec<Utxo>], stop: &AtomicBool, answers: &AtomicUsize) -> R {
    let mut conn = Conn::new(addr, LIMIT);
    let body = serde_json::to_vec(&addrs.iter().map(|a| a.text()).collect::<Vec<_>>()).unwrap();
    let max = states[0].len() - 1;
    let mut n = 0usize;
    while !stop.load(Ordering::SeqCst) {
        let l = n % (max + 1);
        n += 1;
        let r = match conn.request("POST", &format!("/addresses/utxos?confirmations={}", l), Some(&body)) {
            Ok(r) if r.status == 200 => r,
            Ok(r) => return bad(format!("a query at level {} was answered {}", l, r.status)),
            Err(HttpError::Timeout) => return Err(Fail::Stall("a query got no answer".into())),
            Err(_) => {
                std::thread::sleep(Duration::from_millis(1));
                continue;
            }
        };
        let v = serde_json::from_slice(&r.body).map_err(|e| Fail::Violation(format!("answer is not JSON: {}", e)))?;
        let got = parse_utxo_batch(&v, addrs).map_err(Fail::Violation)?;
        let mut why = String::new();
        let ok = states.iter().any(|s| {
            let by = by_address(&s[l]);
            addrs.iter().zip(&got).all(|(a, g)| {
                let w = by.get(a).cloned().unwrap_or_default();
                if w != *g {
                    why = diff(a, l, &w, g);
                }
                w == *g
            })
        });
        if !ok {
            return bad(format!("an answer after the last good update is not that of its state: {}", why));
        }
        answers.fetch_add(1, Ordering::SeqCst);
    }
    Ok(())
}

fn all(w: &World) -> Vec<Utxo> {
    (0..=w.c()).map(|l| w.expected(l)).collect()
}

/// Waits for the end of the process while others query; it has to end with a failure.
fn must_end(w: &mut World, states: &[Vec<Utxo>], what: &str, info: &mut Info) -> R {
    let stop = AtomicBool::new(false);
    let answers = AtomicUsize::new(0);
    let addr = w.ix().addr;
    let addrs = w.addrs.clone();
    let seen: Mutex<R> = Mutex::new(Ok(()));
    let mut end = None;
    std::thread::scope(|s| {
        s.spawn(|| {
            let r = watch(addr, &addrs, states, &stop, &answers);
            if r.is_err() {
                *seen.lock().unwrap() = r;
            }
        });
        // the watcher gets a few answers in before the failing update goes on
        let t = Instant::now();
        while answers.load(Ordering::SeqCst) < 3 && t.elapsed() < LIMIT && seen.lock().unwrap().is_ok() {
            std::thread::sleep(Duration::from_micros(300));
        }
        w.node.release();
        end = w.ix.as_mut().unwrap().wait_exit(LIMIT);
        stop.store(true, Ordering::SeqCst);
    });
    seen.into_inner().unwrap().map_err(|e| match e {
        Fail::Violation(m) => Fail::Violation(format!("{}: {}", what, m)),
        e => e,
    })?;
    match end {
        None => Err(Fail::Stall(format!("{}: the indexer is still running after {:?} (and answered {} queries)", what, LIMIT, answers.into_inner()))),
        Some(s) if !failed(s) => bad(format!("{}: the indexer ended with success", what)),
        Some(_) => {
            info.label("ended with failure");
            Ok(())
        }
    }
}

fn wait_held(w: &mut World, n: u64) -> R {
    let ok = {
        let ix = w.ix.as_mut().unwrap();
        w.node.wait(LIMIT, || ix.exited().is_none(), |i| i.held >= n)
    };
    if ok {
        Ok(())
    } else if w.ix().exited().is_some() {
        Err(w.ix().died("while updating"))
    } else {
        Err(Fail::Stall("the polls stopped".into()))
    }
}

/// A new node with the same chain.
fn new_node(w: &mut World) -> R {
    let sim = w.node.with(|i| std::mem::take(&mut i.sim));
    let (u, p) = w.node.with(|i| (i.user.clone(), i.pass.clone()));
    w.node.down();
    w.node = Node::start(sim).map_err(|e| Fail::Harness(format!("node: {}", e)))?;
    w.node.with(|i| {
        i.user = u;
        i.pass = p;
    });
    w.launch = w.launch.clone().set("RPC_SERVER_PORT", w.node.port).set("RPC_SERVER_HOST", w.node.ip);
    Ok(())
}

pub fn c16(k: &Check) {
    k.rule("faults: one reply of the node is replaced by an error, garbage, a cut or closed connection or the node disappears, at a chosen call of an update under way; non-trivial if the fault was delivered in an update that also brought changes. deep reorganisations: non-trivial always");
    k.assume("a closed or cut connection that occurs once may also be survived by asking again");
    let w = Weights { mine: 5, reorg: 2, back: 1, mem: 2, sync: 0, restart: 0 };
    let s = move || {
        (
            conf(),
            prop::collection::vec(block_plan(3), 2..6),
            prop::collection::vec(op(w), 0..4),
            prop::collection::vec(block_plan(3), 1..4),
            prop::collection::vec(tx_plan(), 1..3),
            fault(),
            (0u8..4, prop_oneof![2 => Just(0u8), 1 => 1u8..4]),
            prop_oneof![4 => Just(false), 1 => Just(true)],
            prop::collection::vec(op(w), 0..3),
        )
            .prop_map(|(conf, initial, before, blocks, mem, fault, (method, nth), startup, after)| Break { conf, initial, before, blocks, mem, fault, method, nth, startup, after })
    };
    k.section("faults", k.n(1400, 30000), 8, s, |b: &Break, info| {
        let c = b.conf.confirmations as usize;
        let method = CALLS[b.method as usize % 4];
        if benign(method, &b.fault) {
            info.label("harmless reply");
            return Ok(());
        }
        let mut w = World::new(chain(&b.initial, c), &b.conf, &plain_layout())?;
        let soft = matches!(b.fault, Fault::Close | Fault::Cut);
        let what = format!("{:?} at call {} of {} {}", b.fault, b.nth, method, if b.startup { "in the first update" } else { "in an update" });
        let inject = |w: &World| w.node.with(|i| i.inject.push(Inject { method: method.into(), nth: b.nth as u64, fault: b.fault.clone() }));
        if b.startup {
            w.apply(&Op::MemAdd(b.mem.clone()));
            inject(&w);
            w.node.hold("getrawmempool", 1);
            w.spawn()?;
            // either it ends, or the first update is over
            let ok = {
                let ix = w.ix.as_mut().unwrap();
                w.node.wait(LIMIT, || ix.exited().is_none(), |i| i.held >= 1)
            };
            let hit = w.node.lock().injected > 0;
            let ended = w.ix().exited();
            match (hit, ended, ok) {
                (false, Some(_), _) => return Err(w.ix().died("in the first update without any fault")),
                (false, None, true) => {
                    info.label("call not reached");
                    return Ok(());
                }
                (true, Some(s), _) if failed(s) => info.label("ended with failure"),
                (true, Some(_), _) => return bad(format!("{}: the indexer ended with success", what)),
                (true, None, true) if soft => {
                    info.label("survived");
                    w.node.release();
                    w.ix().ready()?;
                    w.sync()?;
                    w.compare(0..=c)?;
                }
                (true, None, true) => return bad(format!("{}: the indexer carries on", what)),
                (_, None, false) => return Err(Fail::Stall(format!("{}: neither an end nor an update", what))),
            }
            info.nontrivial = true;
            info.label("first update");
        } else {
            w.start()?;
            for o in &b.before {
                w.apply(o);
            }
            w.sync()?;
            w.compare(0..=c)?;
            let h = w.node.lock().held;
            w.node.hold("getrawmempool", 0);
            wait_held(&mut w, h + 1)?;
            let before = all(&w);
            let known: BTreeSet<Hash> = w.node.lock().sim.mempool.iter().map(|m| m.rec.txid).collect();
            w.apply(&Op::Mine(b.blocks.clone()));
            w.apply(&Op::MemAdd(b.mem.clone()));
            let after = all(&w);
            inject(&w);
            // the update after this one is stopped at its start
            w.node.hold("getrawmempool", 1);
            if soft {
                w.node.with(|i| i.hold = Some(("getrawmempool".into(), 0)));
                w.node.release();
                let ok = {
                    let ix = w.ix.as_mut().unwrap();
                    w.node.wait(LIMIT, || ix.exited().is_none(), |i| i.held >= h + 2)
                };
                match w.ix().exited() {
                    Some(s) if failed(s) && w.node.lock().injected > 0 => info.label("ended with failure"),
                    Some(_) => return Err(w.ix().died(&format!("{}: without failure status or fault", what))),
                    None if ok => {
                        let addrs = w.addrs.clone();
                        for l in 0..=c {
                            compare(w.ix(), &addrs, l, &after[l])?;
                        }
                        info.label("survived");
                        w.node.release();
                    }
                    None => return Err(Fail::Stall(format!("{}: neither an end nor an update", what))),
                }
                info.nontrivial = w.node.lock().injected > 0;
            } else {
                w.node.with(|i| i.hold = None);
                // does the update reach the call at all? (each call of the update is predictable)
                let reach = {
                    let g = w.node.lock();
                    match method {
                        "getrawmempool" => b.nth == 0,
                        "getblockhash" => (b.nth as usize) <= b.blocks.len(),
                        "getblock" => (b.nth as usize) < b.blocks.len(),
                        // whatever was not listed before, or not returned, is asked for
                        _ => (b.nth as usize) < g.sim.mempool.iter().filter(|m| m.missing || !known.contains(&m.rec.txid)).count(),
                    }
                };
                w.node.with(|i| i.hold = Some(("getrawmempool".into(), 0)));
                if reach {
                    must_end(&mut w, &[before.clone()], &what, info)?;
                    info.nontrivial = true;
                } else {
                    // the update goes well
                    w.node.release();
                    wait_held(&mut w, h + 2)?;
                    if w.node.lock().injected > 0 {
                        return bad(format!("{}: the indexer carries on", what));
                    }
                    info.label("call not reached");
                    w.node.release();
                }
            }
        }
        info.label(format!("{} at {}", format!("{:?}", b.fault).split('(').next().unwrap(), method));
        // the saved index is usable as soon as the node answers again
        w.stop();
        new_node(&mut w)?;
        if w.scratch.store().exists() {
            std::fs::remove_dir_all(w.scratch.blocks()).ok();
            std::fs::create_dir_all(w.scratch.blocks()).ok();
        }
        for o in &b.after {
            w.apply(o);
        }
        w.start()?;
        w.sync()?;
        w.compare(0..=c)
    });
    let s = move || {
        (conf(), prop::collection::vec(block_plan(3), 2..8), prop::collection::vec(op(w), 0..4), 0u8..5, prop::collection::vec(block_plan(2), 0..6), 0u8..3, any::<bool>(), any::<bool>())
            .prop_map(|(conf, initial, before, deep, blocks, extra, online, back)| Deep { conf, initial, before, deep, blocks, extra, online, back })
    };
    k.section("deep reorganisations", k.n(700, 15000), 8, s, |d: &Deep, info| {
        let c = d.conf.confirmations as usize;
        let mut w = World::new(chain(&d.initial, c + d.deep as usize + 2), &d.conf, &plain_layout())?;
        w.start()?;
        for o in &d.before {
            w.apply(o);
        }
        w.sync()?;
        w.compare(0..=c)?;
        let reorg = |w: &mut World| {
            w.node.with(|i| {
                let depth = (c + d.deep as usize).min(i.sim.height());
                let tip = i.sim.tip();
                let fork = i.sim.active[i.sim.active.len() - 1 - depth];
                i.sim.branch(fork, depth + 1 + d.extra as usize, &d.blocks, tip);
                tip
            })
        };
        let what = format!("a reorganisation of {} blocks with {} confirmations", c + d.deep as usize, c);
        let old;
        if d.online {
            let h = w.node.lock().held;
            w.node.hold("getrawmempool", 0);
            wait_held(&mut w, h + 1)?;
            let before = all(&w);
            old = reorg(&mut w);
            must_end(&mut w, &[before], &what, info)?;
            info.label("while running");
        } else {
            w.stop();
            old = reorg(&mut w);
            info.label("while stopped");
        }
        // started on the new branch: refuses, unless the saved index is older than the fork
        w.stop();
        new_node(&mut w)?;
        w.spawn()?;
        let p = w.node.lock().polls;
        let ok = {
            let ix = w.ix.as_mut().unwrap();
            w.node.wait(LIMIT, || ix.exited().is_none(), |i| i.polls >= p + 3)
        };
        match w.ix().exited() {
            Some(s) if failed(s) => info.label("restart on the new branch refused"),
            Some(_) => return bad(format!("{}: a restart ended with success", what)),
            None if ok => {
                w.ix().ready()?;
                w.compare(0..=c).map_err(|e| match e {
                    Fail::Violation(m) => Fail::Violation(format!("restarted after {}: {}", what, m)),
                    e => e,
                })?;
                info.label("restart on the new branch from an older index");
            }
            None => return Err(Fail::Stall(format!("{}: a restart neither ended nor polled", what))),
        }
        w.stop();
        if d.back {
            new_node(&mut w)?;
            w.node.with(|i| {
                let tip = i.sim.tip();
                let n = i.sim.active.len();
                let need = n + 1 - (i.sim.blocks[old].height + 1);
                i.sim.branch(old, need, &[], tip);
            });
            std::fs::remove_dir_all(w.scratch.blocks()).ok();
            std::fs::create_dir_all(w.scratch.blocks()).ok();
            w.start()?;
            w.sync()?;
            w.compare(0..=c)?;
            info.label("back on the old branch");
        }
        info.nontrivial = true;
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Deep {
    conf: Conf,
    initial: Vec<BlockPlan>,
    before: Vec<Op>,
    deep: u8,
    blocks: Vec<BlockPlan>,
    extra: u8,
    online: bool,
    back: bool,
}


const REQUIRED: [&str; 8] = ["THREADS", "BATCH_SIZE", "STORE_FILE_PATH", "BLOCK_FILES_PATH", "RPC_SERVER_HOST", "RPC_SERVER_PORT", "RPC_SERVER_USER", "RPC_SERVER_PASSWORD"];
const OPTIONAL: [&str; 4] = ["HOST", "PORT", "UPDATE_INTERVAL", "CONFIRMATIONS"];

fn wrong_number() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        6 => prop_oneof![
            Just(""), Just(" "), Just("-1"), Just("1.5"), Just("0x10"), Just("abc"), Just("1e3"), Just("99999999999999999999999"), Just("18446744073709551616"), Just("5 "), Just(" 5"), Just("5\n"), Just("1,000"), Just("٣"), Just("5s"), Just("null"), Just("++5"), Just("five")
        ].prop_map(|s| s.as_bytes().to_vec()),
        1 => "[0-9]{1,3}[a-z ._-][0-9]{0,3}".prop_map(|s| s.into_bytes()),
        1 => Just(b"\xff5".to_vec()),
        1 => Just(b"5\x80".to_vec()),
    ]
    .boxed()
}

fn wrong(key: &'static str) -> BoxedStrategy<Vec<u8>> {
    let port = prop_oneof![2 => Just("65536"), 1 => Just("70000"), 1 => Just("8000:8000"), 1 => Just("4294967376")].prop_map(|s| s.as_bytes().to_vec());
    match key {
        // "@+n": the right value plus n; "@a|b": the right value between a and b
        "PORT" | "RPC_SERVER_PORT" => prop_oneof![4 => wrong_number(), 1 => port, 2 => near(), 2 => (1u64..5, prop_oneof![2 => Just(16), 1 => Just(32)]).prop_map(|(k, b)| format!("@+{}", k << b).into_bytes())].boxed(),
        "HOST" => prop_oneof![
            2 => near(),
            6 => prop_oneof![Just("localhost"), Just("256.1.1.1"), Just("127.0.0.1:80"), Just(""), Just("1.2.3"), Just("::g"), Just("127.0.0.1 "), Just(" 127.0.0.1"), Just("*"), Just("127.0.0.1/8"), Just("[::1]"), Just("1.2.3.4.5")].prop_map(|s| s.as_bytes().to_vec()),
            1 => Just(b"127.0.0.\xff".to_vec()),
        ]
        .boxed(),
        "STORE_FILE_PATH" | "BLOCK_FILES_PATH" | "RPC_SERVER_HOST" | "RPC_SERVER_USER" | "RPC_SERVER_PASSWORD" => prop::collection::vec(any::<u8>(), 0..6)
            .prop_map(|mut v| {
                v.retain(|b| *b != 0);
                v.push(0xff);
                v
            })
            .boxed(),
        _ => prop_oneof![3 => wrong_number(), 1 => near()].boxed(),
    }
}

/// The right value with something before or after it.
fn near() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![Just("@| "), Just("@ |"), Just("@|\n"), Just("@\t|"), Just("@|x"), Just("@|,"), Just("@|.0"), Just("@\"|\""), Just("@|;"), Just("@-|"), Just("@|/"), Just("@=|"), Just("@|\u{660}"), Just("@|%")]
        .prop_map(|s| s.as_bytes().to_vec())
        .boxed()
}

fn resolve(v: &[u8], right: &[u8]) -> Vec<u8> {
    let number = |b: &[u8]| std::str::from_utf8(b).ok().and_then(|s| s.parse::<u64>().ok());
    if let (Some(Some(n)), Some(r)) = (v.strip_prefix(b"@+").map(number), number(right)) {
        return (n + r).to_string().into_bytes();
    }
    // anything else may begin with that character, too
    match v.strip_prefix(b"@").and_then(|t| t.iter().position(|b| *b == b'|').map(|at| (t, at))) {
        Some((t, at)) => [&t[..at], right, &t[at + 1..]].concat(),
        None => v.to_vec(),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Broken {
    /// (variable, None: absent, Some: malformed)
    what: Vec<(u8, Option<Vec<u8>>)>,
    /// optional variables left out besides
    omit: u8,
    with_store: bool,
    junk: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Given {
    blocks: Vec<BlockPlan>,
    threads: u8,
    batch: u16,
    confirmations: Option<u8>,
    interval: Option<u16>,
    host: Option<u8>,
    port: Option<u16>,
    user: String,
    pass: String,
    dir: u8,
    junk: bool,
    restart: bool,
    /// the node's host is given by name
    #[serde(default)]
    named: bool,
}

/// Like Launch::spawn, with raw values.
fn spawn_raw(w: &World, env: &BTreeMap<String, Vec<u8>>) -> R<std::process::Child> {
    let mut c = std::process::Command::new(binary());
    let err = std::fs::File::create(&w.launch.stderr).map_err(|e| Fail::Harness(e.to_string()))?;
    c.env_clear().env("LD_PRELOAD", shim()).env("VERIF_GUARD", &w.launch.guard).current_dir(&w.launch.cwd).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(err);
    for (k, v) in env {
        c.env(k, OsString::from_vec(v.clone()));
    }
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            Ok(())
        });
    }
    c.spawn().map_err(|e| Fail::Harness(format!("spawn: {}", e)))
}

/// A port that no other case uses, outside the range from which the system picks ports.
fn free_port() -> u16 {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    loop {
        let n = NEXT.fetch_add(1, Ordering::Relaxed) + std::process::id() as usize * 97;
        let port = 10000 + (n % 20000) as u16;
        if std::net::TcpListener::bind(("0.0.0.0", port)).is_ok() {
            return port;
        }
    }
}

static PORT_8000: Mutex<()> = Mutex::new(());

pub fn c18(k: &Check) {
    k.rule("refused: at least one required variable is missing or one variable is malformed, and the program has to end with a failure without listening and without any contact with the node; always non-trivial. used: a valid environment, and what can be observed of each value (listening address and port, highest level served, time between polls, files used, credentials) is compared; non-trivial if an optional variable was absent or had another value than its default");
    k.assume("numbers with a leading '+' or leading zeros, and the number zero, are outside the generated domain");
    let s = || {
        let one = (0usize..12, any::<bool>()).prop_flat_map(|(i, absent)| {
            let key = REQUIRED.iter().chain(&OPTIONAL).nth(i).copied().unwrap();
            if absent && i < 8 {
                Just((i as u8, None)).boxed()
            } else {
                wrong(key).prop_map(move |v| (i as u8, Some(v))).boxed()
            }
        });
        (prop_oneof![4 => prop::collection::vec(one.clone(), 1..2), 1 => prop::collection::vec(one, 2..4)], any::<u8>(), any::<bool>(), any::<bool>()).prop_map(|(what, omit, with_store, junk)| Broken { what, omit, with_store, junk })
    };
    k.section("refused", k.n(800, 10000), 8, s, |b: &Broken, info| {
        let conf = Conf { threads: 1, batch: 10, confirmations: 2 };
        let mut w = World::new(chain(&[], 3), &conf, &plain_layout())?;
        if b.with_store {
            // a previous run has left an index
            w.start()?;
            w.sync()?;
            w.stop();
            new_node(&mut w)?;
        }
        w.launch.renew();
        let mut env: BTreeMap<String, Vec<u8>> = w.launch.env.iter().map(|(k, v)| (k.clone(), v.clone().into_bytes())).collect();
        let touched: BTreeSet<&str> = b.what.iter().map(|(i, _)| REQUIRED.iter().chain(&OPTIONAL).nth(*i as usize).copied().unwrap()).collect();
        for (i, key) in ["UPDATE_INTERVAL", "CONFIRMATIONS"].iter().enumerate() {
            if b.omit & (1 << i) != 0 && !touched.contains(key) {
                env.remove(*key);
            }
        }
        for (i, v) in &b.what {
            let key = REQUIRED.iter().chain(&OPTIONAL).nth(*i as usize).copied().unwrap();
            match v {
                None => env.remove(key),
                Some(v) => {
                    let right = w.launch.env.iter().find(|(k, _)| *k == key).map_or(String::new(), |(_, v)| v.clone());
                    env.insert(key.into(), resolve(v, right.as_bytes()))
                }
            };
        }
        if b.junk {
            for (k, v) in &w.launch.env {
                env.insert(k.to_lowercase(), v.clone().into_bytes());
                env.insert(format!("{}_", k), v.clone().into_bytes());
                env.insert(format!("BITCOIN_{}", k), v.clone().into_bytes());
            }
        }
        let text = b.what.iter().map(|(i, v)| { let key = *REQUIRED.iter().chain(&OPTIONAL).nth(*i as usize).unwrap(); format!("{} {}", key, v.as_ref().map_or("missing".into(), |_| format!("= {:?}", env.get(key).map(|v| String::from_utf8_lossy(v).to_string()).unwrap_or_default()))) }).collect::<Vec<_>>().join(", ");
        let contacts = w.node.lock().contacts;
        let mut child = spawn_raw(&w, &env)?;
        let addr = std::net::SocketAddr::new(w.launch.ip, w.launch.port);
        let end = Instant::now() + LIMIT;
        let mut why = None;
        let status = loop {
            if let Ok(Some(s)) = child.try_wait() {
                break Some(s);
            }
            if !touched.contains("HOST") && !touched.contains("PORT") && std::net::TcpStream::connect_timeout(&addr, Duration::from_millis(200)).is_ok() {
                why = Some("it listens");
                break None;
            }
            if w.node.lock().contacts > contacts {
                why = Some("it contacts the node");
                break None;
            }
            if Instant::now() > end {
                break None;
            }
            std::thread::sleep(Duration::from_millis(1));
        };
        let _ = child.kill();
        let _ = child.wait();
        // requests may have been queued before the end
        std::thread::sleep(Duration::from_millis(10));
        if w.node.lock().contacts > contacts && why.is_none() {
            why = Some("it contacted the node");
        }
        if let Some(why) = why {
            return bad(format!("with {} the program does not refuse to start: {}", text, why));
        }
        match status {
            None => return Err(Fail::Stall(format!("with {} the program neither starts nor ends", text))),
            Some(s) if !failed(s) => return bad(format!("with {} the program ends with success", text)),
            Some(_) => {}
        }
        for (i, v) in &b.what {
            info.label(format!("{} {}", REQUIRED.iter().chain(&OPTIONAL).nth(*i as usize).unwrap(), if v.is_none() { "missing" } else { "malformed" }));
        }
        info.nontrivial = true;
        Ok(())
    });
    let s = || {
        (
            (prop::collection::vec(block_plan(2), 0..4), 1u8..9, prop_oneof![1u16..10, Just(25000u16)]),
            (proptest::option::weighted(0.7, 1u8..12), proptest::option::weighted(0.75, prop_oneof![3 => 1u16..30, 1 => 300u16..700, 1 => Just(0u16)])),
            (proptest::option::weighted(0.7, 0u8..4), proptest::option::weighted(0.8, any::<u16>())),
            (secret(), secret()),
            (0u8..6, any::<bool>(), any::<bool>(), prop_oneof![4 => Just(false), 1 => Just(true)]),
        )
            .prop_map(|((blocks, threads, batch), (confirmations, interval), (host, port), (user, pass), (dir, junk, restart, named))| Given {
                named, blocks, threads, batch, confirmations, interval, host, port, user, pass, dir, junk, restart })
    };
    // far between: nothing but the first poll takes place
    let far = || (prop::collection::vec(block_plan(2), 0..3), conf(), prop_oneof![3 => 4000u64..u32::MAX as u64, 3 => (0u32..32, 0u64..50).prop_map(|(b, x)| (1u64 << (32 + b)) + x), 2 => (16u32..32, 0u64..50).prop_map(|(b, x)| (1u64 << b) + x), 1 => Just(u64::MAX / 2)], any::<bool>());
    k.section("far between", k.n(120, 1500), 24, far, |(blocks, conf, interval, restart): &(Vec<BlockPlan>, Conf, u64, bool), info| {
        let c = conf.confirmations as usize;
        let mut w = World::new(chain(blocks, c), conf, &plain_layout())?;
        w.launch = w.launch.clone().set("UPDATE_INTERVAL", interval);
        if *restart {
            w.start()?;
            w.stop();
        }
        let before = w.node.lock().polls;
        w.start()?;
        w.compare([0, c])?;
        let mut age = Duration::ZERO;
        let from = Instant::now();
        while age < Duration::from_millis(600) {
            std::thread::sleep(Duration::from_millis(20));
            age = from.elapsed();
        }
        let polls = w.node.lock().polls - before;
        if w.ix().exited().is_some() {
            return Err(w.ix().died("between two polls"));
        }
        if polls > 1 {
            return bad(format!("with UPDATE_INTERVAL={} there are {} polls within {:?} of the start", interval, polls, age));
        }
        w.compare([0, c])?;
        info.nontrivial = true;
        info.label(match *interval {
            0..=0xffff_ffff => "interval below 2^32",
            _ => "interval of 2^32 or more",
        });
        Ok(())
    });
    k.section("used", k.n(150, 2500), 24, s, |g: &Given, info| {
        let c = g.confirmations.unwrap_or(6) as usize;
        let scratch = Scratch::new();
        // names with spaces, dots, letters outside ASCII; trailing slash
        let name = ["blk", "a b", "ünï/cødé", "x.dat", "deep/er/dir", "-q"][g.dir as usize % 6];
        let blocks = scratch.0.join("data").join(name);
        let store_dir = scratch.0.join("idx").join(name);
        std::fs::create_dir_all(&blocks).unwrap();
        std::fs::create_dir_all(&store_dir).unwrap();
        let store = store_dir.join(["index", "i n d e x.bin", "ïndex", ".hidden", "index.tmp", "0"][g.dir as usize % 6]);
        let sim = chain(&g.blocks, c + 1);
        write_layout(&blocks, &active_raws(&sim), &plain_layout());
        let conf = Conf { threads: g.threads, batch: g.batch, confirmations: c as u8 };
        let mut w = World::with_files(scratch, sim, &conf)?;
        // a node on another address than the usual one
        let sim = w.node.with(|i| std::mem::take(&mut i.sim));
        use std::net::ToSocketAddrs;
        let named = g.named && ("localhost", 0).to_socket_addrs().map_or(false, |mut l| l.any(|a| a.ip() == std::net::Ipv4Addr::LOCALHOST));
        let node_ip = if named { std::net::Ipv4Addr::LOCALHOST } else { fresh_ip() };
        w.node = Node::start_at(sim, node_ip).map_err(|e| Fail::Harness(format!("node: {}", e)))?;
        w.node.with(|i| {
            i.user = g.user.clone();
            i.pass = g.pass.clone();
        });
        for _ in 0..1 + g.restart as usize {
            let own = fresh_ip();
            let host = if g.port.is_none() { g.host.map(|_| 0) } else { g.host };
            let ip: std::net::IpAddr = match host {
                None => "127.0.0.1".parse().unwrap(),
                Some(0) | Some(1) => own.into(),
                Some(3) if std::net::TcpListener::bind("[::1]:0").is_ok() => {
                    info.label("IPv6");
                    "::1".parse().unwrap()
                }
                Some(_) => "0.0.0.0".parse().unwrap(),
            };
            // a port of one's own where the address is shared with others
            let _serial;
            let port = match (g.port, host) {
                (None, None) => {
                    _serial = PORT_8000.lock().unwrap_or_else(|e| e.into_inner());
                    if std::net::TcpListener::bind("0.0.0.0:8000").is_err() {
                        info.label("port 8000 is taken by something else");
                        return Ok(());
                    }
                    8000
                }
                (None, Some(_)) => {
                    if std::net::TcpListener::bind((own, 8000)).is_err() {
                        info.label("port 8000 is taken by something else");
                        return Ok(());
                    }
                    8000
                }
                (Some(p), Some(0)) | (Some(p), Some(1)) => 1024 + p % 64000,
                (Some(_), _) => free_port(),
            };
            let mut env: BTreeMap<String, String> = w.launch.env.clone();
            let mut set = |k: &str, v: Option<String>| {
                match v {
                    Some(v) => env.insert(k.into(), v),
                    None => env.remove(k),
                };
            };
            set("HOST", host.map(|_| ip.to_string()));
            set("PORT", g.port.map(|_| port.to_string()));
            set("CONFIRMATIONS", g.confirmations.map(|c| c.to_string()));
            set("UPDATE_INTERVAL", g.interval.map(|c| c.to_string()));
            set("RPC_SERVER_HOST", Some(if named { "localhost".into() } else { w.node.ip.to_string() }));
            set("RPC_SERVER_PORT", Some(w.node.port.to_string()));
            set("RPC_SERVER_USER", Some(g.user.clone()));
            set("RPC_SERVER_PASSWORD", Some(g.pass.clone()));
            set("STORE_FILE_PATH", Some(store.to_str().unwrap().into()));
            set("BLOCK_FILES_PATH", Some(format!("{}{}", blocks.to_str().unwrap(), if g.dir % 2 == 0 { "" } else { "/" })));
            if g.junk {
                for (k, v) in [("host", "127.0.0.9"), ("Port", "1"), ("CONFIRMATION", "1"), ("UPDATE_INTERVAL_MS", "1"), ("INTERVAL", "7"), ("RPC_HOST", "127.0.0.9"), ("RPC_USER", "x"), ("RPC_PASSWORD", "y"), ("ADDRESS", "127.0.0.9"), ("BIND", "127.0.0.9")] {
                    env.insert(k.into(), v.into());
                }
            }
            let mut launch = w.launch.clone();
            launch.env = env;
            launch.ip = if ip.is_unspecified() { own.into() } else { ip };
            launch.port = port;
            w.ix = Some(launch.spawn()?);
            let desc = format!("HOST {:?} PORT {:?} CONFIRMATIONS {:?} UPDATE_INTERVAL {:?}", g.host.map(|_| ip), g.port.map(|_| port), g.confirmations, g.interval);
            let ctx = |e: Fail| match e {
                Fail::Violation(m) => Fail::Violation(format!("with {}: {}", desc, m)),
                Fail::Stall(m) => Fail::Stall(format!("with {}: {}", desc, m)),
                e => e,
            };
            if let Err(e) = w.ix().ready() {
                let taken = w.ix().stderr();
                if taken.contains("in use") || taken.contains("AddrInUse") {
                    info.label("port taken meanwhile");
                    return Ok(());
                }
                return Err(ctx(e));
            }
            // only there
            if !ip.is_unspecified() {
                let other: std::net::IpAddr = fresh_ip().into();
                let there = || std::net::TcpStream::connect_timeout(&(other, port).into(), Duration::from_millis(300)).is_ok();
                if there() {
                    w.stop();
                    if there() {
                        info.label("port taken by something else");
                        return Ok(());
                    }
                    return bad(format!("with {}: it also listens on {}", desc, other));
                }
            }
            w.compare([c]).map_err(ctx)?;
            for (l, s) in [(0, 200), (c, 200), (c + 1, 400), (c + 7, 400)] {
                let a = all_addresses()[0].text();
                let r = w.ix().get(&format!("/addresses/{}/balance?confirmations={}", a, l))?;
                if r.status != s {
                    return bad(format!("with {}: level {} is answered {} instead of {}", desc, l, r.status, s));
                }
            }
            if !store.is_file() {
                return bad(format!("with {}: there is no index at {:?}", desc, store));
            }
            // pauses between polls, during which a block arrives
            let interval = g.interval.unwrap_or(1000) as u64;
            let p0 = w.node.with(|i| {
                i.poll_times.clear();
                i.sim.mine(&empty_block());
                i.polls
            });
            w.ix.as_mut().unwrap().polls(&w.node, p0 + if interval >= 300 { 3 } else { 6 }).map_err(ctx)?;
            let times = w.node.lock().poll_times.clone();
            let gaps: Vec<u64> = times.windows(2).map(|w| w[1].duration_since(w[0]).as_millis() as u64).collect();
            // an update takes some time of its own, and waits in between only get longer
            if let Some(g) = gaps.iter().find(|g| **g + 2 < interval) {
                return bad(format!("with {}: two polls {} ms apart", desc, g));
            }
            let min = *gaps.iter().min().unwrap();
            if min > interval + 4000 {
                return Err(Fail::Stall(format!("with {}: polls at least {} ms apart", desc, min)));
            }
            w.compare(0..=c).map_err(ctx)?;
            if let Some(e) = w.node.lock().protocol_errors.first() {
                return bad(format!("malformed node call: {}", e));
            }
            w.stop();
        }
        for (k, a) in [("HOST", g.host.is_none()), ("PORT", g.port.is_none()), ("CONFIRMATIONS", g.confirmations.is_none()), ("UPDATE_INTERVAL", g.interval.is_none())] {
            if a {
                info.label(format!("{} absent", k));
            }
        }
        info.nontrivial = true;
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Clock {
    h: History,
    /// (call number, offset class, offset)
    planned: Vec<(u8, i64)>,
    /// offsets set between operations
    live: Vec<i64>,
    /// a step at every call
    dense: bool,
}

fn offset() -> impl Strategy<Value = i64> {
    const S: i64 = 1_000_000_000;
    prop_oneof![
        2 => -2 * S..2 * S,
        2 => -100_000 * S..100_000 * S,
        2 => Just(-1i64), 1 => Just(1i64), 1 => Just(-1_000_000i64),
        2 => -50 * 365 * 86400 * S..200 * 365 * 86400 * S,
        1 => Just(0i64),
    ]
}

pub fn c21(k: &Check) {
    k.rule("a case is a history during which the wall clock that the program sees is stepped, at chosen readings of it and between the operations; non-trivial if the program read the stepped clock or a step took place while it ran");
    k.assume("the wall clock stays between 1971 and 2230 (Linux refuses to set it before 1970)");
    let w = Weights { mine: 6, reorg: 2, back: 1, mem: 1, sync: 4, restart: 2 };
    let s = move || {
        (history(w, 6, 12), prop::collection::vec((1u8..120, offset()), 0..20), prop::collection::vec(offset(), 1..8), any::<bool>())
            .prop_map(|(h, planned, live, dense)| Clock { h, planned, live, dense })
    };
    k.section("steps", k.n(1200, 25000), 8, s, |v: &Clock, info| {
        let c = v.h.conf.confirmations as usize;
        let mut w = World::new(chain(&v.h.initial, c), &v.h.conf, &v.h.layout)?;
        let ctl = Ctl::new(&w.scratch.0);
        w.launch.ctl = Some(ctl.path.clone());
        let r = ctl.raw();
        let mut plan: Vec<(i64, i64)> = if v.dense { (0..60).map(|i| (i + 1, v.live[i as usize % v.live.len()] - i * 700_000_000)).collect() } else { v.planned.iter().map(|(n, o)| (*n as i64, *o)).collect() };
        plan.truncate(64);
        for (i, (n, o)) in plan.iter().enumerate() {
            r.step[2 * i].store(*n, Ordering::SeqCst);
            r.step[2 * i + 1].store(*o, Ordering::SeqCst);
        }
        r.steps.store(plan.len() as i64, Ordering::SeqCst);
        let ctx = |e| match e {
            Fail::Violation(m) => Fail::Violation(format!("with clock steps: {}", m)),
            e => e,
        };
        w.start().map_err(ctx)?;
        w.sync().map_err(ctx)?;
        w.compare(0..=c).map_err(ctx)?;
        for (n, op) in v.h.ops.iter().enumerate() {
            r.clock_ns.store(v.live[n % v.live.len()], Ordering::SeqCst);
            info.label("step while serving or updating");
            match op {
                Op::Restart { offline } => {
                    w.stop();
                    for o in offline {
                        w.apply(o);
                    }
                    r.clock_calls.store(0, Ordering::SeqCst);
                    w.start().map_err(ctx)?;
                    info.label("steps during a start");
                }
                o => {
                    w.apply(o);
                }
            }
            // back and forth while the update and the save go on
            for d in &v.live {
                r.clock_ns.store(*d, Ordering::SeqCst);
                std::thread::yield_now();
            }
            w.sync().map_err(ctx)?;
            w.compare(0..=c).map_err(ctx)?;
        }
        let calls = r.clock_calls.load(Ordering::SeqCst);
        info.note = Some(json!({"readings of the wall clock in the last run": calls}));
        if calls > 0 {
            info.label("the program read the stepped clock");
        }
        info.nontrivial = calls > 0;
        Ok(())
    });
}
