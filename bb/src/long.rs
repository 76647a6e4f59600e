//! C26 (a long run does not use up resources).
use crate::run::*;
use common::http::{Conn, HttpError};
use std::io::Write;
use std::net::TcpStream;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Part {
    /// a large unconfirmed transaction appears and goes away again
    Mempool { outs: u16, ins: u8, scripts: bool },
    /// large blocks without spendable outputs
    Blocks { outs: u16 },
    /// a large block is replaced
    Reorg { outs: u16, depth: u8 },
    /// clients come, ask and go; some leave before they have their answer
    Clients { n: u8, rude: bool },
    /// polls without news
    Polls(u8),
    /// listed transactions that are never returned
    Ghosts(u8),
    /// outputs of addresses that are used once and then spent
    Addresses(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    conf: Conf,
    close_every: u8,
    chunked: bool,
    parts: Vec<Part>,
}

#[derive(Clone, Copy, Debug)]
struct Use {
    memory: u64,
    files: u64,
    threads: u64,
    heap: u64,
}

fn usage(pid: u32, heap: &std::path::Path) -> Use {
    let page = unsafe { libc::sysconf(libc::_SC_PAGESIZE) } as u64;
    let memory = std::fs::read_to_string(format!("/proc/{}/statm", pid)).ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * page;
    let count = |d: &str| std::fs::read_dir(format!("/proc/{}/{}", pid, d)).map(|d| d.count()).unwrap_or(0) as u64;
    let heap = std::fs::read(heap).ok().and_then(|b| b[..8].try_into().ok().map(i64::from_le_bytes)).unwrap_or(0).max(0) as u64;
    Use { memory, heap, files: count("fd"), threads: count("task") }
}

fn op_returns(n: u16) -> BlockPlan {
    BlockPlan {
        coinbase: (0..n.max(1)).map(|_| OutPlan { kind: 8, addr: 0, w: 0 }).collect(),
        value: 0,
        txs: vec![],
        take: 0,
    }
}

/// Growth of the least use from the middle to the end.
fn creep(heap: &[u64]) -> u64 {
    let n = heap.len();
    let least = |r: std::ops::Range<usize>| heap[r].iter().min().copied().unwrap_or(0);
    least(n - n / 6..n).saturating_sub(least(n / 3..n / 2))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Small {
    /// polls without news
    Polls(u16),
    /// transactions that are listed once and never returned
    Ghosts(u16),
    /// transactions that come and go
    Pool(u16),
    /// transactions that come and are then mined
    Mined(u16),
    /// blocks of transactions that were never listed
    Blocks(u16),
    /// blocks of transactions that are replaced by others
    Replaced(u16, u8),
    /// the same transactions are listed in other orders
    Orders(u16),
    /// clients with requests that none made before
    Clients(u16, u8),
    /// one client with many such requests
    Requests(u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Drops {
    conf: Conf,
    close_every: u8,
    chunked: bool,
    parts: Vec<Small>,
}

/// A request like no other so far, and the status it must have.
fn novel(kind: u8, n: u64) -> (&'static str, String, Option<String>, u16) {
    let mut h = [0u8; 20];
    h[..8].copy_from_slice(&(n.wrapping_mul(0x9e3779b97f4a7c15)).to_be_bytes());
    let a = if n % 2 == 0 { Addr::Pkh(h) } else { Addr::Sh(h) }.text();
    match kind % 6 {
        0 => ("GET", format!("/addresses/{}/balance", a), None, 200),
        1 => ("GET", format!("/addresses/{}/utxos?confirmations=1", a), None, 200),
        2 => ("POST", "/addresses/utxos".into(), Some(json!([a]).to_string()), 200),
        3 => ("GET", format!("/addresses/balance?addresses={}&confirmations=0", a), None, 200),
        4 => ("GET", format!("/addresses/x{}/balance", n), None, 400),
        _ => ("GET", format!("/elsewhere/{}", n), None, 404),
    }
}

fn small_txs(sim: &mut Sim, view: &mut Utxo, n: u16, round: usize) -> Vec<std::sync::Arc<TxRec>> {
    (0..n)
        .filter_map(|i| {
            let plan = TxPlan { ins: vec![i.wrapping_mul(40503).wrapping_add(round as u16)], outs: vec![OutPlan { kind: 0, addr: i as u8, w: 1 }], segwit: i % 2 == 0, len: 1, bulk: 0 };
            let t = sim.make_tx(view, &plan)?;
            t.apply(view);
            Some(t)
        })
        .collect()
}

fn small_block(sim: &mut Sim, parent: usize, n: u16, round: usize) -> usize {
    let mut view = (*sim.blocks[parent].utxo).clone();
    let txs = small_txs(sim, &mut view, n, round);
    let b = sim.make_block_with(Some(parent), &op_returns(1), &[]);
    let b = sim.blocks[b].clone();
    let mut all = b.txs.clone();
    all.extend(txs);
    sim.add_block(b.prev, b.height, all, view)
}

fn drops(k: &Check) {
    let part = || {
        prop_oneof![
            2 => (150u16..250).prop_map(Small::Polls),
            2 => (300u16..600).prop_map(Small::Ghosts),
            2 => (300u16..500).prop_map(Small::Pool),
            2 => (300u16..500).prop_map(Small::Mined),
            2 => (300u16..800).prop_map(Small::Blocks),
            2 => (300u16..800, 0u8..4).prop_map(|(n, d)| Small::Replaced(n, d)),
            2 => (20u16..40).prop_map(Small::Orders),
            2 => (200u16..300, 0u8..6).prop_map(|(n, k)| Small::Clients(n, k)),
            2 => (300u16..800, 0u8..6).prop_map(|(n, k)| Small::Requests(n, k)),
        ]
    };
    let s = move || {
        (conf(), 0u8..3, any::<bool>(), prop::collection::vec(part(), 1..3)).prop_map(|(conf, close_every, chunked, parts)| Drops { close_every: close_every * 60,  conf: Conf { confirmations: conf.confirmations.min(6), ..conf }, chunked, parts })
    };
    let rounds = if k.thorough() { 240 } else { 60 };
    k.section("drop by drop", k.n(28, 300), 8, s, move |v: &Drops, info| {
        let c = v.conf.confirmations as usize;
        let initial: Vec<BlockPlan> = (0..20).map(|i| BlockPlan { coinbase: (0..20).map(|k| OutPlan { kind: 0, addr: k as u8, w: 1 }).collect(), value: i, txs: vec![], take: 0 }).collect();
        let mut w = World::new(chain(&initial, c), &v.conf, &plain_layout())?;
        w.node.with(|i| {
            i.style.close_every = v.close_every;
            i.style.chunked = v.chunked;
        });
        let file = w.scratch.0.join("heap");
        w.launch.heap = Some(file.clone());
        w.start()?;
        w.sync()?;
        let pid = w.ix().child.id();
        let addr = w.ix().addr;
        let mut uses: Vec<Use> = vec![];
        let mut blocks = 0u64;
        let mut done = vec![0u64; v.parts.len()];
        for round in 0..rounds {
            if round == rounds / 3 {
                blocks = w.node.with(|i| i.sim.active.len() as u64);
            }
            for (at, p) in v.parts.iter().enumerate() {
                let asked = |conn: &mut Conn, kind: u8, n: u64| -> R {
                    let (method, path, body, status) = novel(kind, n);
                    match conn.request(method, &path, body.as_ref().map(|b| b.as_bytes())) {
                        Ok(r) if r.status == status => Ok(()),
                        Ok(r) => bad(format!("round {}: {} {} is answered {}", round, method, path, r.status)),
                        Err(HttpError::Timeout) => Err(Fail::Stall(format!("round {}: no answer to {}", round, path))),
                        Err(e) => bad(format!("round {}: no answer to {}: {:?}", round, path, e)),
                    }
                };
                match *p {
                    Small::Polls(n) => {
                        let p = w.node.lock().polls;
                        let ix = w.ix.as_mut().unwrap();
                        ix.polls(&w.node, p + n as u64)?;
                        done[at] += n as u64;
                    }
                    Small::Ghosts(n) | Small::Pool(n) => {
                        let missing = matches!(p, Small::Ghosts(_));
                        done[at] += w.node.with(|i| {
                            let mut view = i.sim.mempool_full();
                            let l = small_txs(&mut i.sim, &mut view, n, round);
                            i.sim.mempool.extend(l.into_iter().map(|rec| MemTx { rec, missing }));
                            i.sim.mempool.len() as u64
                        });
                        w.sync()?;
                        w.node.with(|i| i.sim.mempool.clear());
                        w.sync()?;
                    }
                    Small::Mined(n) => {
                        let txs = w.node.with(|i| {
                            // what a replaced branch has left behind is not mined with the rest
                            i.sim.mempool.clear();
                            let mut view = i.sim.mempool_full();
                            let l = small_txs(&mut i.sim, &mut view, n, round);
                            i.sim.mempool.extend(l.iter().map(|rec| MemTx { rec: rec.clone(), missing: false }));
                            (l, view)
                        });
                        done[at] += txs.0.len() as u64;
                        w.sync()?;
                        w.node.with(|i| {
                            let tip = i.sim.tip();
                            let b = i.sim.make_block_with(Some(tip), &op_returns(1), &[]);
                            let b = i.sim.blocks[b].clone();
                            let mut all = b.txs.clone();
                            all.extend(txs.0);
                            let b = i.sim.add_block(b.prev, b.height, all, txs.1);
                            i.sim.activate(b);
                            i.sim.mempool.clear();
                        });
                        w.sync()?;
                    }
                    Small::Blocks(n) => {
                        w.node.with(|i| {
                            let tip = i.sim.tip();
                            let b = small_block(&mut i.sim, tip, n, round);
                            i.sim.activate(b);
                        });
                        done[at] += n as u64;
                        w.sync()?;
                    }
                    Small::Replaced(n, depth) => {
                        // the branch that goes, and one that is longer
                        let depth = (depth as usize % c).min(c - 1);
                        w.node.with(|i| {
                            let mut tip = i.sim.tip();
                            for k in 0..depth {
                                tip = small_block(&mut i.sim, tip, n / depth as u16, round + k);
                            }
                            i.sim.activate(tip);
                        });
                        w.sync()?;
                        w.node.with(|i| {
                            let mut tip = i.sim.active[i.sim.active.len() - 1 - depth];
                            for k in 0..depth + 1 {
                                tip = small_block(&mut i.sim, tip, n / (depth as u16 + 1), round * 7 + k + 1);
                            }
                            i.sim.activate(tip);
                        });
                        done[at] += n as u64;
                        w.sync()?;
                    }
                    Small::Orders(n) => {
                        w.node.with(|i| {
                            if i.sim.mempool.is_empty() {
                                let mut view = i.sim.mempool_full();
                                let l = small_txs(&mut i.sim, &mut view, 40, round);
                                i.sim.mempool.extend(l.into_iter().map(|rec| MemTx { rec, missing: false }));
                            }
                        });
                        for k in 0..n {
                            w.node.with(|i| {
                                let l = i.sim.mempool.len();
                                i.sim.mempool.rotate_left(1 + k as usize % (l - 1));
                            });
                            w.sync()?;
                        }
                        w.node.with(|i| i.sim.mempool.clear());
                        w.sync()?;
                        done[at] += n as u64 * 40;
                    }
                    Small::Clients(n, kind) => {
                        for _ in 0..n {
                            asked(&mut Conn::new(addr, LIMIT), kind, done[at])?;
                            done[at] += 1;
                        }
                    }
                    Small::Requests(n, kind) => {
                        let mut conn = Conn::new(addr, LIMIT);
                        for _ in 0..n {
                            asked(&mut conn, kind, done[at])?;
                            done[at] += 1;
                        }
                    }
                }
            }
            let mut u = usage(pid, &file);
            for _ in 0..3 {
                std::thread::sleep(Duration::from_millis(2));
                let x = usage(pid, &file);
                u = Use { memory: u.memory.min(x.memory), files: u.files.min(x.files), threads: u.threads.min(x.threads), heap: u.heap.min(x.heap) };
            }
            uses.push(u);
            if round % 20 == 0 {
                w.compare([0, c])?;
            }
        }
        if w.ix().exited().is_some() {
            return Err(w.ix().died("in a long run"));
        }
        w.compare([0, c])?;
        info.nontrivial = done.iter().all(|n| *n >= 5000);
        for p in &v.parts {
            info.label(format!("{:?}", p).split('(').next().unwrap().to_string());
        }
        let blocks = w.node.with(|i| i.sim.active.len() as u64) - blocks;
        let grown = creep(&uses.iter().map(|u| u.heap).collect::<Vec<_>>());
        let kb = |x: u64| format!("{} kB", x / 1000);
        info.note = Some(json!({"heap growth": kb(grown), "heap": kb(uses.last().unwrap().heap), "blocks meanwhile": blocks, "repetitions": done}));
        if grown > 120_000 + 300 * blocks {
            return bad(format!("the heap grows with time: by {} between rounds {} and {}, with {} blocks, and {:?} repetitions from the start", kb(grown), rounds / 3, rounds, blocks, done));
        }
        for (name, f) in [("open files", &(|u: &Use| u.files) as &dyn Fn(&Use) -> u64), ("threads", &|u: &Use| u.threads)] {
            let grown = creep(&uses.iter().map(f).collect::<Vec<_>>());
            if grown > 16 {
                return bad(format!("{} grow with time: by {} between rounds {} and {}", name, grown, rounds / 3, rounds));
            }
        }
        Ok(())
    });
}

pub fn c26(k: &Check) {
    k.rule("a case is a list of activities repeated many times on a program that keeps running; memory, open files and threads at the end are compared with those after the first third; in `drop by drop` the bytes in use on the heap are counted exactly, and the activities are small and many; non-trivial if at least 60 MB of blocks and transactions came and went, or at least 600 connections and polls (`drop by drop`: 5000 repetitions of each activity)");
    k.assume("memory may grow by 24 MB, or a third of what has come and gone, and open files and threads by 16 (`drop by drop`: by 120 kB and 300 bytes per block), before it counts as growing with time");
    let part = || {
        prop_oneof![
            4 => (4000u16..40000, 1u8..16, any::<bool>()).prop_map(|(outs, ins, scripts)| Part::Mempool { outs, ins, scripts }),
            2 => (4000u16..20000).prop_map(|outs| Part::Blocks { outs }),
            2 => (4000u16..20000, 0u8..4).prop_map(|(outs, depth)| Part::Reorg { outs, depth }),
            2 => (1u8..40, any::<bool>()).prop_map(|(n, rude)| Part::Clients { n, rude }),
            1 => (1u8..60).prop_map(Part::Polls),
            1 => (1u8..20).prop_map(Part::Ghosts),
            2 => (10000u16..14000).prop_map(Part::Addresses),
        ]
    };
    let s = move || (conf(), 0u8..3, any::<bool>(), prop::collection::vec(part(), 1..4)).prop_map(|(conf, close_every, chunked, parts)| Long { conf, close_every, chunked, parts });
    let rounds = if k.thorough() { 150 } else { 60 };
    k.section("over and over", k.n(24, 300), 8, s, move |v: &Long, info| {
        let deepest = if v.parts.iter().any(|p| matches!(p, Part::Addresses(_))) { 3 } else { 6 };
        let c = (v.conf.confirmations as usize).min(deepest);
        let conf = Conf { confirmations: c as u8, ..v.conf.clone() };
        let initial: Vec<BlockPlan> = (0..20).map(|_| empty_block()).collect();
        let mut w = World::new(chain(&initial, c), &conf, &plain_layout())?;
        w.node.with(|i| {
            i.style.close_every = v.close_every;
            i.style.chunked = v.chunked;
        });
        let heap = w.scratch.0.join("heap");
        w.launch.heap = Some(heap.clone());
        w.start()?;
        w.sync()?;
        let pid = w.ix().child.id();
        let addr = w.ix().addr;
        let path = format!("/addresses/{}/utxos?confirmations=0", w.addrs[0].text());
        let mut uses: Vec<(Use, u64)> = vec![];
        let (mut bytes, mut contacts) = (0u64, 0u64);
        let mut once: Vec<OutPoint> = vec![];
        for round in 0..rounds {
            for p in &v.parts {
                match p {
                    Part::Mempool { outs, ins, scripts } => {
                        let t = TxPlan {
                            ins: (0..*ins as u16).map(|i| i * 4001 + round as u16).collect(),
                            outs: vec![OutPlan { kind: 0, addr: 1, w: 1 }],
                            segwit: round % 2 == 0,
                            len: if *scripts { 7 } else { 1 },
                            bulk: *outs,
                        };
                        w.apply(&Op::MemAdd(vec![t]));
                        bytes += w.node.with(|i| i.sim.mempool.iter().map(|m| m.rec.raw.len() as u64).sum::<u64>());
                        w.sync()?;
                        w.node.with(|i| i.sim.mempool.clear());
                        w.sync()?;
                    }
                    Part::Blocks { outs } => {
                        w.node.with(|i| i.sim.mine(&op_returns(*outs)));
                        bytes += *outs as u64 * 50;
                        w.sync()?;
                    }
                    Part::Reorg { outs, depth } => {
                        w.node.with(|i| i.sim.mine(&op_returns(*outs)));
                        w.sync()?;
                        w.apply(&Op::Reorg { depth: *depth, extra: 0, blocks: vec![op_returns(*outs)] });
                        bytes += *outs as u64 * 100;
                        w.sync()?;
                    }
                    Part::Clients { n, rude } => {
                        for i in 0..*n {
                            if *rude && i % 2 == 0 {
                                if let Ok(mut s) = TcpStream::connect(addr) {
                                    let t = format!("GET {} HTTP/1.1\r\nHost: x\r\n\r\n", path);
                                    let _ = s.write_all(&t.as_bytes()[..if i % 4 == 0 { t.len() } else { t.len() / 2 }]);
                                }
                            } else {
                                // none is like another
                                let q = format!("{}&n={}", path, contacts);
                                match Conn::new(addr, LIMIT).request("GET", &q, None) {
                                    Ok(r) if r.status == 200 => {}
                                    Ok(r) => return bad(format!("round {}: a good request is answered {}", round, r.status)),
                                    Err(HttpError::Timeout) => return Err(Fail::Stall(format!("round {}: no answer to a good request", round))),
                                    Err(e) => return bad(format!("round {}: no answer to a good request: {:?}", round, e)),
                                }
                            }
                            contacts += 1;
                        }
                    }
                    Part::Polls(n) => {
                        let p = w.node.lock().polls;
                        let ix = w.ix.as_mut().unwrap();
                        ix.polls(&w.node, p + *n as u64)?;
                        contacts += *n as u64;
                    }
                    Part::Addresses(n) => {
                        let fresh = |k: u16| OutPlan { kind: 18 + (k % 2) as u8, addr: 0, w: 1 };
                        let plan = BlockPlan { coinbase: (0..*n).map(fresh).collect(), value: 0, txs: vec![], take: 1 };
                        let prevs = std::mem::take(&mut once);
                        bytes += w.node.with(|i| {
                            let utxo = i.sim.mempool_full();
                            let spend = TxPlan { ins: vec![], outs: vec![OutPlan { kind: 8, addr: 0, w: 0 }], segwit: false, len: 1, bulk: 0 };
                            let prevs = prevs.into_iter().filter(|p| utxo.contains_key(p)).collect();
                            if let Some(rec) = i.sim.spend_tx(&utxo, prevs, &spend) {
                                i.sim.mempool.insert(0, MemTx { rec, missing: false });
                            }
                            i.sim.mine(&plan);
                            let b = &i.sim.blocks[i.sim.tip()];
                            let t = &b.txs[0];
                            once = (0..*n as u32).map(|k| OutPoint { txid: t.txid, vout: k }).collect();
                            b.raw.len() as u64
                        });
                        w.sync()?;
                    }
                    Part::Ghosts(n) => {
                        let plan = |i: u16| TxPlan { ins: vec![i.wrapping_mul(163)], outs: vec![OutPlan { kind: 0, addr: 2, w: 1 }], segwit: false, len: 1, bulk: 0 };
                        w.apply(&Op::MemGhost((0..*n as u16).map(plan).collect()));
                        w.sync()?;
                        w.node.with(|i| i.sim.mempool.clear());
                        contacts += *n as u64;
                    }
                }
            }
            let mut u = usage(pid, &heap);
            for _ in 0..2 {
                // connections just given up are noticed a moment later
                std::thread::sleep(Duration::from_millis(2));
                let x = usage(pid, &heap);
                u = Use { memory: u.memory.min(x.memory), files: u.files.min(x.files), threads: u.threads.min(x.threads), heap: u.heap.min(x.heap) };
            }
            uses.push((u, bytes));
            if round % 10 == 0 {
                w.compare([0, c])?;
            }
        }
        if w.ix().exited().is_some() {
            return Err(w.ix().died("in a long run"));
        }
        w.compare([0, c])?;
        let a = rounds / 6..rounds / 3;
        let b = rounds - rounds / 6..rounds;
        let start = |f: &dyn Fn(&Use) -> u64| uses[a.clone()].iter().map(|u| f(&u.0)).max().unwrap();
        let end = |f: &dyn Fn(&Use) -> u64| uses[b.clone()].iter().map(|u| f(&u.0)).min().unwrap();
        let growth = |f: &dyn Fn(&Use) -> u64| end(f).saturating_sub(start(f));
        let between = uses[b.start].1 - uses[a.end].1;
        let mb = |x: u64| format!("{:.1} MB", x as f64 / 1e6);
        let memory = growth(&|u| u.memory);
        info.note = Some(json!({"memory growth": mb(memory), "heap growth": mb(growth(&|u| u.heap)), "came and went": mb(bytes), "open files": end(&|u| u.files), "threads": end(&|u| u.threads)}));
        info.nontrivial = bytes > 60_000_000 || contacts > 600;
        info.label(match memory / 1_000_000 {
            0..=1 => "memory: steady",
            2..=7 => "memory: up to 8 MB more",
            8..=15 => "memory: up to 16 MB more",
            _ => "memory: 16 MB more or above",
        });
        let heap = creep(&uses.iter().map(|u| u.0.heap).collect::<Vec<_>>());
        if deepest == 6 && heap > 1_000_000.max(between / 50) {
            return bad(format!("the heap grows with time: by {} between rounds {} and {}, while blocks and transactions of {} came and went", mb(heap), rounds / 3, rounds, mb(between)));
        }
        if memory > 24_000_000.max(between / 3) {
            return bad(format!("memory grows with time: {} after {} rounds, at least {} after {}, while blocks and transactions of {} came and went", mb(start(&|u| u.memory)), a.end, mb(end(&|u| u.memory)), rounds, mb(between)));
        }
        for (name, f) in [("open files", &(|u: &Use| u.files) as &dyn Fn(&Use) -> u64), ("threads", &|u: &Use| u.threads)] {
            if growth(f) > 16 {
                return bad(format!("{} grow with time: {} after {} rounds, at least {} after {}", name, start(f), a.end, end(f), rounds));
            }
        }
        Ok(())
    });
    drops(k);
}
