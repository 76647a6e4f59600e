//! C01-C07: what is served against the ledger model.
use crate::disk::{mid_poll, save_held};
use crate::run::*;

fn spends(sim: &Sim, upto: usize) -> (usize, usize) {
    // (spends, spends of an output of an earlier block)
    let (mut a, mut b) = (0, 0);
    let mut born = BTreeMap::new();
    for (h, i) in sim.active.iter().enumerate().take(upto) {
        for t in &sim.blocks[*i].txs {
            for p in &t.spends {
                a += 1;
                b += (born.get(p) != Some(&h)) as usize;
            }
            for (p, _, _) in &t.creates {
                born.insert(*p, h);
            }
        }
    }
    (a, b)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bulk {
    conf: Conf,
    blocks: Vec<BlockPlan>,
    layout: Layout,
}

fn deep(w: &mut World, info: &mut Info) -> R {
    let c = w.c();
    w.start()?;
    w.compare([c])?;
    let u = w.expected(c);
    let (s, x) = {
        let g = w.node.lock();
        spends(&g.sim, g.sim.active.len() + 1 - c)
    };
    let paid = u.values().filter(|v| v.1.is_some()).count();
    info.nontrivial = s > 0 && paid > 0;
    if x > 0 {
        info.label("spends across blocks");
    }
    if s > x {
        info.label("spends within a block");
    }
    if u.values().any(|v| v.1.is_none()) {
        info.label("unspent outputs without address");
    }
    Ok(())
}

pub fn c01(k: &Check) {
    k.rule("a case is non-trivial if the indexed range contains at least one spend and at least one unspent output with an address");
    let f = |b: &Bulk, info: &mut Info| -> R {
        let sim = chain(&b.blocks, b.conf.confirmations as usize);
        let mut w = World::new(sim, &b.conf, &b.layout)?;
        if b.conf.threads > 1 {
            info.label("parallel build");
        }
        deep(&mut w, info)
    };
    let small = || (conf(), prop::collection::vec(block_plan(6), 0..25), prop_oneof![2 => Just(plain_layout()), 1 => layout()]).prop_map(|(conf, blocks, layout)| Bulk { conf, blocks, layout });
    k.section("bulk", k.n(4000, 80000), 8, small, f);
    // long length prefixes: many transactions, inputs, outputs
    let tiny = || {
        (prop::collection::vec(any::<u16>(), 1..3), prop::collection::vec(out_plan(), 1..3), any::<bool>()).prop_map(|(ins, outs, segwit)| TxPlan {
            ins,
            outs,
            segwit,
            len: 2,
            bulk: 0,
        })
    };
    let large = move || {
        let big_block = (block_plan(2), prop::collection::vec(tiny(), 245..262)).prop_map(|(mut b, t)| {
            b.txs.extend(t);
            b
        });
        let wide = (any::<u16>(), 248u16..262, any::<bool>()).prop_map(|(i, bulk, segwit)| BlockPlan {
            coinbase: vec![OutPlan { kind: 0, addr: 1, w: 3 }],
            value: 0,
            take: 0,
            txs: vec![
                TxPlan { ins: vec![i], outs: vec![OutPlan { kind: 4, addr: 3, w: 2 }], segwit, len: 2, bulk },
                TxPlan { ins: (0..bulk).map(|x| x.wrapping_mul(31)).collect(), outs: vec![OutPlan { kind: 0, addr: 5, w: 2 }], segwit: !segwit, len: 3, bulk: 0 },
            ],
        });
        (conf(), prop::collection::vec(prop_oneof![2 => block_plan(3), 1 => big_block, 1 => wide], 2..9)).prop_map(|(conf, blocks)| Bulk { conf, blocks, layout: plain_layout() })
    };
    k.section("large", k.n(240, 4000), 8, large, f);
    tall(k, k.n(200, 4000), k.n(6, 100), false);
    huge(k, k.n(8, 150), 0);
    again(k, k.n(400, 8000));
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Again {
    bulk: Bulk,
    last: Vec<BlockPlan>,
    later: Vec<Vec<BlockPlan>>,
}

/// Coinbases identical to earlier ones, as early blocks have them: of ones that are spent in full, anywhere; of ones that are
/// and stay unspent, among the blocks of the first build.
pub fn again(k: &Check, n: u32) {
    let blocks = || {
        prop::collection::vec(
            (block_plan(3), any::<bool>()).prop_map(|(mut b, simple)| {
                if simple {
                    b.coinbase.truncate(1);
                }
                b
            }),
            0..12,
        )
    };
    let strategy = move || {
        (conf(), blocks(), prop_oneof![2 => Just(plain_layout()), 1 => layout()], blocks(), prop::collection::vec(blocks(), 0..3)).prop_map(|(mut conf, blocks, layout, last, later)| {
            conf.confirmations = 1 + conf.confirmations % 9;
            conf.batch = 1 + conf.batch % 7;
            Again { bulk: Bulk { conf, blocks, layout }, last, later }
        })
    };
    k.section("coinbases that come again", n, 8, strategy, |a: &Again, info| {
        let b = &a.bulk;
        let c = b.conf.confirmations as usize;
        let mut sim = Sim::default();
        sim.mine(&empty_block());
        sim.recur = 2;
        for p in &b.blocks {
            sim.mine(p);
        }
        sim.recur = 1;
        for p in &a.last {
            sim.mine(p);
        }
        while sim.active.len() < b.blocks.len() + c {
            let i = sim.active.len() as u8;
            sim.mine(&BlockPlan { coinbase: vec![OutPlan { kind: i % 6, addr: i, w: 1 }], value: i, txs: vec![], take: 0 });
        }
        let mut w = World::new(sim, &b.conf, &b.layout)?;
        w.start()?;
        w.compare(0..=c)?;
        for l in &a.later {
            w.node.with(|n| l.iter().for_each(|p| n.sim.mine(p)));
            w.sync()?;
            w.compare(0..=c)?;
        }
        let (spent, untouched) = w.node.lock().sim.came_again;
        info.nontrivial = spent + untouched > 0;
        if spent > 0 {
            info.label("came again once spent");
        }
        if untouched > 0 {
            info.label("came again while unspent");
        }
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge {
    conf: Conf,
    /// outputs of one transaction
    outs: u32,
    /// how many of them the next transaction spends at once, from which index on, and in which steps
    ins: u32,
    from: u32,
    step: u8,
    /// transactions of the next block, each spending one more
    txs: u32,
    kinds: Vec<u8>,
    /// 0: all in the block files; 1: new blocks; 2: unconfirmed first, then new blocks; 3: restarts from the saved index;
    /// 4: all in the block files, small batches in parallel
    how: u8,
}

/// Counts that need more than 16 bits: outputs and inputs of a transaction, transactions of a block.
pub fn huge(k: &Check, n: u32, how: u8) {
    let strategy = move || {
        (
            conf(),
            prop_oneof![3 => 65530u32..65545, 1 => 65600u32..72000, 1 => 250u32..260],
            prop_oneof![2 => 1u32..200, 1 => 65530u32..65545],
            prop_oneof![2 => 65300u32..65545, 1 => 0u32..300],
            1u8..3,
            prop_oneof![3 => 1u32..300, 1 => 65534u32..65540],
            prop::collection::vec(0u8..9, 1..5),
            match how {
                1 | 2 => (1..=how).boxed(),
                h => Just(h).boxed(),
            },
        )
            .prop_map(|(mut conf, outs, mut ins, mut from, step, txs, kinds, how)| {
                if how == 4 {
                    conf.threads = conf.threads.max(2);
                    conf.batch = 1 + conf.batch % 3;
                    if ins < 200 {
                        ins = ins * 100 + 1000;
                    }
                    from %= 300;
                }
                Huge { conf, outs, ins, from, step, txs, kinds, how }
            })
    };
    k.section("counts beyond 16 bits", n, 4, strategy, |g: &Huge, info| {
        let c = g.conf.confirmations as usize;
        let mut sim = Sim::default();
        let first = BlockPlan { coinbase: vec![OutPlan { kind: 0, addr: 1, w: 1 }], value: 0, txs: vec![], take: 0 };
        sim.mine(&first);
        let live = g.how == 1 || g.how == 2;
        if live {
            for _ in 0..c {
                sim.mine(&empty_block());
            }
        }
        let coin = sim.blocks[sim.active[0]].txs[0].creates[0].0;
        let input = |prev: OutPoint| TxIn { prev, script: vec![1, 2], sequence: u32::MAX, witness: vec![] };
        let outputs = (0..g.outs)
            .map(|i| {
                let kind = g.kinds[i as usize % g.kinds.len()];
                TxOut { value: 1 + i as u64 % 7000, script: sim.script_of(&OutPlan { kind, addr: (i % 8) as u8, w: 1 }) }
            })
            .collect();
        let wide = TxRec::new(Tx { version: 1, inputs: vec![input(coin)], outputs, locktime: 0, segwit: false });
        let mut order: Vec<u32> = Vec::new();
        let mut i = g.from.min(g.outs - 1);
        while i < g.outs {
            order.push(i);
            i += g.step as u32;
        }
        let used: BTreeSet<u32> = order.iter().copied().collect();
        order.extend((0..g.outs).filter(|i| !used.contains(i)));
        let can: BTreeMap<OutPoint, u64> = wide.creates.iter().map(|(p, v, _)| (*p, *v)).collect();
        let mut left: Vec<OutPoint> = order.iter().map(|i| OutPoint { txid: wide.txid, vout: *i }).filter(|p| can.contains_key(p)).collect();
        let rest = left.split_off((g.ins as usize).min(left.len().saturating_sub(1)));
        let many = TxRec::new(Tx {
            version: 1,
            inputs: left.iter().map(|p| input(*p)).collect(),
            outputs: vec![TxOut { value: left.iter().map(|p| can[p]).sum(), script: Addr::Sh(pool_hash(3)).script() }],
            locktime: 0,
            segwit: false,
        });
        let each: Vec<_> = rest
            .iter()
            .take(g.txs as usize)
            .map(|p| {
                TxRec::new(Tx {
                    version: 1,
                    inputs: vec![input(*p)],
                    outputs: vec![TxOut { value: can[p], script: Addr::Pkh(pool_hash(p.vout as usize / 5)).script() }],
                    locktime: 0,
                    segwit: false,
                })
            })
            .collect();
        let mut steps: Vec<Vec<std::sync::Arc<TxRec>>> = vec![vec![wide]];
        if !left.is_empty() {
            steps.push(vec![many]);
        }
        let mut each = each;
        if g.how == 2 {
            each.truncate(300);
        }
        info.label(format!("{} or more transactions in a block", if each.len() > 65534 { 65535 } else { 1 }));
        steps.push(each);
        if left.len() > 65535 {
            info.label("more than 65535 inputs");
        }
        if g.how == 4 && left.len() + rest.len().min(g.txs as usize) > 1024 {
            info.label("more than 1024 spends across batches");
            info.nontrivial = true;
        }
        if left.iter().chain(&rest).any(|p| p.vout > 65535) {
            info.label("output index over 65535");
            info.nontrivial = true;
        }
        let put = |sim: &mut Sim, txs: &Vec<std::sync::Arc<TxRec>>| {
            let t = sim.tip();
            let mut utxo = (*sim.blocks[t].utxo).clone();
            let cb = sim.make_block(Some(t), &empty_block());
            let cb = sim.blocks[cb].txs[0].clone();
            cb.apply(&mut utxo);
            let mut all = vec![cb];
            for t in txs {
                t.apply(&mut utxo);
                all.push(t.clone());
            }
            let (prev, height) = (sim.blocks[t].hash, sim.blocks[t].height + 1);
            let b = sim.add_block(prev, height, all, utxo);
            sim.activate(b);
        };
        if !live {
            // restarts: the first step is in the saved index, the others arrive while the program is down
            let n = if g.how == 3 { 1 } else { steps.len() };
            for s in &steps[..n] {
                put(&mut sim, s);
            }
            for _ in 1..c {
                sim.mine(&empty_block());
            }
        }
        let mut w = World::new(sim, &g.conf, &plain_layout())?;
        w.start()?;
        w.sync()?;
        w.compare([0, c])?;
        if g.how == 3 {
            for s in [vec![], steps[1..].to_vec(), vec![]] {
                w.stop();
                std::fs::remove_dir_all(w.scratch.blocks()).ok();
                std::fs::create_dir_all(w.scratch.blocks()).ok();
                if !s.is_empty() {
                    w.node.with(|i| {
                        s.iter().for_each(|s| put(&mut i.sim, s));
                        (0..c).for_each(|_| i.sim.mine(&empty_block()));
                    });
                }
                w.start()?;
                w.sync()?;
                w.compare([0, c])?;
            }
        }
        if live {
            for s in &steps {
                if g.how == 2 {
                    w.node.with(|i| i.sim.mempool = s.iter().map(|t| MemTx { rec: t.clone(), missing: false }).collect());
                    w.sync()?;
                    w.compare([0])?;
                }
                w.node.with(|i| put(&mut i.sim, s));
                w.sync()?;
                w.compare([0, 1])?;
            }
            w.node.with(|i| (0..c).for_each(|_| i.sim.mine(&empty_block())));
            w.sync()?;
            w.compare([0, c])?;
        }
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tall {
    conf: Conf,
    blocks: u32,
    /// blocks with transactions, counted from the tip
    marks: Vec<(u32, BlockPlan)>,
    layout: Layout,
    /// blocks that arrive later, the indexer restarted from its saved index before or after them
    later: Vec<(bool, Vec<BlockPlan>)>,
}

/// Chains of hundreds or thousands of blocks, most of them without spendable outputs.
fn tall(k: &Check, n: u32, huge: u32, restarts: bool) {
    let strategy = move |sizes: BoxedStrategy<u32>| {
        (
            conf(),
            sizes,
            prop::collection::vec((prop_oneof![3 => 0u32..12, 2 => 0u32..600, 1 => any::<u32>()], block_plan(3)), 2..12),
            prop_oneof![3 => Just(plain_layout()), 1 => layout()],
            prop::collection::vec((any::<bool>(), prop::collection::vec(block_plan(2), 0..4)), 0..4),
        )
            .prop_map(move |(mut conf, blocks, marks, layout, mut later)| {
                conf.batch = conf.batch.max(if blocks > 20000 { 1000 } else { 50 });
                if restarts {
                    if later.is_empty() {
                        later.push((true, vec![]));
                    }
                    later[0].0 = true;
                }
                Tall { conf, blocks, marks, layout, later }
            })
    };
    let bare = BlockPlan { coinbase: vec![OutPlan { kind: 8, addr: 0, w: 1 }], value: 4, txs: vec![], take: 0 };
    let f = |t: &Tall, info: &mut Info| -> R {
        let c = t.conf.confirmations as usize;
        let mut sim = Sim::default();
        let n = t.blocks as usize + c;
        sim.mine(&empty_block());
        let marks: BTreeMap<usize, &BlockPlan> = t.marks.iter().map(|(p, b)| (n - 1 - *p as usize % n, b)).collect();
        for h in 1..n {
            sim.mine(marks.get(&h).copied().unwrap_or(&bare));
        }
        let mut layout = t.layout.clone();
        for p in layout.per_file.iter_mut() {
            *p = p.saturating_mul(20);
        }
        let mut w = World::new(sim, &t.conf, &layout)?;
        w.start()?;
        w.sync()?;
        w.compare(0..=c)?;
        for (restart, blocks) in &t.later {
            if *restart {
                w.stop();
                std::fs::remove_dir_all(w.scratch.blocks()).ok();
                std::fs::create_dir_all(w.scratch.blocks()).ok();
            }
            w.node.with(|i| blocks.iter().for_each(|b| i.sim.mine(b)));
            if *restart {
                w.start()?;
                info.label("restart from the saved index");
            }
            w.sync()?;
            w.compare(0..=c)?;
        }
        info.nontrivial = n > 250;
        info.label(format!("more than {} blocks", [65536, 10000, 4096, 2016, 1000, 500, 256, 0].iter().find(|x| n > **x).unwrap()));
        Ok(())
    };
    let some = || prop_oneof![6 => 240u32..320, 4 => 490u32..530, 3 => 990u32..1040, 3 => 2000u32..2040, 1 => 4080u32..4110, 1 => 100u32..6000].boxed();
    k.section("tall chains", n, 8, || strategy(some()), f);
    k.section("very tall chains", huge, 2, || strategy((65520u32..65545).boxed()), f);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Levels {
    confirmations: u16,
    threads: u8,
    /// blocks with transactions, counted from the tip
    marks: Vec<(u16, BlockPlan)>,
    /// (0: blocks arrive, 1: as many blocks are replaced, 2: restart; how many; their transactions; levels compared)
    steps: Vec<(u8, u16, Vec<BlockPlan>, Vec<u16>)>,
}

/// Hundreds of confirmation levels.
pub fn many_levels(k: &Check, n: u32, kinds: &'static [u8]) {
    let strategy = move || {
        (
            prop_oneof![2 => 250u16..262, 1 => 40u16..250, 1 => 262u16..400],
            1u8..4,
            prop::collection::vec((any::<u16>(), block_plan(3)), 10..60),
            prop::collection::vec(
                (prop::sample::select(kinds), prop_oneof![3 => 0u16..5, 1 => any::<u16>()], prop::collection::vec(block_plan(3), 1..4), prop::collection::vec(any::<u16>(), 4..12)),
                1..4,
            ),
        )
            .prop_map(|(confirmations, threads, marks, steps)| Levels { confirmations, threads, marks, steps })
    };
    let bare = BlockPlan { coinbase: vec![OutPlan { kind: 8, addr: 0, w: 1 }], value: 4, txs: vec![], take: 0 };
    k.section("hundreds of levels", n, 8, strategy, |v: &Levels, info: &mut Info| {
        let c = v.confirmations as usize;
        let mut sim = Sim::default();
        let total = c + 10;
        let marks: BTreeMap<usize, &BlockPlan> = v.marks.iter().map(|(p, b)| (total - 1 - *p as usize % total, b)).collect();
        for h in 0..total {
            sim.mine(marks.get(&h).copied().unwrap_or(&bare));
        }
        let conf = Conf { threads: v.threads, batch: 50, confirmations: 1 };
        let mut w = World::new(sim, &conf, &plain_layout())?;
        w.launch.env.insert("CONFIRMATIONS".into(), c.to_string());
        w.start()?;
        let check = |w: &mut World, more: &[u16]| -> R {
            w.sync()?;
            let mut l: BTreeSet<usize> = more.iter().map(|x| *x as usize % (c + 1)).collect();
            l.extend([0, 1, c / 2, c - 1, c]);
            l.extend((253..259).chain(126..130).filter(|x| *x <= c));
            w.compare(l)?;
            let path = format!("/addresses/{}/balance?confirmations={}", w.addrs[0].text(), c + 1);
            let r = w.ix().get(&path)?;
            if r.status != 400 {
                return bad(format!("with CONFIRMATIONS={} level {} is answered {}", c, c + 1, r.status));
            }
            Ok(())
        };
        check(&mut w, &[])?;
        for (kind, n, blocks, levels) in &v.steps {
            match kind {
                0 => {
                    let n = *n as usize % 80 + 1;
                    w.node.with(|i| (0..n).for_each(|j| i.sim.mine(blocks.get(j).unwrap_or(&bare))));
                    info.label("arrivals");
                }
                1 => {
                    let d = if *n < 5 { c - 1 - *n as usize } else { *n as usize % (c - 1) + 1 };
                    w.node.with(|i| {
                        let tip = i.sim.tip();
                        let fork = i.sim.active[i.sim.active.len() - 1 - d];
                        i.sim.branch(fork, d + 1, blocks, tip);
                    });
                    info.label(if d > 255 { "more than 255 blocks replaced" } else { "blocks replaced" });
                }
                _ => {
                    w.stop();
                    w.node.with(|i| blocks.iter().for_each(|b| i.sim.mine(b)));
                    w.start()?;
                    info.label("restart");
                }
            }
            check(&mut w, levels)?;
        }
        info.nontrivial = c > 128;
        info.label(if c > 255 { "more than 255 levels" } else { "up to 255 levels" });
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bursts {
    conf: Conf,
    initial: Vec<BlockPlan>,
    /// (the program is down meanwhile, blocks arriving at once, blocks with transactions among them)
    bursts: Vec<(bool, u32, Vec<(u32, BlockPlan)>)>,
}

/// Hundreds of blocks between two polls.
fn bursts(k: &Check, n: u32, restarts: bool) {
    let strategy = move || {
        let some = prop_oneof![2 => 1u32..30, 4 => 90u32..270, 2 => 270u32..600, 1 => 990u32..1100];
        let marks = prop::collection::vec((prop_oneof![1 => 0u32..12, 1 => any::<u32>()], block_plan(3)), 0..6);
        let down = if restarts { prop_oneof![2 => Just(true), 1 => Just(false)].boxed() } else { Just(false).boxed() };
        (conf(), prop::collection::vec(block_plan(3), 1..8), prop::collection::vec((down, some, marks), 1..4)).prop_map(move |(conf, initial, mut bursts)| {
            bursts[0].0 |= restarts;
            Bursts { conf, initial, bursts }
        })
    };
    let name = if restarts { "hundreds of blocks while down" } else { "hundreds of blocks at once" };
    k.section(name, n, 8, strategy, |b: &Bursts, info| {
        let bare = BlockPlan { coinbase: vec![OutPlan { kind: 8, addr: 0, w: 1 }], value: 4, txs: vec![], take: 0 };
        let c = b.conf.confirmations as usize;
        let mut w = World::new(chain(&b.initial, c), &b.conf, &plain_layout())?;
        w.start()?;
        w.sync()?;
        for (down, n, marks) in &b.bursts {
            if *down {
                w.stop();
            }
            let marks: BTreeMap<u32, &BlockPlan> = marks.iter().map(|(p, b)| (n - 1 - p % n, b)).collect();
            w.node.with(|i| (0..*n).for_each(|h| i.sim.mine(marks.get(&h).copied().unwrap_or(&bare))));
            if *down {
                w.start()?;
            }
            w.sync()?;
            w.compare(if restarts { 0..=c } else { 1..=c })?;
            info.nontrivial |= *n > 90;
            info.label(format!("more than {} blocks", [1000, 500, 250, 100, 0].iter().find(|x| n > *x).unwrap()));
        }
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Large {
    conf: Conf,
    blocks: Vec<BlockPlan>,
    layout: Layout,
    /// records of unknown parentage put before the i-th record: (i, content length)
    fillers: Vec<(u16, u32)>,
}

/// Block files of the size real ones have, most of it taken by blocks that are not on the chain.
fn large_files(k: &Check, n: u32) {
    let strategy = || {
        let len = prop_oneof![3 => 3_000_000u32..4_000_000, 1 => 81u32..100_000, 1 => 900_000u32..1_100_000];
        (conf(), prop::collection::vec(block_plan(3), 6..30), layout(), prop::collection::vec((any::<u16>(), len), 6..90)).prop_map(|(conf, blocks, mut layout, fillers)| {
            for p in layout.per_file.iter_mut() {
                *p = p.saturating_mul(30);
            }
            Large { conf, blocks, layout, fillers }
        })
    };
    k.section("large files", n, 4, strategy, |l: &Large, info| {
        let c = l.conf.confirmations as usize;
        let sim = chain(&l.blocks, c);
        let raws = active_raws(&sim);
        let mut all: Vec<(Vec<u8>, u32)> = raws.into_iter().map(|r| (r, 0)).collect();
        let n = all.len();
        let mut at: Vec<(usize, usize, u32)> = l.fillers.iter().enumerate().map(|(i, (p, len))| (*p as usize % n, i, *len)).collect();
        at.sort();
        for (p, i, len) in at.into_iter().rev() {
            let h = header(1, &sha256d(&[7, i as u8]), &[i as u8; 32], 1, 1, i as u32);
            all.insert(p, (h.to_vec(), len - 80));
        }
        let scratch = Scratch::new();
        let longest = write_sparse(&scratch.blocks(), &all, &l.layout);
        let mut w = World::with_files(scratch, sim, &l.conf)?;
        w.start()?;
        w.compare([c])?;
        info.nontrivial = longest > 1 << 24;
        info.label(format!("longest file over {} MiB", [128, 64, 32, 16, 0].iter().find(|x| longest >> 20 >= **x).unwrap()));
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowd {
    conf: Conf,
    main: Vec<BlockPlan>,
    /// (parent on the chain, how many further children it has)
    crowds: Vec<(u16, u16)>,
    /// (fork point, how many blocks shorter than the chain the branch stays)
    rivals: Vec<(u16, u8)>,
    layout: Layout,
}

/// Many children of one block, and long branches that lose by little.
fn crowds(k: &Check, n: u32) {
    let strategy = || {
        let many = prop_oneof![3 => 1u16..20, 2 => 20u16..300, 1 => 300u16..700];
        (
            conf(),
            prop_oneof![3 => prop::collection::vec(block_plan(2), 2..12), 1 => prop::collection::vec(block_plan(0), 100..400)],
            prop::collection::vec((any::<u16>(), many), 1..4),
            prop::collection::vec((any::<u16>(), 1u8..4), 0..3),
            layout(),
        )
            .prop_map(|(conf, main, crowds, rivals, mut layout)| {
                for p in layout.per_file.iter_mut() {
                    *p = p.saturating_mul(25);
                }
                Crowd { conf, main, crowds, rivals, layout }
            })
    };
    k.section("crowds", n, 8, strategy, |x: &Crowd, info| {
        let c = x.conf.confirmations as usize;
        let mut sim = chain(&x.main, c);
        let bare = BlockPlan { coinbase: vec![OutPlan { kind: 1, addr: 3, w: 1 }], value: 5, txs: vec![], take: 0 };
        let len = sim.active.len();
        let last = sim.tip();
        for (parent, n) in &x.crowds {
            // not the tip: that would be a tie
            let p = sim.active[*parent as usize % (len - 1)];
            for _ in 0..*n {
                sim.make_block(Some(p), &bare);
            }
        }
        // one more block, so that no child of the last but one ties with the tip
        let tip = sim.make_block(Some(last), &empty_block());
        sim.activate(tip);
        let len = sim.active.len();
        for (fork, short) in &x.rivals {
            let f = *fork as usize % len;
            let mut tip = sim.active[f];
            for _ in f + 1..len - (*short as usize).min(len - 1) {
                tip = sim.make_block(Some(tip), &bare);
            }
        }
        sim.mempool.clear();
        let mut raws: Vec<Vec<u8>> = sim.blocks.iter().map(|b| (*b.raw).clone()).collect();
        if x.crowds[0].0 % 2 == 0 {
            raws.reverse();
        }
        let widest = x.crowds.iter().map(|v| v.1).max().unwrap();
        info.nontrivial = true;
        info.label(format!("more than {} children", [255, 100, 8, 0].iter().find(|x| widest >= **x).unwrap()));
        let scratch = Scratch::new();
        write_layout(&scratch.blocks(), &raws, &x.layout);
        let mut w = World::with_files(scratch, sim, &x.conf)?;
        w.start()?;
        w.compare([c])?;
        w.sync()?;
        w.compare([c])
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Backlog {
    conf: Conf,
    initial: Vec<BlockPlan>,
    txs: u32,
    /// per transaction (cycled): 0 child of the previous one, 1.. spends an output of its own; 7: never returned; 8: conflicts with the previous one
    kinds: Vec<u8>,
    outs: Vec<OutPlan>,
    /// (per transaction, cycled: stays listed; how many are mined)
    rounds: Vec<(Vec<bool>, u16)>,
}

/// Hundreds or thousands of unconfirmed transactions.
fn backlog(k: &Check, n: u32) {
    let strategy = || {
        (
            conf(),
            prop::collection::vec(block_plan(2), 0..4),
            prop_oneof![4 => 250u32..700, 2 => 990u32..1100, 1 => 2000u32..2200, 1 => 4090u32..5100],
            prop::collection::vec(0u8..9, 1..20),
            prop::collection::vec(out_plan(), 1..3),
            prop::collection::vec((prop::collection::vec(prop_oneof![4 => Just(true), 1 => Just(false)], 1..20), prop_oneof![1 => Just(0u16), 2 => any::<u16>()]), 1..4),
        )
            .prop_map(|(conf, initial, txs, kinds, outs, rounds)| Backlog { conf, initial, txs, kinds, outs, rounds })
    };
    k.section("hundreds of unconfirmed transactions", n, 8, strategy, |b: &Backlog, info| {
        let c = b.conf.confirmations as usize;
        let mut sim = chain(&b.initial, c);
        let input = |prev: OutPoint| TxIn { prev, script: vec![1, 2], sequence: u32::MAX, witness: vec![] };
        // one transaction with an output for each
        sim.mine(&BlockPlan { coinbase: vec![OutPlan { kind: 0, addr: 2, w: 1 }], value: 0, txs: vec![], take: 0 });
        let coin = sim.blocks[sim.tip()].txs[0].creates[0].0;
        let fan = TxRec::new(Tx {
            version: 1,
            inputs: vec![input(coin)],
            outputs: (0..b.txs).map(|i| TxOut { value: 1000 + i as u64, script: Addr::Pkh(pool_hash(i as usize)).script() }).collect(),
            locktime: 0,
            segwit: false,
        });
        let put = |sim: &mut Sim, txs: &[std::sync::Arc<TxRec>]| {
            let t = sim.tip();
            let mut utxo = (*sim.blocks[t].utxo).clone();
            let cb = sim.make_block(Some(t), &empty_block());
            let cb = sim.blocks[cb].txs[0].clone();
            cb.apply(&mut utxo);
            let mut all = vec![cb];
            for t in txs {
                t.apply(&mut utxo);
                all.push(t.clone());
            }
            let (prev, height) = (sim.blocks[t].hash, sim.blocks[t].height + 1);
            let b = sim.add_block(prev, height, all, utxo);
            sim.active.push(b);
        };
        put(&mut sim, &[fan.clone()]);
        let mut list: Vec<MemTx> = Vec::new();
        let mut before: Option<std::sync::Arc<TxRec>> = None;
        let mut value: BTreeMap<OutPoint, u64> = fan.creates.iter().map(|(p, v, _)| (*p, *v)).collect();
        for i in 0..b.txs as usize {
            let kind = b.kinds[i % b.kinds.len()];
            let own = OutPoint { txid: fan.txid, vout: i as u32 };
            let prev = match &before {
                Some(t) if kind == 0 && !t.creates.is_empty() => t.creates[0].0,
                Some(t) if kind == 8 => t.spends[0],
                _ => own,
            };
            let share = value[&prev] / b.outs.len() as u64;
            let outputs = b.outs.iter().map(|o| TxOut { value: share, script: sim.script_of(o) }).collect();
            let rec = TxRec::new(Tx { version: 2, inputs: vec![input(prev)], outputs, locktime: i as u32, segwit: i % 2 == 0 });
            list.push(MemTx { rec: rec.clone(), missing: kind == 7 });
            value.extend(rec.creates.iter().map(|(p, v, _)| (*p, *v)));
            before = Some(rec);
        }
        sim.mempool = list;
        let mut w = World::new(sim, &b.conf, &plain_layout())?;
        w.start()?;
        w.sync()?;
        w.compare([0])?;
        info.nontrivial = true;
        info.label(format!("more than {} transactions", [4096, 2000, 1000, 500, 0].iter().find(|x| b.txs > **x).unwrap()));
        for (stay, mined) in &b.rounds {
            w.node.with(|i| {
                let sim = &mut i.sim;
                let mut utxo = (*sim.blocks[sim.tip()].utxo).clone();
                let want = *mined as usize % (sim.mempool.len() + 1);
                let (mut take, mut rest) = (vec![], vec![]);
                for (i, m) in std::mem::take(&mut sim.mempool).into_iter().enumerate() {
                    if take.len() < want && m.rec.applicable(&utxo) {
                        m.rec.apply(&mut utxo);
                        take.push(m.rec);
                    } else if stay[i % stay.len()] {
                        rest.push(m);
                    }
                }
                if !take.is_empty() {
                    put(sim, &take);
                }
                sim.mempool = rest;
            });
            w.sync()?;
            w.compare([0, 1])?;
        }
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    confirmations: u8,
    blocks: Vec<BlockPlan>,
    variants: Vec<(u8, u16, Layout)>,
}

pub fn c02(k: &Check) {
    k.rule("a case is one block set built under 3 or 4 configurations; non-trivial if at least two of them differ in threads or batch size and the indexed range has spends across blocks");
    let strategy = || {
        let var = (prop_oneof![4 => Just(1u8), 16 => 2u8..9, 1 => 9u8..=255], prop_oneof![16 => 1u16..5, 8 => 5u16..40, 4 => Just(25000u16), 1 => 65533u16..=65535], layout());
        (1u8..5, prop::collection::vec(block_plan(5), 3..40), prop::collection::vec(var, 3..5)).prop_map(|(confirmations, blocks, variants)| Many { confirmations, blocks, variants })
    };
    k.section("variants", k.n(1500, 30000), 8, strategy, |m: &Many, info| {
        let sim = chain(&m.blocks, m.confirmations as usize);
        let c = m.confirmations as usize;
        let x = spends(&sim, sim.active.len() + 1 - c).1;
        let raws = active_raws(&sim);
        let mut w: Option<World> = None;
        let mut first: Option<Vec<BTreeMap<OutPoint, u64>>> = None;
        let mut sim = Some(sim);
        for (i, (threads, batch, layout)) in m.variants.iter().enumerate() {
            let conf = Conf { threads: *threads, batch: *batch, confirmations: m.confirmations };
            let scratch = Scratch::new();
            write_layout(&scratch.blocks(), &raws, layout);
            let s = match w.take() {
                Some(old) => old.node.with(|n| std::mem::take(&mut n.sim)),
                None => sim.take().unwrap(),
            };
            let mut v = World::with_files(scratch, s, &conf)?;
            v.start()?;
            let addrs = v.addrs.clone();
            let got = v.ix().utxos(&addrs, c)?;
            match &first {
                None => first = Some(got),
                Some(f) => {
                    for ((a, x), y) in addrs.iter().zip(f).zip(&got) {
                        if x != y {
                            return bad(format!(
                                "configurations {:?} and {:?} give different indexes: {}",
                                (m.variants[0].0, m.variants[0].1),
                                (threads, batch),
                                diff(a, c, x, y)
                            ));
                        }
                    }
                }
            }
            v.compare([c]).map_err(|e| match e {
                Fail::Violation(s) => Fail::Violation(format!("configuration {} (threads {}, batch {}): {}", i, threads, batch, s)),
                e => e,
            })?;
            w = Some(v);
        }
        let confs: BTreeSet<_> = m.variants.iter().map(|v| (v.0, v.1)).collect();
        info.nontrivial = confs.len() > 1 && x > 0;
        for (t, b, _) in &m.variants {
            info.label(if *t == 1 { "sequential build" } else if *b < 5 { "parallel build, small batches" } else { "parallel build" });
        }
        Ok(())
    });
    huge(k, k.n(4, 80), 4);
    large_files(k, k.n(30, 500));
    again(k, k.n(200, 4000));
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tree {
    conf: Conf,
    main: Vec<BlockPlan>,
    /// (fork point, blocks): branches off the tree built so far
    forks: Vec<(u16, Vec<BlockPlan>)>,
    /// orphan chains: (salt, length, root choice)
    orphans: Vec<(u8, u8)>,
    /// (record, extra copies)
    dups: Vec<(u16, u8)>,
    layout: Layout,
}

pub fn c03(k: &Check) {
    k.rule("non-trivial if the files hold at least one record that is not on the longest chain or is stored more than once, or padding, or records out of chain order");
    k.assume("the longest chain is unique (two longest chains of equal length are a tie the statement excludes)");
    let strategy = || {
        (
            conf(),
            prop::collection::vec(block_plan(2), 0..16),
            prop::collection::vec((any::<u16>(), prop::collection::vec(block_plan(2), 1..8)), 0..5),
            prop::collection::vec((any::<u8>(), 1u8..30), 0..3),
            prop_oneof![2 => Just(vec![]), 2 => prop::collection::vec((any::<u16>(), 1u8..4), 1..6), 1 => prop::collection::vec((any::<u16>(), 1u8..3), 30..60)],
            layout(),
        )
            .prop_map(|(conf, main, forks, orphans, dups, layout)| Tree { conf, main, forks, orphans, dups, layout })
    };
    k.section("trees", k.n(5000, 120000), 8, strategy, |t: &Tree, info| {
        let c = t.conf.confirmations as usize;
        let mut sim = chain(&t.main, c);
        for (at, plans) in &t.forks {
            let mut tip = *at as usize % sim.blocks.len();
            for p in plans {
                tip = sim.make_block(Some(tip), p);
            }
        }
        // the unique longest chain
        let top = sim.blocks.iter().map(|b| b.height).max().unwrap();
        let tops: Vec<usize> = (0..sim.blocks.len()).filter(|i| sim.blocks[*i].height == top).collect();
        let mut tip = tops[0];
        if tops.len() > 1 {
            tip = tops[t.main.len() % tops.len()];
            tip = sim.make_block(Some(tip), &empty_block());
        }
        sim.activate(tip);
        sim.mempool.clear();
        let on_chain: BTreeSet<usize> = sim.active.iter().copied().collect();
        let mut raws: Vec<Vec<u8>> = active_raws(&sim);
        let stale = sim.blocks.len() - on_chain.len();
        for (i, b) in sim.blocks.iter().enumerate() {
            if !on_chain.contains(&i) {
                raws.push((*b.raw).clone());
            }
        }
        for (salt, len) in &t.orphans {
            // a chain whose root's parent is nowhere in the files
            let mut prev = sha256d(&[*salt]);
            for n in 0..*len {
                let cb = TxRec::new(Tx {
                    version: 1,
                    inputs: vec![TxIn { prev: COINBASE, script: vec![*salt, n], sequence: 0, witness: vec![] }],
                    outputs: vec![TxOut { value: 7, script: Addr::Pkh(pool_hash(n as usize)).script() }],
                    locktime: 0,
                    segwit: false,
                });
                let h = header(1, &prev, &cb.txid, *salt as u32, 1, n as u32);
                raws.push(block_raw(&h, &[cb.raw.clone()]));
                prev = sha256d(&h);
            }
        }
        let distinct = raws.len();
        for (r, n) in &t.dups {
            for _ in 0..*n {
                raws.push(raws[*r as usize % distinct].clone());
            }
        }
        let scratch = Scratch::new();
        write_layout(&scratch.blocks(), &raws, &t.layout);
        let mut w = World::with_files(scratch, sim, &t.conf)?;
        w.start()?;
        w.compare([c])?;
        w.sync()?;
        w.compare([c])?;
        info.nontrivial = stale > 0 || !t.orphans.is_empty() || !t.dups.is_empty() || !t.layout.order.is_empty() || t.layout.pad.iter().any(|p| *p > 0);
        if stale > 0 {
            info.label("stale forks");
        }
        if !t.orphans.is_empty() {
            info.label("orphans");
        }
        if t.orphans.iter().any(|o| o.1 as usize > top + 1) {
            info.label("orphan chain longer than the chain");
        }
        if !t.dups.is_empty() {
            info.label("duplicated records");
        }
        if t.layout.pad.iter().any(|p| *p > 0 && *p < 88) {
            info.label("padding shorter than a header");
        }
        if !t.layout.hollow.is_empty() {
            info.label("block files without a record");
        }
        if t.layout.foreign {
            info.label("foreign files");
        }
        if !t.layout.order.is_empty() {
            info.label("records out of order");
        }
        Ok(())
    });
    large_files(k, k.n(60, 1200));
    crowds(k, k.n(250, 5000));
    many_files(k, k.n(10, 200));
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shelf {
    conf: Conf,
    files: u16,
    /// blocks of the files
    blocks: Vec<BlockPlan>,
    layout: Layout,
}

/// Thousands of block files, with no more open files allowed than usual.
fn many_files(k: &Check, n: u32) {
    let strategy = || {
        (conf(), prop_oneof![3 => 1030u16..1500, 1 => 1500u16..4500], prop::collection::vec(block_plan(1), 1..12), layout()).prop_map(|(conf, files, blocks, layout)| Shelf { conf, files, blocks, layout })
    };
    k.section("many files", n, 4, strategy, |v: &Shelf, info| {
        let c = v.conf.confirmations as usize;
        let mut sim = Sim::default();
        sim.mine(&empty_block());
        for i in 1..v.files {
            sim.mine(if i % 97 < v.blocks.len() as u16 { &v.blocks[(i % 97) as usize] } else { &v.blocks[0] });
        }
        let scratch = Scratch::new();
        let layout = Layout { per_file: vec![1], pad: v.layout.pad.iter().map(|p| p % 200).collect(), step: v.layout.step.min(20), ..v.layout.clone() };
        write_layout(&scratch.blocks(), &active_raws(&sim), &layout);
        let mut w = World::with_files(scratch, sim, &v.conf)?;
        w.launch.files = Some(1024);
        w.start()?;
        w.compare([c])?;
        w.sync()?;
        w.compare([0, c])?;
        info.label(if v.files >= 2000 { "2000 files or more" } else { "1000 files or more" });
        info.nontrivial = true;
        Ok(())
    });
}

fn has(h: &History, f: &dyn Fn(&Op) -> bool) -> bool {
    h.ops.iter().any(|o| f(o) || matches!(o, Op::Restart { offline } if offline.iter().any(|o| f(o))))
}

pub fn c04(k: &Check) {
    k.rule("non-trivial if at least 2 operations added blocks and the answers were compared at least twice");
    let levels = |c: usize| (1..=c).collect::<Vec<_>>();
    let w = Weights { mine: 6, reorg: 0, back: 0, mem: 0, sync: 5, restart: 0 };
    k.section("arrivals", k.n(1300, 30000), 8, || history(w, 12, 14), |h: &History, info| {
        run_history(h, info, &levels)?;
        let m = h.ops.iter().filter(|o| matches!(o, Op::Mine(_))).count();
        let s = h.ops.iter().filter(|o| matches!(o, Op::Sync)).count();
        info.nontrivial = m >= 2 && s >= 1;
        info.label(format!("confirmations {}", h.conf.confirmations));
        Ok(())
    });
    // long runs: many single-block updates, compared now and then
    let long = || {
        (conf(), prop::collection::vec(block_plan(2), 40..90), 1u8..9).prop_map(|(conf, blocks, every)| {
            let mut ops = Vec::new();
            for (i, b) in blocks.into_iter().enumerate() {
                ops.push(Op::Mine(vec![b]));
                if i % every as usize == 0 {
                    ops.push(Op::Sync);
                }
            }
            History { conf, initial: vec![], layout: plain_layout(), ops }
        })
    };
    k.section("long", k.n(130, 3000), 8, long, |h: &History, info| {
        run_history(h, info, &levels)?;
        info.nontrivial = true;
        Ok(())
    });
    save_held(k, k.n(150, 3000), w, &levels);
    mid_poll(k, k.n(250, 5000), w, &levels);
    tall(k, k.n(120, 2500), k.n(2, 40), false);
    huge(k, k.n(4, 80), 1);
    bursts(k, k.n(120, 2500), false);
    many_levels(k, k.n(32, 600), &[0, 0, 2]);
}

pub fn c05(k: &Check) {
    k.rule("non-trivial if at least one reorganisation took place");
    k.assume("reorganisations replace at most CONFIRMATIONS-1 blocks and end on a strictly longer branch");
    let levels = |c: usize| (1..=c).collect::<Vec<_>>();
    let w = Weights { mine: 3, reorg: 5, back: 3, mem: 0, sync: 5, restart: 1 };
    let s = move || {
        history(w, 10, 14).prop_map(|mut h| {
            h.conf.confirmations = h.conf.confirmations.max(2);
            h
        })
    };
    k.section("reorganisations", k.n(1700, 40000), 8, s, |h: &History, info| {
        run_history(h, info, &levels)?;
        info.nontrivial = info.labels.iter().any(|l| l.contains("reorg"));
        Ok(())
    });
    let wm = Weights { mine: 3, reorg: 4, back: 2, mem: 2, sync: 5, restart: 1 };
    let s = move || history(wm, 8, 14);
    k.section("with mempool", k.n(500, 12000), 8, s, |h: &History, info| {
        run_history(h, info, &levels)?;
        info.nontrivial = info.labels.iter().any(|l| l.contains("reorg"));
        Ok(())
    });
    save_held(k, k.n(150, 3000), w, &levels);
    mid_poll(k, k.n(250, 5000), wm, &levels);
    many_levels(k, k.n(32, 600), &[1, 1, 1, 0, 2]);
}

pub fn c06(k: &Check) {
    k.rule("non-trivial if the mempool held at least one transaction at a comparison");
    let levels = |c: usize| if c > 1 { vec![0, 1] } else { vec![0] };
    let w = Weights { mine: 4, reorg: 2, back: 1, mem: 4, sync: 12, restart: 1 };
    k.section("mempool", k.n(1900, 40000), 8, || history(w, 8, 18), |h: &History, info| {
        run_history(h, info, &levels)?;
        info.nontrivial = has(h, &|o| matches!(o, Op::MemAdd(_))) && info.labels.iter().any(|l| l.contains("mem_add"));
        Ok(())
    });
    // listing order is the node's business: dependent transactions listed before their parents, conflicts listed together
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Order {
        conf: Conf,
        initial: Vec<BlockPlan>,
        rounds: Vec<(Vec<TxPlan>, Vec<u16>, Vec<u8>)>,
    }
    let s = || {
        (
            conf(),
            prop::collection::vec(block_plan(3), 2..8),
            prop::collection::vec((prop::collection::vec(tx_plan(), 1..7), prop::collection::vec(any::<u16>(), 1..8), prop::collection::vec(0u8..4, 1..8)), 1..5),
        )
            .prop_map(|(conf, initial, rounds)| Order { conf, initial, rounds })
    };
    k.section("listing order", k.n(1100, 25000), 8, s, |o: &Order, info| {
        let mut w = World::new(chain(&o.initial, o.conf.confirmations as usize), &o.conf, &plain_layout())?;
        w.start()?;
        for (plans, order, how) in &o.rounds {
            w.node.with(|n| {
                let sim = &mut n.sim;
                let base = (*sim.blocks[sim.tip()].utxo).clone();
                let mut view = base.clone();
                let mut list: Vec<MemTx> = Vec::new();
                for (i, p) in plans.iter().enumerate() {
                    // build on the chain, on the transactions listed so far, or in conflict with them
                    let src = match how[i % how.len()] {
                        0 => base.clone(),
                        _ => view.clone(),
                    };
                    if let Some(t) = sim.make_tx(&src, p) {
                        if t.applicable(&view) {
                            t.apply(&mut view);
                        }
                        list.push(MemTx { rec: t, missing: how[i % how.len()] == 3 });
                    }
                }
                let mut idx: Vec<usize> = (0..list.len()).collect();
                idx.sort_by_key(|i| order[*i % order.len()]);
                sim.mempool = idx.iter().map(|i| list[*i].clone()).collect();
            });
            w.sync()?;
            w.compare([0])?;
            let skipped = w.node.lock().sim.mempool.len();
            info.nontrivial |= skipped > 0;
            info.label("comparison");
        }
        Ok(())
    });
    save_held(k, k.n(120, 2500), w, &levels);
    mid_poll(k, k.n(400, 9000), w, &levels);
    huge(k, k.n(4, 80), 2);
    backlog(k, k.n(40, 800));
}

pub fn c07(k: &Check) {
    k.rule("non-trivial if the indexer was restarted from its saved index at least once");
    let levels = |c: usize| (0..=c).collect::<Vec<_>>();
    let w = Weights { mine: 4, reorg: 2, back: 1, mem: 1, sync: 3, restart: 7 };
    let s = move || {
        history(w, 10, 12).prop_map(|mut h| {
            if !h.ops.iter().any(|o| matches!(o, Op::Restart { .. })) {
                h.ops.push(Op::Restart { offline: vec![] });
            }
            h
        })
    };
    k.section("restarts", k.n(1000, 22000), 8, s, |h: &History, info| {
        run_history(h, info, &levels)?;
        info.nontrivial = true;
        Ok(())
    });
    // the saved index alone: block files gone, other threads and batch size, final state compared at every level
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Saved {
        h: History,
        threads: u8,
        batch: u16,
        reorg: Option<(u8, Vec<BlockPlan>)>,
        wait: u8,
    }
    let s = move || {
        (history(Weights { restart: 0, ..w }, 10, 10), 1u8..5, 1u16..9, proptest::option::of((0u8..3, prop::collection::vec(block_plan(2), 0..4))), 0u8..30).prop_map(
            |(h, threads, batch, reorg, wait)| Saved { h, threads, batch, reorg, wait },
        )
    };
    k.section("saved index alone", k.n(900, 18000), 8, s, |x: &Saved, info| {
        let mut w = run_history(&x.h, info, &|_| vec![])?;
        // let a save happen, or not
        std::thread::sleep(Duration::from_millis(x.wait as u64));
        w.stop();
        std::fs::remove_dir_all(w.scratch.blocks()).ok();
        std::fs::create_dir_all(w.scratch.blocks()).ok();
        w.launch = w.launch.clone().set("THREADS", x.threads).set("BATCH_SIZE", x.batch);
        if let Some((extra, blocks)) = &x.reorg {
            // the deepest allowed reorganisation
            let c = w.c();
            if c > 1 {
                w.apply(&Op::Reorg { depth: (c - 2) as u8, extra: *extra, blocks: blocks.clone() });
                info.label("deepest reorganisation while down");
            }
        }
        w.start()?;
        w.sync()?;
        w.compare(levels(w.c()))?;
        info.nontrivial = true;
        Ok(())
    });
    save_held(k, k.n(150, 3000), w, &levels);
    tall(k, k.n(120, 2500), k.n(4, 60), true);
    bursts(k, k.n(100, 2000), true);
    huge(k, k.n(4, 80), 3);
}
