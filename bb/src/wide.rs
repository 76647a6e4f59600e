//! The parts of C11, C12, C17, C19 and C20 that are judged on the running program; the in-process harness adds its own.
use crate::run::*;
use common::shape::*;
use common::texts::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shapes {
    conf: Conf,
    blocks: Vec<Vec<TxShape>>,
    mempool: Vec<TxShape>,
    late: Vec<Vec<TxShape>>,
}

fn shaped(sim: &mut Sim, utxo: &Utxo, s: &TxShape) -> Option<std::sync::Arc<TxRec>> {
    let keys: Vec<OutPoint> = utxo.keys().copied().collect();
    let n = (s.ins.len() + s.more_ins as usize).min(keys.len());
    if n == 0 {
        return None;
    }
    let at = s.salt as usize % keys.len();
    let prevs: Vec<OutPoint> = (0..n).map(|i| keys[(at + i) % keys.len()]).collect();
    let total: u64 = prevs.iter().map(|p| utxo[p].0).sum();
    let outs = s.outs.len() as u64 + s.more_outs as u64;
    let unit = total / (outs + 1);
    let _ = sim;
    Some(TxRec::new(s.build(Some(&prevs), |_, v| if unit == 0 { 0 } else { v % unit })))
}

fn shaped_block(sim: &mut Sim, shapes: &[TxShape]) -> Vec<Tx> {
    let mut txs = Vec::new();
    let tip = sim.tip();
    // an ordinary block with a fan-out to spend from, then the shaped transactions in a block of their own
    let plan = BlockPlan {
        coinbase: vec![OutPlan { kind: 0, addr: 1, w: 3 }, OutPlan { kind: 4, addr: 2, w: 9 }],
        value: 1,
        take: 0,
        txs: vec![TxPlan { ins: vec![7], outs: vec![OutPlan { kind: 0, addr: 5, w: 2 }], segwit: false, len: 2, bulk: 300 }],
    };
    let b = sim.make_block(Some(tip), &plan);
    sim.activate(b);
    let base = sim.blocks[b].clone();
    let mut utxo = (*base.utxo).clone();
    sim.counter += 1;
    let cb = TxRec::new(Tx {
        version: 1,
        inputs: vec![TxIn { prev: COINBASE, script: sim.counter.to_le_bytes().to_vec(), sequence: 0, witness: vec![] }],
        outputs: vec![],
        locktime: 0,
        segwit: false,
    });
    let mut recs = vec![cb];
    for s in shapes {
        if let Some(t) = shaped(sim, &utxo, s) {
            t.apply(&mut utxo);
            txs.push(t.tx.clone());
            recs.push(t);
        }
    }
    let b = sim.add_block(base.hash, base.height + 1, recs, utxo);
    sim.activate(b);
    txs
}

pub fn c11(k: &Check) {
    k.rule("served: at least one transaction with a count or length of 253 or more, or in witness encoding, is part of the chain");
    k.assume("transactions have at least one input (a legacy encoding without inputs is ambiguous in Bitcoin itself)");
    let s = || {
        let tx = || tx_shape(6);
        (conf(), prop::collection::vec(prop::collection::vec(tx(), 1..6), 1..4), prop::collection::vec(tx(), 0..4), prop::collection::vec(prop::collection::vec(tx(), 1..4), 0..3))
            .prop_map(|(conf, blocks, mempool, late)| Shapes { conf, blocks, mempool, late })
    };
    k.section("served", k.n(1500, 30000), 8, s, |v: &Shapes, info| {
        let c = v.conf.confirmations as usize;
        let mut sim = chain(&[], c);
        let mut txs = Vec::new();
        for b in &v.blocks {
            txs.extend(shaped_block(&mut sim, b));
        }
        for _ in 0..c {
            sim.mine(&empty_block());
        }
        let mut w = World::new(sim, &v.conf, &plain_layout())?;
        w.start()?;
        w.compare([c])?;
        w.node.with(|n| {
            let mut view = n.sim.mempool_full();
            for s in &v.mempool {
                if let Some(t) = shaped(&mut n.sim, &view, s) {
                    t.apply(&mut view);
                    txs.push(t.tx.clone());
                    n.sim.mempool.push(MemTx { rec: t, missing: false });
                }
            }
        });
        w.sync()?;
        w.compare([0])?;
        w.node.with(|n| {
            for b in &v.late {
                txs.extend(shaped_block(&mut n.sim, b));
            }
            n.sim.revalidate();
        });
        w.sync()?;
        w.compare([0, 1, c])?;
        let l: BTreeSet<&str> = txs.iter().flat_map(label).collect();
        info.nontrivial = l.iter().any(|x| x.contains("more") || x.contains("witness"));
        for x in l {
            info.label(x);
        }
        Ok(())
    });
    crate::chain::huge(k, k.n(4, 60), 0);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scripts {
    plans: Vec<ScriptPlan>,
    threads: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Texts {
    plans: Vec<TextPlan>,
}

pub fn c12(k: &Check) {
    k.rule("scripts served: the chain holds both a standard script and one that is a few bytes away from it | texts served: at least one valid and one invalid address text");
    let s = || (prop::collection::vec(script_plan(), 1..60), 1u8..4).prop_map(|(plans, threads)| Scripts { plans, threads });
    k.section("scripts served", k.n(1200, 25000), 8, s, |v: &Scripts, info| {
        let mut sim = chain(&[], 2);
        let mut addrs = BTreeSet::new();
        let mut outputs = Vec::new();
        for (i, p) in v.plans.iter().enumerate() {
            let script = p.script();
            for o in [2usize, 3] {
                if let Some(h) = script.get(o..o + 20) {
                    let h: [u8; 20] = h.try_into().unwrap();
                    addrs.insert(Addr::Pkh(h));
                    addrs.insert(Addr::Sh(h));
                }
            }
            addrs.insert(Addr::Pkh(p.hash));
            addrs.insert(Addr::Sh(p.hash));
            outputs.push(TxOut { value: i as u64 + 1, script });
        }
        let std = outputs.iter().filter(|o| Addr::of_script(&o.script).is_some()).count();
        info.nontrivial = std > 0 && std < outputs.len();
        let tip = sim.tip();
        let base = sim.blocks[tip].clone();
        let mut utxo = (*base.utxo).clone();
        let cb = TxRec::new(Tx { version: 1, inputs: vec![TxIn { prev: COINBASE, script: vec![1, 2, 3], sequence: 0, witness: vec![] }], outputs, locktime: 0, segwit: false });
        cb.apply(&mut utxo);
        let b = sim.add_block(base.hash, base.height + 1, vec![cb], utxo);
        sim.activate(b);
        sim.mine(&empty_block());
        let conf = Conf { threads: v.threads, batch: 1, confirmations: 2 };
        let mut w = World::new(sim, &conf, &plain_layout())?;
        w.addrs = addrs.into_iter().collect();
        w.start()?;
        w.compare([2, 0])?;
        Ok(())
    });
    let s = || prop::collection::vec(text_plan(), 1..80).prop_map(|plans| Texts { plans });
    k.section("texts served", k.n(800, 15000), 8, s, |v: &Texts, info| {
        let conf = Conf { threads: 1, batch: 1, confirmations: 1 };
        let mut w = World::new(chain(&[], 1), &conf, &plain_layout())?;
        w.start()?;
        let (mut good, mut wrong) = (0, 0);
        for p in &v.plans {
            let t = p.text();
            let valid = Addr::of_text(t.as_bytes()).is_some();
            *(if valid { &mut good } else { &mut wrong }) += 1;
            for kind in ["balance", "utxos"] {
                let r = w.ix().request("POST", &format!("/addresses/{}", kind), Some(&serde_json::to_vec(&[&t]).unwrap()))?;
                let want = if valid { 200 } else { 400 };
                if r.status != want {
                    return bad(format!("POST {} of the text {:?} ({}) answered {}: {}", kind, t, if valid { "a valid address" } else { "not an address" }, r.status, r.text()));
                }
                if valid {
                    let x: serde_json::Value = serde_json::from_slice(&r.body).unwrap_or_default();
                    if x[0]["address"].as_str() != Some(&t) {
                        return bad(format!("asked for {}, answered {}", t, r.text()));
                    }
                }
            }
            if !t.is_empty() && t.bytes().all(|c| c.is_ascii_alphanumeric()) {
                let r = w.ix().get(&format!("/addresses/{}/balance", t))?;
                if r.status != if valid { 200 } else { 400 } {
                    return bad(format!("GET of the text {:?} ({}) answered {}: {}", t, if valid { "a valid address" } else { "not an address" }, r.status, r.text()));
                }
            }
        }
        info.nontrivial = good > 0 && wrong > 0;
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Words {
    user: String,
    password: String,
    hashes: Vec<[u8; 20]>,
}

pub fn c17(k: &Check) {
    k.rule("credentials and addresses: non-empty credentials were sent in Base64 and at least one address echoed");
    let s = || (".{0,24}", ".{0,40}", prop::collection::vec(bytes20(), 1..30)).prop_map(|(user, password, hashes)| Words { user: user.replace('\0', "x"), password: password.replace('\0', "x"), hashes });
    k.section("credentials and addresses", k.n(800, 15000), 8, s, |v: &Words, info| {
        let conf = Conf { threads: 1, batch: 1, confirmations: 1 };
        let mut w = World::new(chain(&[], 1), &conf, &plain_layout())?;
        w.node.with(|n| {
            n.user = v.user.clone();
            n.pass = v.password.clone();
        });
        w.launch = w.launch.clone().set("RPC_SERVER_USER", &v.user).set("RPC_SERVER_PASSWORD", &v.password);
        w.start()?;
        w.sync()?;
        let addrs: Vec<Addr> = v.hashes.iter().flat_map(|h| [Addr::Pkh(*h), Addr::Sh(*h)]).collect();
        w.ix().balances(&addrs, 0)?;
        w.ix().utxos(&addrs, 0)?;
        info.nontrivial = !v.user.is_empty() && !v.password.is_empty();
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ordered {
    threads: u8,
    batch: u16,
    confirmations: u8,
    blocks: Vec<BlockPlan>,
    sizes: Vec<u8>,
    per_file: Vec<u8>,
}

pub fn c19(k: &Check) {
    k.rule("parallel build: at least three batches, of blocks of very different cost, went through two or more threads");
    let s = || {
        (2u8..17, prop_oneof![1u16..4, 4u16..20], 1u8..4, prop::collection::vec(block_plan(2), 3..20), prop::collection::vec(any::<u8>(), 20..200), prop::collection::vec(1u8..6, 1..5))
            .prop_map(|(threads, batch, confirmations, blocks, sizes, per_file)| Ordered { threads, batch, confirmations, blocks, sizes, per_file })
    };
    k.section("parallel build", k.n(300, 6000), 4, s, |v: &Ordered, info| {
        // blocks of very different cost, so that the workers finish out of order
        let mut plans = v.blocks.clone();
        for (i, s) in v.sizes.iter().enumerate() {
            let bulk = if *s < 20 { 400 } else { (*s % 3) as u16 };
            plans.push(BlockPlan {
                coinbase: vec![OutPlan { kind: s % 6, addr: i as u8 % 8, w: 1 }],
                value: *s,
                take: 0,
                txs: if *s % 2 == 0 { vec![TxPlan { ins: vec![*s as u16, i as u16], outs: vec![OutPlan { kind: 0, addr: *s % 8, w: 1 }], segwit: s % 4 == 0, len: 1, bulk }] } else { vec![] },
            });
        }
        let sim = chain(&plans, v.confirmations as usize);
        let n = sim.active.len() + 1 - v.confirmations as usize;
        let conf = Conf { threads: v.threads, batch: v.batch, confirmations: v.confirmations };
        let layout = Layout { per_file: v.per_file.clone(), ..plain_layout() };
        let mut w = World::new(sim, &conf, &layout)?;
        w.start()?;
        let c = w.c();
        w.compare([c])?;
        info.nontrivial = n > 2 * v.batch as usize;
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Refuse {
    conf: Conf,
    blocks: Vec<BlockPlan>,
    /// where the bad block goes (from the start), and what it does wrong
    at: u16,
    how: u8,
    sel: u16,
    /// 0: in the files; 1: announced by the node while running; 2: announced by the node when the program comes back with its
    /// saved index
    via: u8,
    on_top: u8,
}

pub fn c20(k: &Check) {
    k.rule("colliding addresses: addresses that differ only outside the hashed bytes or only in type hold outputs at the same time and some are spent | refused spends: the chain held a block spending an output that does not exist");
    k.assume("no two transactions have the same id");
    let w = Weights { mine: 6, reorg: 2, back: 1, mem: 3, sync: 4, restart: 3 };
    k.section("colliding addresses", k.n(800, 15000), 8, || history(w, 14, 10), |h: &History, info| {
        // all outputs go to four addresses that share the bytes the index hashes
        let mut h = h.clone();
        let fix = |o: &mut OutPlan| {
            o.addr = 2 + o.addr % 2;
            o.kind %= 6;
        };
        fn blocks(b: &mut [BlockPlan], f: &impl Fn(&mut OutPlan)) {
            for b in b {
                b.coinbase.iter_mut().for_each(f);
                txs(&mut b.txs, f);
            }
        }
        fn txs(t: &mut [TxPlan], f: &impl Fn(&mut OutPlan)) {
            for t in t {
                t.outs.iter_mut().for_each(f);
            }
        }
        fn ops(o: &mut [Op], f: &impl Fn(&mut OutPlan)) {
            for o in o {
                match o {
                    Op::Mine(b) | Op::Reorg { blocks: b, .. } | Op::ReorgBack { blocks: b, .. } => blocks(b, f),
                    Op::MemAdd(t) | Op::MemGhost(t) => txs(t, f),
                    Op::MemReplace(_, t) => t.outs.iter_mut().for_each(f),
                    Op::Restart { offline } => ops(offline, f),
                    _ => {}
                }
            }
        }
        blocks(&mut h.initial, &fix);
        ops(&mut h.ops, &fix);
        let w = run_history(&h, info, &|c| (0..=c).collect())?;
        let g = w.node.lock();
        info.nontrivial = by_address(&g.sim.blocks[g.sim.tip()].utxo).len() >= 3 && g.sim.blocks.iter().any(|b| b.txs.iter().any(|t| !t.spends.is_empty()));
        Ok(())
    });
    let s = || {
        (conf(), prop::collection::vec(block_plan(4), 2..14), any::<u16>(), 0u8..6, any::<u16>(), 0u8..3, 0u8..8)
            .prop_map(|(conf, blocks, at, how, sel, via, on_top)| Refuse { conf, blocks, at, how, sel, via, on_top })
    };
    k.section("refused spends", k.n(1200, 20000), 8, s, |v: &Refuse, info| {
        let c = v.conf.confirmations as usize;
        let mut sim = chain(&v.blocks, c);
        let at = if v.via > 0 { sim.height() } else { v.at as usize % sim.active.len() };
        sim.activate(sim.active[at]);
        sim.mempool.clear();
        let before = sim.blocks[sim.tip()].clone();
        let mut utxo = (*before.utxo).clone();
        let pick = |u: &Utxo, s: u16| *u.keys().nth(s as usize % u.len()).unwrap();
        sim.counter += 1;
        let cb = TxRec::new(Tx {
            version: 1,
            inputs: vec![TxIn { prev: COINBASE, script: sim.counter.to_le_bytes().to_vec(), sequence: 0, witness: vec![] }],
            outputs: vec![TxOut { value: 5, script: Addr::Pkh(pool_hash(3)).script() }],
            locktime: 0,
            segwit: false,
        });
        cb.apply(&mut utxo);
        let tx = |prevs: &[OutPoint], salt: u32| {
            TxRec::new(Tx {
                version: 2,
                inputs: prevs.iter().map(|p| TxIn { prev: *p, script: vec![1], sequence: 0, witness: vec![] }).collect(),
                outputs: vec![TxOut { value: 1, script: Addr::Sh(pool_hash(3)).script() }],
                locktime: salt,
                segwit: false,
            })
        };
        let real = pick(&utxo, v.sel);
        let mut txs = vec![cb.clone()];
        let spent: Vec<OutPoint> = sim.active.iter().flat_map(|i| sim.blocks[*i].txs.iter().flat_map(|t| t.spends.clone())).collect();
        let how = match v.how {
            0 => {
                // no such transaction
                txs.push(tx(&[OutPoint { txid: sha256d(&v.sel.to_le_bytes()), vout: v.sel as u32 % 3 }], 1));
                "unknown transaction"
            }
            1 => {
                // no such output of a known transaction
                txs.push(tx(&[real, OutPoint { txid: real.txid, vout: 5000 + v.sel as u32 }], 1));
                "unknown index"
            }
            2 => {
                txs.push(tx(&[real], 1));
                txs.push(tx(&[real], 2));
                "spent twice in the block"
            }
            3 if !spent.is_empty() => {
                txs.push(tx(&[spent[v.sel as usize % spent.len()]], 1));
                "spent in an earlier block"
            }
            4 => {
                // created only afterwards
                let later = tx(&[real], 9);
                let first = tx(&[OutPoint { txid: later.txid, vout: 0 }], 1);
                txs.push(first);
                txs.push(later);
                "created later in the block"
            }
            _ => {
                // right transaction, all bits of the index but one
                txs.push(tx(&[OutPoint { txid: real.txid, vout: real.vout ^ (1 << (16 + v.sel % 16)) }], 1));
                "high index bit"
            }
        };
        info.label(how);
        info.label(["in the block files", "announced by the node", "announced by the node after a restart"][v.via as usize]);
        let conf = v.conf.clone();
        let good = sim.tip();
        let badb = sim.add_block(before.hash, before.height + 1, txs, utxo);
        // enough blocks on top to make it final
        let mut tip = badb;
        let on_top = v.on_top as usize + if v.via > 0 { 0 } else { c };
        for i in 0..on_top {
            let b = sim.blocks[tip].clone();
            let x = TxRec::new(Tx {
                version: 1,
                inputs: vec![TxIn { prev: COINBASE, script: vec![9, i as u8], sequence: 0, witness: vec![] }],
                outputs: vec![],
                locktime: i as u32,
                segwit: false,
            });
            tip = sim.add_block(b.hash, b.height + 1, vec![x], (*b.utxo).clone());
        }
        info.nontrivial = true;
        if v.via > 0 {
            let mut w = World::new(sim, &conf, &plain_layout())?;
            w.start()?;
            let _ = good;
            if v.via == 2 {
                w.stop();
                std::fs::remove_dir_all(w.scratch.blocks()).ok();
                std::fs::create_dir_all(w.scratch.blocks()).ok();
            }
            w.node.with(|n| n.sim.activate(tip));
            if v.via == 2 {
                w.spawn()?;
            }
            match w.ix().wait_exit(LIMIT) {
                Some(s) if !s.success() => Ok(()),
                Some(_) => bad(format!("{}: ended with success", how)),
                None => bad(format!("the node announced a block with a spend that cannot be applied ({}), and the indexer went on", how)),
            }
        } else {
            sim.activate(tip);
            let mut w = World::new(sim, &conf, &plain_layout())?;
            w.spawn()?;
            match w.ix().wait_exit(LIMIT) {
                Some(s) if !s.success() => {}
                Some(_) => return bad(format!("{}: ended with success", how)),
                None => return bad(format!("the block files hold a block with a spend that cannot be applied ({}), and the indexer went on", how)),
            }
            if w.scratch.store().exists() {
                return bad(format!("an index was saved although a spend could not be applied ({})", how));
            }
            Ok(())
        }
    });
    crate::chain::huge(k, k.n(8, 150), 2);
}
