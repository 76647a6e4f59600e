//! C27 (a damaged or foreign saved index is refused), C28 (the saved index serves every configuration), C29 (the form of the saved index).
use crate::run::*;

/// Starts the program; true if it runs, false if it has ended with a failure status before it listened.
pub(crate) fn refused(w: &mut World, what: &str) -> R<bool> {
    w.spawn()?;
    let addr = w.ix().addr;
    let end = Instant::now() + LIMIT;
    loop {
        if let Some(s) = w.ix().exited() {
            if s.success() {
                return bad(format!("{}: the program ends as if all was well", what));
            }
            w.stop();
            return Ok(true);
        }
        if std::net::TcpStream::connect_timeout(&addr, Duration::from_millis(500)).is_ok() {
            return Ok(false);
        }
        if Instant::now() > end {
            return Err(Fail::Stall(format!("{}: the program neither listens nor ends", what)));
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Damaged {
    conf: Conf,
    initial: Vec<BlockPlan>,
    ops: Vec<Op>,
    /// where the saved index is cut (counted from the end, or in 65536ths)
    cuts: Vec<(bool, u16)>,
    all: bool,
    /// other contents: (kind, length, seed)
    other: Vec<(u8, u16, u8)>,
    /// another chain
    foreign: Vec<BlockPlan>,
    longer: u8,
    common: u8,
}

pub fn c27(k: &Check) {
    k.rule("a case is a saved index that is cut at several or all lengths, replaced by other contents, or met by a node with another, longer chain; non-trivial if it was cut within the recorded outputs and within the recorded blocks");
    k.assume("the node's other chain is longer than what the saved index holds");
    let w = Weights { mine: 5, reorg: 1, back: 0, mem: 1, sync: 0, restart: 0 };
    let s = move || {
        (
            (conf(), prop::collection::vec(block_plan(3), 1..6), prop::collection::vec(op(w), 0..4)),
            prop::collection::vec((any::<bool>(), any::<u16>()), 6..20),
            prop_oneof![12 => Just(false), 1 => Just(true)],
            prop::collection::vec((0u8..5, any::<u16>(), any::<u8>()), 1..4),
            prop::collection::vec(block_plan(2), 1..4),
            0u8..4,
            any::<u8>(),
        )
            .prop_map(|((conf, initial, ops), cuts, all, other, foreign, longer, common)| Damaged { conf, initial, ops, cuts, all, other, foreign, longer, common })
    };
    k.section("refused", k.n(250, 5000), 8, s, |v: &Damaged, info| {
        let c = v.conf.confirmations as usize;
        let mut w = World::new(chain(&v.initial, c), &v.conf, &plain_layout())?;
        let ctl = Ctl::new(&w.scratch.0);
        w.launch.ctl = Some(ctl.path.clone());
        w.start()?;
        for o in &v.ops {
            w.apply(o);
            w.sync()?;
        }
        if !crate::keep::settle(&ctl, Duration::from_millis(40)) {
            return Err(Fail::Stall("the save never ends".into()));
        }
        w.stop();
        w.launch.ctl = None;
        let path = w.scratch.store();
        let whole = std::fs::read(&path).map_err(|e| Fail::Violation(format!("no saved index: {}", e)))?;
        let n = whole.len();
        let mut cuts: Vec<usize> = v.cuts.iter().map(|(end, x)| if *end { n - 1 - (*x as usize % 60).min(n - 1) } else { n * *x as usize / 65536 }).collect();
        cuts.push(0);
        cuts.push(n - 1);
        if v.all && n < 1500 {
            cuts = (0..n).collect();
            info.label("cut at every length");
        }
        let attempt = |w: &mut World, data: &[u8], what: &str| -> R {
            std::fs::write(&path, data).unwrap();
            if !refused(w, what)? {
                // a program that starts all the same must be right
                w.sync()?;
                w.compare(0..=c).map_err(|e| match e {
                    Fail::Violation(m) => Fail::Violation(format!("{} is served from: {}", what, m)),
                    e => e,
                })?;
                w.stop();
            }
            Ok(())
        };
        for cut in &cuts {
            attempt(&mut w, &whole[..*cut], &format!("a saved index of {} bytes cut to {}", n, cut))?;
        }
        if let Ok(index) = common::index::decode(&whole) {
            for (kind, at, seed) in &v.other {
                if let Some(at) = index.versions.get(*at as usize % index.versions.len().max(1)) {
                    let version = match kind {
                        0 => whole[*at] ^ 1 << (seed % 8),
                        _ => [0x6f, 0xc4, 0xff, 1, 6, 0x30, 0x80, 4][*seed as usize % 8],
                    };
                    let mut data = whole.clone();
                    data[*at] = version;
                    attempt(&mut w, &data, &format!("a saved index with an address of version {} at byte {}", version, at))?;
                    info.label("unknown address version");
                }
            }
        }
        for (kind, len, seed) in &v.other {
            let len = *len as usize % 5000;
            let data: Vec<u8> = match kind {
                0 => vec![0; len],
                1 => (0..len).map(|i| ((i as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(*seed as u64) >> 32) as u8).collect(),
                2 => "# some other file\n".bytes().cycle().take(len).collect(),
                3 => w.node.lock().sim.blocks[*seed as usize % 2].raw.to_vec(),
                _ => vec![0xff; len],
            };
            attempt(&mut w, &data, &format!("a file of {} bytes that is no index", data.len()))?;
        }
        // a node on another chain, from the genesis block on or from a block deep down
        let held = {
            let g = w.node.lock();
            g.sim.active.len() + 1 - c
        };
        let before = w.node.lock().sim.active.clone();
        let common = v.common as usize % held;
        w.node.with(|i| {
            let from = (common > 0).then(|| i.sim.active[common - 1]);
            i.sim.mempool.clear();
            let mut tip = from;
            for j in 0..before.len() - common + (v.longer as usize).max((c == 1) as usize) {
                let plan = v.foreign[j % v.foreign.len()].clone();
                tip = Some(i.sim.make_block(tip, &plan));
            }
            i.sim.activate(tip.unwrap());
        });
        std::fs::write(&path, &whole).unwrap();
        if !refused(&mut w, "an index of another chain")? {
            w.sync()?;
            w.compare(0..=c).map_err(|e| match e {
                Fail::Violation(m) => Fail::Violation(format!("an index of another chain (common blocks: {}) is served from: {}", common, m)),
                e => e,
            })?;
        }
        info.label(if common == 0 { "another genesis block" } else { "another branch" });
        let blocks = 4 + 64 * held;
        info.nontrivial = cuts.iter().any(|x| *x > blocks && *x < n) && cuts.iter().any(|x| *x < blocks);
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Moving {
    conf: Conf,
    initial: Vec<BlockPlan>,
    /// changes, then a start with this configuration; whether the chain has grown enough before; changes before the start
    parts: Vec<(Vec<Op>, Conf, bool, Vec<Op>)>,
    last: Vec<Op>,
}

pub fn c28(k: &Check) {
    k.rule("a case is a history in which every restart from the saved index uses another configuration (threads, batch size, confirmation depth, interval, listening address); all levels are compared after each; non-trivial if the depth was lowered and raised");
    k.assume("with a greater depth the program may refuse to start until the chain has grown by the difference");
    let w = Weights { mine: 5, reorg: 2, back: 1, mem: 2, sync: 2, restart: 0 };
    let s = move || {
        (
            conf(),
            prop::collection::vec(block_plan(3), 1..6),
            prop::collection::vec((prop::collection::vec(op(w), 0..6), conf(), any::<bool>(), prop::collection::vec(op(w), 0..3)), 1..6),
            prop::collection::vec(op(w), 0..4),
        )
            .prop_map(|(conf, initial, parts, last)| Moving { conf, initial, parts, last })
    };
    k.section("other settings", k.n(500, 12000), 8, s, |v: &Moving, info| {
        let mut w = World::new(chain(&v.initial, v.conf.confirmations as usize), &v.conf, &plain_layout())?;
        w.start()?;
        w.sync()?;
        let (mut lower, mut higher) = (false, false);
        let run = |w: &mut World, ops: &[Op], info: &mut Info| -> R {
            for o in ops {
                if *o == Op::Sync {
                    w.sync()?;
                    w.compare(0..=w.c())?;
                } else if let Some(l) = w.apply(o) {
                    info.label(l);
                }
            }
            Ok(())
        };
        for (ops, conf, grown, offline) in &v.parts {
            run(&mut w, ops, info)?;
            w.sync()?;
            w.compare(0..=w.c())?;
            w.stop();
            let (old, new) = (w.c(), conf.confirmations as usize);
            for o in offline {
                if *o != Op::Sync {
                    w.apply(o);
                }
            }
            w.conf = conf.clone();
            for (k, x) in [("THREADS", conf.threads as usize), ("BATCH_SIZE", conf.batch_size()), ("CONFIRMATIONS", new), ("UPDATE_INTERVAL", 1 + new % 3)] {
                w.launch.env.insert(k.into(), x.to_string());
            }
            let grow = |w: &mut World| {
                w.node.with(|i| {
                    for n in old..new {
                        i.sim.mine(&BlockPlan { coinbase: vec![OutPlan { kind: 0, addr: n as u8, w: 1 }], value: n as u8, txs: vec![], take: 0 });
                    }
                })
            };
            lower |= new < old;
            higher |= new > old;
            if new > old && *grown {
                grow(&mut w);
                info.label("greater depth, chain grown");
            }
            if new > old && !grown {
                info.label("greater depth at once");
                if !refused(&mut w, "a start with a greater depth")? {
                    w.sync()?;
                    let top = new.min(w.node.lock().sim.active.len());
                    w.compare(0..=top)?;
                    w.stop();
                }
                grow(&mut w);
            }
            w.start()?;
            w.sync()?;
            w.compare(0..=new)?;
        }
        run(&mut w, &v.last, info)?;
        w.sync()?;
        w.compare(0..=w.c())?;
        info.nontrivial = lower && higher;
        Ok(())
    });
}

/// The saved index read independently: it holds exactly the first blocks of the node's chain and what is unspent after them.
fn read_saved(w: &World, below: &[(Hash, Hash)], what: &str) -> R {
    let data = std::fs::read(w.scratch.store()).map_err(|e| Fail::Violation(format!("{}: no saved index: {}", what, e)))?;
    let index = match common::index::decode(&data) {
        Ok(i) => i,
        Err(e) => return bad(format!("{}: the saved index of {} bytes is not of its form: {}", what, data.len(), e)),
    };
    let g = w.node.lock();
    let m = index.headers.len();
    let most = below.len() + g.sim.active.len() + 1 - w.c();
    if m <= below.len() || m > most {
        return bad(format!("{}: the saved index records {} blocks, expected {} to {}", what, m, below.len() + 1, most));
    }
    for (i, h) in index.headers.iter().enumerate() {
        let want = match i.checked_sub(below.len()) {
            None => below[i],
            Some(j) => {
                let b = &g.sim.blocks[g.sim.active[j]];
                (b.hash, b.prev)
            }
        };
        if *h != want {
            return bad(format!("{}: block {} of {} is recorded as {} after {}, expected {} after {}", what, i, m, rev_hex(&h.0), rev_hex(&h.1), rev_hex(&want.0), rev_hex(&want.1)));
        }
    }
    let want = &g.sim.blocks[g.sim.active[m - 1 - below.len()]].utxo;
    for (o, x) in want.iter() {
        match index.utxo.get(o) {
            Some(y) if x == y => {}
            y => return bad(format!("{}: output {}:{} is recorded as {:?}, expected {:?}", what, rev_hex(&o.txid), o.vout, y, x)),
        }
    }
    if let Some((o, _)) = index.utxo.iter().find(|(o, _)| !want.contains_key(o)) {
        return bad(format!("{}: output {}:{} is recorded, but is not unspent after {} blocks", what, rev_hex(&o.txid), o.vout, m));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Given {
    conf: Conf,
    /// blocks recorded below
    below: u32,
    /// outputs recorded: (address or none, transaction id, output index, value)
    outs: Vec<(u8, u8, u8, u8)>,
    /// plain outputs recorded as well
    bulk: u32,
    order: u8,
    /// the last of `recorded` blocks are recorded, the rest is above
    recorded: Vec<BlockPlan>,
    above: Vec<BlockPlan>,
    ops: Vec<Op>,
}

pub fn c29(k: &Check) {
    k.rule("a case is a saved index read back independently after a history, or one written independently (any number of recorded blocks, any outputs in any order) from which the program is started; non-trivial if it records outputs with and without address and blocks were added above it");
    k.assume("the index form: number of blocks, hashes and previous hashes, number of outputs, id, index, value and marked address of each; little-endian");
    let w = Weights { mine: 6, reorg: 2, back: 1, mem: 2, sync: 2, restart: 1 };
    k.section("written", k.n(600, 12000), 8, move || history(w, 8, 12), |h: &History, info| {
        let mut w = run_history(h, info, &|_| vec![])?;
        w.stop();
        read_saved(&w, &[], "after a history")?;
        info.nontrivial = w.expected(w.c()).values().any(|(_, a)| a.is_none());
        Ok(())
    });
    let w = Weights { mine: 6, reorg: 2, back: 1, mem: 2, sync: 2, restart: 1 };
    let s = move || {
        (
            conf(),
            prop_oneof![4 => Just(0u32), 30 => 1u32..300, 4 => 65530u32..65540, 1 => 100_000u32..300_000],
            prop::collection::vec((0u8..18, any::<u8>(), any::<u8>(), any::<u8>()), 0..40),
            prop_oneof![60 => Just(0u32), 20 => 1u32..700, 2 => 65530u32..65540, 1 => 70_000u32..120_000],
            any::<u8>(),
            prop::collection::vec(block_plan(2), 0..4),
            prop::collection::vec(block_plan(3), 0..4),
            prop::collection::vec(op(w), 0..12),
        )
            .prop_map(|(conf, below, outs, bulk, order, recorded, above, ops)| Given { conf, below, outs, bulk, order, recorded, above, ops })
    };
    k.section("given", k.n(700, 14000), 8, s, |v: &Given, info| {
        let c = v.conf.confirmations as usize;
        // the outputs and blocks from before
        let mut utxo = Utxo::new();
        let addrs = all_addresses();
        let mut minted = 0u64;
        for (i, (addr, id, vout, value)) in v.outs.iter().enumerate() {
            let mut txid = match id % 4 {
                0 => [*id; 32],
                1 => sha256d(&[*id, i as u8]),
                2 => [0; 32],
                _ => [0xff; 32],
            };
            txid[(*id as usize * 7) % 32] ^= i as u8;
            let vout = [0, 1, 2, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX][*vout as usize % 11];
            let value = [0, 1, 2, 545, 99_999_999, 100_000_000, 123_456_789, 4_294_967_295, 4_294_967_296, 5_000_000_000, 100_000_000_000_000][*value as usize % 11];
            let value = value.min(2_000_000_000_000_000 - minted);
            minted += value;
            if txid != [0; 32] {
                utxo.insert(OutPoint { txid, vout }, (value, addrs.get(*addr as usize).copied()));
            }
        }
        for i in 0..v.bulk {
            let mut txid = sha256d(&(i / 3).to_le_bytes());
            txid[0] = 0x77;
            utxo.insert(OutPoint { txid, vout: i % 3 }, (i as u64 % 7, (i % 5 != 0).then(|| addrs[i as usize % addrs.len()])));
            minted += i as u64 % 7;
        }
        let mut below = vec![];
        let mut prev = [0; 32];
        for i in 0..v.below {
            let mut h = prev;
            h[..4].copy_from_slice(&i.to_le_bytes());
            h[4 + i as usize % 28] = h[4 + i as usize % 28].wrapping_add(1 + i as u8 % 8);
            below.push((h, prev));
            prev = h;
        }
        let mut sim = Sim::default();
        sim.minted = minted;
        let first = sim.add_block(prev, 0, vec![], utxo);
        sim.active = vec![first];
        for p in &v.recorded {
            sim.mine(p);
        }
        let held = sim.active.len();
        for p in &v.above {
            sim.mine(p);
        }
        while sim.active.len() + 1 < held + c {
            let i = sim.active.len() as u8;
            sim.mine(&BlockPlan { coinbase: vec![OutPlan { kind: i % 6, addr: i, w: 1 }], value: i, txs: vec![], take: 0 });
        }
        let mut headers = below.clone();
        headers.extend(sim.active[..held].iter().map(|i| (sim.blocks[*i].hash, sim.blocks[*i].prev)));
        let mut outs: Vec<_> = sim.blocks[sim.active[held - 1]].utxo.iter().map(|(o, (v, a))| (*o, *v, *a)).collect();
        match v.order % 4 {
            0 => {}
            1 => outs.reverse(),
            2 => outs.sort_by_key(|(o, _, _)| sha256d(&[o.txid[5], o.vout as u8, v.order])),
            _ => outs.sort_by_key(|(o, v, _)| (*v, *o)),
        }
        let both = outs.iter().any(|o| o.2.is_none()) && outs.iter().any(|o| o.2.is_some());
        let scratch = Scratch::new();
        std::fs::create_dir_all(scratch.blocks()).unwrap();
        std::fs::create_dir_all(scratch.store().parent().unwrap()).unwrap();
        std::fs::write(scratch.store(), common::index::encode(&headers, &outs)).unwrap();
        let mut w = World::with_files(scratch, sim, &v.conf)?;
        w.node.with(|i| i.below = below.iter().map(|h| h.0).collect());
        w.start()?;
        w.sync()?;
        w.compare(0..=c)?;
        for o in &v.ops {
            match o {
                Op::Sync => {
                    w.sync()?;
                    w.compare(0..=c)?;
                }
                Op::Restart { offline } => {
                    w.stop();
                    read_saved(&w, &below, "at a restart")?;
                    for o in offline {
                        w.apply(o);
                    }
                    w.start()?;
                    w.sync()?;
                    w.compare(0..=c)?;
                    info.label("restart");
                }
                o => {
                    if let Some(l) = w.apply(o) {
                        info.label(l);
                    }
                }
            }
        }
        w.sync()?;
        w.compare(0..=c)?;
        w.stop();
        read_saved(&w, &below, "at the end")?;
        if v.below > 65000 {
            info.label("more than 65000 blocks");
        }
        if v.bulk > 65000 {
            info.label("more than 65000 outputs");
        }
        info.nontrivial = both && !v.above.is_empty();
        Ok(())
    });
}
