use common::shape::fill;
use ib::*;
use std::collections::{BTreeMap, BTreeSet};
use subject::address::Address;
use subject::block::{BlockHeader, BlockTrait};
use subject::logger::Logger;
use subject::store::{
    AugmentedStore, AugmentedTransactionStoreBackend, IndexedStore, IndexedTransactionStoreBackend, ReadonlyAugmentedTransactionStoreBackend,
    ReadonlyTransactionStoreBackendTrait, TransactionStoreBackendTrait,
};
use subject::transaction::{Output, Transaction};
use subject::transaction_output::TransactionOutput;

/// A small world of outpoints and addresses that collide in every byte the index hashes, and of ones that do not.
type Key = ([u8; 32], u32);

fn txid(n: u16) -> [u8; 32] {
    let mut h = [0x5a; 32];
    match n % 5 {
        // equal in bytes 4..12
        0 | 1 => h[[0usize, 3, 12, 31][(n / 5 % 4) as usize]] ^= 1 + (n / 20) as u8,
        // differ in bytes 4..8 only: an index can make up for it
        2 => h[4] ^= (n / 5 % 16) as u8,
        3 => h[[5usize, 7, 8, 11][(n / 5 % 4) as usize]] ^= 1 + (n / 20) as u8,
        _ => h = fill(32, n as u64 + 100).try_into().unwrap(),
    }
    h
}

fn key(n: u16, i: u8) -> Key {
    let h = txid(n);
    (h, (i % 16) as u32)
}

fn addr(n: u8) -> Option<Vec<u8>> {
    if n % 11 == 10 {
        return None;
    }
    let mut h = [0x33u8; 20];
    match n / 2 % 6 {
        0 => {}
        1 => h[0] = 1,
        2 => h[19] = 1,
        3 => h[12] = 0xff,
        4 => h[4] = 1,
        _ => h = fill(20, n as u64 / 12 + 9).try_into().unwrap(),
    }
    Some([&[if n % 2 == 0 { 0u8 } else { 5 }][..], &h].concat())
}

fn address(a: &[u8]) -> Address {
    Address::from_slice(a).ok().unwrap()
}

fn txo(k: &Key) -> TransactionOutput {
    TransactionOutput::new(k.0, k.1)
}

type Model = BTreeMap<Key, (Option<Vec<u8>>, u64)>;

/// Both views of `view` against the model.
fn compare(what: &str, view: &impl ReadonlyTransactionStoreBackendTrait, model: &Model, addrs: &BTreeSet<Vec<u8>>) -> R {
    for a in addrs {
        let want: BTreeMap<Key, u64> = model.iter().filter(|(_, v)| v.0.as_ref() == Some(a)).map(|(k, v)| (*k, v.1)).collect();
        let mut got: Vec<(Key, u64)> = Vec::new();
        sut(|| what.to_string(), || view.iterate_transaction_outputs(&address(a), |t, v| got.push(((t.hash, t.index), v))))?;
        got.sort();
        if got != want.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>() {
            return bad(format!("{}: address {} lists {:?} instead of {:?}", what, hex(a), short(&got), short(&want.into_iter().collect::<Vec<_>>())));
        }
        let sum: u64 = want.values().sum();
        let b = sut(|| what.to_string(), || view.balance(&address(a)))?;
        if b != sum {
            return bad(format!("{}: address {} has balance {} instead of {}", what, hex(a), b, sum));
        }
    }
    Ok(())
}

fn outpoints(what: &str, view: &impl TransactionStoreBackendTrait, model: &Model, keys: &BTreeSet<Key>) -> R {
    for k in keys {
        let got = sut(|| what.to_string(), || view.has_transaction_output(&txo(k)))?;
        if got != model.contains_key(k) {
            return bad(format!("{}: output {} is {}", what, show(k), if got { "still there" } else { "missing" }));
        }
    }
    Ok(())
}

fn hex(b: &[u8]) -> String {
    common::btc::hex(b)
}

fn show(k: &Key) -> String {
    format!("{}:{}", hex(&k.0), k.1)
}

fn short(v: &[(Key, u64)]) -> Vec<String> {
    v.iter().map(|(k, x)| format!("{}={}", show(k), x)).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    Add(u16, u8, u8, u32),
    /// the n-th output there is
    Spend(u16),
    /// an output that may be there
    Try(u16, u8),
    /// an output spent before comes again
    Again(u16, u8, u32),
}

fn act() -> impl Strategy<Value = Act> {
    prop_oneof![
        5 => (0u16..200, any::<u8>(), 0u8..24, 0u32..1000).prop_map(|(n, i, a, v)| Act::Add(n, i, a, v)),
        3 => any::<u16>().prop_map(Act::Spend),
        2 => (0u16..200, any::<u8>()).prop_map(|(n, i)| Act::Try(n, i)),
        1 => (any::<u16>(), 0u8..24, 0u32..1000).prop_map(|(n, a, v)| Act::Again(n, a, v)),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Acts {
    base: Vec<Act>,
    over: Vec<Act>,
    every: u8,
}

struct Names {
    keys: BTreeSet<Key>,
    addrs: BTreeSet<Vec<u8>>,
}

fn names(acts: &[&[Act]]) -> Names {
    let mut n = Names { keys: BTreeSet::new(), addrs: BTreeSet::new() };
    for a in acts.iter().flat_map(|a| a.iter()) {
        match a {
            Act::Add(t, i, a, _) => {
                n.keys.insert(key(*t, *i));
                if let Some(a) = addr(*a) {
                    // the other type with the same hash too
                    let mut o = a.clone();
                    o[0] ^= 5;
                    n.addrs.insert(a);
                    n.addrs.insert(o);
                }
            }
            Act::Try(t, i) => {
                n.keys.insert(key(*t, *i));
            }
            Act::Again(_, a, _) => n.addrs.extend(addr(*a)),
            Act::Spend(_) => {}
        }
    }
    n
}

/// Applies one act to the index and the model; `used`: outpoints that existed before (created again by `Again` only).
fn apply(what: &str, a: &Act, s: &mut impl TransactionStoreBackendTrait, m: &mut Model, used: &mut BTreeSet<Key>, info: &mut Info) -> R {
    match a {
        Act::Add(n, i, a, v) => {
            let k = key(*n, *i);
            if used.insert(k) {
                let a = addr(*a);
                sut(|| format!("{}: adding {}", what, show(&k)), || s.add_transaction_output(txo(&k), a.as_deref().map(address), *v as u64))?;
                m.insert(k, (a, *v as u64));
            }
        }
        Act::Again(n, a, v) => {
            let spent: Vec<Key> = used.iter().filter(|k| !m.contains_key(*k)).copied().collect();
            if !spent.is_empty() {
                let k = spent[*n as usize % spent.len()];
                let a = addr(*a);
                sut(|| format!("{}: adding {} again", what, show(&k)), || s.add_transaction_output(txo(&k), a.as_deref().map(address), *v as u64))?;
                m.insert(k, (a, *v as u64));
                info.label("came again");
            }
        }
        Act::Spend(n) => {
            if !m.is_empty() {
                let k = *m.keys().nth(*n as usize % m.len()).unwrap();
                if !sut(|| format!("{}: spending {}", what, show(&k)), || s.spend_transaction_output(&txo(&k)))? {
                    return bad(format!("{}: spending {} was refused", what, show(&k)));
                }
                m.remove(&k);
                info.label("spent");
            }
        }
        Act::Try(n, i) => {
            let k = key(*n, *i);
            let r = sut(|| format!("{}: spending {}", what, show(&k)), || s.spend_transaction_output(&txo(&k)))?;
            if r != m.remove(&k).is_some() {
                return bad(format!("{}: spending {} {}", what, show(&k), if r { "was accepted although it does not exist" } else { "was refused" }));
            }
            if !r {
                info.label("refused");
            }
        }
    }
    Ok(())
}

#[derive(Clone)]
struct TestBlock {
    height: usize,
    header: BlockHeader,
    txs: Vec<Transaction>,
}

impl BlockTrait for TestBlock {
    fn header(&self) -> &BlockHeader {
        &self.header
    }
    fn height(&self) -> usize {
        self.height
    }
    fn transactions<F: FnMut(&Transaction)>(&self, callback: &mut F) -> () {
        for t in &self.txs {
            callback(t);
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TxP {
    n: u16,
    /// outputs to spend, by position among the existing ones
    spend: Vec<u16>,
    outs: Vec<(u8, u32)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chain {
    blocks: Vec<Vec<TxP>>,
    over: Vec<Vec<TxP>>,
    threads: u8,
    batch: u8,
    /// break one transaction: (block, how)
    wrong: Option<(u16, u8, u16)>,
    wrong_over: Option<(u16, u8, u16)>,
}

fn tx_plan() -> impl Strategy<Value = TxP> {
    (any::<u16>(), prop::collection::vec(any::<u16>(), 0..4), prop::collection::vec((0u8..24, 0u32..1000), 0..5)).prop_map(|(n, spend, outs)| TxP { n, spend, outs })
}

fn chain_plan() -> impl Strategy<Value = Chain> {
    let wrong = || prop_oneof![4 => Just(None), 1 => (any::<u16>(), 0u8..4, any::<u16>()).prop_map(Some)];
    (
        prop::collection::vec(prop::collection::vec(tx_plan(), 0..6), 1..16),
        prop::collection::vec(prop::collection::vec(tx_plan(), 0..5), 0..6),
        1u8..6,
        1u8..6,
        wrong(),
        wrong(),
    )
        .prop_map(|(blocks, over, threads, batch, wrong, wrong_over)| Chain { blocks, over, threads, batch, wrong, wrong_over })
}

struct Build {
    model: Model,
    ids: BTreeSet<[u8; 32]>,
    spent: Vec<Key>,
    height: usize,
    last: [u8; 32],
    across: usize,
    addrs: BTreeSet<Vec<u8>>,
    keys: BTreeSet<Key>,
}

impl Build {
    fn id(&mut self, n: u16) -> [u8; 32] {
        // never the same transaction twice
        let mut n = n % 400;
        loop {
            let h = if n < 4000 { txid(n) } else { fill(32, n as u64 + 7).try_into().unwrap() };
            if self.ids.insert(h) {
                return h;
            }
            n = n.wrapping_add(1);
        }
    }

    fn block(&mut self, plans: &[TxP], wrong: Option<(u8, u16)>) -> TestBlock {
        let mut txs = Vec::new();
        let start = self.model.keys().copied().collect::<BTreeSet<_>>();
        for p in plans {
            let mut inputs = Vec::new();
            for s in &p.spend {
                if self.model.is_empty() {
                    break;
                }
                let k = *self.model.keys().nth(*s as usize % self.model.len()).unwrap();
                self.model.remove(&k);
                self.across += start.contains(&k) as usize;
                self.spent.push(k);
                inputs.push(txo(&k));
            }
            if inputs.is_empty() {
                inputs.push(TransactionOutput::new([0; 32], u32::MAX));
            }
            let hash = self.id(p.n);
            let mut outputs = Vec::new();
            for (i, (a, v)) in p.outs.iter().enumerate() {
                let a = addr(*a);
                let script = match &a {
                    Some(a) if a[0] == 0 => common::btc::Addr::Pkh(a[1..].try_into().unwrap()).script(),
                    Some(a) => common::btc::Addr::Sh(a[1..].try_into().unwrap()).script(),
                    None => vec![0x51],
                };
                outputs.push(Output { value: *v as u64, script });
                if let Some(a) = &a {
                    let mut o = a.clone();
                    o[0] ^= 5;
                    self.addrs.insert(a.clone());
                    self.addrs.insert(o);
                }
                self.keys.insert((hash, i as u32));
                self.model.insert((hash, i as u32), (a, *v as u64));
            }
            txs.push(Transaction { hash, inputs, outputs });
        }
        if let Some((how, sel)) = wrong {
            let hash = self.id(sel);
            let out = || vec![Output { value: 1, script: vec![0x51] }];
            let pick = |m: &Model| m.keys().nth(sel as usize % m.len().max(1)).copied();
            let inputs = match (how, pick(&self.model)) {
                // an index that transaction does not have, equal in every hashed bit if possible
                (0, Some(k)) => vec![txo(&(k.0, k.1 + 1000))],
                // the same output twice in one transaction
                (1, Some(k)) => vec![txo(&k), txo(&k)],
                (2, _) if !self.spent.is_empty() => vec![txo(&self.spent[sel as usize % self.spent.len()])],
                // a transaction nobody has seen, colliding with one that exists
                (_, Some(k)) => {
                    let mut h = k.0;
                    h[20] ^= 0x80;
                    vec![txo(&(h, k.1))]
                }
                _ => vec![txo(&([7; 32], 0))],
            };
            let at = sel as usize % (txs.len() + 1);
            // after the transactions it may depend on
            let at = if how >= 1 { txs.len() } else { at };
            txs.insert(at, Transaction { hash, inputs, outputs: out() });
        }
        self.height += 1;
        let mut hash = fill(32, self.height as u64 + 5000);
        hash[0] = 1;
        let hash: [u8; 32] = hash.try_into().unwrap();
        let header = BlockHeader { hash, previous_block_hash: self.last };
        self.last = hash;
        TestBlock { height: self.height - 1, header, txs }
    }
}

fn check(k: &Check) {
    bb::wide::c20(k);
    k.watch(120);
    k.rule("operations: an output was spent and one was refused or colliding keys are present | chains: an output was spent in a later block than it was created in, or the chain holds an impossible spend");
    let s = || (prop::collection::vec(act(), 0..60), prop::collection::vec(act(), 0..60), 1u8..20).prop_map(|(base, over, every)| Acts { base, over, every });
    k.section("operations", k.n(60000, 1500000), 8, s, |v: &Acts, info: &mut Info| {
        let n = names(&[&v.base, &v.over]);
        let mut s = IndexedTransactionStoreBackend::new();
        let mut m = Model::new();
        let mut used = BTreeSet::new();
        for (i, a) in v.base.iter().enumerate() {
            apply("index", a, &mut s, &mut m, &mut used, info)?;
            if i % v.every as usize == 0 {
                outpoints("index", &s, &m, &n.keys)?;
                compare("index", &s, &m, &n.addrs)?;
            }
        }
        outpoints("index", &s, &m, &n.keys)?;
        compare("index", &s, &m, &n.addrs)?;
        let base = m.clone();
        let mut o = AugmentedTransactionStoreBackend::new(&s);
        for (i, a) in v.over.iter().enumerate() {
            apply("overlay", a, &mut o, &mut m, &mut used, info)?;
            if i % v.every as usize == 0 {
                outpoints("overlay", &o, &m, &n.keys)?;
                compare("overlay", &ReadonlyAugmentedTransactionStoreBackend::new(&s, Some(o.augmentation())), &m, &n.addrs)?;
            }
        }
        outpoints("overlay", &o, &m, &n.keys)?;
        let aug = o.take_augmentation();
        compare("overlay", &ReadonlyAugmentedTransactionStoreBackend::new(&s, Some(&aug)), &m, &n.addrs)?;
        compare("index without overlay", &ReadonlyAugmentedTransactionStoreBackend::new(&s, None), &base, &n.addrs)?;
        compare("index under an overlay", &s, &base, &n.addrs)?;
        info.labels.sort();
        info.labels.dedup();
        info.nontrivial = info.labels.iter().filter(|l| *l == "spent" || *l == "refused").count() == 2;
        Ok(())
    });
    let dir = std::path::PathBuf::from(format!("/tmp/verif-c20-{}", std::process::id()));
    std::fs::create_dir_all(&dir).ok();
    let count = std::sync::atomic::AtomicUsize::new(0);
    let mute = Mute::new();
    k.section("chains", k.n(20000, 400000), 8, chain_plan, |v: &Chain, info: &mut Info| {
        let mut b = Build { model: Model::new(), ids: BTreeSet::new(), spent: vec![], height: 0, last: [0; 32], across: 0, addrs: BTreeSet::new(), keys: BTreeSet::new() };
        let mut blocks = Vec::new();
        for (i, p) in v.blocks.iter().enumerate() {
            let w = v.wrong.filter(|w| w.0 as usize % v.blocks.len() == i).map(|w| (w.1, w.2));
            blocks.push(b.block(p, w));
        }
        let logger = Logger::new();
        info.label(if v.threads > 1 { "parallel" } else { "sequential" });
        let threads = v.threads as usize;
        let batch = v.batch as usize;
        if v.wrong.is_some() {
            info.nontrivial = true;
            info.label("impossible spend");
            // refused, never ignored
            if !refuses(|| IndexedStore::from_blocks(blocks, threads, batch, logger)) {
                return bad("building an index with a spend of an output that does not exist was not refused");
            }
            return Ok(());
        }
        info.nontrivial = b.across > 0;
        let store = sut(|| "from_blocks".into(), || IndexedStore::from_blocks(blocks, threads, batch, logger))?;
        outpoints("built", store.backend(), &b.model, &b.keys)?;
        compare("built", store.backend(), &b.model, &b.addrs)?;
        let path = dir.join(format!("{}", count.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        let p = path.to_str().unwrap().to_string();
        sut(|| "to_file".into(), || store.to_file(&p, &logger))?;
        let again = sut(|| "from_file".into(), || IndexedStore::from_file(&p, &logger));
        std::fs::remove_file(&path).ok();
        let Some(again) = again? else { return bad("the saved index was not read back") };
        outpoints("reloaded", again.backend(), &b.model, &b.keys)?;
        compare("reloaded", again.backend(), &b.model, &b.addrs)?;
        if again.height() != store.height() || again.last_block_hash() != store.last_block_hash() {
            return bad("height or last block differ after reloading");
        }
        // blocks on top, through overlays over either
        let base = b.model.clone();
        let mut over = Vec::new();
        for (i, p) in v.over.iter().enumerate() {
            let w = v.wrong_over.filter(|w| w.0 as usize % v.over.len() == i).map(|w| (w.1, w.2));
            over.push(b.block(p, w));
        }
        for (what, s) in [("overlay", &store), ("overlay on reloaded", &again)] {
            if v.wrong_over.is_some() && !over.is_empty() {
                info.label("impossible spend in an overlay");
                let ok = refuses(|| {
                    let mut o = AugmentedStore::new(s);
                    for x in &over {
                        o.add_block(x);
                    }
                });
                if !ok {
                    return bad(format!("{}: a spend of an output that does not exist was not refused", what));
                }
            } else {
                let aug = sut(|| what.into(), || {
                    let mut o = AugmentedStore::new(s);
                    for x in &over {
                        o.add_block(x);
                    }
                    o.take_backend().take_augmentation()
                })?;
                compare(what, &ReadonlyAugmentedTransactionStoreBackend::new(s.backend(), Some(&aug)), &b.model, &b.addrs)?;
            }
            compare("base below the overlay", s.backend(), &base, &b.addrs)?;
        }
        // the same blocks added to the reloaded index
        if v.wrong_over.is_none() {
            let mut again = again;
            sut(|| "add_block".into(), || {
                for x in &over {
                    again.add_block(x);
                }
            })?;
            outpoints("extended", again.backend(), &b.model, &b.keys)?;
            compare("extended", again.backend(), &b.model, &b.addrs)?;
        }
        Ok(())
    });
    drop(mute);
    std::fs::remove_dir_all(&dir).ok();
}

fn main() {
    run("C20", check)
}
