//! The reference world: a block tree with a full UTXO ledger after every block, an active chain and a mempool.
use crate::btc::*;
use crate::plan::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

pub type Utxo = BTreeMap<OutPoint, (u64, Option<Addr>)>;

pub struct TxRec {
    pub tx: Tx,
    pub txid: Hash,
    pub raw: Vec<u8>,
    /// per transaction: outpoints spent (no coinbase marker) and outputs created (not provably unspendable)
    pub spends: Vec<OutPoint>,
    pub creates: Vec<(OutPoint, u64, Option<Addr>)>,
}

impl TxRec {
    pub fn new(tx: Tx) -> Arc<TxRec> {
        let txid = tx.txid();
        let raw = tx.raw();
        let spends = tx.inputs.iter().map(|i| i.prev).filter(|p| *p != COINBASE).collect();
        let creates = tx
            .outputs
            .iter()
            .enumerate()
            .filter(|(_, o)| o.script.first() != Some(&0x6a))
            .map(|(i, o)| (OutPoint { txid, vout: i as u32 }, o.value, Addr::of_script(&o.script)))
            .collect();
        Arc::new(TxRec { tx, txid, raw, spends, creates })
    }

    pub fn applicable(&self, utxo: &Utxo) -> bool {
        self.spends.iter().all(|p| utxo.contains_key(p))
    }

    pub fn apply(&self, utxo: &mut Utxo) {
        for p in &self.spends {
            assert!(utxo.remove(p).is_some(), "model: spending an unknown output");
        }
        for (p, v, a) in &self.creates {
            utxo.insert(*p, (*v, *a));
        }
    }
}

pub struct BlockRec {
    pub hash: Hash,
    pub prev: Hash,
    pub height: usize,
    pub raw: Arc<Vec<u8>>,
    pub txs: Vec<Arc<TxRec>>,
    pub utxo: Arc<Utxo>,
}

#[derive(Clone)]
pub struct MemTx {
    pub rec: Arc<TxRec>,
    pub missing: bool,
}

#[derive(Default)]
pub struct Sim {
    pub blocks: Vec<Arc<BlockRec>>,
    pub by_hash: HashMap<Hash, usize>,
    /// block index by height
    pub active: Vec<usize>,
    pub mempool: Vec<MemTx>,
    /// evicted ones
    pub gone: Vec<Arc<TxRec>>,
    pub counter: u64,
    pub minted: u64,
    /// coinbases come again: 1: fully spent ones, 2: also untouched ones, which stay so
    pub recur: u8,
    pub frozen: std::collections::BTreeSet<Hash>,
    pub came_again: (usize, usize),
}

pub const POOL: usize = 8;

/// The 20-byte hashes used by generated outputs (both address types use each of them).
pub fn pool_hash(i: usize) -> [u8; 20] {
    match i % POOL {
        0 => [0; 20],
        1 => [0xff; 20],
        2 => {
            let mut h = [0x11; 20];
            h[0] = 0;
            h[1] = 0;
            h
        }
        3 => {
            // differs from 2 only outside bytes 4..12
            let mut h = [0x11; 20];
            h[0] = 0;
            h[1] = 0;
            h[19] = 0x12;
            h
        }
        4 => *b"abcdefghijklmnopqrst",
        5 => {
            let mut h = [0; 20];
            h[19] = 1;
            h
        }
        6 => {
            let mut h = [0x80; 20];
            h[0] = 1;
            h
        }
        _ => {
            let mut h = [0x6a; 20];
            h[10] = 0x87;
            h
        }
    }
}

pub fn all_addresses() -> Vec<Addr> {
    let mut v = Vec::new();
    for i in 0..POOL {
        v.push(Addr::Pkh(pool_hash(i)));
        v.push(Addr::Sh(pool_hash(i)));
    }
    v.push(Addr::Pkh([0x42; 20]));
    v
}

fn bytes(n: usize, salt: u64) -> Vec<u8> {
    (0..n).map(|i| ((i as u64).wrapping_mul(0x9e37_79b9).wrapping_add(salt) >> 3) as u8).collect()
}

fn len_class(c: u8) -> usize {
    [0, 1, 73, 107, 252, 253, 520, 66000][c as usize % 8]
}

impl Sim {
    pub fn script_of(&mut self, p: &OutPlan) -> Vec<u8> {
        let h = pool_hash(p.addr as usize);
        self.counter += 1;
        let c = self.counter;
        match p.kind {
            0..=3 => Addr::Pkh(h).script(),
            4..=5 => Addr::Sh(h).script(),
            6 => {
                let mut s = vec![0x21, 2];
                s.extend(bytes(32, c));
                s.push(0xac);
                s
            }
            7 => {
                let mut s = vec![0, 0x14];
                s.extend_from_slice(&h);
                s
            }
            8 => {
                let mut s = vec![0x6a];
                let n = (c % 80) as usize;
                if n > 0 {
                    s.push(n as u8);
                    s.extend(bytes(n, c));
                }
                s
            }
            9 => vec![],
            10 => {
                // P2PKH with one template byte off
                let mut s = Addr::Pkh(h).script();
                let pos = [0usize, 1, 2, 23, 24][(c % 5) as usize];
                s[pos] ^= 1 << (c % 7);
                if s[0] == 0x6a {
                    s[0] = 0x51;
                }
                s
            }
            11 => {
                let mut s = Addr::Sh(h).script();
                let pos = [0usize, 1, 22][(c % 3) as usize];
                s[pos] ^= 1 << (c % 7);
                if s[0] == 0x6a {
                    s[0] = 0x51;
                }
                s
            }
            12 => {
                let mut s = Addr::Pkh(h).script();
                s.push(0x61);
                s
            }
            13 => {
                let mut s = Addr::Sh(h).script();
                s.push(0x61);
                s
            }
            14 => {
                // 25 bytes starting with OP_RETURN
                let mut s = Addr::Pkh(h).script();
                s[0] = 0x6a;
                s
            }
            15 => {
                // OP_RETURN not in first position: spendable as far as the index is concerned
                let mut s = vec![0x00, 0x6a];
                s.extend(bytes(8, c));
                s
            }
            16 => {
                let mut s = Addr::Pkh(h).script();
                s.pop();
                s
            }
            18 | 19 => {
                // an address never used before
                let mut f = [0; 20];
                for (i, x) in f.chunks_mut(8).enumerate() {
                    x.copy_from_slice(&(c + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(31).wrapping_mul(0xbf58_476d_1ce4_e5b9 + 2 * i as u64).to_le_bytes()[..x.len()]);
                }
                if p.kind == 18 { Addr::Pkh(f) } else { Addr::Sh(f) }.script()
            }
            _ => match c % 4 {
                0 | 1 => {
                    // version 0 and 1 witness programs of 32 bytes
                    let mut s = vec![if c % 4 == 0 { 0 } else { 0x51 }, 0x20];
                    s.extend(bytes(32, c));
                    s
                }
                2 => {
                    // an uncompressed key
                    let mut s = vec![0x41, 4];
                    s.extend(bytes(64, c));
                    s.push(0xac);
                    s
                }
                _ => {
                    // 1 of 2
                    let mut s = vec![0x51];
                    for k in 0..2 {
                        s.extend([0x21, 3]);
                        s.extend(bytes(32, c + k));
                    }
                    s.extend([0x52, 0xae]);
                    s
                }
            },
        }
    }

    fn outputs(&mut self, plans: &[OutPlan], bulk: u16, total: u64) -> Vec<TxOut> {
        let sum: u64 = plans.iter().map(|p| p.w as u64).sum();
        let unit = if sum == 0 { 0 } else { total / (sum + 1) };
        let mut left = total;
        let mut out: Vec<TxOut> = Vec::new();
        for p in plans {
            let script = self.script_of(p);
            let value = unit * p.w as u64;
            left -= value;
            out.push(TxOut { value, script });
        }
        for i in 0..bulk {
            let v = (i as u64 + 1).min(left);
            left -= v;
            out.push(TxOut { value: v, script: Addr::Pkh(pool_hash(i as usize)).script() });
        }
        // what is left (if any) goes on top of the first non-zero output or becomes the fee
        if let Some(o) = out.iter_mut().find(|o| o.value > 0) {
            o.value += left - left / 7;
        }
        out
    }

    fn pick(&self, utxo: &Utxo, sel: &[u16]) -> Vec<OutPoint> {
        let mut keys: Vec<OutPoint> = utxo.keys().filter(|k| self.frozen.is_empty() || !self.frozen.contains(&k.txid)).copied().collect();
        let mut v = Vec::new();
        for s in sel {
            if keys.is_empty() {
                break;
            }
            let i = *s as usize % keys.len();
            v.push(keys.swap_remove(i));
        }
        v
    }

    pub fn make_tx(&mut self, utxo: &Utxo, plan: &TxPlan) -> Option<Arc<TxRec>> {
        let prevs = self.pick(utxo, &plan.ins);
        self.spend_tx(utxo, prevs, plan)
    }

    pub fn spend_tx(&mut self, utxo: &Utxo, prevs: Vec<OutPoint>, plan: &TxPlan) -> Option<Arc<TxRec>> {
        if prevs.is_empty() {
            return None;
        }
        let total = prevs.iter().map(|p| utxo[p].0).sum();
        self.counter += 1;
        let c = self.counter;
        let inputs = prevs
            .into_iter()
            .enumerate()
            .map(|(i, prev)| TxIn {
                prev,
                script: bytes(len_class(if plan.len == 7 && i == 0 { 7 } else { ((plan.len as usize + i) % 7) as u8 }), c),
                sequence: if c % 3 == 0 { 0xffff_fffd } else { u32::MAX },
                witness: if plan.segwit {
                    (0..(c as usize + i) % 4).map(|k| bytes(len_class(((plan.len as usize + k) % 7) as u8), c + k as u64)).collect()
                } else {
                    vec![]
                },
            })
            .collect();
        let outputs = self.outputs(&plan.outs, plan.bulk, total);
        Some(TxRec::new(Tx {
            version: if c % 11 == 0 { -1 } else { (c % 3) as i32 },
            inputs,
            outputs,
            locktime: if c % 5 == 0 { 0x0100_0000 + c as u32 } else { 0 },
            segwit: plan.segwit,
        }))
    }

    pub fn tip(&self) -> usize {
        *self.active.last().unwrap()
    }

    pub fn height(&self) -> usize {
        self.active.len() - 1
    }

    /// Build (without activating) a block on `parent` (None: genesis).
    pub fn make_block(&mut self, parent: Option<usize>, plan: &BlockPlan) -> usize {
        self.make_block_with(parent, plan, &[])
    }

    pub fn make_block_with(&mut self, parent: Option<usize>, plan: &BlockPlan, candidates: &[Arc<TxRec>]) -> usize {
        let (prev, height, mut utxo) = match parent {
            None => ([0u8; 32], 0, Utxo::new()),
            Some(i) => {
                let b = &self.blocks[i];
                (b.hash, b.height + 1, (*b.utxo).clone())
            }
        };
        const COIN: u64 = 100_000_000;
        let coinbase = match self.again(parent, plan.value, &utxo) {
            Some(t) => t,
            None => {
                let value = match plan.value % 8 {
                    0..=3 => 50 * COIN,
                    4 => 0,
                    5 => 1 + plan.value as u64,
                    6 => 123_456_789_012,
                    _ => 2_000_000 * COIN + 1,
                };
                let value = value.min(21_000_000 * COIN - self.minted.min(21_000_000 * COIN));
                self.minted += value;
                self.counter += 1;
                let c = self.counter;
                let mut cb_script = c.to_le_bytes().to_vec();
                cb_script.extend_from_slice(&(height as u32).to_le_bytes());
                let segwit = plan.value % 2 == 1;
                let outputs = self.outputs(&plan.coinbase, 0, value);
                TxRec::new(Tx {
                    version: 1 + (c % 2) as i32,
                    inputs: vec![TxIn { prev: COINBASE, script: cb_script, sequence: if c % 4 == 0 { 0xffff_fffe } else { u32::MAX }, witness: if segwit { vec![vec![0; 32]] } else { vec![] } }],
                    outputs,
                    locktime: if c % 4 == 0 { height as u32 } else { 0 },
                    segwit,
                })
            }
        };
        coinbase.apply(&mut utxo);
        let mut txs = vec![coinbase];
        for (i, t) in candidates.iter().enumerate() {
            if plan.take & (1 << (i % 16)) != 0 && t.applicable(&utxo) {
                t.apply(&mut utxo);
                txs.push(t.clone());
            }
        }
        for p in &plan.txs {
            if let Some(t) = self.make_tx(&utxo, p) {
                t.apply(&mut utxo);
                txs.push(t);
            }
        }
        self.add_block(prev, height, txs, utxo)
    }

    pub fn add_block(&mut self, prev: Hash, height: usize, txs: Vec<Arc<TxRec>>, utxo: Utxo) -> usize {
        self.counter += 1;
        let c = self.counter;
        let mut m = Vec::new();
        for t in &txs {
            m.extend_from_slice(&t.txid);
        }
        // times go up and down, versions differ
        let version = [1, 2, 4, 0x2000_0000, 0x2000_0004, 0x3fff_e000, 0xffff_ffff][(c % 7) as usize];
        let h = header(version, &prev, &sha256d(&m), 1_300_000_000 + (c as u32 % 64 * 37 % 64) * 100, 0x207f_ffff, c as u32);
        let raws: Vec<Vec<u8>> = txs.iter().map(|t| t.raw.clone()).collect();
        let raw = block_raw(&h, &raws);
        let hash = sha256d(&h);
        let idx = self.blocks.len();
        self.blocks.push(Arc::new(BlockRec { hash, prev, height, raw: Arc::new(raw), txs, utxo: Arc::new(utxo) }));
        self.by_hash.insert(hash, idx);
        idx
    }

    /// An earlier coinbase of this branch that may come again.
    fn again(&mut self, parent: Option<usize>, value: u8, utxo: &Utxo) -> Option<Arc<TxRec>> {
        if self.recur == 0 || value % 3 != 0 {
            return None;
        }
        let mut spent = Vec::new();
        let mut untouched = Vec::new();
        for i in self.path_to(parent?) {
            let t = &self.blocks[i].txs[0];
            let left = t.creates.iter().filter(|c| utxo.contains_key(&c.0)).count();
            if left == 0 {
                spent.push(t.clone());
            } else if left == t.creates.len() {
                untouched.push(t.clone());
            }
        }
        let v = value as usize / 3;
        if self.recur == 2 && (v % 2 == 0 || spent.is_empty()) && !untouched.is_empty() {
            let t = untouched[v / 2 % untouched.len()].clone();
            self.frozen.insert(t.txid);
            self.came_again.1 += 1;
            return Some(t);
        }
        spent.retain(|t| !t.creates.is_empty());
        if spent.is_empty() {
            return None;
        }
        self.came_again.0 += 1;
        Some(spent[v % spent.len()].clone())
    }

    pub fn path_to(&self, mut i: usize) -> Vec<usize> {
        let mut v = vec![i];
        while self.blocks[i].height > 0 {
            i = self.by_hash[&self.blocks[i].prev];
            v.push(i);
        }
        v.reverse();
        v
    }

    /// Make `tip` the active tip: disconnected transactions return to the mempool, which is then revalidated.
    pub fn activate(&mut self, tip: usize) {
        if self.active.last().is_some_and(|t| self.blocks[*t].hash == self.blocks[tip].prev) {
            self.active.push(tip);
            if !self.mempool.is_empty() {
                self.revalidate();
            }
            return;
        }
        let path = self.path_to(tip);
        let common = path.iter().zip(self.active.iter()).take_while(|(a, b)| a == b).count();
        let mut back: Vec<MemTx> = Vec::new();
        for i in &self.active[common..] {
            for t in self.blocks[*i].txs.iter().skip(1) {
                back.push(MemTx { rec: t.clone(), missing: false });
            }
        }
        self.active = path;
        back.append(&mut self.mempool);
        self.mempool = back;
        self.revalidate();
    }

    pub fn revalidate(&mut self) {
        let mut utxo = (*self.blocks[self.tip()].utxo).clone();
        let mut keep = Vec::new();
        let mut seen = std::collections::HashSet::new();
        for m in self.mempool.drain(..) {
            if seen.insert(m.rec.txid) && m.rec.applicable(&utxo) {
                m.rec.apply(&mut utxo);
                keep.push(m);
            }
        }
        self.mempool = keep;
    }

    /// Node-side unconfirmed view (everything in the mempool), used to build further transactions.
    pub fn mempool_full(&self) -> Utxo {
        let mut utxo = (*self.blocks[self.tip()].utxo).clone();
        for m in &self.mempool {
            if m.rec.applicable(&utxo) {
                m.rec.apply(&mut utxo);
            }
        }
        utxo
    }

    pub fn mine(&mut self, plan: &BlockPlan) {
        let c: Vec<_> = self.mempool.iter().map(|m| m.rec.clone()).collect();
        let parent = self.active.last().copied();
        let b = self.make_block_with(parent, plan, &c);
        self.activate(b);
    }

    /// What the indexer has to answer at level `c`.
    pub fn expected(&self, c: usize) -> Utxo {
        if c == 0 {
            Self::unconfirmed(&self.blocks[self.tip()].utxo, &self.mempool)
        } else {
            let h = self.active.len() - c;
            (*self.blocks[self.active[h]].utxo).clone()
        }
    }

    pub fn unconfirmed(base: &Utxo, mempool: &[MemTx]) -> Utxo {
        let mut utxo = base.clone();
        for m in mempool {
            if !m.missing && m.rec.applicable(&utxo) {
                m.rec.apply(&mut utxo);
            }
        }
        utxo
    }

    /// Applies one op. `confirmations` bounds reorganisation depth. Returns a label, or None if it was not applicable.
    pub fn apply(&mut self, op: &Op, confirmations: usize) -> Option<&'static str> {
        match op {
            Op::Mine(plans) => {
                for p in plans {
                    self.mine(p);
                }
                Some(if plans.len() > 1 { "mine_many" } else { "mine_one" })
            }
            Op::Reorg { depth, extra, blocks } => {
                if confirmations < 2 {
                    return None;
                }
                let d = (*depth as usize % (confirmations - 1) + 1).min(self.height());
                if d == 0 {
                    return None;
                }
                let tip = self.tip();
                let fork = self.active[self.active.len() - 1 - d];
                self.branch(fork, d + 1 + *extra as usize, blocks, tip);
                Some(if d == confirmations - 1 { "reorg_max" } else { "reorg" })
            }
            Op::ReorgBack { which, blocks } => {
                let active: std::collections::HashSet<usize> = self.active.iter().copied().collect();
                let mut cands = Vec::new();
                let parents: std::collections::HashSet<Hash> = self.blocks.iter().map(|b| b.prev).collect();
                for (i, b) in self.blocks.iter().enumerate() {
                    if active.contains(&i) || parents.contains(&b.hash) || !self.connected(i) {
                        continue;
                    }
                    let mut j = i;
                    while !active.contains(&j) {
                        j = self.by_hash[&self.blocks[j].prev];
                    }
                    let depth = self.height() - self.blocks[j].height;
                    if depth >= 1 && depth < confirmations {
                        cands.push(i);
                    }
                }
                if cands.is_empty() {
                    return None;
                }
                let i = cands[*which as usize % cands.len()];
                let need = self.active.len() + 1;
                let have = self.blocks[i].height + 1;
                let n = need.saturating_sub(have);
                let tip = self.tip();
                if n == 0 {
                    self.activate(i);
                } else {
                    self.branch(i, n, blocks, tip);
                }
                Some("reorg_back")
            }
            Op::MemAdd(plans) | Op::MemGhost(plans) => {
                let missing = matches!(op, Op::MemGhost(_));
                let mut any = false;
                for p in plans {
                    let view = self.mempool_full();
                    if let Some(t) = self.make_tx(&view, p) {
                        self.mempool.push(MemTx { rec: t, missing });
                        any = true;
                    }
                }
                any.then_some(if missing { "mem_ghost" } else { "mem_add" })
            }
            Op::MemReplace(i, plan) => {
                if self.mempool.is_empty() {
                    return None;
                }
                let i = *i as usize % self.mempool.len();
                let mut view = (*self.blocks[self.tip()].utxo).clone();
                for m in &self.mempool[..i] {
                    if m.rec.applicable(&view) {
                        m.rec.apply(&mut view);
                    }
                }
                let prevs = self.mempool[i].rec.spends.clone();
                if !prevs.iter().all(|p| view.contains_key(p)) {
                    return None;
                }
                let t = self.spend_tx(&view, prevs, plan)?;
                let m = std::mem::replace(&mut self.mempool[i], MemTx { rec: t, missing: false });
                self.gone.push(m.rec);
                self.revalidate();
                Some("mem_replace")
            }
            Op::MemEvict(i) => {
                if self.mempool.is_empty() {
                    return None;
                }
                let i = *i as usize % self.mempool.len();
                let m = self.mempool.remove(i);
                self.gone.push(m.rec);
                self.revalidate();
                Some("mem_evict")
            }
            Op::MemFound(i) => {
                let ghosts: Vec<usize> = (0..self.mempool.len()).filter(|i| self.mempool[*i].missing).collect();
                if ghosts.is_empty() {
                    return None;
                }
                self.mempool[ghosts[*i as usize % ghosts.len()]].missing = false;
                Some("mem_found")
            }
            Op::MemShuffle(keys) => {
                if self.mempool.len() < 2 {
                    return None;
                }
                let mut idx: Vec<usize> = (0..self.mempool.len()).collect();
                idx.sort_by_key(|i| keys[*i % keys.len()]);
                if idx.windows(2).all(|w| w[0] < w[1]) {
                    idx.reverse();
                }
                self.mempool = idx.iter().map(|i| self.mempool[*i].clone()).collect();
                Some("mem_shuffle")
            }
            Op::MemConflict(i, before, plan) => {
                if self.mempool.is_empty() {
                    return None;
                }
                let i = *i as usize % self.mempool.len();
                let mut view = (*self.blocks[self.tip()].utxo).clone();
                for m in &self.mempool[..i] {
                    if m.rec.applicable(&view) {
                        m.rec.apply(&mut view);
                    }
                }
                let prevs = self.mempool[i].rec.spends.clone();
                if !prevs.iter().all(|p| view.contains_key(p)) {
                    return None;
                }
                let t = self.spend_tx(&view, prevs, plan)?;
                if self.mempool.iter().any(|m| m.rec.txid == t.txid) {
                    return None;
                }
                let at = if *before { i } else { i + 1 };
                self.mempool.insert(at, MemTx { rec: t, missing: false });
                Some("mem_conflict")
            }
            Op::MemBack(i) => {
                let view = self.mempool_full();
                let listed: std::collections::HashSet<Hash> = self.mempool.iter().map(|m| m.rec.txid).collect();
                let back: Vec<usize> = (0..self.gone.len()).filter(|i| !listed.contains(&self.gone[*i].txid) && self.gone[*i].applicable(&view)).collect();
                if back.is_empty() {
                    // one that can come back later
                    let m = self.mempool.pop()?;
                    self.gone.push(m.rec);
                    return Some("mem_evict");
                }
                let rec = self.gone.remove(back[*i as usize % back.len()]);
                self.mempool.push(MemTx { rec, missing: false });
                Some("mem_back")
            }
            Op::Sync => Some("sync"),
            Op::Restart { .. } => Some("restart"),
        }
    }

    pub fn connected(&self, mut i: usize) -> bool {
        loop {
            let b = &self.blocks[i];
            if b.prev == [0; 32] {
                return true;
            }
            match self.by_hash.get(&b.prev) {
                Some(j) => i = *j,
                None => return false,
            }
        }
    }

    /// Mines `n` blocks on `from` and activates the result. Candidates: transactions of the branch being left and the mempool.
    pub fn branch(&mut self, from: usize, n: usize, plans: &[BlockPlan], old_tip: usize) {
        let path: std::collections::HashSet<usize> = self.path_to(from).into_iter().collect();
        let mut cands: Vec<Arc<TxRec>> = Vec::new();
        for i in self.path_to(old_tip) {
            if !path.contains(&i) {
                cands.extend(self.blocks[i].txs.iter().skip(1).cloned());
            }
        }
        cands.extend(self.mempool.iter().map(|m| m.rec.clone()));
        let mut tip = from;
        let empty = empty_block();
        for k in 0..n {
            let p = plans.get(k).unwrap_or(&empty);
            tip = self.make_block_with(Some(tip), p, &cands);
        }
        self.activate(tip);
    }
}

pub fn by_address(utxo: &Utxo) -> BTreeMap<Addr, BTreeMap<OutPoint, u64>> {
    let mut m: BTreeMap<Addr, BTreeMap<OutPoint, u64>> = BTreeMap::new();
    for (p, (v, a)) in utxo {
        if let Some(a) = a {
            m.entry(*a).or_default().insert(*p, *v);
        }
    }
    m
}
