use common::btc::*;
use common::shape::*;
use ib::*;
use subject::block::{iterate_transactions, Block, BlockHeader, BlockTrait};
use subject::hashing_buffer_reader::HashingBufferReader;
use subject::transaction::Transaction;

fn same(what: &str, got: &Transaction, want: &Tx) -> R {
    if got.hash != want.txid() {
        return bad(format!("{}: id {} instead of {}", what, rev_hex(&got.hash), rev_hex(&want.txid())));
    }
    if got.inputs.len() != want.inputs.len() {
        return bad(format!("{}: {} inputs instead of {}", what, got.inputs.len(), want.inputs.len()));
    }
    for (i, (g, w)) in got.inputs.iter().zip(&want.inputs).enumerate() {
        if g.hash != w.prev.txid || g.index != w.prev.vout {
            return bad(format!("{}: input {} spends {}:{} instead of {}:{}", what, i, rev_hex(&g.hash), g.index, rev_hex(&w.prev.txid), w.prev.vout));
        }
    }
    if got.outputs.len() != want.outputs.len() {
        return bad(format!("{}: {} outputs instead of {}", what, got.outputs.len(), want.outputs.len()));
    }
    for (i, (g, w)) in got.outputs.iter().zip(&want.outputs).enumerate() {
        if g.value != w.value {
            return bad(format!("{}: output {} has value {} instead of {}", what, i, g.value, w.value));
        }
        if g.script[..] != w.script[..] {
            return bad(format!("{}: output {} has script {} instead of {}", what, i, hex(&g.script), hex(&w.script)));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct One {
    shape: TxShape,
    tail: Vec<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Whole {
    version: u32,
    prev: u64,
    merkle: u64,
    time: u32,
    bits: u32,
    nonce: u32,
    shapes: Vec<TxShape>,
    /// further small transactions
    more: u32,
    tail: Vec<u8>,
    height: u32,
}

fn check(k: &Check) {
    bb::wide::c11(k);
    k.watch(120);
    k.rule("transactions, blocks: witness encoding, or a count or length of 253 or more, or more than one transaction");
    let s = || (tx_shape(12), prop::collection::vec(any::<u8>(), 0..12)).prop_map(|(shape, tail)| One { shape, tail });
    k.section("transactions", k.n(60000, 3000000), 8, s, |v: &One, info: &mut Info| {
        let tx = v.shape.build(None, |_, x| x);
        let raw = tx.raw();
        let what = || format!("a transaction of {} bytes", raw.len());
        let got = sut(what, || Transaction::from_slice(&raw))?;
        same("from_slice", &got, &tx)?;
        let mut long = raw.clone();
        long.extend_from_slice(&v.tail);
        let (got, used) = sut(what, || {
            let mut r = HashingBufferReader::new(&long);
            let t = Transaction::from_reader(&mut r);
            (t, r.offset())
        })?;
        same("from_reader", &got, &tx)?;
        if used != raw.len() {
            return bad(format!("{} of {} bytes consumed", used, raw.len()));
        }
        let l = label(&tx);
        info.nontrivial = l.iter().any(|x| x.contains("more") || x.contains("witness"));
        info.labels = l.into_iter().map(|s| s.to_string()).collect();
        Ok(())
    });
    let s = || {
        (
            (any::<u32>(), any::<u64>(), any::<u64>(), any::<u32>(), any::<u32>(), any::<u32>()),
            prop::collection::vec(tx_shape(40), 0..6),
            prop_oneof![8 => Just(0u32), 4 => 1u32..8, 2 => 246u32..260],
            prop::collection::vec(any::<u8>(), 0..12),
            any::<u32>(),
        )
            .prop_map(|((version, prev, merkle, time, bits, nonce), shapes, more, tail, height)| Whole { version, prev, merkle, time, bits, nonce, shapes, more, tail, height })
    };
    k.section("blocks", k.n(15000, 800000), 8, s, |v: &Whole, info: &mut Info| {
        let mut txs: Vec<Tx> = v.shapes.iter().map(|s| s.build(None, |_, x| x)).collect();
        for i in 0..v.more {
            txs.push(Tx {
                version: 1,
                inputs: vec![TxIn { prev: OutPoint { txid: hash_of(i as u64 % 5), vout: i }, script: fill(i as usize % 5, 3), sequence: i, witness: if i % 3 == 0 { vec![vec![1; i as usize % 4]] } else { vec![] } }],
                outputs: (0..i % 3).map(|x| TxOut { value: x as u64, script: fill(i as usize % 30, 5) }).collect(),
                locktime: i,
                segwit: i % 3 == 0,
            });
        }
        let prev = hash_of(v.prev);
        let head = header(v.version, &prev, &hash_of(v.merkle), v.time, v.bits, v.nonce);
        let raws: Vec<Vec<u8>> = txs.iter().map(|t| t.raw()).collect();
        let mut raw = block_raw(&head, &raws);
        raw.extend_from_slice(&v.tail);
        let hash = sha256d(&head);
        let what = || format!("a block with {} transactions", txs.len());
        let mut other = head.to_vec();
        other.extend_from_slice(&v.tail);
        for (n, buffer) in [("80 bytes", &head[..]), ("header and other bytes", &other), ("block", &raw)] {
            let h = sut(what, || BlockHeader::from_buffer(buffer))?;
            if h.hash != hash || h.previous_block_hash != prev {
                return bad(format!("header ({}): hash {} parent {} instead of {} and {}", n, rev_hex(&h.hash), rev_hex(&h.previous_block_hash), rev_hex(&hash), rev_hex(&prev)));
            }
        }
        let b = sut(what, || Block::new(&raw, v.height as usize))?;
        if b.hash() != hash || b.previous_block_hash() != prev || b.height() != v.height as usize {
            return bad("the block's hash, parent or height is wrong");
        }
        let mut got: Vec<Transaction> = Vec::new();
        sut(what, || b.transactions(&mut |t: &Transaction| got.push(t.clone())))?;
        let mut direct: Vec<Transaction> = Vec::new();
        sut(what, || iterate_transactions(&raw, &mut |t: Transaction| direct.push(t)))?;
        for (n, got) in [("block", &got), ("iterate", &direct)] {
            if got.len() != txs.len() {
                return bad(format!("{}: {} transactions instead of {}", n, got.len(), txs.len()));
            }
            for (i, (g, w)) in got.iter().zip(&txs).enumerate() {
                same(&format!("{}, transaction {}", n, i), g, w)?;
            }
        }
        info.nontrivial = txs.len() > 1;
        if txs.len() >= 253 {
            info.label("253 or more transactions");
        }
        if txs.is_empty() {
            info.label("no transactions");
        }
        if !v.tail.is_empty() {
            info.label("bytes after the block");
        }
        Ok(())
    });
    // counts beyond two bytes
    let s = || (0u32..3, 65530u32..70000, any::<bool>()).prop_map(|(a, b, c)| (a, b, c));
    k.section("huge counts", k.n(24, 400), 8, s, |v: &(u32, u32, bool), info: &mut Info| {
        let (which, n, segwit) = *v;
        let input = |i: u32| TxIn { prev: OutPoint { txid: hash_of(2 + i as u64), vout: i }, script: vec![], sequence: 0, witness: vec![] };
        let mut tx = Tx { version: 1, inputs: vec![input(0)], outputs: vec![TxOut { value: 1, script: vec![0x51] }], locktime: 5, segwit };
        match which {
            0 => tx.inputs = (0..n).map(input).collect(),
            1 => tx.outputs = (0..n).map(|i| TxOut { value: i as u64, script: vec![0x51; i as usize % 3] }).collect(),
            _ => {
                tx.segwit = true;
                tx.inputs[0].witness = (0..n).map(|i| vec![7; i as usize % 3]).collect();
            }
        }
        info.nontrivial = n >= 65536;
        let got = sut(|| format!("{} items", n), || Transaction::from_slice(&tx.raw()))?;
        same("huge", &got, &tx)
    });
}

fn main() {
    run("C11", check)
}
