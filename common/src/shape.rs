//! Arbitrary well-formed transactions: counts and lengths around every length-prefix boundary.
use crate::btc::*;
use crate::model::pool_hash;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct InShape {
    pub prev: u64,
    pub vout: u32,
    pub len: u32,
    pub sequence: u32,
    /// lengths of the witness items
    pub witness: Vec<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct OutShape {
    pub value: u64,
    /// 0..: standard scripts, otherwise `len` bytes
    pub kind: u8,
    pub addr: u8,
    pub len: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TxShape {
    pub version: i32,
    pub locktime: u32,
    pub segwit: bool,
    pub ins: Vec<InShape>,
    pub outs: Vec<OutShape>,
    /// further identical inputs / outputs / witness items of the first input
    pub more_ins: u32,
    pub more_outs: u32,
    pub more_wit: u32,
    pub salt: u64,
}

pub fn fill(n: usize, salt: u64) -> Vec<u8> {
    let mut x = salt.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.extend_from_slice(&x.to_le_bytes());
    }
    v.truncate(n);
    v
}

pub fn hash_of(salt: u64) -> Hash {
    match salt {
        0 => [0; 32],
        1 => [0xff; 32],
        s => fill(32, s).try_into().unwrap(),
    }
}

pub fn len() -> impl Strategy<Value = u32> {
    prop_oneof![
        20 => 0u32..40,
        10 => 40u32..252,
        6 => 250u32..260,
        3 => 260u32..2000,
        1 => 65533u32..65540,
    ]
}

fn word() -> impl Strategy<Value = u32> {
    prop_oneof![Just(0u32), Just(1), Just(u32::MAX), Just(u32::MAX - 1), Just(0x8000_0000), Just(0xfd), any::<u32>()]
}

pub fn in_shape() -> impl Strategy<Value = InShape> {
    (prop_oneof![Just(0u64), Just(1), 2u64..40, any::<u64>()], prop_oneof![3 => 0u32..4, 1 => word()], len(), word(), prop::collection::vec(len(), 0..4))
        .prop_map(|(prev, vout, len, sequence, witness)| InShape { prev, vout, len, sequence, witness })
}

pub fn out_shape() -> impl Strategy<Value = OutShape> {
    (prop_oneof![Just(0u64), Just(u64::MAX), Just(1), Just(1 << 63), 0u64..5_000_000_000, any::<u64>()], 0u8..10, 0u8..8, len())
        .prop_map(|(value, kind, addr, len)| OutShape { value, kind, addr, len })
}

/// `wide`: how often counts beyond one byte are generated (1 in `wide`).
pub fn tx_shape(wide: u32) -> impl Strategy<Value = TxShape> {
    let more = move || prop_oneof![wide * 6 => Just(0u32), 3 => 245u32..260, 1 => 260u32..1500];
    (
        prop_oneof![Just(1i32), Just(2), Just(0), Just(-1), Just(i32::MIN), Just(i32::MAX), Just(0x0100_0000), any::<i32>()],
        word(),
        any::<bool>(),
        prop::collection::vec(in_shape(), 1..5),
        prop::collection::vec(out_shape(), 0..6),
        more(),
        more(),
        more(),
        any::<u64>(),
    )
        .prop_map(|(version, locktime, segwit, ins, outs, more_ins, more_outs, more_wit, salt)| TxShape {
            version,
            locktime,
            segwit,
            ins,
            outs,
            more_ins,
            more_outs,
            more_wit,
            salt,
        })
}

impl TxShape {
    pub fn script(o: &OutShape, salt: u64) -> Vec<u8> {
        let h = pool_hash(o.addr as usize);
        match o.kind {
            0..=2 => Addr::Pkh(h).script(),
            3..=4 => Addr::Sh(h).script(),
            5 => {
                let mut v = fill(o.len as usize, salt);
                if let Some(x) = v.first_mut() {
                    *x = 0x6a;
                }
                v
            }
            _ => {
                let mut v = fill(o.len as usize, salt);
                if v.first() == Some(&0x6a) {
                    v[0] = 0x51;
                }
                v
            }
        }
    }

    /// `prevs`: outpoints to spend instead of the generated ones (bounds the number of inputs).
    pub fn build(&self, prevs: Option<&[OutPoint]>, value: impl Fn(usize, u64) -> u64) -> Tx {
        let n = match prevs {
            Some(p) => p.len(),
            None => self.ins.len() + self.more_ins as usize,
        };
        let mut inputs = Vec::new();
        for i in 0..n {
            let s = &self.ins[i % self.ins.len()];
            let again = i >= self.ins.len();
            let prev = match prevs {
                Some(p) => p[i],
                None => OutPoint { txid: hash_of(s.prev.wrapping_add(if again { i as u64 * 3 } else { 0 })), vout: s.vout },
            };
            let mut witness = Vec::new();
            if self.segwit {
                if !again {
                    for (k, w) in s.witness.iter().enumerate() {
                        witness.push(fill(*w as usize, self.salt ^ k as u64));
                    }
                }
                if i == 0 {
                    for k in 0..self.more_wit {
                        witness.push(fill((k % 3) as usize, k as u64));
                    }
                }
            }
            inputs.push(TxIn { prev, script: fill(if again { i % 4 } else { s.len as usize }, self.salt.wrapping_add(i as u64)), sequence: s.sequence, witness });
        }
        let mut outputs = Vec::new();
        for (i, o) in self.outs.iter().enumerate() {
            outputs.push(TxOut { value: value(i, o.value), script: Self::script(o, self.salt.wrapping_sub(i as u64)) });
        }
        for i in 0..self.more_outs as usize {
            let k = self.outs.len() + i;
            outputs.push(TxOut { value: value(k, i as u64), script: Addr::Pkh(pool_hash(i)).script() });
        }
        Tx { version: self.version, inputs, outputs, locktime: self.locktime, segwit: self.segwit }
    }
}

pub fn label(t: &Tx) -> Vec<&'static str> {
    let mut v = Vec::new();
    v.push(if t.segwit { "witness encoding" } else { "legacy encoding" });
    if t.inputs.len() >= 253 {
        v.push("253 or more inputs");
    }
    if t.outputs.len() >= 253 {
        v.push("253 or more outputs");
    }
    if t.inputs.iter().any(|i| i.script.len() >= 253) || t.outputs.iter().any(|o| o.script.len() >= 253) {
        v.push("script of 253 or more bytes");
    }
    if t.inputs.iter().any(|i| i.script.len() >= 65536) || t.outputs.iter().any(|o| o.script.len() >= 65536) {
        v.push("script of 65536 or more bytes");
    }
    if t.inputs.iter().any(|i| i.witness.len() >= 253) {
        v.push("253 or more witness items");
    }
    if t.inputs.iter().any(|i| i.witness.iter().any(|w| w.len() >= 253)) {
        v.push("witness item of 253 or more bytes");
    }
    if t.outputs.is_empty() {
        v.push("no outputs");
    }
    v
}
