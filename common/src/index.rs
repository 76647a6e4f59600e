//! The saved index as bytes, written and read independently of the program: u32 number of blocks, per block hash and previous hash;
//! u32 number of unspent outputs, per output transaction id, u32 index, u64 value, a byte 1 with version and hash of its address, or 0.
use crate::btc::*;
use crate::model::Utxo;

pub fn encode(headers: &[(Hash, Hash)], outs: &[(OutPoint, u64, Option<Addr>)]) -> Vec<u8> {
    let mut b = Vec::with_capacity(8 + headers.len() * 64 + outs.len() * 66);
    b.extend_from_slice(&(headers.len() as u32).to_le_bytes());
    for (h, p) in headers {
        b.extend_from_slice(h);
        b.extend_from_slice(p);
    }
    b.extend_from_slice(&(outs.len() as u32).to_le_bytes());
    for (o, v, a) in outs {
        b.extend_from_slice(&o.txid);
        b.extend_from_slice(&o.vout.to_le_bytes());
        b.extend_from_slice(&v.to_le_bytes());
        match a {
            None => b.push(0),
            Some(a) => {
                let (v, h) = match a {
                    Addr::Pkh(h) => (0, h),
                    Addr::Sh(h) => (5, h),
                };
                b.push(1);
                b.push(v);
                b.extend_from_slice(h);
            }
        }
    }
    b
}

pub struct Index {
    pub headers: Vec<(Hash, Hash)>,
    pub utxo: Utxo,
    /// where the version bytes of addresses are
    pub versions: Vec<usize>,
}

pub fn decode(data: &[u8]) -> Result<Index, String> {
    let mut at = 0;
    let mut take = |n: usize, what: &str| {
        let s = data.get(at..at + n).ok_or(format!("{} at byte {} of {} is cut short", what, at, data.len()))?;
        at += n;
        Ok::<_, String>((s, at))
    };
    let mut index = Index { headers: vec![], utxo: Utxo::new(), versions: vec![] };
    let n = u32::from_le_bytes(take(4, "number of blocks")?.0.try_into().unwrap());
    for _ in 0..n {
        let h = take(32, "block hash")?.0.try_into().unwrap();
        let p = take(32, "previous hash")?.0.try_into().unwrap();
        index.headers.push((h, p));
    }
    let n = u32::from_le_bytes(take(4, "number of outputs")?.0.try_into().unwrap());
    for _ in 0..n {
        let txid: Hash = take(32, "transaction id")?.0.try_into().unwrap();
        let vout = u32::from_le_bytes(take(4, "output index")?.0.try_into().unwrap());
        let value = u64::from_le_bytes(take(8, "value")?.0.try_into().unwrap());
        let addr = match take(1, "address mark")?.0[0] {
            0 => None,
            1 => {
                let (a, end) = take(21, "address")?;
                index.versions.push(end - 21);
                let h = a[1..].try_into().unwrap();
                Some(match a[0] {
                    0 => Addr::Pkh(h),
                    5 => Addr::Sh(h),
                    x => return Err(format!("address version {}", x)),
                })
            }
            x => return Err(format!("address mark {}", x)),
        };
        if index.utxo.insert(OutPoint { txid, vout }, (value, addr)).is_some() {
            return Err(format!("output {}:{} is recorded twice", rev_hex(&txid), vout));
        }
    }
    let end = take(0, "")?.1;
    if end != data.len() {
        return Err(format!("{} bytes follow the last output", data.len() - end));
    }
    Ok(index)
}
