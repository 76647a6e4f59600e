//! Independent Bitcoin serialisation, addresses and text encodings (the oracle side).
use sha2::{Digest, Sha256};

pub type Hash = [u8; 32];

pub fn sha256d(data: &[u8]) -> Hash {
    let a = Sha256::digest(data);
    let b = Sha256::digest(a);
    let mut out = [0u8; 32];
    out.copy_from_slice(&b);
    out
}

pub fn hex(data: &[u8]) -> String {
    data.iter().map(|b| format!("{:02x}", b)).collect()
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

pub fn rev_hex(data: &[u8]) -> String {
    let mut v = data.to_vec();
    v.reverse();
    hex(&v)
}

pub fn unrev_hex(s: &str) -> Option<Vec<u8>> {
    let mut v = unhex(s)?;
    v.reverse();
    Some(v)
}

pub const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

/// Schoolbook base conversion: long division of the big-endian digit string.
pub fn base58(data: &[u8]) -> String {
    let zeros = data.iter().take_while(|b| **b == 0).count();
    let mut digits: Vec<u8> = data[zeros..].to_vec();
    let mut out = Vec::new();
    while !digits.is_empty() {
        let mut rem = 0u32;
        let mut q = Vec::new();
        for d in &digits {
            let cur = rem * 256 + *d as u32;
            let x = (cur / 58) as u8;
            rem = cur % 58;
            if !(q.is_empty() && x == 0) {
                q.push(x);
            }
        }
        out.push(B58[rem as usize]);
        digits = q;
    }
    for _ in 0..zeros {
        out.push(b'1');
    }
    out.reverse();
    String::from_utf8(out).unwrap()
}

pub fn unbase58(s: &[u8]) -> Option<Vec<u8>> {
    let mut vals = Vec::new();
    for c in s {
        vals.push(B58.iter().position(|x| x == c)? as u32);
    }
    let zeros = vals.iter().take_while(|v| **v == 0).count();
    let mut digits: Vec<u32> = vals[zeros..].to_vec();
    let mut out = Vec::new();
    while !digits.is_empty() {
        let mut rem = 0u32;
        let mut q = Vec::new();
        for d in &digits {
            let cur = rem * 58 + d;
            let x = cur / 256;
            rem = cur % 256;
            if !(q.is_empty() && x == 0) {
                q.push(x);
            }
        }
        out.push(rem as u8);
        digits = q;
    }
    out.extend(std::iter::repeat(0).take(zeros));
    out.reverse();
    Some(out)
}

pub fn base58check(data: &[u8]) -> String {
    let mut v = data.to_vec();
    v.extend_from_slice(&sha256d(data)[..4]);
    base58(&v)
}

pub fn unbase58check(s: &[u8]) -> Option<Vec<u8>> {
    let v = unbase58(s)?;
    if v.len() < 4 {
        return None;
    }
    let (body, sum) = v.split_at(v.len() - 4);
    if &sha256d(body)[..4] == sum {
        Some(body.to_vec())
    } else {
        None
    }
}

pub fn base64(data: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                out.push(T[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                out.push('=');
            }
        }
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Addr {
    Pkh([u8; 20]),
    Sh([u8; 20]),
}

impl Addr {
    pub fn text(&self) -> String {
        let (v, h) = match self {
            Addr::Pkh(h) => (0u8, h),
            Addr::Sh(h) => (5u8, h),
        };
        let mut d = vec![v];
        d.extend_from_slice(h);
        base58check(&d)
    }

    pub fn script(&self) -> Vec<u8> {
        match self {
            Addr::Pkh(h) => {
                let mut s = vec![0x76, 0xa9, 0x14];
                s.extend_from_slice(h);
                s.extend_from_slice(&[0x88, 0xac]);
                s
            }
            Addr::Sh(h) => {
                let mut s = vec![0xa9, 0x14];
                s.extend_from_slice(h);
                s.push(0x87);
                s
            }
        }
    }

    /// The address a script pays to, by rebuilding the standard script and comparing.
    pub fn of_script(script: &[u8]) -> Option<Addr> {
        let mut h = [0u8; 20];
        if script.len() == 25 {
            h.copy_from_slice(&script[3..23]);
            let a = Addr::Pkh(h);
            if a.script() == script {
                return Some(a);
            }
        }
        if script.len() == 23 {
            h.copy_from_slice(&script[2..22]);
            let a = Addr::Sh(h);
            if a.script() == script {
                return Some(a);
            }
        }
        None
    }

    pub fn of_text(s: &[u8]) -> Option<Addr> {
        let v = unbase58check(s)?;
        if v.len() != 21 {
            return None;
        }
        let mut h = [0u8; 20];
        h.copy_from_slice(&v[1..]);
        match v[0] {
            0 => Some(Addr::Pkh(h)),
            5 => Some(Addr::Sh(h)),
            _ => None,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct OutPoint {
    pub txid: Hash,
    pub vout: u32,
}

pub const COINBASE: OutPoint = OutPoint { txid: [0; 32], vout: u32::MAX };

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TxIn {
    pub prev: OutPoint,
    pub script: Vec<u8>,
    pub sequence: u32,
    pub witness: Vec<Vec<u8>>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TxOut {
    pub value: u64,
    pub script: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tx {
    pub version: i32,
    pub inputs: Vec<TxIn>,
    pub outputs: Vec<TxOut>,
    pub locktime: u32,
    pub segwit: bool,
}

pub fn var_int(n: u64, out: &mut Vec<u8>) {
    if n < 0xfd {
        out.push(n as u8);
    } else if n <= 0xffff {
        out.push(0xfd);
        out.extend_from_slice(&(n as u16).to_le_bytes());
    } else if n <= 0xffff_ffff {
        out.push(0xfe);
        out.extend_from_slice(&(n as u32).to_le_bytes());
    } else {
        out.push(0xff);
        out.extend_from_slice(&n.to_le_bytes());
    }
}

impl Tx {
    fn encode(&self, witness: bool) -> Vec<u8> {
        let mut o = Vec::new();
        o.extend_from_slice(&self.version.to_le_bytes());
        if witness {
            o.extend_from_slice(&[0, 1]);
        }
        var_int(self.inputs.len() as u64, &mut o);
        for i in &self.inputs {
            o.extend_from_slice(&i.prev.txid);
            o.extend_from_slice(&i.prev.vout.to_le_bytes());
            var_int(i.script.len() as u64, &mut o);
            o.extend_from_slice(&i.script);
            o.extend_from_slice(&i.sequence.to_le_bytes());
        }
        var_int(self.outputs.len() as u64, &mut o);
        for x in &self.outputs {
            o.extend_from_slice(&x.value.to_le_bytes());
            var_int(x.script.len() as u64, &mut o);
            o.extend_from_slice(&x.script);
        }
        if witness {
            for i in &self.inputs {
                var_int(i.witness.len() as u64, &mut o);
                for w in &i.witness {
                    var_int(w.len() as u64, &mut o);
                    o.extend_from_slice(w);
                }
            }
        }
        o.extend_from_slice(&self.locktime.to_le_bytes());
        o
    }

    pub fn raw(&self) -> Vec<u8> {
        self.encode(self.segwit)
    }

    pub fn txid(&self) -> Hash {
        sha256d(&self.encode(false))
    }
}

pub fn header(version: u32, prev: &Hash, merkle: &Hash, time: u32, bits: u32, nonce: u32) -> [u8; 80] {
    let mut h = [0u8; 80];
    h[0..4].copy_from_slice(&version.to_le_bytes());
    h[4..36].copy_from_slice(prev);
    h[36..68].copy_from_slice(merkle);
    h[68..72].copy_from_slice(&time.to_le_bytes());
    h[72..76].copy_from_slice(&bits.to_le_bytes());
    h[76..80].copy_from_slice(&nonce.to_le_bytes());
    h
}

pub fn block_raw(header: &[u8; 80], txs: &[Vec<u8>]) -> Vec<u8> {
    let mut o = header.to_vec();
    var_int(txs.len() as u64, &mut o);
    for t in txs {
        o.extend_from_slice(t);
    }
    o
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn known() {
        assert_eq!(base58(b"simply a long string"), "2cFupjhnEsSn59qHXstmK2ffpLv2");
        assert_eq!(unbase58(b"2cFupjhnEsSn59qHXstmK2ffpLv2").unwrap(), b"simply a long string");
        assert_eq!(unbase58(b"1111").unwrap(), vec![0; 4]);
        assert_eq!(base64(b"fooba"), "Zm9vYmE=");
        // genesis block hash from its header
        let mut merkle = unhex("4a5e1e4baab89f3a32518a88c31bc87f618f76673e2cc77ab2127b7afdeda33b").unwrap();
        merkle.reverse();
        let m: Hash = merkle.try_into().unwrap();
        let h = header(1, &[0; 32], &m, 1231006505, 0x1d00ffff, 2083236893);
        assert_eq!(rev_hex(&sha256d(&h)), "000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f");
        assert_eq!(Addr::of_text(b"1A1zP1eP5QGefi2DMPTfTL5SLmv7DivfNa").unwrap().text(), "1A1zP1eP5QGefi2DMPTfTL5SLmv7DivfNa");
        assert!(Addr::of_text(b"1A1zP1eP5QGefi2DMPTfTL5SLmv7DivfNb").is_none());
    }
}
