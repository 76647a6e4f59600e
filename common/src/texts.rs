//! Address texts: valid ones and everything near them; scripts near the templates.
use crate::btc::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Edit {
    Replace(u16, u8),
    Insert(u16, u8),
    Delete(u16),
    Swap(u16),
    Case(u16),
    /// change the n-th byte of the payload and compute the checksum again
    Append(String),
    Prepend(String),
    Truncate(u16),
    Repeat,
    /// replace by a character of another alphabet
    Unicode(u16, char),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TextPlan {
    pub payload: Vec<u8>,
    /// what the checksum is computed and changed with
    pub sum_xor: [u8; 4],
    pub edits: Vec<Edit>,
    pub free: Option<String>,
}

pub fn bytes20() -> impl Strategy<Value = [u8; 20]> {
    prop_oneof![
        4 => any::<[u8; 20]>(),
        1 => Just([0; 20]),
        1 => Just([0xff; 20]),
        2 => (any::<[u8; 20]>(), 0usize..20).prop_map(|(mut h, n)| {
            h[..n].fill(0);
            h
        }),
    ]
}

fn edit() -> impl Strategy<Value = Edit> {
    prop_oneof![
        6 => (any::<u16>(), any::<u8>()).prop_map(|(i, c)| Edit::Replace(i, c)),
        4 => (any::<u16>(), any::<u8>()).prop_map(|(i, c)| Edit::Insert(i, c)),
        3 => any::<u16>().prop_map(Edit::Delete),
        3 => any::<u16>().prop_map(Edit::Swap),
        2 => any::<u16>().prop_map(Edit::Case),
        2 => prop::sample::select(vec![" ", "\n", "\t", "\0", "1", "l", "=", ",", "\u{feff}", "é"]).prop_map(|s| Edit::Append(s.into())),
        3 => prop::sample::select(vec![" ", "\n", "\t", "\0", "1", "11", "0", "bitcoin:", "\u{feff}"]).prop_map(|s| Edit::Prepend(s.into())),
        1 => any::<u16>().prop_map(Edit::Truncate),
        1 => Just(Edit::Repeat),
        1 => (any::<u16>(), prop::sample::select(vec!['О', 'ﬁ', '１', 'é', '\u{200b}', '😀'])).prop_map(|(i, c)| Edit::Unicode(i, c)),
    ]
}

pub fn text_plan() -> impl Strategy<Value = TextPlan> {
    let payload = prop_oneof![
        6 => (prop_oneof![Just(0u8), Just(5u8)], bytes20()).prop_map(|(v, h)| [&[v][..], &h].concat()),
        3 => (any::<u8>(), bytes20()).prop_map(|(v, h)| [&[v][..], &h].concat()),
        1 => (prop::sample::select(vec![1u8, 4, 6, 111, 196, 128, 255]), bytes20()).prop_map(|(v, h)| [&[v][..], &h].concat()),
        3 => (prop_oneof![Just(0u8), Just(5u8)], prop::collection::vec(any::<u8>(), 0..45)).prop_map(|(v, h)| [&[v][..], &h].concat()),
        1 => (prop_oneof![Just(0u8), Just(5u8)], prop::sample::select(vec![17usize, 18, 19, 21, 22, 23, 24, 25])).prop_map(|(v, n)| {
            let mut p = vec![v];
            p.extend(std::iter::repeat(v).take(n));
            p
        }),
        1 => prop::collection::vec(Just(0u8), 0..40),
    ];
    let sum = prop_oneof![6 => Just([0u8; 4]), 1 => (0usize..4, 0u8..8).prop_map(|(i, b)| { let mut x = [0; 4]; x[i] = 1 << b; x }), 1 => any::<[u8; 4]>()];
    let free = prop_oneof![
        30 => Just(None),
        1 => "[1-9A-HJ-NP-Za-km-z]{0,60}".prop_map(Some),
        1 => ".{0,40}".prop_map(Some),
    ];
    (payload, sum, prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec(edit(), 1..3)], free).prop_map(|(payload, sum_xor, edits, free)| TextPlan { payload, sum_xor, edits, free })
}

impl TextPlan {
    pub fn text(&self) -> String {
        if let Some(f) = &self.free {
            return f.clone();
        }
        let mut sum: [u8; 4] = sha256d(&self.payload)[..4].try_into().unwrap();
        for i in 0..4 {
            sum[i] ^= self.sum_xor[i];
        }
        let mut t: Vec<char> = base58(&[&self.payload[..], &sum].concat()).chars().collect();
        for e in &self.edits {
            let n = t.len().max(1);
            let at = |i: u16| i as usize % n;
            let letter = |c: u8| if c < 200 { B58[c as usize % 58] as char } else { ["0", "O", "I", "l", "+", "/", "=", " ", "-", "_"][c as usize % 10].chars().next().unwrap() };
            match e {
                Edit::Replace(i, c) if !t.is_empty() => t[at(*i)] = letter(*c),
                Edit::Insert(i, c) => t.insert(*i as usize % (t.len() + 1), letter(*c)),
                Edit::Delete(i) if !t.is_empty() => {
                    t.remove(at(*i));
                }
                Edit::Swap(i) if t.len() > 1 => {
                    let i = *i as usize % (t.len() - 1);
                    t.swap(i, i + 1);
                }
                Edit::Case(i) if !t.is_empty() => {
                    let c = &mut t[at(*i)];
                    *c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
                }
                Edit::Append(s) => t.extend(s.chars()),
                Edit::Prepend(s) => {
                    let mut v: Vec<char> = s.chars().collect();
                    v.extend(t);
                    t = v;
                }
                Edit::Truncate(i) => t.truncate(at(*i)),
                Edit::Repeat => t.extend(t.clone()),
                Edit::Unicode(i, c) if !t.is_empty() => t[at(*i)] = *c,
                _ => {}
            }
        }
        t.into_iter().collect()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ScriptPlan {
    /// 0: P2PKH, 1: P2SH, 2: free bytes, 3: P2WPKH, 4: P2PK, 5: P2WSH, 6: P2TR, 7: OP_RETURN
    pub base: u8,
    pub hash: [u8; 20],
    pub free: Vec<u8>,
    /// (position, new byte)
    pub set: Vec<(u8, u8)>,
    /// change the length: negative cuts, positive appends
    pub grow: i8,
    pub front: Vec<u8>,
}

pub fn script_plan() -> impl Strategy<Value = ScriptPlan> {
    (
        prop_oneof![5 => Just(0u8), 5 => Just(1u8), 1 => Just(2u8), 1 => 3u8..8],
        bytes20(),
        prop::collection::vec(any::<u8>(), 0..40),
        prop_oneof![3 => Just(vec![]), 3 => (any::<u8>(), any::<u8>()).prop_map(|x| vec![x]), 1 => (prop::sample::select(vec![0u8, 1, 2, 22, 23, 24]), any::<u8>()).prop_map(|x| vec![x]), 1 => prop::collection::vec((any::<u8>(), any::<u8>()), 2..4)],
        prop_oneof![6 => Just(0i8), 1 => -3i8..0, 1 => 1i8..4],
        prop_oneof![8 => Just(vec![]), 1 => prop::collection::vec(any::<u8>(), 1..3)],
    )
        .prop_map(|(base, hash, free, set, grow, front)| ScriptPlan { base, hash, free, set, grow, front })
}

impl ScriptPlan {
    pub fn script(&self) -> Vec<u8> {
        let h = self.hash;
        let mut s = match self.base {
            0 => Addr::Pkh(h).script(),
            1 => Addr::Sh(h).script(),
            2 => self.free.clone(),
            3 => [&[0u8, 0x14][..], &h].concat(),
            4 => [&[0x21u8, 2][..], &h, &[7; 12], &[0xac]].concat(),
            5 => [&[0u8, 0x20][..], &h, &[7; 12]].concat(),
            6 => [&[0x51u8, 0x20][..], &h, &[7; 12]].concat(),
            _ => [&[0x6au8, 0x14][..], &h].concat(),
        };
        for (i, b) in &self.set {
            if !s.is_empty() {
                let n = s.len();
                s[*i as usize % n] = *b;
            }
        }
        if self.grow < 0 {
            let n = s.len().saturating_sub(-self.grow as usize);
            s.truncate(n);
        } else {
            for i in 0..self.grow {
                s.push([0x87, 0xac, 0x61][i as usize % 3]);
            }
        }
        [&self.front[..], &s].concat()
    }
}
