use common::btc;
use common::texts::text_plan;
use ib::*;
use subject::{base58, base58_check, base64, hex, reverse_hex};

struct Codec {
    name: &'static str,
    encode: fn(&[u8]) -> String,
    encode_into: Option<fn(&[u8], &mut [u8]) -> Option<usize>>,
    decode: fn(&[u8]) -> Option<Vec<u8>>,
    decode_into: fn(&[u8], &mut [u8]) -> Option<usize>,
    std: fn(&[u8]) -> String,
    /// the values a text may be read as; None: it may be refused
    read: fn(&[u8]) -> Vec<Option<Vec<u8>>>,
    /// room a decoder may ask for beyond the result
    slack: usize,
}

fn one(v: Option<Vec<u8>>) -> Vec<Option<Vec<u8>>> {
    vec![v]
}

fn read64(t: &[u8]) -> Vec<Option<Vec<u8>>> {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    // canonical texts have exactly one reading
    let body = t.iter().take_while(|c| **c != b'=').count();
    let lenient = |t: &[u8]| -> Option<Vec<u8>> {
        let mut bits = Vec::new();
        for c in t {
            let v = T.iter().position(|x| x == c)?;
            bits.extend((0..6).rev().map(|i| (v >> i) as u8 & 1));
        }
        Some(bits.chunks_exact(8).map(|b| b.iter().fold(0, |a, x| a << 1 | x)).collect())
    };
    if t[body..].iter().all(|c| *c == b'=') {
        if let Some(v) = lenient(&t[..body]) {
            if btc::base64(&v).as_bytes() == t {
                return vec![Some(v)];
            }
        }
    }
    // anything else is an error, or read leniently (padding and white space carry no meaning)
    let stripped: Vec<u8> = t.iter().copied().filter(|c| *c != b'=' && !c.is_ascii_whitespace()).collect();
    vec![None, lenient(&stripped)]
}

macro_rules! into {
    ($f:path) => {
        |i: &[u8], o: &mut [u8]| {
            struct B<'a>(&'a mut [u8]);
            impl AsMut<[u8]> for B<'_> {
                fn as_mut(&mut self) -> &mut [u8] {
                    self.0
                }
            }
            $f(i, &mut B(o)).ok()
        }
    };
}

const CODECS: &[Codec] = &[
    Codec {
        name: "hex",
        encode: |b| hex::encode(b),
        encode_into: None,
        decode: |t| hex::decode(t).ok(),
        decode_into: into!(hex::decode_into),
        std: |b| btc::hex(b),
        read: |t| one(unhex(t)),
        slack: 0,
    },
    Codec {
        name: "reverse_hex",
        encode: |b| reverse_hex::encode(b),
        encode_into: None,
        decode: |t| reverse_hex::decode(t).ok(),
        decode_into: into!(reverse_hex::decode_into),
        std: |b| btc::rev_hex(b),
        read: |t| {
            one(unhex(t).map(|mut v| {
                v.reverse();
                v
            }))
        },
        slack: 0,
    },
    Codec {
        name: "base58",
        encode: |b| base58::encode(b),
        encode_into: Some(into!(base58::encode_into)),
        decode: |t| base58::decode(t).ok(),
        decode_into: into!(base58::decode_into),
        std: |b| btc::base58(b),
        read: |t| one(btc::unbase58(t)),
        slack: 0,
    },
    Codec {
        name: "base58_check",
        encode: |b| base58_check::encode(b),
        encode_into: Some(into!(base58_check::encode_into)),
        decode: |t| base58_check::decode(t).ok(),
        decode_into: into!(base58_check::decode_into),
        std: |b| btc::base58check(b),
        read: |t| one(btc::unbase58check(t)),
        slack: 4,
    },
    Codec {
        name: "base64",
        encode: |b| base64::encode(b),
        encode_into: Some(into!(base64::encode_into)),
        decode: |t| base64::decode(t).ok(),
        decode_into: into!(base64::decode_into),
        std: |b| btc::base64(b),
        read: read64,
        slack: 0,
    },
];

fn unhex(t: &[u8]) -> Option<Vec<u8>> {
    let d = |c: u8| b"0123456789abcdef".iter().position(|x| *x == c.to_ascii_lowercase()).map(|p| p as u8);
    if t.len() % 2 != 0 {
        return None;
    }
    t.chunks(2).map(|p| Some(d(p[0])? << 4 | d(p[1])?)).collect()
}

fn show(t: &[u8]) -> String {
    String::from_utf8_lossy(t).into_owned()
}

fn encoding(c: &Codec, data: &[u8], dirt: u8, extra: &[u16]) -> R {
    let want = (c.std)(data);
    let got = sut(|| format!("{} encode({})", c.name, btc::hex(data)), || (c.encode)(data))?;
    if got.as_bytes() != want.as_bytes() {
        return bad(format!("{} encodes {} as {:?} instead of {:?}", c.name, btc::hex(data), show(got.as_bytes()), want));
    }
    let back = sut(|| format!("{} decode({:?})", c.name, want), || (c.decode)(want.as_bytes()))?;
    if back.as_deref() != Some(data) {
        return bad(format!("{} decodes its own encoding {:?} of {} as {:?}", c.name, want, btc::hex(data), back.map(|b| btc::hex(&b))));
    }
    if let Some(f) = c.encode_into {
        let n = want.len();
        let mut sizes = vec![0, n / 2, n.saturating_sub(1), n, n + 1];
        sizes.extend(extra.iter().map(|e| *e as usize));
        for size in sizes {
            let mut buffer = vec![dirt; size];
            let r = sut(|| format!("{} encode_into of {} into {} bytes", c.name, btc::hex(data), size), || f(data, &mut buffer))?;
            match r {
                None if size < n => {}
                Some(l) if size >= n && l == n && buffer[..n] == *want.as_bytes() => {}
                _ => return bad(format!("{} encode_into of {} into {} bytes filled with {:#x} gave {:?} {:?} instead of {:?}", c.name, btc::hex(data), size, dirt, r, show(&buffer), want)),
            }
        }
    }
    Ok(())
}

fn decoding(c: &Codec, t: &[u8], dirt: u8, extra: &[u16]) -> R<bool> {
    let want = (c.read)(t);
    let got = sut(|| format!("{} decode({:?})", c.name, show(t)), || (c.decode)(t))?;
    if !want.contains(&got) {
        return bad(format!("{} decodes {:?} ({}) as {:?}, expected one of {:?}", c.name, show(t), btc::hex(t), got, want));
    }
    let n = got.as_ref().map_or(t.len(), |g| g.len());
    let mut sizes = vec![0, n.saturating_sub(1), n, n + 1, n + c.slack, n + c.slack + 7];
    sizes.extend(extra.iter().map(|e| *e as usize));
    for size in sizes {
        let mut buffer = vec![dirt; size];
        let r = sut(|| format!("{} decode_into of {:?} into {} bytes", c.name, show(t), size), || (c.decode_into)(t, &mut buffer))?;
        let fine = match (&got, r) {
            (None, None) => true,
            (None, Some(_)) => false,
            (Some(g), None) => size < g.len() + c.slack,
            (Some(g), Some(l)) => size >= g.len() && l == g.len() && buffer[..l] == g[..],
        };
        if !fine {
            return bad(format!("{} decode_into of {:?} into {} bytes filled with {:#x} gave {:?} {}, while decode gave {:?}", c.name, show(t), size, dirt, r, btc::hex(&buffer), got.map(|g| btc::hex(&g))));
        }
    }
    Ok(got.is_some())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Data {
    codec: u8,
    data: Vec<u8>,
    dirt: u8,
    extra: Vec<u16>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text {
    codec: u8,
    text: Vec<u8>,
    dirt: u8,
    extra: Vec<u16>,
}

fn data() -> impl Strategy<Value = Vec<u8>> {
    prop_oneof![
        8 => prop::collection::vec(any::<u8>(), 0..40),
        3 => prop::collection::vec(prop_oneof![Just(0u8), Just(0xff), any::<u8>()], 0..40),
        2 => (0usize..12, prop::collection::vec(any::<u8>(), 0..30)).prop_map(|(z, v)| [vec![0; z], v].concat()),
        1 => prop::collection::vec(any::<u8>(), 40..300),
        1 => (0usize..80, prop_oneof![Just(0u8), Just(0xff), Just(1)]).prop_map(|(n, b)| vec![b; n]),
    ]
}

fn text() -> impl Strategy<Value = Vec<u8>> {
    let of = |set: &'static [u8]| prop::collection::vec(prop::sample::select(set.to_vec()), 0..50);
    prop_oneof![
        2 => of(b"0123456789abcdefABCDEF"),
        2 => of(btc::B58),
        3 => of(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"),
        2 => (of(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"), 0usize..4).prop_map(|(mut v, n)| { v.extend(vec![b'='; n]); v }),
        1 => of(b"ABCabc019+/= \n-_,.=="),
        1 => of(b"0123456789abcdefgG xX-"),
        1 => of(b"11123abcO0Il"),
        2 => prop::collection::vec(any::<u8>(), 0..40),
        2 => text_plan().prop_map(|p| p.text().into_bytes()),
        // an encoding with one byte changed, added or removed
        6 => (0usize..5, data(), any::<u16>(), any::<u8>(), 0u8..4).prop_map(|(c, d, at, b, how)| {
            let mut t = (CODECS[c].std)(&d).into_bytes();
            let n = t.len();
            match how {
                0 if n > 0 => t[at as usize % n] = b,
                1 => t.insert(at as usize % (n + 1), b),
                2 if n > 0 => { t.remove(at as usize % n); }
                _ if n > 0 => t[at as usize % n] ^= 0x20,
                _ => {}
            }
            t
        }),
    ]
}

fn check(k: &Check) {
    bb::wide::c17(k);
    k.watch(120);
    k.rule("bytes: not empty | texts: not empty (accepted and refused texts are counted apart)");
    k.assume("Base64 texts that are not canonical encodings may be refused or read leniently (padding and white space carry no meaning, incomplete octets are dropped)");
    let extra = || prop::collection::vec(0u16..400, 0..3);
    let s = move || (0u8..5, data(), prop_oneof![Just(0u8), any::<u8>()], extra()).prop_map(|(codec, data, dirt, extra)| Data { codec, data, dirt, extra });
    k.section("bytes", k.n(400000, 15000000), 8, s, |d: &Data, info: &mut Info| {
        let c = &CODECS[d.codec as usize % CODECS.len()];
        info.label(c.name);
        info.nontrivial = !d.data.is_empty();
        encoding(c, &d.data, d.dirt, &d.extra)?;
        decoding(c, (c.std)(&d.data).as_bytes(), d.dirt, &d.extra)?;
        Ok(())
    });
    let s = move || (0u8..5, text(), prop_oneof![Just(0u8), any::<u8>()], extra()).prop_map(|(codec, text, dirt, extra)| Text { codec, text, dirt, extra });
    k.section("texts", k.n(600000, 20000000), 8, s, |d: &Text, info: &mut Info| {
        let c = &CODECS[d.codec as usize % CODECS.len()];
        info.nontrivial = !d.text.is_empty();
        let ok = decoding(c, &d.text, d.dirt, &d.extra)?;
        info.label(format!("{} {}", c.name, if ok { "accepted" } else { "refused" }));
        Ok(())
    });
    // every byte string of up to two bytes, as data and as text
    k.section("short ones", 1, 1, || Just(2u8), |_: &u8, info: &mut Info| {
        info.nontrivial = true;
        std::thread::scope(|s| {
            let all: Vec<_> = CODECS
                .iter()
                .map(|c| {
                    s.spawn(move || -> R {
                        let go = |d: &[u8]| encoding(c, d, 0x5a, &[]).and_then(|_| decoding(c, d, 0x5a, &[]).map(|_| ()));
                        go(&[])?;
                        for a in 0..=255u8 {
                            go(&[a])?;
                            for b in 0..=255u8 {
                                go(&[a, b])?;
                            }
                        }
                        Ok(())
                    })
                })
                .collect();
            all.into_iter().try_for_each(|t| t.join().unwrap())
        })
    });
}

fn main() {
    run("C17", check)
}
