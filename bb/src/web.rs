//! C13 (right kind of answer), C14 (endpoints agree, exact amounts).
use crate::run::*;
use common::http::{Conn, HttpError, Response};
use serde_json::Value;
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::sync::Mutex;

/// Everything the index holds, per level and address.
pub struct Truth {
    pub levels: Vec<BTreeMap<Addr, BTreeMap<OutPoint, u64>>>,
}

impl Truth {
    pub fn of(w: &World) -> Truth {
        Truth { levels: (0..=w.c()).map(|l| by_address(&w.expected(l))).collect() }
    }
    pub fn utxos(&self, l: usize, a: &Addr) -> BTreeMap<OutPoint, u64> {
        self.levels[l].get(a).cloned().unwrap_or_default()
    }
    pub fn balance(&self, l: usize, a: &Addr) -> u64 {
        self.levels[l].get(a).map(|m| m.values().sum()).unwrap_or(0)
    }
    pub fn max(&self) -> usize {
        self.levels.len() - 1
    }
}

#[derive(Clone, Debug)]
pub(crate) struct Answer {
    pub batch: bool,
    pub utxos: bool,
    pub addrs: Vec<Addr>,
    /// levels the request may be read as asking for
    pub levels: Vec<usize>,
}

#[derive(Clone, Debug)]
pub(crate) struct Want {
    pub status: Vec<u16>,
    pub answer: Option<Answer>,
}

fn only(s: u16) -> Want {
    Want { status: vec![s], answer: None }
}

fn percent(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && b.get(i + 1).map_or(false, |c| c.is_ascii_hexdigit()) && b.get(i + 2).map_or(false, |c| c.is_ascii_hexdigit()) {
            o.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&o).into_owned()
}

/// values given for a key; true if the query has parts that may or may not be read as giving one
fn values<'a>(query: &'a str, key: &str) -> (Vec<&'a str>, bool) {
    let mut v = Vec::new();
    let mut odd = false;
    for part in query.split('&') {
        let k = part.split('=').next().unwrap();
        if k == key {
            if part.matches('=').count() == 1 {
                v.push(&part[k.len() + 1..]);
            } else {
                odd = true;
            }
        } else if k.contains('%') && percent(k) == key {
            odd = true;
        }
    }
    (v, odd)
}

enum Level {
    Bad,
    Is(usize),
    Maybe(usize),
    Unclear,
}

fn level(v: &str, max: usize) -> Level {
    if v.contains('%') {
        return Level::Unclear;
    }
    let plus = v.starts_with('+');
    let digits = if plus { &v[1..] } else { v };
    if digits.is_empty() || !digits.bytes().all(|c| c.is_ascii_digit()) {
        return Level::Bad;
    }
    let d = digits.trim_start_matches('0');
    let n = if d.is_empty() {
        0
    } else if d.len() > 6 {
        return Level::Bad;
    } else {
        d.parse().unwrap()
    };
    if n > max {
        return Level::Bad;
    }
    if plus || (digits.len() > 1 && digits.starts_with('0')) {
        Level::Maybe(n)
    } else {
        Level::Is(n)
    }
}

/// What the documented interface says about a request, from its text alone.
fn judge(method: &str, target: &str, body: &[u8], max: usize) -> Want {
    let (path, query) = target.split_once('?').unwrap_or((target, ""));
    let seg: Vec<&str> = path.split('/').collect();
    let plain: Vec<String> = seg.iter().map(|s| percent(s)).collect();
    if seg[0] != "" {
        return Want { status: vec![400, 404], answer: None };
    }
    let resource = |s: &str| s == "balance" || s == "utxos";
    let p: Vec<&str> = plain.iter().map(|s| s.as_str()).collect();
    let (batch, last) = match &p[1..] {
        ["addresses", _, r] if resource(r) => (false, *r),
        ["addresses", r] if resource(r) => (true, *r),
        _ => return only(404),
    };
    if method != "GET" && !(batch && method == "POST") {
        return only(404);
    }
    // a percent-encoded resource name may be recognised or not
    let mut loose = if seg[1].contains('%') || seg.last().unwrap().contains('%') { vec![404] } else { vec![] };
    let bad = |mut l: Vec<u16>| {
        l.push(400);
        Want { status: l, answer: None }
    };
    let either = |mut l: Vec<u16>, answer| {
        l.extend([200, 400]);
        Want { status: l, answer }
    };
    // the addresses
    let mut unclear = false;
    let parse = |l: &[&str]| -> Option<Vec<Addr>> { l.iter().map(|a| Addr::of_text(a.as_bytes())).collect() };
    let addrs: Option<Vec<Addr>> = if !batch {
        if seg[2].is_empty() {
            loose.push(404);
        }
        match Addr::of_text(seg[2].as_bytes()) {
            Some(a) => Some(vec![a]),
            None => {
                unclear = Addr::of_text(plain[2].as_bytes()).is_some();
                None
            }
        }
    } else if method == "GET" {
        let (v, odd) = values(query, "addresses");
        let lists: Vec<Option<Vec<Addr>>> = v.iter().map(|x| parse(&x.split(',').collect::<Vec<_>>())).collect();
        unclear = odd || v.iter().any(|x| x.contains('%')) || lists.iter().any(|x| *x != lists[0]);
        lists.first().cloned().flatten()
    } else {
        std::str::from_utf8(body)
            .ok()
            .and_then(|s| serde_json::from_str::<Value>(s).ok())
            .and_then(|v| v.as_array().cloned())
            .and_then(|a| a.iter().map(|x| x.as_str().and_then(|t| Addr::of_text(t.as_bytes()))).collect())
    };
    // the level
    let (v, odd) = values(query, "confirmations");
    let mut levels = Vec::new();
    let mut fuzzy = odd;
    let mut hard = false;
    let mut any_good = v.is_empty();
    for x in &v {
        match level(x, max) {
            Level::Bad => hard = true,
            Level::Is(n) => {
                any_good = true;
                levels.push(n)
            }
            Level::Maybe(n) => {
                any_good = true;
                fuzzy = true;
                levels.push(n)
            }
            Level::Unclear => {
                any_good = true;
                fuzzy = true;
                levels.extend(0..=max)
            }
        }
    }
    if v.is_empty() {
        levels.push(0);
    }
    if odd {
        levels = (0..=max).collect();
        any_good = true;
    }
    if !any_good {
        return bad(loose);
    }
    if unclear {
        return either(loose, None);
    }
    let Some(addrs) = addrs else { return bad(loose) };
    let n = addrs.len();
    let answer = Some(Answer { batch, utxos: last == "utxos", addrs, levels: levels.clone() });
    if fuzzy || hard || levels.len() > 1 {
        return either(loose, answer);
    }
    if batch && n > 100_000 {
        return either(loose, answer);
    }
    if loose.is_empty() {
        Want { status: vec![200], answer }
    } else {
        loose.push(200);
        Want { status: loose, answer }
    }
}

pub(crate) fn check(what: &str, head: bool, r: &Response, want: &Want, truth: &Truth) -> R<u16> {
    if !want.status.contains(&r.status) {
        return bad(format!("{} was answered {} ({}), expected {:?}", what, r.status, cut(&r.text()), want.status));
    }
    if head {
        return Ok(r.status);
    }
    if (r.status == 200 || r.status == 400) && !r.header("content-type").map_or(false, |t| t.to_ascii_lowercase().contains("json")) {
        return bad(format!("{} was answered {} without saying that it is JSON ({:?})", what, r.status, r.headers));
    }
    if r.status == 400 {
        let ok = serde_json::from_slice::<Value>(&r.body).map_or(false, |v| v["message"].as_str().map_or(false, |m| !m.is_empty()));
        if !ok {
            return bad(format!("{} was answered 400 without a JSON error message: {}", what, cut(&r.text())));
        }
    }
    if r.status == 200 {
        let v: Value = match serde_json::from_slice(&r.body) {
            Ok(v) => v,
            Err(e) => return bad(format!("{} was answered 200 with a body that is not JSON ({}): {}", what, e, cut(&r.text()))),
        };
        if let Some(a) = &want.answer {
            let mut err = String::new();
            for l in &a.levels {
                match matches_level(&v, a, *l, truth) {
                    Ok(()) => return Ok(200),
                    Err(e) => err = e,
                }
            }
            return bad(format!("{}: {}", what, err));
        }
    }
    Ok(r.status)
}

fn matches_level(v: &Value, a: &Answer, l: usize, truth: &Truth) -> Result<(), String> {
    let utxo = |a: &Addr, got: &BTreeMap<OutPoint, u64>| {
        let want = truth.utxos(l, a);
        if want == *got {
            Ok(())
        } else {
            Err(diff(a, l, &want, got))
        }
    };
    let bal = |a: &Addr, got: u64| {
        let want = truth.balance(l, a);
        if want == got {
            Ok(())
        } else {
            Err(format!("balance of {} at confirmation level {} is {} sat, expected {}", a.text(), l, got, want))
        }
    };
    match (a.batch, a.utxos) {
        (false, true) => utxo(&a.addrs[0], &parse_utxos(v)?),
        (false, false) => bal(&a.addrs[0], satoshis(v)?),
        (true, true) => parse_utxo_batch(v, &a.addrs)?.iter().zip(&a.addrs).try_for_each(|(g, a)| utxo(a, g)),
        (true, false) => parse_balance_batch(v, &a.addrs)?.iter().zip(&a.addrs).try_for_each(|(g, a)| bal(a, *g)),
    }
}

fn cut(s: &str) -> String {
    if s.len() > 300 {
        format!("{}...", s.chars().take(300).collect::<String>())
    } else {
        s.to_string()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum A {
    Pool(u8),
    Other(bool, [u8; 20]),
    /// one character replaced
    Alter(u8, u8, u8),
    /// two neighbouring characters swapped
    Swap(u8, u8),
    Drop(u8, u8),
    Insert(u8, u8, u8),
    Version(u8, u8),
    Payload(u8, Vec<u8>),
    Sum(u8, u8),
    Ones(u8, u8),
    Case(u8, u8),
    Encoded(u8, u8),
    Text(String),
}

const ALPHA: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz0OIl-_.+!";

pub(crate) fn pool(i: u8) -> Addr {
    let p = all_addresses();
    p[i as usize % p.len()]
}

impl A {
    fn text(&self) -> String {
        match self {
            A::Pool(i) => pool(*i).text(),
            A::Other(sh, h) => (if *sh { Addr::Sh(*h) } else { Addr::Pkh(*h) }).text(),
            A::Alter(i, at, c) => {
                let mut t = pool(*i).text().into_bytes();
                let n = t.len();
                t[*at as usize % n] = ALPHA[*c as usize % ALPHA.len()];
                String::from_utf8(t).unwrap()
            }
            A::Swap(i, at) => {
                let mut t = pool(*i).text().into_bytes();
                let n = *at as usize % (t.len() - 1);
                t.swap(n, n + 1);
                String::from_utf8(t).unwrap()
            }
            A::Drop(i, at) => {
                let mut t = pool(*i).text();
                t.remove(*at as usize % t.len());
                t
            }
            A::Insert(i, at, c) => {
                let mut t = pool(*i).text();
                t.insert(*at as usize % (t.len() + 1), ALPHA[*c as usize % ALPHA.len()] as char);
                t
            }
            A::Version(i, v) => {
                let mut d = vec![*v];
                d.extend(pool_hash(*i as usize));
                base58check(&d)
            }
            A::Payload(v, d) => {
                let mut x = vec![*v];
                x.extend(d);
                base58check(&x)
            }
            A::Sum(i, bit) => {
                let mut d = unbase58(pool(*i).text().as_bytes()).unwrap();
                let n = d.len();
                d[n - 1 - (*bit as usize % 32) / 8] ^= 1 << (bit % 8);
                base58(&d)
            }
            A::Ones(i, n) => format!("{}{}", "1".repeat(*n as usize), pool(*i).text()),
            A::Case(i, at) => {
                let mut t = pool(*i).text().into_bytes();
                let n = t.len();
                t[*at as usize % n] ^= if t[*at as usize % n].is_ascii_alphabetic() { 0x20 } else { 0 };
                String::from_utf8(t).unwrap()
            }
            A::Encoded(i, at) => {
                let t = pool(*i).text();
                let n = *at as usize % t.len();
                format!("{}%{:02X}{}", &t[..n], t.as_bytes()[n], &t[n + 1..])
            }
            A::Text(s) => s.clone(),
        }
    }
}

fn a() -> impl Strategy<Value = A> {
    prop_oneof![
        8 => any::<u8>().prop_map(A::Pool),
        2 => (any::<bool>(), any::<[u8; 20]>()).prop_map(|(s, h)| A::Other(s, h)),
        1 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c)| A::Alter(a, b, c)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| A::Swap(a, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| A::Drop(a, b)),
        1 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c)| A::Insert(a, b, c)),
        1 => (any::<u8>(), prop_oneof![1 => 1u8..10, 1 => any::<u8>()]).prop_map(|(a, b)| A::Version(a, b)),
        1 => (prop_oneof![Just(0u8), Just(5u8)], prop_oneof![2 => prop::collection::vec(any::<u8>(), 0..60), 1 => prop::collection::vec(any::<u8>(), 19..22)]).prop_map(|(a, b)| A::Payload(a, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| A::Sum(a, b)),
        1 => (any::<u8>(), 1u8..4).prop_map(|(a, b)| A::Ones(a, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| A::Case(a, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| A::Encoded(a, b)),
        1 => prop_oneof![
            "[A-Za-z0-9._~!$'()*;:@|-]{0,80}",
            "[1-9A-HJ-NP-Za-km-z]{0,200}",
            Just("balance".to_string()), Just("utxos".to_string()), Just("..".to_string()), Just("bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4".to_string()), Just(String::new()), Just("1".repeat(3000)),
            "(%[0-9A-F]{2}){1,8}"
        ].prop_map(A::Text),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Q {
    Level(u8),
    Over(u8),
    Conf(String),
    Address(A),
    Addresses(Vec<A>),
    Raw(String),
}

fn q() -> impl Strategy<Value = Q> {
    prop_oneof![
        10 => any::<u8>().prop_map(Q::Level),
        2 => any::<u8>().prop_map(Q::Over),
        2 => prop_oneof![
            Just(""), Just("-1"), Just("-0"), Just("+1"), Just("01"), Just("1.0"), Just("1e0"), Just("0x1"), Just("18446744073709551616"), Just("18446744073709551615"),
            Just("4294967296"), Just("99999999999999999999999999"), Just("1%20"), Just("%31"), Just("one"), Just("true"), Just("null"), Just("1,2"), Just("65536"), Just("256")
        ].prop_map(|s| Q::Conf(s.to_string())),
        1 => "[0-9a-z.+-]{1,12}".prop_map(Q::Conf),
        2 => a().prop_map(Q::Address),
        2 => prop::collection::vec(a(), 0..4).prop_map(Q::Addresses),
        2 => prop_oneof![
            "[a-z]{1,6}=[a-z0-9]{0,6}".boxed(), "[a-z=&%]{0,20}".boxed(),
            prop_oneof![Just("confirmations"), Just("confirmations==1"), Just("confirmations=1=1"), Just("Confirmations=1"), Just("&"), Just("="), Just("=1"), Just("addresses"), Just("confirmations[]=1"), Just("%63onfirmations=1"), Just("confirmation=99"), Just(" confirmations=1")].prop_map(|s| s.replace(' ', "_")).boxed(),
            "(x=[0-9]{3}&){1,400}".boxed(),
        ].prop_map(Q::Raw),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum P {
    Single(A),
    Batch,
    Odd(Vec<String>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum B {
    None,
    List(Vec<A>),
    /// with escapes and white space
    Fancy(Vec<A>, u8),
    Mixed(Vec<A>, String, u8),
    Json(String),
    Bytes(Vec<u8>),
    Many(u16, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Req {
    method: u8,
    path: P,
    utxos: bool,
    list: Option<Vec<A>>,
    query: Vec<Q>,
    body: B,
    /// 0: plain, 1: the usual fields of a browser, 2: of another content type, 3: the target with scheme and host
    #[serde(default)]
    head: u8,
}

const HTTP_METHODS: [&str; 10] = ["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "get", "FOO", "TRACE"];

fn req() -> impl Strategy<Value = Req> {
    let json = prop_oneof![
        Just("{}"), Just("null"), Just("\"x\""), Just("[1]"), Just("[null]"), Just("[[]]"), Just("[true]"), Just("[{}]"), Just("1e999"), Just("[1e999]"), Just("["), Just("[]]"), Just("[,]"),
        Just(" [ ] "), Just("\u{feff}[]"), Just("[\"\\ud800\"]"), Just("[\"\\u0000\"]"), Just("{\"addresses\":[]}"), Just("[\"1\u{fffd}\"]"), Just("['x']"), Just("[\"\"]"), Just("[\"é\"]"), Just("[\"日本語のアドレスです\"]")
    ]
    .prop_map(|s| B::Json(s.to_string()));
    let body = prop_oneof![
        3 => Just(B::None),
        8 => prop::collection::vec(a(), 0..5).prop_map(B::List),
        3 => (prop::collection::vec(any::<u8>().prop_map(A::Pool), 1..6), any::<u8>()).prop_map(|(l, e)| B::Fancy(l, e)),
        6 => prop::collection::vec(any::<u8>().prop_map(A::Pool), 0..12).prop_map(B::List),
        2 => (prop::collection::vec(any::<u8>().prop_map(A::Pool), 0..5), prop_oneof![Just("1"), Just("null"), Just("[]"), Just("{}"), Just("true"), Just("\"\"")], any::<u8>()).prop_map(|(a, s, i)| B::Mixed(a, s.to_string(), i)),
        4 => json,
        1 => (100usize..3000).prop_map(|n| B::Json("[".repeat(n))),
        1 => (100usize..300).prop_map(|n| B::Json(format!("{}{}", "[".repeat(n), "]".repeat(n)))),
        1 => prop::collection::vec(any::<u8>(), 0..60).prop_map(B::Bytes),
        1 => (1000u16..8000, any::<bool>()).prop_map(|(n, g)| B::Many(n, g)),
    ];
    let path = prop_oneof![
        6 => a().prop_map(P::Single),
        8 => Just(P::Batch),
        3 => prop::collection::vec(prop_oneof![
            4 => Just("addresses".to_string()), 2 => Just("balance".to_string()), 2 => Just("utxos".to_string()), 2 => any::<u8>().prop_map(|i| pool(i).text()),
            1 => prop_oneof![Just(""), Just("Addresses"), Just("address"), Just("balances"), Just("utxo"), Just("balanc"), Just("xbalance"), Just("balance."), Just("."), Just(".."), Just("%2e"), Just("*"), Just("balance%0a"), Just("addresses%2Fbalance")].prop_map(|s| s.to_string()),
            1 => "[A-Za-z0-9%._~!$'()*+,;:@|-]{0,20}"
        ], 0..5).prop_map(P::Odd),
    ];
    (
        prop_oneof![10 => Just(0u8), 6 => Just(1u8), 2 => 2u8..10],
        path,
        any::<bool>(),
        proptest::option::weighted(0.7, prop_oneof![20 => prop::collection::vec(a(), 0..4), 40 => prop::collection::vec(any::<u8>().prop_map(A::Pool), 1..20), 1 => prop::collection::vec(any::<u8>().prop_map(A::Pool), 200..1700)]),
        prop_oneof![2 => Just(vec![]), 6 => prop::collection::vec(q(), 1..2), 2 => prop::collection::vec(q(), 2..5)],
        body,
        prop_oneof![6 => Just(0u8), 3 => 1u8..4],
    )
        .prop_map(|(method, path, utxos, list, query, body, head)| Req { method, path, utxos, list, query, body, head })
}

impl Req {
    fn build(&self, max: usize) -> (&'static str, String, Option<Vec<u8>>) {
        let r = if self.utxos { "utxos" } else { "balance" };
        let m = HTTP_METHODS[self.method as usize % HTTP_METHODS.len()];
        let mut t = match &self.path {
            P::Single(a) => format!("/addresses/{}/{}", a.text(), r),
            P::Batch => format!("/addresses/{}", r),
            P::Odd(v) => format!("/{}", v.join("/")),
        };
        let mut parts = Vec::new();
        let list = |l: &[A]| format!("addresses={}", l.iter().map(|a| a.text()).collect::<Vec<_>>().join(","));
        if let (P::Batch, 0, Some(l)) = (&self.path, self.method, &self.list) {
            parts.push(list(l));
        }
        for x in &self.query {
            parts.push(match x {
                Q::Level(n) => format!("confirmations={}", *n as usize % (max + 1)),
                Q::Over(n) => format!("confirmations={}", max + 1 + *n as usize % 20),
                Q::Conf(s) => format!("confirmations={}", s),
                Q::Address(a) => format!("address={}", a.text()),
                Q::Addresses(l) => list(l),
                Q::Raw(s) => s.clone(),
            });
        }
        if !parts.is_empty() {
            t.push('?');
            t.push_str(&parts.join("&"));
        }
        let texts = |l: &[A]| l.iter().map(|a| a.text()).collect::<Vec<_>>();
        let body = match &self.body {
            B::None => None,
            B::List(l) => Some(serde_json::to_vec(&texts(l)).unwrap()),
            B::Fancy(l, e) => {
                let sp = ["", " ", "\n\t", "\r\n  "][*e as usize % 4];
                let esc = |t: &String| -> String {
                    let t: String = t.chars().enumerate().map(|(i, c)| if (i + *e as usize) % 5 == 0 { format!("\\u{:04x}", c as u32) } else { c.to_string() }).collect();
                    format!("{}\"{}\"{}", sp, t, sp)
                };
                Some(format!("{}[{}]{}", sp, texts(l).iter().map(esc).collect::<Vec<_>>().join(","), sp).into_bytes())
            }
            B::Mixed(l, s, i) => {
                let mut v: Vec<String> = texts(l).iter().map(|t| json!(t).to_string()).collect();
                v.insert(*i as usize % (v.len() + 1), s.clone());
                Some(format!("[{}]", v.join(" , ")).into_bytes())
            }
            B::Json(s) => Some(s.clone().into_bytes()),
            B::Bytes(b) => Some(b.clone()),
            B::Many(n, good) => {
                let mut v: Vec<String> = (0..*n).map(|i| pool((i % 31) as u8).text()).collect();
                if !good {
                    v.last_mut().unwrap().pop();
                }
                Some(serde_json::to_vec(&v).unwrap())
            }
        };
        (m, t, body)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(crate) struct Site {
    confirmations: u8,
    blocks: Vec<BlockPlan>,
    mem: Vec<TxPlan>,
}

pub(crate) fn site() -> impl Strategy<Value = Site> {
    (1u8..7, prop::collection::vec(block_plan(4), 2..8), prop::collection::vec(tx_plan(), 0..4)).prop_map(|(confirmations, blocks, mem)| Site { confirmations, blocks, mem })
}

impl Site {
    pub(crate) fn start(&self) -> R<(World, Truth)> {
        let conf = Conf { threads: 2, batch: 10, confirmations: self.confirmations };
        let mut sim = chain(&self.blocks, self.confirmations as usize);
        sim.apply(&Op::MemAdd(self.mem.clone()), self.confirmations as usize);
        let mut w = World::new(sim, &conf, &plain_layout())?;
        w.start()?;
        w.sync()?;
        let t = Truth::of(&w);
        Ok((w, t))
    }
}

/// A good request whose answer is known.
pub(crate) fn probe(conn: &mut Conn, n: usize, truth: &Truth, after: &str) -> R {
    let l = n % (truth.max() + 1);
    let addrs: Vec<Addr> = (0..4).map(|i| pool((n * 7 + i) as u8)).collect();
    let utxos = n % 2 == 0;
    let path = format!("/addresses/{}?addresses={}&confirmations={}", if utxos { "utxos" } else { "balance" }, addrs.iter().map(|a| a.text()).collect::<Vec<_>>().join(","), l);
    let want = Want { status: vec![200], answer: Some(Answer { batch: true, utxos, addrs, levels: vec![l] }) };
    match conn.request("GET", &path, None) {
        Ok(r) => check(&format!("the good request GET {} after {}", path, after), false, &r, &want, truth).map(|_| ()),
        Err(HttpError::Timeout) => Err(Fail::Stall(format!("no answer to a good request after {}", after))),
        Err(e) => bad(format!("no answer to a good request after {}: {:?}", after, e)),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Visit {
    site: Site,
    clients: u8,
    reqs: Vec<Req>,
}

pub fn c13(k: &Check) {
    k.rule("requests: a case is a server state and 20 to 80 requests, each judged from its text by an independent reading of the documented interface; non-trivial if at least one was rightly answered 200, one 400 and one 404. wire: byte-level damage, aborts and half-open connections, each followed by a good request whose answer is known; non-trivial if at least 3 kinds of damage occurred");
    k.assume("requests whose meaning the interface leaves open (repeated or percent-encoded parameters, leading zeros or '+', empty path segment) may be answered 200 or 400");
    let s = || (site(), 1u8..5, prop::collection::vec(req(), 20..80)).prop_map(|(site, clients, reqs)| Visit { site, clients, reqs });
    k.section("requests", k.n(1000, 20000), 8, s, |v: &Visit, info| {
        let (mut w, truth) = v.site.start()?;
        let addr = w.ix().addr;
        let fail: Mutex<Option<Fail>> = Mutex::new(None);
        let seen: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
        std::thread::scope(|s| {
            for c in 0..v.clients as usize {
                let (fail, seen, truth) = (&fail, &seen, &truth);
                s.spawn(move || {
                    let mut conn = Conn::new(addr, LIMIT);
                    let mut good = Conn::new(addr, LIMIT);
                    for (n, r) in v.reqs.iter().enumerate().filter(|(n, _)| n % v.clients as usize == c) {
                        if fail.lock().unwrap().is_some() {
                            return;
                        }
                        let (m, t, body) = r.build(truth.max());
                        if t.len() > 60000 {
                            continue;
                        }
                        let want = judge(m, &t, body.as_deref().unwrap_or(&[]), truth.max());
                        let what = format!("{} {}{}", m, cut(&t), body.as_ref().map_or(String::new(), |b| format!(" with body {}", cut(&String::from_utf8_lossy(b)))));
                        let head = match r.head {
                            1 => "User-Agent: Mozilla/5.0 (X11; Linux x86_64)\r\nAccept: text/html,*/*;q=0.8\r\nAccept-Encoding: gzip, deflate, br\r\nReferer: http://x/\r\nCookie: a=b; address=c\r\n",
                            2 => "content-type: application/x-www-form-urlencoded\r\nX-Forwarded-For: 10.0.0.1\r\nConnection: keep-alive\r\n",
                            _ => "",
                        };
                        let target = if r.head == 3 && t.starts_with('/') { format!("http://x{}", t) } else { t.clone() };
                        let res = match conn.request_with(m, &target, head, body.as_deref()) {
                            Ok(r) => check(&what, m == "HEAD", &r, &want, truth),
                            Err(HttpError::Timeout) => Err(Fail::Stall(format!("no answer to {}", what))),
                            Err(e) => bad(format!("no answer to {}: {:?}", what, e)),
                        };
                        let res = res.and_then(|st| {
                            *seen.lock().unwrap().entry(if want.status.len() > 1 { "open".to_string() } else { st.to_string() }).or_default() += 1;
                            probe(&mut good, n, truth, &what)
                        });
                        if let Err(f) = res {
                            let mut g = fail.lock().unwrap();
                            if g.is_none() {
                                *g = Some(f);
                            }
                            return;
                        }
                    }
                });
            }
        });
        let f = fail.into_inner().unwrap();
        if w.ix().exited().is_some() {
            return Err(w.ix().died(&format!("while answering requests ({:?})", f)));
        }
        if let Some(f) = f {
            return Err(f);
        }
        let seen = seen.into_inner().unwrap();
        info.nontrivial = ["200", "400", "404"].iter().all(|k| seen.contains_key(*k));
        for (k, n) in &seen {
            for _ in 0..*n {
                info.label(format!("answer {}", k));
            }
        }
        w.sync()?;
        w.compare(0..=w.c())
    });
    wire(k);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Dmg {
    /// keep only the first part, then: 0 close, 1 reset, 2 leave open, 3 half-close
    Truncate(u16, u8),
    Replace(u16, u8),
    Insert(u16, Vec<u8>),
    Delete(u16, u8),
    Length(String),
    Header(u16, u16),
    Headers(u16),
    Version(String),
    /// chunked body with the given chunk texts
    Chunks(Vec<String>, bool),
    Pipeline(u8),
    BigAbort(u16),
    Expect,
    Garbage(Vec<u8>),
    Slow(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rough {
    site: Site,
    damages: Vec<(bool, u8, Dmg)>,
}

fn wire(k: &Check) {
    let dmg = || {
        prop_oneof![
            4 => (any::<u16>(), 0u8..4).prop_map(|(a, b)| Dmg::Truncate(a, b)),
            3 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Dmg::Replace(a, b)),
            2 => (any::<u16>(), prop::collection::vec(any::<u8>(), 1..6)).prop_map(|(a, b)| Dmg::Insert(a, b)),
            2 => (any::<u16>(), 1u8..20).prop_map(|(a, b)| Dmg::Delete(a, b)),
            2 => prop_oneof![Just("-1"), Just("99999999999999999999"), Just("18446744073709551615"), Just("abc"), Just("0"), Just("3"), Just("5, 5"), Just(""), Just("1000000000000")].prop_map(|s| Dmg::Length(s.to_string())),
            1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Dmg::Header(a, b)),
            1 => (50u16..400).prop_map(Dmg::Headers),
            1 => prop_oneof![Just("HTTP/1.0"), Just("HTTP/2.0"), Just("HTTP/9.9"), Just(""), Just("HTTP/1.1 x"), Just("http/1.1")].prop_map(|s| Dmg::Version(s.to_string())),
            2 => (prop::collection::vec(prop_oneof![Just("5\r\n[\"1\",\r\n"), Just("0\r\n\r\n"), Just("fffffffffffffffffff\r\n"), Just("zz\r\n"), Just("1\r\n["), Just("-1\r\n"), Just("2;x=y\r\n[]\r\n"), Just("\r\n")].prop_map(|s| s.to_string()), 0..5), any::<bool>()).prop_map(|(a, b)| Dmg::Chunks(a, b)),
            2 => (2u8..12).prop_map(Dmg::Pipeline),
            1 => (200u16..4000).prop_map(Dmg::BigAbort),
            1 => Just(Dmg::Expect),
            2 => prop::collection::vec(any::<u8>(), 0..300).prop_map(Dmg::Garbage),
            1 => any::<u8>().prop_map(Dmg::Slow),
        ]
    };
    let s = move || (site(), prop::collection::vec((any::<bool>(), any::<u8>(), dmg()), 10..60)).prop_map(|(site, damages)| Rough { site, damages });
    k.section("wire", k.n(500, 10000), 8, s, |v: &Rough, info| {
        let (mut w, truth) = v.site.start()?;
        let addr = w.ix().addr;
        let mut good = Conn::new(addr, LIMIT);
        let mut open: Vec<TcpStream> = Vec::new();
        let mut kinds = BTreeSet::new();
        for (n, (post, which, d)) in v.damages.iter().enumerate() {
            let name = format!("{:?}", d);
            let name = name.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string();
            let after = cut(&format!("{:?} ({})", d, if *post { "POST" } else { "GET" }));
            let r = damage(addr, *post, *which, d, &truth, &mut open).and_then(|_| {
                probe(&mut good, n, &truth, &after)?;
                probe(&mut Conn::new(addr, LIMIT), n + 1, &truth, &after)
            });
            if w.ix().exited().is_some() {
                return Err(w.ix().died(&format!("after {}", after)));
            }
            r?;
            info.label(name.clone());
            kinds.insert(name);
        }
        info.nontrivial = kinds.len() >= 3;
        drop(open);
        w.sync()?;
        w.compare(0..=w.c())
    });
}

fn damage(addr: SocketAddr, post: bool, which: u8, d: &Dmg, truth: &Truth, open: &mut Vec<TcpStream>) -> R {
    let a: Vec<Addr> = (0..3).map(|i| pool(which.wrapping_add(i))).collect();
    let l = which as usize % (truth.max() + 1);
    let utxos = which % 2 == 0;
    let texts: Vec<String> = a.iter().map(|x| x.text()).collect();
    let body = serde_json::to_string(&texts).unwrap();
    let res = if utxos { "utxos" } else { "balance" };
    let target = if post { format!("/addresses/{}?confirmations={}", res, l) } else { format!("/addresses/{}?addresses={}&confirmations={}", res, texts.join(","), l) };
    let m = if post { "POST" } else { "GET" };
    let build = |version: &str, extra: &str, length: &str| {
        let mut s = format!("{} {} {}\r\nHost: x\r\n{}", m, target, version, extra);
        if post {
            s.push_str(&format!("Content-Length: {}\r\n", length));
        }
        s.push_str("\r\n");
        if post {
            s.push_str(&body);
        }
        s.into_bytes()
    };
    let len = body.len().to_string();
    let mut base = build("HTTP/1.1", "", &len);
    let want = Want { status: vec![200], answer: Some(Answer { batch: true, utxos, addrs: a.clone(), levels: vec![l] }) };
    let connect = || -> R<TcpStream> {
        let s = TcpStream::connect_timeout(&addr, LIMIT).map_err(|e| Fail::Violation(format!("connection refused: {}", e)))?;
        s.set_nodelay(true).ok();
        s.set_read_timeout(Some(Duration::from_millis(15))).ok();
        s.set_write_timeout(Some(Duration::from_secs(5))).ok();
        Ok(s)
    };
    // send, look briefly at what comes back, then drop
    let send = |bytes: &[u8]| -> R {
        let mut s = connect()?;
        let _ = s.write_all(bytes);
        let mut b = [0; 4096];
        let _ = s.read(&mut b);
        Ok(())
    };
    match d {
        Dmg::Truncate(at, how) => {
            let mut s = connect()?;
            let n = *at as usize % base.len();
            let _ = s.write_all(&base[..n]);
            match how {
                0 => {}
                1 => {
                    // a reset instead of an orderly end
                    use std::os::fd::AsRawFd;
                    let l = libc::linger { l_onoff: 1, l_linger: 0 };
                    unsafe { libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32) };
                }
                2 => open.push(s),
                _ => {
                    let _ = s.shutdown(Shutdown::Write);
                    let mut b = [0; 256];
                    let _ = s.read(&mut b);
                }
            }
            Ok(())
        }
        Dmg::Replace(at, b) => {
            let n = *at as usize % base.len();
            base[n] = *b;
            send(&base)
        }
        Dmg::Insert(at, b) => {
            let n = *at as usize % base.len();
            base.splice(n..n, b.iter().copied());
            send(&base)
        }
        Dmg::Delete(at, c) => {
            let n = *at as usize % base.len();
            let e = (n + *c as usize).min(base.len());
            base.drain(n..e);
            send(&base)
        }
        Dmg::Length(s) => send(&build("HTTP/1.1", if post { "" } else { "Content-Length: 7\r\n" }, s)),
        Dmg::Header(a, b) => send(&build("HTTP/1.1", &format!("{}: {}\r\n", "N".repeat(*a as usize), "v".repeat(*b as usize)), &len)),
        Dmg::Headers(n) => send(&build("HTTP/1.1", &(0..*n).map(|i| format!("X-{}: y\r\n", i)).collect::<String>(), &len)),
        Dmg::Version(v) => send(&build(v, "", &len)),
        Dmg::Chunks(parts, end) => {
            let mut s = format!("POST /addresses/{} HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n", res);
            for p in parts {
                s.push_str(p);
            }
            if *end {
                s.push_str("0\r\n\r\n");
            }
            send(s.as_bytes())?;
            // and a well-formed chunked request
            let mut s = format!("POST /addresses/{}?confirmations={} HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n", res, l);
            for p in body.as_bytes().chunks(1 + which as usize % 40) {
                s.push_str(&format!("{:x}\r\n{}\r\n", p.len(), std::str::from_utf8(p).unwrap()));
            }
            s.push_str("0\r\n\r\n");
            match Conn::new(addr, LIMIT).raw(s.as_bytes(), false) {
                Ok(r) => check("a chunked POST", false, &r, &want, truth).map(|_| ()),
                Err(HttpError::Timeout) => Err(Fail::Stall("no answer to a chunked POST".into())),
                Err(e) => bad(format!("no answer to a chunked POST: {:?}", e)),
            }
        }
        Dmg::Pipeline(n) => {
            let mut all = Vec::new();
            for _ in 0..*n {
                all.extend_from_slice(&base);
            }
            let mut c = Conn::new(addr, LIMIT);
            for i in 0..*n {
                let bytes: &[u8] = if i == 0 { &all } else { &[] };
                match c.raw(bytes, false) {
                    Ok(r) => check(&format!("pipelined request {}", i), false, &r, &want, truth).map(|_| ())?,
                    Err(HttpError::Timeout) => return Err(Fail::Stall(format!("no answer to pipelined request {}", i))),
                    Err(e) => return bad(format!("no answer to pipelined request {}: {:?}", i, e)),
                }
            }
            Ok(())
        }
        Dmg::BigAbort(n) => {
            let v: Vec<String> = (0..*n).map(|i| pool(i as u8).text()).collect();
            let b = serde_json::to_string(&v).unwrap();
            let mut s = connect()?;
            let _ = s.write_all(format!("POST /addresses/utxos HTTP/1.1\r\nHost: x\r\nContent-Length: {}\r\n\r\n{}", b.len(), b).as_bytes());
            if which % 3 == 0 {
                open.push(s);
            }
            Ok(())
        }
        Dmg::Expect => send(&build("HTTP/1.1", "Expect: 100-continue\r\nUpgrade: h2c\r\nConnection: upgrade\r\n", &len)),
        Dmg::Garbage(b) => send(b),
        Dmg::Slow(n) => {
            // two halves far apart in between other requests
            let mut s = connect()?;
            let at = *n as usize % base.len();
            let _ = s.write_all(&base[..at]);
            probe(&mut Conn::new(addr, LIMIT), 0, truth, "the first half of a request on another connection")?;
            let _ = s.write_all(&base[at..]);
            s.set_read_timeout(Some(LIMIT)).ok();
            let mut b = [0; 12];
            match s.read_exact(&mut b) {
                Ok(()) if &b == b"HTTP/1.1 200" => Ok(()),
                r => bad(format!("a request sent in two parts was answered {:?} {:?}", r, String::from_utf8_lossy(&b))),
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Amounts {
    confirmations: u8,
    /// outputs of the coinbase of each block: (address, value)
    blocks: Vec<Vec<(u8, u64)>>,
    spends: Vec<TxPlan>,
    mem: Vec<TxPlan>,
    lists: Vec<(Vec<u8>, u8)>,
}

fn value() -> impl Strategy<Value = u64> {
    prop_oneof![
        1 => Just(0u64), 1 => Just(1u64), 1 => 2u64..1000,
        2 => (0u32..16, 0u64..20).prop_map(|(e, d)| 10u64.pow(e).saturating_add(d).saturating_sub(10)),
        2 => 1u64..100_000_000,
        2 => 1u64..10_000_000_000_000,
        2 => 1u64..2_100_000_000_000_000,
        1 => (0u32..51).prop_map(|e| (1u64 << e) + 1),
        1 => (0u32..51).prop_map(|e| (1u64 << e) - 1),
        1 => (1_000_000_000_000_000u64..2_100_000_000_000_000).prop_map(|v| v | 1),
    ]
}

/// Lists of addresses (and a level) asked for in every form; true if one had repetitions.
fn agree(w: &mut World, truth: &Truth, lists: &[(Vec<u8>, u8)]) -> R<bool> {
    let c = w.c();
    let mut repeated = false;
    for (n, (list, lv)) in lists.iter().enumerate() {
        let addrs: Vec<Addr> = list.iter().map(|i| pool(*i)).collect();
        let set: BTreeSet<Addr> = addrs.iter().copied().collect();
        repeated |= set.len() < addrs.len();
        let texts: Vec<String> = addrs.iter().map(|a| a.text()).collect();
        let body = serde_json::to_vec(&texts).unwrap();
        let levels: Vec<usize> = if n == 0 { (0..=c).collect() } else { vec![*lv as usize % (c + 1)] };
        for l in levels {
            let ask = |w: &mut World, m: &str, path: String, body: Option<&[u8]>| -> R<Value> {
                // the level is also left out now and then when it is the default
                let sep = if path.contains('?') { '&' } else { '?' };
                let path = if l == 0 && lv % 2 == 0 { path } else { format!("{}{}confirmations={}", path, sep, l) };
                w.ix().json(m, &path, body)
            };
            let vio = |p: &str, l: usize, e: String| Fail::Violation(format!("{} at level {}: {}", p, l, e));
            // one by one
            let mut one_u = BTreeMap::new();
            let mut one_b = BTreeMap::new();
            for a in &set {
                let p = format!("/addresses/{}/utxos", a.text());
                let got = parse_utxos(&ask(w, "GET", p.clone(), None)?).map_err(|e| vio(&p, l, e))?;
                let want = truth.utxos(l, a);
                if got != want {
                    return bad(format!("GET {}: {}", p, diff(a, l, &want, &got)));
                }
                let p = format!("/addresses/{}/balance", a.text());
                let b = satoshis(&ask(w, "GET", p.clone(), None)?).map_err(|e| vio(&p, l, e))?;
                let sum: u64 = got.values().sum();
                if b != sum {
                    return bad(format!("GET {} at level {} is {} sat, but its outputs add up to {}", p, l, b, sum));
                }
                one_u.insert(*a, got);
                one_b.insert(*a, b);
            }
            for m in ["GET", "POST"] {
                let q = if m == "GET" { format!("?addresses={}", texts.join(",")) } else { String::new() };
                let bd = if m == "GET" { None } else { Some(&body[..]) };
                let p = format!("{} /addresses/utxos", m);
                let got = parse_utxo_batch(&ask(w, m, format!("/addresses/utxos{}", q), bd)?, &addrs).map_err(|e| vio(&p, l, e))?;
                for (a, g) in addrs.iter().zip(&got) {
                    if one_u[a] != *g {
                        return bad(format!("{} and the single endpoint differ: {}", p, diff(a, l, &one_u[a], g)));
                    }
                }
                let p = format!("{} /addresses/balance", m);
                let got = parse_balance_batch(&ask(w, m, format!("/addresses/balance{}", q), bd)?, &addrs).map_err(|e| vio(&p, l, e))?;
                for (a, g) in addrs.iter().zip(&got) {
                    if one_b[a] != *g {
                        return bad(format!("{} says {} sat for {} at level {}, the single endpoint {}", p, g, a.text(), l, one_b[a]));
                    }
                }
            }
        }
    }
    Ok(repeated)
}

pub fn c14(k: &Check) {
    k.rule("a case is a ledger with chosen amounts and address lists with repetitions, queried at every level in every form; non-trivial if a listed address is repeated and at least 3 different non-zero amounts are served");
    let s = || {
        let list = prop_oneof![
            3 => prop::collection::vec(any::<u8>(), 1..8), 3 => prop::collection::vec(0u8..6, 2..30), 1 => prop::collection::vec(any::<u8>(), 100..400), 1 => prop::collection::vec(0u8..20, 1200..1500)
        ];
        (
            1u8..5,
            prop::collection::vec(prop::collection::vec((0u8..18, value()), 1..8), 1..8),
            prop::collection::vec(tx_plan(), 0..4),
            prop::collection::vec(tx_plan(), 0..4),
            prop::collection::vec((list, any::<u8>()), 1..5),
        )
            .prop_map(|(confirmations, blocks, spends, mem, lists)| Amounts { confirmations, blocks, spends, mem, lists })
    };
    k.section("amounts", k.n(1700, 40000), 8, s, |v: &Amounts, info| {
        let c = v.confirmations as usize;
        let mut sim = Sim::default();
        let mut left = 2_100_000_000_000_000u64;
        let pad = (c + 1).saturating_sub(v.blocks.len());
        let filler = vec![(0u8, 0u64)];
        for (n, outs) in v.blocks.iter().chain(std::iter::repeat(&filler).take(pad)).enumerate() {
            let outputs = outs
                .iter()
                .map(|(a, x)| {
                    let x = (*x).min(left);
                    left -= x;
                    TxOut { value: x, script: pool(*a).script() }
                })
                .collect();
            let cb = TxRec::new(Tx {
                version: 1,
                inputs: vec![TxIn { prev: COINBASE, script: vec![3, n as u8, 7], sequence: u32::MAX, witness: vec![] }],
                outputs,
                locktime: n as u32,
                segwit: false,
            });
            let (prev, mut utxo) = match sim.active.last() {
                None => ([0; 32], Utxo::new()),
                Some(i) => (sim.blocks[*i].hash, (*sim.blocks[*i].utxo).clone()),
            };
            cb.apply(&mut utxo);
            let mut txs = vec![cb];
            if let Some(p) = v.spends.get(n) {
                if let Some(t) = sim.make_tx(&utxo, p) {
                    t.apply(&mut utxo);
                    txs.push(t);
                }
            }
            let h = sim.active.len();
            let b = sim.add_block(prev, h, txs, utxo);
            sim.activate(b);
        }
        sim.apply(&Op::MemAdd(v.mem.clone()), c);
        let mut w = World::new(sim, &Conf { threads: 2, batch: 5, confirmations: v.confirmations }, &plain_layout())?;
        w.start()?;
        w.sync()?;
        let truth = Truth::of(&w);
        let repeated = agree(&mut w, &truth, &v.lists)?;
        let amounts: BTreeSet<u64> = truth.levels.iter().flat_map(|m| m.values().flat_map(|u| u.values().copied())).filter(|v| *v > 0).collect();
        info.nontrivial = repeated && amounts.len() >= 3;
        if amounts.iter().any(|v| *v > 1_000_000_000_000_000) {
            info.label("an amount above 10 million coins");
        }
        if amounts.iter().any(|v| *v < 100) {
            info.label("an amount below 100 satoshis");
        }
        Ok(())
    });
    long_lists(k);
    many_outputs(k);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hoard {
    confirmations: u8,
    /// outputs of one address: number, number of the address, value, blocks above
    parts: Vec<(u32, u8, u64, u8)>,
    mem: Vec<TxPlan>,
    /// spends of some of them
    spends: Vec<TxPlan>,
    list: Vec<u8>,
}

/// Addresses with thousands of outputs.
fn many_outputs(k: &Check) {
    let s = || {
        let n = prop_oneof![3 => 200u32..3000, 3 => 3000u32..12000, 1 => 12000u32..40000, 1 => 65000u32..66000];
        (
            1u8..4,
            prop::collection::vec((n, any::<u8>(), 0u64..30_000_000_000, 0u8..3), 1..4),
            prop::collection::vec(tx_plan(), 0..4),
            prop::collection::vec(tx_plan(), 0..4),
            prop::collection::vec(any::<u8>(), 0..4),
        )
            .prop_map(|(confirmations, parts, mem, spends, list)| Hoard { confirmations, parts, mem, spends, list })
    };
    k.section("thousands of outputs", k.n(16, 300), 8, s, |v: &Hoard, info| {
        let c = v.confirmations as usize;
        let mut sim = chain(&[], c + 1);
        let mut most = 0;
        for (i, (n, a, value, above)) in v.parts.iter().enumerate() {
            let cb = TxRec::new(Tx {
                version: 1,
                inputs: vec![TxIn { prev: COINBASE, script: vec![9, i as u8], sequence: u32::MAX, witness: vec![] }],
                outputs: (0..*n).map(|j| TxOut { value: value + j as u64 % 3, script: pool(*a).script() }).collect(),
                locktime: 0,
                segwit: false,
            });
            let tip = &sim.blocks[sim.tip()];
            let (prev, mut utxo) = (tip.hash, (*tip.utxo).clone());
            cb.apply(&mut utxo);
            let mut txs = vec![cb];
            if let Some(t) = v.spends.get(i).and_then(|p| sim.make_tx(&utxo, p)) {
                t.apply(&mut utxo);
                txs.push(t);
            }
            let b = sim.add_block(prev, sim.active.len(), txs, utxo);
            sim.activate(b);
            for _ in 0..*above {
                sim.mine(&empty_block());
            }
            most = most.max(*n);
        }
        sim.apply(&Op::MemAdd(v.mem.clone()), c);
        let mut w = World::new(sim, &Conf { threads: 2, batch: 5, confirmations: v.confirmations }, &plain_layout())?;
        w.start()?;
        w.sync()?;
        let truth = Truth::of(&w);
        let mut list: Vec<u8> = v.parts.iter().map(|p| p.1).collect();
        list.extend(&v.list);
        agree(&mut w, &truth, &[(list, 0)])?;
        if most > 65000 {
            info.label("more than 65000 outputs of one address");
        }
        info.nontrivial = most >= 3000;
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowded {
    confirmations: u8,
    blocks: Vec<BlockPlan>,
    mem: Vec<TxPlan>,
    len: u32,
    salt: u32,
    /// one in so many entries is an address of the ledger
    known: u16,
    spaces: u8,
    /// sizes of the pieces the body is sent in, as chunks or as plain writes
    chunked: bool,
    pieces: Vec<u32>,
    level: u8,
    kind: bool,
}

/// Lists of tens of thousands of addresses, megabytes of request.
fn long_lists(k: &Check) {
    let s = || {
        (
            1u8..4,
            prop::collection::vec(block_plan(3), 1..6),
            prop::collection::vec(tx_plan(), 0..4),
            prop_oneof![2 => 2000u32..20000, 4 => 20000u32..45000, 2 => 45000u32..120000],
            any::<u32>(),
            prop_oneof![Just(2u16), 3u16..500],
            prop_oneof![3 => Just(0u8), 1 => 1u8..20],
            any::<bool>(),
            prop::collection::vec(prop_oneof![1u32..100, 1000u32..20000, 20000u32..300000, 1000000u32..3000000], 1..5),
            any::<u8>(),
            any::<bool>(),
        )
            .prop_map(|(confirmations, blocks, mem, len, salt, known, spaces, chunked, pieces, level, kind)| Crowded { confirmations, blocks, mem, len, salt, known, spaces, chunked, pieces, level, kind })
    };
    k.section("long lists", k.n(40, 1000), 4, s, |v: &Crowded, info| {
        let c = v.confirmations as usize;
        let mut sim = chain(&v.blocks, c + 1);
        sim.apply(&Op::MemAdd(v.mem.clone()), c);
        let mut w = World::new(sim, &Conf { threads: 2, batch: 5, confirmations: v.confirmations }, &plain_layout())?;
        w.start()?;
        w.sync()?;
        let truth = Truth::of(&w);
        let pool = all_addresses();
        let every = (v.known as u32).max(v.len / 1000);
        let addrs: Vec<Addr> = (0..v.len)
            .map(|i| {
                let mut h = [0u8; 20];
                h[..4].copy_from_slice(&(i / 2).to_le_bytes());
                h[4..8].copy_from_slice(&v.salt.to_le_bytes());
                match i % every {
                    0 => pool[((i / every) as usize + v.salt as usize) % pool.len()],
                    x if x % 2 == 0 => Addr::Pkh(h),
                    _ => Addr::Sh(h),
                }
            })
            .collect();
        let sep = format!(",{}", " ".repeat(v.spaces as usize));
        let body = format!("[{}]", addrs.iter().map(|a| format!("\"{}\"", a.text())).collect::<Vec<_>>().join(&sep)).into_bytes();
        info.label(match body.len() {
            x if x > 1 << 22 => "more than 4 MiB",
            x if x > 1 << 20 => "more than 1 MiB",
            _ => "up to 1 MiB",
        });
        info.label(if v.chunked { "chunked" } else { "with its length" });
        info.nontrivial = body.len() > 1 << 20;
        let l = v.level as usize % (c + 1);
        let kind = if v.kind { "utxos" } else { "balance" };
        let addr = w.ix().addr;
        let mut conn = common::http::Conn::new(addr, LIMIT);
        let mut head = format!("POST /addresses/{}?confirmations={} HTTP/1.1\r\nHost: x\r\n", kind, l).into_bytes();
        if v.chunked {
            head.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
            let (mut at, mut i) = (0, 0);
            while at < body.len() {
                let n = (v.pieces[i % v.pieces.len()] as usize).max(if i > 1000 { 100000 } else { 1 }).min(body.len() - at);
                head.extend_from_slice(format!("{:x}\r\n", n).as_bytes());
                head.extend_from_slice(&body[at..at + n]);
                head.extend_from_slice(b"\r\n");
                at += n;
                i += 1;
            }
            head.extend_from_slice(b"0\r\n\r\n");
        } else {
            head.extend_from_slice(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
            head.extend_from_slice(&body);
        }
        let what = format!("POST /addresses/{}?confirmations={} with {} addresses ({} bytes{})", kind, l, addrs.len(), body.len(), if v.chunked { ", chunked" } else { "" });
        let r = match conn.raw(&head, false) {
            Ok(r) => r,
            Err(common::http::HttpError::Timeout) => return Err(Fail::Stall(format!("{}: no answer", what))),
            Err(e) => return bad(format!("{}: {:?}", what, e)),
        };
        if r.status != 200 {
            return bad(format!("{} answered {}: {:.200}", what, r.status, r.text()));
        }
        let x: Value = serde_json::from_slice(&r.body).map_err(|e| Fail::Violation(format!("{}: not JSON: {}", what, e)))?;
        if v.kind {
            let got = parse_utxo_batch(&x, &addrs).map_err(|e| Fail::Violation(format!("{}: {}", what, e)))?;
            for (a, g) in addrs.iter().zip(&got) {
                let want = truth.utxos(l, a);
                if want != *g {
                    return bad(format!("{}: {}", what, diff(a, l, &want, g)));
                }
            }
        } else {
            let got = parse_balance_batch(&x, &addrs).map_err(|e| Fail::Violation(format!("{}: {}", what, e)))?;
            for (a, g) in addrs.iter().zip(&got) {
                let want: u64 = truth.utxos(l, a).values().sum();
                if want != *g {
                    return bad(format!("{}: {} has {} sat, not {}", what, a.text(), want, g));
                }
            }
        }
        Ok(())
    });
}
