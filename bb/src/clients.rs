//! C25 (clients do not disturb each other).
use crate::run::*;
use crate::web::{check, pool, probe, site, Answer, Site, Truth, Want};
use common::http::{Conn, HttpError, Response};
use serde_json::Value;
use std::collections::VecDeque;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{SocketAddr, TcpStream};

pub fn c25(k: &Check) {
    k.rule("crowd: a case is a set of connections and an order in which pieces of their requests are sent, answers read, connections given up and changes of the chain applied; non-trivial if at least 10 requests were answered whose pieces were interleaved with those of others and the chain changed meanwhile. slow readers: answers larger than what the sockets hold are left unread, or read in small pieces, while the chain changes and others are answered; non-trivial if at least one answer was unread while a change was applied. long pauses: clients pause for seconds before, within and between their requests and before they read; non-trivial if a pause was longer than 10 s");
    k.assume("an answer may be computed at any moment between the last piece of its request and the reading of the answer");
    crowd(k);
    slow(k);
    patient(k);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ev {
    /// the next piece of the request of a connection (a new request if the last one is complete)
    Send(u16),
    /// read the oldest answer
    Read(u16),
    Close(u16),
    Change(Vec<Op>),
    Probe(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowd {
    site: Site,
    clients: u16,
    events: Vec<Ev>,
    cuts: Vec<u16>,
}

struct Client {
    stream: Option<BufReader<TcpStream>>,
    /// what is left of the request being sent, and what it asks for
    rest: Option<(Vec<Vec<u8>>, Want, String)>,
    /// complete requests: what, expected, version when completed
    waiting: VecDeque<(String, Want, usize)>,
}

fn connect(addr: SocketAddr) -> R<TcpStream> {
    let s = TcpStream::connect_timeout(&addr, LIMIT).map_err(|e| Fail::Stall(format!("no connection: {}", e)))?;
    s.set_nodelay(true).ok();
    s.set_read_timeout(Some(LIMIT)).ok();
    s.set_write_timeout(Some(LIMIT)).ok();
    Ok(s)
}

fn read_answer(r: &mut impl BufRead) -> Result<Response, HttpError> {
    let io = |e: std::io::Error| match e.kind() {
        std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut => HttpError::Timeout,
        _ => HttpError::Broken(e.to_string()),
    };
    let mut line = String::new();
    if r.read_line(&mut line).map_err(io)? == 0 {
        return Err(HttpError::Broken("closed without a response".into()));
    }
    let status = line.split(' ').nth(1).and_then(|x| x.parse().ok()).ok_or_else(|| HttpError::Broken(format!("bad status line {:?}", line)))?;
    let mut headers: Vec<(String, String)> = vec![];
    loop {
        let mut l = String::new();
        if r.read_line(&mut l).map_err(io)? == 0 {
            return Err(HttpError::Broken("closed in headers".into()));
        }
        match l.trim_end().split_once(':') {
            Some((a, b)) => headers.push((a.trim().to_ascii_lowercase(), b.trim().to_string())),
            None => break,
        }
    }
    let get = |n: &str| headers.iter().find(|h| h.0 == n).map(|h| h.1.clone());
    let mut body = vec![];
    if get("transfer-encoding").map_or(false, |v| v.contains("chunked")) {
        loop {
            let mut l = String::new();
            r.read_line(&mut l).map_err(io)?;
            let n = usize::from_str_radix(l.trim().split(';').next().unwrap_or(""), 16).map_err(|_| HttpError::Broken("bad chunk".into()))?;
            let at = body.len();
            body.resize(at + n, 0);
            r.read_exact(&mut body[at..]).map_err(io)?;
            let mut l = String::new();
            r.read_line(&mut l).map_err(io)?;
            if n == 0 {
                break;
            }
        }
    } else if let Some(n) = get("content-length") {
        body.resize(n.parse().map_err(|_| HttpError::Broken("bad length".into()))?, 0);
        r.read_exact(&mut body).map_err(io)?;
    } else {
        r.read_to_end(&mut body).map_err(io)?;
    }
    Ok(Response { status, headers, body })
}

/// The n-th request of a connection.
fn request(c: usize, n: usize, max: usize, good: bool) -> (Vec<u8>, Want, String) {
    let x = c * 31 + n * 7;
    let l = x % (max + 1);
    let utxos = (x / 3) % 2 == 0;
    let name = if utxos { "utxos" } else { "balance" };
    let addrs: Vec<Addr> = (0..1 + x % 5).map(|i| pool((x + i * 3) as u8)).collect();
    let texts: Vec<String> = addrs.iter().map(|a| a.text()).collect();
    let (bytes, batch, what) = match x % 4 {
        0 => (None, false, format!("/addresses/{}/{}?confirmations={}", texts[0], name, l)),
        1 => (None, true, format!("/addresses/{}?confirmations={}&addresses={}", name, l, texts.join(","))),
        _ => (Some(json!(texts).to_string()), true, format!("/addresses/{}?confirmations={}", name, l)),
    };
    let (what, status) = if good { (what, 200) } else { (what.replace("confirmations=", "confirmations=x"), 400) };
    let text = match &bytes {
        None => format!("GET {} HTTP/1.1\r\nHost: x\r\n\r\n", what),
        Some(b) => format!("POST {} HTTP/1.1\r\nHost: x\r\nContent-Length: {}\r\n\r\n{}", what, b.len(), b),
    };
    let answer = good.then(|| Answer { batch, utxos, addrs: if batch { addrs } else { addrs[..1].to_vec() }, levels: vec![l] });
    (text.into_bytes(), Want { status: vec![status], answer }, format!("{}{}", what, bytes.map_or(String::new(), |b| format!(" with body {}", b))))
}

/// How many connections a case may hold: a part of what one process may open.
fn most() -> usize {
    let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut l) };
    (l.rlim_cur / 12).clamp(16, 4000) as usize
}

fn crowd(k: &Check) {
    crowd_of(k, "crowd", k.n(400, 8000), 8, || prop_oneof![6 => 2u16..12, 3 => 12u16..60, 1 => 100u16..300].boxed());
    crowd_of(k, "hundreds", k.n(8, 160), 4, || prop_oneof![1 => 300u16..600, 2 => 600u16..1600].boxed());
}

fn crowd_of(k: &Check, name: &'static str, cases: u32, jobs: u32, clients: fn() -> BoxedStrategy<u16>) {
    let w = Weights { mine: 4, reorg: 1, back: 1, mem: 3, sync: 0, restart: 0 };
    let ev = move || {
        prop_oneof![
            24 => any::<u16>().prop_map(Ev::Send),
            12 => any::<u16>().prop_map(Ev::Read),
            1 => any::<u16>().prop_map(Ev::Close),
            1 => prop::collection::vec(op(w), 1..3).prop_map(Ev::Change),
            1 => any::<u8>().prop_map(Ev::Probe),
        ]
    };
    let s = move || {
        (site(), clients(), prop::collection::vec(ev(), 40..220), prop::collection::vec(1u16..400, 1..12))
            .prop_map(|(site, clients, events, cuts)| Crowd { site, clients, events, cuts })
    };
    k.section(name, cases, jobs, s, |v: &Crowd, info| {
        let (mut w, truth) = v.site.start()?;
        let addr = w.ix().addr;
        let max = truth.max();
        let mut truths = vec![truth];
        let mut clients: Vec<Client> = vec![];
        let number = (v.clients as usize).min(most());
        for _ in 0..number {
            clients.push(Client { stream: Some(BufReader::new(connect(addr)?)), rest: None, waiting: VecDeque::new() });
        }
        if number >= 100 {
            info.label(if number >= 500 { "500 or more connections" } else { "100 or more connections" });
        }
        let (mut n, mut cut, mut answered, mut changed, mut mixed) = (0, 0, 0, false, 0);
        let take = |c: &mut Client, truths: &Vec<Truth>| -> R<bool> {
            let Some((what, want, from)) = c.waiting.pop_front() else { return Ok(false) };
            let r = match read_answer(c.stream.as_mut().unwrap()) {
                Ok(r) => r,
                Err(HttpError::Timeout) => return Err(Fail::Stall(format!("no answer to {} among other clients", what))),
                Err(e) => return bad(format!("no answer to {} among other clients: {:?}", what, e)),
            };
            if r.header("connection").map_or(false, |v| v.to_ascii_lowercase().contains("close")) {
                *c = Client { stream: None, rest: None, waiting: VecDeque::new() };
            }
            let mut res = Ok(0);
            for t in &truths[from..] {
                res = check(&format!("{} among other clients", what), false, &r, &want, t);
                if res.is_ok() {
                    break;
                }
            }
            res?;
            Ok(true)
        };
        for e in &v.events {
            match e {
                Ev::Send(i) => {
                    let others = clients.iter().filter(|c| c.rest.is_some()).count();
                    let at = *i as usize % clients.len();
                    let c = &mut clients[at];
                    if c.stream.is_none() {
                        c.stream = Some(BufReader::new(connect(addr)?));
                    }
                    if c.rest.is_none() {
                        if c.waiting.len() >= 6 {
                            continue;
                        }
                        n += 1;
                        let (bytes, want, what) = request(at, n, max, n % 9 != 0);
                        let mut pieces = vec![];
                        let mut rest = &bytes[..];
                        while !rest.is_empty() {
                            let m = (v.cuts[cut % v.cuts.len()] as usize).min(rest.len());
                            cut += 1;
                            pieces.push(rest[..m].to_vec());
                            rest = &rest[m..];
                        }
                        pieces.reverse();
                        c.rest = Some((pieces, want, what));
                    }
                    let (pieces, _, what) = c.rest.as_mut().unwrap();
                    let p = pieces.pop().unwrap();
                    if others > 0 {
                        mixed += 1;
                    }
                    if let Err(e) = c.stream.as_mut().unwrap().get_mut().write_all(&p) {
                        return bad(format!("the connection was given up while {} was being sent: {}", what, e));
                    }
                    if pieces.is_empty() {
                        let (_, want, what) = c.rest.take().unwrap();
                        c.waiting.push_back((what, want, truths.len() - 1));
                    }
                }
                Ev::Read(i) => {
                    let at = *i as usize % clients.len();
                    let at = (0..clients.len()).map(|d| (at + d) % clients.len()).find(|x| !clients[*x].waiting.is_empty()).unwrap_or(at);
                    answered += take(&mut clients[at], &truths)? as usize;
                }
                Ev::Close(i) => {
                    let at = *i as usize % clients.len();
                    if clients[at].rest.is_some() || !clients[at].waiting.is_empty() {
                        info.label("given up in the middle");
                    }
                    clients[at] = Client { stream: None, rest: None, waiting: VecDeque::new() };
                }
                Ev::Change(ops) => {
                    for o in ops {
                        changed |= w.apply(o).is_some();
                    }
                    w.sync()?;
                    truths.push(Truth::of(&w));
                    info.label("change");
                }
                Ev::Probe(i) => probe(&mut Conn::new(addr, LIMIT), *i as usize, truths.last().unwrap(), "others have sent parts of requests")?,
            }
        }
        for c in clients.iter_mut() {
            while take(c, &truths)? {
                answered += 1;
            }
        }
        info.nontrivial = answered >= 10 && mixed >= 10 && changed;
        w.sync()?;
        w.compare([0, max])
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Slow {
    confirmations: u8,
    blocks: Vec<BlockPlan>,
    /// outputs of one transaction, confirmed or not
    bulk: u16,
    unconfirmed: bool,
    /// per reader: level, balance list instead of outputs, with GET, bytes read per step, ends (0: reads all, 1: closes, 2: never reads)
    readers: Vec<(u8, bool, bool, u32, u8)>,
    steps: Vec<Vec<Op>>,
}

fn slow(k: &Check) {
    let w = Weights { mine: 4, reorg: 1, back: 1, mem: 3, sync: 0, restart: 0 };
    let s = move || {
        (
            1u8..5,
            prop::collection::vec(block_plan(3), 1..6),
            300u16..900,
            any::<bool>(),
            prop::collection::vec((any::<u8>(), prop::bool::weighted(0.2), any::<bool>(), prop_oneof![2 => Just(0u32), 1 => 1u32..5000, 1 => 5000u32..500000], 0u8..3), 1..5),
            prop::collection::vec(prop::collection::vec(op(w), 1..3), 1..5),
        )
            .prop_map(|(confirmations, blocks, bulk, unconfirmed, readers, steps)| Slow { confirmations, blocks, bulk, unconfirmed, readers, steps })
    };
    k.section("slow readers", k.n(48, 1200), 6, s, |v: &Slow, info| {
        let c = v.confirmations as usize;
        let mut sim = chain(&v.blocks, c);
        let big = TxPlan { ins: vec![3], outs: vec![OutPlan { kind: 0, addr: 1, w: 3 }], segwit: false, len: 1, bulk: v.bulk };
        if v.unconfirmed {
            sim.apply(&Op::MemAdd(vec![big]), c);
        } else {
            sim.mine(&BlockPlan { coinbase: vec![OutPlan { kind: 0, addr: 2, w: 1 }], value: 0, take: 0, txs: vec![big] });
            for _ in 0..c {
                sim.mine(&empty_block());
            }
        }
        let mut w = World::new(sim, &Conf { threads: 2, batch: 5, confirmations: v.confirmations }, &plain_layout())?;
        w.start()?;
        w.sync()?;
        let mut truth = Truth::of(&w);
        let addr = w.ix().addr;
        let all = all_addresses();
        struct Reader {
            stream: BufReader<TcpStream>,
            want: (bool, usize, Vec<Addr>),
            what: String,
            got: Vec<u8>,
            step: usize,
            end: u8,
        }
        let mut readers = vec![];
        for (level, balance, get, step, end) in &v.readers {
            let l = if v.unconfirmed { 0 } else { *level as usize % (c + 1) };
            let per: usize = if *balance { 60 * all.len() } else { all.iter().map(|a| 80 + 100 * truth.utxos(l, a).len()).sum() };
            // about 8 MB of answer; the list in a GET is limited by the length of a request line
            let times = if *get && !*balance { (7 << 20) / per.max(1) + 1 } else { ((7 << 20) / per.max(1) + 1).min(if *balance { 6000 } else { usize::MAX }) };
            let get = *get && times * all.len() * 36 < 60000;
            let addrs: Vec<Addr> = (0..times).flat_map(|_| all.iter().copied()).collect();
            let name = if *balance { "balance" } else { "utxos" };
            let texts: Vec<String> = addrs.iter().map(|a| a.text()).collect();
            let what = format!("a large answer ({} for {} addresses at level {})", name, addrs.len(), l);
            let text = if get {
                format!("GET /addresses/{}?confirmations={}&addresses={} HTTP/1.1\r\nHost: x\r\n\r\n", name, l, texts.join(","))
            } else {
                let b = serde_json::to_string(&texts).unwrap();
                format!("POST /addresses/{}?confirmations={} HTTP/1.1\r\nHost: x\r\nContent-Length: {}\r\n\r\n{}", name, l, b.len(), b)
            };
            let mut s = connect(addr)?;
            receive_buffer(&s, 16 << 10);
            s.write_all(text.as_bytes()).map_err(|e| Fail::Violation(format!("{}: the request was not taken: {}", what, e)))?;
            let mut stream = BufReader::with_capacity(1, s);
            // the head of the answer has come: its state is that of now
            let mut first = [0u8; 12];
            match stream.read_exact(&mut first) {
                Ok(()) => {}
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => return Err(Fail::Stall(format!("{}: no answer", what))),
                Err(e) => return bad(format!("{}: {}", what, e)),
            }
            readers.push(Reader { stream, want: (*balance, l, addrs), what, got: first.to_vec(), step: *step as usize, end: *end });
        }
        let before = Truth { levels: truth.levels.clone() };
        for (n, ops) in v.steps.iter().enumerate() {
            for o in ops {
                if w.apply(o).is_some() {
                    info.nontrivial = true;
                }
            }
            w.sync()?;
            truth = Truth::of(&w);
            w.compare([0, c])?;
            probe(&mut Conn::new(addr, LIMIT), n, &truth, "others have not read their answers")?;
            for r in readers.iter_mut() {
                let mut b = vec![0; r.step];
                r.stream.get_ref().set_read_timeout(Some(Duration::from_millis(2))).ok();
                if let Ok(n) = r.stream.get_mut().read(&mut b) {
                    r.got.extend_from_slice(&b[..n]);
                }
            }
        }
        for mut r in readers {
            if r.end == 1 {
                info.label("given up");
                continue;
            }
            if r.end == 2 {
                info.label("read by nobody");
                std::mem::forget(r.stream.into_inner().shutdown(std::net::Shutdown::Write));
                continue;
            }
            info.label("read to the end");
            let s = r.stream.get_mut();
            s.set_read_timeout(Some(LIMIT)).ok();
            receive_buffer(s, 8 << 20);
            let mut rest = Rest { head: &r.got, s };
            let mut all = BufReader::with_capacity(1 << 16, &mut rest);
            let (status, body) = match read_answer(&mut all) {
                Ok(r) => (r.status, r.body),
                Err(HttpError::Timeout) => return Err(Fail::Stall(format!("{}: the rest never comes", r.what))),
                Err(e) => return bad(format!("{}, read slowly: {:?}", r.what, e)),
            };
            if status != 200 {
                return bad(format!("{} answered {}", r.what, status));
            }
            if body.len() > 6 << 20 {
                info.label("more than 6 MiB");
            }
            let x: Value = serde_json::from_slice(&body).map_err(|e| Fail::Violation(format!("{}, read slowly: not JSON: {}", r.what, e)))?;
            let err = |e: String| Fail::Violation(format!("{}, read slowly: {}", r.what, e));
            let (balance, l, addrs) = &r.want;
            if *balance {
                for (a, g) in addrs.iter().zip(parse_balance_batch(&x, addrs).map_err(err)?) {
                    if before.balance(*l, a) != g {
                        return bad(format!("{}, read slowly: {} has {} sat, not {}", r.what, a.text(), before.balance(*l, a), g));
                    }
                }
            } else {
                let want: BTreeMap<Addr, BTreeMap<OutPoint, u64>> = all_addresses().iter().map(|a| (*a, before.utxos(*l, a))).collect();
                for (a, g) in addrs.iter().zip(parse_utxo_batch(&x, addrs).map_err(err)?) {
                    if want[a] != g {
                        return bad(format!("{}, read slowly: {}", r.what, diff(a, *l, &want[a], &g)));
                    }
                }
            }
        }
        w.sync()?;
        w.compare([0, c])
    });
}

fn receive_buffer(s: &TcpStream, n: libc::c_int) {
    use std::os::fd::AsRawFd;
    unsafe { libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, &n as *const _ as *const libc::c_void, 4) };
}

struct Rest<'a> {
    head: &'a [u8],
    s: &'a mut TcpStream,
}

impl Read for Rest<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.head.is_empty() {
            return self.s.read(b);
        }
        let n = self.head.len().min(b.len());
        b[..n].copy_from_slice(&self.head[..n]);
        self.head = &self.head[n..];
        Ok(n)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Patient {
    site: Site,
    /// per client: place in a request (254: its end), and a pause there in milliseconds
    pauses: Vec<Vec<(u8, u32)>>,
}

fn patient(k: &Check) {
    k.watch(600);
    let longest = k.n(33_000, 130_000);
    let s = move || {
        let pause = prop_oneof![3 => 300u32..3000, 3 => 3000u32..12_000, 2 => 12_000u32..longest];
        let place = prop_oneof![4 => any::<u8>(), 1 => Just(0u8), 1 => Just(255u8), 1 => Just(254u8)];
        (site(), prop::collection::vec(prop::collection::vec((place, pause), 1..3), 40)).prop_map(|(site, pauses)| Patient { site, pauses })
    };
    k.section("long pauses", k.n(8, 40), 8, s, |v: &Patient, info| {
        let (mut w, truth) = v.site.start()?;
        let addr = w.ix().addr;
        let max = truth.max();
        let mut long = 0;
        let results: Vec<R> = std::thread::scope(|sc| {
            let mut handles = vec![];
            for (at, pauses) in v.pauses.iter().enumerate() {
                // what the clients together would take, limited to about one longest pause each
                let mut left = longest;
                let mut plan = vec![];
                for (place, ms) in pauses {
                    let ms = (*ms).min(left);
                    left -= ms;
                    long = long.max(ms);
                    plan.push((*place, ms));
                }
                let truth = &truth;
                handles.push(sc.spawn(move || -> R {
                    let mut stream = BufReader::new(connect(addr)?);
                    for (n, (place, ms)) in plan.into_iter().enumerate() {
                        let (bytes, want, what) = request(at, n, max, n % 9 != 8);
                        let cut = (bytes.len() * place as usize / 254).clamp(1, bytes.len());
                        let text = format!("{}, sent with a pause of {} ms before byte {} of {}", what, ms, cut, bytes.len());
                        let lost = |e: std::io::Error| Fail::Violation(format!("{}: the connection was given up: {}", text, e));
                        let s = stream.get_mut();
                        s.write_all(&bytes[..cut]).map_err(lost)?;
                        std::thread::sleep(Duration::from_millis(ms as u64));
                        s.write_all(&bytes[cut..]).map_err(lost)?;
                        let r = match read_answer(&mut stream) {
                            Ok(r) => r,
                            Err(HttpError::Timeout) => return Err(Fail::Stall(format!("{}: no answer", text))),
                            Err(e) => return bad(format!("{}: no answer: {:?}", text, e)),
                        };
                        check(&text, false, &r, &want, truth)?;
                    }
                    Ok(())
                }));
            }
            handles.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for r in results {
            r?;
        }
        info.nontrivial = long > 10_000;
        w.sync()?;
        w.compare([0, max])
    });
}
