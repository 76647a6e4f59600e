//! A fake bitcoind: JSON-RPC over HTTP on loopback, with transport style, faults and timing under the harness's control.
use crate::btc::*;
use crate::model::Sim;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, VecDeque};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Style {
    pub chunked: bool,
    /// close the connection after every n-th reply (0 = never)
    pub close_every: u8,
    /// bytes per write (0 = everything at once)
    pub split: u16,
    pub pretty: bool,
    pub extra: bool,
    pub reorder: bool,
    /// body ended by closing the connection
    #[serde(default)]
    pub until_close: bool,
    /// chunk extensions and trailer fields
    #[serde(default)]
    pub trailers: bool,
    /// a pause between the parts
    #[serde(default)]
    pub slow: bool,
    /// text of error messages (0: bitcoind's)
    #[serde(default)]
    pub wording: u8,
    /// letters and digits in JSON strings written as escapes
    #[serde(default)]
    pub escape: bool,
    /// head of the reply (0: plain)
    #[serde(default)]
    pub head: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// an RPC error object with this code, HTTP 500
    Rpc(i64),
    /// this HTTP status with a text body
    Http(u16),
    /// HTTP 200 with a body that is not JSON
    Garbage,
    /// HTTP 200 with result null
    Null,
    /// connection closed without a reply
    Close,
    /// reply cut in the middle
    Cut,
    /// valid JSON, result of the wrong type
    WrongType,
    /// hexadecimal result cut short (odd length or truncated object)
    ShortHex,
    /// hexadecimal result cut to its first half (whole bytes)
    HalfHex,
    /// the last n+1 bytes missing
    CutHex(u8),
    /// text of the right length that is not hexadecimal
    NotHex,
    /// the node goes away for good
    Down,
}

pub struct Inject {
    pub method: String,
    /// fire at the nth call (0-based) of the method counted from installation
    pub nth: u64,
    pub fault: Fault,
}

#[derive(Default)]
pub struct Inner {
    pub sim: Sim,
    pub style: Style,
    pub user: String,
    pub pass: String,
    pub polls: u64,
    pub calls: u64,
    pub by_method: BTreeMap<String, u64>,
    pub heights: Vec<u64>,
    pub protocol_errors: Vec<String>,
    pub on_poll: VecDeque<Box<dyn FnOnce(&mut Sim) + Send>>,
    pub transitions: u64,
    /// hold the n-th next call of this method until released; the answer is computed when it is released
    pub hold: Option<(String, u64)>,
    pub held: u64,
    pub released: u64,
    /// number of the poll (getrawmempool call) being served while held
    pub held_poll: u64,
    pub inject: Vec<Inject>,
    pub injected: u64,
    pub stop: bool,
    pub replies: u64,
    pub conns: Vec<TcpStream>,
    /// requests received, answered or not
    pub contacts: u64,
    /// arrival times of the getrawmempool calls
    pub poll_times: Vec<Instant>,
    pub expect_any_auth: bool,
    /// the first call ever received: the call a poll begins with
    pub first: Option<String>,
    /// blocks below this height are pruned: their hashes are known, the blocks are not handed out
    pub pruned_below: usize,
    pub pruned_asked: Vec<usize>,
    /// blocks handed out, and transactions handed out that have been listed ever since
    pub fetched: BTreeMap<Hash, u64>,
    pub known: BTreeMap<Hash, u64>,
    /// the node also returns transactions of blocks
    pub txindex: bool,
    /// connections being served
    pub live: u64,
    /// the next call of this method takes so many milliseconds: before (0) or after the head of the reply (1), or in the middle of its body (2)
    pub nap: Option<(String, u32, u8)>,
    pub naps: u64,
    /// hashes of blocks below the first one of `sim`
    pub below: Vec<Hash>,
}

pub struct Node {
    pub ip: std::net::Ipv4Addr,
    pub port: u16,
    shared: Arc<(Mutex<Inner>, Condvar)>,
}

impl Node {
    pub fn start(sim: Sim) -> std::io::Result<Node> {
        Self::start_at(sim, crate::proc::fresh_ip())
    }

    pub fn start_at(sim: Sim, ip: std::net::Ipv4Addr) -> std::io::Result<Node> {
        let listener = TcpListener::bind((ip, 0))?;
        let port = listener.local_addr()?.port();
        let shared = Arc::new((
            Mutex::new(Inner { sim, user: "user".into(), pass: "password".into(), ..Default::default() }),
            Condvar::new(),
        ));
        let s = shared.clone();
        std::thread::Builder::new().stack_size(256 << 10).spawn(move || {
            for c in listener.incoming() {
                let Ok(c) = c else { continue };
                {
                    let mut g = s.0.lock().unwrap_or_else(|e| e.into_inner());
                    if g.stop {
                        break;
                    }
                    if let Ok(d) = c.try_clone() {
                        g.conns.push(d);
                    }
                    g.live += 1;
                }
                let s = s.clone();
                let _ = std::thread::Builder::new().stack_size(512 << 10).spawn(move || serve(c, s));
            }
        })?;
        Ok(Node { ip, port, shared })
    }

    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        self.shared.0.lock().unwrap_or_else(|e| e.into_inner())
    }

    pub fn with<T>(&self, f: impl FnOnce(&mut Inner) -> T) -> T {
        let r = f(&mut self.lock());
        self.shared.1.notify_all();
        r
    }

    /// Waits until `cond` holds; returns false at the deadline. Wakes on every change and every 20 ms to call `tick`.
    pub fn wait(&self, limit: Duration, mut tick: impl FnMut() -> bool, mut cond: impl FnMut(&Inner) -> bool) -> bool {
        let end = Instant::now() + limit;
        let mut g = self.lock();
        loop {
            if cond(&g) {
                return true;
            }
            if Instant::now() > end {
                return false;
            }
            g = self.shared.1.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
            if cond(&g) {
                return true;
            }
            drop(g);
            if !tick() {
                return false;
            }
            g = self.lock();
        }
    }

    pub fn hold(&self, method: &str, nth: u64) {
        self.with(|i| i.hold = Some((method.to_string(), nth)));
    }

    /// Lets every call held so far go on (and keeps or replaces the pending hold).
    pub fn release(&self) {
        self.with(|i| i.released = i.held);
    }

    /// Stop accepting and drop all connections.
    pub fn down(&self) {
        self.with(|i| {
            i.stop = true;
            for c in i.conns.drain(..) {
                let _ = c.shutdown(std::net::Shutdown::Both);
            }
        });
        let _ = TcpStream::connect((self.ip, self.port));
    }
}

impl Drop for Node {
    fn drop(&mut self) {
        self.down();
    }
}

struct Req {
    method: String,
    path: String,
    headers: BTreeMap<String, String>,
    body: Vec<u8>,
}

fn read_req(r: &mut BufReader<TcpStream>) -> Option<Req> {
    let mut line = String::new();
    if r.read_line(&mut line).ok()? == 0 {
        return None;
    }
    let mut p = line.split_whitespace();
    let method = p.next()?.to_string();
    let path = p.next()?.to_string();
    let mut headers = BTreeMap::new();
    loop {
        let mut l = String::new();
        if r.read_line(&mut l).ok()? == 0 {
            return None;
        }
        let l = l.trim_end_matches(|c| c == '\r' || c == '\n');
        if l.is_empty() {
            break;
        }
        let (k, v) = l.split_once(':')?;
        headers.insert(k.trim().to_ascii_lowercase(), v.trim().to_string());
    }
    let mut body = Vec::new();
    if headers.get("transfer-encoding").map_or(false, |v| v.to_ascii_lowercase().contains("chunked")) {
        loop {
            let mut l = String::new();
            r.read_line(&mut l).ok()?;
            let n = usize::from_str_radix(l.trim(), 16).ok()?;
            let mut b = vec![0; n + 2];
            r.read_exact(&mut b).ok()?;
            body.extend_from_slice(&b[..n]);
            if n == 0 {
                break;
            }
        }
    } else if let Some(n) = headers.get("content-length") {
        body.resize(n.parse().ok()?, 0);
        r.read_exact(&mut body).ok()?;
    }
    Some(Req { method, path, headers, body })
}

enum Outcome {
    Reply(u16, Vec<u8>),
    Close,
    Cut(Vec<u8>),
}

struct Live(Arc<(Mutex<Inner>, Condvar)>);

impl Drop for Live {
    fn drop(&mut self) {
        if let Ok(mut g) = self.0 .0.lock() {
            g.live = g.live.saturating_sub(1);
        }
        self.0 .1.notify_all();
    }
}

fn serve(c: TcpStream, shared: Arc<(Mutex<Inner>, Condvar)>) {
    let _live = Live(shared.clone());
    c.set_nodelay(true).ok();
    let mut w = match c.try_clone() {
        Ok(w) => w,
        Err(_) => return,
    };
    let mut r = BufReader::new(c);
    while let Some(req) = read_req(&mut r) {
        let mut g = shared.0.lock().unwrap_or_else(|e| e.into_inner());
        if g.stop {
            return;
        }
        // the program asks with POST; anything else comes from outside (something that looks at open ports) and is none of its calls
        if req.method != "POST" {
            drop(g);
            let _ = w.write_all(b"HTTP/1.1 405 Method Not Allowed\r\nContent-Length: 0\r\nConnection: close\r\n\r\n");
            let _ = w.shutdown(std::net::Shutdown::Both);
            return;
        }
        g.contacts += 1;
        let parsed: Value = serde_json::from_slice(&req.body).unwrap_or(Value::Null);
        let m = parsed["method"].as_str().unwrap_or("").to_string();
        if let Some((hm, n)) = g.hold.clone() {
            if hm == m || hm == "*" {
                if n == 0 {
                    g.hold = None;
                    g.held += 1;
                    g.held_poll = g.polls + (m == "getrawmempool") as u64;
                    let ticket = g.held;
                    shared.1.notify_all();
                    while g.released < ticket && !g.stop {
                        g = shared.1.wait(g).unwrap();
                    }
                    if g.stop {
                        return;
                    }
                } else {
                    g.hold = Some((hm, n - 1));
                }
            }
        }
        let nap = match &g.nap {
            Some((method, ms, place)) if *method == m => {
                let v = (Duration::from_millis(*ms as u64), *place);
                g.nap = None;
                Some(v)
            }
            _ => None,
        };
        let outcome = handle(&mut g, &req);
        g.replies += 1;
        let style = g.style.clone();
        let close = style.close_every > 0 && g.replies % style.close_every as u64 == 0;
        shared.1.notify_all();
        drop(g);
        let (status, body) = match outcome {
            Outcome::Reply(s, b) => (s, b),
            Outcome::Close => {
                let _ = w.shutdown(std::net::Shutdown::Both);
                return;
            }
            Outcome::Cut(b) => {
                let head = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", b.len());
                let _ = w.write_all(head.as_bytes());
                let _ = w.write_all(&b[..b.len() / 2]);
                let _ = w.shutdown(std::net::Shutdown::Both);
                return;
            }
        };
        let reason = match status {
            200 => "OK",
            401 => "Unauthorized",
            500 => "Internal Server Error",
            _ => "Other",
        };
        // HTTP/1.0 knows no chunks
        let old = style.head == 3 && !style.chunked;
        let close = close || style.until_close || old;
        let mut out = match style.head {
            1 => format!("HTTP/1.1 {} {}\r\ncontent-type:application/json; charset=utf-8\r\nserver: x\r\nkeep-alive:timeout=5\r\n", status, reason),
            2 => {
                let mut h = format!("HTTP/1.1 {} {}\r\n", status, reason);
                for i in 0..40 {
                    h.push_str(&format!("X-Field-{}: {}\r\n", i, "y".repeat(i)));
                }
                h
            }
            3 if old => format!("HTTP/1.0 {} {}\r\n", status, reason),
            4 => format!("HTTP/1.1 {} \r\nContent-Type: text/plain\r\n", status),
            _ => format!("HTTP/1.1 {} {}\r\nContent-Type: application/json\r\nDate: Sat, 17 Sep 2022 00:00:00 GMT\r\n", status, reason),
        }
        .into_bytes();
        if close {
            out.extend_from_slice(b"Connection: close\r\n");
        }
        if style.until_close {
            out.extend_from_slice(b"\r\n");
            out.extend_from_slice(&body);
        } else if style.chunked {
            out.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
            let n = if style.split > 0 { style.split as usize } else { 1000 };
            for part in body.chunks(n) {
                let ext = if style.trailers { ";a=b" } else { "" };
                out.extend_from_slice(format!("{:X}{}\r\n", part.len(), ext).as_bytes());
                out.extend_from_slice(part);
                out.extend_from_slice(b"\r\n");
            }
            out.extend_from_slice(if style.trailers { b"0\r\nX-Sum: 1\r\n\r\n" } else { b"0\r\n\r\n" });
        } else {
            let name = if style.head == 1 { "content-length:" } else { "Content-Length: " };
            out.extend_from_slice(format!("{}{}\r\n\r\n", name, body.len()).as_bytes());
            out.extend_from_slice(&body);
        }
        let ok = if let Some((pause, place)) = nap {
            let at = match place {
                0 => 0,
                1 => out.windows(4).position(|w| w == b"\r\n\r\n").map_or(1, |x| x + 4),
                _ => out.len() - body.len() / 2 - 1,
            };
            let ok = w.write_all(&out[..at]).is_ok();
            std::thread::sleep(pause);
            shared.0.lock().unwrap_or_else(|e| e.into_inner()).naps += 1;
            ok && w.write_all(&out[at..]).is_ok()
        } else if style.split > 0 {
            // bounded number of separate writes
            let n = (style.split as usize).max(out.len() / 40 + 1);
            out.chunks(n).all(|p| {
                if style.slow {
                    std::thread::sleep(Duration::from_micros(60));
                }
                w.write_all(p).is_ok()
            })
        } else {
            w.write_all(&out).is_ok()
        };
        if !ok || close {
            let _ = w.shutdown(std::net::Shutdown::Both);
            return;
        }
    }
}

fn handle(g: &mut Inner, req: &Req) -> Outcome {
    g.calls += 1;
    let want = format!("Basic {}", base64(format!("{}:{}", g.user, g.pass).as_bytes()));
    if !g.expect_any_auth && req.headers.get("authorization") != Some(&want) {
        g.protocol_errors.push(format!("authorization header {:?}, expected {:?} ({} {} {:?})", req.headers.get("authorization"), want, req.method, req.path, req.headers));
        return Outcome::Reply(401, b"".to_vec());
    }
    if req.method != "POST" {
        g.protocol_errors.push(format!("HTTP method {} {}", req.method, req.path));
        return Outcome::Reply(405, b"JSONRPC server handles only POST requests".to_vec());
    }
    if !req.headers.contains_key("host") {
        g.protocol_errors.push("no Host header".into());
    }
    let Ok(v) = serde_json::from_slice::<Value>(&req.body) else {
        g.protocol_errors.push(format!("body is not JSON: {:?}", String::from_utf8_lossy(&req.body)));
        return Outcome::Reply(500, br#"{"result":null,"error":{"code":-32700,"message":"Parse error"},"id":null}"#.to_vec());
    };
    let method = v["method"].as_str().unwrap_or("").to_string();
    let params = v["params"].as_array().cloned().unwrap_or_default();
    let id = v["id"].clone();
    *g.by_method.entry(method.clone()).or_default() += 1;
    if g.first.is_none() {
        g.first = Some(method.clone());
    }
    if method == "getrawmempool" {
        g.polls += 1;
        if g.poll_times.len() < 64 {
            g.poll_times.push(Instant::now());
        }
        if let Some(f) = g.on_poll.pop_front() {
            f(&mut g.sim);
            g.transitions += 1;
        }
    }
    let mut fault = None;
    for inj in g.inject.iter_mut() {
        if inj.method == method || inj.method == "*" {
            if inj.nth == 0 {
                fault = Some(inj.fault.clone());
                inj.nth = u64::MAX;
                break;
            }
            if inj.nth != u64::MAX {
                inj.nth -= 1;
            }
        }
    }
    let mut result = rpc(g, &method, &params);
    if let Some(f) = fault {
        g.injected += 1;
        match f {
            Fault::Rpc(code) => result = Err((code, "injected error".into())),
            Fault::Http(s) => return Outcome::Reply(s, b"injected".to_vec()),
            Fault::Garbage => return Outcome::Reply(200, b"<html>not json".to_vec()),
            Fault::Null => result = Ok(Value::Null),
            Fault::Close => return Outcome::Close,
            Fault::Cut => {
                let b = json!({"result": result.unwrap_or(Value::Null), "error": null, "id": id}).to_string().into_bytes();
                return Outcome::Cut(b);
            }
            Fault::WrongType => result = Ok(json!({"unexpected": true})),
            Fault::ShortHex => {
                if let Ok(Value::String(s)) = &result {
                    result = Ok(json!(s[..s.len() / 2 + (s.len() / 2 + 1) % 2].to_string()));
                } else {
                    result = Ok(json!(["zz"]));
                }
            }
            Fault::HalfHex => {
                if let Ok(Value::String(s)) = &result {
                    result = Ok(json!(s[..s.len() / 4 * 2].to_string()));
                } else {
                    result = Ok(json!(["00"]));
                }
            }
            Fault::CutHex(n) => {
                if let Ok(Value::String(s)) = &result {
                    result = Ok(json!(s[..s.len().saturating_sub(2 * (1 + n as usize))].to_string()));
                } else {
                    result = Ok(json!(["00".repeat(31)]));
                }
            }
            Fault::NotHex => {
                if let Ok(Value::String(s)) = &result {
                    result = Ok(json!("zx".repeat(s.len() / 2)));
                } else {
                    result = Ok(json!(["0z".repeat(32)]));
                }
            }
            Fault::Down => {
                g.stop = true;
                for c in g.conns.drain(..) {
                    let _ = c.shutdown(std::net::Shutdown::Both);
                }
                return Outcome::Close;
            }
        }
    }
    let (status, res, err) = match result {
        Ok(r) => (200, r, Value::Null),
        Err((code, msg)) => {
            let msg = match g.style.wording {
                0 => msg,
                1 => "".into(),
                2 => "Block not found".into(),
                3 => "Block height out of range".into(),
                4 => "No such mempool or blockchain transaction. Use gettransaction for wallet transactions.".into(),
                _ => "{\"code\":-1} \u{1f980} \n".repeat(20),
            };
            (500, Value::Null, json!({"code": code, "message": msg}))
        }
    };
    let s = &g.style;
    let escaped = |v: Value| -> String {
        let t = v.to_string();
        if !s.escape {
            return t;
        }
        // only plain strings and lists of them are rewritten
        let mut out = String::new();
        let mut inside = false;
        for (i, ch) in t.chars().enumerate() {
            if ch == '"' {
                inside = !inside;
                out.push(ch);
            } else if inside && ch.is_ascii_alphanumeric() && i % 5 == 1 {
                out.push_str(&format!("\\u{:04x}", ch as u32));
            } else {
                out.push(ch);
            }
        }
        out
    };
    let mut text = String::new();
    let mut fields: Vec<(String, String)> = vec![("result".into(), escaped(res)), ("error".into(), err.to_string()), ("id".into(), id.to_string())];
    if s.extra {
        fields.push(("jsonrpc".into(), "\"1.0\"".into()));
        fields.insert(0, ("x".into(), "{\"result\":\"00\",\"error\":[1,2,{\"code\":-5}]}".into()));
        if status == 500 {
            if let Some(e) = fields.iter_mut().find(|f| f.0 == "error") {
                e.1 = e.1.replacen('{', "{\"data\":[null],", 1);
            }
        }
    }
    if s.reorder {
        fields.reverse();
    }
    let (nl, sp) = if s.pretty { ("\n\t ", " ") } else { ("", "") };
    text.push('{');
    for (i, (k, v)) in fields.iter().enumerate() {
        if i > 0 {
            text.push(',');
        }
        text.push_str(&format!("{}\"{}\"{}:{}{}", nl, k, sp, sp, v));
    }
    text.push_str(nl);
    text.push('}');
    if s.pretty {
        text.push('\n');
    }
    Outcome::Reply(status, text.into_bytes())
}

fn rpc(g: &mut Inner, method: &str, params: &[Value]) -> Result<Value, (i64, String)> {
    let bad = |g: &mut Inner, m: String| -> Result<Value, (i64, String)> {
        g.protocol_errors.push(m.clone());
        Err((-32602, m))
    };
    let hash = |v: Option<&Value>| -> Option<Hash> {
        let s = v?.as_str()?;
        if s.len() != 64 {
            return None;
        }
        unrev_hex(s)?.try_into().ok()
    };
    let terse = |v: Option<&Value>, default: bool| match v {
        None => default,
        Some(Value::Bool(b)) => !*b,
        Some(Value::Number(n)) => n.as_i64() == Some(0),
        _ => false,
    };
    match method {
        "getrawmempool" => {
            if !terse(params.first(), true) {
                return bad(g, format!("getrawmempool {:?}", params));
            }
            let listed: std::collections::BTreeSet<Hash> = g.sim.mempool.iter().map(|m| m.rec.txid).collect();
            g.known.retain(|h, _| listed.contains(h));
            Ok(json!(g.sim.mempool.iter().map(|m| rev_hex(&m.rec.txid)).collect::<Vec<_>>()))
        }
        "getrawtransaction" => {
            let Some(h) = hash(params.first()) else { return bad(g, format!("getrawtransaction {:?}", params)) };
            if !terse(params.get(1), true) {
                return bad(g, format!("getrawtransaction {:?}", params));
            }
            let listed = g.sim.mempool.iter().any(|m| m.rec.txid == h);
            let mined = || g.sim.active.iter().rev().take(20).find_map(|b| g.sim.blocks[*b].txs.iter().find(|t| t.txid == h));
            let found = g.sim.mempool.iter().find(|m| m.rec.txid == h && !m.missing).map(|m| hex(&m.rec.raw));
            match found.or_else(|| if g.txindex && !listed { mined().map(|t| hex(&t.raw)) } else { None }) {
                Some(raw) => {
                    *g.known.entry(h).or_default() += 1;
                    Ok(json!(raw))
                }
                None => Err((-5, "No such mempool transaction. Use -txindex or provide a block hash to enable blockchain transaction queries. Use gettransaction for wallet transactions.".into())),
            }
        }
        "getblockhash" => {
            let Some(h) = params.first().and_then(|v| v.as_u64()) else { return bad(g, format!("getblockhash {:?}", params)) };
            g.heights.push(h);
            if let Some(hash) = g.below.get(h as usize) {
                return Ok(json!(rev_hex(hash)));
            }
            let h = h - g.below.len() as u64;
            match g.sim.active.get(h as usize) {
                Some(i) => Ok(json!(rev_hex(&g.sim.blocks[*i].hash))),
                None => Err((-8, "Block height out of range".into())),
            }
        }
        "getblock" => {
            let Some(h) = hash(params.first()) else { return bad(g, format!("getblock {:?}", params)) };
            if !terse(params.get(1), false) {
                return bad(g, format!("getblock {:?}", params));
            }
            match g.sim.by_hash.get(&h).copied() {
                Some(i) if g.sim.blocks[i].height < g.pruned_below => {
                    let height = g.sim.blocks[i].height;
                    g.pruned_asked.push(height);
                    Err((-1, "Block not available (pruned data)".into()))
                }
                Some(i) => {
                    *g.fetched.entry(h).or_default() += 1;
                    Ok(json!(hex(&g.sim.blocks[i].raw)))
                }
                None => Err((-5, "Block not found".into())),
            }
        }
        _ => bad(g, format!("unknown method {:?}", method)),
    }
}
