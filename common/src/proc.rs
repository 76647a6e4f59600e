//! Running the real program.
use crate::btc::*;
use crate::http::{Conn, HttpError, Response};
use crate::model::*;
use crate::node::Node;
use crate::report::Fail;
use std::collections::BTreeMap;
use std::fs;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// Generous bound on anything that normally takes milliseconds.
pub const LIMIT: Duration = Duration::from_secs(25);

static COUNTER: AtomicU64 = AtomicU64::new(0);

pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        let n = COUNTER.fetch_add(1, Ordering::Relaxed);
        let p = PathBuf::from(format!("/tmp/verif-{}-{}", std::process::id(), n));
        let _ = fs::remove_dir_all(&p);
        fs::create_dir_all(p.join("blocks")).unwrap();
        for d in ["store", "work", "tmp", "home"] {
            fs::create_dir_all(p.join(d)).unwrap();
        }
        Scratch(p)
    }
    pub fn blocks(&self) -> PathBuf {
        self.0.join("blocks")
    }
    pub fn store_dir(&self) -> PathBuf {
        self.0.join("store")
    }
    pub fn store(&self) -> PathBuf {
        self.0.join("store").join("store.dat")
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// A part of the loopback network for this process alone, as long as it runs.
fn slot() -> u8 {
    use std::os::linux::net::SocketAddrExt;
    use std::os::unix::net::{SocketAddr, UnixListener};
    static SLOT: std::sync::OnceLock<(u8, Option<UnixListener>)> = std::sync::OnceLock::new();
    SLOT.get_or_init(|| {
        let first = std::process::id();
        for i in 0..59 {
            let n = ((first + i) % 59) as u8;
            let name = SocketAddr::from_abstract_name(format!("verif-bitcoin-indexer-{}", n));
            if let Some(l) = name.ok().and_then(|a| UnixListener::bind_addr(&a).ok()) {
                return (n, Some(l));
            }
        }
        ((first % 59) as u8, None)
    })
    .0
}

/// A loopback address of its own for every started instance: no port is ever shared or reused.
pub fn fresh_ip() -> Ipv4Addr {
    let n = COUNTER.fetch_add(1, Ordering::Relaxed) as u32;
    Ipv4Addr::new(127, 16 + 4 * slot() + ((n >> 16) & 3) as u8, (n >> 8) as u8, n as u8)
}

#[derive(Clone, Debug)]
pub struct Launch {
    pub env: BTreeMap<String, String>,
    pub ip: IpAddr,
    pub port: u16,
    pub stderr: PathBuf,
    /// control file: run under the shim
    pub ctl: Option<PathBuf>,
    pub fs_dir: PathBuf,
    /// working directory
    pub cwd: PathBuf,
    /// nothing outside of this directory can be changed
    pub guard: PathBuf,
    /// how many files may be open
    pub files: Option<u64>,
    /// where the bytes in use on the heap are counted
    pub heap: Option<PathBuf>,
}

pub fn binary() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_BIN").expect("VERIF_BIN"))
}

pub fn shim() -> String {
    std::env::var("VERIF_SHIM").expect("VERIF_SHIM")
}

impl Launch {
    pub fn new(scratch: &Scratch, node: &Node, threads: usize, batch: usize, confirmations: usize) -> Launch {
        let ip = fresh_ip();
        let mut env = BTreeMap::new();
        let (user, pass) = {
            let g = node.lock();
            (g.user.clone(), g.pass.clone())
        };
        let mut set = |k: &str, v: String| {
            env.insert(k.to_string(), v);
        };
        set("HOST", ip.to_string());
        set("PORT", "18080".into());
        set("THREADS", threads.to_string());
        set("BATCH_SIZE", batch.to_string());
        set("STORE_FILE_PATH", scratch.store().to_str().unwrap().into());
        set("BLOCK_FILES_PATH", scratch.blocks().to_str().unwrap().into());
        set("CONFIRMATIONS", confirmations.to_string());
        set("UPDATE_INTERVAL", "1".into());
        set("RPC_SERVER_HOST", node.ip.to_string());
        set("RPC_SERVER_PORT", node.port.to_string());
        set("RPC_SERVER_USER", user);
        set("RPC_SERVER_PASSWORD", pass);
        Launch { env, ip: IpAddr::V4(ip), port: 18080, stderr: scratch.0.join("stderr"), ctl: None, fs_dir: scratch.store_dir(), cwd: scratch.0.join("work"), guard: scratch.0.clone(), files: None, heap: None }
    }

    pub fn set(mut self, k: &str, v: impl ToString) -> Self {
        self.env.insert(k.into(), v.to_string());
        self
    }

    /// A new address for the next start (ports of killed instances stay untouched).
    pub fn renew(&mut self) {
        let ip = fresh_ip();
        self.env.insert("HOST".into(), ip.to_string());
        self.ip = IpAddr::V4(ip);
    }

    pub fn spawn(&self) -> Result<Indexer, Fail> {
        let err = fs::File::create(&self.stderr).map_err(|e| Fail::Harness(format!("stderr file: {}", e)))?;
        let mut c = Command::new(binary());
        c.env_clear();
        if let Some(ctl) = &self.ctl {
            c.env("VERIF_CTL", ctl).env("VERIF_FS_DIR", &self.fs_dir);
        }
        c.env("LD_PRELOAD", shim()).env("VERIF_GUARD", &self.guard);
        if let Some(heap) = &self.heap {
            fs::write(heap, [0u8; 4096]).map_err(|e| Fail::Harness(format!("heap file: {}", e)))?;
            let s = shim();
            c.env("LD_PRELOAD", format!("{} {}", s, s.replace("shim.so", "heap.so"))).env("VERIF_HEAP", heap);
        }
        c.env("TMPDIR", self.guard.join("tmp")).env("HOME", self.guard.join("home"));
        c.current_dir(&self.cwd);
        c.envs(&self.env).stdin(Stdio::null()).stdout(Stdio::null()).stderr(err);
        let files = self.files;
        unsafe {
            c.pre_exec(move || {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
                libc::setrlimit(libc::RLIMIT_DATA, &lim);
                let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &z);
                if let Some(n) = files {
                    let lim = libc::rlimit { rlim_cur: n, rlim_max: n };
                    libc::setrlimit(libc::RLIMIT_NOFILE, &lim);
                }
                Ok(())
            });
        }
        let child = c.spawn().map_err(|e| Fail::Harness(format!("spawn: {}", e)))?;
        let addr = SocketAddr::new(self.ip, self.port);
        Ok(Indexer { child, addr, conn: Conn::new(addr, LIMIT), stderr: self.stderr.clone(), status: None })
    }
}

pub struct Indexer {
    pub child: Child,
    pub addr: SocketAddr,
    pub conn: Conn,
    stderr: PathBuf,
    status: Option<ExitStatus>,
}

impl Drop for Indexer {
    fn drop(&mut self) {
        self.kill();
    }
}

impl Indexer {
    pub fn kill(&mut self) {
        if self.status.is_none() {
            let _ = self.child.kill();
            self.status = self.child.wait().ok();
        }
        self.conn.close();
    }

    pub fn exited(&mut self) -> Option<ExitStatus> {
        if self.status.is_none() {
            self.status = self.child.try_wait().ok().flatten();
        }
        self.status
    }

    pub fn stderr(&self) -> String {
        let s = fs::read(&self.stderr).unwrap_or_default();
        let s = String::from_utf8_lossy(&s);
        let lines: Vec<&str> = s.lines().filter(|l| !l.trim().is_empty() && !l.contains("RUST_BACKTRACE")).collect();
        lines[lines.len().saturating_sub(6)..].join(" | ")
    }

    pub fn died(&mut self, what: &str) -> Fail {
        let s = self.exited();
        let s = match s {
            Some(s) => match s.signal() {
                Some(n) => format!("signal {}", n),
                None => format!("exit status {}", s.code().unwrap_or(-1)),
            },
            None => "no status".into(),
        };
        Fail::Violation(format!("the indexer stopped ({}) {}: {}", s, what, self.stderr()))
    }

    /// Waits until the HTTP port accepts connections.
    pub fn ready(&mut self) -> Result<(), Fail> {
        let end = Instant::now() + LIMIT;
        loop {
            if std::net::TcpStream::connect_timeout(&self.addr, Duration::from_millis(500)).is_ok() {
                return Ok(());
            }
            if self.exited().is_some() {
                return Err(self.died("before it started to listen"));
            }
            if Instant::now() > end {
                return Err(Fail::Stall("the indexer did not start to listen".into()));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }

    /// Waits for the process to end by itself.
    pub fn wait_exit(&mut self, limit: Duration) -> Option<ExitStatus> {
        let end = Instant::now() + limit;
        loop {
            if let Some(s) = self.exited() {
                return Some(s);
            }
            if Instant::now() > end {
                return None;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }

    /// Waits until an update that started after now has certainly been applied.
    pub fn sync(&mut self, node: &Node) -> Result<(), Fail> {
        let g = node.lock();
        let p = g.polls;
        // a poll begins with its getrawmempool call: the next one sees everything, and is applied when the one after it begins
        let exact = g.first.as_deref() == Some("getrawmempool");
        drop(g);
        self.polls(node, p + if exact { 2 } else { 3 })
    }

    pub fn polls(&mut self, node: &Node, want: u64) -> Result<(), Fail> {
        let start = node.lock().calls;
        let mut runaway = false;
        let ok = {
            let child = &mut self.child;
            let status = &mut self.status;
            node.wait(
                LIMIT,
                || {
                    if status.is_none() {
                        *status = child.try_wait().ok().flatten();
                    }
                    status.is_none()
                },
                |i| {
                    runaway = i.calls - start > 200_000;
                    i.polls >= want || runaway
                },
            )
        };
        if runaway {
            return Err(Fail::Violation("the update loop made 200000 node calls without finishing an update".into()));
        }
        if let Some(e) = node.lock().protocol_errors.first() {
            return Err(Fail::Violation(format!("malformed node call: {}", e)));
        }
        if ok {
            return Ok(());
        }
        if self.exited().is_some() {
            return Err(self.died("while polling the node"));
        }
        Err(Fail::Stall(format!("no further poll of the node completed within {:?}", LIMIT)))
    }

    pub fn get(&mut self, path: &str) -> Result<Response, Fail> {
        self.request("GET", path, None)
    }

    pub fn request(&mut self, method: &str, path: &str, body: Option<&[u8]>) -> Result<Response, Fail> {
        match self.conn.request(method, path, body) {
            Ok(r) => Ok(r),
            Err(HttpError::Timeout) => {
                if self.exited().is_some() {
                    return Err(self.died(&format!("during {} {}", method, path)));
                }
                Err(Fail::Stall(format!("no answer to {} {} within {:?}", method, path, LIMIT)))
            }
            Err(e) => {
                // give a dying process a moment to be reaped
                std::thread::sleep(Duration::from_millis(50));
                if self.exited().is_some() {
                    return Err(self.died(&format!("during {} {}", method, path)));
                }
                Err(Fail::Violation(format!("no HTTP answer to {} {}: {:?} (stderr: {})", method, path, e, self.stderr())))
            }
        }
    }

    pub fn json(&mut self, method: &str, path: &str, body: Option<&[u8]>) -> Result<serde_json::Value, Fail> {
        let r = self.request(method, path, body)?;
        if r.status != 200 {
            return Err(Fail::Violation(format!("{} {} answered {}: {}", method, path, r.status, r.text())));
        }
        serde_json::from_slice(&r.body).map_err(|e| Fail::Violation(format!("{} {}: body is not JSON ({}): {}", method, path, e, r.text())))
    }

    /// Unspent outputs of the addresses at a level, through the batch endpoint.
    pub fn utxos(&mut self, addrs: &[Addr], c: usize) -> Result<Vec<BTreeMap<OutPoint, u64>>, Fail> {
        let body = serde_json::to_vec(&addrs.iter().map(|a| a.text()).collect::<Vec<_>>()).unwrap();
        let path = format!("/addresses/utxos?confirmations={}", c);
        let v = self.json("POST", &path, Some(&body))?;
        parse_utxo_batch(&v, addrs).map_err(|e| Fail::Violation(format!("POST {}: {}", path, e)))
    }

    pub fn balances(&mut self, addrs: &[Addr], c: usize) -> Result<Vec<u64>, Fail> {
        let body = serde_json::to_vec(&addrs.iter().map(|a| a.text()).collect::<Vec<_>>()).unwrap();
        let path = format!("/addresses/balance?confirmations={}", c);
        let v = self.json("POST", &path, Some(&body))?;
        parse_balance_batch(&v, addrs).map_err(|e| Fail::Violation(format!("POST {}: {}", path, e)))
    }
}

/// The number of satoshis a decimal number of coins denotes, read digit by digit.
pub fn satoshis(v: &serde_json::Value) -> Result<u64, String> {
    if !v.is_number() {
        return Err(format!("amount {} is not a number", v));
    }
    decimal(&v.to_string()).ok_or_else(|| format!("amount {} is not a whole number of satoshis", v))
}

fn decimal(t: &str) -> Option<u64> {
    let t = t.to_ascii_lowercase();
    let (m, e) = match t.split_once('e') {
        Some((m, e)) => (m.to_string(), e.trim_start_matches('+').parse::<i64>().ok()?),
        None => (t, 0),
    };
    let (i, f) = m.split_once('.').unwrap_or((&m, ""));
    if !(i.bytes().chain(f.bytes())).all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut digits = format!("{}{}", i, f);
    let mut exp = e - f.len() as i64 + 8;
    while exp < 0 {
        match digits.pop() {
            Some('0') => {}
            None => return Some(0),
            _ => return None,
        }
        exp += 1;
    }
    let digits = digits.trim_start_matches('0');
    if digits.is_empty() {
        return Some(0);
    }
    if exp > 20 {
        return None;
    }
    format!("{}{}", digits, "0".repeat(exp as usize)).parse().ok()
}

#[test]
fn decimals() {
    assert_eq!(decimal("1e-8"), Some(1));
    assert_eq!(decimal("1.5e-7"), Some(15));
    assert_eq!(decimal("20999999.9769"), Some(2099999997690000));
    assert_eq!(decimal("0.0"), Some(0));
    assert_eq!(decimal("0.30000000000000004"), None);
    assert_eq!(decimal("50.0"), Some(5000000000));
    assert_eq!(decimal("1.0e2"), Some(10000000000));
    assert_eq!(decimal("-1"), None);
    assert_eq!(decimal("1.5e-9"), None);
}

pub fn parse_utxos(v: &serde_json::Value) -> Result<BTreeMap<OutPoint, u64>, String> {
    let mut m = BTreeMap::new();
    for u in v.as_array().ok_or_else(|| format!("{} is not an array", v))? {
        let h = u["hash"].as_str().ok_or("no hash")?;
        if h.len() != 64 || h.chars().any(|c| c.is_ascii_uppercase()) {
            return Err(format!("transaction id {:?}", h));
        }
        let txid: Hash = unrev_hex(h).and_then(|x| x.try_into().ok()).ok_or_else(|| format!("transaction id {:?}", h))?;
        let vout = u["vout"].as_u64().ok_or("no vout")? as u32;
        if m.insert(OutPoint { txid, vout }, satoshis(&u["value"])?).is_some() {
            return Err(format!("output {}:{} listed twice", h, vout));
        }
    }
    Ok(m)
}

pub fn parse_utxo_batch(v: &serde_json::Value, addrs: &[Addr]) -> Result<Vec<BTreeMap<OutPoint, u64>>, String> {
    let a = v.as_array().ok_or_else(|| format!("{} is not an array", v))?;
    if a.len() != addrs.len() {
        return Err(format!("{} entries for {} addresses", a.len(), addrs.len()));
    }
    a.iter()
        .zip(addrs)
        .map(|(e, addr)| {
            if e["address"].as_str() != Some(&addr.text()) {
                return Err(format!("entry for {} where {} was requested", e["address"], addr.text()));
            }
            parse_utxos(&e["utxos"])
        })
        .collect()
}

pub fn parse_balance_batch(v: &serde_json::Value, addrs: &[Addr]) -> Result<Vec<u64>, String> {
    let a = v.as_array().ok_or_else(|| format!("{} is not an array", v))?;
    if a.len() != addrs.len() {
        return Err(format!("{} entries for {} addresses", a.len(), addrs.len()));
    }
    a.iter()
        .zip(addrs)
        .map(|(e, addr)| {
            if e["address"].as_str() != Some(&addr.text()) {
                return Err(format!("entry for {} where {} was requested", e["address"], addr.text()));
            }
            satoshis(&e["balance"])
        })
        .collect()
}

pub fn show_point(p: &OutPoint) -> String {
    format!("{}:{}", &rev_hex(&p.txid)[..12], p.vout)
}

pub fn diff(addr: &Addr, c: usize, want: &BTreeMap<OutPoint, u64>, got: &BTreeMap<OutPoint, u64>) -> String {
    let mut v = Vec::new();
    for (p, x) in want {
        match got.get(p) {
            None => v.push(format!("missing {} ({} sat)", show_point(p), x)),
            Some(y) if y != x => v.push(format!("{} has {} sat instead of {}", show_point(p), y, x)),
            _ => {}
        }
    }
    for (p, x) in got {
        if !want.contains_key(p) {
            v.push(format!("unexpected {} ({} sat)", show_point(p), x));
        }
    }
    v.truncate(6);
    format!("address {} at confirmation level {}: {}", addr.text(), c, v.join(", "))
}

/// Compares everything served at level `c` with a ledger.
pub fn compare(ix: &mut Indexer, addrs: &[Addr], c: usize, want: &Utxo) -> Result<(), Fail> {
    let by = by_address(want);
    let empty = BTreeMap::new();
    let got = ix.utxos(addrs, c)?;
    for (a, g) in addrs.iter().zip(&got) {
        let w = by.get(a).unwrap_or(&empty);
        if w != g {
            return Err(Fail::Violation(diff(a, c, w, g)));
        }
    }
    let got = ix.balances(addrs, c)?;
    for (a, g) in addrs.iter().zip(&got) {
        let w: u64 = by.get(a).unwrap_or(&empty).values().sum();
        if w != *g {
            return Err(Fail::Violation(format!("balance of {} at confirmation level {} is {} sat, expected {}", a.text(), c, g, w)));
        }
    }
    Ok(())
}

pub fn addrs_of(u: &Utxo) -> Vec<Addr> {
    u.values().filter_map(|(_, a)| *a).collect::<std::collections::BTreeSet<_>>().into_iter().collect()
}

pub fn exists(p: &Path) -> bool {
    p.exists()
}
