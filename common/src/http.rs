//! Minimal blocking HTTP/1.1 client with keep-alive.
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::time::Duration;

#[derive(Debug, Clone)]
pub struct Response {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

impl Response {
    pub fn header(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str())
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.body).into_owned()
    }
}

#[derive(Debug)]
pub enum HttpError {
    Connect(std::io::Error),
    Timeout,
    /// connection closed or bytes that are not an HTTP response
    Broken(String),
}

pub struct Conn {
    pub addr: SocketAddr,
    pub timeout: Duration,
    stream: Option<BufReader<TcpStream>>,
}

impl Conn {
    pub fn new(addr: SocketAddr, timeout: Duration) -> Self {
        Conn { addr, timeout, stream: None }
    }

    fn connect(&mut self) -> Result<(), HttpError> {
        if self.stream.is_none() {
            let s = TcpStream::connect_timeout(&self.addr, self.timeout).map_err(HttpError::Connect)?;
            s.set_nodelay(true).ok();
            s.set_read_timeout(Some(self.timeout)).ok();
            s.set_write_timeout(Some(self.timeout)).ok();
            self.stream = Some(BufReader::new(s));
        }
        Ok(())
    }

    pub fn close(&mut self) {
        self.stream = None;
    }

    pub fn request(&mut self, method: &str, path: &str, body: Option<&[u8]>) -> Result<Response, HttpError> {
        self.request_with(method, path, "", body)
    }

    pub fn request_with(&mut self, method: &str, path: &str, head: &str, body: Option<&[u8]>) -> Result<Response, HttpError> {
        let mut v = format!("{} {} HTTP/1.1\r\nHost: x\r\n{}", method, path, head).into_bytes();
        if let Some(b) = body {
            v.extend_from_slice(format!("Content-Length: {}\r\n", b.len()).as_bytes());
        }
        v.extend_from_slice(b"\r\n");
        if let Some(b) = body {
            v.extend_from_slice(b);
        }
        let fresh = self.stream.is_none();
        match self.raw(&v, method == "HEAD") {
            // a kept-alive connection may have been closed by the peer: retry once on a fresh one
            Err(HttpError::Broken(_)) if !fresh => {
                self.stream = None;
                self.raw(&v, method == "HEAD")
            }
            r => r,
        }
    }

    pub fn raw(&mut self, bytes: &[u8], head: bool) -> Result<Response, HttpError> {
        let r = self.raw_inner(bytes, head);
        if r.is_err() {
            self.stream = None;
        }
        r
    }

    fn raw_inner(&mut self, bytes: &[u8], head: bool) -> Result<Response, HttpError> {
        self.connect()?;
        let s = self.stream.as_mut().unwrap();
        let io = |e: std::io::Error| match e.kind() {
            std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut => HttpError::Timeout,
            _ => HttpError::Broken(e.to_string()),
        };
        // a server may answer and close before having read everything
        let _ = s.get_mut().write_all(bytes);
        let mut line = String::new();
        if s.read_line(&mut line).map_err(io)? == 0 {
            return Err(HttpError::Broken("closed without a response".into()));
        }
        let status = line
            .split(' ')
            .nth(1)
            .and_then(|x| x.parse().ok())
            .ok_or_else(|| HttpError::Broken(format!("bad status line {:?}", line)))?;
        let mut headers = Vec::new();
        loop {
            let mut l = String::new();
            if s.read_line(&mut l).map_err(io)? == 0 {
                return Err(HttpError::Broken("closed in headers".into()));
            }
            let l = l.trim_end();
            if l.is_empty() {
                break;
            }
            if let Some((k, v)) = l.split_once(':') {
                headers.push((k.trim().to_string(), v.trim().to_string()));
            }
        }
        let get = |n: &str| headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| v.to_ascii_lowercase());
        let mut body = Vec::new();
        if !head && status != 204 && status != 304 {
            if get("transfer-encoding").map_or(false, |v| v.contains("chunked")) {
                loop {
                    let mut l = String::new();
                    s.read_line(&mut l).map_err(io)?;
                    let n = usize::from_str_radix(l.trim().split(';').next().unwrap_or(""), 16)
                        .map_err(|_| HttpError::Broken("bad chunk".into()))?;
                    let mut b = vec![0; n];
                    s.read_exact(&mut b).map_err(io)?;
                    body.extend_from_slice(&b);
                    let mut l = String::new();
                    s.read_line(&mut l).map_err(io)?;
                    if n == 0 {
                        break;
                    }
                }
            } else if let Some(n) = get("content-length") {
                let n: usize = n.parse().map_err(|_| HttpError::Broken("bad length".into()))?;
                body.resize(n, 0);
                s.read_exact(&mut body).map_err(io)?;
            } else {
                s.read_to_end(&mut body).map_err(io)?;
            }
        }
        if get("connection").map_or(false, |v| v.contains("close")) {
            self.stream = None;
        }
        Ok(Response { status, headers, body })
    }
}
