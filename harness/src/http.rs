//! A tiny HTTP/1.1 server on loopback, fully controlled by a handler closure.
//! Every connection has its own thread; nothing here is shared with the code
//! under test, so the harness decides the order, the bytes and the faults.
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::thread::JoinHandle;

#[derive(Clone, Debug)]
pub struct Req {
    pub method: String,
    /// Path and query exactly as sent.
    pub path: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

impl Req {
    pub fn header(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str())
    }
}

#[derive(Clone, Debug, Default)]
pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    /// Send only this many body bytes, then close the connection (the declared length stays full).
    pub cut: Option<usize>,
    /// Send with chunked encoding, in pieces ending at these offsets.
    pub chunks: Option<Vec<usize>>,
    /// Close the connection without sending anything.
    pub reset: bool,
}

impl Resp {
    pub fn ok(body: impl Into<Vec<u8>>) -> Self {
        Resp { status: 200, body: body.into(), ..Default::default() }
    }
    pub fn json(v: &serde_json::Value) -> Self {
        let mut r = Resp::ok(serde_json::to_vec(v).unwrap());
        r.headers.push(("content-type".into(), "application/json".into()));
        r
    }
    pub fn status(status: u16) -> Self {
        Resp { status, ..Default::default() }
    }
    pub fn with(mut self, k: &str, v: &str) -> Self {
        self.headers.push((k.into(), v.into()));
        self
    }
}

pub type Handler = Arc<dyn Fn(&Req) -> Resp + Send + Sync>;

pub struct Server {
    pub port: u16,
    pub ip: String,
    pub log: Arc<Mutex<Vec<Req>>>,
    stop: Arc<AtomicBool>,
    conns: Arc<Mutex<HashMap<u64, TcpStream>>>,
    thread: Option<JoinHandle<()>>,
}

impl Server {
    pub fn start(handler: Handler) -> Self {
        Self::start_on("127.0.0.1", handler)
    }

    pub fn start_on(ip: &str, handler: Handler) -> Self {
        let listener = TcpListener::bind((ip, 0)).expect("bind loopback");
        let port = listener.local_addr().unwrap().port();
        let stop = Arc::new(AtomicBool::new(false));
        let log = Arc::new(Mutex::new(Vec::new()));
        let conns: Arc<Mutex<HashMap<u64, TcpStream>>> = Default::default();
        let (s2, l2, c2) = (stop.clone(), log.clone(), conns.clone());
        let thread = std::thread::Builder::new()
            .stack_size(128 * 1024)
            .spawn(move || {
                for (id, stream) in (0..).zip(listener.incoming()) {
                    if s2.load(Ordering::SeqCst) {
                        break;
                    }
                    let Ok(stream) = stream else { continue };
                    let _ = stream.set_nodelay(true);
                    if let Ok(c) = stream.try_clone() {
                        c2.lock().unwrap().insert(id, c);
                    }
                    let (h, l, s, c2) = (handler.clone(), l2.clone(), s2.clone(), c2.clone());
                    let _ = std::thread::Builder::new().stack_size(256 * 1024).spawn(move || {
                        let _ = serve(stream, h, l, s);
                        c2.lock().unwrap().remove(&id);
                    });
                }
            })
            .unwrap();
        Server { port, ip: ip.to_string(), log, stop, conns, thread: Some(thread) }
    }

    pub fn url(&self) -> String {
        format!("http://{}:{}/", self.ip, self.port)
    }

    pub fn requests(&self) -> Vec<Req> {
        self.log.lock().unwrap().clone()
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect((self.ip.as_str(), self.port));
        for (_, c) in self.conns.lock().unwrap().drain() {
            let _ = c.shutdown(std::net::Shutdown::Both);
        }
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}

fn serve(stream: TcpStream, handler: Handler, log: Arc<Mutex<Vec<Req>>>, stop: Arc<AtomicBool>) -> std::io::Result<()> {
    let mut out = stream.try_clone()?;
    let mut rd = BufReader::new(stream);
    loop {
        let mut line = String::new();
        if rd.read_line(&mut line)? == 0 || stop.load(Ordering::SeqCst) {
            return Ok(());
        }
        let mut parts = line.trim_end().splitn(3, ' ');
        let method = parts.next().unwrap_or("").to_string();
        let path = parts.next().unwrap_or("").to_string();
        let mut headers = Vec::new();
        loop {
            let mut h = String::new();
            if rd.read_line(&mut h)? == 0 {
                return Ok(());
            }
            let h = h.trim_end();
            if h.is_empty() {
                break;
            }
            if let Some((k, v)) = h.split_once(':') {
                headers.push((k.trim().to_string(), v.trim().to_string()));
            }
        }
        let len = headers
            .iter()
            .find(|(k, _)| k.eq_ignore_ascii_case("content-length"))
            .and_then(|(_, v)| v.parse::<usize>().ok())
            .unwrap_or(0);
        let mut body = vec![0; len];
        rd.read_exact(&mut body)?;
        let req = Req { method, path, headers, body };
        log.lock().unwrap().push(req.clone());
        let resp = handler(&req);
        if stop.load(Ordering::SeqCst) {
            return Ok(());
        }
        if resp.reset {
            let _ = out.shutdown(std::net::Shutdown::Both);
            return Ok(());
        }
        let mut head = format!("HTTP/1.1 {} X\r\n", resp.status);
        for (k, v) in &resp.headers {
            head.push_str(&format!("{k}: {v}\r\n"));
        }
        if let Some(ends) = &resp.chunks {
            head.push_str("transfer-encoding: chunked\r\n\r\n");
            out.write_all(head.as_bytes())?;
            let mut start = 0;
            let mut ends = ends.clone();
            ends.push(resp.body.len());
            for end in ends {
                let end = end.min(resp.body.len());
                if end <= start {
                    continue;
                }
                out.write_all(format!("{:x}\r\n", end - start).as_bytes())?;
                out.write_all(&resp.body[start..end])?;
                out.write_all(b"\r\n")?;
                out.flush()?;
                start = end;
            }
            if resp.cut.is_some() {
                let _ = out.shutdown(std::net::Shutdown::Both);
                return Ok(());
            }
            out.write_all(b"0\r\n\r\n")?;
            out.flush()?;
            continue;
        }
        head.push_str(&format!("content-length: {}\r\n\r\n", resp.body.len()));
        let mut buf = head.into_bytes();
        match resp.cut {
            Some(n) => {
                buf.extend_from_slice(&resp.body[..n.min(resp.body.len())]);
                out.write_all(&buf)?;
                let _ = out.shutdown(std::net::Shutdown::Both);
                return Ok(());
            }
            None => {
                buf.extend_from_slice(&resp.body);
                out.write_all(&buf)?;
            }
        }
        out.flush()?;
    }
}
