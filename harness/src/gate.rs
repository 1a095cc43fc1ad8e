//! A mock registry whose responses are held until the explorer releases them:
//! the explorer owns the order in which answers reach the code under test.
use crate::http::{Handler, Req, Resp, Server};
use crate::uni::Universe;
use std::collections::BTreeSet;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
struct St {
    /// Held requests: (id, key).
    held: Vec<(usize, String)>,
    released: BTreeSet<usize>,
    seen: std::collections::BTreeMap<String, usize>,
    next: usize,
    last: Option<Instant>,
    open: bool,
    done: bool,
}

#[derive(Clone)]
pub struct Gate(Arc<(Mutex<St>, Condvar)>);

impl Gate {
    /// `hold`: which requests to hold (by path without leading slash).
    pub fn serve(u: &Universe, tarballs: bool, hold: fn(&str) -> bool) -> (Gate, Server) {
        let g = Gate(Arc::new((Mutex::new(St::default()), Condvar::new())));
        let g2 = g.clone();
        let u = u.clone();
        let h: Handler = Arc::new(move |req: &Req| {
            let base = format!("http://{}/", req.header("host").unwrap());
            let name = req.path.trim_start_matches('/').replace("%2f", "/").replace("%2F", "/").replace("%40", "@");
            if hold(&name) {
                g2.wait(&name);
            }
            let r: Resp = u.answer(req, &base, tarballs);
            r
        });
        (g, Server::start(h))
    }

    fn wait(&self, key: &str) {
        let (m, c) = &*self.0;
        let mut s = m.lock().unwrap();
        let id = s.next;
        s.next += 1;
        let n = s.seen.entry(key.to_string()).or_insert(0);
        let label = format!("{key}#{n}");
        *n += 1;
        s.held.push((id, label));
        s.last = Some(Instant::now());
        c.notify_all();
        while !s.open && !s.released.contains(&id) {
            s = c.wait(s).unwrap();
        }
    }

    pub fn finish(&self) {
        let (m, c) = &*self.0;
        m.lock().unwrap().done = true;
        c.notify_all();
    }

    pub fn open(&self) {
        let (m, c) = &*self.0;
        m.lock().unwrap().open = true;
        c.notify_all();
    }

    /// Wait until the held set contains every name of `expect` (or times out), and nothing
    /// new arrived for `settle`. Returns None when the run has finished.
    pub fn quiesce(&self, expect: &dyn Fn(&[String]) -> bool, settle: Duration, timeout: Duration) -> Option<Vec<String>> {
        let (m, c) = &*self.0;
        let start = Instant::now();
        let mut s = m.lock().unwrap();
        loop {
            if s.done {
                return None;
            }
            let names: Vec<String> = s.held.iter().map(|(_, k)| k.clone()).collect();
            let settled = s.last.map(|l| l.elapsed() >= settle).unwrap_or(false);
            let ok = expect(&names);
            if !names.is_empty() && ok && settled {
                let mut n = names;
                n.sort();
                return Some(n);
            }
            if start.elapsed() > timeout {
                let mut n = names;
                n.sort();
                return if n.is_empty() { None } else { Some(n) };
            }
            let w = if ok && !names.is_empty() { settle } else { Duration::from_millis(5) };
            s = c.wait_timeout(s, w.max(Duration::from_micros(200))).unwrap().0;
        }
    }

    /// Release the held request with this label; waits for it to arrive.
    pub fn release(&self, label: &str, timeout: Duration) -> bool {
        let (m, c) = &*self.0;
        let start = Instant::now();
        let mut s = m.lock().unwrap();
        loop {
            if let Some(i) = s.held.iter().position(|(_, k)| k == label) {
                let (id, _) = s.held.remove(i);
                s.released.insert(id);
                s.last = Some(Instant::now());
                c.notify_all();
                return true;
            }
            if s.done || start.elapsed() > timeout {
                return false;
            }
            s = c.wait_timeout(s, Duration::from_millis(20)).unwrap().0;
        }
    }
}
