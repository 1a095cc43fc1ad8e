//! C03: temporary failures are retried, lasting ones reported.
use crate::http::{Req, Resp, Server};
use crate::report::*;
use crate::uni::*;
use futures::AsyncReadExt;
use oro_client::{OroClient, OroClientError};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::path::Path;
use std::sync::{Arc, Mutex};

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "C03",
        thorough,
        "fault_enumeration",
        "Every sequence of answers of a registry up to one more than the configured number of retries: any string of answers that may be retried (server errors, dropped and truncated answers, request timeout, too many requests), then any answer (good, definite refusals, not found, no JSON, JSON of the wrong shape, empty), for every number of retries up to the bound, for both metadata documents, archives and ping, with and without an HTTP cache. Monitored: the number of requests, the result or error; then the registry recovers and the same client asks again. Non-trivial: at least one answer was a failure.",
    )
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    Good,
    Status(u16),
    Reset,
    Cut,
    Garbage,
    Json(&'static str),
}

impl A {
    /// Must be retried.
    fn temporary(self) -> bool {
        matches!(self, A::Status(s) if s >= 500) || self == A::Reset
    }
    /// May be retried.
    fn soft(self) -> bool {
        matches!(self, A::Status(408 | 429)) || matches!(self, A::Cut | A::Garbage | A::Json(_))
    }
}

const CALLS: &[&str] = &["corgi_packument", "packument", "archive", "ping"];

struct Case {
    call: usize,
    retries: u32,
    seq: Vec<A>,
    cache: bool,
}

#[derive(Default)]
struct St {
    seq: Vec<A>,
    n: usize,
}

struct World {
    s: Server,
    st: Arc<Mutex<St>>,
}

fn content(call: usize) -> Vec<u8> {
    match CALLS[call] {
        "archive" => vec![7; 3000],
        "ping" => b"{\"pong\":true}".to_vec(),
        _ => {
            let mut u = Universe::default();
            u.add("p", "1.0.0", Ver::default());
            u.tag("p", "latest", "1.0.0");
            serde_json::to_vec(&u.packument("p", "http://127.0.0.1:9/", false).unwrap()).unwrap()
        }
    }
}

fn world() -> &'static World {
    thread_local! { static W: RefCell<Option<&'static World>> = RefCell::new(None); }
    W.with(|x| {
        *x.borrow_mut().get_or_insert_with(|| {
            let st: Arc<Mutex<St>> = Default::default();
            let s2 = st.clone();
            let s = Server::start(Arc::new(move |r: &Req| {
                let mut st = s2.lock().unwrap();
                let a = st.seq.get(st.n).copied().unwrap_or(A::Good);
                st.n += 1;
                let call = if r.path.contains(".tgz") { 2 } else if r.path.contains("ping") { 3 } else { 0 };
                let good = Resp::ok(content(call));
                match a {
                    A::Good => good,
                    A::Status(s) => Resp::status(s),
                    A::Reset => Resp { reset: true, ..Default::default() },
                    A::Cut => Resp { cut: Some(good.body.len() / 2), ..good },
                    A::Garbage => Resp::ok(b"<html>".to_vec()),
                    A::Json(j) => Resp::ok(j.as_bytes().to_vec()),
                }
            }));
            Box::leak(Box::new(World { s, st }))
        })
    })
}

/// Ok: the content. Err: what kind of error.
fn call(c: &OroClient, call: usize, url: &str) -> Result<(), (bool, String)> {
    let err = |e: OroClientError| (matches!(e, OroClientError::PackageNotFound(..)), format!("{e:?}"));
    async_std::task::block_on(async {
        match CALLS[call] {
            "corgi_packument" => {
                let p = c.corgi_packument("p").await.map_err(err)?;
                if p.versions.len() == 1 && p.tags.get("latest").map(|v| v.to_string()).as_deref() == Some("1.0.0") { Ok(()) } else if p.versions.is_empty() && p.tags.is_empty() { Err((false, "no versions".into())) } else { Err((false, format!("WRONG {p:?}"))) }
            }
            "packument" => {
                let p = c.packument("p").await.map_err(err)?;
                if p.versions.len() == 1 && p.tags.get("latest").map(|v| v.to_string()).as_deref() == Some("1.0.0") { Ok(()) } else if p.versions.is_empty() && p.tags.is_empty() { Err((false, "no versions".into())) } else { Err((false, format!("WRONG {p:?}"))) }
            }
            "archive" => {
                let mut r = c.stream_external(&format!("{url}p.tgz").parse().unwrap()).await.map_err(err)?;
                let mut v = vec![];
                r.read_to_end(&mut v).await.map_err(|e| (false, e.to_string()))?;
                if v == content(2) { Ok(()) } else { Err((false, format!("WRONG {} bytes", v.len()))) }
            }
            _ => {
                let v = c.ping().await.map_err(err)?;
                if v.as_bytes() == content(3) { Ok(()) } else { Err((false, format!("WRONG {v}"))) }
            }
        }
    })
}

fn one(c: &Case, dir: &Path) -> Out {
    let w = world();
    let _ = std::fs::remove_dir_all(dir);
    *w.st.lock().unwrap() = St { seq: c.seq.clone(), n: 0 };
    let mut b = OroClient::builder().retries(c.retries).registry(w.s.url().parse().unwrap());
    if c.cache {
        b = b.cache(dir.join("cache"));
    }
    let cl = b.build();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(&cl, c.call, &w.s.url()))).map_err(|_| "the client crashes".to_string())?;
    let m = w.st.lock().unwrap().n;
    let max = c.retries as usize + 1;
    if m == 0 || m > max {
        return Err(format!("{m} requests with {} retries", c.retries).into());
    }
    let at = |i: usize| c.seq.get(i).copied().unwrap_or(A::Good);
    if let Some(i) = (0..m - 1).find(|i| at(*i) == A::Good) {
        return Err(format!("asked again after a good answer ({i})").into());
    }
    let last = at(m - 1);
    match (&res, last) {
        (Ok(()), A::Good) => {}
        (Ok(()), l) => return Err(format!("success, though the last of {m} answers was {l:?}").into()),
        (Err((_, e)), A::Good) => return Err(format!("fails in spite of a good answer: {e}").into()),
        (Err((_, e)), l) => {
            if e.starts_with("WRONG") {
                return Err(format!("after {l:?}: {e}").into());
            }
            if l.temporary() && m < max {
                return Err(format!("{l:?} was not retried: {m} of {max} requests").into());
            }
            if let (Err((nf, e)), true) = (&res, CALLS[c.call].ends_with("packument")) {
                if (l == A::Status(404)) != *nf {
                    return Err(format!("{l:?} is reported as {e}").into());
                }
            }
        }
    }
    // The registry recovers.
    *w.st.lock().unwrap() = St::default();
    if let Err((_, e)) = call(&cl, c.call, &w.s.url()) {
        return Err(format!("still fails after the registry recovered: {e}").into());
    }
    Ok(c.seq.iter().any(|a| *a != A::Good))
}

pub fn run(ctx: &Ctx) {
    let again: Vec<A> = if ctx.thorough {
        vec![A::Status(500), A::Status(502), A::Status(503), A::Status(504), A::Reset, A::Status(429), A::Status(408), A::Cut]
    } else {
        vec![A::Status(500), A::Status(503), A::Reset, A::Status(429), A::Cut]
    };
    let mut last = vec![A::Good, A::Status(404), A::Status(403), A::Status(401), A::Status(400), A::Status(410), A::Cut, A::Status(500), A::Status(502), A::Reset, A::Status(429), A::Status(408)];
    last.dedup();
    let bad = [A::Garbage, A::Json("[]"), A::Json("null"), A::Json("{\"versions\":5}"), A::Json("{\"versions\":{\"1.0.0\":3}}"), A::Json("\"p\""), A::Json(""), A::Status(204)];
    let mut cases = vec![];
    for retries in 0..=if ctx.thorough { 3 } else { 2 } {
        let mut prefixes: Vec<Vec<A>> = vec![vec![]];
        let mut level = prefixes.clone();
        for _ in 0..retries {
            level = level.iter().flat_map(|p| again.iter().map(move |a| p.iter().copied().chain([*a]).collect::<Vec<_>>())).collect();
            prefixes.extend(level.clone());
        }
        for call in 0..CALLS.len() {
            for p in &prefixes {
                // A truncated archive is noticed by its reader, after the answer was accepted.
                for l in last.iter().chain(bad.iter().filter(|_| CALLS[call].ends_with("packument"))) {
                    for cache in [false, true] {
                        // Beyond one retry, the quick run visits each sequence with either.
                        if ctx.thorough || p.len() < 2 || (cases.len() % 3 == 0) == cache {
                            let mut seq = p.clone();
                            seq.push(*l);
                            cases.push(Case { call, retries, seq, cache });
                        }
                    }
                }
            }
        }
    }
    // Longest waits first.
    cases.sort_by_key(|c| std::cmp::Reverse(c.seq.len()));
    ctx.cov("retries up to", if ctx.thorough { 3 } else { 2 });
    ctx.par(
        400,
        cases.into_iter(),
        |c| -> Value { json!({"call": CALLS[c.call], "retries": c.retries, "answers": c.seq.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>(), "http cache": c.cache}) },
        one,
    );
}
