//! C05: the HTTP cache and the registry's say on what may be reused.
use crate::http::{Req, Resp, Server};
use crate::report::*;
use oro_client::{OroClient, OroClientError};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::path::Path;
use std::sync::{Arc, Mutex};

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "C05",
        thorough,
        "exploration",
        "Every history, up to a length, of asking for either metadata document of a package with a cache (each time as a new client, with or without credentials), new versions being published, and the registry failing or refusing the next request, under every caching policy of an alphabet (ages, expiry dates, validators, no-store, no-cache, private, public, must-revalidate, Vary; answering conditional requests). The registry's documents say for which request, credentials and moment they are. Oracle: own reading of HTTP caching: what may be reused for which request; a refusal reaches the caller, a failure may be bridged by what is stored. Non-trivial: a document was asked for twice.",
    )
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Policy {
    name: &'static str,
    headers: &'static [(&'static str, &'static str)],
    etag: bool,
    modified: bool,
    /// May be reused without asking.
    reuse: bool,
    /// May be stored at all.
    store: bool,
    /// May be given to requests with other credentials.
    public: bool,
    /// May be used when the registry fails.
    stale: bool,
    vary: Option<&'static str>,
}

const P: Policy = Policy { name: "nothing", headers: &[], etag: false, modified: false, reuse: false, store: true, public: false, stale: true, vary: None };

const POLICIES: &[Policy] = &[
    P,
    Policy { name: "max-age=0", headers: &[("cache-control", "max-age=0")], ..P },
    Policy { name: "max-age=1000", headers: &[("cache-control", "max-age=1000")], reuse: true, ..P },
    Policy { name: "public, max-age=1000", headers: &[("cache-control", "public, max-age=1000")], reuse: true, public: true, ..P },
    Policy { name: "private, max-age=1000", headers: &[("cache-control", "private, max-age=1000")], reuse: true, ..P },
    Policy { name: "no-cache", headers: &[("cache-control", "no-cache")], ..P },
    Policy { name: "no-cache, max-age=1000, public", headers: &[("cache-control", "no-cache, max-age=1000, public")], public: true, ..P },
    Policy { name: "no-store", headers: &[("cache-control", "no-store")], store: false, ..P },
    Policy { name: "no-store, max-age=1000", headers: &[("cache-control", "public, no-store, max-age=1000")], store: false, ..P },
    Policy { name: "aged", headers: &[("cache-control", "public, max-age=1000"), ("age", "2000")], public: true, ..P },
    Policy { name: "expired", headers: &[("expires", "Mon, 01 Jan 2001 00:00:00 GMT")], ..P },
    Policy { name: "expires invalid", headers: &[("expires", "0"), ("cache-control", "public")], public: true, ..P },
    Policy { name: "must-revalidate, max-age=0", headers: &[("cache-control", "public, must-revalidate, max-age=0")], public: true, stale: false, ..P },
    Policy { name: "etag", headers: &[("cache-control", "public, max-age=0")], etag: true, public: true, ..P },
    Policy { name: "etag, nothing else", headers: &[], etag: true, ..P },
    Policy { name: "etag, must-revalidate", headers: &[("cache-control", "public, must-revalidate, max-age=0")], etag: true, public: true, stale: false, ..P },
    Policy { name: "etag, no-cache", headers: &[("cache-control", "public, no-cache")], etag: true, public: true, ..P },
    Policy { name: "modified", headers: &[("cache-control", "public, max-age=0")], modified: true, public: true, ..P },
    Policy { name: "vary accept", headers: &[("cache-control", "public, max-age=1000"), ("vary", "Accept")], reuse: true, public: true, vary: Some("accept"), ..P },
    Policy { name: "vary accept, etag", headers: &[("cache-control", "public, max-age=0"), ("vary", "accept-encoding, accept")], etag: true, public: true, vary: Some("accept"), ..P },
    Policy { name: "vary authorization", headers: &[("cache-control", "public, max-age=1000"), ("vary", "Authorization")], reuse: true, public: true, vary: Some("authorization"), ..P },
    Policy { name: "vary anything", headers: &[("cache-control", "public, max-age=1000"), ("vary", "*")], public: true, vary: Some("*"), ..P },
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Full,
    Corgi,
    Publish,
    /// The next request is answered with this status (0: not at all).
    Fail(u16),
    Login,
}

#[derive(Clone, Debug)]
struct Case {
    policy: usize,
    /// What the registry's policy is from the first publication on.
    then: usize,
    steps: Vec<Step>,
}

#[derive(Default)]
struct St {
    n: usize,
    policy: Option<Policy>,
    fail: Option<u16>,
    asked: usize,
    failed: Option<u16>,
    given: Vec<(Doc, Policy)>,
}

/// Which answer a document is.
#[derive(Clone, Debug, PartialEq)]
struct Doc {
    n: usize,
    corgi: bool,
    auth: String,
}

struct World {
    s: Server,
    st: Arc<Mutex<St>>,
}

fn answer(st: &mut St, r: &Req) -> Resp {
    st.asked += 1;
    if let Some(s) = st.fail.take() {
        st.failed = Some(s);
        return if s == 0 { Resp { reset: true, ..Default::default() } } else { Resp::status(s) };
    }
    let p = st.policy.unwrap();
    let corgi = r.header("accept").unwrap_or("").contains("vnd.npm.install-v1");
    let auth = match r.header("authorization") {
        Some("Bearer t1") => "t1",
        Some(_) => "?",
        None => "",
    };
    let doc = Doc { n: st.n, corgi, auth: auth.into() };
    let tag = format!("\"{}-{}-{}\"", doc.n, doc.corgi, doc.auth);
    let date = format!("Mon, 01 Jan 20{:02} 00:00:00 GMT", 1 + doc.n * 4 + doc.corgi as usize * 2 + !doc.auth.is_empty() as usize);
    let same = p.etag && r.header("if-none-match") == Some(tag.as_str()) || p.modified && r.header("if-none-match").is_none() && r.header("if-modified-since") == Some(date.as_str());
    let mut resp = if same {
        Resp::status(304)
    } else {
        let versions: serde_json::Map<String, Value> = (0..=doc.n).map(|i| (format!("1.{i}.0"), json!({"name": "p", "version": format!("1.{i}.0"), "description": "d", "dist": {"tarball": format!("http://127.0.0.1:9/{auth}/{}.tgz", if corgi { "corgi" } else { "full" })}}))).collect();
        Resp::json(&json!({"name": "p", "versions": versions, "dist-tags": {"latest": format!("1.{}.0", doc.n)}}))
    };
    for (k, v) in p.headers {
        resp = resp.with(k, v);
    }
    if p.etag {
        resp = resp.with("etag", &tag);
    }
    if p.modified {
        resp = resp.with("last-modified", &date);
    }
    st.given.push((doc, p));
    resp
}

fn world() -> &'static World {
    thread_local! { static W: RefCell<Option<&'static World>> = const { RefCell::new(None) }; }
    W.with(|x| {
        *x.borrow_mut().get_or_insert_with(|| {
            let st: Arc<Mutex<St>> = Default::default();
            let s2 = st.clone();
            let s = Server::start(Arc::new(move |r: &Req| answer(&mut s2.lock().unwrap(), r)));
            Box::leak(Box::new(World { s, st }))
        })
    })
}

fn fetch(url: &str, cache: &Path, corgi: bool, login: bool) -> Result<Doc, String> {
    let u: url::Url = url.parse().unwrap();
    let mut b = OroClient::builder().registry(u.clone()).retries(0).cache(cache);
    if login {
        b = b.token_auth(u, "t1".into());
    }
    let c = b.build();
    let err = |e: OroClientError| format!("{e:?}");
    let (latest, tarball) = async_std::task::block_on(async {
        let of = |n: usize, latest: Option<&node_semver::Version>, dist: Option<String>| -> Result<(usize, String), String> { Ok((n, format!("{} {}", latest.map(|v| v.to_string()).unwrap_or_default(), dist.unwrap_or_default()))) };
        if corgi {
            let p = c.corgi_packument("p").await.map_err(err)?;
            let l = p.tags.get("latest");
            of(p.versions.len(), l, l.and_then(|l| p.versions.get(l)).and_then(|v| v.dist.tarball.clone()).map(|t| t.to_string()))
        } else {
            let p = c.packument("p").await.map_err(err)?;
            let l = p.tags.get("latest");
            of(p.versions.len(), l, l.and_then(|l| p.versions.get(l)).and_then(|v| v.dist.tarball.clone()).map(|t| t.to_string()))
        }
    })?;
    let n = latest.checked_sub(1).ok_or("WRONG: no versions")?;
    let rest = tarball.strip_prefix(&format!("1.{n}.0 http://127.0.0.1:9/")).ok_or(format!("WRONG: {latest} versions, {tarball}"))?;
    let (auth, kind) = rest.split_once('/').ok_or("WRONG")?;
    Ok(Doc { n, corgi: kind == "corgi.tgz", auth: auth.into() })
}

fn one(c: &Case, dir: &Path) -> Out {
    let w = world();
    let cache = dir.join("cache");
    let _ = std::fs::remove_dir_all(&cache);
    std::fs::create_dir_all(&cache).unwrap();
    *w.st.lock().unwrap() = St { policy: Some(POLICIES[c.policy]), ..Default::default() };
    let mut login = true;
    let mut fetches = 0;
    for (i, s) in c.steps.iter().enumerate() {
        let corgi = match s {
            Step::Publish => {
                let mut st = w.st.lock().unwrap();
                st.n += 1;
                st.policy = Some(POLICIES[c.then]);
                continue;
            }
            Step::Fail(s) => {
                w.st.lock().unwrap().fail = Some(*s);
                continue;
            }
            Step::Login => {
                login = !login;
                continue;
            }
            Step::Corgi => true,
            Step::Full => false,
        };
        fetches += 1;
        let given = {
            let mut st = w.st.lock().unwrap();
            st.failed = None;
            st.asked = 0;
            st.given.clone()
        };
        let r = fetch(&w.s.url(), &cache, corgi, login);
        let st = w.st.lock().unwrap();
        let now = Doc { n: st.n, corgi, auth: if login { "t1".into() } else { String::new() } };
        match r {
            Err(e) if st.failed == Some(404) && e.starts_with("PackageNotFound") => {}
            Err(e) if st.failed.is_some() && st.failed != Some(404) && !e.starts_with("WRONG") => {}
            Err(e) => return Err(format!("step {i}: the registry has answered, and the client fails: {e}").into()),
            Ok(d) if matches!(st.failed, Some(400..=499)) => return Err(format!("step {i}: the registry refuses with {}, and the client gets {d:?}", st.failed.unwrap()).into()),
            Ok(d) if d == now => {}
            Ok(d) => {
                // Some earlier answer with that document must be reusable for this request.
                let varies = |p: &Policy| match p.vary {
                    Some("accept") => d.corgi != now.corgi,
                    Some("authorization") => d.auth != now.auth,
                    Some(_) => true,
                    None => false,
                };
                let fine = |(g, p): &(Doc, Policy), vary: bool| {
                    *g == d && p.store && (p.reuse || st.failed.is_some() && p.stale) && (p.public || d.auth.is_empty() || d.auth == now.auth) && (vary || !varies(p))
                };
                if !given.iter().any(|g| fine(g, false)) {
                    if st.failed.is_some() {
                        // A class of its own: what was given for another kind of request.
                        if let Some((_, p)) = given.iter().find(|g| fine(g, true)) {
                            return Err(Viol::new(format!("failing registry, answer for another request with Vary: {}", p.vary.unwrap_or_default()), format!("step {i}: asking for {now:?} while the registry fails gives {d:?}")));
                        }
                    }
                    return Err(format!("step {i}: asking for {now:?} gives {d:?}, which must not be reused here ({} requests were made in this step)", st.asked).into());
                }
            }
        }
    }
    Ok(fetches > 1)
}

pub fn run(ctx: &Ctx) {
    let all = [Step::Full, Step::Corgi, Step::Publish, Step::Fail(500), Step::Fail(404), Step::Fail(if ctx.thorough { 403 } else { 401 }), Step::Fail(0), Step::Login];
    let depth = if ctx.thorough { 5 } else { 4 };
    let mut seqs: Vec<Vec<Step>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..depth {
        let to = seqs.len();
        for i in from..to {
            for s in all {
                // Twice the same makes no difference, but for fetches.
                let l = seqs[i].last();
                if (l == Some(&s) || matches!((l, s), (Some(Step::Fail(_)), Step::Fail(_)))) && !matches!(s, Step::Full | Step::Corgi) {
                    continue;
                }
                let mut v = seqs[i].clone();
                v.push(s);
                seqs.push(v);
            }
        }
        from = to;
    }
    let is = |s: &Step| matches!(s, Step::Full | Step::Corgi);
    seqs.retain(|s| s.last().is_some_and(is) && s.first().is_some_and(|x| is(x) || *x == Step::Login) && (s.iter().filter(|x| is(x)).count() > 1 || s.len() < 3));
    let mut cases = vec![];
    for policy in 0..POLICIES.len() {
        for s in &seqs {
            cases.push(Case { policy, then: policy, steps: s.clone() });
            // The registry changes its mind.
            if s.contains(&Step::Publish) && s.len() <= 4 {
                for then in 0..POLICIES.len() {
                    if then != policy {
                        cases.push(Case { policy, then, steps: s.clone() });
                    }
                }
            }
        }
    }
    ctx.cov("policies", POLICIES.len() as u64);
    ctx.cov("longest history", depth as u64);
    let show = |c: &Case| json!({"policy": POLICIES[c.policy].name, "policy after the first publication": POLICIES[c.then].name, "steps": format!("{:?}", c.steps)});
    ctx.par(cores(), cases.into_iter(), show, |c, d| {
        std::fs::create_dir_all(d).unwrap();
        one(c, d)
    });
}
