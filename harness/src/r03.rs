use crate::drive::*;
use crate::http::{Resp, Server};
use crate::report::*;
use crate::semv;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "R03",
        thorough,
        "exploration",
        "Every subset of the version alphabet x every assignment of the default tag and one further tag (including unpublished targets and none) x every request of the request alphabet x default tag setting; the real client resolves each against a loopback registry and the result is compared with a predicate written from npm's rules with the harness's own semver. Non-trivial: at least one version is published.",
    )
}

pub const VERSIONS: &[&str] = &["1.0.0", "1.0.1-rc.1", "1.1.0", "2.0.0-beta.1", "2.0.0", "0.2.3"];
const MORE: &[&str] = &["1.10.0", "0.0.4"];

const REQS: &[&str] = &[
    "", "@*", "@x", "@1.0.0", "@=1.0.0", "@v1.1.0", "@1.0.1-rc.1", "@2.0.0-beta.1", "@3.0.0", "@latest", "@next", "@nosuchtag",
    "@^1.0.0", "@^1.0.1", "@~1.0.0", "@~1.1", "@1", "@1.x", "@1.0.x", "@^2.0.0", "@^0.2.0", "@^0.2.3", "@~0.2.1", "@0",
    "@>=1.0.0", "@>1.0.0", "@<2.0.0", "@<=1.1.0", "@>=1.0.0 <2.0.0", "@1.0.0 - 2.0.0", "@1.0.0 || 2.0.0", "@^1.0.0 || ^0.2.0",
    "@^1.0.1-rc.0", "@~1.0.1-rc.1", "@>=1.0.1-rc.1", "@^2.0.0-beta.1", "@>=2.0.0-alpha", "@>2.0.0-beta.1", "@<2.0.0-rc", "@^3.0.0",
    "@>=1.0.0 <1.1.0", "@<1.0.0", "@1.1.0 - 1.9", "@>=0.2.3 <=1.0.0",
];

struct Case {
    versions: Vec<&'static str>,
    latest: Option<&'static str>,
    next: Option<&'static str>,
    default_tag: &'static str,
    req: &'static str,
}

/// What npm's rules select. None: nothing is selected. Err: no claim.
fn expected(c: &Case) -> Result<Option<&'static str>, ()> {
    let r = c.req.trim_start_matches('@');
    let pubd = |v: &str| c.versions.iter().copied().find(|w| *w == v);
    let dt = match c.default_tag {
        "latest" => c.latest,
        _ => c.next,
    };
    let dtv = dt.and_then(|v| pubd(v));
    if r.is_empty() {
        return dtv.map(Some).ok_or(());
    }
    let plain = r.trim_start_matches('=').trim_start_matches('v');
    if semv::is_version(plain) {
        return Ok(pubd(plain));
    }
    match semv::satisfies("1.0.0", r) {
        None => Ok(match r {
            "latest" => c.latest.and_then(|v| pubd(v)),
            "next" => c.next.and_then(|v| pubd(v)),
            _ => None,
        }),
        Some(_) => {
            let ok = |v: &str| semv::satisfies(v, r).unwrap();
            if let Some(v) = dtv {
                if ok(v) || r == "*" || r == "x" {
                    // The highest regular version is as good an answer to `*` when the tag names a prerelease.
                    if !ok(v) && c.versions.iter().any(|v| ok(v)) {
                        return Err(());
                    }
                    return Ok(Some(v));
                }
            }
            Ok(c.versions.iter().copied().filter(|v| ok(v)).max_by_key(|v| semv::V::parse(v).unwrap()))
        }
    }
}

fn packument(c: &Case, base: &str) -> Value {
    let mut versions = Map::new();
    for (i, v) in c.versions.iter().enumerate() {
        versions.insert(
            v.to_string(),
            json!({"name": "p", "version": v, "dist": {"tarball": format!("{base}p/-/t{i}-{v}.tgz"), "integrity": integrity(v)}}),
        );
    }
    let mut tags = BTreeMap::new();
    if let Some(l) = c.latest {
        tags.insert("latest", l);
    }
    if let Some(l) = c.next {
        tags.insert("next", l);
    }
    json!({"name": "p", "versions": versions, "dist-tags": tags})
}

fn integrity(v: &str) -> String {
    crate::uni::Universe::integrity(v.as_bytes())
}

fn one(c: &Case) -> Out {
    thread_local! {
        static S: (Arc<Mutex<Value>>, Server) = {
            let v = Arc::new(Mutex::new(Value::Null));
            let w = v.clone();
            (v, Server::start(Arc::new(move |_| Resp::json(&w.lock().unwrap()))))
        };
    }
    S.with(|(v, s)| {
        *v.lock().unwrap() = packument(c, &s.url());
        let n = nassun(&s.url(), c.default_tag);
        let got = async_std::task::block_on(n.resolve(format!("p{}", c.req)));
        let exp = match expected(c) {
            Ok(e) => e,
            Err(()) => return Ok(false),
        };
        match (&got, exp) {
            (Err(_), None) => {}
            (Err(e), Some(v)) => return Err(format!("p{} should select {v}, but fails: {e}", c.req).into()),
            (Ok(p), e) => {
                let r = p.resolved();
                let ver = r.npm_version().map(|v| v.to_string()).unwrap_or_default();
                if Some(ver.as_str()) != e {
                    return Err(format!("p{} selects {ver}, should select {e:?}", c.req).into());
                }
                let i = c.versions.iter().position(|v| *v == ver).unwrap();
                let want = format!("{}p/-/t{i}-{ver}.tgz", s.url());
                if r.to_string() != want {
                    return Err(format!("p{} uses the tarball {r}, not {want}", c.req).into());
                }
                if r.integrity().map(|i| i.to_string()) != Some(integrity(&ver)) {
                    return Err(format!("p{} uses the integrity {:?} for {ver}", c.req, r.integrity()).into());
                }
                let m = async_std::task::block_on(p.corgi_metadata()).map_err(|e| format!("metadata: {e}"))?;
                if m.manifest.version.as_ref().map(|v| v.to_string()) != Some(ver.clone()) {
                    return Err(format!("the metadata of p{} is that of {:?}, not {ver}", c.req, m.manifest.version).into());
                }
            }
        }
        Ok(!c.versions.is_empty())
    })
}

pub fn run(ctx: &Ctx) {
    let mut alpha: Vec<&'static str> = VERSIONS.to_vec();
    alpha.extend(MORE);
    if ctx.thorough {
        alpha.extend(["1.1.1-alpha", "3.0.0-0"]);
    }
    let mut cases = vec![];
    for m in 0..1u32 << alpha.len() {
        let versions: Vec<&'static str> = alpha.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, v)| *v).collect();
        let mut lat: Vec<Option<&'static str>> = vec![None];
        lat.extend(versions.iter().map(|v| Some(*v)));
        if versions.len() < alpha.len() {
            lat.push(alpha.iter().copied().find(|v| !versions.contains(v)));
        }
        for l in &lat {
            // The second tag: the first published version, or what `latest` is not.
            let next = versions.iter().copied().find(|v| Some(*v) != *l);
            for dt in ["latest", "next"] {
                if dt == "next" && m % 3 != 0 && !ctx.thorough {
                    continue;
                }
                for r in REQS {
                    cases.push(Case { versions: versions.clone(), latest: *l, next, default_tag: dt, req: r });
                }
            }
        }
    }
    ctx.par(
        cores(),
        cases.iter(),
        |c| json!({"versions": c.versions, "latest": c.latest, "next": c.next, "default tag": c.default_tag, "request": format!("p{}", c.req)}),
        |c, _| one(c),
    );
}
