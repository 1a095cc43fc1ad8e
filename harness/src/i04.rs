//! I04: commands that fail because of the registry.
use crate::http::{Req, Resp, Server};
use crate::i03::{self, man, Scenario};
use crate::report::*;
use crate::snap::{diff, Node, Tree};
use crate::uni::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::process::Stdio;
use std::sync::{Arc, Mutex};

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "I04",
        thorough,
        "fault_enumeration",
        "Every registry request of real `oro` commands as the failing one: for every distinct request of an undisturbed run (metadata and archives) and every kind of failure (refused connection, dropped connection, truncated answer, statuses, answers that are no or other JSON, archives that are garbage, truncated or of another package), and for every k, everything failing from the k-th request on, the command runs against the disturbed registry. It must fail, with package.json and the lockfile as they were byte for byte, or succeed with exactly the undisturbed result; where the failing request was needed it must fail. Then it runs again undisturbed, and must give the undisturbed result. Commands: apply (first, update, with and without cache, lockfile only, both linkers), add (several, kinds, tags, aliases), remove, reapply. Non-trivial: the command failed.",
    )
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Status(u16),
    Reset,
    Cut,
    Garbage,
    Empty,
    Json(&'static str),
    Other,
    Redirect,
}

const KINDS: &[Kind] = &[
    Kind::Status(500),
    Kind::Status(404),
    Kind::Status(403),
    Kind::Status(429),
    Kind::Status(204),
    Kind::Reset,
    Kind::Cut,
    Kind::Garbage,
    Kind::Empty,
    Kind::Json("null"),
    Kind::Json("[]"),
    Kind::Json("{}"),
    Kind::Json("{\"versions\":{},\"dist-tags\":{}}"),
    Kind::Json("{\"versions\":{\"1.0.0\":{\"name\":3}},\"dist-tags\":{\"latest\":\"1.0.0\"}}"),
    Kind::Other,
    Kind::Redirect,
];

#[derive(Clone, Debug)]
enum Fault {
    Path(String, Kind),
    From(usize, Kind),
}

#[derive(Default)]
struct Dist {
    fault: Option<Fault>,
    seen: Vec<String>,
    hit: bool,
}

struct World {
    w: i03::World,
    dist: Arc<Mutex<Dist>>,
    bases: Mutex<HashMap<usize, Arc<Base>>>,
}

struct Base {
    dir: PathBuf,
    before: Tree,
    want: Tree,
    paths: Vec<String>,
    requests: usize,
    seen: Vec<String>,
}

fn disturb(kind: Kind, req: &Req, good: Resp) -> Resp {
    match kind {
        Kind::Status(s) => Resp::status(s),
        Kind::Reset => Resp { reset: true, ..Default::default() },
        Kind::Cut => Resp { cut: Some(good.body.len() / 2), ..good },
        Kind::Garbage => Resp::ok(b"<html>not what you asked for</html>".to_vec()),
        Kind::Empty => Resp::ok(Vec::new()),
        Kind::Json(j) => Resp::ok(j.as_bytes().to_vec()).with("content-type", "application/json"),
        Kind::Other if req.path.ends_with(".tgz") => Resp::ok(Universe::tgz("other", "1.0.0", &Ver::default()).to_vec()),
        Kind::Other => {
            let mut u = Universe::default();
            u.add("other", "0.0.1", Ver::default());
            u.tag("other", "latest", "0.0.1");
            Resp::json(&u.packument("other", "http://127.0.0.1:9/", true).unwrap())
        }
        Kind::Redirect => Resp::status(302).with("location", "http://127.0.0.1:9/gone"),
    }
}

fn world() -> World {
    let reg = Arc::new(Mutex::new(i03::new()));
    let dist: Arc<Mutex<Dist>> = Default::default();
    let (r2, d2) = (reg.clone(), dist.clone());
    let server = Server::start(Arc::new(move |req: &Req| {
        let base = format!("http://{}/", req.header("host").unwrap_or("localhost"));
        let good = r2.lock().unwrap().answer(req, &base, true);
        let mut d = d2.lock().unwrap();
        d.seen.push(req.path.clone());
        let kind = match &d.fault {
            Some(Fault::Path(p, k)) if *p == req.path => Some(*k),
            Some(Fault::From(n, k)) if d.seen.len() > *n => Some(*k),
            _ => None,
        };
        if let Some(k) = kind {
            d.hit = true;
            return disturb(k, req, good);
        }
        good
    }));
    World { w: i03::World { reg, server }, dist, bases: Default::default() }
}

pub fn scenarios(thorough: bool) -> Vec<Scenario> {
    let m1 = man(&[("a", "^1.0.0"), ("c", "*"), ("d", "*")]);
    let m2 = man(&[("a", "^2.0.0"), ("c", "*"), ("@s/x", "*")]);
    let mut v = vec![];
    for hoisted in [true, false] {
        let s = |name, before, manifest: &Value, args: &[&'static str]| Scenario { name, before, manifest: manifest.clone(), args: args.to_vec(), hoisted, cache: false, drop_modules: false };
        let b = Some((m1.clone(), hoisted));
        v.push(s("first installation", None, &m2, &["apply"]));
        v.push(s("update", b.clone(), &m2, &["apply"]));
        v.push(s("add", b.clone(), &m1, &["add", "@s/x@^1.0.0", "b@latest"]));
        v.push(s("reapply", b.clone(), &m1, &["reapply"]));
        if hoisted || thorough {
            v.push(Scenario { cache: true, ..s("update", b.clone(), &m2, &["apply"]) });
            v.push(s("add dev", b.clone(), &m1, &["add", "-D", "al@npm:a@2"]));
            v.push(s("add optional", None, &man(&[]), &["add", "-O", "b"]));
            v.push(s("remove", b.clone(), &m2, &["remove", "a"]));
            v.push(s("lockfile only", b.clone(), &m2, &["apply", "--lockfile-only"]));
        }
    }
    v
}

/// The files that a failing command must not touch.
fn files(t: &Tree) -> Tree {
    t.iter().filter(|(k, _)| !k.starts_with("node_modules")).map(|(k, v)| (k.clone(), v.clone())).collect()
}

fn base(w: &World, i: usize, s: &Scenario, dir: &Path) -> Result<Arc<Base>, String> {
    if let Some(b) = w.bases.lock().unwrap().get(&i) {
        return Ok(b.clone());
    }
    let (bd, d) = (dir.join(format!("base{i}")), dir.join("x"));
    *w.dist.lock().unwrap() = Dist::default();
    i03::prepare(&w.w, s, &bd)?;
    let before = i03::result(&bd);
    i03::restore(&bd, &d)?;
    w.dist.lock().unwrap().seen.clear();
    let mut c = i03::command(&w.w, s, &d, true);
    c.stderr(Stdio::piped());
    let o = crate::cli::run(c, i03::LIMIT);
    if o.code != Some(0) {
        return Err(format!("{}: the undisturbed command fails: {}", s.name, o.stderr));
    }
    let seen = std::mem::take(&mut w.dist.lock().unwrap().seen);
    let mut paths = seen.clone();
    paths.sort();
    paths.dedup();
    let b = Arc::new(Base { dir: bd, before, want: i03::result(&d), paths, requests: seen.len(), seen });
    w.bases.lock().unwrap().insert(i, b.clone());
    Ok(b)
}

#[derive(Clone, Debug)]
struct Case {
    scenario: usize,
    fault: Fault,
    retries: bool,
}

fn one(w: &World, ss: &[Scenario], c: &Case, dir: &Path) -> Out {
    let s = &ss[c.scenario];
    let b = base(w, c.scenario, s, dir)?;
    let d = dir.join("x");
    i03::restore(&b.dir, &d)?;
    *w.dist.lock().unwrap() = Dist { fault: Some(c.fault.clone()), ..Default::default() };
    let mut cmd = i03::command(&w.w, s, &d, true);
    cmd.stdout(Stdio::piped()).stderr(Stdio::piped());
    let o = crate::cli::run(cmd, i03::LIMIT);
    let hit = w.dist.lock().unwrap().hit;
    let seen = w.dist.lock().unwrap().seen.clone();
    *w.dist.lock().unwrap() = Dist::default();
    let after = i03::result(&d);
    match o.code {
        None => return Err("the command doesn't end".into()),
        Some(0) => {
            let df = diff(&b.want, &after);
            if !df.is_empty() {
                return Err(format!("succeeds, but: {df:?}").into());
            }
            // An earlier answer in the cache may do, even one of the same run.
            if hit && !s.cache && matches!(c.fault, Fault::Path(..)) {
                return Err(format!("succeeds although a request it needs has failed: {seen:?}").into());
            }
        }
        Some(1) => {
            if !hit {
                return Err(format!("fails although nothing went wrong: {}", o.stderr).into());
            }
            let df = diff(&files(&b.before), &files(&after));
            if !df.is_empty() {
                return Err(format!("fails, but changed the project: {df:?}").into());
            }
            if o.stderr.trim().is_empty() {
                return Err("fails without saying why".into());
            }
        }
        Some(x) => return Err(format!("ends with status {x}: {}", o.stderr.lines().take(3).collect::<Vec<_>>().join(" / ")).into()),
    }
    let mut again = i03::command(&w.w, s, &d, true);
    again.stdout(Stdio::piped()).stderr(Stdio::piped());
    let p = crate::cli::run(again, i03::LIMIT);
    if p.code != Some(0) {
        return Err(format!("once the registry is back: {:?} {}", p.code, p.stderr.lines().take(3).collect::<Vec<_>>().join(" / ")).into());
    }
    let df = diff(&b.want, &i03::result(&d));
    if !df.is_empty() {
        return Err(format!("once the registry is back: {df:?}").into());
    }
    let _ = Node::Dir;
    Ok(o.code != Some(0))
}

pub fn run(ctx: &Ctx) {
    let ss = scenarios(ctx.thorough);
    let worlds: Mutex<HashMap<PathBuf, Arc<World>>> = Default::default();
    // What is requested, per scenario.
    let w0 = world();
    let mut cases = vec![];
    for (i, s) in ss.iter().enumerate() {
        let d = ctx.scratch.join("enumerate");
        std::fs::create_dir_all(&d).unwrap();
        let b = match base(&w0, i, s, &d) {
            Ok(b) => b,
            Err(e) => return ctx.error(e),
        };
        if std::env::var_os("OROMC_VERBOSE").is_some() {
            eprintln!("{} {:?} {}", s.name, b.seen, b.requests);
        }
        ctx.addcov("requests", b.requests as u64);
        ctx.addcov("scenarios", 1);
        for p in &b.paths {
            for k in KINDS {
                // The registry is believed when it says which versions a package has.
                if !p.ends_with(".tgz") && *k == Kind::Other {
                    continue;
                }
                if p.ends_with(".tgz") && matches!(k, Kind::Json(j) if *j != "{}") {
                    continue;
                }
                cases.push(Case { scenario: i, fault: Fault::Path(p.clone(), *k), retries: false });
            }
        }
        for n in 0..b.requests {
            for k in [Kind::Status(500), Kind::Reset] {
                cases.push(Case { scenario: i, fault: Fault::From(n, k), retries: false });
            }
        }
    }
    ctx.cov("faults", cases.len() as u64);
    let show = |c: &Case| json!({"command": ss[c.scenario].args, "scenario": ss[c.scenario].name, "hoisted": ss[c.scenario].hoisted, "cache": ss[c.scenario].cache, "fault": format!("{:?}", c.fault)});
    ctx.par(cores(), cases.into_iter(), show, |c, d| {
        std::fs::create_dir_all(d).unwrap();
        let w = worlds.lock().unwrap().entry(d.to_path_buf()).or_insert_with(|| Arc::new(world())).clone();
        one(&w, &ss, c, d)
    });
}
