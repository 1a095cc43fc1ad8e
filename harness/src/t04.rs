use crate::drive::*;
use crate::http::{Resp, Server};
use crate::report::*;
use crate::snap::*;
use crate::tarb::{self, Ent};
use crate::uni::*;
use node_maintainer::NodeMaintainer;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::{Arc, Mutex};

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "T04",
        thorough,
        "fault_enumeration",
        "Every file of a warm cache (registry answers, archive indexes, file contents) x every damage (removed, emptied, every truncation point of a grid, byte flips of a grid, extended, a line removed, replaced by every other file of the cache, by a directory, a dangling link), every directory of the cache removed or replaced by a file, and every pair of simple damages to two files; the real code then installs from it, twice, by copying and by linking, with a registry that serves the packages, serves other data in place of every archive, or refuses archives. Oracle: the packages' files, or an error; no error where the damage is to contents and the registry serves the packages. Non-trivial: the damage changed something.",
    )
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Damage {
    Remove,
    Trunc(usize),
    Flip(usize),
    Append,
    DropLine,
    Double,
    Copy(usize),
    Dir,
    Dangling,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Reg {
    Good,
    Evil,
    Gone,
}

#[derive(Clone, Debug)]
enum What {
    Files(Vec<(usize, Damage)>),
    /// A directory (by label: where things are depends on the port, among others) removed or replaced by a file.
    Dir(String, bool),
}

#[derive(Clone, Debug)]
struct Case {
    what: What,
    reg: Reg,
    copy: bool,
}

fn universe() -> Universe {
    let mut u = Universe::default();
    let shared = "module.exports = 'shared'\n";
    let mut p = Ver::deps(&[("q", "^1.0.0")]).bin("p-cli", "cli.js").file("lib/shared.js", shared).file("lib/only-p.js", "p\n");
    p.files.insert("tool.sh".into(), (0o755, "#!/bin/sh\nexit 0\n".into()));
    u.add("p", "1.0.0", p).tag("p", "latest", "1.0.0");
    u.add("q", "1.0.0", Ver::default().file("shared.js", shared).file("tool.sh", "#!/bin/sh\nexit 0\n")).tag("q", "latest", "1.0.0");
    u.add("s", "1.0.0", Ver::default().script("install", "true").file("shared.js", shared)).tag("s", "latest", "1.0.0");
    u
}

struct World {
    server: Server,
    reg: Arc<Mutex<Reg>>,
    /// label -> (path, data)
    files: Vec<(String, String, Vec<u8>)>,
    dirs: Vec<(String, String)>,
    expected: Tree,
}

thread_local! {
    static W: std::cell::RefCell<Option<World>> = const { std::cell::RefCell::new(None) };
}

/// Installs in a process of its own: what a failed installation left running must not get into the next one.
fn install(s: &Server, dir: &Path, copy: bool) -> Result<(), String> {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("t04-install").arg(s.url()).arg(dir).arg(copy.to_string());
    c.env("SSL_CERT_FILE", "/dev/null").env("SSL_CERT_DIR", "/nonexistent").stdin(std::process::Stdio::null());
    let o = crate::cli::run(c, std::time::Duration::from_secs(20));
    match o.code {
        Some(0) => Ok(()),
        Some(3) => Err(o.stdout),
        _ => Err(format!("PANIC or hang {:?} {}", o.code, o.stderr.chars().take(600).collect::<String>())),
    }
}

pub fn helper(args: &[String]) {
    let (url, dir, copy) = (&args[0], Path::new(&args[1]), args[2] == "true");
    let r: Result<(), String> = async_std::task::block_on(async {
        let nm = NodeMaintainer::builder()
            .registry(url.parse().unwrap())
            .cache(dir.join("cache"))
            .hoisted(true)
            .prefer_copy(copy)
            .root(dir.join("proj"))
            .resolve_manifest(corgi(json!({"name": "x", "dependencies": {"p": "^1.0.0", "s": "*"}})))
            .await
            .map_err(|e| format!("resolution: {e}"))?;
        nm.extract().await.map_err(|e| format!("extraction: {e}"))?;
        nm.rebuild(true).await.map_err(|e| format!("linking: {e}"))
    });
    if let Err(e) = r {
        println!("{e}");
        std::process::exit(3);
    }
    std::process::exit(0);
}

fn project(dir: &Path) -> Tree {
    let mut t = snap(&dir.join("proj/node_modules"));
    // The record of what is installed has the server's port in it; R05 and I01 judge it.
    t.retain(|k, _| !k.starts_with(".orogene"));
    t
}

fn fresh(dir: &Path) {
    let _ = std::fs::remove_dir_all(dir.join("proj"));
    std::fs::create_dir_all(dir.join("proj")).unwrap();
}

fn world(dir: &Path) -> Result<World, String> {
    let reg = Arc::new(Mutex::new(Reg::Good));
    let r2 = reg.clone();
    let u = universe();
    let evil = tarb::tgz(&[Ent::file("package/package.json", 0o644, br#"{"name":"evil","version":"6.6.6"}"#.to_vec()), Ent::file("package/index.js", 0o644, b"evil\n".to_vec())]);
    let server = Server::start(Arc::new(move |r| {
        let base = format!("http://{}/", r.header("host").unwrap());
        if r.path.ends_with(".tgz") {
            match *r2.lock().unwrap() {
                Reg::Good => {}
                Reg::Evil => return Resp::ok(evil.clone()),
                Reg::Gone => return Resp::status(404),
            }
            return u.answer(r, &base, true);
        }
        let a = u.answer(r, &base, true);
        // One answer may be reused, another has to be validated, another is not stored.
        match r.path.as_str() {
            "/p" => a.with("cache-control", "public, max-age=300"),
            "/q" => a.with("etag", "\"1\"").with("cache-control", "public, max-age=0"),
            _ => a,
        }
    }));
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir.join("cache")).unwrap();
    fresh(dir);
    install(&server, dir, false).map_err(|e| format!("first installation: {e}"))?;
    let expected = project(dir);
    let t = snap(&dir.join("cache"));
    let port = format!(":{}/", server.port);
    // What each content file is, for a stable order.
    let mut label: BTreeMap<String, String> = BTreeMap::new();
    for (k, n) in &t {
        if let (true, Node::File { data, .. }) = (k.starts_with("index-v5"), n) {
            for l in String::from_utf8_lossy(data).lines() {
                if let Some(v) = l.split_once('\t').and_then(|(_, j)| serde_json::from_str::<Value>(j).ok()) {
                    let key = v["key"].as_str().unwrap_or("").replace(&port, "/");
                    label.entry(k.clone()).or_default().push_str(&format!("index of {key}"));
                    if let Some(i) = v["integrity"].as_str() {
                        if let Ok((_, hex)) = i.parse::<ssri::Integrity>().map(|i| i.to_hex()) {
                            let want = format!("{}/{}/{}", &hex[0..2], &hex[2..4], &hex[4..]);
                            for c in t.keys().filter(|c| c.starts_with("content-v2") && c.ends_with(&want)) {
                                label.insert(c.clone(), format!("content of {key}"));
                            }
                        }
                    }
                }
            }
        }
    }
    let mut files: Vec<(String, String, Vec<u8>)> = t
        .iter()
        .filter_map(|(k, n)| match n {
            Node::File { data, .. } => Some((label.get(k).cloned().unwrap_or_else(|| format!("content {:?}", String::from_utf8_lossy(data).chars().take(60).collect::<String>())), k.clone(), data.clone())),
            _ => None,
        })
        .collect();
    files.sort();
    let mut dirs: Vec<(String, String)> = t
        .iter()
        .filter(|(_, n)| matches!(n, Node::Dir))
        .map(|(k, _)| {
            let inside: Vec<&str> = files.iter().filter(|f| f.1.starts_with(&format!("{k}/"))).map(|f| f.0.as_str()).collect();
            (format!("{} levels: {inside:?}", k.matches('/').count()), k.clone())
        })
        .collect();
    dirs.sort();
    Ok(World { server, reg, files, dirs, expected })
}

fn restore(w: &World, cache: &Path) {
    let _ = std::fs::remove_dir_all(cache);
    std::fs::create_dir_all(cache.join("tmp")).unwrap();
    for (_, d) in &w.dirs {
        std::fs::create_dir_all(cache.join(d)).unwrap();
    }
    for (_, p, d) in &w.files {
        std::fs::write(cache.join(p), d).unwrap();
    }
}

fn damage(w: &World, cache: &Path, i: usize, d: Damage) -> bool {
    let (_, p, data) = &w.files[i];
    let f = cache.join(p);
    let _ = std::fs::remove_file(&f);
    let new = match d {
        Damage::Remove => return true,
        Damage::Dir => {
            std::fs::create_dir(&f).unwrap();
            return true;
        }
        Damage::Dangling => {
            std::os::unix::fs::symlink("/nonexistent/x", &f).unwrap();
            return true;
        }
        Damage::Trunc(k) => data[..k * data.len() / 16].to_vec(),
        Damage::Flip(k) => {
            let mut x = data.clone();
            let at = k * data.len() / 64;
            if at < x.len() {
                x[at] ^= 1;
            }
            x
        }
        Damage::Append => [&data[..], b"\nextra\n"].concat(),
        Damage::DropLine => {
            let mut l: Vec<&[u8]> = data.split(|b| *b == b'\n').collect();
            l.pop();
            l.join(&b'\n')
        }
        Damage::Double => [&data[..], &data[..]].concat(),
        Damage::Copy(j) => w.files[j].2.clone(),
    };
    let changed = new != *data;
    std::fs::write(&f, new).unwrap();
    changed
}

fn one(c: &Case, dir: &Path) -> Out {
    W.with(|w| {
        let mut w = w.borrow_mut();
        if w.is_none() {
            *w = Some(world(dir)?);
        }
        let w = w.as_ref().unwrap();
        let cache = dir.join("cache");
        restore(w, &cache);
        let changed = match &c.what {
            What::Files(v) => v.iter().map(|(i, d)| damage(w, &cache, *i, *d)).fold(false, |a, b| a | b),
            What::Dir(i, file) => {
                let Some((_, d)) = w.dirs.iter().find(|d| d.0 == *i) else { return Ok(false) };
                let d = cache.join(d);
                let _ = std::fs::remove_dir_all(&d);
                if *file {
                    std::fs::write(&d, b"not a directory").unwrap();
                }
                true
            }
        };
        *w.reg.lock().unwrap() = c.reg;
        for round in ["", "second time: "] {
            fresh(dir);
            let r = install(&w.server, dir, c.copy);
            let got = project(dir);
            match r {
                Ok(()) => {
                    let d = diff(&w.expected, &got);
                    if !d.is_empty() {
                        return Err(format!("{round}installed something else: {d:?}").into());
                    }
                }
                Err(e) => {
                    if e.starts_with("PANIC") {
                        return Err(format!("{round}{e}").into());
                    }
                    if let Some((k, _)) = got.iter().find(|(_, n)| matches!(n, Node::File { data, .. } if data.windows(4).any(|w| w == b"evil"))) {
                        return Err(format!("{round}{k} was installed from the wrong archive before it failed with: {e}").into());
                    }
                    // Only something that can't be replaced by a file excuses not fetching it again.
                    let excused = match &c.what {
                        What::Dir(_, file) => *file,
                        What::Files(v) => v.iter().any(|(_, d)| matches!(d, Damage::Dir | Damage::Dangling)),
                    };
                    if c.reg == Reg::Good && !excused {
                        return Err(format!("{round}fails although the registry has everything: {e}").into());
                    }
                    if !changed {
                        return Err(format!("{round}fails with an intact cache: {e}").into());
                    }
                }
            }
        }
        Ok(changed)
    })
}

pub fn run(ctx: &Ctx) {
    let w = match world(&ctx.scratch.join("plan")) {
        Ok(w) => w,
        Err(e) => return ctx.error(e),
    };
    let nf = w.files.len();
    ctx.cov("cache files", json!(w.files.iter().map(|f| &f.0).collect::<Vec<_>>()));
    let mut whats = vec![];
    for i in 0..nf {
        let mut ds = vec![Damage::Remove, Damage::Append, Damage::DropLine, Damage::Double, Damage::Dir, Damage::Dangling];
        ds.extend((0..16).map(Damage::Trunc));
        ds.extend((0..64).step_by(if ctx.thorough { 1 } else { 4 }).map(Damage::Flip));
        ds.extend((0..nf).filter(|j| *j != i).map(Damage::Copy));
        whats.extend(ds.into_iter().map(|d| What::Files(vec![(i, d)])));
    }
    for (i, _) in &w.dirs {
        whats.extend([What::Dir(i.clone(), false), What::Dir(i.clone(), true)]);
    }
    let simple = [Damage::Remove, Damage::Flip(32), Damage::Trunc(8)];
    for i in 0..nf {
        for j in 0..i {
            for a in simple {
                for b in if ctx.thorough { &simple[..] } else { &simple[..2] } {
                    whats.push(What::Files(vec![(i, a), (j, *b)]));
                }
            }
        }
    }
    let mut cases = vec![Case { what: What::Files(vec![]), reg: Reg::Good, copy: false }];
    for (k, what) in whats.iter().enumerate() {
        for (r, reg) in [Reg::Good, Reg::Evil, Reg::Gone].into_iter().enumerate() {
            for copy in [false, true] {
                let pair = matches!(what, What::Files(v) if v.len() > 1);
                // The cache library never returns from reading an index like this: a
                // known finding, which needs only one case.
                let hangs = matches!(what, What::Files(v) if v.iter().any(|(i, d)| w.files[*i].0.starts_with("index of GET:") && match d {
                    Damage::Dir => true,
                    Damage::Copy(j) => std::str::from_utf8(&w.files[*j].2).is_err(),
                    _ => false,
                }));
                if hangs {
                    let first = matches!(what, What::Files(v) if w.files[v[0].0].0 == "index of GET:http://127.0.0.1/p" && match v[0].1 {
                        Damage::Copy(j) => w.files[j].0 == "content of GET:http://127.0.0.1/q",
                        _ => true,
                    });
                    if first && reg == Reg::Good && !copy {
                        cases.insert(1, Case { what: what.clone(), reg, copy });
                    }
                    continue;
                }
                if ctx.thorough || (k + r + copy as usize) % 2 == 0 && !(pair && (k / 2 + r) % 3 > 0) {
                    cases.push(Case { what: what.clone(), reg, copy });
                }
            }
        }
    }
    ctx.par(
        cores(),
        cases.iter(),
        |c| {
            let d = match &c.what {
                What::Files(v) => v.iter().map(|(i, d)| format!("{}: {}", w.files[*i].0, if let Damage::Copy(j) = d { format!("replaced by {}", w.files[*j].0) } else { format!("{d:?}") })).collect::<Vec<_>>(),
                What::Dir(i, f) => vec![format!("directory {i}: {}", if *f { "replaced by a file" } else { "removed" })],
            };
            json!({"damage": d, "registry": format!("{:?}", c.reg), "copy": c.copy})
        },
        |c, d| one(c, d),
    );
}
