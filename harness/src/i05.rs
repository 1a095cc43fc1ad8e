//! I05: executables of dependencies.
use crate::drive::*;
use crate::http::{Req, Resp, Server};
use crate::report::*;
use crate::tarb::{self, Ent};
use node_maintainer::NodeMaintainer;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "I05",
        thorough,
        "exploration",
        "Every shape of executables declaration of an alphabet (text, map, list, directory; paths with dots, slashes, parent steps, missing files; names with scopes), for scoped and unscoped packages, with every file mode of the alphabet, as a direct dependency, a dependency of a dependency, and nested because of a conflict, with both linkers, with and without a cache; then applied again, and for every pair of shapes updated from one to the other. After every apply each expected .bin entry has to lead to the declared file of the package, be executable, and when run, be that file; nothing else may be linked. Oracle: npm's rules for the declaration. Non-trivial: something is linked.",
    )
}

/// (label, declaration, expected name -> file; "=" stands for the package's name without scope)
fn shapes() -> Vec<(&'static str, Value, &'static [(&'static str, &'static str)])> {
    vec![
        ("none", json!({}), &[]),
        ("text", json!({"bin": "x.js"}), &[("=", "x.js")]),
        ("text, dot", json!({"bin": "./bin/x.js"}), &[("=", "bin/x.js")]),
        ("text, up and down", json!({"bin": "./bin/../x.js"}), &[("=", "x.js")]),
        ("text, absolute", json!({"bin": "/bin/x.js"}), &[("=", "bin/x.js")]),
        ("text, missing file", json!({"bin": "nowhere.js"}), &[]),
        ("text, empty", json!({"bin": ""}), &[]),
        ("map", json!({"bin": {"one": "x.js"}}), &[("one", "x.js")]),
        ("map, several", json!({"bin": {"one": "x.js", "two": "bin/y.js", "three": "./x.js"}}), &[("one", "x.js"), ("two", "bin/y.js"), ("three", "x.js")]),
        ("map, one is missing", json!({"bin": {"one": "nowhere", "two": "bin/y.js"}}), &[("two", "bin/y.js")]),
        ("map, scoped name", json!({"bin": {"@q/one": "x.js"}}), &[("one", "x.js")]),
        ("map, odd names", json!({"bin": {"One.Two-3_4": "x.js", "ünï": "bin/y.js"}}), &[("One.Two-3_4", "x.js"), ("ünï", "bin/y.js")]),
        ("map, empty", json!({"bin": {}}), &[]),
        ("map, same file as index", json!({"bin": {"one": "./lib/deep/er/z.sh"}}), &[("one", "lib/deep/er/z.sh")]),
        ("list", json!({"bin": ["x.js", "./bin/y.js"]}), &[("x.js", "x.js"), ("y.js", "bin/y.js")]),
        ("directory", json!({"directories": {"bin": "bin"}}), &[("x.js", "bin/x.js"), ("y.js", "bin/y.js")]),
        ("directory, dot", json!({"directories": {"bin": "./bin/"}}), &[("x.js", "bin/x.js"), ("y.js", "bin/y.js")]),
        ("directory, missing", json!({"directories": {"bin": "nowhere"}}), &[]),
        ("directory and map", json!({"bin": {"one": "x.js"}, "directories": {"bin": "bin"}}), &[("one", "x.js")]),
        ("directory of something else", json!({"directories": {"lib": "bin"}}), &[]),
        ("null", json!({"bin": null}), &[]),
    ]
}

const FILES: &[&str] = &["x.js", "bin/x.js", "bin/y.js", "bin/.hidden", "lib/deep/er/z.sh"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Place {
    Direct,
    /// A dependency of the project's only dependency.
    Below,
    /// The same, with another version of the package at the top.
    Nested,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Case {
    scoped: bool,
    place: Place,
    first: usize,
    second: Option<usize>,
    mode: u32,
    hoisted: bool,
    cache: bool,
}

struct Pkg {
    name: String,
    version: &'static str,
    fields: Value,
    mode: u32,
    deps: Value,
}

impl Pkg {
    fn json(&self) -> Value {
        let mut o = json!({"name": self.name, "version": self.version, "dependencies": self.deps});
        for (k, v) in self.fields.as_object().unwrap() {
            o[k] = v.clone();
        }
        o
    }
    fn tgz(&self) -> Vec<u8> {
        let mut e = vec![Ent::file("package/package.json", 0o644, self.json().to_string().into_bytes())];
        for f in FILES {
            e.push(Ent::file(&format!("package/{f}"), self.mode, format!("#!/bin/sh\necho {}@{} {f}\n", self.name, self.version).into_bytes()));
        }
        tarb::tgz(&e)
    }
}

type Reg = Arc<Mutex<Vec<Pkg>>>;

fn answer(reg: &[Pkg], req: &Req) -> Resp {
    let path = req.path.trim_start_matches('/').replace("%2f", "/").replace("%2F", "/").replace("%40", "@");
    let base = format!("http://{}/", req.header("host").unwrap_or(""));
    if let Some((n, f)) = path.split_once("/-/") {
        return reg.iter().find(|p| p.name == n && f == format!("{}.tgz", p.version)).map(|p| Resp::ok(p.tgz())).unwrap_or(Resp::status(404));
    }
    let mut versions = Map::new();
    let mut latest = "";
    for p in reg.iter().filter(|p| p.name == path) {
        let mut o = p.json();
        o["dist"] = json!({"tarball": format!("{base}{path}/-/{}.tgz", p.version), "integrity": crate::uni::Universe::integrity(&p.tgz())});
        versions.insert(p.version.into(), o);
        latest = p.version;
    }
    if versions.is_empty() {
        return Resp::status(404);
    }
    Resp::json(&json!({"name": path, "versions": versions, "dist-tags": {"latest": latest}}))
}

fn apply(url: &str, proj: &Path, cache: Option<&Path>, man: Value, hoisted: bool) -> Result<(), String> {
    std::fs::write(proj.join("package.json"), man.to_string()).unwrap();
    async_std::task::block_on(async {
        let mut b = NodeMaintainer::builder().hoisted(hoisted).root(proj);
        b = match cache {
            Some(c) => b.nassun(nassun_cached(url, c)).cache(c),
            None => b.nassun(nassun(url, "latest")),
        };
        let nm = b.resolve_manifest(corgi(man)).await.map_err(|e| format!("resolution failed: {e}"))?;
        nm.prune().await.map_err(|e| format!("pruning failed: {e}"))?;
        nm.extract().await.map_err(|e| format!("extraction failed: {e}"))?;
        nm.rebuild(true).await.map_err(|e| format!("linking failed: {e}"))?;
        nm.write_lockfile(proj.join("package-lock.kdl")).await.map_err(|e| format!("writing the lockfile failed: {e}"))
    })
}

/// Every entry of a .bin directory leads where it should.
fn check_bin(dir: &Path, want: &BTreeMap<String, (String, String)>, pkg_dir: &dyn Fn(&str) -> PathBuf) -> Result<(), String> {
    let have: BTreeMap<String, PathBuf> = std::fs::read_dir(dir).map(|rd| rd.flatten().map(|e| (e.file_name().to_string_lossy().into_owned(), e.path())).collect()).unwrap_or_default();
    for n in have.keys() {
        if !want.contains_key(n) {
            return Err(format!("{} is linked, but nothing declares it", dir.join(n).display()));
        }
    }
    for (n, (id, file)) in want {
        let p = dir.join(n);
        let Ok(real) = std::fs::canonicalize(&p) else { return Err(format!("{} is missing", p.display())) };
        let should = std::fs::canonicalize(pkg_dir(id).join(file)).map_err(|e| format!("{id}/{file}: {e}"))?;
        if real != should {
            return Err(format!("{} leads to {} instead of {}", p.display(), real.display(), should.display()));
        }
        let mode = std::fs::metadata(&p).unwrap().permissions().mode();
        if mode & 0o111 != 0o111 {
            return Err(format!("{} can't be executed: {:o}", p.display(), mode & 0o777));
        }
        // Another thread's child may for an instant still hold the file open
        // for writing (between fork and exec): try again.
        let mut tries = 0;
        let o = loop {
            match std::process::Command::new(&p).current_dir("/").output() {
                Err(e) if e.raw_os_error() == Some(26) && tries < 200 => {
                    tries += 1;
                    std::thread::sleep(std::time::Duration::from_millis(10));
                }
                r => break r.map_err(|e| format!("running {}: {e}", p.display()))?,
            }
        };
        if String::from_utf8_lossy(&o.stdout) != format!("{id} {file}\n") {
            return Err(format!("running {} gives {:?}", p.display(), o));
        }
    }
    Ok(())
}

fn one(reg: &Reg, server: &Server, c: &Case, dir: &Path) -> Out {
    let sh = shapes();
    let name = if c.scoped { "@s/p" } else { "p" };
    let (proj, cache) = (dir.join("p"), dir.join("cache"));
    let _ = std::fs::remove_dir_all(&proj);
    std::fs::create_dir_all(&proj).unwrap();
    std::fs::create_dir_all(&cache).unwrap();
    let steps: Vec<usize> = [c.first].into_iter().chain(c.second).collect();
    let vs = ["1.0.0", "2.0.0"];
    let mut pk: Vec<Pkg> = steps.iter().enumerate().map(|(i, s)| Pkg { name: name.into(), version: vs[i], fields: sh[*s].1.clone(), mode: c.mode, deps: json!({}) }).collect();
    // The one at the top, in conflict.
    pk.push(Pkg { name: name.into(), version: "9.0.0", fields: json!({"bin": {"nine": "x.js"}}), mode: 0o644, deps: json!({}) });
    for (i, _) in steps.iter().enumerate() {
        pk.push(Pkg { name: "dep".into(), version: vs[i], fields: json!({"bin": "x.js"}), mode: 0o644, deps: json!({name: vs[i]}) });
    }
    *reg.lock().unwrap() = pk;
    let mut some = false;
    for (i, s) in steps.iter().enumerate() {
        let deps = match c.place {
            Place::Direct => json!({name: vs[i]}),
            Place::Below => json!({"dep": vs[i]}),
            Place::Nested => json!({"dep": vs[i], name: "9.0.0"}),
        };
        let man = json!({"name": "proj", "version": "1.0.0", "dependencies": deps});
        let id = format!("{name}@{}", vs[i]);
        let mine: BTreeMap<String, (String, String)> = sh[*s].2.iter().map(|(n, f)| (if *n == "=" { "p".to_string() } else { n.to_string() }, (id.clone(), f.to_string()))).collect();
        some |= !mine.is_empty();
        let nm = proj.join("node_modules");
        let dep = ("dep".to_string(), (format!("dep@{}", vs[i]), "x.js".to_string()));
        let mut top: BTreeMap<String, (String, String)> = BTreeMap::new();
        let mut inner = BTreeMap::new();
        let dep_dir = || std::fs::canonicalize(nm.join("dep")).unwrap_or_default();
        let inner_nm = || if c.place == Place::Nested || !c.hoisted { dep_dir().join("node_modules") } else { nm.clone() };
        match c.place {
            Place::Direct => top = mine,
            Place::Below => {
                top.extend([dep]);
                if c.hoisted { top.extend(mine) } else { inner = mine }
            }
            Place::Nested => {
                top.extend([dep, ("nine".into(), (format!("{name}@9.0.0"), "x.js".into()))]);
                inner = mine;
            }
        }
        for round in ["", "once more: "] {
            apply(&server.url(), &proj, c.cache.then_some(cache.as_path()), man.clone(), c.hoisted).map_err(|e| format!("{round}{e}"))?;
            let pkg_dir = |x: &str| -> PathBuf {
                if x.starts_with("dep@") {
                    nm.join("dep")
                } else if x.ends_with("@9.0.0") || c.place == Place::Direct {
                    nm.join(name)
                } else {
                    inner_nm().join(name)
                }
            };
            check_bin(&nm.join(".bin"), &top, &pkg_dir).map_err(|e| format!("{round}step {i}: {e}"))?;
            if c.place != Place::Direct && (c.place == Place::Nested || !c.hoisted) {
                check_bin(&dep_dir().join("node_modules/.bin"), &inner, &pkg_dir).map_err(|e| format!("{round}step {i}: {e}"))?;
            }
        }
    }
    Ok(some)
}

pub fn run(ctx: &Ctx) {
    let n = shapes().len();
    let mut cases = vec![];
    for place in [Place::Direct, Place::Below, Place::Nested] {
        for hoisted in [true, false] {
            for scoped in [false, true] {
                for first in 0..n {
                    for mode in [0o644, 0o755, 0o600, 0o444] {
                        for cache in [false, true] {
                            cases.push(Case { scoped, place, first, second: None, mode, hoisted, cache });
                        }
                    }
                    for second in 0..n {
                        if ctx.thorough || (place != Place::Below && scoped == (first % 2 == 0)) {
                            cases.push(Case { scoped, place, first, second: Some(second), mode: 0o644, hoisted, cache: second % 2 == 0 });
                            if ctx.thorough {
                                cases.push(Case { scoped, place, first, second: Some(second), mode: 0o755, hoisted, cache: second % 2 == 1 });
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.cov("shapes", n as u64);
    let worlds: Mutex<std::collections::HashMap<PathBuf, Arc<(Reg, Server)>>> = Default::default();
    let sh = shapes();
    let show = |c: &Case| json!({"shape": sh[c.first].0, "then": c.second.map(|s| sh[s].0), "scoped": c.scoped, "place": format!("{:?}", c.place), "mode": format!("{:o}", c.mode), "hoisted": c.hoisted, "cache": c.cache});
    ctx.par(cores(), cases.into_iter(), show, |c, d| {
        std::fs::create_dir_all(d).unwrap();
        let w = worlds
            .lock()
            .unwrap()
            .entry(d.to_path_buf())
            .or_insert_with(|| {
                let reg: Reg = Default::default();
                let r2 = reg.clone();
                Arc::new((reg, Server::start(Arc::new(move |r: &Req| answer(&r2.lock().unwrap(), r)))))
            })
            .clone();
        one(&w.0, &w.1, c, d)
    });
}
