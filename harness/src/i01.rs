//! I01 and I02: the state graph of node_modules under applies.
use crate::drive::*;
use crate::http::Server;
use crate::report::*;
use crate::snap::{diff, snap, Node, Tree};
use crate::tree::{target, tree_of};
use crate::uni::*;
use node_maintainer::NodeMaintainer;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::sync::Mutex;

pub fn ctx1(thorough: bool) -> Ctx {
    ctx("I01", thorough)
}
pub fn ctx2(thorough: bool) -> Ctx {
    ctx("I02", thorough)
}

fn ctx(id: &str, thorough: bool) -> Ctx {
    Ctx::new(
        id,
        thorough,
        "model_checking",
        "Explicit-state exploration of node_modules with the real code as transition function: states are (manifest, linker, lockfile kept, way of extracting) reached by an apply, transitions are applies of every manifest of the alphabet from every such state, with the lockfile kept or removed, and from states with every kind of stray or damaged entry. After every transition node_modules is compared with what the resolved tree and the registry's contents say should be there, and with a fresh installation of the same lockfile, and the same apply once more must change nothing; as every transition ends in a state that depends on the resolved tree alone, the result carries over to histories of any length. Non-trivial: the transition had to change node_modules.",
    )
}

pub fn universe() -> Universe {
    let mut u = Universe::default();
    u.add("a", "1.0.0", Ver::deps(&[("b", "^1.0.0")]).bin("a-cli", "cli.js").file("lib/x.js", "a1\n"));
    u.add("a", "2.0.0", Ver::deps(&[("b", "^2.0.0")]).bin("a-cli", "other.js").bin("shared", "sh.js").file("lib/y.js", "a2\n"));
    u.add("b", "1.0.0", Ver::default().bin("b", "b.js"));
    u.add("b", "2.0.0", Ver::deps(&[("e", "*")]).bin("b2", "bin/b2.js").bin("shared", "sh.js"));
    u.add("c", "1.0.0", Ver::deps(&[("a", "^1.0.0"), ("b", "^2.0.0")]).bin("shared", "c.js"));
    u.add("e", "1.0.0", Ver::default().bin("e", "e.js").file("node_modules/bundled/package.json", "{\"name\":\"bundled\",\"version\":\"1.0.0\"}").file("node_modules/@z/bundled/index.js", "z\n"));
    u.add("@s/x", "1.0.0", Ver::deps(&[("@s/y", "^1.0.0"), ("b", "^1.0.0")]).bin("x", "x.js"));
    u.add("@s/y", "1.0.0", Ver::default().bin("y", "y.js").bin("shared", "lib/sh.js"));
    u.add("@s/y", "2.0.0", Ver::deps(&[("b", "1")]));
    for (p, v) in [("a", "2.0.0"), ("b", "2.0.0"), ("c", "1.0.0"), ("e", "1.0.0"), ("@s/x", "1.0.0"), ("@s/y", "2.0.0")] {
        u.tag(p, "latest", v);
    }
    u
}

const SLOTS: &[(&str, &[&str])] = &[
    ("a", &["", "^1.0.0", "^2.0.0"]),
    ("b", &["", "^1.0.0", "^2.0.0"]),
    ("c", &["", "^1.0.0"]),
    ("@s/x", &["", "*"]),
    ("@s/y", &["", "^2.0.0"]),
    ("al", &["", "npm:b@^1.0.0", "npm:a@^1.0.0"]),
];

type M = Vec<usize>;

fn manifests() -> Vec<M> {
    let mut all: Vec<M> = vec![vec![]];
    for (_, rs) in SLOTS {
        all = all.iter().flat_map(|m| (0..rs.len()).map(move |r| [&m[..], &[r]].concat())).collect();
    }
    all
}

fn manifest(m: &M) -> Value {
    let mut d = serde_json::Map::new();
    for (i, (n, rs)) in SLOTS.iter().enumerate() {
        if m[i] > 0 {
            d.insert(n.to_string(), json!(rs[m[i]]));
        }
    }
    json!({"name": "proj", "version": "1.0.0", "dependencies": d})
}

const STRAYS: &[&str] = &[
    "file", "dir", "scoped dir", "link", "dangling link", "stray bin", "no bins", "no record", "garbled record", "record of nothing", "package is a file", "package is a link", "nested stray package", "store stray", "empty scope",
    "hidden dir", "bin is a directory",
];

fn stray(kind: &str, proj: &Path) {
    let nm = proj.join("node_modules");
    if !nm.exists() {
        std::fs::create_dir_all(&nm).unwrap();
    }
    let w = |p: PathBuf, s: &str| {
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, s).unwrap()
    };
    let first = || std::fs::read_dir(&nm).unwrap().flatten().map(|e| e.path()).filter(|p| !p.file_name().unwrap().to_string_lossy().starts_with(['.', '@'])).min();
    match kind {
        "file" => w(nm.join("stray.txt"), "x"),
        "dir" => w(nm.join("stray/package.json"), "{}"),
        "scoped dir" => w(nm.join("@s/stray/package.json"), "{}"),
        "empty scope" => std::fs::create_dir_all(nm.join("@q")).unwrap(),
        "hidden dir" => w(nm.join(".cache/x"), "x"),
        "link" => std::os::unix::fs::symlink("../outside", nm.join("stray")).unwrap(),
        "dangling link" => {
            if let Some(p) = first() {
                let _ = std::fs::remove_dir_all(&p).or_else(|_| std::fs::remove_file(&p));
                std::os::unix::fs::symlink("nowhere", p).unwrap();
            }
        }
        "stray bin" => {
            let _ = std::fs::create_dir_all(nm.join(".bin"));
            std::os::unix::fs::symlink("../nowhere", nm.join(".bin/stray")).unwrap();
        }
        "bin is a directory" => {
            let _ = std::fs::remove_file(nm.join(".bin/b"));
            std::fs::create_dir_all(nm.join(".bin/b/x")).unwrap();
        }
        "no bins" => drop(std::fs::remove_dir_all(nm.join(".bin"))),
        "no record" => drop(std::fs::remove_file(nm.join(".orogene-meta.kdl"))),
        "garbled record" => w(nm.join(".orogene-meta.kdl"), "lockfile-version 1\nroot \"x"),
        "record of nothing" => w(nm.join(".orogene-meta.kdl"), "lockfile-version 1\nroot \"proj\" {\n}\n"),
        "package is a file" => {
            if let Some(p) = first() {
                let _ = std::fs::remove_dir_all(&p).or_else(|_| std::fs::remove_file(&p));
                std::fs::write(p, "x").unwrap();
            }
        }
        "package is a link" => {
            if let Some(p) = first() {
                let _ = std::fs::remove_dir_all(&p).or_else(|_| std::fs::remove_file(&p));
                std::os::unix::fs::symlink("../outside", p).unwrap();
            }
        }
        "nested stray package" => {
            // Looks like what an earlier tree could have left, but came with the package as far as anyone can tell.
            for sub in [".oro-store/stray@00000000/node_modules/stray/package.json", "stray/node_modules/b/package.json"] {
                w(nm.join(sub), "{}");
            }
        }
        "store stray" => {
            if nm.join(".oro-store").exists() {
                w(nm.join(".oro-store/x.txt"), "x");
                w(nm.join(".oro-store/@q/b@12345678/node_modules/@q/b/package.json"), "{}");
                w(nm.join(".oro-store/b@12345678/node_modules/b/package.json"), "{}");
            }
        }
        _ => unreachable!(),
    }
}

struct Applied {
    pruned: usize,
    extracted: usize,
    tree: crate::tree::Tree,
    deps: BTreeMap<Vec<String>, BTreeMap<String, String>>,
    lock: String,
}

fn apply(url: &str, proj: &Path, cache: &Path, m: &M, hoisted: bool, copy: bool) -> Result<Applied, String> {
    let man = manifest(m);
    std::fs::create_dir_all(proj).unwrap();
    std::fs::write(proj.join("package.json"), man.to_string()).unwrap();
    async_std::task::block_on(async {
        let nm = NodeMaintainer::builder()
            .nassun(nassun_cached(url, cache))
            .cache(cache)
            .hoisted(hoisted)
            .prefer_copy(copy)
            .root(proj)
            .resolve_manifest(corgi(man))
            .await
            .map_err(|e| format!("resolution failed: {e}"))?;
        let pruned = nm.prune().await.map_err(|e| format!("pruning failed: {e}"))?;
        let extracted = nm.extract().await.map_err(|e| format!("extraction failed: {e}"))?;
        nm.rebuild(true).await.map_err(|e| format!("linking failed: {e}"))?;
        nm.write_lockfile(proj.join("package-lock.kdl")).await.map_err(|e| format!("writing the lockfile failed: {e}"))?;
        let tree = tree_of(&nm)?;
        let lf = nm.to_lockfile().map_err(|e| e.to_string())?;
        let deps = lf
            .packages()
            .values()
            .map(|n| {
                let mut d: BTreeMap<String, String> = BTreeMap::new();
                for m in [&n.dependencies, &n.optional_dependencies, &n.peer_dependencies] {
                    d.extend(m.iter().map(|(k, v)| (k.clone(), v.clone())));
                }
                (n.path.iter().map(|s| s.to_string()).collect(), d)
            })
            .collect();
        Ok(Applied { pruned, extracted, tree, deps, lock: std::fs::read_to_string(proj.join("package-lock.kdl")).unwrap() })
    })
}

/// What a package directory has to contain.
fn contents(u: &Universe, name: &str, version: &str) -> Result<Tree, String> {
    let v = u.pkgs.get(name).and_then(|p| p.versions.get(version)).ok_or(format!("{name}@{version} is not published"))?;
    let mut t = Tree::new();
    let mut put = |p: &str, exec: bool, data: Vec<u8>| {
        for (i, _) in p.match_indices('/') {
            t.insert(p[..i].into(), Node::Dir);
        }
        t.insert(p.into(), Node::File { mode: if exec { 0o755 } else { 0o644 }, data });
    };
    put("package.json", false, Universe::package_json(name, version, v).to_string().into_bytes());
    put("index.js", false, format!("// {name}@{version}\n").into_bytes());
    for (p, (mode, s)) in &v.files {
        put(p, mode & 0o111 != 0 || v.bin.values().any(|b| b == p), s.clone().into_bytes());
    }
    Ok(t)
}

fn bins(u: &Universe, name: &str, version: &str) -> BTreeMap<String, String> {
    u.pkgs[name].versions[version].bin.clone()
}

fn sub(t: &Tree, dir: &str) -> Tree {
    let pre = format!("{dir}/");
    t.range(pre.clone()..).take_while(|(k, _)| k.starts_with(&pre)).map(|(k, v)| (k[pre.len()..].to_string(), v.clone())).collect()
}

/// Where a path inside of the snapshot leads, following links.
fn real(t: &Tree, p: &str) -> Option<String> {
    let mut cur: Vec<String> = vec![];
    let mut todo: Vec<String> = p.split('/').rev().map(|s| s.to_string()).collect();
    let mut steps = 0;
    while let Some(s) = todo.pop() {
        steps += 1;
        if steps > 200 {
            return None;
        }
        match s.as_str() {
            "" | "." => {}
            ".." => drop(cur.pop()?),
            _ => {
                cur.push(s);
                match t.get(&cur.join("/"))? {
                    Node::Link(l) => {
                        if l.starts_with('/') {
                            return None;
                        }
                        cur.pop();
                        todo.extend(l.split('/').rev().map(|s| s.to_string()));
                    }
                    _ => {}
                }
            }
        }
    }
    Some(cur.join("/"))
}

/// Checks one .bin directory: every declared executable of the packages, and nothing else.
/// Those of packages that are asked for (the first in each entry) come first.
fn check_bins(t: &Tree, nm: &str, pkgs: &[(bool, String, BTreeMap<String, String>)]) -> Result<(), String> {
    let bin_dir = if nm.is_empty() { ".bin".to_string() } else { format!("{nm}/.bin") };
    let mut want: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let asked: BTreeSet<&String> = pkgs.iter().filter(|p| p.0).flat_map(|p| p.2.keys()).collect();
    for (own, dir, bins) in pkgs {
        for (n, p) in bins {
            if !own && asked.contains(n) {
                continue;
            }
            want.entry(n.clone()).or_default().insert(format!("{dir}/{p}"));
        }
    }
    let got = sub(t, &bin_dir);
    if want.is_empty() && t.contains_key(&bin_dir) {
        return Err(format!("{bin_dir} has nothing to link, but is there: {:?}", got.keys().collect::<Vec<_>>()));
    }
    for k in got.keys() {
        if !want.contains_key(k) {
            return Err(format!("{bin_dir}/{k} belongs to no package"));
        }
    }
    for (n, targets) in want {
        let Some(r) = real(t, &format!("{bin_dir}/{n}")) else { return Err(format!("{bin_dir}/{n} is missing or leads nowhere")) };
        let targets: BTreeSet<String> = targets.iter().filter_map(|p| real(t, p)).collect();
        if !targets.contains(&r) {
            return Err(format!("{bin_dir}/{n} leads to {r} instead of {targets:?}"));
        }
        if !matches!(t.get(&r), Some(Node::File { mode, .. }) if mode & 0o111 == 0o111) {
            return Err(format!("{bin_dir}/{n} leads to {r}, which isn't executable"));
        }
    }
    Ok(())
}

fn check_hoisted(u: &Universe, t: &Tree, a: &Applied, man: &Value) -> Result<(), String> {
    let mut want = Tree::new();
    for (p, (name, version)) in &a.tree {
        let dir = p.join("/node_modules/");
        for (i, _) in dir.match_indices('/') {
            want.insert(dir[..i].into(), Node::Dir);
        }
        want.insert(dir.clone(), Node::Dir);
        for (k, n) in contents(u, name, version)? {
            want.insert(format!("{dir}/{k}"), n);
        }
    }
    let got: Tree = t.iter().filter(|(k, _)| !k.split('/').any(|s| s == ".bin") && *k != ".orogene-meta.kdl").map(|(k, v)| (k.clone(), v.clone())).collect();
    let d = diff(&want, &got);
    if !d.is_empty() {
        return Err(format!("{d:?}"));
    }
    let mut parents: BTreeSet<Vec<String>> = a.tree.keys().cloned().collect();
    parents.insert(vec![]);
    for parent in parents {
        let nm = if parent.is_empty() { String::new() } else { format!("{}/node_modules", parent.join("/node_modules/")) };
        let pkgs: Vec<_> = a
            .tree
            .iter()
            .filter(|(p, _)| p.len() == parent.len() + 1 && p.starts_with(&parent))
            .map(|(p, (n, v))| {
                let own = match parent.is_empty() {
                    true => man["dependencies"].get(&p[0]).is_some(),
                    false => a.deps[&parent].contains_key(&p[parent.len()]),
                };
                (own, p.join("/node_modules/"), bins(u, n, v))
            })
            .collect();
        check_bins(t, &nm, &pkgs)?;
    }
    Ok(())
}

/// Entries of a node_modules directory that stand for packages.
fn exposed(t: &Tree, nm: &str) -> BTreeSet<String> {
    let pre = if nm.is_empty() { String::new() } else { format!("{nm}/") };
    let level = |d: &str| -> Vec<String> { t.range(d.to_string()..).take_while(|(k, _)| k.starts_with(d)).map(|(k, _)| k[d.len()..].to_string()).filter(|k| !k.contains('/')).collect() };
    let mut out = BTreeSet::new();
    for e in level(&pre) {
        if e.starts_with('@') {
            let inner = level(&format!("{pre}{e}/"));
            if inner.is_empty() {
                out.insert(format!("{e} (empty)"));
            }
            out.extend(inner.iter().map(|i| format!("{e}/{i}")));
        } else if e != ".bin" && !(nm.is_empty() && (e == ".oro-store" || e == ".orogene-meta.kdl")) {
            out.insert(e);
        }
    }
    out
}

fn check_isolated(u: &Universe, t: &Tree, a: &Applied, man: &Value) -> Result<(), String> {
    let root_deps: BTreeMap<String, String> = man["dependencies"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect();
    // Where each place of the resolved tree is stored.
    let mut place: BTreeMap<Vec<String>, String> = BTreeMap::new();
    let mut todo: Vec<Vec<String>> = vec![vec![]];
    let mut seen = BTreeSet::new();
    let mut stored = BTreeSet::new();
    while let Some(p) = todo.pop() {
        if !seen.insert(p.clone()) {
            continue;
        }
        let (nm, deps, own) = if p.is_empty() {
            (String::new(), root_deps.clone(), Tree::new())
        } else {
            let (n, v) = &a.tree[&p];
            let dir = &place[&p];
            let own = contents(u, n, v)?;
            let got: Tree = sub(t, dir)
                .into_iter()
                .filter(|(k, node)| !(k.starts_with("node_modules") && (matches!(node, Node::Link(_)) || matches!(node, Node::Dir))))
                .collect();
            let want: Tree = own.iter().filter(|(k, node)| !(k.starts_with("node_modules") && matches!(node, Node::Dir))).map(|(k, n)| (k.clone(), n.clone())).collect();
            let d = diff(&want, &got);
            if !d.is_empty() {
                return Err(format!("contents of {}: {d:?}", p.join("/")));
            }
            (format!("{dir}/node_modules"), a.deps[&p].clone(), own)
        };
        let mut want: BTreeSet<String> = deps.keys().cloned().collect();
        want.extend(exposed(&own, "node_modules"));
        let have = exposed(t, &nm);
        if have != want {
            return Err(format!("{} sees {have:?} instead of {want:?}", if p.is_empty() { "the project".into() } else { p.join("/") }));
        }
        let mut bin_pkgs = vec![];
        for (d, req) in &deps {
            // Node's rule applied to the resolved tree: the nearest place up from here.
            let q = (0..=p.len()).rev().map(|k| [&p[..k], &[d.clone()]].concat()).find(|q| a.tree.contains_key(q)).ok_or(format!("{d} is not in the tree for {}", p.join("/")))?;
            let entry = if nm.is_empty() { d.clone() } else { format!("{nm}/{d}") };
            let r = real(t, &entry).ok_or(format!("{entry} leads nowhere"))?;
            if !r.starts_with(".oro-store/") {
                return Err(format!("{entry} leads to {r}"));
            }
            match place.get(&q) {
                Some(x) if *x != r => return Err(format!("{} is both {x} and {r}", q.join("/"))),
                _ => {}
            }
            if place.iter().any(|(o, x)| *o != q && *x == r && a.tree[o] != a.tree[&q]) {
                return Err(format!("{r} is shared by different packages"));
            }
            let (n, v) = &a.tree[&q];
            if target(d, req).0 != *n {
                return Err(format!("{d} ({req}) is {n}@{v}"));
            }
            place.insert(q.clone(), r.clone());
            stored.insert(r.clone());
            bin_pkgs.push((true, entry.clone(), bins(u, n, v)));
            todo.push(q);
        }
        check_bins(t, &nm, &bin_pkgs)?;
    }
    // Everything stored is used.
    for k in t.keys().filter(|k| k.starts_with(".oro-store/")) {
        if !stored.iter().any(|s| k.starts_with(&format!("{s}/")) || s == k || s.starts_with(&format!("{k}/"))) {
            return Err(format!("{k} is stored but belongs to nothing"));
        }
    }
    if t.contains_key(".oro-store") && stored.is_empty() {
        return Err("an empty store stays".into());
    }
    Ok(())
}

#[derive(Clone, Debug)]
struct Case {
    /// State: manifest, hoisted, copied
    from: Option<(M, bool, bool)>,
    stray: Option<&'static str>,
    keep_lock: bool,
    to: M,
    copy: bool,
    /// Another step before the last.
    via: Option<(M, bool)>,
}

struct World {
    u: Universe,
    server: Server,
    fresh: Mutex<HashMap<(String, bool), Tree>>,
    hoisted: bool,
}

fn one(w: &World, c: &Case, dir: &Path) -> Out {
    let (proj, cache) = (dir.join("p"), dir.join("cache"));
    std::fs::create_dir_all(&cache).unwrap();
    let _ = std::fs::remove_dir_all(&proj);
    std::fs::create_dir_all(&proj).unwrap();
    std::fs::create_dir_all(dir.join("outside")).unwrap();
    let url = w.server.url();
    let mut before = Tree::new();
    let drop_lock = || drop(std::fs::remove_file(proj.join("package-lock.kdl")));
    if let Some((m, hoisted, copy)) = &c.from {
        apply(&url, &proj, &cache, m, *hoisted, *copy).map_err(|e| format!("first apply: {e}"))?;
        if let Some((m, hoisted)) = &c.via {
            if !c.keep_lock {
                drop_lock();
            }
            apply(&url, &proj, &cache, m, *hoisted, *copy).map_err(|e| format!("second apply: {e}"))?;
        }
        if let Some(s) = c.stray {
            stray(s, &proj);
        }
        if !c.keep_lock {
            drop_lock();
        }
        before = snap(&proj.join("node_modules"));
    }
    let a = apply(&url, &proj, &cache, &c.to, w.hoisted, c.copy)?;
    let t = snap(&proj.join("node_modules"));
    if w.hoisted { check_hoisted(&w.u, &t, &a, &manifest(&c.to)) } else { check_isolated(&w.u, &t, &a, &manifest(&c.to)) }?;
    // A fresh installation of the same lockfile.
    let known = w.fresh.lock().unwrap().get(&(a.lock.clone(), w.hoisted)).cloned();
    let fresh = match known {
        Some(f) => f,
        None => {
            let f = dir.join("f");
            let _ = std::fs::remove_dir_all(&f);
            std::fs::create_dir_all(&f).unwrap();
            std::fs::write(f.join("package-lock.kdl"), &a.lock).unwrap();
            let b = apply(&url, &f, &cache, &c.to, w.hoisted, c.copy).map_err(|e| format!("installing the lockfile: {e}"))?;
            if b.lock != a.lock {
                return Err("a fresh installation of the lockfile has another lockfile".into());
            }
            let s = snap(&f.join("node_modules"));
            w.fresh.lock().unwrap().insert((a.lock.clone(), w.hoisted), s.clone());
            s
        }
    };
    let d = diff(&fresh, &t);
    if !d.is_empty() {
        return Err(format!("differs from a fresh installation: {d:?}").into());
    }
    // Once more.
    let b = apply(&url, &proj, &cache, &c.to, w.hoisted, c.copy).map_err(|e| format!("once more: {e}"))?;
    if (b.pruned, b.extracted) != (0, 0) {
        return Err(format!("once more: pruned {} and extracted {} packages", b.pruned, b.extracted).into());
    }
    let t2 = snap(&proj.join("node_modules"));
    let d = diff(&t, &t2);
    if !d.is_empty() || b.lock != a.lock {
        return Err(format!("once more: {d:?}{}", if b.lock != a.lock { " and another lockfile" } else { "" }).into());
    }
    Ok(before != t && c.from.is_some())
}

pub fn run1(ctx: &Ctx) {
    run(ctx, true)
}
pub fn run2(ctx: &Ctx) {
    run(ctx, false)
}

fn run(ctx: &Ctx, hoisted: bool) {
    let u = universe();
    let server = u.serve(true);
    let w = World { u, server, fresh: Mutex::new(HashMap::new()), hoisted };
    let all = manifests();
    // The quick alphabet: every pair of slots at their last values, every single value, and nothing.
    let weight = |m: &M| m.iter().filter(|x| **x > 0).count();
    let quick: Vec<M> = all
        .iter()
        .filter(|m| match weight(m) {
            0 | 1 => true,
            2 => m.iter().enumerate().all(|(i, x)| *x == 0 || *x + 1 == SLOTS[i].1.len()) || (m[0] == 1 && m[1] == 2) || (m[0] == 2 && m[1] == 1),
            3 => m[..3] == [2, 1, 1] || m[..3] == [1, 2, 1] || (m[2] > 0 && m[3] > 0 && m[4] > 0),
            n => n == 6 && m[0] != m[1],
        })
        .cloned()
        .collect();
    let ms: &[M] = if ctx.thorough { &all } else { &quick };
    ctx.cov("manifests", ms.len() as u64);
    let mut cases = vec![];
    for m in &all {
        for copy in [false, true] {
            cases.push(Case { from: None, stray: None, keep_lock: false, to: m.clone(), copy, via: None });
        }
    }
    let froms: &[M] = if ctx.thorough { &all } else { &quick };
    for (i, from) in froms.iter().enumerate() {
        for (j, to) in ms.iter().enumerate() {
            for h in [true, false] {
                for keep_lock in [true, false] {
                    // Switching linkers starts over, so fewer of those will do.
                    if !ctx.thorough && h != hoisted && (i + j) % 4 > 0 {
                        continue;
                    }
                    let copy = (i + j) % 3 == 0;
                    cases.push(Case { from: Some((from.clone(), h, copy)), stray: None, keep_lock, to: to.clone(), copy, via: None });
                }
            }
        }
    }
    for s in STRAYS {
        for (i, from) in quick.iter().enumerate() {
            for h in [true, false] {
                for to in [from, &quick[(i * 7 + 5) % quick.len()]] {
                    cases.push(Case { from: Some((from.clone(), h, false)), stray: Some(s), keep_lock: true, to: to.clone(), copy: false, via: None });
                }
            }
        }
    }
    // Two changes in a row with the lockfile kept: lockfile states a single change doesn't reach.
    let step = if ctx.thorough { 1 } else { 3 };
    for (i, from) in quick.iter().enumerate() {
        for (j, via) in quick.iter().enumerate() {
            for (k, to) in quick.iter().enumerate() {
                if (i + j * 5 + k * 3) % (7 * step) == 0 {
                    cases.push(Case { from: Some((from.clone(), hoisted, false)), stray: None, keep_lock: true, to: to.clone(), copy: false, via: Some((via.clone(), (i + j + k) % 5 > 0 || hoisted)) });
                }
            }
        }
    }
    ctx.par(
        cores(),
        cases.iter(),
        |c| {
            json!({"from": c.from.as_ref().map(|(m, h, copy)| json!({"manifest": manifest(m)["dependencies"], "hoisted": h, "copy": copy})),
                "via": c.via.as_ref().map(|(m, h)| json!({"manifest": manifest(m)["dependencies"], "hoisted": h})),
                "stray": c.stray, "lockfile": if c.keep_lock { "kept" } else { "removed" }, "to": manifest(&c.to)["dependencies"], "copy": c.copy})
        },
        |c, d| one(&w, c, d),
    );
    ctx.cov("resolved trees", w.fresh.lock().unwrap().len() as u64);
}
