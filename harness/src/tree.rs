//! Resolved trees, and what makes one right (by Node's lookup rule and the universe alone).
use crate::semv;
use crate::uni::Universe;
use node_maintainer::NodeMaintainer;
use std::collections::{BTreeMap, BTreeSet};

/// Path (names) -> (package name, version)
pub type Tree = BTreeMap<Vec<String>, (String, String)>;

pub fn tree_of(nm: &NodeMaintainer) -> Result<Tree, String> {
    let lock = nm.to_lockfile().map_err(|e| e.to_string())?;
    let mut t = Tree::new();
    for (k, n) in lock.packages() {
        let p: Vec<String> = n.path.iter().map(|s| s.to_string()).collect();
        if p.join("/node_modules/") != k.to_string() {
            return Err(format!("entry {k} says its path is {p:?}"));
        }
        // The package's own identity, from where its data comes from.
        let name = n
            .resolved
            .as_deref()
            .and_then(|r| r.split("/-/").next())
            .map(|r| r.splitn(4, '/').nth(3).unwrap_or("").to_string())
            .unwrap_or_default();
        let v = n.version.as_ref().map(|v| v.to_string()).unwrap_or_default();
        t.insert(p, (name, v));
    }
    if t.len() + 1 != nm.package_count() {
        return Err(format!("{} packages in the graph, but {} distinct paths", nm.package_count() - 1, t.len()));
    }
    Ok(t)
}

pub fn show(t: &Tree) -> String {
    t.iter().map(|(p, (n, v))| format!("{}={n}@{v}", p.join("/"))).collect::<Vec<_>>().join(" ")
}

/// What a dependency request asks for: (package name, range/tag/version)
pub fn target(dep: &str, req: &str) -> (String, String) {
    if let Some(r) = req.strip_prefix("npm:") {
        let at = r[1..].find('@').map(|i| i + 1);
        match at {
            Some(i) => (r[..i].to_string(), r[i + 1..].to_string()),
            None => (r.to_string(), "*".into()),
        }
    } else {
        (dep.to_string(), req.to_string())
    }
}

/// Whether `version` of `pkg` is one that `req` allows.
pub fn allows(u: &Universe, pkg: &str, req: &str, version: &str) -> bool {
    let Some(p) = u.pkgs.get(pkg) else { return false };
    if !p.versions.contains_key(version) {
        return false;
    }
    match semv::satisfies(version, req) {
        Some(b) => b,
        None => p.tags.get(req).map(|v| v == version).unwrap_or(false),
    }
}

pub type Deps = BTreeMap<String, String>;

pub fn deps_of(u: &Universe, pkg: &str, version: &str) -> Deps {
    let v = &u.pkgs[pkg].versions[version];
    let mut d = v.deps.clone();
    d.extend(v.optional.clone());
    d
}

pub fn lookup(t: &Tree, from: &[String], name: &str) -> Option<Vec<String>> {
    let mut p = from.to_vec();
    loop {
        p.push(name.to_string());
        if t.contains_key(&p) {
            return Some(p);
        }
        p.pop();
        if p.is_empty() {
            return None;
        }
        p.pop();
    }
}

pub fn check_tree(u: &Universe, root: &Deps, t: &Tree) -> Result<(), String> {
    check_tree_old(u, root, t, None)
}

/// With the registry as it was when a lockfile was written, a tag request may also have its
/// earlier meaning, and entries that were kept need not be shared as widely as they could be.
pub fn check_tree_old(u: &Universe, root: &Deps, t: &Tree, old: Option<&Universe>) -> Result<(), String> {
    let mut reached: BTreeSet<Vec<String>> = BTreeSet::new();
    let mut q: Vec<Vec<String>> = vec![vec![]];
    let mut seen = BTreeSet::new();
    seen.insert(vec![]);
    while let Some(p) = q.pop() {
        let deps = if p.is_empty() {
            root.clone()
        } else {
            let (n, v) = &t[&p];
            if !u.pkgs.get(n).map(|x| x.versions.contains_key(v)).unwrap_or(false) {
                return Err(format!("{} is {n}@{v}, which is not published", p.join("/")));
            }
            deps_of(u, n, v)
        };
        for (d, req) in deps {
            let (pkg, r) = target(&d, &req);
            let Some(f) = lookup(t, &p, &d) else {
                return Err(format!("{}'s dependency {d}@{req} is not found from {:?}", who(t, &p), p));
            };
            let (n, v) = &t[&f];
            let fits = allows(u, &pkg, &r, v) || old.map(|o| allows(o, &pkg, &r, v)).unwrap_or(false);
            if *n != pkg || !fits {
                return Err(format!("{}'s dependency {d}@{req} resolves to {n}@{v} at {}", who(t, &p), f.join("/")));
            }
            reached.insert(f.clone());
            if seen.insert(f.clone()) {
                q.push(f);
            }
        }
    }
    for (p, (n, v)) in t {
        if !reached.contains(p) {
            return Err(format!("{} ({n}@{v}) is not needed by anything", p.join("/")));
        }
        if p.len() > 1 {
            let above = &p[..p.len() - 2];
            if let Some(f) = lookup(t, above, &p[p.len() - 1]) {
                if t[&f] == (n.clone(), v.clone()) && old.is_none() {
                    return Err(format!("{} repeats {n}@{v}, already found at {}", p.join("/"), f.join("/")));
                }
            }
        }
    }
    Ok(())
}

fn who(t: &Tree, p: &[String]) -> String {
    if p.is_empty() {
        "the project".into()
    } else {
        let (n, v) = &t[p];
        format!("{n}@{v}")
    }
}

/// Whether some version satisfies the request.
pub fn meetable(u: &Universe, dep: &str, req: &str) -> bool {
    let (pkg, r) = target(dep, req);
    u.pkgs.get(&pkg).map(|p| p.versions.keys().any(|v| allows(u, &pkg, &r, v))).unwrap_or(false)
}

/// Whether every request reachable through any allowed version can be met.
pub fn all_meetable(u: &Universe, root: &Deps) -> bool {
    let mut q = vec![root.clone()];
    let mut seen = BTreeSet::new();
    while let Some(deps) = q.pop() {
        for (d, req) in deps {
            if !meetable(u, &d, &req) {
                return false;
            }
            let (pkg, r) = target(&d, &req);
            for v in u.pkgs[&pkg].versions.keys() {
                if allows(u, &pkg, &r, v) && seen.insert((pkg.clone(), v.clone())) {
                    q.push(deps_of(u, &pkg, v));
                }
            }
        }
    }
    true
}

/// Whether a member of a dependency cycle asks for another version of a package that is in the
/// cycle: no finite nesting of directories need exist then (Node would have to find different
/// versions from the same place, or nest the cycle in itself without end).
pub fn cyclic_conflict(u: &Universe, root: &Deps) -> bool {
    type N = (String, String);
    let mut edges: BTreeMap<N, BTreeSet<N>> = BTreeMap::new();
    let next = |deps: &Deps| -> BTreeSet<N> {
        let mut out = BTreeSet::new();
        for (d, req) in deps {
            let (pkg, r) = target(d, req);
            if let Some(p) = u.pkgs.get(&pkg) {
                for v in p.versions.keys() {
                    if allows(u, &pkg, &r, v) {
                        out.insert((pkg.clone(), v.clone()));
                    }
                }
            }
        }
        out
    };
    let mut q: Vec<N> = next(root).into_iter().collect();
    while let Some(n) = q.pop() {
        if edges.contains_key(&n) {
            continue;
        }
        let e = next(&deps_of(u, &n.0, &n.1));
        q.extend(e.iter().cloned());
        edges.insert(n, e);
    }
    let reach = |a: &N| {
        let mut seen = BTreeSet::new();
        let mut q = vec![a.clone()];
        while let Some(n) = q.pop() {
            for m in &edges[&n] {
                if seen.insert(m.clone()) {
                    q.push(m.clone());
                }
            }
        }
        seen
    };
    let r: BTreeMap<N, BTreeSet<N>> = edges.keys().map(|k| (k.clone(), reach(k))).collect();
    // Dependency names matter, not only package names: an alias gives a package another name.
    // Being generous here only excuses runs that do not end.
    for (a, ra) in &r {
        if !ra.contains(a) {
            continue;
        }
        if has_alias(u) {
            return true;
        }
        for b in ra.iter().filter(|b| r[*b].contains(a)) {
            if edges[b].iter().any(|c| c.0 == a.0 && c.1 != a.1) {
                return true;
            }
        }
    }
    false
}

fn has_alias(u: &Universe) -> bool {
    u.pkgs.values().any(|p| p.versions.values().any(|v| v.deps.values().chain(v.optional.values()).any(|r| r.starts_with("npm:"))))
}
