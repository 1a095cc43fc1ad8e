use crate::drive::*;
use crate::r01::with_server;
use crate::report::*;
use crate::tree::*;
use crate::uni::*;
use node_maintainer::NodeMaintainer;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "R04",
        thorough,
        "exploration",
        "Every history (manifest, resolve, registry publishes newer versions and moves tags, changed manifest, resolve with the earlier lockfile) over the manifest alphabet, with manifests that differ in at most k requests; the lockfile is given as the tool's own text and as an npm lockfile, and each result is also tried in locked mode. Judged against the two trees by Node's lookup rule alone. Non-trivial: the earlier lockfile has at least two packages.",
    )
}

/// (dependency, kind, requests)
const SLOTS: &[(&str, &str, &[&str])] = &[
    ("a", "dependencies", &["^1.0.0", "^2.0.0", "*", "latest"]),
    ("b", "devDependencies", &["^1.0.0", "npm:a@^1.0.0", "old"]),
    ("c", "optionalDependencies", &["^1.0.0", "^2.0.0", "1.0.0", ">=1.1.0"]),
    ("x", "dependencies", &["npm:c@^1.0.0", "npm:c@^2.0.0", "npm:d"]),
];

type M = [usize; 4];

fn manifest(m: &M) -> (Value, Deps) {
    let mut o = Map::new();
    o.insert("name".into(), json!("root"));
    o.insert("version".into(), json!("1.0.0"));
    let mut all = Deps::new();
    for (i, (d, k, rs)) in SLOTS.iter().enumerate() {
        if m[i] > 0 {
            let r = rs[m[i] - 1];
            o.entry(k.to_string()).or_insert_with(|| json!({}))[d] = json!(r);
            all.insert(d.to_string(), r.to_string());
        }
    }
    (Value::Object(o), all)
}

/// All manifests over the slots.
pub fn manifests() -> Vec<Value> {
    all().iter().map(|m| manifest(m).0).collect()
}

fn all() -> Vec<M> {
    let mut all: Vec<M> = vec![];
    let n: Vec<usize> = SLOTS.iter().map(|s| s.2.len() + 1).collect();
    for a in 0..n[0] {
        for b in 0..n[1] {
            for c in 0..n[2] {
                for x in 0..n[3] {
                    all.push([a, b, c, x]);
                }
            }
        }
    }
    all
}

pub fn before() -> Universe {
    let mut u = Universe::default();
    u.add("a", "1.0.0", Ver::deps(&[("c", "^1.0.0")]));
    u.add("a", "2.0.0", Ver::deps(&[("c", "^2.0.0"), ("x", "npm:d@^1.0.0")]));
    u.add("b", "1.0.0", Ver::deps(&[("c", "^2.0.0"), ("d", "*")]));
    u.add("c", "1.0.0", Ver::default());
    u.add("c", "1.1.0", Ver::deps(&[("d", "latest")]));
    u.add("c", "2.0.0", Ver::deps(&[("d", "^1.0.0")]));
    u.add("d", "1.0.0", Ver::default());
    for (p, t, v) in [("a", "latest", "2.0.0"), ("b", "latest", "1.0.0"), ("b", "old", "1.0.0"), ("c", "latest", "2.0.0"), ("d", "latest", "1.0.0")] {
        u.tag(p, t, v);
    }
    u
}

pub fn after() -> Universe {
    let mut u = before();
    u.add("a", "1.1.0", Ver::deps(&[("c", "^1.0.0"), ("d", "^2.0.0")]));
    u.add("a", "2.1.0", Ver::deps(&[("c", "^1.1.0")]));
    u.add("b", "1.1.0", Ver::deps(&[("c", "^1.0.0")]));
    u.add("c", "1.2.0", Ver::deps(&[("d", "^2.0.0")]));
    u.add("c", "2.1.0", Ver::default());
    u.add("d", "1.1.0", Ver::default());
    u.add("d", "2.0.0", Ver::deps(&[("c", "^1.0.0")]));
    for (p, t, v) in [("a", "latest", "2.1.0"), ("b", "latest", "1.1.0"), ("b", "old", "1.1.0"), ("c", "latest", "2.1.0"), ("d", "latest", "2.0.0")] {
        u.tag(p, t, v);
    }
    u
}

/// An npm lockfile (version 3) for a resolved tree, as npm writes it.
pub fn npm_lock(t: &Tree, u: &Universe, root: &Value, base: &str) -> String {
    let mut pk = Map::new();
    pk.insert("".into(), root.clone());
    for (p, (n, v)) in t {
        let key = format!("node_modules/{}", p.join("/node_modules/"));
        let ver = &u.pkgs[n].versions[v];
        let mut o = json!({"version": v, "resolved": format!("{base}{}", Universe::tarball_path(n, v)), "integrity": "sha512-deadbeef"});
        if n != p.last().unwrap() {
            o["name"] = json!(n);
        }
        if !ver.deps.is_empty() {
            o["dependencies"] = json!(ver.deps);
        }
        if !ver.optional.is_empty() {
            o["optionalDependencies"] = json!(ver.optional);
        }
        pk.insert(key, o);
    }
    serde_json::to_string_pretty(&json!({"name": "root", "version": "1.0.0", "lockfileVersion": 3, "requires": true, "packages": pk})).unwrap()
}

fn kdl(nm: &NodeMaintainer) -> Result<String, String> {
    Ok(nm.to_kdl().map_err(|e| e.to_string())?.to_string())
}

/// Whether the entry of `old` at path `f` may stay: everything that uses it in `new` accepts it.
fn users_accept(u: &Universe, root: &Deps, t0: &Tree, new: &Tree, f: &[String], old: &(String, String), oldroot: &Deps) -> bool {
    let mut q: Vec<(Vec<String>, Deps)> = vec![(vec![], root.clone())];
    q.extend(new.iter().map(|(p, (n, v))| (p.clone(), deps_of(u, n, v))));
    for (p, deps) in q {
        for (d, req) in deps {
            if lookup(new, &p, &d).as_deref() != Some(f) {
                continue;
            }
            // Only what the lockfile offers to this user is what it could have kept.
            if lookup(t0, &p, &d).as_deref() != Some(f) {
                return false;
            }
            let (pkg, r) = target(&d, &req);
            let tagged = crate::semv::satisfies("1.0.0", &r).is_none();
            if tagged || req == "npm:d" {
                // A tag keeps what it was locked to only if it was requested the same way.
                if !p.is_empty() || oldroot.get(&d) != Some(&req) {
                    return false;
                }
                continue;
            }
            if pkg != old.0 || !allows(u, &pkg, &r, &old.1) {
                return false;
            }
        }
    }
    true
}

pub fn run(ctx: &Ctx) {
    let all = all();
    let (u0, u1) = (before(), after());
    // quick: two requests change only for earlier manifests of at most two requests
    let few = |m: &M| m.iter().filter(|x| **x > 0).count() <= 2;
    let mut pairs = vec![];
    for m0 in &all {
        for m1 in &all {
            let d = m0.iter().zip(m1).filter(|(a, b)| a != b).count();
            if ctx.thorough || d <= 1 || d == 2 && few(m0) {
                pairs.push((*m0, *m1));
            }
        }
    }
    ctx.cov("manifests", all.len());
    // The earlier resolution of each manifest, computed once.
    let firsts: std::sync::Mutex<BTreeMap<M, (Tree, String, String)>> = Default::default();
    ctx.par(
        cores(),
        all.iter(),
        |m: &&M| json!({"manifest": manifest(m).1, "step": "first"}),
        |m, _| {
            let (v, deps) = manifest(m);
            with_server(&u0, |s| -> Out {
                let nm = resolve(opts(s), v.clone()).map_err(|e| format!("first resolution: {e}"))?;
                let t = tree_of(&nm)?;
                check_tree(&u0, &deps, &t).map_err(|e| format!("{e} in {}", show(&t)))?;
                let k = kdl(&nm)?.replace(&s.url(), "http://HOST/");
                let npm = npm_lock(&t, &u0, &v, "http://HOST/");
                let big = t.len() > 1;
                firsts.lock().unwrap().insert(**m, (t, k, npm));
                Ok(big)
            })
            .0
        },
    );
    let firsts = firsts.into_inner().unwrap();
    ctx.par(
        cores(),
        pairs.iter(),
        |(m0, m1)| json!({"locked manifest": manifest(m0).1, "new manifest": manifest(m1).1}),
        |(m0, m1), _| {
            let Some((t0, k0, npm0)) = firsts.get(m0) else { return Ok(false) };
            let (v1, d1) = manifest(m1);
            let (_, d0) = manifest(m0);
            for (kind, u) in [("kdl", &u1), ("npm", &u1), ("kdl", &u0)] {
                if kind == "npm" && m0 != m1 && !ctx.thorough && (m0[0] + m1[1] + m1[2] + m0[3]) % 2 == 1 {
                    continue;
                }
                with_server(u, |s| -> Result<(), String> {
                    let text = if kind == "kdl" { k0 } else { npm0 }.replace("http://HOST/", &s.url());
                    let give = || -> node_maintainer::NodeMaintainerOptions {
                        let o = opts(s);
                        if kind == "kdl" { o.kdl_lock(text.as_str()) } else { o.npm_lock(&text) }.unwrap()
                    };
                    let tag = format!("with the {kind} lockfile of {} ", show(t0));
                    let nm = resolve(give(), v1.clone()).map_err(|e| format!("{tag}: {e}"))?;
                    let t1 = tree_of(&nm)?;
                    if m0 == m1 {
                        if t1 != *t0 {
                            return Err(format!("{tag}the same manifest resolves to {}", show(&t1)));
                        }
                        if kind == "kdl" && kdl(&nm)? != text {
                            return Err(format!("{tag}the same manifest writes another lockfile"));
                        }
                    } else {
                        check_tree_old(u, &d1, &t1, Some(&u0)).map_err(|e| format!("{tag}{e} in {}", show(&t1)))?;
                        for (f, old) in t0 {
                            if let Some(new) = t1.get(f) {
                                if new != old && users_accept(u, &d1, t0, &t1, f, old, &d0) {
                                    return Err(format!(
                                        "{tag}{} changes from {}@{} to {}@{} although all its users accept the former, in {}",
                                        f.join("/"),
                                        old.0,
                                        old.1,
                                        new.0,
                                        new.1,
                                        show(&t1)
                                    ));
                                }
                            }
                        }
                    }
                    if kind == "kdl" && m0 != m1 {
                        // What was just written reproduces what was just resolved, wherever that came from.
                        let k1 = kdl(&nm)?;
                        let again = resolve(opts(s).kdl_lock(k1.as_str()).unwrap(), v1.clone()).map_err(|e| format!("{tag}then with the new lockfile: {e}"))?;
                        let t2 = tree_of(&again)?;
                        if t2 != t1 {
                            return Err(format!("{tag}the new lockfile of {} then resolves to {}", show(&t1), show(&t2)));
                        }
                        if kdl(&again)? != k1 {
                            return Err(format!("{tag}the new lockfile is written differently the second time"));
                        }
                    }
                    // locked mode
                    let same = t1 == *t0 && d0 == d1;
                    let r = resolve(give().locked(true), v1.clone());
                    match (&r, same) {
                        (Err(e), true) => return Err(format!("{tag}locked mode fails although nothing changes: {e}")),
                        (Ok(_), false) => return Err(format!("{tag}locked mode succeeds although the lockfile would change (to {})", show(&t1))),
                        (Ok(nm), true) => {
                            if tree_of(nm)? != *t0 {
                                return Err(format!("{tag}locked mode gives another tree"));
                            }
                        }
                        _ => {}
                    }
                    Ok(())
                })
                .0?;
            }
            Ok(t0.len() > 1)
        },
    );
}

