use crate::drive::*;
use crate::r01::with_server;
use crate::report::*;
use crate::tree::*;
use crate::uni::*;
use node_maintainer::{Lockfile, LockfileNode, NodeMaintainer};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::Path;

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "R05",
        thorough,
        "exploration",
        "Every lockfile with up to three packages whose paths, names, versions, locations, integrity and dependency tables are drawn from the alphabets (one field at a time over the full product of two entries), read from npm's and from the tool's format, written and read back; every lockfile that resolution produces for the R04 manifests; and every single-token and single-character corruption and every truncation of sample lockfiles, given explicitly and found in a project. Non-trivial: the lockfile has a package, or the corrupted text differs from the original.",
    )
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
struct Ent {
    path: Vec<String>,
    name: Option<String>,
    version: Option<String>,
    resolved: Option<String>,
    integrity: Option<String>,
    deps: [BTreeMap<String, String>; 4],
}

const KINDS: [(&str, &str); 4] = [
    ("dependencies", "dependencies"),
    ("devDependencies", "dev-dependencies"),
    ("optionalDependencies", "optional-dependencies"),
    ("peerDependencies", "peer-dependencies"),
];

fn npm_text(root: &Ent, pkgs: &[Ent]) -> String {
    let ent = |e: &Ent| {
        let mut o = Map::new();
        for (k, v) in [("name", &e.name), ("version", &e.version), ("resolved", &e.resolved), ("integrity", &e.integrity)] {
            if let Some(v) = v {
                o.insert(k.into(), json!(v));
            }
        }
        for (i, (k, _)) in KINDS.iter().enumerate() {
            if !e.deps[i].is_empty() {
                o.insert(k.to_string(), json!(e.deps[i]));
            }
        }
        // what else npm writes
        o.insert("license".into(), json!("MIT"));
        o.insert("engines".into(), json!({"node": ">=14"}));
        o.insert("peerDependenciesMeta".into(), json!({"x": {"optional": true}}));
        o.insert("hasInstallScript".into(), json!(true));
        Value::Object(o)
    };
    let mut p = Map::new();
    p.insert("".into(), ent(root));
    for e in pkgs {
        p.insert(format!("node_modules/{}", e.path.join("/node_modules/")), ent(e));
    }
    json!({"name": "root", "version": "1.0.0", "lockfileVersion": 3, "requires": true, "packages": p}).to_string()
}

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            _ => o.push(c),
        }
    }
    o + "\""
}

/// The tool's own format, written from its documentation (not by its writer).
fn kdl_text(root: &Ent, pkgs: &[Ent]) -> String {
    let mut s = String::from("lockfile-version 1\n");
    let mut ent = |e: &Ent, root: bool| {
        s.push_str(if root { "root" } else { "pkg" });
        for p in &e.path {
            s.push_str(&format!(" {}", q(p)));
        }
        s.push_str(" {\n");
        for (k, v) in [("name", &e.name), ("version", &e.version), ("resolved", &e.resolved), ("integrity", &e.integrity)] {
            if let Some(v) = v {
                s.push_str(&format!("    {k} {}\n", q(v)));
            }
        }
        for (i, (_, k)) in KINDS.iter().enumerate() {
            if !e.deps[i].is_empty() {
                s.push_str(&format!("    {k} {{\n"));
                for (d, r) in &e.deps[i] {
                    s.push_str(&format!("        {} {}\n", q(d), q(r)));
                }
                s.push_str("    }\n");
            }
        }
        s.push_str("}\n");
    };
    ent(root, true);
    for e in pkgs {
        ent(e, false);
    }
    s
}

fn seen(n: &LockfileNode) -> Ent {
    let m = |d: &indexmap::IndexMap<String, String>| d.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let path: Vec<String> = n.path.iter().map(|s| s.to_string()).collect();
    Ent {
        name: if path.last().map(|l| *l == n.name.to_string()).unwrap_or(true) { None } else { Some(n.name.to_string()) },
        path,
        version: n.version.as_ref().map(|v| v.to_string()),
        resolved: n.resolved.clone(),
        integrity: n.integrity.as_ref().map(|i| i.to_string()),
        deps: [m(&n.dependencies), m(&n.dev_dependencies), m(&n.optional_dependencies), m(&n.peer_dependencies)],
    }
}

/// The integrity value as a set of (algorithm, digest): order and repetition do not matter.
fn canon(e: &Ent) -> Ent {
    let mut e = e.clone();
    e.integrity = e.integrity.map(|i| {
        let mut v: Vec<&str> = i.split_whitespace().collect();
        v.sort();
        v.dedup();
        v.join(" ")
    });
    if e.name.as_ref() == e.path.last() {
        e.name = None;
    }
    e
}

fn same(lock: &Lockfile, root: &Ent, pkgs: &[Ent], from: &str) -> Result<(), String> {
    let mut r = seen(lock.root());
    r.name = None;
    let mut want_root = root.clone();
    want_root.name = None;
    if canon(&r).deps != want_root.deps {
        return Err(format!("{from}: the project's requests are {:?} instead of {:?}", r.deps, want_root.deps));
    }
    let got: BTreeMap<String, Ent> = lock.packages().iter().map(|(k, n)| (k.to_string(), canon(&seen(n)))).collect();
    let want: BTreeMap<String, Ent> = pkgs.iter().map(|e| (e.path.join("/node_modules/"), canon(e))).collect();
    if got != want {
        let mut d = vec![];
        for (k, w) in &want {
            match got.get(k) {
                None => d.push(format!("{k} is missing")),
                Some(g) if g != w => d.push(format!("{k} is {g:?} instead of {w:?}")),
                _ => {}
            }
        }
        for k in got.keys() {
            if !want.contains_key(k) {
                d.push(format!("{k:?} is extra"));
            }
        }
        return Err(format!("{from}: {}", d.join("; ")));
    }
    Ok(())
}

fn round_trip(root: &Ent, pkgs: &[Ent]) -> Out {
    let mut locks = vec![];
    for (from, text) in [("npm lockfile", npm_text(root, pkgs)), ("own lockfile", kdl_text(root, pkgs))] {
        let l = if from == "npm lockfile" { Lockfile::from_npm(&text) } else { Lockfile::from_kdl(&text) };
        let l = l.map_err(|e| format!("{from} is refused: {e}\n{text}"))?;
        same(&l, root, pkgs, from)?;
        let out = l.to_kdl().to_string();
        let l2 = Lockfile::from_kdl(&out).map_err(|e| format!("{from}: what was written cannot be read back: {e}\n{out}"))?;
        same(&l2, root, pkgs, &format!("{from}, written and read back"))?;
        let out2 = l2.to_kdl().to_string();
        let strip = |s: &str| s.lines().filter(|l| !l.starts_with("lockfile-version")).collect::<Vec<_>>().join("\n");
        if strip(&out) != strip(&out2) {
            return Err(format!("{from}: writing again gives another text:\n{out}\n---\n{out2}").into());
        }
        locks.push(strip(&out));
    }
    if locks[0] != locks[1] {
        return Err(format!("the same lockfile in both formats is written differently:\n{}\n---\n{}", locks[0], locks[1]).into());
    }
    Ok(!pkgs.is_empty())
}

fn s(v: &str) -> Option<String> {
    Some(v.to_string())
}

/// The entry alphabet: a base entry with each field varied.
fn entries(path: &[&str], thorough: bool) -> Vec<Ent> {
    let base = Ent {
        path: path.iter().map(|s| s.to_string()).collect(),
        version: s("1.0.0"),
        resolved: s("https://registry.example.org/a/-/a-1.0.0.tgz"),
        integrity: s("sha512-deadbeef"),
        ..Default::default()
    };
    let mut v = vec![base.clone()];
    for ver in [None, s("1.0.0-rc.1"), s("1.2.3-0.a.b"), s("1.0.0+build.5"), s("0.0.0"), s("10.20.30-beta+x")] {
        v.push(Ent { version: ver, ..base.clone() });
    }
    for r in [
        "http://127.0.0.1:4873/@s%2fb/-/b-1.0.0.tgz",
        "https://h/x?y=1&z=%20#frag",
        "https://h/\"quoted\"\\back",
        "file:../dir with space",
        "git+ssh://git@github.com/a/b.git#0123456789abcdef",
        "",
    ] {
        v.push(Ent { resolved: s(r), ..base.clone() });
    }
    v.push(Ent { resolved: None, integrity: None, ..base.clone() });
    for i in [
        None,
        s("sha1-2jmj7l5rSw0yVb/vlWAYkK/YBwk="),
        s("sha1-2jmj7l5rSw0yVb/vlWAYkK/YBwk= sha512-deadbeef"),
        s("sha512-deadbeef sha512-cafe"),
        s("sha256-47DEQpj8HBSa+/TImW+5JCeuQeRkm5NMpJWZG3hSuFU= sha384-abcd"),
    ] {
        v.push(Ent { integrity: i, ..base.clone() });
    }
    for n in ["a", "@s/b", "true", "x.y-z_1"] {
        v.push(Ent { name: s(n), ..base.clone() });
    }
    let names = ["a", "@s/b", "@s/true", "true", "null", "false", "1", "3d-view", "-x", "a.b", "x_y~z", "inf", "r", "name", "version", "pkg", "A", "my_node_modules"];
    let reqs = ["^1.0.0", ">=1.0.0 <2.0.0 || ~3", "*", "", "latest", "npm:@s/b@^1", "a\"b", "back\\slash", "tab\tx", "file:../x", "git+https://h/r.git#semver:^1", "é🦀", "true", "1", "{", "// c"];
    for (i, n) in names.iter().enumerate() {
        for k in 0..4 {
            let mut e = base.clone();
            e.deps[k].insert(n.to_string(), reqs[i % reqs.len()].into());
            v.push(e);
            if thorough {
                for r in reqs {
                    let mut e = base.clone();
                    e.deps[k].insert(n.to_string(), r.into());
                    e.deps[(k + 1) % 4].insert("z".into(), r.into());
                    v.push(e);
                }
            }
        }
    }
    for r in reqs {
        let mut e = base.clone();
        e.deps[0].insert("dep".into(), r.into());
        v.push(e);
    }
    // several at once, in all kinds, in an order that is not sorted
    for rot in 0..4 {
        let mut e = base.clone();
        for (i, n) in names.iter().enumerate() {
            e.deps[(i + rot) % 4].insert(n.to_string(), reqs[(i * 3 + rot) % reqs.len()].into());
        }
        v.push(e);
    }
    v
}

fn tokens(t: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        let mut w = String::from(c);
        if c == '"' {
            while let Some(d) = it.next() {
                w.push(d);
                if d == '\\' {
                    if let Some(e) = it.next() {
                        w.push(e);
                    }
                } else if d == '"' {
                    break;
                }
            }
        } else if c.is_alphanumeric() || c == '-' {
            while let Some(d) = it.peek() {
                if d.is_alphanumeric() || *d == '-' {
                    w.push(*d);
                    it.next();
                } else {
                    break;
                }
            }
        }
        out.push(w);
    }
    out
}

fn corruptions(t: &str, thorough: bool) -> Vec<String> {
    let mut out = std::collections::BTreeSet::new();
    let tk = tokens(t);
    let alpha = [
        "", "{", "}", "\"", "\"x\"", "\"\"", "null", "true", "-1", "1.5", "99999999999999999999", "pkg", "root", "name", "version", "resolved", ";", "\n", "/-", "/*", "//", ",", ":", "[", "]",
        "\"npm:b@1.0.0\"", "\"npm:b@npm:c@1\"", "\"http://\"", "\"http:///x\"", "\"file:../x\"", "\"git+https://127.0.0.1:1/x.git\"", "\"a/b\"", "\"sha512-\"", "\"sha512-!!\"", "\"-\"", "\"..\"", "\"../../x\"", "\"^1\"", "(t)", "\u{0}", "\u{feff}", "é",
    ];
    for i in 0..tk.len() {
        if tk[i] == " " && !thorough {
            continue;
        }
        for a in alpha {
            let mut v = tk.clone();
            v[i] = a.into();
            out.insert(v.concat());
        }
        let mut v = tk.clone();
        v.insert(i, tk[i].clone());
        out.insert(v.concat());
        if i + 1 < tk.len() {
            let mut v = tk.clone();
            v.swap(i, i + 1);
            out.insert(v.concat());
        }
    }
    // lines: removed, doubled, swapped
    let ls: Vec<&str> = t.lines().collect();
    for i in 0..ls.len() {
        let mut v = ls.clone();
        v.remove(i);
        out.insert(v.join("\n"));
        let mut v = ls.clone();
        v.insert(i, ls[i]);
        out.insert(v.join("\n"));
        for j in 0..i {
            let mut v = ls.clone();
            v.swap(i, j);
            out.insert(v.join("\n"));
        }
    }
    for (i, c) in t.char_indices() {
        out.insert(t[..i].to_string());
        let mut x = t.to_string();
        x.remove(i);
        out.insert(x);
        if thorough {
            for a in ["\"", "\\", "{", "}", "\n", "9", "\u{0}"] {
                out.insert(format!("{}{a}{}", &t[..i], &t[i + c.len_utf8()..]));
            }
        }
    }
    out.remove(t);
    out.into_iter().collect()
}

fn corrupt(ctx: &Ctx, u0: &Universe, u1: &Universe) {
    let m = json!({"name": "root", "version": "1.0.0", "dependencies": {"a": "^1.0.0", "x": "npm:b@^1.0.0"}, "devDependencies": {"b": "^1.0.0"}});
    let deps: Deps = sm(&[("a", "^1.0.0"), ("x", "npm:b@^1.0.0"), ("b", "^1.0.0")]);
    let mut first = None;
    let _ = with_server(u0, |s| {
        let nm = resolve(opts(s), m.clone()).expect("first");
        let t = tree_of(&nm).unwrap();
        let k = nm.to_kdl().unwrap().to_string().replace(&s.url(), "http://HOST/");
        let n = crate::r04::npm_lock(&t, u0, &m, "http://HOST/");
        first = Some((k, n));
    });
    let (k, n) = first.unwrap();
    // compact npm text keeps the number of positions down
    let n = serde_json::from_str::<Value>(&n).unwrap().to_string();
    let mut fresh = None;
    let _ = with_server(u1, |s| {
        fresh = Some(tree_of(&resolve(opts(s), m.clone()).expect("fresh")).unwrap());
    });
    let fresh = fresh.unwrap();
    for (kind, text) in [("kdl", k), ("npm", n)] {
        let cs = corruptions(&text, ctx.thorough);
        ctx.cov(&format!("corruptions of a {kind} lockfile"), cs.len());
        ctx.par(
            cores(),
            cs.iter(),
            |c| json!({"format": kind, "corrupted lockfile": c}),
            |c, dir| {
                let _ = &deps;
                with_server(u1, |s| -> Out {
                    let text = c.replace("http://HOST/", &s.url());
                    let parsed = if kind == "kdl" { Lockfile::from_kdl(&text) } else { Lockfile::from_npm(&text) };
                    let given = if kind == "kdl" { opts(s).kdl_lock(text.as_str()) } else { opts(s).npm_lock(&text) };
                    if parsed.is_ok() != given.is_ok() {
                        return Err("the lockfile is read in one way and refused in the other".into());
                    }
                    // explicitly given: an error here, or a resolution that ends in a result
                    let explicit = given.ok().map(|g| resolve(g, m.clone()).map(|nm| tree_of(&nm)));
                    // found in the project
                    let p = dir.join("proj");
                    std::fs::create_dir_all(&p).unwrap();
                    for f in ["package-lock.kdl", "package-lock.json"] {
                        let _ = std::fs::remove_file(p.join(f));
                    }
                    std::fs::write(p.join(if kind == "kdl" { "package-lock.kdl" } else { "package-lock.json" }), &text).unwrap();
                    let found = resolve(opts(s).root(&p), m.clone()).map(|nm| tree_of(&nm));
                    match (explicit, found) {
                        (None, Ok(t)) => {
                            if t? != fresh {
                                return Err("an unreadable lockfile in the project still changes the tree".into());
                            }
                        }
                        (None, Err(e)) => return Err(format!("an unreadable lockfile in the project makes resolution fail: {e}").into()),
                        (Some(a), b) => {
                            let show = |r: &Result<Result<Tree, String>, node_maintainer::NodeMaintainerError>| match r {
                                Ok(Ok(t)) => show(t),
                                Ok(Err(e)) => e.clone(),
                                Err(_) => "error".into(),
                            };
                            if show(&a) != show(&b) {
                                return Err(format!("given explicitly: {}; found in the project: {}", show(&a), show(&b)).into());
                            }
                        }
                    }
                    Ok(true)
                })
                .0
            },
        );
    }
    let _ = Path::new("");
}

pub fn run(ctx: &Ctx) {
    let root0 = Ent::default();
    let mut root1 = Ent::default();
    root1.deps[0].insert("a".into(), "^1.0.0".into());
    root1.deps[1].insert("@s/b".into(), "npm:c@>=1 <2".into());
    root1.deps[2].insert("true".into(), "*".into());
    let mut cases: Vec<(Ent, Vec<Ent>)> = vec![(root0.clone(), vec![]), (root1.clone(), vec![])];
    for p in [vec!["a"], vec!["@s/b"], vec!["true"], vec!["3d"], vec!["A"], vec!["a", "b"], vec!["a", "@s/b", "a"]] {
        let es = entries(&p, ctx.thorough);
        for e in &es {
            let mut pk = vec![e.clone()];
            for n in 1..p.len() {
                pk.push(entries(&p[..n], false)[0].clone());
            }
            cases.push((root0.clone(), pk.clone()));
            cases.push((root1.clone(), pk));
        }
    }
    // paths: all of up to three names from an alphabet of awkward ones
    let names = ["a", "my_node_modules", "node_modules-x", "node_modules_", "@node_modules/x", "x.node_modules", "@s/b"];
    for x in names {
        for y in names {
            for z in names {
                let p = [x, y, z];
                cases.push((root1.clone(), (1..=3).map(|n| entries(&p[..n], false)[0].clone()).collect()));
            }
        }
    }
    // pairs of entries
    let (ea, eb) = (entries(&["a"], false), entries(&["a", "@s/b"], false));
    for (i, a) in ea.iter().enumerate() {
        for (j, b) in eb.iter().enumerate() {
            if ctx.thorough || (i < 24 || j < 24) {
                cases.push((root1.clone(), vec![b.clone(), a.clone()]));
            }
        }
    }
    ctx.cov("lockfiles over the alphabet", cases.len());
    ctx.par(cores(), cases.iter(), |(r, p)| json!({"project": r.deps, "lockfile": kdl_text(r, p)}), |(r, p), _| round_trip(r, p));

    // lockfiles of resolved trees
    let (u0, u1) = (crate::r04::before(), crate::r04::after());
    let all = crate::r04::manifests();
    ctx.par(
        cores(),
        all.iter().flat_map(|m| [(m, &u0), (m, &u1)]),
        |(m, u)| json!({"manifest": m, "registry": if std::ptr::eq(*u, &u0) { "earlier" } else { "later" }}),
        |(m, u), _| {
            with_server(u, |s| -> Out {
                let nm: NodeMaintainer = resolve(opts(s), (*m).clone()).map_err(|e| e.to_string())?;
                let l = nm.to_lockfile().map_err(|e| e.to_string())?;
                let text = l.to_kdl().to_string();
                if nm.to_kdl().map_err(|e| e.to_string())?.to_string() != text {
                    return Err("the tree's text is not its lockfile's text".into());
                }
                let l2 = Lockfile::from_kdl(&text).map_err(|e| format!("cannot be read back: {e}"))?;
                let pk: Vec<Ent> = l.packages().values().map(seen).collect();
                let mut root = seen(l.root());
                root.name = None;
                same(&l2, &root, &pk, "written and read back")?;
                if l2.to_kdl().to_string() != text {
                    return Err("written, read and written again gives another text".into());
                }
                Ok(!pk.is_empty())
            })
            .0
        },
    );
    corrupt(ctx, &u0, &u1);
}
