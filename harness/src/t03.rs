use crate::drive::*;
use crate::http::{Resp, Server};
use crate::report::*;
use crate::snap::*;
use crate::tarb::{self, Ent};
use nassun::package::ExtractMode;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "T03",
        thorough,
        "exploration",
        "Every ordered selection (up to the bound) of hostile archive entries (parent steps at every place, absolute paths, backslashes, dots, empty names, links and files written through them, names of other packages) extracted directly in each mode, first and again from the cache; every combination of hostile executable names, targets and declaration forms, and hostile dependency names, applied with both linkers. Runs as an unprivileged user in a scratch directory. Oracle: a snapshot (contents, modes, links) of everything around the package's directory is unchanged, executable links lead into the package. Non-trivial: every case.",
    )
}

/// Path of the package directory below the scratch directory: deep, so that parent steps stay inside.
const DEEP: &str = "w/x/y/z/proj";

fn ents(abs: &str) -> Vec<(String, Vec<Ent>)> {
    let mut v: Vec<(String, Vec<Ent>)> = vec![];
    let names = [
        "../evil",
        "package/../evil",
        "package/../../evil",
        "package/a/../../evil",
        "package/a/../../../evil",
        "package/a/../inside",
        "a/b/../../../evil",
        "../../evil",
        "../../../proj/evil",
        "package/../q/index.js",
        "package/../.bin/evil",
        "package/../../sentinel",
        "package/../../package.json",
        "./../evil",
        ".././evil",
        "package/./../evil",
        "package/..",
        "..",
        ".",
        "/",
        "package",
        "package/",
        "package/.",
        "package/a/..",
        "package/..\\evil",
        "..\\evil",
        "package\\..\\..\\evil",
        "C:\\evil",
        "package/C:/evil",
        "package/...",
        "package/.../evil",
        "package//../evil",
        "//../evil",
        "/../evil",
        "package/node_modules/../../../evil",
        "package/%2e%2e/evil",
        "package/a\u{0}/../evil",
    ];
    for n in names {
        v.push((format!("file {n:?}"), vec![Ent::file(n, 0o755, b"evil\n".to_vec())]));
    }
    for n in [format!("{abs}/evil"), format!("package/{abs}/evil"), format!("package{abs}/evil"), format!("/{abs}/evil")] {
        v.push((format!("file {:?}", n.replace(abs, "/ABS")), vec![Ent::file(&n, 0o755, b"evil\n".to_vec())]));
    }
    v.push(("pax path ../../".into(), vec![Ent { kind: b'P', ..Ent::file("package/../../evil", 0o755, b"evil\n".to_vec()) }]));
    v.push(("long path".into(), vec![Ent::file(&format!("package/{}../../evil", "d/../".repeat(30)), 0o755, b"evil\n".to_vec())]));
    for d in ["../evildir", "package/../evildir", "package/../../evildir/"] {
        v.push((format!("dir {d:?}"), vec![Ent::dir(d)]));
    }
    v.push(("dir abs".into(), vec![Ent::dir(&format!("{abs}/evildir"))]));
    // A link, and a file written through it.
    for (to, what) in [("../..".to_string(), "../.."), ("../q".to_string(), "../q"), (abs.to_string(), "/ABS"), (".".into(), "."), ("..".into(), "..")] {
        v.push((format!("symlink {what} + file through it"), vec![Ent::symlink("package/ln", &to), Ent::file("package/ln/evil", 0o755, b"evil\n".to_vec())]));
        v.push((format!("symlink {what} + sentinel"), vec![Ent::symlink("package/ln", &to), Ent::file("package/ln/sentinel", 0o755, b"evil\n".to_vec())]));
    }
    for to in ["package/../../sentinel".to_string(), "../../sentinel".into(), format!("{abs}/sentinel")] {
        let w = to.replace(abs, "/ABS");
        v.push((format!("symlink {w} replaced"), vec![Ent::symlink("package/f", &to), Ent::file("package/f", 0o755, b"evil\n".to_vec())]));
        v.push((format!("hardlink {w} replaced"), vec![Ent::hardlink("package/f", &to), Ent::file("package/f", 0o755, b"evil\n".to_vec())]));
        v.push((format!("hardlink onto {w}"), vec![Ent::file("package/f", 0o755, b"evil\n".to_vec()), Ent::hardlink(&to, "package/f")]));
        v.push((format!("symlink onto {w}"), vec![Ent::symlink(&to, "package/f")]));
    }
    v.push(("plain".into(), vec![Ent::file("package/ok.js", 0o644, b"ok\n".to_vec())]));
    v
}

#[derive(Clone)]
enum Case {
    /// entries (indices), package.json position
    Extract(Vec<usize>, usize),
    /// package.json of p, linker
    Apply(String, Value, bool),
    /// dependency name, its request, of the project or of p, linker
    Dep(String, String, bool, bool),
}

type Cell = Arc<Mutex<BTreeMap<String, (Value, Vec<u8>)>>>;
thread_local! {
    static S: (Cell, Server) = {
        let v: Cell = Default::default();
        let w = v.clone();
        (v, Server::start(Arc::new(move |r| {
            let g = w.lock().unwrap();
            let name = r.path.trim_start_matches('/').split('/').next().unwrap().to_string();
            let Some((m, d)) = g.get(&name) else { return Resp::status(404) };
            if r.path.ends_with(".tgz") {
                return Resp::ok(d.clone());
            }
            let i = crate::uni::Universe::integrity(d);
            let base = format!("http://{}/", r.header("host").unwrap());
            let mut o = m.clone();
            o["dist"] = json!({"tarball": format!("{base}{name}/-/{name}-1.0.0.tgz"), "integrity": i});
            Resp::json(&json!({"name": name, "versions": {"1.0.0": o}, "dist-tags": {"latest": "1.0.0"}}))
        })))
    };
}

fn fresh(dir: &Path) -> PathBuf {
    let _ = std::fs::remove_dir_all(dir);
    let proj = dir.join(DEEP);
    std::fs::create_dir_all(proj.join("node_modules")).unwrap();
    let mut p = proj.clone();
    while p != *dir {
        std::fs::write(p.join("sentinel"), "precious\n").unwrap();
        std::fs::create_dir_all(p.join("bin")).unwrap();
        std::fs::write(p.join("bin/sentinel"), "precious\n").unwrap();
        p = p.parent().unwrap().to_path_buf();
    }
    std::fs::create_dir_all(dir.join("abs")).unwrap();
    std::fs::write(dir.join("abs/sentinel"), "precious\n").unwrap();
    std::fs::write(proj.join("package.json"), "{\"name\": \"proj\"}\n").unwrap();
    proj
}

fn abs_of(dir: &Path) -> String {
    dir.join("abs").to_string_lossy().into_owned()
}

fn outside(dir: &Path, inside: &[&str]) -> Tree {
    snap(dir).into_iter().filter(|(k, _)| !inside.iter().any(|i| k == i || k.starts_with(&format!("{i}/")))).collect()
}

fn extract(c: &[usize], pos: usize, dir: &Path) -> Out {
    let al = ents(&abs_of(dir));
    let mut v: Vec<Vec<Ent>> = c.iter().map(|i| al[*i].1.clone()).collect();
    v.insert(pos, vec![Ent::file("package/package.json", 0o644, br#"{"name":"p","version":"1.0.0"}"#.to_vec())]);
    let t = tarb::tgz(&v.concat());
    S.with(|(cell, s)| {
        cell.lock().unwrap().insert("p".into(), (json!({"name": "p", "version": "1.0.0"}), t));
        for mode in [None, Some(ExtractMode::Hardlink), Some(ExtractMode::Copy)] {
            let proj = fresh(dir);
            let nm = proj.join("node_modules");
            std::fs::create_dir_all(nm.join("q")).unwrap();
            std::fs::create_dir_all(nm.join(".bin")).unwrap();
            std::fs::write(nm.join("q/index.js"), "precious\n").unwrap();
            let mut no = nassun::NassunOpts::new().registry(s.url().parse().unwrap());
            if mode.is_some() {
                std::fs::create_dir_all(dir.join("cache")).unwrap();
                no = no.cache(dir.join("cache"));
            }
            let n = no.client(client()).build();
            let skip: Vec<String> = ["p", "p2"].iter().map(|p| format!("{DEEP}/node_modules/{p}")).chain(["cache".to_string()]).collect();
            let skip: Vec<&str> = skip.iter().map(|s| s.as_str()).collect();
            let before = outside(dir, &skip);
            for target in ["p", "p2"] {
                let r: Result<_, String> = async_std::task::block_on(async {
                    let p = n.resolve("p@1.0.0").await.map_err(|e| format!("resolving: {e}"))?;
                    Ok(p.extract_to_dir(nm.join(target), mode.unwrap_or_default()).await)
                });
                let r = r?;
                let d = diff(&before, &outside(dir, &skip));
                if !d.is_empty() {
                    return Err(format!("extraction ({mode:?}, to {target}: {}) changed things outside the package: {d:?}", if r.is_ok() { "ok" } else { "failed" }).into());
                }
                if mode.is_none() {
                    break;
                }
            }
        }
        Ok(true)
    })
}

fn pkg(m: &Value, bin_files: bool) -> Vec<u8> {
    let mut v = vec![Ent::file("package/package.json", 0o644, serde_json::to_vec(m).unwrap()), Ent::file("package/index.js", 0o644, b"i\n".to_vec())];
    if bin_files {
        v.push(Ent::file("package/sentinel", 0o644, b"mine\n".to_vec()));
        v.push(Ent::file("package/lib/sentinel", 0o644, b"mine\n".to_vec()));
    }
    tarb::tgz(&v)
}

fn apply(root: Value, p: Value, hoisted: bool, dir: &Path, depname: Option<&str>) -> Out {
    S.with(|(cell, s)| {
        {
            let q = json!({"name": "q", "version": "1.0.0", "bin": {"qbin": "index.js"}});
            let mut g = cell.lock().unwrap();
            let data = pkg(&p, true);
            g.insert("p".into(), (p.clone(), data));
            g.insert("q".into(), (q.clone(), pkg(&q, false)));
        }
        let proj = fresh(dir);
        let skip = [format!("{DEEP}/node_modules")];
        let skip: Vec<&str> = skip.iter().map(|s| s.as_str()).collect();
        let before = outside(dir, &skip);
        let n = nassun::NassunOpts::new().registry(s.url().parse().unwrap()).client(client()).base_dir(&proj).build();
        // Twice: the second run prunes and links what the first one left.
        for _ in 0..2 {
            let res: Result<(), String> = async_std::task::block_on(async {
                let o = node_maintainer::NodeMaintainer::builder().nassun(n.clone()).hoisted(hoisted).root(&proj);
                let nm = o.resolve_manifest(corgi(root.clone())).await.map_err(|e| format!("resolution: {e}"))?;
                nm.prune().await.map_err(|e| format!("prune: {e}"))?;
                nm.extract().await.map_err(|e| format!("extract: {e}"))?;
                nm.rebuild(true).await.map_err(|e| format!("rebuild: {e}"))
            });
            let d = diff(&before, &outside(dir, &skip));
            if !d.is_empty() {
                return Err(format!("apply ({res:?}) changed things outside node_modules: {d:?}").into());
            }
            let nm = proj.join("node_modules");
            let after = snap(&nm);
            let own = |k: &str, n: &str| k == n || k.starts_with(&format!("{n}/"));
            let real = nm.canonicalize().unwrap();
            for (k, node) in &after {
                let bin = k.split('/').any(|c| c == ".bin");
                let last = k.rsplit_once("/.bin/").map(|x| x.1).or_else(|| k.strip_prefix(".bin/"));
                if bin && last.is_some() {
                    if let Node::Link(_) = node {
                        let r = nm.join(k).canonicalize().map_err(|e| Viol::new("", format!("{k} leads nowhere: {e}")))?;
                        let rel = r.strip_prefix(&real).map_err(|_| Viol::new("", format!("{k} leads to {}", r.display())))?;
                        // Into a package: the file is one of the package's own.
                        let name = last.unwrap();
                        if name.contains('/') {
                            return Err(format!("executable link in a subdirectory: {k}").into());
                        }
                        let f = rel.file_name().unwrap().to_string_lossy().into_owned();
                        if r.is_file() && !["sentinel", "index.js", "package.json"].contains(&f.as_str()) {
                            return Err(format!("{k} leads to {}", rel.display()).into());
                        }
                        let r = rel.to_string_lossy().into_owned();
                        if ![".oro-store/p@", ".oro-store/q@", "p/", "q/"].iter().any(|p| r.starts_with(p)) && depname.is_none() {
                            return Err(format!("{k} leads to {r}").into());
                        }
                    } else {
                        return Err(format!("{k} is no link: {}", short(node)).into());
                    }
                } else if depname.is_none() {
                    let ok = k == "node_modules"
                        || own(k, "p")
                        || own(k, "q")
                        || own(k, ".bin")
                        || own(k, ".oro-store")
                        || k == ".orogene-meta.kdl"
                        || k == ".bin";
                    if !ok {
                        return Err(format!("apply put something odd into node_modules: {k}").into());
                    }
                }
            }
            // The other package is as it should be.
            if res.is_ok() {
                let qf = std::fs::read(nm.join("q/index.js")).map_err(|e| format!("q is gone: {e}"))?;
                if qf != b"i\n" {
                    return Err("the other package was changed".into());
                }
            }
        }
        Ok(true)
    })
}

fn one(c: &Case, dir: &Path) -> Out {
    match c {
        Case::Extract(e, pos) => extract(e, *pos, dir),
        Case::Apply(_, m, hoisted) => {
            let m: Value = serde_json::from_str(&m.to_string().replace("/ABS", &abs_of(dir))).unwrap();
            apply(json!({"name": "proj", "dependencies": {"p": "1.0.0", "q": "1.0.0"}}), m, *hoisted, dir, None)
        }
        Case::Dep(name, req, of_root, hoisted) => {
            let name = name.replace("/ABS", &abs_of(dir));
            let mut root = json!({"name": "proj", "dependencies": {"p": "1.0.0", "q": "1.0.0"}});
            let mut p = json!({"name": "p", "version": "1.0.0", "bin": "index.js"});
            if *of_root {
                root["dependencies"][&name] = json!(req);
            } else {
                p["dependencies"] = json!({ &name: req });
            }
            apply(root, p, *hoisted, dir, Some(&name))
        }
    }
}

pub fn run(ctx: &Ctx) {
    let mut cases = vec![];
    let n = ents("/ABS").len();
    for i in 0..n {
        for pos in 0..=1 {
            cases.push(Case::Extract(vec![i], pos));
        }
        for j in 0..n {
            if i != j {
                for pos in if ctx.thorough { vec![0, 1, 2] } else { vec![(i + j) % 3] } {
                    cases.push(Case::Extract(vec![i, j], pos));
                }
            }
        }
    }
    let targets = [
        "sentinel", "./sentinel", "lib/sentinel", "../sentinel", "../../sentinel", "../../../sentinel", "lib/../../../sentinel", "lib/../../../../bin/sentinel",
        "/ABS/sentinel", "//ABS/sentinel", "..", ".", "", "/", "../q/index.js", "../q", "..\\sentinel", "lib", "nothing", "../nothing", "../../bin", "../../../node_modules/q/index.js",
    ];
    let names = ["b", "../b", "../../b", "..", ".", "", "/", "a/b", "/ABS/b", "..\\b", "..\\..\\b", "a:b", "c:\\b", "@s/b", "@s/../b", "b/..", "q", ".bin", "../q", "qbin", "...", "b\u{0}c", "-b"];
    for h in [true, false] {
        for t in targets {
            for (form, v) in [
                ("string", json!(t)),
                ("map", json!({ "b": t })),
                ("array", json!([t])),
            ] {
                cases.push(Case::Apply(format!("bin {form} {t:?}"), json!({"name": "p", "version": "1.0.0", "bin": v}), h));
            }
            cases.push(Case::Apply(format!("directories.bin {t:?}"), json!({"name": "p", "version": "1.0.0", "directories": {"bin": t}}), h));
            for nm in names {
                cases.push(Case::Apply(format!("bin {{{nm:?}: {t:?}}}"), json!({"name": "p", "version": "1.0.0", "bin": { nm: t }}), h));
            }
        }
        for nm in names {
            cases.push(Case::Apply(format!("package name {nm:?}"), json!({"name": nm, "version": "1.0.0", "bin": "sentinel"}), h));
        }
        for d in ["../evil", "../../evil", "..", ".", "../q", "@s/../evil", "@s/../../evil", "@../evil", "@../../evil", "a/../../evil", "/ABS/evil", "..\\evil", ".bin", "node_modules", ".oro-store", ".orogene-meta.kdl", "q/x", "q/node_modules/x", "./q", "sentinel", "../sentinel", "", "/", "@", "@/", "@s/", "@/x", "%2e%2e/evil", "a\u{0}b", ".hidden", "_x"] {
            for r in ["npm:q@1.0.0", "1.0.0", "npm:p@1.0.0"] {
                for of_root in [true, false] {
                    cases.push(Case::Dep(d.into(), r.into(), of_root, h));
                }
            }
        }
    }
    let al = ents("/ABS");
    // As an unprivileged user: nothing that gets out of the scratch directory reaches anything real.
    let root = unsafe { libc::geteuid() } == 0;
    if root {
        let p = std::ffi::CString::new(ctx.scratch.to_string_lossy().as_bytes()).unwrap();
        unsafe {
            libc::chown(p.as_ptr(), 65534, 65534);
            if libc::setegid(65534) != 0 || libc::seteuid(65534) != 0 {
                ctx.error("cannot become an unprivileged user".into());
                return;
            }
        }
    }
    std::env::set_var("TMPDIR", &ctx.scratch);
    ctx.par(
        cores(),
        cases.iter(),
        |c| match c {
            Case::Extract(e, pos) => json!({"entries": e.iter().map(|i| al[*i].0.clone()).collect::<Vec<_>>(), "package.json at": pos}),
            Case::Apply(w, _, h) => json!({"declares": w, "hoisted": h}),
            Case::Dep(n, r, root, h) => json!({"dependency": n, "request": r, "of": if *root { "project" } else { "package" }, "hoisted": h}),
        },
        |c, d| one(c, d),
    );
    if root {
        unsafe {
            libc::seteuid(0);
            libc::setegid(0);
        }
    }
}
