use crate::drive::*;
use crate::http::{Resp, Server};
use crate::report::*;
use crate::snap::*;
use crate::tarb::{self, Ent};
use nassun::package::ExtractMode;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::{Arc, Mutex};

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "T02",
        thorough,
        "exploration",
        "Every ordered selection (up to the bound) of entries from an alphabet of kinds, names, depths, modes and sizes x every package.json variant (no bin, string, map, odd paths, missing targets, directories.bin, install scripts) x its position in the archive, extracted by the real code without cache, and twice with a cache in each extraction mode, followed by a package with the same contents and other modes from the same cache; all resulting directories are compared with an own reading of the archive. Non-trivial: the archive has entries besides package.json.",
    )
}

/// Incompressible data.
fn noise(n: usize) -> Vec<u8> {
    let mut x = 0x2545_f491_4f6c_dd1du64;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 32) as u8
        })
        .collect()
}

/// Names of the alphabet, for reporting.
fn alphabet(thorough: bool) -> Vec<(&'static str, Vec<Ent>)> {
    let a = b"console.log('a')\n".to_vec();
    let long = format!("package/{}/deep.js", vec!["directory-name-of-some-length"; 5].join("/"));
    // A path split into ustar prefix and name is what most archivers write.
    let mut v = vec![
        ("a", vec![Ent::file("package/a.js", 0o644, a.clone())]),
        ("a-other", vec![Ent::file("package/a.js", 0o644, b"other\n".to_vec())]),
        ("a-exec", vec![Ent::file("package/a.js", 0o755, a.clone())]),
        ("same-exec", vec![Ent::file("package/lib/same.js", 0o755, a.clone())]),
        ("b", vec![Ent::file("package/lib/b.js", 0o644, b"b\n".to_vec())]),
        ("dir", vec![Ent::dir("package/lib/")]),
        ("private", vec![Ent::file("package/README", 0o600, b"r\n".to_vec())]),
        ("readonly", vec![Ent::file("package/lib/ro.txt", 0o444, b"ro\n".to_vec())]),
        ("nomode", vec![Ent::file("package/none.txt", 0, b"none\n".to_vec())]),
        ("empty", vec![Ent::file("package/zero", 0o644, Vec::<u8>::new())]),
        ("long", vec![Ent::file(&long, 0o644, b"long\n".to_vec())]),
        ("pax", vec![Ent { kind: b'P', ..Ent::file(&format!("{long}x"), 0o644, b"pax\n".to_vec()) }]),
        ("name", vec![Ent::file("package/sp ace/\u{fc}n\u{ef} '$x.js", 0o644, b"n\n".to_vec())]),
        ("writable", vec![Ent::file("package/w.sh", 0o777, b"w\n".to_vec())]),
        ("symlink", vec![Ent::symlink("package/link", "a.js")]),
        ("hardlink", vec![Ent::hardlink("package/hard", "package/a.js")]),
        ("block", vec![Ent::file("package/block", 0o644, vec![b'x'; 512])]),
        ("odd", vec![Ent::file("package/odd", 0o644, (0..20011u32).map(|i| (i * i >> 3) as u8).collect::<Vec<_>>())]),
        ("top", vec![Ent::file("toplevel.txt", 0o644, b"t\n".to_vec())]),
        ("root", vec![Ent::file("other-root/lib/c.js", 0o644, b"c\n".to_vec())]),
        ("double", vec![Ent::file("package//lib/./dbl.js", 0o644, b"d\n".to_vec())]),
        ("oldfile", vec![Ent { kind: 0, ..Ent::file("package/old.js", 0o644, b"old\n".to_vec()) }]),
        ("big", vec![Ent::file("package/big.bin", 0o644, noise(5_300_000)), Ent::file("package/lib/after-big.js", 0o644, b"after\n".to_vec())]),
        ("global", vec![Ent { kind: b'g', ..Ent::file("pax_global_header", 0o644, b"18 comment=abcdef\n".to_vec()) }]),
    ];
    if thorough {
        v.extend([
            ("b-again", vec![Ent::file("package/lib/b.js", 0o755, b"b2\n".to_vec())]),
            ("inner-package", vec![Ent::file("package/lib/package.json", 0o644, br#"{"name":"inner","scripts":{"install":"true"},"bin":"a.js"}"#.to_vec())]),
            ("fifo", vec![Ent { kind: b'6', ..Ent::file("package/fifo", 0o644, Vec::<u8>::new()) }]),
            ("8k", vec![Ent::file("package/8k", 0o644, vec![b'y'; 8192])]),
            ("nm", vec![Ent::file("package/node_modules/x/index.js", 0o644, b"bundled\n".to_vec())]),
        ]);
    }
    v
}

fn manifests() -> Vec<(&'static str, Option<Value>)> {
    let m = |v: Value| {
        let mut o = json!({"name": "p", "version": "1.0.0"});
        for (k, x) in v.as_object().unwrap() {
            o[k] = x.clone();
        }
        Some(o)
    };
    vec![
        ("plain", m(json!({}))),
        ("bin string", m(json!({"bin": "a.js"}))),
        ("bin ./string", m(json!({"bin": "./a.js"}))),
        ("bin map", m(json!({"bin": {"x": "lib/../a.js", "y": "./lib//b.js", "z": "/lib/same.js", "missing": "nope.js", "m2": "nodir/nope.js"}}))),
        ("directories.bin", m(json!({"directories": {"bin": "./lib"}}))),
        ("scripts", m(json!({"bin": "./a.js", "scripts": {"install": "true"}}))),
        ("postinstall", m(json!({"scripts": {"postinstall": "true"}}))),
        ("no manifest", None),
    ]
}

#[derive(Clone)]
struct Case {
    ents: Vec<usize>,
    mani: usize,
    pos: usize,
}

fn archive(c: &Case, alpha: &[(&'static str, Vec<Ent>)]) -> Vec<Ent> {
    let mut v: Vec<Vec<Ent>> = c.ents.iter().map(|i| alpha[*i].1.clone()).collect();
    if let Some(m) = &manifests()[c.mani].1 {
        v.insert(c.pos, vec![Ent::file("package/package.json", 0o644, serde_json::to_vec(m).unwrap())]);
    }
    v.concat()
}

/// None: no claim (a file where another entry needs a directory).
fn expected(ents: &[Ent], mani: &Option<Value>) -> Option<Tree> {
    let mut t: BTreeMap<String, (u32, Vec<u8>)> = BTreeMap::new();
    for e in ents {
        if !matches!(e.kind, b'0' | 0 | b'P') {
            continue;
        }
        let parts: Vec<&str> = e.path.split('/').filter(|x| !x.is_empty() && *x != ".").skip(1).collect();
        if parts.is_empty() {
            continue;
        }
        t.insert(parts.join("/"), ((e.mode | 0o600) & 0o755, e.data.clone()));
    }
    let files: BTreeSet<String> = t.keys().cloned().collect();
    for f in &files {
        let mut p = f.as_str();
        while let Some((d, _)) = p.rsplit_once('/') {
            if files.contains(d) {
                return None;
            }
            p = d;
        }
    }
    let mut bins: Vec<String> = vec![];
    if let Some(m) = mani {
        match &m["bin"] {
            Value::String(s) => bins.push(s.clone()),
            Value::Object(o) => bins.extend(o.values().map(|v| v.as_str().unwrap().to_string())),
            _ => {}
        }
        if m["directories"]["bin"].is_string() {
            bins.extend(files.iter().filter(|f| f.starts_with("lib/")).cloned());
        }
    }
    for b in bins {
        let mut r: Vec<&str> = vec![];
        for p in b.split('/') {
            match p {
                "" | "." => {}
                ".." => {
                    r.pop();
                }
                p => r.push(p),
            }
        }
        if let Some(f) = t.get_mut(&r.join("/")) {
            f.0 |= 0o111;
        }
    }
    Some(t.into_iter().map(|(k, (mode, data))| (k, Node::File { mode, data })).collect())
}

fn files(t: Tree) -> Tree {
    t.into_iter().filter(|(_, n)| !matches!(n, Node::Dir)).collect()
}

fn build(ents: &[Ent]) -> Vec<u8> {
    tarb::tgz(ents)
}

type Cell = Arc<Mutex<BTreeMap<String, Vec<u8>>>>;
thread_local! {
    static S: (Cell, Server) = {
        let v: Cell = Default::default();
        let w = v.clone();
        (v, Server::start(Arc::new(move |r| {
            let g = w.lock().unwrap();
            let name = r.path.trim_start_matches('/').split('/').next().unwrap().to_string();
            let Some(d) = g.get(&name) else { return Resp::status(404) };
            if r.path.ends_with(".tgz") {
                return Resp::ok(d.clone());
            }
            let i = crate::uni::Universe::integrity(d);
            let base = format!("http://{}/", r.header("host").unwrap());
            Resp::json(&json!({"name": name, "versions": {"1.0.0": {"name": name, "version": "1.0.0", "dist": {"tarball": format!("{base}{name}/-/{name}-1.0.0.tgz"), "integrity": i}}}, "dist-tags": {"latest": "1.0.0"}}))
        })))
    };
}

const MODES: &[Option<ExtractMode>] = &[
    None,
    Some(ExtractMode::Auto),
    Some(ExtractMode::Copy),
    Some(ExtractMode::Hardlink),
    Some(ExtractMode::AutoHardlink),
    Some(ExtractMode::Reflink),
];

/// The same contents as in the alphabet, with other modes and names.
fn second_ents() -> Vec<Ent> {
    vec![
        Ent::file("package/package.json", 0o644, br#"{"name":"q","version":"1.0.0","bin":"bin.js"}"#.to_vec()),
        Ent::file("package/plain.js", 0o644, b"console.log('a')\n".to_vec()),
        Ent::file("package/exec.js", 0o755, b"b\n".to_vec()),
        Ent::file("package/bin.js", 0o644, b"other\n".to_vec()),
        Ent::file("package/nobin.js", 0o644, b"other\n".to_vec()),
        Ent::file("package/w", 0o644, b"w\n".to_vec()),
        Ent::file("package/private", 0o600, b"console.log('a')\n".to_vec()),
        Ent::file("package/public", 0o644, b"r\n".to_vec()),
        Ent::file("package/writable", 0o644, b"ro\n".to_vec()),
        Ent::file("package/onlyread", 0o444, b"b\n".to_vec()),
    ]
}

fn append(f: &Path) -> Result<(), Viol> {
    let mut o = std::fs::OpenOptions::new().append(true).open(f).map_err(|e| format!("{f:?}: {e}"))?;
    std::io::Write::write_all(&mut o, b"changed").unwrap();
    Ok(())
}

fn one(c: &Case, dir: &Path, alpha: &[(&'static str, Vec<Ent>)], modes: &[Option<ExtractMode>]) -> Out {
    let ents = archive(c, alpha);
    let mani = &manifests()[c.mani].1;
    let Some(exp) = expected(&ents, mani) else { return Ok(false) };
    let scripts = mani.as_ref().map(|m| m["scripts"].is_object()).unwrap_or(false);
    let q = second_ents();
    let qexp = expected(&q, &Some(json!({"bin": "bin.js"}))).unwrap();
    S.with(|(cell, s)| {
        {
            let mut m = cell.lock().unwrap();
            m.insert("p".into(), build(&ents));
            m.insert("q".into(), build(&q));
        }
        for mode in modes {
            let _ = std::fs::remove_dir_all(dir);
            std::fs::create_dir_all(dir.join("nm")).unwrap();
            let cache = dir.join("cache");
            let mut no = nassun::NassunOpts::new().registry(s.url().parse().unwrap());
            if mode.is_some() {
                std::fs::create_dir_all(&cache).unwrap();
                no = no.cache(&cache);
            }
            let n = no.client(client()).build();
            let ex = |name: &str, d: &str| -> Result<(), Viol> {
                async_std::task::block_on(async {
                    let p = n.resolve(format!("{name}@1.0.0")).await.map_err(|e| format!("resolving: {e}"))?;
                    p.extract_to_dir(dir.join("nm").join(d), mode.unwrap_or_default()).await.map_err(|e| format!("{mode:?} extraction to {d} failed: {e:?}"))?;
                    Ok(())
                })
            };
            let check = |d: &str, exp: &Tree| -> Result<(), Viol> {
                let got = files(snap(&dir.join("nm").join(d)));
                let df = diff(exp, &got);
                if df.is_empty() {
                    Ok(())
                } else {
                    Err(format!("{mode:?} extraction to {d}: {df:?}").into())
                }
            };
            if scripts && mode.is_some() {
                // The other package is known to the cache already when this one arrives.
                ex("q", "a")?;
                ex("p", "b")?;
                ex("q", "c")?;
                for (k, _) in &exp {
                    append(&dir.join("nm/b").join(k))?;
                }
                check("a", &qexp)?;
                check("c", &qexp)?;
                ex("q", "d")?;
                check("d", &qexp)?;
                let _ = std::fs::remove_dir_all(&cache);
                std::fs::create_dir_all(&cache).unwrap();
            }
            ex("p", "one")?;
            check("one", &exp)?;
            if mode.is_none() {
                continue;
            }
            ex("p", "two")?;
            check("two", &exp)?;
            ex("q", "three")?;
            check("three", &qexp)?;
            ex("q", "four")?;
            check("four", &qexp)?;
            check("one", &exp)?;
            check("two", &exp)?;
            if scripts {
                // Scripts may change the package's files; nobody else must see that.
                ex("p", "five")?;
                check("five", &exp)?;
                for d in ["one", "five"] {
                    for (k, _) in &exp {
                        append(&dir.join("nm").join(d).join(k))?;
                    }
                }
                check("two", &exp)?;
                check("three", &qexp)?;
                check("four", &qexp)?;
                ex("p", "six")?;
                check("six", &exp)?;
                ex("q", "seven")?;
                check("seven", &qexp)?;
            }
        }
        Ok(!c.ents.is_empty())
    })
}

pub fn run(ctx: &Ctx) {
    let alpha = alphabet(ctx.thorough);
    let n = alpha.len();
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..n {
        seqs.push(vec![i]);
        for j in 0..n {
            if i != j {
                seqs.push(vec![i, j]);
                if ctx.thorough {
                    for k in 0..n {
                        if k != i && k != j {
                            seqs.push(vec![i, j, k]);
                        }
                    }
                }
            }
        }
    }
    let mut cases = vec![];
    let big = alpha.iter().position(|a| a.0 == "big").unwrap();
    for s in &seqs {
        for (mani, m) in manifests().iter().enumerate() {
            // Large archives are slow: alone or with a file, with few manifests.
            let slow = s.contains(&big);
            if slow && (s.len() > 2 || s.iter().any(|i| *i != big && *i > 2) || mani % 4 > 0 && !(m.1.as_ref().map_or(false, |m| m["scripts"].is_object()))) {
                continue;
            }
            for pos in 0..=s.len() {
                if (m.1.is_none() && pos > 0) || (s.len() == 3 && pos != mani % 4) {
                    continue;
                }
                cases.push(Case { ents: s.clone(), mani, pos });
            }
        }
    }
    let modes: Vec<Vec<_>> = (0..4)
        .map(|k| if ctx.thorough { MODES.to_vec() } else { vec![None, Some(ExtractMode::Hardlink), [MODES[1], MODES[2], MODES[4], MODES[5]][k]] })
        .collect();
    // In the quick tier each archive meets one of the other modes; all meet all in the thorough one.
    ctx.cov("archives", cases.len());
    ctx.par(
        cores(),
        cases.iter(),
        |c| json!({"entries": c.ents.iter().map(|i| alpha[*i].0).collect::<Vec<_>>(), "package.json": manifests()[c.mani].0, "at": c.pos}),
        |c, d| one(c, d, &alpha, &modes[(c.ents.iter().sum::<usize>() + c.mani + c.pos) % 4]),
    );
}
