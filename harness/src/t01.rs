use crate::drive::*;
use crate::http::{Resp, Server};
use crate::report::*;
use crate::snap::*;
use crate::tarb::{self, Ent};
use futures::{AsyncReadExt, StreamExt};
use nassun::package::ExtractMode;
use serde_json::{json, Map, Value};
use std::path::Path;
use std::sync::{Arc, Mutex, OnceLock};

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "T01",
        thorough,
        "fault_enumeration",
        "Every single-byte corruption (two patterns, all positions), deletion, insertion, truncation length (declared short, and cut off in transfer), extension and replacement of a package archive x every way of consuming it (read, iterate, extract without cache, extract with cache in every extraction mode, node-maintainer extract from a lockfile) x integrity kinds (sha512/384/256/1, xxh3, hex shasum, several hashes), and every two-piece and several multi-piece chunkings of good and corrupt transfers; the same faults after an earlier extraction whose cache is intact, lost its contents, has altered contents or lost its index; large archives around the in-memory limit with corruption at every buffer boundary. Oracle: bytes served equal the original or not. Non-trivial: the served bytes differ, or the chunking is not the default.",
    )
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Read,
    Entries,
    NoCache,
    Cache(ExtractMode),
    Maintainer,
}

pub const MODES: &[Mode] = &[
    Mode::Read,
    Mode::Entries,
    Mode::NoCache,
    Mode::Cache(ExtractMode::Auto),
    Mode::Cache(ExtractMode::Copy),
    Mode::Cache(ExtractMode::Hardlink),
    Mode::Cache(ExtractMode::AutoHardlink),
    Mode::Cache(ExtractMode::Reflink),
    Mode::Maintainer,
];

#[derive(Clone, Debug)]
enum Mut {
    None,
    Xor(usize, u8),
    Del(usize),
    Ins(usize, u8),
    Trunc(usize),
    /// Full length declared, connection closed early.
    Cut(usize),
    Append(&'static [u8]),
    AppendSelf,
    Other,
    Swap(usize),
    Empty,
}

#[derive(Clone, Debug)]
struct Case {
    pkg: usize,
    m: Mut,
    integ: &'static str,
    mode: Mode,
    chunks: Option<Vec<usize>>,
    /// What an earlier extraction of good data left in the cache: 0 none, 1 everything,
    /// 2 contents removed since, 3 contents altered since, 4 index removed since.
    prior: u8,
}

struct P {
    data: Vec<u8>,
    other: Vec<u8>,
}

fn pkgs() -> &'static Vec<P> {
    static P: OnceLock<Vec<P>> = OnceLock::new();
    P.get_or_init(|| {
        let small = |x: &str| {
            tarb::tgz(&[
                Ent::file("package/package.json", 0o644, br#"{"name":"p","version":"1.0.0"}"#.to_vec()),
                Ent::file("package/a.js", 0o644, format!("module.exports = '{x}'\n").into_bytes()),
            ])
        };
        // Stored, so that a corruption of content keeps the stream well formed but for the checksum.
        let stored = |x: u8, n: usize| {
            use std::io::Write;
            let t = tarb::tar(&[
                Ent::file("package/package.json", 0o644, br#"{"name":"p","version":"1.0.0"}"#.to_vec()),
                Ent::file("package/a.js", 0o644, (0..n).map(|i| x.wrapping_add((i * 7 % 251) as u8)).collect::<Vec<_>>()),
            ]);
            let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::none());
            e.write_all(&t).unwrap();
            e.finish().unwrap()
        };
        vec![
            P { data: small("good"), other: small("evil") },
            P { data: stored(0, 5 << 20), other: stored(1, 5 << 20) },
            P { data: stored(0, 100), other: stored(1, 100) },
        ]
    })
}

fn apply(p: &P, m: &Mut) -> Vec<u8> {
    let mut d = p.data.clone();
    match m {
        Mut::None | Mut::Cut(_) => {}
        Mut::Xor(i, x) => d[*i] ^= x,
        Mut::Del(i) => {
            d.remove(*i);
        }
        Mut::Ins(i, x) => d.insert(*i, *x),
        Mut::Trunc(n) => d.truncate(*n),
        Mut::Append(x) => d.extend_from_slice(x),
        Mut::AppendSelf => d.extend_from_slice(&p.data),
        Mut::Other => d = p.other.clone(),
        Mut::Swap(i) => d.swap(*i, *i + 1),
        Mut::Empty => d.clear(),
    }
    d
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn sha1_hex(data: &[u8]) -> String {
    ssri::IntegrityOpts::new().algorithm(ssri::Algorithm::Sha1).chain(data).result().to_hex().1
}

fn sri(a: ssri::Algorithm, d: &[u8]) -> String {
    ssri::IntegrityOpts::new().algorithm(a).chain(d).result().to_string()
}

/// (integrity, shasum)
fn dist(kind: &str, p: &P) -> (Option<String>, Option<String>) {
    use ssri::Algorithm::*;
    let d = &p.data[..];
    match kind {
        "sha512" => (Some(sri(Sha512, d)), None),
        "sha384" => (Some(sri(Sha384, d)), None),
        "sha256" => (Some(sri(Sha256, d)), None),
        "sha1" => (Some(sri(Sha1, d)), None),
        "xxh3" => (Some(sri(Xxh3, d)), None),
        "shasum" => (None, Some(sha1_hex(d))),
        "both" => (Some(sri(Sha512, d)), Some(sha1_hex(d))),
        // The strongest algorithm decides, also next to a weaker one for other data.
        "multi" => (Some(format!("{} {}", sri(Sha1, &p.other), sri(Sha512, d))), Some(sha1_hex(&p.other))),
        "two" => (Some(format!("{} {}", sri(Sha512, b"something else"), sri(Sha512, d))), None),
        _ => unreachable!(),
    }
}

const INTEG: &[&str] = &["sha512", "sha384", "sha256", "sha1", "xxh3", "shasum", "both", "multi", "two"];

type Cell = Arc<Mutex<(Value, Resp)>>;

thread_local! {
    static S: (Cell, Server) = {
        let v: Cell = Arc::new(Mutex::new((Value::Null, Resp::status(500))));
        let w = v.clone();
        (v, Server::start(Arc::new(move |r| {
            let g = w.lock().unwrap();
            if r.path.ends_with(".tgz") { g.1.clone() } else { Resp::json(&g.0) }
        })))
    };
}

fn expected_tree(p: &P) -> Tree {
    let mut t = Tree::new();
    let mut ar = tar::Archive::new(flate2::read::GzDecoder::new(&p.data[..]));
    for e in ar.entries().unwrap() {
        let mut e = e.unwrap();
        let path = e.path().unwrap().to_string_lossy().trim_start_matches("package/").to_string();
        let mut data = vec![];
        std::io::Read::read_to_end(&mut e, &mut data).unwrap();
        t.insert(path, Node::File { mode: 0o644, data });
    }
    t
}

/// Files only, modes aside (T02 judges those).
fn files(t: Tree) -> Tree {
    t.into_iter()
        .filter(|(_, n)| !matches!(n, Node::Dir))
        .map(|(k, n)| match n {
            Node::File { data, .. } => (k, Node::File { mode: 0o644, data }),
            n => (k, n),
        })
        .collect()
}

const PRIOR: [&str; 5] = ["no earlier extraction", "warm", "contents removed", "contents altered", "index removed"];

fn damage(cache: &Path, how: u8) {
    fn walk(d: &Path, f: &mut dyn FnMut(&Path)) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            if e.path().is_dir() {
                walk(&e.path(), f)
            } else {
                f(&e.path())
            }
        }
    }
    walk(cache, &mut |f| {
        let content = f.to_string_lossy().contains("/content-v2/");
        match how {
            2 if content => std::fs::remove_file(f).unwrap(),
            3 if content => {
                let d: Vec<u8> = std::fs::read(f).unwrap().iter().map(|b| b ^ 1).collect();
                // A new file: the old one may be linked to what was extracted.
                std::fs::remove_file(f).unwrap();
                std::fs::write(f, d).unwrap();
            }
            4 if !content => std::fs::remove_file(f).unwrap(),
            _ => {}
        }
    });
}

fn one(c: &Case, dir: &Path) -> Out {
    let p = &pkgs()[c.pkg];
    let served = apply(p, &c.m);
    let good = served == p.data && !matches!(c.m, Mut::Cut(_));
    let mut resp = Resp::ok(served);
    if let Mut::Cut(n) = c.m {
        resp.cut = Some(n);
        if c.chunks.is_some() {
            resp.body.truncate(n);
        }
    }
    resp.chunks = c.chunks.clone();
    S.with(|(cell, s)| {
        let (integrity, shasum) = dist(c.integ, p);
        let mut d = Map::new();
        d.insert("tarball".into(), json!(format!("{}p/-/p-1.0.0.tgz", s.url())));
        if let Some(i) = &integrity {
            d.insert("integrity".into(), json!(i));
        }
        if let Some(i) = &shasum {
            d.insert("shasum".into(), json!(i));
        }
        let pm = json!({"name": "p", "versions": {"1.0.0": {"name": "p", "version": "1.0.0", "dist": d}}, "dist-tags": {"latest": "1.0.0"}});
        *cell.lock().unwrap() = (pm, if c.prior > 0 { Resp::ok(p.data.clone()) } else { resp.clone() });
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir).unwrap();
        let target = dir.join("proj/node_modules/p");
        let cache = dir.join("cache");
        std::fs::create_dir_all(target.parent().unwrap()).unwrap();
        let mut no = nassun::NassunOpts::new().client(client()).registry(s.url().parse().unwrap());
        if matches!(c.mode, Mode::Cache(_)) {
            std::fs::create_dir_all(&cache).unwrap();
            no = no.cache(&cache).client(client());
        }
        let n = no.build();
        let res: Result<(), String> = async_std::task::block_on(async {
            let e = |e: nassun::NassunError| e.to_string();
            if c.mode == Mode::Maintainer {
                let i = integrity.clone().unwrap();
                let lock = format!("lockfile-version 1\nroot {{\n    dependencies {{\n        p \"^1.0.0\"\n    }}\n}}\npkg \"p\" {{\n    version \"1.0.0\"\n    resolved \"{}p/-/p-1.0.0.tgz\"\n    integrity \"{i}\"\n}}\n", s.url());
                let nm = opts(s)
                    .nassun(n)
                    .hoisted(true)
                    .root(dir.join("proj"))
                    .kdl_lock(lock)
                    .map_err(|e| e.to_string())?
                    .resolve_manifest(corgi(json!({"name": "x", "dependencies": {"p": "^1.0.0"}})))
                    .await
                    .map_err(|e| format!("resolution: {e}"))?;
                return nm.extract().await.map(|_| ()).map_err(|e| e.to_string());
            }
            let pk = n.resolve("p@1.0.0").await.map_err(|x| format!("resolution: {x}"))?;
            if c.prior > 0 {
                let Mode::Cache(m) = c.mode else { unreachable!() };
                pk.extract_to_dir(dir.join("before"), m).await.map_err(|e| format!("PRIOR {e}"))?;
                damage(&cache, c.prior);
                cell.lock().unwrap().1 = resp;
            }
            match c.mode {
                Mode::Read => {
                    let mut v = vec![];
                    pk.tarball().await.map_err(e)?.read_to_end(&mut v).await.map_err(|e| e.to_string())?;
                    if v != p.data {
                        return Err("DIFFERENT".into());
                    }
                }
                Mode::Entries => {
                    let mut es = pk.entries().await.map_err(e)?;
                    while let Some(x) = es.next().await {
                        let mut x = x.map_err(|e| format!("{e:?}"))?;
                        let mut v = vec![];
                        x.read_to_end(&mut v).await.map_err(|e| e.to_string())?;
                    }
                }
                Mode::NoCache => {
                    pk.extract_to_dir(&target, ExtractMode::Auto).await.map_err(e)?;
                }
                Mode::Cache(m) => {
                    pk.extract_to_dir(&target, m).await.map_err(e)?;
                }
                Mode::Maintainer => unreachable!(),
            }
            Ok(())
        });
        if let Err(e) = &res {
            if e.starts_with("PRIOR") {
                return Err(format!("good data was rejected: {e}").into());
            }
        }
        if c.prior > 0 {
            let got = files(snap(&target));
            let exp = expected_tree(p);
            let d = diff(&exp, &got);
            return match res {
                Ok(()) if d.is_empty() => Ok(true),
                Ok(()) => Err(format!("reported as extracted, but wrong: {d:?}").into()),
                Err(e) if good => Err(format!("matching data was rejected because of the cache: {e}").into()),
                Err(e) => match got.iter().find(|(k, v)| exp.get(k.as_str()) != Some(*v)) {
                    Some((k, _)) => Err(format!("{k} was extracted with other content (then: {e})").into()),
                    None => Ok(true),
                },
            };
        }
        let extracts = !matches!(c.mode, Mode::Read | Mode::Entries);
        match (&res, good) {
            (Ok(()), false) => {
                return Err(format!("data that does not match its {} was accepted", c.integ).into());
            }
            (Err(e), true) => return Err(format!("data that matches its {} was rejected: {e}", c.integ).into()),
            (Err(e), false) if e == "DIFFERENT" => return Err("corrupt data was read without an error".into()),
            _ => {}
        }
        let got = files(snap(&target));
        if good && extracts {
            let exp = expected_tree(p);
            let d = diff(&exp, &got);
            if !d.is_empty() {
                return Err(format!("wrong files: {d:?}").into());
            }
        }
        if !good && !got.is_empty() {
            return Err(format!("corrupt data was extracted (and then reported): {:?}", got.keys().collect::<Vec<_>>()).into());
        }
        Ok(!good || c.chunks.is_some())
    })
}

pub fn run(ctx: &Ctx) {
    let mut cases = vec![];
    let small = pkgs()[0].data.len();
    let stored = pkgs()[2].data.len();
    let big = pkgs()[1].data.len();
    let all_muts = |n: usize, step: usize| -> Vec<Mut> {
        let mut v = vec![Mut::None, Mut::Other, Mut::AppendSelf, Mut::Empty];
        v.extend([&b"\0"[..], b"x", &[0; 512], &[0; 1024]].map(Mut::Append));
        for i in (0..n).step_by(step) {
            v.extend([Mut::Xor(i, 1), Mut::Xor(i, 0xff), Mut::Del(i), Mut::Ins(i, 0), Mut::Trunc(i), Mut::Cut(i)]);
            if i + 1 < n {
                v.push(Mut::Swap(i));
            }
        }
        v
    };
    let ok = |integ: &str, mode: Mode| mode != Mode::Maintainer || integ != "shasum";
    for (pkg, n) in [(0, small), (2, stored)] {
        for (k, integ) in INTEG.iter().enumerate() {
            for (j, mode) in MODES.iter().enumerate() {
                if !ok(integ, *mode) {
                    continue;
                }
                // Quick: every position for sha512 in every mode and for every integrity kind with one mode;
                // a coarser grid for the other combinations.
                let step = if ctx.thorough || (pkg == 0 && (*integ == "sha512" || k % MODES.len() == j)) { 1 } else if pkg == 0 { 13 } else { 97 };
                for m in all_muts(n, step) {
                    // Deleting or swapping equal bytes changes nothing: those count as good data.
                    cases.push(Case { pkg, m, integ, mode: *mode, chunks: None, prior: 0 });
                }
            }
        }
    }
    // An earlier extraction left something in the cache.
    for prior in 1..=4u8 {
        for integ in INTEG {
            for mode in MODES {
                if !matches!(mode, Mode::Cache(_)) {
                    continue;
                }
                let step = if ctx.thorough { 1 } else if *integ == "sha512" { 23 } else { 97 };
                for m in all_muts(small, step) {
                    cases.push(Case { pkg: 0, m, integ, mode: *mode, chunks: None, prior });
                }
            }
        }
    }
    // Chunkings.
    for mode in MODES {
        for split in 1..small {
            if !ctx.thorough && *mode != Mode::Read && *mode != Mode::NoCache && split % 3 != 0 {
                continue;
            }
            for m in [Mut::None, Mut::Xor(small / 2, 4), Mut::Cut(split), Mut::Xor(split - 1, 1)] {
                cases.push(Case { pkg: 0, m, integ: "sha512", mode: *mode, chunks: Some(vec![split]), prior: 0 });
            }
        }
        for sz in [1, 2, 3, 7, 64] {
            let ch: Vec<usize> = (1..small).filter(|i| i % sz == 0).collect();
            for m in [Mut::None, Mut::Xor(small - 1, 1), Mut::Xor(0, 1), Mut::Cut(small - 1), Mut::Append(b"\0")] {
                cases.push(Case { pkg: 0, m, integ: "sha512", mode: *mode, chunks: Some(ch.clone()), prior: 0 });
            }
        }
    }
    // Large archives: spilled to a temporary file beyond 5 MiB.
    let lim = 5 << 20;
    let mut pos = vec![0, 11, lim - 8192, lim - 1, lim, lim + 1, big - 1, big - 8, big - 9, big / 2];
    if ctx.thorough {
        pos.extend((0..big).step_by(8192));
    }
    for mode in MODES {
        for i in &pos {
            let mut ms = vec![Mut::Xor(*i, 1)];
            if pos.len() < 50 || ctx.thorough {
                ms.push(Mut::Trunc(*i));
                ms.push(Mut::Cut(*i));
            }
            for m in ms {
                cases.push(Case { pkg: 1, m, integ: "sha512", mode: *mode, chunks: None, prior: 0 });
            }
        }
        for m in [Mut::None, Mut::Append(b"x"), Mut::Other, Mut::AppendSelf] {
            cases.push(Case { pkg: 1, m, integ: "sha512", mode: *mode, chunks: None, prior: 0 });
        }
        // Short pieces around the limit, after it and at the end.
        for ch in [vec![lim - 1, lim, lim + 1, lim + 2], vec![lim + 1, lim + 2], vec![lim + 100, lim + 200], vec![lim + 8192, lim + 8193], vec![big - 1], vec![big - 8], vec![100, 200, lim, lim + 64, big - 100]] {
            for m in [Mut::None, Mut::Xor(big - 1, 1), Mut::Cut(big - 1)] {
                cases.push(Case { pkg: 1, m, integ: "sha512", mode: *mode, chunks: Some(ch.clone()), prior: 0 });
            }
        }
    }
    let _ = hex(b"");
    ctx.cov("archive_bytes", json!([small, big, stored]));
    ctx.par(
        cores(),
        cases.iter(),
        |c| json!({"archive": c.pkg, "corruption": format!("{:?}", c.m), "integrity": c.integ, "mode": format!("{:?}", c.mode), "cache": PRIOR[c.prior as usize], "chunks": c.chunks.as_ref().map(|c| if c.len() > 8 { format!("{} pieces", c.len() + 1) } else { format!("{c:?}") })}),
        |c, d| one(c, d),
    );
}
