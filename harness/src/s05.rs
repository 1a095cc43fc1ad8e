//! S05: adding and removing dependencies.
use crate::cli::Cli;
use crate::http::Server;
use crate::report::*;
use crate::snap;
use crate::uni::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::{Mutex, OnceLock};
use std::time::Duration;

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "S05",
        thorough,
        "exploration",
        "Every sequence, up to a depth, of the real `oro add` and `oro remove` over an alphabet of specifiers (versions, ranges, tags, aliases, scoped names, directories, several at once, unknown ones), kinds of dependency, prefixes and ways of applying, from several initial manifests (bare, every section with unsorted entries, entries in several sections, other layouts, odd names, malformed sections). After each command: package.json compared entry by entry and, for its layout, with the harness's own printer; the installed version against the request written; `oro apply --locked` accepts the lockfile and changes nothing; a fresh installation from package.json and the lockfile is the same tree. Non-trivial: the command changed package.json.",
    )
}

const KINDS: [&str; 4] = ["dependencies", "devDependencies", "optionalDependencies", "peerDependencies"];

struct Style {
    unit: &'static str,
    eol: &'static str,
    last: bool,
}

/// Documents in the usual layout; the style of irregular ones is not looked at.
fn print(v: &Value, st: &Style) -> String {
    fn go(v: &Value, st: &Style, d: usize, out: &mut String) {
        let line = |out: &mut String, d: usize| {
            out.push_str(st.eol);
            out.push_str(&st.unit.repeat(d));
        };
        match v {
            Value::Array(a) if !a.is_empty() => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    line(out, d + 1);
                    go(x, st, d + 1, out);
                }
                line(out, d);
                out.push(']');
            }
            Value::Object(o) if !o.is_empty() => {
                out.push('{');
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    line(out, d + 1);
                    out.push_str(&format!("{}: ", Value::String(k.clone())));
                    go(x, st, d + 1, out);
                }
                line(out, d);
                out.push('}');
            }
            v => out.push_str(&v.to_string()),
        }
    }
    let mut out = String::new();
    go(v, st, 0, &mut out);
    if st.last {
        out.push_str(st.eol);
    }
    out
}

struct Base {
    doc: fn() -> Value,
    style: Option<Style>,
    /// A section is not what it should be: commands may refuse.
    malformed: bool,
}

const BASES: &[Base] = &[
    Base { doc: || json!({"name": "proj", "version": "1.0.0"}), style: Some(Style { unit: "  ", eol: "\n", last: true }), malformed: false },
    Base {
        doc: || {
            json!({"version": "1.0.0", "scripts": {"test": "true"}, "dependencies": {"z": "^1.0.0", "a": "1.0.0", "y": "*", "b": "1.x"}, "name": "proj",
                   "devDependencies": {"w": "1", "d": ">=1", "v": "1"}, "other": [1, {"x": null}], "optionalDependencies": {"u": "~1.0.0", "@s/c": "latest", "t": "1 - 2"},
                   "keywords": [], "zz": {}})
        },
        style: Some(Style { unit: "\t", eol: "\r\n", last: true }),
        malformed: false,
    },
    Base {
        doc: || json!({"name": "proj", "dependencies": {"a": "^1.0.0", "x": "npm:z@1", "JSONx": "1.0.0"}, "devDependencies": {"z": "1", "a": "1.0.0", "b": "1"}, "peerDependencies": {"y": "1", "a": "1", "w": "1"}, "peerDependenciesMeta": {"a": {"optional": true}}}),
        style: Some(Style { unit: "    ", eol: "\n", last: false }),
        malformed: false,
    },
    Base { doc: || json!({"name": "proj", "dependencies": {"z": "1.0.0", "a": "old", "y": ""}, "bundledDependencies": ["a"], "resolutions": {"a": "1.0.0"}}), style: None, malformed: false },
    Base { doc: || json!({"name": "proj", "dependencies": null, "devDependencies": {}}), style: Some(Style { unit: "  ", eol: "\n", last: true }), malformed: true },
    Base { doc: || json!({"name": "proj", "dependencies": ["a"]}), style: Some(Style { unit: "  ", eol: "\n", last: true }), malformed: true },
    Base { doc: || json!({"name": "proj", "dependencies": "a", "devDependencies": 1, "optionalDependencies": {"a": 1}}), style: Some(Style { unit: "  ", eol: "\n", last: true }), malformed: true },
    Base { doc: || json!(["a"]), style: Some(Style { unit: "  ", eol: "\n", last: true }), malformed: true },
];

#[derive(Clone)]
struct Op {
    args: &'static [&'static str],
    /// The names concerned, with what they are to ask for and what is then installed.
    names: &'static [(&'static str, Option<(&'static str, &'static str)>)],
    kind: usize,
    fails: bool,
}

const fn add(args: &'static [&'static str], kind: usize, names: &'static [(&'static str, Option<(&'static str, &'static str)>)]) -> Op {
    Op { args, names, kind, fails: false }
}
const fn rm(args: &'static [&'static str], names: &'static [(&'static str, Option<(&'static str, &'static str)>)]) -> Op {
    Op { args, names, kind: 9, fails: false }
}
const fn bad(args: &'static [&'static str]) -> Op {
    Op { args, names: &[], kind: 9, fails: true }
}

const OPS: &[Op] = &[
    add(&["add", "a"], 0, &[("a", Some(("^1.1.0", "a@1.1.0")))]),
    rm(&["remove", "a"], &[("a", None)]),
    add(&["add", "a@old"], 0, &[("a", Some(("^1.0.0", "a@1.0.0")))]),
    add(&["add", "--dev", "a@^1.0.0", "--prefix", "~"], 1, &[("a", Some(("~1.1.0", "a@1.1.0")))]),
    add(&["add", "-O", "a@1.0.0", "--prefix", ""], 2, &[("a", Some(("1.0.0", "a@1.0.0")))]),
    add(&["add", "a@next"], 0, &[("a", Some(("^2.0.0-rc.1", "a@2.0.0-rc.1")))]),
    rm(&["remove", "b", "z"], &[("b", None), ("z", None)]),
    add(&["add", "b"], 0, &[("b", Some(("^1.0.0", "b@1.0.0")))]),
    add(&["add", "-D", "b", "@s/c@1"], 1, &[("b", Some(("^1.0.0", "b@1.0.0"))), ("@s/c", Some(("^1.0.0", "@s/c@1.0.0")))]),
    rm(&["rm", "@s/c@1.0.0"], &[("@s/c", None)]),
    add(&["add", "x@npm:a@<1.1"], 0, &[("x", Some(("npm:a@^1.0.0", "a@1.0.0")))]),
    add(&["add", "--opt", "@s/x@npm:@s/c"], 2, &[("@s/x", Some(("npm:@s/c@^1.0.0", "@s/c@1.0.0")))]),
    rm(&["remove", "x"], &[("x", None)]),
    add(&["add", "d"], 0, &[("d", Some(("^2.0.0", "d@2.0.0")))]),
    add(&["add", "a@1.0.0", "a@1.1.0"], 0, &[("a", Some(("^1.1.0", "a@1.1.0")))]),
    add(&["add", "JSONx"], 0, &[("JSONx", Some(("^1.0.0", "JSONx@1.0.0")))]),
    rm(&["remove", "JSONx"], &[("JSONx", None)]),
    add(&["add", "--no-apply", "a"], 0, &[("a", Some(("^1.1.0", "")))]),
    add(&["add", "--lockfile-only", "-D", "y"], 1, &[("y", Some(("^1.0.0", "")))]),
    rm(&["remove", "--no-apply", "y"], &[("y", None)]),
    add(&["add", "--locked", "--hoisted", "z"], 0, &[("z", Some(("^1.0.0", "z@1.0.0")))]),
    rm(&["remove", "--locked", "d", "nope"], &[("d", None), ("nope", None)]),
    rm(&["remove", "nope"], &[("nope", None)]),
    bad(&["add", "nope"]),
    bad(&["add", "a", "a@9"]),
    bad(&["add", "needs-nope"]),
    bad(&["remove", "a", "./dir"]),
];

fn universe() -> Universe {
    let mut u = Universe::default();
    u.add("a", "1.0.0", Ver::default()).add("a", "1.1.0", Ver::default()).add("a", "2.0.0-rc.1", Ver::default());
    u.tag("a", "latest", "1.1.0").tag("a", "next", "2.0.0-rc.1").tag("a", "old", "1.0.0");
    u.add("b", "1.0.0", Ver::deps(&[("a", "^1.0.0")]).bin("b", "b.sh"));
    u.add("d", "2.0.0", Ver::deps(&[("a", "1.0.0"), ("y", "*")]));
    u.add("d", "1.0.0", Ver::default());
    u.add("needs-nope", "1.0.0", Ver::deps(&[("nope", "1")]));
    u.add("@s/c", "1.0.0", Ver::default().bin("c", "c.sh"));
    for n in ["t", "u", "v", "w", "y", "z", "JSONx"] {
        u.add(n, "1.0.0", Ver::default());
    }
    for (n, v) in [("b", "1.0.0"), ("d", "2.0.0"), ("needs-nope", "1.0.0"), ("@s/c", "1.0.0"), ("t", "1.0.0"), ("u", "1.0.0"), ("v", "1.0.0"), ("w", "1.0.0"), ("y", "1.0.0"), ("z", "1.0.0"), ("JSONx", "1.0.0")] {
        u.tag(n, "latest", v);
    }
    u
}

fn server() -> &'static Server {
    static S: OnceLock<Server> = OnceLock::new();
    S.get_or_init(|| universe().serve(true))
}

fn oro(dir: &Path, project: &Path, args: &[&str]) -> crate::cli::CliOut {
    let mut cli = Cli::new(&dir.join("home"), project);
    cli.timeout = Duration::from_secs(60);
    let mut a: Vec<&str> = args.to_vec();
    let reg = server().url();
    a.extend(["--registry", &reg]);
    cli.run(&a)
}

fn copy(from: &Path, to: &Path) {
    let _ = std::fs::remove_dir_all(to);
    let ok = std::process::Command::new("cp").arg("-a").arg(from).arg(to).status().map(|s| s.success()).unwrap_or(false);
    assert!(ok, "cp {}", from.display());
}

/// The sections without the names concerned, and everything else, in order.
fn rest(doc: &Value, names: &[&str], empty: bool) -> Vec<(String, String)> {
    let mut out = vec![];
    let Some(o) = doc.as_object() else { return vec![("".into(), doc.to_string())] };
    for (k, v) in o {
        match (KINDS.contains(&k.as_str()), v.as_object()) {
            (true, Some(deps)) => {
                let deps: Map<String, Value> = deps.iter().filter(|(n, _)| !names.contains(&n.as_str())).map(|(n, v)| (n.clone(), v.clone())).collect();
                // A section may appear, or be left empty.
                if !deps.is_empty() || !empty {
                    out.push((k.clone(), json!(deps).to_string()));
                }
            }
            (true, None) if v.is_null() && empty => {}
            _ => out.push((k.clone(), v.to_string())),
        }
    }
    out
}

/// One command, from a state to the state it leaves in `dir/p`.
fn one(base: &Base, from: &Path, op: &Op, dir: &Path) -> Result<bool, String> {
    let p = dir.join("p");
    let _ = std::fs::remove_dir_all(dir.join("home"));
    copy(from, &p);
    let read = |f: &str| std::fs::read_to_string(p.join(f)).unwrap_or_default();
    let (before, lock_before, tree_before) = (read("package.json"), read("package-lock.kdl"), snap::snap(&p.join("node_modules")));
    let o = oro(dir, &p, op.args);
    let cmd = format!("`oro {}` on {before:?}", op.args.join(" "));
    if o.code.is_none() || o.code == Some(101) || o.stderr.contains("panicked") {
        return Err(format!("{cmd} ends with {:?}: {}", o.code, o.stderr));
    }
    let (after, lock, tree) = (read("package.json"), read("package-lock.kdl"), snap::snap(&p.join("node_modules")));
    if o.code != Some(0) {
        if !op.fails && !base.malformed {
            return Err(format!("{cmd} fails: {}", o.stderr));
        }
        if after != before || lock != lock_before {
            return Err(format!("{cmd} fails, but {} is now {:?}", if after != before { "package.json" } else { "the lockfile" }, if after != before { after } else { lock }));
        }
        return Ok(false);
    }
    if op.fails {
        return Err(format!("{cmd} succeeds"));
    }
    let bdoc: Value = serde_json::from_str(&before).map_err(|e| e.to_string())?;
    let doc: Value = serde_json::from_str(&after).map_err(|e| format!("{cmd} leaves {after:?}: {e}"))?;
    let names: Vec<&str> = op.names.iter().map(|n| n.0).collect();
    let touched = after != before;
    if rest(&bdoc, &names, true) != rest(&doc, &names, true) {
        return Err(format!("{cmd} changes other things: {after:?}"));
    }
    let listed = |d: &Value, n: &str| -> Vec<(usize, Value)> { (0..KINDS.len()).filter_map(|k| d.get(KINDS[k]).and_then(|s| s.get(n)).map(|v| (k, v.clone()))).collect() };
    for (n, want) in op.names {
        let want: Vec<(usize, Value)> = want.iter().map(|(r, _)| (op.kind, json!(r))).collect();
        if listed(&doc, n) != want {
            return Err(format!("{cmd} lists {n} as {:?}, not {want:?}", listed(&doc, n).iter().map(|(k, v)| (KINDS[*k], v.clone())).collect::<Vec<_>>()));
        }
    }
    if op.kind == 9 && names.iter().all(|n| listed(&bdoc, n).is_empty()) && base.style.is_some() && touched {
        return Err(format!("{cmd} removes nothing, but leaves {after:?}"));
    }
    if let Some(st) = &base.style {
        let want = print(&doc, st);
        if after != want {
            return Err(format!("{cmd} leaves {after:?}, not laid out as {want:?}"));
        }
    }
    if op.args.contains(&"--no-apply") {
        if lock != lock_before || tree != tree_before {
            return Err(format!("{cmd} applies"));
        }
        return Ok(touched);
    }
    if base.malformed {
        return Ok(touched);
    }
    let lockfile_only = op.args.contains(&"--lockfile-only");
    if lockfile_only && tree != tree_before {
        return Err(format!("{cmd} changes node_modules: {:?}", snap::diff(&tree_before, &tree)));
    }
    for (n, want) in op.names {
        let Some((req, pkg)) = want else { continue };
        if pkg.is_empty() || lockfile_only {
            continue;
        }
        let v: Value = std::fs::read_to_string(p.join("node_modules").join(n).join("package.json")).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(Value::Null);
        // Any version the request written allows.
        let (name, _) = pkg.rsplit_once('@').unwrap();
        let range = if req.starts_with("npm:") { req.rsplit_once('@').unwrap().1 } else { req };
        let version = v["version"].as_str().unwrap_or("?");
        let ok = match (range.parse::<node_semver::Range>(), version.parse::<node_semver::Version>()) {
            (Ok(r), Ok(v)) => r.satisfies(&v),
            _ => false,
        };
        if v["name"] != json!(name) || !ok {
            return Err(format!("after {cmd}, {n} is {}@{version}, which isn't {req}", v["name"]));
        }
    }
    // The lockfile is the manifest's.
    let f = dir.join("fresh");
    let _ = std::fs::remove_dir_all(&f);
    std::fs::create_dir_all(&f).unwrap();
    for x in ["package.json", "package-lock.kdl"] {
        let _ = std::fs::copy(p.join(x), f.join(x));
    }
    let extra: &[&str] = if op.args.contains(&"--hoisted") { &["--hoisted"] } else { &[] };
    let fresh = oro(dir, &f, &[&["apply", "--locked"], extra].concat());
    if fresh.code != Some(0) {
        return Err(format!("after {cmd}, `oro apply --locked` fails: {}; the lockfile is {lock:?}", fresh.stderr));
    }
    let flock = std::fs::read_to_string(f.join("package-lock.kdl")).unwrap_or_default();
    if flock != lock {
        return Err(format!("after {cmd}, `oro apply --locked` rewrites the lockfile {lock:?} as {flock:?}"));
    }
    if !lockfile_only {
        let strip = |t: snap::Tree| -> snap::Tree { t.into_iter().filter(|(k, _)| !k.starts_with(".oro")).collect() };
        let ft = snap::snap(&f.join("node_modules"));
        // Links inside the store are relative: the same everywhere.
        if strip(ft.clone()) != strip(tree.clone()) {
            return Err(format!("after {cmd}, node_modules isn't what a fresh installation gives: {:?}", snap::diff(&strip(ft), &strip(tree))));
        }
    }
    Ok(touched)
}

fn state_key(p: &Path) -> String {
    let mut s = String::new();
    for f in ["package.json", "package-lock.kdl"] {
        s.push_str(&std::fs::read_to_string(p.join(f)).unwrap_or_default());
        s.push('\0');
    }
    let t = snap::snap(&p.join("node_modules"));
    s.push_str(&format!("{:?}", t.iter().map(|(k, v)| (k, snap::short(v))).collect::<Vec<_>>()));
    s
}

pub fn run(c: &Ctx) {
    let quick = !c.thorough;
    let states = c.scratch.join("states");
    std::fs::create_dir_all(&states).unwrap();
    let mut reached = 0u64;
    let mut per: BTreeMap<String, Value> = BTreeMap::new();
    for (b, base) in BASES.iter().enumerate() {
        let depth = match (quick, base.malformed) {
            (true, true) => 1,
            (true, false) if b == 3 => 1,
            (true, false) | (false, true) => 2,
            (false, false) => 3,
        };
        let start = states.join(format!("{b}-start"));
        std::fs::create_dir_all(&start).unwrap();
        let doc = (base.doc)();
        let text = base.style.as_ref().map(|s| print(&doc, s)).unwrap_or_else(|| format!("{doc}\n"));
        std::fs::write(start.join("package.json"), text).unwrap();
        let mut seen = HashSet::from([state_key(&start)]);
        let mut level: Vec<(PathBuf, Vec<usize>)> = vec![(start, vec![])];
        for d in 0..depth {
            let next: Mutex<Vec<(PathBuf, Vec<usize>)>> = Mutex::new(vec![]);
            let sn = Mutex::new(std::mem::take(&mut seen));
            let cases = level.iter().flat_map(|s| (0..OPS.len()).map(move |o| (s, o)));
            c.par(
                8,
                cases,
                |((_, path), o)| json!({ "manifest": (base.doc)(), "commands": path.iter().chain([o]).map(|o| OPS[*o].args.join(" ")).collect::<Vec<_>>() }),
                |((from, path), o), dir| {
                    std::fs::create_dir_all(dir).unwrap();
                    let full: Vec<usize> = path.iter().chain([o]).copied().collect();
                    let key = || format!("{b}: {}", full.iter().map(|o| OPS[*o].args.join(" ")).collect::<Vec<_>>().join("; "));
                    let r = one(base, from, &OPS[*o], dir).map_err(|e| {
                        let before = if path.is_empty() { String::new() } else { format!("after {}: ", path.iter().map(|o| format!("`oro {}`", OPS[*o].args.join(" "))).collect::<Vec<_>>().join(", ")) };
                        Viol::new(key(), format!("{before}{e}"))
                    })?;
                    if d + 1 < depth {
                        let p = dir.join("p");
                        if sn.lock().unwrap().insert(state_key(&p)) {
                            let to = states.join(format!("{b}-{}", full.iter().map(|o| o.to_string()).collect::<Vec<_>>().join("-")));
                            copy(&p, &to);
                            next.lock().unwrap().push((to, full));
                        }
                    }
                    Ok(r)
                },
            );
            seen = sn.into_inner().unwrap();
            let mut n = next.into_inner().unwrap();
            n.sort();
            reached += n.len() as u64;
            for (p, _) in &level {
                let _ = std::fs::remove_dir_all(p);
            }
            level = n;
        }
        per.insert(b.to_string(), json!({"depth": depth, "states": seen.len()}));
    }
    c.cov("commands", OPS.len() as u64);
    c.cov("manifests", json!(per));
    c.cov("states_continued_from", reached);
}
