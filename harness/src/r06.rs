//! R06: packages from git repositories and directories.
use crate::cli::Cli;
use crate::report::*;
use nassun::{Nassun, NassunOpts};
use node_semver::{Range, Version};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Duration;

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "R06",
        thorough,
        "exploration",
        "Every set of tags of an alphabet (with and without v, annotated, with directories in their names, prereleases, not versions at all) on a repository with several branches, asked for by every request of an alphabet (nothing, branches, tags, full and short commits, version ranges, what doesn't exist, what git could take for an option or a file), through the resolver and real git: the package is that of the commit git's own plumbing names for the request, or it is refused. Every directory of an alphabet (with and without name and version, malformed, missing, links), by every spelling of its path. And real `oro apply` of manifests with such dependencies: resolved as above and written to a lockfile that stays as it is; installed as they are or refused, without crashing. Non-trivial: something other than the default is asked for.",
    )
}

// ---- Repositories.

const TAGS: &[(&str, usize, bool)] = &[
    // Name, commit, annotated.
    ("1.0.0", 1, false),
    ("v1.1.0", 2, false),
    ("pkg/1.5.0", 3, false),
    ("v2.0.0-rc.1", 4, false),
    ("v2.0.0", 5, true),
    ("nightly", 4, false),
    ("1.2", 2, false),
    ("v1.0.1+x", 3, true),
];
const BRANCHES: &[(&str, usize)] = &[("main", 6), ("dev", 2), ("feature/x", 5), ("1.x", 3), ("v9.9.9", 1), ("1.4.0", 1)];
const COMMITS: usize = 7;

fn git(dir: &Path, args: &[&str], input: Option<&str>) -> Option<String> {
    let mut c = Command::new("git");
    c.args(args).current_dir(dir).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    let mut ch = c.spawn().expect("git");
    {
        use std::io::Write;
        let mut i = ch.stdin.take().unwrap();
        if let Some(t) = input {
            let _ = i.write_all(t.as_bytes());
        }
    }
    let o = ch.wait_with_output().expect("git");
    o.status.success().then(|| String::from_utf8_lossy(&o.stdout).trim().to_string())
}

fn version_of(commit: usize) -> String {
    format!("0.{commit}.0")
}

fn make(dir: &Path, tags: &[usize]) -> Vec<String> {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    git(dir, &["init", "-q", "--initial-branch", "main", "."], None).expect("init");
    let mut s = String::new();
    let who = "x <x@example.com> 1600000000 +0000";
    for i in 0..COMMITS {
        let p = json!({"name": "gp", "version": version_of(i), "description": format!("commit {i}"), "dependencies": {"dep": format!("{i}")}}).to_string();
        s.push_str(&format!("commit refs/heads/main\nmark :{}\nauthor {who}\ncommitter {who}\ndata 2\nm{i}\n", i + 1));
        if i > 0 {
            s.push_str(&format!("from :{i}\n"));
        }
        s.push_str(&format!("M 100644 inline package.json\ndata {}\n{p}\nM 100644 inline f{i}\ndata 1\nx\n\n", p.len()));
    }
    for (b, c) in BRANCHES.iter().skip(1) {
        s.push_str(&format!("reset refs/heads/{b}\nfrom :{}\n\n", c + 1));
    }
    for t in tags {
        let (n, c, ann) = TAGS[*t];
        if ann {
            s.push_str(&format!("tag {n}\nfrom :{}\ntagger {who}\ndata 1\nt\n", c + 1));
        } else {
            s.push_str(&format!("reset refs/tags/{n}\nfrom :{}\n\n", c + 1));
        }
    }
    git(dir, &["fast-import", "--quiet"], Some(&s)).expect("fast-import");
    (0..COMMITS).map(|i| git(dir, &["rev-parse", &format!("main~{}", COMMITS - 1 - i)], None).expect("rev-parse")).collect()
}

/// Acceptable commits for a request; none: it has to be refused.
fn want(req: &str, tags: &[usize], shas: &[String]) -> Vec<usize> {
    if req.is_empty() {
        return vec![COMMITS - 1];
    }
    if let Some(r) = req.strip_prefix("semver:") {
        let range = Range::parse(r).unwrap();
        let mut vs: Vec<(Version, usize)> = tags
            .iter()
            .filter_map(|t| {
                let v = Version::parse(TAGS[*t].0.rsplit('/').next().unwrap()).ok()?;
                range.satisfies(&v).then_some((v, TAGS[*t].1))
            })
            .collect();
        vs.sort();
        let Some(max) = vs.last().map(|v| v.0.clone()) else { return vec![] };
        return vs.into_iter().filter(|(v, _)| v.to_string().split('+').next() == max.to_string().split('+').next()).map(|v| v.1).collect();
    }
    if let Some((_, c)) = BRANCHES.iter().find(|b| b.0 == req) {
        return vec![*c];
    }
    if let Some(t) = tags.iter().find(|t| TAGS[**t].0 == req) {
        return vec![TAGS[*t].1];
    }
    if req.len() >= 7 {
        return shas.iter().position(|s| s.starts_with(req)).into_iter().collect();
    }
    vec![]
}

fn requests(shas: &[String]) -> Vec<String> {
    let mut v: Vec<String> = vec!["".into()];
    v.extend(BRANCHES.iter().map(|b| b.0.to_string()));
    v.extend(TAGS.iter().filter(|t| !t.0.contains('+')).map(|t| t.0.to_string()));
    v.push(shas[2].clone());
    v.push(shas[4][..10].into());
    v.push("0123456789012345678901234567890123456789".into());
    v.extend(["nope", "package.json", "f0", "-bfoo", "--detach", "-f", "--orphan=y", "dev~", "."].iter().filter(|r| **r != "dev~").map(|s| s.to_string()));
    for r in ["*", "^1", "1.0.0", "1.1.x", "<1", "^2.0.0-0", ">=2.0.0-rc.0 <2.0.0", "^9", "1.5.0", ">1.0.0 <1.5.0", "1.2.0", "1.4.0"] {
        v.push(format!("semver:{r}"));
    }
    v
}

fn nassun(base: &Path) -> Nassun {
    NassunOpts::new().base_dir(base).registry("http://127.0.0.1:1/".parse().unwrap()).build()
}

fn resolve(n: &Nassun, spec: &str) -> Result<(String, Value, Value), String> {
    async_std::task::block_on(async {
        let p = n.resolve(spec).await.map_err(|e| format!("{e}"))?;
        let m = p.metadata().await.map_err(|e| format!("metadata: {e}"))?;
        let c = p.corgi_metadata().await.map_err(|e| format!("corgi metadata: {e}"))?;
        Ok((p.name().to_string(), serde_json::to_value(&m.manifest).unwrap(), serde_json::to_value(&c.manifest).unwrap()))
    })
}

fn repos(c: &Ctx) {
    let root = c.scratch.join("git");
    let sets: Vec<Vec<usize>> = (0..1usize << TAGS.len())
        .map(|m| (0..TAGS.len()).filter(|i| m >> i & 1 == 1).collect::<Vec<_>>())
        // Quick: up to three tags, or all of them.
        .filter(|s| c.thorough || s.len() <= 2 || s.len() == TAGS.len())
        .collect();
    c.cov("sets_of_tags", sets.len() as u64);
    // The commits are the same in every repository.
    let shas = make(&root.join("0"), &[]);
    let reqs = requests(&shas);
    c.cov("requests", reqs.len() as u64);
    let cases = sets.iter().flat_map(|s| {
        reqs.iter().enumerate().filter(move |(_, r)| {
            // Requests not about tags needn't be repeated for each set.
            r.starts_with("semver:") && !s.is_empty() || s.is_empty() || s.len() == TAGS.len() || s.iter().any(|t| TAGS[*t].0 == r.as_str())
        }).flat_map(move |(i, r)| {
            let aliased = i % 7 == 3;
            (0..if aliased { 2 } else { 1 }).map(move |a| (s, r, a == 1))
        })
    });
    c.par(
        8,
        cases,
        |(s, r, a)| json!({ "tags": s.iter().map(|t| TAGS[*t].0).collect::<Vec<_>>(), "request": r, "alias": a }),
        |(s, r, aliased), dir| {
            let id = format!("git {:?} {r} {aliased}", s.iter().map(|t| TAGS[*t].0).collect::<Vec<_>>());
            let repo = dir.join(format!("repo-{}", s.iter().map(|t| t.to_string()).collect::<String>()));
            if !repo.exists() {
                // One at a time is enough.
                let _ = std::fs::remove_dir_all(dir);
                make(&repo, s);
            }
            let url = format!("git+file://{}", repo.display());
            let mut spec = if r.is_empty() { url } else { format!("{url}#{r}") };
            if *aliased {
                spec = format!("al@{spec}");
            }
            let want = want(r, s, &shas);
            let got = resolve(&nassun(dir), &spec);
            match (&got, want.is_empty()) {
                (Err(_), true) => {}
                (Err(e), false) => return Err(Viol::new(id, format!("{spec} with tags {:?} is refused: {e}", s.iter().map(|t| TAGS[*t].0).collect::<Vec<_>>()))),
                (Ok((_, m, _)), true) => return Err(Viol::new(id, format!("{spec} doesn't exist with tags {:?}, but is {}", s.iter().map(|t| TAGS[*t].0).collect::<Vec<_>>(), m["description"]))),
                (Ok((name, m, k)), false) => {
                    let ok = want.iter().any(|w| {
                        m["version"] == json!(version_of(*w)) && m["description"] == json!(format!("commit {w}")) && k["version"] == m["version"] && k["dependencies"] == json!({"dep": w.to_string()})
                    });
                    if !ok || name != if *aliased { "al" } else { "gp" } {
                        return Err(Viol::new(id, format!("{spec} with tags {:?} is {name}, {}, not commit {want:?}", s.iter().map(|t| TAGS[*t].0).collect::<Vec<_>>(), m["description"])));
                    }
                }
            }
            Ok(!r.is_empty())
        },
    );
}

// ---- Directories.

/// Name, package.json, the package's name and version (none: not a package).
const DIRS: &[(&str, Option<&str>, Option<(&str, &str)>)] = &[
    ("full", Some("{\"name\":\"n\",\"version\":\"1.2.3\"}"), Some(("n", "1.2.3"))),
    ("scoped", Some("{\"name\":\"@s/n\",\"version\":\"1.2.3-x.1\"}"), Some(("@s/n", "1.2.3-x.1"))),
    ("unnamed", Some("{\"version\":\"1.2.3\"}"), Some(("unnamed", "1.2.3"))),
    ("unversioned", Some("{\"name\":\"n\"}"), Some(("n", "0.0.0"))),
    ("empty", Some("{}"), Some(("empty", "0.0.0"))),
    ("sp ace", Some("{\"name\":\"n\"}"), Some(("n", "0.0.0"))),
    ("n.a@1", Some("{\"name\":\"n\"}"), Some(("n", "0.0.0"))),
    ("none", None, None),
    ("broken", Some("{"), None),
    ("nothing", Some(""), None),
    ("number", Some("{\"name\":1}"), None),
    ("badversion", Some("{\"name\":\"n\",\"version\":\"x\"}"), None),
];

fn dirs(c: &Ctx) {
    let spellings = ["./D", "D/", "file:./D", "file:D", "/ABS", "file:/ABS", "../base/D", "./in/../D", "./link-D", "al@./D", "al@file:D", "@a/l@../base/D", "./D/."];
    let cases = DIRS.iter().flat_map(|d| spellings.iter().map(move |s| (d, *s)));
    c.par(
        8,
        cases,
        |(d, s)| json!({ "directory": d.0, "package.json": d.1, "spelling": s }),
        |((name, pj, want), s), dir| {
            let base = dir.join("base");
            let _ = std::fs::remove_dir_all(dir);
            std::fs::create_dir_all(base.join("in")).unwrap();
            std::fs::create_dir_all(base.join(name)).unwrap();
            if let Some(t) = pj {
                std::fs::write(base.join(name).join("package.json"), t).unwrap();
            }
            std::os::unix::fs::symlink(name, base.join(format!("link-{name}"))).unwrap();
            let spec = s.replace("/ABS", base.join(name).to_str().unwrap()).replace('D', name);
            let id = format!("dir {name} {s}");
            let Ok(parsed) = spec.parse::<oro_package_spec::PackageSpec>() else {
                // What's a path is S01's to say.
                return Ok(false);
            };
            if !matches!(parsed.target(), oro_package_spec::PackageSpec::Dir { .. }) {
                return Ok(false);
            }
            let got = resolve(&nassun(&base), &spec);
            match (&got, want) {
                (Err(_), None) => {}
                (Err(e), Some(_)) => return Err(Viol::new(id, format!("{spec} with {pj:?} is refused: {e}"))),
                (Ok(g), None) => return Err(Viol::new(id, format!("{spec} with {pj:?} is taken for {}", g.0))),
                (Ok((n, m, k)), Some((wn, wv))) => {
                    // A link's name is the link's or its target's.
                    let names: Vec<String> = if spec.starts_with("al@") {
                        vec!["al".into()]
                    } else if spec.starts_with("@a/l@") {
                        vec!["@a/l".into()]
                    } else if s.contains("link") && wn == name {
                        vec![wn.to_string(), format!("link-{wn}")]
                    } else {
                        vec![wn.to_string()]
                    };
                    if !names.contains(n) || m["version"] != json!(wv) || k["version"] != json!(wv) {
                        return Err(Viol::new(id, format!("{spec} with {pj:?} is {n}@{} (or {}), not {names:?}@{wv}", m["version"], k["version"])));
                    }
                }
            }
            Ok(true)
        },
    );
}

// ---- Commands.

struct Case {
    deps: Vec<(&'static str, &'static str)>,
    /// Run in the project, in a directory of it, or elsewhere with --root.
    from: usize,
    lockfile_only: bool,
    /// Comes with a package-lock.json from npm.
    npm_lock: bool,
}

/// What a dependency of the project is: name of the package and its version.
fn fact(spec: &str) -> Option<(&'static str, &'static str)> {
    Some(match spec {
        "git+file://REPO" => ("gp", "0.6.0"),
        "git+file://REPO#dev" => ("gp", "0.2.0"),
        "git+file://REPO#semver:^1" => ("gp", "0.3.0"),
        "./full" | "file:full" | "file:./full" | "/ABS/full" => ("n", "1.2.3"),
        "./unnamed" => ("unnamed", "1.2.3"),
        _ => return None,
    })
}

fn commands(c: &Ctx) {
    let specs = ["git+file://REPO", "git+file://REPO#dev", "git+file://REPO#semver:^1", "./full", "file:./full", "/ABS/full", "./unnamed", "git+file://REPO#nope", "./none", "./missing", "./broken"];
    let names = ["gp", "other"];
    let mut cases = vec![];
    for from in 0..3 {
        for lockfile_only in [true, false] {
            for (i, s) in specs.iter().enumerate() {
                for n in names {
                    for npm_lock in [false, true] {
                        cases.push(Case { deps: vec![(n, s)], from, lockfile_only, npm_lock });
                    }
                }
                for t in &specs[i..] {
                    if from == 0 || c.thorough {
                        cases.push(Case { deps: vec![("one", s), ("two", t)], from, lockfile_only, npm_lock: false });
                    }
                }
            }
        }
    }
    c.par(
        8,
        cases.iter(),
        |x| json!({ "dependencies": x.deps, "from": x.from, "lockfile_only": x.lockfile_only, "package-lock.json": x.npm_lock }),
        |x, dir| {
            let _ = std::fs::remove_dir_all(dir);
            let p = dir.join("p");
            std::fs::create_dir_all(p.join("in/side")).unwrap();
            std::fs::create_dir_all(dir.join("else")).unwrap();
            let repo = dir.join("repo");
            make(&repo, &[0, 1, 2]);
            // Nothing to be fetched from a registry.
            let head = git(&repo, &["rev-parse", "main"], None).unwrap();
            for (n, pj, _) in DIRS {
                std::fs::create_dir_all(p.join(n)).unwrap();
                if let Some(t) = pj {
                    std::fs::write(p.join(n).join("package.json"), t).unwrap();
                }
            }
            let fill = |s: &str| s.replace("REPO", repo.to_str().unwrap()).replace("/ABS", p.to_str().unwrap());
            let deps: BTreeMap<&str, String> = x.deps.iter().map(|(n, s)| (*n, fill(s))).collect();
            std::fs::write(p.join("package.json"), json!({"name": "proj", "optionalDependencies": {}, "dependencies": deps}).to_string()).unwrap();
            let id = format!("apply {:?} {} {} {}", x.deps, x.from, x.lockfile_only, x.npm_lock);
            if x.npm_lock {
                let mut pkgs = json!({ "": { "name": "proj", "dependencies": deps } });
                for (n, s) in &x.deps {
                    if s.starts_with("git") {
                        pkgs[format!("node_modules/{n}")] = json!({ "version": fact(s).map(|f| f.1).unwrap_or("1.0.0"), "resolved": format!("{}#{head}", fill(s).split('#').next().unwrap()) });
                    } else {
                        let d = s.trim_start_matches("file:").rsplit('/').next().unwrap();
                        pkgs[format!("node_modules/{n}")] = json!({ "resolved": d, "link": true });
                        pkgs[d] = json!({ "version": "1.2.3" });
                    }
                }
                std::fs::write(p.join("package-lock.json"), json!({ "name": "proj", "lockfileVersion": 3, "requires": true, "packages": pkgs }).to_string()).unwrap();
            }
            let home = dir.join("home");
            let tmp = dir.join("tmp");
            std::fs::create_dir_all(&tmp).unwrap();
            let (cwd, mut args) = match x.from {
                0 => (p.clone(), vec![]),
                1 => (p.join("in/side"), vec![]),
                _ => (dir.join("else"), vec!["--root".to_string(), p.display().to_string()]),
            };
            let server = crate::r06::registry();
            args.extend(["--registry".to_string(), server]);
            let mut cli = Cli::new(&home, &cwd);
            cli.timeout = Duration::from_secs(60);
            cli.env.push(("TMPDIR".into(), tmp.display().to_string()));
            let go = |extra: &[&str]| {
                let mut a = vec!["apply"];
                a.extend(args.iter().map(|s| s.as_str()));
                a.extend(extra);
                cli.run(&a)
            };
            let extra: &[&str] = if x.lockfile_only { &["--lockfile-only"] } else { &[] };
            let o = go(extra);
            let crash = |o: &crate::cli::CliOut| o.code.is_none() || o.code == Some(101) || o.stderr.contains("panicked");
            if crash(&o) {
                return Err(Viol::new(id, format!("applying {deps:?} ends with {:?}: {}", o.code, o.stderr)));
            }
            let left: Vec<PathBuf> = std::fs::read_dir(&tmp).unwrap().flatten().map(|e| e.path()).collect();
            // Failing ends the process while others are still at work.
            if o.code == Some(0) && !left.is_empty() {
                return Err(Viol::new(id, format!("applying {deps:?} leaves {left:?}")));
            }
            let bad = x.deps.iter().any(|(_, s)| fact(s).is_none());
            if o.code == Some(0) && bad {
                return Err(Viol::new(id, format!("applying {deps:?} succeeds")));
            }
            let lock = std::fs::read_to_string(p.join("package-lock.kdl")).unwrap_or_default();
            if x.lockfile_only && !bad {
                if o.code != Some(0) {
                    return Err(Viol::new(id, format!("applying {deps:?} fails: {}", o.stderr)));
                }
                if x.deps.iter().any(|(n, _)| !lock.contains(&format!("pkg \"{n}\"")) && !lock.contains(&format!("pkg {n}"))) {
                    return Err(Viol::new(id, format!("applying {deps:?} writes the lockfile {lock:?}")));
                }
                // Again, and with nothing but the lockfile to go by.
                for again in [&["--lockfile-only"][..], &["--lockfile-only", "--locked"]] {
                    let o = go(again);
                    let now = std::fs::read_to_string(p.join("package-lock.kdl")).unwrap_or_default();
                    if o.code != Some(0) || now != lock {
                        return Err(Viol::new(id, format!("applying {deps:?} again with {again:?} ends with {:?} and makes {lock:?} into {now:?}: {}", o.code, o.stderr)));
                    }
                }
            }
            if !x.lockfile_only && o.code == Some(0) {
                for (n, s) in &x.deps {
                    let (name, version) = fact(s).unwrap();
                    let v: Value = std::fs::read_to_string(p.join("node_modules").join(n).join("package.json")).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(Value::Null);
                    if v["version"] != json!(version) || v.get("name").map_or(false, |x| x != name) {
                        return Err(Viol::new(id, format!("applying {deps:?} succeeds, but {n} is {v}")));
                    }
                }
            }
            Ok(true)
        },
    );
}

/// A registry with the repository's dependency.
fn registry() -> String {
    use crate::uni::*;
    static S: std::sync::OnceLock<crate::http::Server> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut u = Universe::default();
        for i in 0..COMMITS {
            u.add("dep", &format!("{i}.0.0"), Ver::default());
        }
        u.tag("dep", "latest", "6.0.0");
        u.serve(true)
    })
    .url()
}

pub fn run(c: &Ctx) {
    let tmp = c.scratch.join("tmp");
    std::fs::create_dir_all(&tmp).unwrap();
    std::env::set_var("TMPDIR", &tmp);
    std::env::set_var("GIT_CONFIG_GLOBAL", "/dev/null");
    std::env::set_var("GIT_CONFIG_SYSTEM", "/dev/null");
    dirs(c);
    repos(c);
    let left: Vec<PathBuf> = std::fs::read_dir(&tmp).unwrap().flatten().map(|e| e.path()).collect();
    if !left.is_empty() {
        c.done(&json!({ "temporary files": left.len() }), Err(Viol::new("left", format!("resolving leaves {} temporary directories, such as {:?}", left.len(), left[0]))));
    }
    commands(c);
}
