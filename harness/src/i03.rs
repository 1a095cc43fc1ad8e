//! I03: every crash point of an apply.
use crate::cli::Cli;
use crate::http::Server;
use crate::report::*;
use crate::snap::{diff, snap, Tree};
use crate::trace::{self, Crash};
use crate::uni::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "I03",
        thorough,
        "fault_enumeration",
        "Every crash point of real `oro` commands: the command runs under ptrace, every system call that changes the filesystem is counted, and for every k the command is killed (with its scripts) right after the k-th change, also with the k-th write only half done. Then the same command runs again and must succeed, and node_modules, package.json and the lockfile must be what the command leaves without interruption. Scenarios: first installation with a cold and a warm cache, updates that add, replace, nest and remove packages under a lockfile that holds older versions than the registry's newest, switches of linker, reapply, add and remove; each with both linkers and install scripts. Thorough adds a second crash at every change of the run that follows a crash, and crash points with the default concurrency. Non-trivial: the command was killed before it ended.",
    )
}

pub fn old() -> Universe {
    let mut u = Universe::default();
    let mark = "echo run >> built; mkdir -p out; echo done > out/done";
    u.add("a", "1.0.0", Ver::deps(&[("b", "^1.0.0")]).bin("a", "a.js").script("postinstall", mark));
    u.add("a", "2.0.0", Ver::deps(&[("b", "^2.0.0"), ("d", "*")]).bin("a", "bin/a.js").script("install", mark));
    u.add("b", "1.0.0", Ver::default().bin("b", "b.js").file("lib/one.js", "1\n"));
    u.add("b", "2.0.0", Ver::default().bin("b", "b.js").script("preinstall", mark).file("lib/two.js", "2\n"));
    u.add("c", "1.0.0", Ver::deps(&[("b", "^1.0.0")]));
    u.add("d", "1.0.0", Ver::default());
    u.add("@s/x", "1.0.0", Ver::deps(&[("d", "*")]).bin("x", "x.js"));
    for (p, v) in [("a", "2.0.0"), ("b", "2.0.0"), ("c", "1.0.0"), ("d", "1.0.0"), ("@s/x", "1.0.0")] {
        u.tag(p, "latest", v);
    }
    u
}

/// What the registry has when the command that crashes runs.
pub fn new() -> Universe {
    let mut u = old();
    u.add("b", "1.1.0", Ver::default().file("lib/newer.js", "1.1\n"));
    u.add("d", "1.1.0", Ver::default().file("newer.js", "1.1\n"));
    u.tag("d", "latest", "1.1.0");
    u
}

#[derive(Clone, Debug)]
pub struct Scenario {
    pub name: &'static str,
    /// Manifest and arguments of the apply that comes before.
    pub before: Option<(Value, bool)>,
    pub manifest: Value,
    pub args: Vec<&'static str>,
    pub hoisted: bool,
    pub cache: bool,
    pub drop_modules: bool,
}

pub fn man(deps: &[(&str, &str)]) -> Value {
    json!({"name": "proj", "version": "1.0.0", "dependencies": sm(deps)})
}

pub fn scenarios(thorough: bool) -> Vec<Scenario> {
    let m1 = man(&[("a", "^1.0.0"), ("c", "*"), ("d", "*")]);
    let m2 = man(&[("a", "^2.0.0"), ("c", "*"), ("@s/x", "*")]);
    let mut v = vec![];
    for hoisted in [true, false] {
        let s = |name, before, manifest: &Value, args: &[&'static str]| Scenario { name, before, manifest: manifest.clone(), args: args.to_vec(), hoisted, cache: false, drop_modules: false };
        v.push(s("first installation", None, &m2, &["apply"]));
        v.push(s("update", Some((m1.clone(), hoisted)), &m2, &["apply"]));
        v.push(Scenario { cache: true, ..s("update", Some((m1.clone(), hoisted)), &m2, &["apply"]) });
        v.push(Scenario { cache: true, drop_modules: true, ..s("installation with lockfile and cache", Some((m1.clone(), hoisted)), &m1, &["apply"]) });
        v.push(s("linker switch", Some((m1.clone(), !hoisted)), &m1, &["apply"]));
        v.push(s("add", Some((m1.clone(), hoisted)), &m1, &["add", "@s/x@^1.0.0"]));
        v.push(s("remove", Some((m1.clone(), hoisted)), &m1, &["remove", "a"]));
        v.push(s("reapply", Some((m1.clone(), hoisted)), &m1, &["reapply"]));
    }
    if !thorough {
        // One linker is enough for what comes before and after linking.
        v.retain(|s| match s.name {
            "update" => s.hoisted != s.cache,
            "add" | "installation with lockfile and cache" => s.hoisted,
            "remove" | "reapply" => !s.hoisted,
            _ => true,
        });
    }
    v
}

pub struct World {
    pub reg: Arc<Mutex<Universe>>,
    pub server: Server,
}

pub fn cli(dir: &Path) -> Cli {
    let mut c = Cli::new(&dir.join("home"), &dir.join("proj"));
    c.timeout = Duration::from_secs(60);
    c
}

pub fn args(w: &World, s: &Scenario, dir: &Path, hoisted: bool, one: bool) -> Vec<String> {
    let mut a = vec!["--registry".into(), w.server.url(), "--retries".into(), "0".into()];
    a.push("--cache".into());
    a.push(dir.join("home/cache").to_string_lossy().into_owned());
    if hoisted {
        a.push("--hoisted".into());
    }
    if one {
        a.extend(["--concurrency".into(), "1".into(), "--script-concurrency".into(), "1".into()]);
    }
    let _ = s;
    a
}

pub fn command(w: &World, s: &Scenario, dir: &Path, one: bool) -> Command {
    let a: Vec<String> = s.args.iter().map(|x| x.to_string()).chain(args(w, s, dir, s.hoisted, one)).collect();
    let mut c = cli(dir).command(&a.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    c.stdout(Stdio::null()).stderr(Stdio::null());
    c
}

pub fn wipe(dir: &Path) {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
}

/// The state before the command, made once.
pub fn prepare(w: &World, s: &Scenario, dir: &Path) -> Result<(), String> {
    wipe(dir);
    let c = cli(dir);
    std::fs::create_dir_all(dir.join("home/cache")).unwrap();
    if let Some((m, hoisted)) = &s.before {
        *w.reg.lock().unwrap() = if s.cache { new() } else { old() };
        std::fs::write(dir.join("proj/package.json"), serde_json::to_string_pretty(m).unwrap() + "\n").unwrap();
        let a: Vec<String> = ["apply".to_string()].into_iter().chain(args(w, s, dir, *hoisted, false)).collect();
        let o = c.run(&a.iter().map(|x| x.as_str()).collect::<Vec<_>>());
        *w.reg.lock().unwrap() = new();
        if o.code != Some(0) {
            return Err(format!("{}: the apply before fails: {}", s.name, o.stderr));
        }
        if !s.cache {
            wipe(&dir.join("home/cache"));
        }
        if s.drop_modules {
            let _ = std::fs::remove_dir_all(dir.join("proj/node_modules"));
        }
    }
    std::fs::write(dir.join("proj/package.json"), serde_json::to_string_pretty(&s.manifest).unwrap() + "\n").unwrap();
    Ok(())
}

pub fn restore(from: &Path, to: &Path) -> Result<(), String> {
    let _ = std::fs::remove_dir_all(to);
    let o = Command::new("/bin/cp").arg("-a").arg(from).arg(to).status().map_err(|e| e.to_string())?;
    if o.success() { Ok(()) } else { Err("cp failed".into()) }
}

pub fn result(dir: &Path) -> Tree {
    snap(&dir.join("proj"))
}

struct Base {
    s: Scenario,
    dir: PathBuf,
    want: Tree,
    ops: Vec<&'static str>,
}

#[derive(Clone, Debug)]
struct Case {
    base: usize,
    crash: Crash,
    second: Option<usize>,
    one: bool,
}

pub const LIMIT: Duration = Duration::from_secs(60);

fn one(w: &World, bases: &[Base], c: &Case, dir: &Path) -> Out {
    let b = &bases[c.base];
    let d = dir.join("x");
    restore(&b.dir, &d)?;
    let t = trace::run(command(w, &b.s, &d, c.one), &d, Some(c.crash), LIMIT).map_err(|e| format!("trace: {e}"))?;
    let key = || format!("{} {}{} crash {}", b.s.name, if b.s.hoisted { "hoisted" } else { "isolated" }, if b.s.cache { " cached" } else { "" }, t.ops.len());
    if t.timed_out {
        return Err(Viol::new(key(), "the command doesn't end"));
    }
    let mut killed = t.killed;
    let at = |t: &trace::Traced| format!("killed after {} ({} changes)", t.ops.iter().rev().take(3).rev().cloned().collect::<Vec<_>>().join(", "), t.ops.len());
    let mut how = at(&t);
    if let Some(k) = c.second {
        let t2 = trace::run(command(w, &b.s, &d, c.one), &d, Some(Crash { after: k, torn: false }), LIMIT).map_err(|e| format!("trace: {e}"))?;
        killed &= t2.killed;
        how += &format!(", then {}", at(&t2));
    }
    let mut again = command(w, &b.s, &d, c.one);
    again.stdout(Stdio::piped()).stderr(Stdio::piped());
    let o = crate::cli::run(again, LIMIT);
    if o.code != Some(0) {
        return Err(Viol::new(key(), format!("{how}: running again fails ({:?}): {}", o.code, o.stderr.lines().filter(|l| l.contains('×') || l.contains("rror")).collect::<Vec<_>>().join(" / "))));
    }
    let df = diff(&b.want, &result(&d));
    if !df.is_empty() {
        return Err(Viol::new(key(), format!("{how}: {df:?}")));
    }
    Ok(killed)
}

pub fn run(ctx: &Ctx) {
    let reg = Arc::new(Mutex::new(new()));
    let server = serve_cell(reg.clone(), true);
    let w = World { reg, server };
    let mut bases = vec![];
    for (i, s) in scenarios(ctx.thorough).into_iter().enumerate() {
        let dir = ctx.scratch.join(format!("base{i}"));
        let r = prepare(&w, &s, &dir).and_then(|_| {
            // Without interruption: twice traced (to see that the order of changes repeats), once not.
            let d = ctx.scratch.join("x");
            restore(&dir, &d)?;
            let t = trace::run(command(&w, &s, &d, true), &d, None, LIMIT).map_err(|e| format!("trace: {e}"))?;
            if t.code != Some(0) {
                return Err(format!("{}: the command fails without interruption: {:?}", s.name, t.code));
            }
            let want = result(&d);
            restore(&dir, &d)?;
            let t2 = trace::run(command(&w, &s, &d, true), &d, None, LIMIT).map_err(|e| format!("trace: {e}"))?;
            let df = diff(&want, &result(&d));
            if !df.is_empty() {
                return Err(format!("{}: two runs without interruption differ: {df:?}", s.name));
            }
            Ok((t, t2, want))
        });
        match r {
            Ok((t, t2, want)) => {
                ctx.addcov("changes in uninterrupted runs", t.ops.len() as u64);
                ctx.addcov("scenarios", 1);
                ctx.addcov("scenarios whose changes come in the same order every time", (t.ops == t2.ops) as u64);
                bases.push(Base { s, dir, want, ops: t.ops });
            }
            Err(e) => return ctx.error(e),
        }
    }
    let mut cases = vec![];
    for (i, b) in bases.iter().enumerate() {
        for k in 0..b.ops.len() {
            cases.push(Case { base: i, crash: Crash { after: k, torn: false }, second: None, one: true });
            let last = if k > 0 { b.ops[k - 1] } else { "" };
            // Half-written files of packages and of the cache are left to the thorough run (and T04).
            if last == "write in the project" || (last == "write" && ctx.thorough) {
                cases.push(Case { base: i, crash: Crash { after: k, torn: true }, second: None, one: true });
            }
            if ctx.thorough {
                cases.push(Case { base: i, crash: Crash { after: k, torn: false }, second: None, one: false });
            }
        }
    }
    if ctx.thorough {
        for (i, b) in bases.iter().enumerate() {
            for k in 1..b.ops.len() {
                for l in 1..b.ops.len() {
                    cases.push(Case { base: i, crash: Crash { after: k, torn: false }, second: Some(l), one: true });
                }
            }
        }
    }
    ctx.cov("crash points", cases.len() as u64);
    let show = |c: &Case| json!({"scenario": bases[c.base].s.name, "hoisted": bases[c.base].s.hoisted, "cache": bases[c.base].s.cache, "after": c.crash.after, "torn": c.crash.torn, "second": c.second, "one at a time": c.one});
    ctx.par(cores(), cases.into_iter(), show, |c, d| {
        std::fs::create_dir_all(d).unwrap();
        one(&w, &bases, c, d)
    });
}
