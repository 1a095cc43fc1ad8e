//! S02: where options come from.
use crate::cli::{Cli, CliOut};
use crate::http::{Req, Resp, Server};
use crate::report::*;
use crate::uni::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "S02",
        thorough,
        "exploration",
        "The real commands (ping, view, apply, add) with every subset of sources (environment, user's oro.kdl, project's oro.kdl, an explicitly given file, command line) setting an option, each source to a value of its own (for switches: every combination of on and off), for every option with an observable effect; every spelling of every source; every pair of options from every pair of sources; values that look like something else. Compared with the effect of the value the documented precedence gives: requests, output, files. Non-trivial: at least two sources, or an unusual spelling.",
    )
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Cmd {
    Ping,
    View,
    Apply,
    Add,
}
use Cmd::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Value,
    Number,
    Switch,
    /// On unless negated: `--no-x` is the flag.
    Negated,
    Pairs,
    Nested,
}

struct Opt {
    name: &'static str,
    kind: Kind,
    cmds: &'static [Cmd],
    default: &'static str,
    /// For values: those of the environment, the user, the project or explicit file, the command line.
    values: [&'static str; 4],
    global: bool,
}

const SW: [&str; 4] = ["true", "false", "true", "false"];
const fn o(name: &'static str, kind: Kind, cmds: &'static [Cmd], default: &'static str, values: [&'static str; 4], global: bool) -> Opt {
    Opt { name, kind, cmds, default, values, global }
}

/// `%` is the address of the registry.
const OPTS: &[Opt] = &[
    o("registry", Kind::Value, &[Ping, View], "", ["%r1/", "%r2/", "%R-3/", "%r4/"], true),
    o("retries", Kind::Number, &[Ping], "2", ["0", "1", "2", "3"], true),
    o("json", Kind::Switch, &[Ping], "false", SW, true),
    o("quiet", Kind::Switch, &[Ping], "false", SW, true),
    o("emoji", Kind::Negated, &[Ping], "true", SW, true),
    o("progress", Kind::Negated, &[Ping], "true", SW, true),
    o("loglevel", Kind::Value, &[Ping], "info", ["error", "debug", "warn", "trace"], true),
    o("cache", Kind::Value, &[Ping, View], "<cache>", ["<dir>/c1", "<dir>/c2", "<dir>/c 3=x", "<dir>/c4"], true),
    o("proxy-url", Kind::Value, &[Ping], "", ["<proxy1>", "<proxy2>", "<proxy3>", "<proxy4>"], true),
    o("no-proxy-domain", Kind::Value, &[Ping], "", ["127.0.0.1", "h.io", "127.0.0.1", "h.io"], true),
    o("auth", Kind::Nested, &[Ping], "", ["", "t2", "T=3", "t4"], true),
    o("scoped-registries", Kind::Pairs, &[View], "", ["", "%r2/", "%R-3/", "%r4/"], true),
    o("default-tag", Kind::Value, &[View, Apply, Add], "latest", ["t1", "t2", "t3", "t4"], false),
    o("root", Kind::Value, &[Apply], "<dir>/p", ["<dir>/p1", "<dir>/p2", "<dir>/p3", "<dir>/p4"], true),
    o("apply", Kind::Negated, &[Add], "true", SW, false),
    o("scripts", Kind::Negated, &[Apply], "true", SW, false),
    o("lockfile", Kind::Negated, &[Apply], "true", SW, false),
    o("lockfile-only", Kind::Switch, &[Apply], "false", SW, false),
    o("hoisted", Kind::Switch, &[Apply], "false", SW, false),
    o("prefer-copy", Kind::Switch, &[Apply], "false", SW, false),
    o("locked", Kind::Switch, &[Apply], "false", SW, false),
    o("concurrency", Kind::Number, &[Apply], "50", ["1", "2", "3", "4"], false),
    o("script-concurrency", Kind::Number, &[Apply], "6", ["1", "2", "3", "4"], false),
    o("prefix", Kind::Value, &[Add], "^", ["~", "=", ">=", ""], false),
    o("dev", Kind::Switch, &[Add], "false", SW, false),
    o("opt", Kind::Switch, &[Add], "false", SW, false),
];

fn opt(name: &str) -> usize {
    OPTS.iter().position(|o| o.name == name).unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, serde::Serialize)]
enum Src {
    Env,
    User,
    Project,
    Config,
    Cli,
}
use Src::*;

#[derive(Clone, Debug, serde::Serialize)]
struct Set {
    #[serde(serialize_with = "name_of")]
    opt: usize,
    src: Src,
    value: String,
    spelling: usize,
}
fn name_of<S: serde::Serializer>(o: &usize, s: S) -> Result<S::Ok, S::Error> {
    s.serialize_str(OPTS[*o].name)
}

struct Case {
    cmd: Cmd,
    sets: Vec<Set>,
    /// An explicit configuration file is given (even if empty).
    config: bool,
    /// Run from a directory of the project.
    sub: bool,
    /// `--` before the positional arguments.
    dashes: bool,
    /// Something malformed: it may be refused, or not, but without crashing.
    raw: Option<(Src, &'static str, &'static str)>,
}

fn case(cmd: Cmd, sets: Vec<Set>) -> Case {
    Case { config: sets.iter().any(|s| s.src == Config), cmd, sets, sub: false, dashes: false, raw: None }
}

/// How many ways there are to write a setting.
fn spellings(o: &Opt, src: Src, value: &str) -> usize {
    match (src, o.kind) {
        (Env, Kind::Pairs | Kind::Nested) => 0,
        (Env, _) => if o.name.contains('-') { 3 } else { 2 },
        (Cli, Kind::Pairs | Kind::Nested | Kind::Value | Kind::Number) => if o.global { 4 } else { 2 },
        (Cli, _) => if o.global { 4 } else { 2 },
        (_, Kind::Switch | Kind::Negated) => if value == "true" { 2 } else { 1 },
        (_, Kind::Number) => 2,
        (_, Kind::Value) => 2,
        (_, Kind::Pairs) => 2,
        (_, Kind::Nested) => 3,
    }
}

struct St {
    log: Vec<(usize, Req)>,
}

struct World {
    /// The registry, and four proxies.
    servers: Vec<Server>,
    st: Arc<Mutex<St>>,
}

/// Tags the registry's package has, and their versions.
const TAGS: &[&str] = &["latest", "t1", "t2", "t3", "t4", "true", "false", "on", "no", "1", "0", "x-1", "-x", "--json", "null", "1.x-tag", "a=b", "none", "yes", "TRUE", "3.5", "1e3", "{x}y=z", "\u{e9}", "a b", "--"];

fn universe() -> Universe {
    let mut u = Universe::default();
    for n in ["t", "@a/p", "@b/p"] {
        for (i, t) in TAGS.iter().enumerate() {
            u.add(n, &format!("1.0.{i}"), Ver::default());
            u.tag(n, t, &format!("1.0.{i}"));
        }
    }
    u.add("p", "1.0.0", Ver::deps(&[("q", "1")]));
    u.add("q", "1.0.0", Ver::default());
    u.add("s", "1.0.0", Ver::default().script("install", "echo ran > ran"));
    for n in ["p", "q", "s"] {
        u.tag(n, "latest", "1.0.0");
    }
    u
}

fn world() -> &'static World {
    thread_local! { static W: RefCell<Option<&'static World>> = RefCell::new(None); }
    W.with(|x| {
        *x.borrow_mut().get_or_insert_with(|| {
            let st = Arc::new(Mutex::new(St { log: vec![] }));
            let u = Arc::new(universe());
            let servers = (0..5)
                .map(|i| {
                    let (st, u) = (st.clone(), u.clone());
                    Server::start(Arc::new(move |r: &Req| {
                        st.lock().unwrap().log.push((i, r.clone()));
                        // Proxies are asked for whole addresses.
                        let (base, path) = match r.path.strip_prefix("http://") {
                            Some(x) => x.split_once('/').map(|(h, p)| (format!("http://{h}"), format!("/{p}"))).unwrap(),
                            None => (format!("http://{}", r.header("host").unwrap_or("h")), r.path.clone()),
                        };
                        let path = path.trim_start_matches('/').to_string();
                        // The registries are told from each other by the first part of the path.
                        let (reg, rest) = path.split_once('/').unwrap_or(("", &path));
                        if rest.split('?').next() == Some("-/ping") {
                            return if reg == "fail" { Resp::status(503) } else { Resp::ok("{\"pong\":1}") };
                        }
                        let r = Req { path: format!("/{rest}"), ..r.clone() };
                        u.answer(&r, &format!("{base}/{reg}/"), true)
                    }))
                })
                .collect();
            Box::leak(Box::new(World { servers, st }))
        })
    })
}

fn fill(v: &str, w: &World, dir: &Path) -> String {
    let mut v = v.replace("<dir>", dir.to_str().unwrap()).replace("<cache>", dir.join("home/cache/orogene").to_str().unwrap()).replace('%', &w.servers[0].url());
    for i in 1..5 {
        v = v.replace(&format!("<proxy{i}>"), &w.servers[i].url());
    }
    v
}

fn quote(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n"))
}

/// The registry all commands use unless the case says otherwise.
const HOME_REG: &str = "%r0/";

fn kdl(s: &Set, v: &str, w: &World, dir: &Path) -> String {
    let o = &OPTS[s.opt];
    let n = o.name;
    match (o.kind, s.spelling) {
        (Kind::Switch | Kind::Negated, 1) if v == "true" => format!("{n}\n"),
        (Kind::Switch | Kind::Negated, _) => format!("{n} {v}\n"),
        (Kind::Number, 0) => format!("{n} {v}\n"),
        (Kind::Number | Kind::Value, 1) if !v.contains(['"', '#', '\\']) => format!("{n} r#\"{v}\"#\n"),
        (Kind::Number | Kind::Value, _) => format!("{n} {}\n", quote(v)),
        (Kind::Pairs, 1) => format!("{n} \"@a\"={}\n", quote(v)),
        (Kind::Pairs, _) => format!("{n} {{\n  \"@a\" {}\n}}\n", quote(v)),
        (Kind::Nested, x) => {
            let r = quote(&fill(HOME_REG, w, dir));
            match x {
                0 => format!("{n} {{\n  {r} token={}\n}}\n", quote(v)),
                1 => format!("{n} {{\n  {r} {{\n    token {}\n  }}\n}}\n", quote(v)),
                _ => format!("{n} {{ {r} token={}; \"http://h.io/\" username=\"u\" password=\"p\"; }}\n", quote(v)),
            }
        }
    }
}

/// Arguments before and after the subcommand.
fn args(s: &Set, v: &str, w: &World, dir: &Path) -> (Vec<String>, Vec<String>) {
    let o = &OPTS[s.opt];
    let n = match o.name {
        "scoped-registries" => "scoped-registry",
        n => n,
    };
    let (list, joined) = match o.kind {
        Kind::Switch | Kind::Negated => {
            let (on, off) = (format!("--{n}"), format!("--no-{n}"));
            let (a, b) = if v == "true" { (on, off) } else { (off, on) };
            // Of contradicting flags, the last one counts.
            if s.spelling % 2 == 1 { (vec![b, a], false) } else { (vec![a], false) }
        }
        _ => {
            let v = match o.kind {
                Kind::Pairs => format!("@a={v}"),
                Kind::Nested => format!("{{{}}}token={v}", fill(HOME_REG, w, dir)),
                _ => v.to_string(),
            };
            let joined = s.spelling % 2 == 1 || v.starts_with('-') || v.is_empty();
            (if joined { vec![format!("--{n}={v}")] } else { vec![format!("--{n}"), v] }, joined)
        }
    };
    let _ = joined;
    if s.spelling >= 2 {
        (list, vec![])
    } else {
        (vec![], list)
    }
}

#[derive(Debug, PartialEq)]
struct Seen(BTreeMap<&'static str, String>);

fn project(dir: &Path, cmd: Cmd, locked: bool) {
    std::fs::create_dir_all(dir.join("sub/dir")).unwrap();
    let deps = match cmd {
        Apply => json!({"p": "1", "s": "1", "t": "*"}),
        _ => json!({}),
    };
    std::fs::write(dir.join("package.json"), serde_json::to_vec_pretty(&json!({"name": "proj", "version": "1.0.0", "dependencies": deps})).unwrap()).unwrap();
    if locked {
        std::fs::write(dir.join("package-lock.kdl"), "lockfile-version 1\nroot \"proj\" {\n    version \"1.0.0\"\n}\n").unwrap();
    }
}

fn one(c: &Case, dir: &Path) -> Out {
    let w = world();
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    let uses = |n: &str| c.sets.iter().any(|s| s.opt == opt(n));
    let locked = uses("locked");
    let roots: Vec<PathBuf> = ["p", "p1", "p2", "p3", "p4"].iter().map(|p| dir.join(p)).collect();
    for r in if uses("root") { &roots[..] } else { &roots[..1] } {
        project(r, c.cmd, locked);
    }
    // What every option is supposed to be.
    let rank = |s: Src| match s {
        User | Project if c.config => 0,
        Env => 1,
        User => 2,
        Project | Config => 3,
        Cli => 4,
    };
    let mut eff: BTreeMap<&'static str, String> = OPTS.iter().filter(|o| o.cmds.contains(&c.cmd)).map(|o| (o.name, fill(o.default, w, dir))).collect();
    let mut from: BTreeMap<&'static str, usize> = BTreeMap::new();
    for s in &c.sets {
        let n = OPTS[s.opt].name;
        let r = rank(s.src);
        if r > 0 && r >= from.get(n).copied().unwrap_or(0) {
            from.insert(n, r);
            let v = if s.value == "<reset>" { OPTS[s.opt].default } else { &s.value };
            eff.insert(n, fill(v, w, dir));
        }
    }
    let mut cli = Cli::new(&dir.join("home"), &if c.sub { roots[0].join("sub/dir") } else { roots[0].clone() });
    cli.timeout = Duration::from_secs(100);
    let (mut before, mut after): (Vec<String>, Vec<String>) = (vec![], vec![]);
    // Context: what isn't looked at has to be harmless.
    let ctx = |a: &[&str], n: &str, before: &mut Vec<String>| {
        if !uses(n) {
            before.extend(a.iter().map(|a| fill(a, w, dir)));
        }
    };
    let reg = if uses("retries") { "%fail/" } else { HOME_REG };
    ctx(&["--registry", reg], "registry", &mut before);
    if !uses("registry") {
        eff.insert("registry", fill(reg, w, dir));
    }
    if c.cmd == Ping && uses("no-proxy-domain") {
        ctx(&["--proxy-url", "<proxy1>"], "proxy-url", &mut before);
        if !uses("proxy-url") {
            eff.insert("proxy-url", fill("<proxy1>", w, dir));
        }
    }
    if c.cmd == Add && !uses("apply") {
        after.push("--no-apply".into());
        eff.insert("apply", "false".into());
    }
    let mut files: BTreeMap<&str, String> = BTreeMap::new();
    for s in &c.sets {
        let o = &OPTS[s.opt];
        let v = fill(&s.value, w, dir);
        match s.src {
            Env => {
                let name = match s.spelling {
                    0 => format!("oro_config_{}", o.name.replace('-', "_")),
                    1 => format!("ORO_CONFIG_{}", o.name.replace('-', "_").to_uppercase()),
                    _ => format!("oro_config_{}", o.name),
                };
                cli.env.push((name, v));
            }
            Cli if s.value == "<reset>" => {
                let a = vec![format!("--no-{}", o.name)];
                if s.spelling >= 2 { before.extend(a) } else { after.extend(a) }
            }
            Cli => {
                let (b, a) = args(s, &v, w, dir);
                before.extend(b);
                after.extend(a);
            }
            f => {
                let f = match f {
                    User => "home/config/orogene/oro.kdl",
                    Project => "p/oro.kdl",
                    _ => "given.kdl",
                };
                files.entry(f).or_default().push_str(&kdl(s, &v, w, dir));
            }
        }
    }
    if c.config {
        files.entry("given.kdl").or_default();
        before.extend(["--config".to_string(), dir.join("given.kdl").to_str().unwrap().to_string()]);
    }
    for (f, text) in &files {
        let f = dir.join(f);
        std::fs::create_dir_all(f.parent().unwrap()).unwrap();
        std::fs::write(f, format!("options {{\n{text}}}\n")).unwrap();
    }
    if uses("root") && c.sets.iter().any(|s| s.opt == opt("root") && s.src == Cli) {
        // The project whose file counts is the given one.
        let t = files.get("p/oro.kdl").cloned();
        if let (Some(t), Some(s)) = (t, c.sets.iter().find(|s| s.opt == opt("root") && s.src == Cli)) {
            std::fs::remove_file(dir.join("p/oro.kdl")).unwrap();
            std::fs::write(Path::new(&fill(&s.value, w, dir)).join("oro.kdl"), format!("options {{\n{t}}}\n")).unwrap();
        }
    }
    let pkg = if uses("scoped-registries") { "@a/p" } else { "t" };
    let (name, pos): (&str, Vec<&str>) = match c.cmd {
        Ping => ("ping", vec![]),
        View => ("view", vec![pkg]),
        Apply => ("apply", vec![]),
        Add => ("add", vec![pkg]),
    };
    let mut all: Vec<String> = before;
    all.push(name.into());
    all.extend(after);
    if c.cmd == View {
        all.push("--json".into());
    }
    if c.dashes {
        all.push("--".into());
    }
    all.extend(pos.iter().map(|p| p.to_string()));
    if let Some((src, o, v)) = c.raw {
        match src {
            Cli => all.insert(0, format!("--{o}={v}")),
            Env => cli.env.push((format!("oro_config_{}", o.replace('-', "_")), v.into())),
            _ => {
                std::fs::create_dir_all(dir.join("home/config/orogene")).unwrap();
                std::fs::write(dir.join("home/config/orogene/oro.kdl"), v).unwrap();
            }
        }
        let mut cm = cli.command(&all.iter().map(|a| a.as_str()).collect::<Vec<_>>());
        use std::os::unix::ffi::OsStrExt;
        if src == Project {
            // Variables of others can be anything.
            cm.env(std::ffi::OsStr::from_bytes(b"X\xff"), "1").env("Y", std::ffi::OsStr::from_bytes(b"\xff")).env("oro_config_x", std::ffi::OsStr::from_bytes(b"\xff"));
        }
        let out = crate::cli::run(cm, cli.timeout);
        let ok = matches!(out.code, Some(0 | 1 | 2)) && !out.stderr.contains("panicked") && !out.stderr.contains("crash report") && (src != Project || out.code == Some(0));
        return if ok { Ok(true) } else { Err(Viol::new(format!("raw {src:?} {o} {v}"), format!("`oro {}` with {o} {v:?} ends with {:?}: {}", all.join(" "), out.code, short(&out.stderr)))) };
    }
    w.st.lock().unwrap().log.clear();
    let out = cli.run(&all.iter().map(|a| a.as_str()).collect::<Vec<_>>());
    let log = std::mem::take(&mut w.st.lock().unwrap().log);
    let line = || format!("`oro {}` with {:?} and {files:?}", all.join(" "), cli.env);
    let r = match c.cmd {
        Ping => ping(&eff, &out, &log, w, dir, uses("retries")),
        View => view(&eff, &out, &log, w, dir),
        Apply => apply(&eff, &out, &roots, uses("root"), locked),
        Add => add(&eff, &out, &roots[0]),
    };
    r.map_err(|e| Viol::new(format!("{} {:?}", c.cmd as u8, c.sets), format!("{}: {e}\n--- stdout\n{}\n--- stderr\n{}", line(), short(&out.stdout), short(&out.stderr))))?;
    Ok(c.sets.len() > 1 || c.sets.iter().any(|s| s.spelling > 0))
}

fn short(s: &str) -> String {
    s.chars().take(700).collect()
}

type Eff = BTreeMap<&'static str, String>;

fn on(eff: &Eff, n: &str) -> bool {
    eff[n] == "true"
}

fn cache(eff: &Eff, dir: &Path) -> Result<(), String> {
    for d in ["c1", "c2", "c 3=x", "c4", "home/cache/orogene"] {
        let d = dir.join(d);
        if d.join("_logs").is_dir() != (d == Path::new(&eff["cache"])) {
            return Err(format!("the cache should be {}, but {}", eff["cache"], if d.exists() { format!("{d:?} is used") } else { format!("{d:?} isn't used") }));
        }
    }
    Ok(())
}

fn ping(eff: &Eff, out: &CliOut, log: &[(usize, Req)], w: &World, dir: &Path, fail: bool) -> Result<(), String> {
    if (out.code == Some(0)) == fail || out.code.is_none() {
        return Err(format!("exit status {:?}", out.code));
    }
    cache(eff, dir)?;
    // Requests.
    let n = if fail { eff["retries"].parse::<usize>().unwrap() + 1 } else { 1 };
    let proxied = !eff["proxy-url"].is_empty() && eff["no-proxy-domain"] != "127.0.0.1";
    let target = format!("{}-/ping", eff["registry"]);
    let (server, path) = if proxied { ((1..5).find(|i| w.servers[*i].url() == eff["proxy-url"]).unwrap(), target) } else { (0, format!("/{}", &target[w.servers[0].url().len()..])) };
    let auth = (!eff["auth"].is_empty() && eff["registry"] == fill(HOME_REG, w, dir)).then(|| format!("Bearer {}", eff["auth"]));
    if log.len() != n {
        return Err(format!("{} requests, not {n}", log.len()));
    }
    for (s, r) in log {
        if (*s, r.path.split('?').next().unwrap()) != (server, path.as_str()) {
            return Err(format!("asked server {s} for {} instead of server {server} for {path}", r.path));
        }
        if r.header("authorization").map(|s| s.to_string()) != auth {
            return Err(format!("authorized as {:?} instead of {auth:?}", r.header("authorization")));
        }
    }
    // Output.
    let shown = !on(eff, "quiet") && ["info", "debug", "trace"].contains(&eff["loglevel"].as_str());
    let visible = |s: &str| s.contains("ping: http");
    let (err, std) = (visible(&out.stderr), visible(&out.stdout));
    let want = (shown && on(eff, "progress"), shown && !on(eff, "progress"));
    if (err, std) != want {
        return Err(format!("messages on standard error: {err}, on standard output: {std}; should be {want:?}"));
    }
    let text = format!("{}{}", out.stdout, out.stderr);
    let has = |c: &str| text.contains(c);
    if has("\u{27a1}") != (shown && on(eff, "emoji")) {
        return Err(format!("emoji: {}", has("\u{27a1}")));
    }
    let (d, t) = (!on(eff, "quiet") && ["debug", "trace"].contains(&eff["loglevel"].as_str()), !on(eff, "quiet") && eff["loglevel"] == "trace");
    if has("DEBUG") != d || has("TRACE") != t {
        return Err(format!("debug messages: {}, trace: {}", has("DEBUG"), has("TRACE")));
    }
    if !fail && out.stdout.contains("\"details\"") != on(eff, "json") {
        return Err("JSON or not".to_string());
    }
    Ok(())
}

fn view(eff: &Eff, out: &CliOut, log: &[(usize, Req)], w: &World, dir: &Path) -> Result<(), String> {
    let Some(i) = TAGS.iter().position(|t| *t == eff["default-tag"]) else { return Err("harness: no such tag".into()) };
    if out.code != Some(0) {
        return Err(format!("exit status {:?}", out.code));
    }
    cache(eff, dir)?;
    let v: Value = serde_json::from_str(&out.stdout).map_err(|e| format!("{e}"))?;
    if v["version"] != format!("1.0.{i}") {
        return Err(format!("version {}, not 1.0.{i} ({:?})", v["version"], eff["default-tag"]));
    }
    let reg = if eff["scoped-registries"].is_empty() { &eff["registry"] } else { &eff["scoped-registries"] };
    let base = format!("/{}", &reg[w.servers[0].url().len()..]);
    if let Some((_, r)) = log.iter().find(|(_, r)| !r.path.starts_with(&base)) {
        return Err(format!("asked for {} instead of something below {base}", r.path));
    }
    if log.is_empty() {
        return Err("no request".into());
    }
    Ok(())
}

fn apply(eff: &Eff, out: &CliOut, roots: &[PathBuf], all: bool, locked: bool) -> Result<(), String> {
    let fails = locked && on(eff, "locked");
    if (out.code == Some(0)) == fails || out.code.is_none() {
        return Err(format!("exit status {:?}", out.code));
    }
    for r in if all { roots } else { &roots[..1] } {
        let here = r == Path::new(&eff["root"]) && !fails;
        let what = |n: &str, is: bool, want: bool| if is == want { Ok(()) } else { Err(format!("{n} in {}: {is}", r.file_name().unwrap().to_str().unwrap())) };
        let lock = std::fs::read_to_string(r.join("package-lock.kdl")).unwrap_or_default();
        what("lockfile", lock.contains("pkg"), here && on(eff, "lockfile"))?;
        let installed = here && !on(eff, "lockfile-only");
        let nm = r.join("node_modules");
        what("installed packages", nm.join("p/package.json").exists(), installed)?;
        if !installed {
            continue;
        }
        what("hoisted packages", nm.join("q/package.json").exists(), on(eff, "hoisted"))?;
        what("store", nm.join(".oro-store").exists(), !on(eff, "hoisted"))?;
        what("run scripts", nm.join("s/ran").exists(), on(eff, "scripts"))?;
        use std::os::unix::fs::MetadataExt;
        let links = std::fs::metadata(nm.join("p/index.js")).map_err(|e| e.to_string())?.nlink();
        what("links into the cache", links > 1, !on(eff, "prefer-copy"))?;
        let t: Value = serde_json::from_slice(&std::fs::read(nm.join("t/package.json")).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        let i = TAGS.iter().position(|t| *t == eff["default-tag"]).ok_or("harness: no such tag")?;
        if t["version"] != format!("1.0.{i}") {
            return Err(format!("version {}, not 1.0.{i} ({:?})", t["version"], eff["default-tag"]));
        }
    }
    Ok(())
}

fn add(eff: &Eff, out: &CliOut, root: &Path) -> Result<(), String> {
    if out.code != Some(0) {
        return Err(format!("exit status {:?}", out.code));
    }
    if root.join("node_modules/t/package.json").exists() != on(eff, "apply") {
        return Err(format!("applied: {}", !on(eff, "apply")));
    }
    let m: Value = serde_json::from_slice(&std::fs::read(root.join("package.json")).unwrap()).map_err(|e| e.to_string())?;
    let i = TAGS.iter().position(|t| *t == eff["default-tag"]).ok_or("harness: no such tag")?;
    let want = format!("{}1.0.{i}", eff["prefix"]);
    if on(eff, "dev") && on(eff, "opt") {
        return Ok(());
    }
    let field = if on(eff, "dev") { "devDependencies" } else if on(eff, "opt") { "optionalDependencies" } else { "dependencies" };
    for f in ["dependencies", "devDependencies", "optionalDependencies"] {
        let got = m[f]["t"].as_str();
        if got != (f == field).then_some(want.as_str()) {
            return Err(format!("{f} has {got:?}; should be {want:?} in {field}"));
        }
    }
    Ok(())
}

fn values(o: &Opt, src: Src) -> Vec<&'static str> {
    match o.kind {
        Kind::Switch | Kind::Negated => vec!["true", "false"],
        Kind::Pairs | Kind::Nested if src == Env => vec![],
        _ => vec![o.values[match src {
            Env => 0,
            User => 1,
            Project => 2,
            Config => 2,
            Cli => 3,
        }]],
    }
}

fn set(opt: usize, src: Src, value: &str, spelling: usize) -> Set {
    Set { opt, src, value: value.into(), spelling }
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for (i, o) in OPTS.iter().enumerate() {
        let cmds = if thorough { o.cmds } else { &o.cmds[..1] };
        for cmd in cmds {
            // Every subset of sources. The registry has to come from somewhere.
            for srcs in [&[Env, User, Project, Cli][..], &[Env, User, Project, Config, Cli]] {
                let config = srcs.len() == 5;
                let mut acc: Vec<Vec<Set>> = vec![vec![]];
                for s in srcs {
                    // The project's file can't say where the project is.
                    if o.name == "root" && *s == Project {
                        continue;
                    }
                    let mut next = acc.clone();
                    for a in &acc {
                        for val in values(o, *s) {
                            let mut a = a.clone();
                            a.push(set(i, *s, val, 0));
                            next.push(a);
                        }
                    }
                    acc = next;
                }
                for sets in acc {
                    let effective = sets.iter().any(|s| !(config && matches!(s.src, User | Project)));
                    if o.name == "registry" && !effective {
                        continue;
                    }
                    // With an explicit file, quickly: all or nothing of what it hides.
                    if config && !thorough {
                        let hidden = sets.iter().filter(|s| matches!(s.src, User | Project)).count();
                        if hidden != if o.name == "root" { 1 } else { 2 } || matches!(o.kind, Kind::Switch | Kind::Negated) && sets.iter().filter(|s| matches!(s.src, User | Project)).any(|s| Some(&s.value) != sets.first().filter(|s| s.src != Env).or(sets.get(1)).map(|s| &s.value)) {
                            continue;
                        }
                    }
                    v.push(Case { config, ..case(*cmd, sets) });
                }
            }
            // Every spelling, alone and over every other source.
            for s in [Env, User, Project, Config, Cli] {
                if o.name == "root" && s == Project {
                    continue;
                }
                for val in values(o, s) {
                    for sp in 0..spellings(o, s, val) {
                        v.push(case(*cmd, vec![set(i, s, val, sp)]));
                        let other = match o.kind {
                            Kind::Switch | Kind::Negated => if val == "true" { "false" } else { "true" },
                            _ => "",
                        };
                        let lower = match s {
                            Env => continue,
                            User => vec![Env],
                            Project | Config => vec![Env, User],
                            Cli => vec![Env, User, Project],
                        };
                        let mut sets: Vec<Set> = vec![];
                        for l in lower {
                            if o.name == "root" && l == Project {
                                continue;
                            }
                            for x in values(o, l) {
                                if other.is_empty() || other == x {
                                    sets.push(set(i, l, x, 0));
                                }
                            }
                        }
                        sets.push(set(i, s, val, sp));
                        v.push(case(*cmd, sets));
                    }
                }
            }
            // Back to the default.
            if matches!(o.kind, Kind::Value | Kind::Number) && !["registry", "root", "cache", "no-proxy-domain"].contains(&o.name) {
                for sp in if o.global { &[0, 2][..] } else { &[0] } {
                    for s in [Env, User, Project, Config] {
                        v.push(case(*cmd, vec![set(i, s, values(o, s)[0], 0), set(i, Cli, "<reset>", *sp)]));
                    }
                }
            }
        }
    }
    // Two options at once.
    for (i, a) in OPTS.iter().enumerate() {
        for (j, b) in OPTS.iter().enumerate().skip(i + 1) {
            for cmd in a.cmds.iter().filter(|c| b.cmds.contains(c)) {
                if (a.name, b.name) == ("dev", "opt") || [a.name, b.name].iter().any(|n| ["retries", "root"].contains(n)) && [a.name, b.name].iter().any(|n| ["registry", "auth"].contains(n)) {
                    continue;
                }
                if !thorough && [a.name, b.name].contains(&"retries") {
                    continue;
                }
                for s in [Env, User, Project, Config, Cli] {
                    for t in [Env, User, Project, Config, Cli] {
                        if (s == Config) != (t == Config) && [s, t].iter().any(|s| matches!(s, User | Project)) || [a.name, b.name].contains(&"root") && [s, t].contains(&Project) {
                            continue;
                        }
                        // What isn't the default.
                        let pick = |o: &Opt, s: Src| values(o, s).into_iter().filter(|v| *v != o.default).last();
                        if let (Some(x), Some(y)) = (pick(a, s), pick(b, t)) {
                            v.push(case(*cmd, vec![set(i, s, x, 0), set(j, t, y, 0)]));
                        }
                    }
                }
            }
        }
    }
    // Values that look like something else.
    let t = opt("default-tag");
    for tag in TAGS {
        for s in [Env, User, Project, Config, Cli] {
            for sp in 0..spellings(&OPTS[t], s, tag) {
                for dashes in [false, true] {
                    v.push(Case { dashes, ..case(View, vec![set(t, s, tag, sp)]) });
                }
            }
        }
    }
    let p = opt("prefix");
    for x in ["", "-", "--", "~", "true", "false", "1", "on", "<", "=", "a b"] {
        for s in [Env, User, Project, Config, Cli] {
            for sp in 0..spellings(&OPTS[p], s, x) {
                for dashes in [false, true] {
                    v.push(Case { dashes, ..case(Add, vec![set(p, s, x, sp)]) });
                }
            }
        }
    }
    for x in ["", "{", "}", "}{", "{}", "}{=", "={}", "{a=}b", "{a}b", "{a}b=", "{=}{=}=", "{http://h/?a=b}token=d", "{http://h/}token", "}{http://h/}token=d", "\u{e9}{\u{e9}}\u{e9}=\u{e9}", "{http://h/}password=x", "{http://h/}username=x", "{http://h/}legacy-auth=\u{e9}", "{http://h/}token=a\nb", "{x}token=y"] {
        v.push(Case { raw: Some((Cli, "auth", x)), ..case(Ping, vec![]) });
        v.push(Case { raw: Some((Env, "auth", x)), ..case(Ping, vec![]) });
    }
    for x in ["", "=", "@a", "=x", "@a=", "\u{e9}=\u{e9}", "a=http://h/", "@a=http://h/", "@a/=http://h/", "@=http://h/"] {
        v.push(Case { raw: Some((Cli, "scoped-registry", x)), ..case(Ping, vec![]) });
        v.push(Case { raw: Some((Env, "scoped-registries", x)), ..case(Ping, vec![]) });
    }
    for (n, xs) in [("retries", &["", "-1", "x", "1.5", "99999999999"][..]), ("proxy-url", &["", "x", "http://", "//", "http://:x"]), ("no-proxy-domain", &["", ",", "*"]), ("loglevel", &["", "x", "a[b=c", "=", ","]), ("cache", &["", "/dev/null/x"]), ("registry", &["", "x", "mailto:x", "data:,x", "file:///x", "http://", "http://h:99999/"]), ("json", &["", "x"]), ("config", &["", "/nonexistent", "/dev/null", "/"]), ("root", &["", "/nonexistent"])] {
        for x in xs {
            for s in [Cli, Env] {
                v.push(Case { raw: Some((s, n, x)), ..case(Ping, vec![]) });
            }
        }
    }
    for x in ["", "options", "options {", "options { }", "options 1", "options { auth; }", "options { auth 1; }", "options { auth { x; }; }", "options { auth { x { y { z 1; }; }; }; }", "options { registry 1 2; }", "options { registry null; }", "options { registry { - 1; }; }", "options { retries a=1; }", "options { retries { a 1; }; }", "options { json 1 2; }", "options { a.b 1; \"\" 2; \"a[\" 3; }", "options { json a=1 2; }", "options { scoped-registries { - 1; }; }", "options { scoped-registries \"a\" \"b\"; }", "options { retries 1.5; }", "options { (t)retries (u)1; }", "options { /- retries 1; }", "\u{feff}options { }"] {
        v.push(Case { raw: Some((User, "the file", x)), ..case(Ping, vec![]) });
    }
    v.push(Case { raw: Some((Project, "other variables", "")), ..case(Ping, vec![]) });
    // From a directory inside of the project.
    for (cmd, n) in [(Ping, "json"), (View, "default-tag"), (Apply, "lockfile-only"), (Apply, "hoisted"), (Ping, "registry")] {
        let o = opt(n);
        for s in [Env, User, Project, Config, Cli] {
            for x in values(&OPTS[o], s) {
                v.push(Case { sub: true, ..case(cmd, vec![set(o, s, x, 0)]) });
                if s != Env {
                    v.push(Case { sub: true, ..case(cmd, vec![set(o, Env, values(&OPTS[o], Env)[0], 0), set(o, s, x, 0)]) });
                }
            }
        }
    }
    v
}

pub fn run(ctx: &Ctx) {
    let v = cases(ctx.thorough);
    ctx.cov("options", OPTS.len() as u64);
    ctx.cov("tags", TAGS.len() as u64);
    ctx.par(
        if ctx.thorough { 32 } else { 32 },
        v.into_iter(),
        |c| json!({"command": format!("{:?}", c.cmd), "sets": c.sets, "config": c.config, "sub": c.sub, "dashes": c.dashes, "raw": format!("{:?}", c.raw)}),
        one,
    );
}
