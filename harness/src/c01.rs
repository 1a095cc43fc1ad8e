//! C01: who gets credentials. C02: which registry is asked, and for what.
use crate::cli::Cli;
use crate::http::{Req, Resp, Server};
use crate::report::*;
use crate::uni::*;
use base64::Engine;
use futures::AsyncReadExt;
use nassun::NassunOpts;
use oro_client::login::LoginOptions;
use oro_client::{OroClient, OroClientBuilder};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::path::Path;
use std::sync::{Arc, Mutex};
use url::Url;

pub fn ctx1(thorough: bool) -> Ctx {
    Ctx::new(
        "C01",
        thorough,
        "exploration",
        "Three loopback servers (two ports of one host, another host) with several registry paths each, one a name prefix of another. Every combination of the registry asked, credentials of every kind configured for any one or two of them (for the registry with and without a final slash), where the archive is hosted and where the registry redirects to; packages in the default registry, in a scope's registry and through an alias, metadata through both document kinds, archives from fresh resolutions and from recorded ones, and every call of the client. The Authorization header of every request seen by every server is compared with what the documentation says. The same for the real command, credentials on the command line and in both configuration files. Non-trivial: credentials are configured for the registry asked.",
    )
}

pub const KINDS: usize = 4;

/// (server, path)
pub const PLACES: &[(usize, &str)] = &[(0, "/"), (0, "/x"), (0, "/x/"), (0, "/xy/"), (1, "/"), (1, "/x/"), (2, "/"), (2, "/x/"), (0, "/X/"), (0, "/x/y")];

#[derive(Default)]
pub struct State {
    pub tar: String,
    /// (of the archive?, target base)
    pub redirect: Option<(bool, String)>,
    pub log: Vec<(usize, Req)>,
}

pub struct World {
    pub servers: Vec<Server>,
    pub st: Arc<Mutex<State>>,
}

fn tgz() -> Vec<u8> {
    Universe::tgz("p", "1.0.0", &Ver::default()).to_vec()
}

impl World {
    pub fn new() -> Self {
        let st: Arc<Mutex<State>> = Default::default();
        let servers = (0..3)
            .map(|i| {
                let st = st.clone();
                Server::start_on(
                    if i == 2 { "127.0.0.2" } else { "127.0.0.1" },
                    Arc::new(move |req: &Req| {
                        let mut s = st.lock().unwrap();
                        s.log.push((i, req.clone()));
                        let path = req.path.split('?').next().unwrap();
                        let tar = path.ends_with(".tgz");
                        if let Some((t, to)) = &s.redirect {
                            if *t == tar && !path.contains("moved") {
                                return Resp::status(302).with("location", &format!("{to}{}", if tar { "moved.tgz" } else { "moved.json" }));
                            }
                        }
                        if tar {
                            return Resp::ok(tgz());
                        }
                        if path.contains("/-/") {
                            return Resp::json(&json!({"ok": true, "token": "granted", "loginUrl": "http://127.0.0.1:9/l", "doneUrl": "http://127.0.0.1:9/d"}));
                        }
                        let name = path.rsplit('/').next().unwrap();
                        let name = if name == "moved.json" { "p" } else { name };
                        Resp::json(&json!({
                            "name": name,
                            "versions": {"1.0.0": {"name": name, "version": "1.0.0", "dist": {"tarball": format!("{}{name}-1.0.0.tgz", s.tar), "integrity": Universe::integrity(&tgz())}}},
                            "dist-tags": {"latest": "1.0.0"},
                        }))
                    }),
                )
            })
            .collect();
        World { servers, st }
    }

    pub fn origin(&self, server: usize) -> String {
        format!("http://{}:{}", self.servers[server].ip, self.servers[server].port)
    }

    pub fn url(&self, place: usize) -> String {
        let (s, p) = PLACES[place];
        format!("{}{p}", self.origin(s))
    }

    /// With the final slash.
    pub fn base(&self, place: usize) -> String {
        let u = self.url(place);
        if u.ends_with('/') { u } else { format!("{u}/") }
    }
}

thread_local! {
    static W: RefCell<Option<&'static World>> = RefCell::new(None);
}

/// One set of servers per worker thread.
pub fn world() -> &'static World {
    W.with(|w| *w.borrow_mut().get_or_insert_with(|| Box::leak(Box::new(World::new()))))
}

fn same(a: usize, b: usize) -> bool {
    PLACES[a].0 == PLACES[b].0 && PLACES[a].1.trim_end_matches('/') == PLACES[b].1.trim_end_matches('/')
}

/// Is place `a` inside of the registry at `reg`?
fn under(a: usize, reg: usize) -> bool {
    let base = format!("{}/", PLACES[reg].1.trim_end_matches('/'));
    let p = format!("{}/", PLACES[a].1.trim_end_matches('/'));
    PLACES[a].0 == PLACES[reg].0 && p.starts_with(&base)
}

fn b64(s: &str) -> String {
    base64::engine::general_purpose::STANDARD.encode(s)
}

fn header(kind: usize, place: usize) -> String {
    match kind {
        0 => format!("Bearer tok{place}="),
        1 => format!("Basic {}", b64(&format!("user{place}:pä:ss{place}"))),
        2 => format!("Basic {}", b64(&format!("user{place}:"))),
        _ => format!("Basic {}", b64(&format!("old{place}:x"))),
    }
}

fn configure(b: OroClientBuilder, w: &World, creds: &[(usize, usize)]) -> OroClientBuilder {
    creds.iter().fold(b, |b, (p, k)| {
        let u: Url = w.url(*p).parse().unwrap();
        match k {
            0 => b.token_auth(u, format!("tok{p}=")),
            1 => b.basic_auth(u, format!("user{p}"), Some(format!("pä:ss{p}"))),
            2 => b.basic_auth(u, format!("user{p}"), None),
            _ => b.legacy_auth(u, b64(&format!("old{p}:x"))),
        }
    })
}

fn configure_nassun(b: NassunOpts, w: &World, creds: &[(usize, usize)]) -> NassunOpts {
    creds.iter().fold(b, |b, (p, k)| {
        let u: Url = w.url(*p).parse().unwrap();
        match k {
            0 => b.token_auth(u, format!("tok{p}=")),
            1 => b.basic_auth(u, format!("user{p}"), Some(format!("pä:ss{p}"))),
            2 => b.basic_auth(u, format!("user{p}"), None::<String>),
            _ => b.legacy_auth(u, b64(&format!("old{p}:x"))),
        }
    })
}

fn want(creds: &[(usize, usize)], reg: usize) -> Option<String> {
    creds.iter().find(|(p, _)| same(*p, reg)).map(|(p, k)| header(*k, *p))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Pkg {
    Plain,
    Scoped,
    /// A scoped package in the default registry.
    Unlisted,
    AliasScoped,
    AliasPlain,
}

impl Pkg {
    fn spec(self) -> &'static str {
        match self {
            Pkg::Plain => "p@1.0.0",
            Pkg::Scoped => "@s/p@^1.0.0",
            Pkg::Unlisted => "@t/p@1.0.0",
            Pkg::AliasScoped => "p@npm:@s/p@1.0.0",
            Pkg::AliasPlain => "@s/a@npm:p@1.0.0",
        }
    }
    fn scoped(self) -> bool {
        matches!(self, Pkg::Scoped | Pkg::AliasScoped)
    }
}

enum Case {
    Nassun { pkg: Pkg, reg: usize, creds: Vec<(usize, usize)>, tar: usize, redirect: Option<(bool, usize)>, separate: bool },
    Client { reg: usize, creds: Vec<(usize, usize)>, call: usize, at: usize },
    Cmd { reg: usize, scoped: bool, creds: Vec<(usize, usize)>, tar: usize, source: usize, cmd: usize },
}

fn show(c: &Case) -> Value {
    let p = |i: usize| format!("server{}{}", PLACES[i].0, PLACES[i].1);
    let cr = |c: &[(usize, usize)]| c.iter().map(|(i, k)| { let k = ["token", "basic", "basic without password", "legacy"][*k]; json!([p(*i), k]) }).collect::<Vec<_>>();
    match c {
        Case::Nassun { pkg, reg, creds, tar, redirect, separate } => json!({"package": pkg.spec(), "registry": p(*reg), "credentials": cr(creds), "archive at": p(*tar), "redirect": redirect.map(|(t, r)| format!("{} to {}", if t { "archive" } else { "metadata" }, p(r))), "ready client": separate}),
        Case::Client { reg, creds, call, at } => json!({"registry": p(*reg), "credentials": cr(creds), "call": CALLS[*call], "at": p(*at)}),
        Case::Cmd { reg, scoped, creds, tar, source, cmd } => json!({"command": CMDS[*cmd], "registry": p(*reg), "scoped": scoped, "credentials": cr(creds), "archive at": p(*tar), "credentials from": SOURCES[*source]}),
    }
}

const CALLS: &[&str] = &["packument", "corgi_packument", "ping", "login_web", "login_couch", "delete_token", "fetch_done_url", "stream_external"];
const CMDS: &[&str] = &["view", "ping", "apply", "apply again"];
const SOURCES: &[&str] = &["command line", "project oro.kdl", "user oro.kdl", "--config FILE", "oro login"];

fn authz(r: &Req) -> Result<Option<String>, String> {
    let a: Vec<&(String, String)> = r.headers.iter().filter(|(k, _)| k.eq_ignore_ascii_case("authorization")).collect();
    if a.len() > 1 {
        return Err(format!("{} {} carries {} Authorization headers", r.method, r.path, a.len()));
    }
    Ok(a.first().map(|(_, v)| v.clone()))
}

/// Judges every request of the log. `first`: (is it about the archive, place asked, registry).
fn judge(w: &World, creds: &[(usize, usize)], reg: usize, tar: usize, redirect: Option<(bool, usize)>, log: &[(usize, Req)]) -> Result<(), String> {
    for (srv, r) in log {
        let is_tar = r.path.ends_with(".tgz");
        let moved = r.path.contains("moved.");
        let got = authz(r)?;
        let here = format!("{}{}", w.origin(*srv), r.path);
        let exp = if moved {
            let (t, to) = redirect.ok_or("redirected without being told to")?;
            let from = if t { tar } else { reg };
            if PLACES[to].0 == PLACES[from].0 {
                continue;
            }
            None
        } else if is_tar {
            under(tar, reg).then(|| want(creds, reg)).flatten()
        } else {
            want(creds, reg)
        };
        if got != exp {
            return Err(format!("{} {here} (registry {}) carries {got:?} instead of {exp:?}", r.method, w.url(reg)));
        }
        for (k, v) in &r.headers {
            if !k.eq_ignore_ascii_case("authorization") && !k.eq_ignore_ascii_case("host") && want(creds, reg).map(|h| v.contains(h.split(' ').last().unwrap())).unwrap_or(false) {
                return Err(format!("{here}: the credentials are in header {k}"));
            }
        }
    }
    Ok(())
}

fn one(c: &Case, dir: &Path) -> Out {
    let w = world();
    match c {
        Case::Nassun { pkg, reg, creds, tar, redirect, separate } => {
            *w.st.lock().unwrap() = State { tar: w.base(*tar), redirect: redirect.map(|(t, p)| (t, w.base(p))), log: vec![] };
            // The registry nobody is to ask.
            let other = PLACES.iter().position(|p| p.0 == if PLACES[*reg].0 == 2 { 1 } else { 2 }).unwrap();
            let (default, scope) = if pkg.scoped() { (other, *reg) } else { (*reg, other) };
            let mut o = NassunOpts::new().registry(w.url(default).parse().unwrap()).scope_registry("@s", w.url(scope).parse().unwrap());
            o = if *separate { o.client(configure(OroClient::builder().retries(0), w, creds).build()) } else { configure_nassun(o.retries(0), w, creds) };
            let n = o.build();
            let res: Result<(), String> = async_std::task::block_on(async {
                let p = n.resolve(pkg.spec()).await.map_err(|e| format!("{e:?}"))?;
                p.metadata().await.map_err(|e| format!("{e:?}"))?;
                let mut v = vec![];
                p.tarball().await.map_err(|e| format!("{e:?}"))?.read_to_end(&mut v).await.map_err(|e| e.to_string())?;
                if v != tgz() {
                    return Err("not the archive".into());
                }
                // The same, recorded in a lockfile.
                let p = n.resolve_from(p.name().to_string(), p.from().clone(), p.resolved().clone());
                let mut v = vec![];
                p.tarball().await.map_err(|e| format!("{e:?}"))?.read_to_end(&mut v).await.map_err(|e| e.to_string())?;
                Ok(())
            });
            res?;
            let log = std::mem::take(&mut w.st.lock().unwrap().log);
            judge(w, creds, *reg, *tar, *redirect, &log)?;
            let tars = log.iter().filter(|(_, r)| r.path.ends_with(".tgz") && !r.path.contains("moved")).count();
            if tars != 2 || log.len() < 4 {
                return Err(format!("unexpected requests {:?}", log.iter().map(|l| &l.1.path).collect::<Vec<_>>()).into());
            }
            Ok(want(creds, *reg).is_some())
        }
        Case::Client { reg, creds, call, at } => {
            *w.st.lock().unwrap() = State { tar: w.base(*reg), redirect: None, log: vec![] };
            let cl = configure(OroClient::builder().retries(0), w, creds).build();
            let cl = cl.with_registry(w.url(*reg).parse().unwrap());
            let at_url = format!("{}-/at.tgz", w.base(*at));
            async_std::task::block_on(async {
                match CALLS[*call] {
                    "packument" => drop(cl.packument("p").await.map_err(|e| e.to_string())?),
                    "corgi_packument" => drop(cl.corgi_packument("p").await.map_err(|e| e.to_string())?),
                    "ping" => drop(cl.ping().await.map_err(|e| e.to_string())?),
                    "login_web" => drop(cl.login_web(&LoginOptions::default()).await.map_err(|e| e.to_string())?),
                    "login_couch" => drop(cl.login_couch("u", "p", None, &LoginOptions::default()).await.map_err(|e| e.to_string())?),
                    "delete_token" => cl.delete_token(&"abc".to_string()).await.map_err(|e| e.to_string())?,
                    // The answer is no JSON: an error, but the request counts.
                    "fetch_done_url" => drop(cl.fetch_done_url(&at_url).await),
                    _ => drop(cl.stream_external(&at_url.parse().unwrap()).await.map_err(|e| e.to_string())?),
                }
                Ok::<(), String>(())
            })?;
            let log = std::mem::take(&mut w.st.lock().unwrap().log);
            if log.len() != 1 {
                return Err(format!("{} requests", log.len()).into());
            }
            judge(w, creds, *reg, *at, None, &log)?;
            Ok(want(creds, *reg).is_some())
        }
        Case::Cmd { reg, scoped, creds, tar, source, cmd } => {
            *w.st.lock().unwrap() = State { tar: w.base(*tar), redirect: None, log: vec![] };
            let _ = std::fs::remove_dir_all(dir);
            let (home, proj) = (dir.join("home"), dir.join("proj"));
            let cli = Cli::new(&home, &proj);
            let other = PLACES.iter().position(|p| p.0 == if PLACES[*reg].0 == 2 { 1 } else { 2 }).unwrap();
            let name = if *scoped { "@s/p" } else { "p" };
            std::fs::write(proj.join("package.json"), json!({"name": "proj", "version": "1.0.0", "dependencies": {name: "1.0.0"}}).to_string()).unwrap();
            let mut args: Vec<String> = vec![];
            match CMDS[*cmd] {
                "view" => args.extend(["view".into(), name.into()]),
                "ping" => args.push("ping".into()),
                _ => args.push("apply".into()),
            }
            let mut pre: Vec<String> = vec!["--retries".into(), "0".into(), "--registry".into(), w.url(if *scoped { other } else { *reg })];
            if *scoped {
                pre.extend(["--scoped-registry".into(), format!("@s={}", w.url(*reg))]);
            }
            // (field, value) of credentials
            let fields = |p: usize, k: usize| -> Vec<(&'static str, String)> {
                match k {
                    0 => vec![("token", format!("tok{p}="))],
                    1 => vec![("username", format!("user{p}")), ("password", format!("pä:ss{p}"))],
                    2 => vec![("username", format!("user{p}"))],
                    _ => vec![("legacy-auth", b64(&format!("old{p}:x")))],
                }
            };
            let mut kdl = String::from("options {\n    auth {\n");
            for (p, k) in creds {
                kdl += &format!("        {:?}", w.url(*p));
                for (f, v) in fields(*p, *k) {
                    kdl += &format!(" {f}={v:?}");
                }
                kdl.push('\n');
            }
            kdl += "    }\n}\n";
            let user = cli.config_file();
            std::fs::create_dir_all(user.parent().unwrap()).unwrap();
            match SOURCES[*source] {
                "command line" => {
                    for (p, k) in creds {
                        for (f, v) in fields(*p, *k) {
                            pre.extend(["--auth".into(), format!("{{{}}}{f}={v}", w.url(*p))]);
                        }
                    }
                }
                "project oro.kdl" => std::fs::write(proj.join("oro.kdl"), kdl).unwrap(),
                "user oro.kdl" => std::fs::write(&user, kdl).unwrap(),
                "--config FILE" => {
                    std::fs::write(dir.join("my.kdl"), kdl).unwrap();
                    pre.extend(["--config".into(), dir.join("my.kdl").display().to_string()]);
                }
                _ => {
                    for (p, k) in creds {
                        let mut a = vec!["login".to_string(), "--registry".into(), w.url(*p)];
                        for (f, v) in fields(*p, *k) {
                            a.extend([format!("--{}", if f == "legacy-auth" { "legacy-token" } else { f }), v]);
                        }
                        let o = cli.run(&a.iter().map(|s| s.as_str()).collect::<Vec<_>>());
                        if o.code != Some(0) {
                            return Err(format!("oro login fails: {}", o.stderr).into());
                        }
                    }
                }
            }
            args.extend(pre);
            let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
            if CMDS[*cmd] == "apply again" {
                let o = cli.run(&a);
                if o.code != Some(0) {
                    return Err(format!("{a:?} fails: {}", o.stderr).into());
                }
                // Only the lockfile is left to say where the archive is.
                let _ = std::fs::remove_dir_all(proj.join("node_modules"));
                let _ = std::fs::remove_dir_all(home.join("cache"));
            }
            let o = cli.run(&a);
            if o.code != Some(0) {
                return Err(format!("{a:?} fails: {} {}", o.stderr, o.stdout).into());
            }
            let log = std::mem::take(&mut w.st.lock().unwrap().log);
            // `ping` asks the default registry.
            let reg = if CMDS[*cmd] == "ping" && *scoped { other } else { *reg };
            judge(w, creds, reg, *tar, None, &log)?;
            if CMDS[*cmd].starts_with("apply") && !log.iter().any(|(_, r)| r.path.ends_with(".tgz")) || log.is_empty() {
                return Err("the archive was not requested".into());
            }
            Ok(want(creds, reg).is_some())
        }
    }
}

pub fn run1(ctx: &Ctx) {
    let n = if ctx.thorough { PLACES.len() } else { 8 };
    let mut creds: Vec<Vec<(usize, usize)>> = vec![vec![]];
    for p in 0..n {
        for k in 0..KINDS {
            creds.push(vec![(p, k)]);
        }
    }
    for p in 0..n {
        for q in 0..n {
            if p != q && !same(p, q) && (p < q || ctx.thorough) {
                for (k, l) in [(0, 1), (3, 0)] {
                    creds.push(vec![(p, k), (q, l)]);
                }
            }
        }
    }
    let mut cases = vec![];
    for pkg in [Pkg::Plain, Pkg::Scoped, Pkg::Unlisted, Pkg::AliasScoped, Pkg::AliasPlain] {
        for reg in 0..n {
            for (ci, cr) in creds.iter().enumerate() {
                // The quick run keeps to one pair per placement for the less usual names.
                if !ctx.thorough && !matches!(pkg, Pkg::Plain | Pkg::Scoped) && cr.len() != 1 {
                    continue;
                }
                for separate in [false, true] {
                    if !ctx.thorough && (ci % 2 == 0) != separate {
                        continue;
                    }
                    for tar in 0..n {
                        cases.push(Case::Nassun { pkg, reg, creds: cr.clone(), tar, redirect: None, separate });
                    }
                    for t in [false, true] {
                        for to in 0..n {
                            if ctx.thorough || matches!(pkg, Pkg::Plain | Pkg::Scoped) {
                                cases.push(Case::Nassun { pkg, reg, creds: cr.clone(), tar: reg, redirect: Some((t, to)), separate });
                            }
                        }
                    }
                }
            }
        }
    }
    for reg in 0..n {
        for cr in &creds {
            for call in 0..CALLS.len() {
                for at in 0..if call >= 6 { n } else { 1 } {
                    cases.push(Case::Client { reg, creds: cr.clone(), call, at: if call >= 6 { at } else { reg } });
                }
            }
        }
    }
    for cmd in 0..CMDS.len() {
        for source in 0..SOURCES.len() {
            for scoped in [false, true] {
                for k in 0..KINDS {
                    for (reg, tar, cr) in [
                        (0, 0, vec![(0, k)]),
                        (0, 4, vec![(0, k), (4, (k + 1) % KINDS)]),
                        (2, 2, vec![(1, k), (5, (k + 1) % KINDS)]),
                        (1, 2, vec![(2, k), (0, (k + 1) % KINDS)]),
                        (1, 3, vec![(1, k), (3, (k + 1) % KINDS)]),
                        (6, 6, vec![(4, k), (0, (k + 1) % KINDS)]),
                    ] {
                        if ctx.thorough || (k + reg + source + cmd) % 2 == 0 {
                            cases.push(Case::Cmd { reg, scoped, creds: cr, tar, source, cmd });
                        }
                    }
                }
            }
        }
    }
    ctx.cov("registries", n as u64);
    ctx.cov("credential assignments", creds.len() as u64);
    // The slow ones first.
    cases.reverse();
    ctx.par(8, cases.into_iter(), show, one);
}

// ---------------------------------------------------------------- C02

pub fn ctx2(thorough: bool) -> Ctx {
    Ctx::new(
        "C02",
        thorough,
        "exploration",
        "Three loopback servers with several registry paths each, with and without a final slash. Every choice of default registry and of the registries of up to two scopes (spelled with and without @) x every sequence of two requests over package name shapes (plain, scoped, of an unlisted scope, of a scope differing in case, aliases in both directions, by version, tag and range) x both metadata documents, memoizing or not; through a manifest with dependencies of dependencies and through the real command with every source of configuration. Every string of up to two (thorough: three) characters of an alphabet of URL-significant characters as a package name, plain and behind a scope, by itself and as a manifest's dependency. Every request must be for the base path of the right registry followed by exactly the package's name; no other request may be made. Non-trivial: a request was made.",
    )
}

pub fn unpercent(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && b.len() >= i + 3 {
            if let Ok(v) = u8::from_str_radix(&s[i + 1..i + 3], 16) {
                out.push(v);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&out).into_owned()
}

enum Case2 {
    /// default, (scope, place)s, specs (indices), full?, memoize
    Lib { default: usize, scopes: Vec<(&'static str, usize)>, specs: Vec<usize>, full: bool, memo: bool },
    Manifest { default: usize, scopes: Vec<(&'static str, usize)> },
    Name { name: String, default: usize, manifest: bool },
    Cmd { default: usize, scopes: Vec<(&'static str, usize)>, source: usize, cmd: usize },
}

/// (spec, name asked for)
const SPECS: &[(&str, &str)] = &[
    ("p", "p"),
    ("p@^1.0.0", "p"),
    ("@s/p@1.0.0", "@s/p"),
    ("@s/p", "@s/p"),
    ("@t/p@latest", "@t/p"),
    ("@S/p@1.0.0", "@S/p"),
    ("@u/p", "@u/p"),
    ("z@npm:@s/p@1.0.0", "@s/p"),
    ("@t/z@npm:@s/p@^1.0.0", "@s/p"),
    ("@s/z@npm:p@1.0.0", "p"),
    ("@s/z@npm:@t/p", "@t/p"),
    ("s", "s"),
    ("@s/s", "@s/s"),
];

fn show2(c: &Case2) -> Value {
    let p = |i: usize| format!("server{}{}", PLACES[i].0, PLACES[i].1);
    let sc = |s: &[(&'static str, usize)]| s.iter().map(|(s, i)| format!("{s} -> {}", p(*i))).collect::<Vec<_>>();
    match c {
        Case2::Lib { default, scopes, specs, full, memo } => json!({"default": p(*default), "scopes": sc(scopes), "specs": specs.iter().map(|s| SPECS[*s].0).collect::<Vec<_>>(), "full": full, "memoize": memo}),
        Case2::Manifest { default, scopes } => json!({"manifest": true, "default": p(*default), "scopes": sc(scopes)}),
        Case2::Name { name, default, manifest } => json!({"name": name, "default": p(*default), "through a manifest": manifest}),
        Case2::Cmd { default, scopes, source, cmd } => json!({"default": p(*default), "scopes": sc(scopes), "configured by": SOURCES[*source], "command": CMDS[*cmd]}),
    }
}

fn registry_of(name: &str, default: usize, scopes: &[(&'static str, usize)]) -> usize {
    scopes
        .iter()
        .find(|(s, _)| name.starts_with(&format!("@{}/", s.trim_start_matches('@'))))
        .map(|(_, p)| *p)
        .unwrap_or(default)
}

/// Every metadata request is for one of these names at its registry, and all are asked for.
fn routed(w: &World, log: &[(usize, Req)], names: &[&str], default: usize, scopes: &[(&'static str, usize)]) -> Result<(), String> {
    let mut seen = vec![];
    for (srv, r) in log {
        if r.path.ends_with(".tgz") {
            continue;
        }
        let asked = names.iter().find(|n| {
            let reg = registry_of(n, default, scopes);
            PLACES[reg].0 == *srv && unpercent(&r.path) == format!("{}/{n}", PLACES[reg].1.trim_end_matches('/'))
        });
        match asked {
            Some(n) => seen.push(*n),
            None => return Err(format!("{}{} is requested, for {names:?}", w.origin(*srv), r.path)),
        }
    }
    for n in names {
        if !seen.contains(n) {
            return Err(format!("no request for {n}: {:?}", log.iter().map(|(s, r)| (s, &r.path)).collect::<Vec<_>>()));
        }
    }
    Ok(())
}

/// Answers for any name below any path; the name is what follows the known base.
struct World2 {
    w: World,
}

fn world2() -> &'static World {
    thread_local! { static W: RefCell<Option<&'static World2>> = RefCell::new(None); }
    W.with(|x| {
        &x.borrow_mut()
            .get_or_insert_with(|| {
                let st: Arc<Mutex<State>> = Default::default();
                let servers = (0..3)
                    .map(|i| {
                        let st = st.clone();
                        Server::start_on(
                            if i == 2 { "127.0.0.2" } else { "127.0.0.1" },
                            Arc::new(move |req: &Req| {
                                let mut s = st.lock().unwrap();
                                s.log.push((i, req.clone()));
                                if req.path.ends_with(".tgz") {
                                    return Resp::ok(tgz());
                                }
                                let p = unpercent(req.path.split('?').next().unwrap());
                                let name = match p.rfind('@') {
                                    Some(i) => p[i..].to_string(),
                                    None => p.rsplit('/').next().unwrap().to_string(),
                                };
                                let deps = match name.as_str() {
                                    "m" => json!({"p": "1.0.0", "@s/p": "1.0.0", "@t/q": "npm:@s/r@1.0.0", "k": "npm:@t/p@^1.0.0"}),
                                    "@s/m" => json!({"n": "1.0.0", "@s/n": "1.0.0"}),
                                    _ => json!({}),
                                };
                                Resp::json(&json!({
                                    "name": name,
                                    "versions": {"1.0.0": {"name": name, "version": "1.0.0", "dependencies": deps, "dist": {"tarball": format!("{}t.tgz", s.tar), "integrity": Universe::integrity(&tgz())}}},
                                    "dist-tags": {"latest": "1.0.0"},
                                }))
                            }),
                        )
                    })
                    .collect();
                Box::leak(Box::new(World2 { w: World { servers, st } }))
            })
            .w
    })
}

const TREE: &[&str] = &["m", "@s/m", "p", "@s/p", "@s/r", "@t/p", "n", "@s/n"];

fn tree_manifest() -> Value {
    json!({"name": "proj", "version": "1.0.0", "dependencies": {"m": "1.0.0", "j": "npm:@s/m@1.0.0"}})
}

fn one2(c: &Case2, dir: &Path) -> Out {
    let w = world2();
    let reset = || *w.st.lock().unwrap() = State { tar: w.base(6), redirect: None, log: vec![] };
    let take = || std::mem::take(&mut w.st.lock().unwrap().log);
    let opts = |default: usize, scopes: &[(&'static str, usize)]| {
        let mut o = NassunOpts::new().retries(0).registry(w.url(default).parse().unwrap());
        for (s, p) in scopes {
            o = o.scope_registry(s, w.url(*p).parse().unwrap());
        }
        o
    };
    reset();
    match c {
        Case2::Lib { default, scopes, specs, full, memo } => {
            let n = opts(*default, scopes).memoize_metadata(*memo).build();
            let mut all = vec![];
            for s in specs {
                let (spec, name) = SPECS[*s];
                async_std::task::block_on(async {
                    let p = n.resolve(spec).await.map_err(|e| format!("{spec}: {e:?}"))?;
                    let got = if *full { p.metadata().await.map_err(|e| format!("{e:?}"))?.manifest.name } else { p.corgi_metadata().await.map_err(|e| format!("{e:?}"))?.manifest.name };
                    if got.as_deref() != Some(name) {
                        return Err(format!("{spec} gives the metadata of {got:?}"));
                    }
                    Ok::<(), String>(())
                })?;
                all.push(name);
                let log = take();
                if *memo {
                    // What was asked before may not be asked again.
                    routed(w, &log, &[], *default, scopes).or_else(|_| routed(w, &log, &[name], *default, scopes))?;
                } else {
                    routed(w, &log, &[name], *default, scopes)?;
                }
            }
            Ok(true)
        }
        Case2::Manifest { default, scopes } => {
            let o = node_maintainer::NodeMaintainer::builder().nassun(opts(*default, scopes).build());
            crate::drive::resolve(o, tree_manifest()).map_err(|e| format!("{e:?}"))?;
            routed(w, &take(), TREE, *default, scopes)?;
            Ok(true)
        }
        Case2::Name { name, default, manifest } => {
            let scopes = [("@s", if PLACES[*default].0 == 2 { 1 } else { 7 })];
            let n = opts(*default, &scopes).build();
            if *manifest {
                let o = node_maintainer::NodeMaintainer::builder().nassun(n);
                let _ = crate::drive::resolve(o, json!({"name": "proj", "version": "1.0.0", "dependencies": {name: "1.0.0"}}));
            } else {
                use oro_package_spec::PackageSpec;
                match name.parse::<PackageSpec>() {
                    Ok(s @ PackageSpec::Npm { .. }) => {
                        let _ = async_std::task::block_on(n.resolve_spec(s));
                    }
                    _ => return Ok(false),
                }
            }
            let log = take();
            for (srv, r) in &log {
                let reg = registry_of(name, *default, &scopes);
                let want = format!("{}/{name}", PLACES[reg].1.trim_end_matches('/'));
                // Behind a further @ is something else than the name.
                if name.trim_start_matches('@').contains('@') {
                    continue;
                }
                if PLACES[reg].0 != *srv || unpercent(&r.path) != want {
                    return Err(format!("{}{} is requested for a package named {name:?}", w.origin(*srv), r.path).into());
                }
            }
            Ok(!log.is_empty())
        }
        Case2::Cmd { default, scopes, source, cmd } => {
            let _ = std::fs::remove_dir_all(dir);
            let (home, proj) = (dir.join("home"), dir.join("proj"));
            let cli = Cli::new(&home, &proj);
            std::fs::write(proj.join("package.json"), tree_manifest().to_string()).unwrap();
            let mut args: Vec<String> = vec!["--retries".into(), "0".into()];
            let mut kdl = format!("options {{\n    registry {:?}\n    scoped-registries {{\n", w.url(*default));
            for (s, p) in scopes {
                kdl += &format!("        {s:?} {:?}\n", w.url(*p));
            }
            kdl += "    }\n}\n";
            std::fs::create_dir_all(cli.config_file().parent().unwrap()).unwrap();
            match SOURCES[*source] {
                "command line" => {
                    args.extend(["--registry".into(), w.url(*default)]);
                    for (s, p) in scopes {
                        args.extend(["--scoped-registry".into(), format!("{s}={}", w.url(*p))]);
                    }
                }
                "project oro.kdl" => std::fs::write(proj.join("oro.kdl"), kdl).unwrap(),
                "user oro.kdl" => std::fs::write(cli.config_file(), kdl).unwrap(),
                "--config FILE" => {
                    std::fs::write(dir.join("my.kdl"), kdl).unwrap();
                    args.extend(["--config".into(), dir.join("my.kdl").display().to_string()]);
                }
                _ => {
                    args.extend(["--registry".into(), w.url(*default)]);
                    for (s, p) in scopes {
                        let o = cli.run(&["login", "--registry", &w.url(*p), "--scope", s, "--token", "abc"]);
                        if o.code != Some(0) {
                            return Err(format!("oro login fails: {}", o.stderr).into());
                        }
                    }
                }
            }
            let runs: Vec<(Vec<&str>, Vec<&str>)> = match CMDS[*cmd] {
                "view" => SPECS.iter().map(|(s, n)| (vec!["view", *s], vec![*n])).collect(),
                _ => vec![(vec!["apply", "--lockfile-only"], TREE.to_vec())],
            };
            for (a, names) in runs {
                reset();
                let a: Vec<&str> = a.into_iter().chain(args.iter().map(|s| s.as_str())).collect();
                let o = cli.run(&a);
                if o.code != Some(0) {
                    return Err(format!("{a:?} fails: {} {}", o.stderr, o.stdout).into());
                }
                // Cached metadata need not be asked for again, so each command has its own.
                let _ = std::fs::remove_dir_all(home.join("cache"));
                routed(w, &take(), &names, *default, scopes).map_err(|e| format!("{a:?}: {e}"))?;
            }
            Ok(true)
        }
    }
}

pub fn run2(ctx: &Ctx) {
    let n = if ctx.thorough { PLACES.len() } else { 8 };
    let mut configs: Vec<(usize, Vec<(&'static str, usize)>)> = vec![];
    for d in 0..n {
        configs.push((d, vec![]));
        for s in 0..n {
            configs.push((d, vec![("@s", s)]));
            configs.push((d, vec![("s", s)]));
            for t in 0..n {
                if ctx.thorough || (d + s + t) % 3 == 0 {
                    configs.push((d, vec![("@s", s), ("@t", t)]));
                }
            }
        }
    }
    let mut cases = vec![];
    for (d, sc) in &configs {
        for i in 0..SPECS.len() {
            for full in [false, true] {
                cases.push(Case2::Lib { default: *d, scopes: sc.clone(), specs: vec![i], full, memo: false });
            }
            for j in 0..SPECS.len() {
                if ctx.thorough || (sc.len() == 1 && (*d + sc[0].1) % 4 == 1 && i != j) {
                    for full in [false, true] {
                        cases.push(Case2::Lib { default: *d, scopes: sc.clone(), specs: vec![i, j], full, memo: true });
                    }
                }
            }
        }
        cases.push(Case2::Manifest { default: *d, scopes: sc.clone() });
    }
    let chars = ["a", ".", "-", "_", "~", "!", "*", "'", "(", ")", "%", "/", "\\", ":", "?", "#", "&", "=", "+", "@", " ", "é", "\t", "2f", "http", "127.0.0.1"];
    let mut names: Vec<String> = vec![String::new()];
    let mut last = names.clone();
    for _ in 0..if ctx.thorough { 3 } else { 2 } {
        last = last.iter().flat_map(|p| chars.iter().map(move |c| format!("{p}{c}"))).collect();
        names.extend(last.clone());
    }
    names.extend(["//127.0.0.2/p", "http://127.0.0.2/p", "..//127.0.0.2/p", "/\\127.0.0.2/p", "@s/..", "@../p", "@./p", "@s/.", "@s/../p", "@s/%2e%2e", "@s\\p", "@//p", "a/../../p", "@s/p?x", "@s/p#x"].map(String::from));
    names.dedup();
    ctx.cov("names", names.len() as u64);
    for name in &names {
        for full in [name.clone(), format!("@s/{name}"), format!("@{name}/p"), format!("@s/p{name}")] {
            for d in [0, 2] {
                for manifest in [false, true] {
                    if !manifest || ctx.thorough || d == 2 {
                        cases.push(Case2::Name { name: full.clone(), default: d, manifest });
                    }
                }
            }
        }
    }
    let mut k = 0;
    for (d, sc) in &configs {
        if sc.len() != 2 && *d > 1 {
            continue;
        }
        for source in 0..SOURCES.len() {
            for cmd in [0, 2] {
                k += 1;
                if ctx.thorough || k % 17 == 0 {
                    cases.push(Case2::Cmd { default: *d, scopes: sc.clone(), source, cmd });
                }
            }
        }
    }
    cases.reverse();
    ctx.par(8, cases.into_iter(), show2, one2);
}
