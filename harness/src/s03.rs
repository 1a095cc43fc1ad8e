//! S03: stored credentials.
use crate::cli::Cli;
use crate::http::{Req, Resp, Server};
use crate::report::*;
use base64::{engine::general_purpose, Engine as _};
use kdl::KdlDocument;
use oro_npm_account::config::{self, Credentials};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use url::Url;

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "S03",
        thorough,
        "exploration",
        "Every document reachable from each initial configuration file (empty, commented, one-line, without values, with entries of its own, with damaged neighbours) by storing and clearing every credential of an alphabet (tokens, legacy tokens, users with and without password; texts that need quoting) for every registry, and by setting every scope's registry, up to a depth, with the library; and the same with the real `oro login` and `oro logout`, each reached file then used by the real `oro ping` and `oro view`. Compared with a map from registries to credentials and from scopes to registries: every look-up, the parsed text, everything else in the file, the requests made. Non-trivial: something is stored.",
    )
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Cred {
    Token(String),
    Legacy(String),
    Basic(String, Option<String>),
}
use Cred::*;

impl Cred {
    fn of(c: &Credentials) -> Self {
        match c {
            Credentials::Token(t) => Token(t.clone()),
            Credentials::LegacyAuth(t) => Legacy(t.clone()),
            Credentials::BasicAuth { username, password } => Basic(username.clone(), password.clone()),
        }
    }
    fn real(&self) -> Credentials {
        match self.clone() {
            Token(t) => Credentials::Token(t),
            Legacy(t) => Credentials::LegacyAuth(t),
            Basic(username, password) => Credentials::BasicAuth { username, password },
        }
    }
    fn header(&self) -> String {
        match self {
            Token(t) => format!("Bearer {t}"),
            Legacy(t) => format!("Basic {t}"),
            Basic(u, p) => format!("Basic {}", general_purpose::STANDARD.encode(format!("{u}:{}", p.as_deref().unwrap_or("")))),
        }
    }
    fn json(&self) -> Value {
        match self {
            Token(t) => json!({ "token": t }),
            Legacy(t) => json!({ "legacy-auth": t }),
            Basic(u, p) => json!({ "username": u, "password": p }),
        }
    }
}

/// What registry a URL names: everything but the scheme, and whether it ends with a slash.
fn key(u: &str) -> String {
    let u = Url::parse(u).unwrap();
    let p = u.path().trim_end_matches('/').to_string();
    format!("{}|{:?}|{p}", u.host_str().unwrap_or(""), u.port())
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Model {
    auth: BTreeMap<String, Cred>,
    scopes: BTreeMap<String, String>,
}

#[derive(Clone, Debug)]
enum Op {
    Set(usize, usize),
    Clear(usize),
    Scope(usize, usize),
}

const URIS: &[&str] = &["https://r.example/", "https://r.example", "https://r.example/p", "https://r.example/p/", "http://r.example:8080/", "https://other.example/a%20b/c"];
const SCOPES: &[&str] = &["@s", "s", "@t-\u{e9}", "@\"q"];

fn creds() -> Vec<Cred> {
    let s = |t: &str| t.to_string();
    vec![
        Token(s("t0")),
        Token(s("")),
        Token(s("a\"b\\c{}; //d\n\t\u{e9}=#")),
        Token(s("true")),
        Legacy(s("dXNlcjpwYXNz")),
        Legacy(s("t0")),
        Basic(s("user"), Some(s("pass"))),
        Basic(s("user"), None),
        // A password that can be taken for an encoded one.
        Basic(s("u\u{e9}:\""), Some(s("cGFzcw=="))),
        Basic(s("-"), Some(s(""))),
    ]
}

struct Base {
    text: &'static str,
    auth: &'static [(&'static str, &'static str)],
    scopes: &'static [(&'static str, &'static str)],
}

/// Initial documents, and what they say.
const BASES: &[Base] = &[
    Base { text: "", auth: &[], scopes: &[] },
    Base { text: "// Mine.\n", auth: &[], scopes: &[] },
    Base { text: "// No newline", auth: &[], scopes: &[] },
    Base { text: "options", auth: &[], scopes: &[] },
    Base { text: "options {\n}\n", auth: &[], scopes: &[] },
    Base { text: "options {}\nother 1", auth: &[], scopes: &[] },
    Base { text: "options { registry \"https://x.example/\"; }", auth: &[], scopes: &[] },
    Base { text: "other {\n    - 1 // one\n}\n/* a\n b */\noptions {\n\tregistry \"https://x.example/\" // Why?\n\t/- emoji false\n\temoji\n}\n\n// end\nmore \"x\" y=2\n", auth: &[], scopes: &[] },
    Base { text: "options {\n    auth\n    scoped-registries\n}\n", auth: &[], scopes: &[] },
    Base { text: "options {\n    auth {\n    }\n    scoped-registries {}\n    emoji\n}\n", auth: &[], scopes: &[] },
    Base {
        text: "options {\n    auth {\n        \"https://r.example\" token=\"mine\"\n        \"https://keep.example/\" username=\"a\" password=\"b\"\n    }\n    scoped-registries {\n        \"@s\" \"https://r.example/\"\n        \"@keep\" \"https://keep.example/\"\n    }\n}\n",
        auth: &[("https://r.example/", "token mine"), ("https://keep.example/", "basic a b")],
        scopes: &[("s", "https://r.example/"), ("keep", "https://keep.example/")],
    },
    Base {
        text: "options { auth { \"https://r.example/p\" legacy-auth=\"l\"; \"https://keep.example/\" username=\"a\"; }; scoped-registries { s \"https://r.example/\"; \"@keep\" \"https://keep.example/\"; }; }\n",
        auth: &[("https://r.example/p", "legacy l"), ("https://keep.example/", "user a")],
        scopes: &[("s", "https://r.example/"), ("keep", "https://keep.example/")],
    },
    Base {
        text: "options {\n    auth { \"https://r.example\" token=\"mine\"; }\n    scoped-registries { \"@s\" \"https://r.example/\"; }\n    emoji\n}\n",
        auth: &[("https://r.example/", "token mine")],
        scopes: &[("s", "https://r.example/")],
    },
    Base {
        text: "options {\n    auth {\n        // A comment.\n        \"keep.example\" token=\"not a url\"\n        \"https://keep.example/\" {\n            token \"nested\"\n        }\n    }\n}\n",
        auth: &[],
        scopes: &[],
    },
];

fn base_cred(s: &str) -> Cred {
    let p: Vec<&str> = s.split(' ').collect();
    match p[0] {
        "token" => Token(p[1].into()),
        "legacy" => Legacy(p[1].into()),
        "basic" => Basic(p[1].into(), Some(p[2].into())),
        _ => Basic(p[1].into(), None),
    }
}

fn initial(b: &Base) -> Model {
    Model {
        auth: b.auth.iter().map(|(u, c)| (key(u), base_cred(c))).collect(),
        scopes: b.scopes.iter().map(|(s, u)| (s.to_string(), u.to_string())).collect(),
    }
}

fn unscoped(s: &str) -> String {
    s.strip_prefix('@').unwrap_or(s).to_string()
}

/// Everything but `auth` and `scoped-registries`, one node per line.
fn others(doc: &KdlDocument) -> Vec<String> {
    fn entries(n: &kdl::KdlNode) -> String {
        n.entries().iter().map(|e| format!(" {:?}={:?}", e.name().map(|n| n.value().to_string()), e.value())).collect()
    }
    fn all(n: &kdl::KdlNode, path: &str, out: &mut Vec<String>) {
        let p = format!("{path}/{}", n.name().value());
        out.push(format!("{p}{}", entries(n)));
        for c in n.children().map(|c| c.nodes()).unwrap_or(&[]) {
            all(c, &p, out);
        }
    }
    let mut out = vec![];
    for n in doc.nodes() {
        if n.name().value() != "options" {
            all(n, "", &mut out);
            continue;
        }
        if !n.entries().is_empty() {
            out.push(format!("options{}", entries(n)));
        }
        for c in n.children().map(|c| c.nodes()).unwrap_or(&[]) {
            if !["auth", "scoped-registries"].contains(&c.name().value()) {
                all(c, "/options", &mut out);
            }
        }
    }
    out
}

/// Comments of the initial documents outside of what's stored.
const COMMENTS: &[&str] = &["// Mine.", "// No newline", "// one", "/* a\n b */", "// Why?", "/- emoji false", "// end", "// A comment."];

/// Does this document say what the model says?
fn agrees(text: &str, base: &Base, m: &Model) -> Result<(), String> {
    let doc: KdlDocument = text.parse().map_err(|e| format!("can't be read any more: {e:?}"))?;
    for u in URIS.iter().chain(base.auth.iter().map(|(u, _)| u)).chain(&["https://unknown.example/", "https://r.example/p/q"]) {
        let got = config::get_credentials_by_uri(&Url::parse(u).unwrap(), &doc).map(|c| Cred::of(&c));
        let want = m.auth.get(&key(u));
        if got.as_ref() != want {
            return Err(format!("looking up {u} gives {got:?}, not {want:?}"));
        }
    }
    let opts = doc.get("options").and_then(|o| o.children());
    let mut auth = BTreeMap::new();
    for n in opts.and_then(|o| o.get("auth")).and_then(|a| a.children()).map(|c| c.nodes()).unwrap_or(&[]) {
        if Url::parse(n.name().value()).is_err() || n.children().is_some() {
            continue;
        }
        let prop = |k: &str| n.get(k).and_then(|e| e.as_string()).map(|s| s.to_string());
        let c = match (prop("token"), prop("legacy-auth"), prop("username")) {
            (Some(t), None, None) => Token(t),
            (None, Some(l), None) => Legacy(l),
            (None, None, Some(u)) => Basic(u, prop("password")),
            x => return Err(format!("{} has {x:?}", n.name().value())),
        };
        if auth.insert(key(n.name().value()), c).is_some() {
            return Err(format!("two entries for {}", n.name().value()));
        }
    }
    if auth != m.auth {
        return Err(format!("the credentials are {auth:?}, not {:?}", m.auth));
    }
    let mut scopes = BTreeMap::new();
    for n in opts.and_then(|o| o.get("scoped-registries")).and_then(|a| a.children()).map(|c| c.nodes()).unwrap_or(&[]) {
        let v = n.get(0).and_then(|e| e.as_string()).unwrap_or("?").to_string();
        if scopes.insert(unscoped(n.name().value()), v).is_some() {
            return Err(format!("two entries for the scope {}", n.name().value()));
        }
    }
    if scopes != m.scopes {
        return Err(format!("the scopes are {scopes:?}, not {:?}", m.scopes));
    }
    let b: KdlDocument = base.text.parse().map_err(|e| format!("base: {e:?}"))?;
    if others(&b) != others(&doc) {
        return Err(format!("other settings are {:?}, not {:?}", others(&doc), others(&b)));
    }
    for c in COMMENTS {
        if base.text.contains(c) && !text.contains(c) {
            return Err(format!("the comment {c:?} is gone"));
        }
    }
    if base.text.contains("\"keep.example\"") && !text.contains("\"keep.example\" token=\"not a url\"") {
        return Err("the entry of \"keep.example\" is gone".into());
    }
    if base.text.contains("token \"nested\"") && !text.contains("token \"nested\"") {
        return Err("the entry of https://keep.example/ is gone".into());
    }
    Ok(())
}

fn step(m: &Model, op: &Op, cs: &[Cred], uris: &[String], scopes: &[String]) -> Model {
    let mut m = m.clone();
    match op {
        Op::Set(u, c) => {
            m.auth.insert(key(&uris[*u]), cs[*c].clone());
        }
        Op::Clear(u) => {
            m.auth.remove(&key(&uris[*u]));
        }
        Op::Scope(s, u) => {
            m.scopes.insert(unscoped(&scopes[*s]), Url::parse(&uris[*u]).unwrap().to_string());
        }
    }
    m
}

fn apply(text: &str, op: &Op, cs: &[Cred]) -> Result<String, String> {
    let mut doc: KdlDocument = text.parse().map_err(|e| format!("{e:?}"))?;
    match op {
        Op::Set(u, c) => config::set_credentials_by_uri(&Url::parse(URIS[*u]).unwrap(), &cs[*c].real(), &mut doc),
        Op::Clear(u) => config::clear_crendentials_by_uri(&Url::parse(URIS[*u]).unwrap(), &mut doc),
        Op::Scope(s, u) => config::set_scoped_registry(SCOPES[*s], &Url::parse(URIS[*u]).unwrap(), &mut doc),
    }
    Ok(doc.to_string())
}

fn show(op: &Op, cs: &[Cred]) -> Value {
    match op {
        Op::Set(u, c) => json!(["store", URIS[*u], cs[*c].json()]),
        Op::Clear(u) => json!(["clear", URIS[*u]]),
        Op::Scope(s, u) => json!(["scope", SCOPES[*s], URIS[*u]]),
    }
}

/// All documents the library's operations reach.
fn library(c: &Ctx, depth: usize) {
    let cs = creds();
    let uris: Vec<String> = URIS.iter().map(|s| s.to_string()).collect();
    let scopes: Vec<String> = SCOPES.iter().map(|s| s.to_string()).collect();
    let mut ops: Vec<Op> = vec![];
    for u in 0..URIS.len() {
        ops.extend((0..cs.len()).map(|c| Op::Set(u, c)));
        ops.push(Op::Clear(u));
    }
    for s in 0..SCOPES.len() {
        ops.extend([0, 2].iter().map(|u| Op::Scope(s, *u)));
    }
    // The headers of credentials as such.
    for x in &cs {
        let want = reqwest_value(&x.header());
        let got: Result<reqwest::header::HeaderValue, _> = x.real().try_into();
        let got = got.ok().map(|v: reqwest::header::HeaderValue| v.as_bytes().to_vec());
        if got != want {
            c.done(&json!({ "header": x.json() }), Err(Viol::new(format!("header {x:?}"), format!("{x:?} is sent as {:?}, not {:?}", got.map(|b| String::from_utf8_lossy(&b).into_owned()), x.header()))));
        } else {
            c.done(&json!({ "header": x.json() }), Ok(true));
        }
    }
    for (b, base) in BASES.iter().enumerate() {
        let mut seen: HashSet<String> = HashSet::from([base.text.to_string()]);
        let mut level: Vec<(String, Model, Vec<Op>)> = vec![(base.text.to_string(), initial(base), vec![])];
        if let Err(e) = agrees(base.text, base, &level[0].1) {
            c.done(&json!({ "document": base.text }), Err(Viol::new(format!("base {b}"), format!("in {:?}: {e}", base.text))));
            continue;
        }
        for d in 0..depth {
            if c.out_of_time() {
                return;
            }
            let next: Mutex<Vec<(String, Model, Vec<Op>)>> = Mutex::new(vec![]);
            let reached: Mutex<HashMap<String, Model>> = Mutex::new(HashMap::new());
            let cases = level.iter().flat_map(|s| ops.iter().map(move |o| (s, o)));
            c.par(
                8,
                cases,
                |((_, _, path), o)| json!({ "document": base.text, "operations": path.iter().chain([*o]).map(|o| show(o, &cs)).collect::<Vec<_>>() }),
                |((text, m, path), o), _| {
                    let want = step(m, o, &cs, &uris, &scopes);
                    let id = || format!("base {b} {:?}", path.iter().chain([*o]).collect::<Vec<_>>());
                    let got = apply(text, o, &cs).map_err(|e| Viol::new(id(), e))?;
                    c.transitions.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let known = reached.lock().unwrap().get(&got).map(|m| *m == want);
                    if known != Some(true) {
                        agrees(&got, base, &want).map_err(|e| {
                            Viol::new(id(), format!("{:?} after {:?}: {e}; the document is now {got:?}", base.text, path.iter().chain([*o]).map(|o| show(o, &cs).to_string()).collect::<Vec<_>>()))
                        })?;
                        let new = reached.lock().unwrap().insert(got.clone(), want.clone()).is_none();
                        if new && d + 1 < depth {
                            next.lock().unwrap().push((got, want.clone(), path.iter().chain([*o]).cloned().collect()));
                        }
                    }
                    Ok(!want.auth.is_empty() || !want.scopes.is_empty())
                },
            );
            let mut n = next.into_inner().unwrap();
            n.retain(|(t, ..)| seen.insert(t.clone()));
            n.sort_by(|a, b| a.0.cmp(&b.0));
            c.states.fetch_add(n.len() as u64, std::sync::atomic::Ordering::SeqCst);
            level = n;
        }
    }
}

fn reqwest_value(s: &str) -> Option<Vec<u8>> {
    reqwest::header::HeaderValue::from_str(s).ok().map(|v| v.as_bytes().to_vec())
}

// ---- The commands.

struct World {
    server: Server,
    log: Arc<Mutex<Vec<Req>>>,
}

thread_local! {
    static WORLD: RefCell<Option<&'static World>> = RefCell::new(None);
}

fn world() -> &'static World {
    WORLD.with(|w| {
        *w.borrow_mut().get_or_insert_with(|| {
            let log: Arc<Mutex<Vec<Req>>> = Arc::default();
            let l = log.clone();
            let server = Server::start(Arc::new(move |r: &Req| {
                l.lock().unwrap().push(Req { method: r.method.clone(), path: r.path.clone(), headers: r.headers.clone(), body: r.body.clone() });
                if r.path.ends_with("/-/ping") || r.method == "DELETE" {
                    return Resp::json(&json!({}));
                }
                let v = json!({ "name": "@s/p", "version": "1.0.0", "dist": { "tarball": "http://127.0.0.1:1/x.tgz" } });
                Resp::json(&json!({ "name": "@s/p", "dist-tags": { "latest": "1.0.0" }, "versions": { "1.0.0": v } }))
            }));
            Box::leak(Box::new(World { server, log }))
        })
    })
}

/// Paths of the registries; the last is the default one.
const REGS: &[&str] = &["r0/", "r0/in", "r1/"];
const CSCOPES: &[&str] = &["@s", "s"];

fn ccreds() -> Vec<Cred> {
    let s = |t: &str| t.to_string();
    vec![Token(s("tok/../en?#\"\\%41")), Legacy(s("dTpw")), Basic(s("us er"), Some(s("cGFzcw==\u{e9}"))), Basic(s("user"), None)]
}

#[derive(Clone, Debug)]
enum Cop {
    Login(usize, usize, Option<usize>),
    Logout(usize),
}

struct Case<'a> {
    base: &'a str,
    path: Vec<Cop>,
    /// The configuration file is given explicitly.
    explicit: bool,
}

fn cargs(op: &Cop, url: &str, cs: &[Cred]) -> Vec<String> {
    let s = |t: &str| t.to_string();
    match op {
        Cop::Login(r, c, scope) => {
            let mut a = vec![s("login"), s("--registry"), format!("{url}{}", REGS[*r])];
            match &cs[*c] {
                Token(t) => a.extend([s("--token"), t.clone()]),
                Legacy(t) => a.extend([s("--legacy-token"), t.clone()]),
                Basic(u, p) => {
                    a.extend([s("--username"), u.clone()]);
                    if let Some(p) = p {
                        a.extend([s("--password"), p.clone()]);
                    }
                }
            }
            if let Some(x) = scope {
                a.extend([s("--scope"), s(CSCOPES[*x])]);
            }
            a
        }
        Cop::Logout(r) => vec![s("logout"), s("--registry"), format!("{url}{}", REGS[*r])],
    }
}

fn run_case(case: &Case, cs: &[Cred], dir: &Path) -> Out {
    let w = world();
    for d in ["home", "p", "cfg"] {
        let _ = std::fs::remove_dir_all(dir.join(d));
    }
    let url = format!("{}/", w.server.url().trim_end_matches('/'));
    let mut cli = Cli::new(&dir.join("home"), &dir.join("p"));
    cli.timeout = Duration::from_secs(30);
    let file = if case.explicit { dir.join("cfg/x.kdl") } else { cli.config_file() };
    if !case.base.is_empty() {
        std::fs::create_dir_all(file.parent().unwrap()).unwrap();
        std::fs::write(&file, case.base).unwrap();
    }
    let base = Base { text: Box::leak(case.base.to_string().into_boxed_str()), auth: &[], scopes: &[] };
    let f = file.display().to_string();
    let run = |args: &[String]| {
        w.log.lock().unwrap().clear();
        let mut a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        if case.explicit {
            a.extend(["--config", &f]);
        }
        let o = cli.run(&a);
        let log: Vec<Req> = std::mem::take(&mut *w.log.lock().unwrap());
        (o, log)
    };
    let id = format!("cli {} {:?} {}", case.base.len(), case.path, case.explicit);
    let fail = |what: String| Viol::new(id.clone(), what);
    let uris: Vec<String> = REGS.iter().map(|r| format!("{url}{r}")).collect();
    let scopes: Vec<String> = CSCOPES.iter().map(|s| s.to_string()).collect();
    let auth_of = |r: &Req| -> Vec<Vec<u8>> { r.headers.iter().filter(|(k, _)| k.eq_ignore_ascii_case("authorization")).map(|(_, v)| v.as_bytes().to_vec()).collect() };
    let mut m = Model::default();
    for op in &case.path {
        let args = cargs(op, &url, cs);
        let before = m.clone();
        let (o, log) = run(&args);
        if o.code != Some(0) {
            return Err(fail(format!("`oro {}` ends with {:?}: {}", args.join(" "), o.code, o.stderr)));
        }
        match op {
            Cop::Login(r, c, s) => {
                m = step(&m, &Op::Set(*r, *c), cs, &uris, &scopes);
                if let Some(s) = s {
                    m = step(&m, &Op::Scope(*s, *r), cs, &uris, &scopes);
                }
                if !log.is_empty() {
                    return Err(fail(format!("`oro {}` asks {}", args.join(" "), log[0].path)));
                }
            }
            Cop::Logout(r) => {
                m = step(&m, &Op::Clear(*r), cs, &uris, &scopes);
                let old = before.auth.get(&key(&uris[*r]));
                let revoked: Vec<(&str, String, Vec<Vec<u8>>)> = log.iter().map(|q| (q.method.as_str(), q.path.clone(), auth_of(q))).collect();
                match old {
                    Some(Token(t)) => {
                        let prefix = format!("/{}/-/user/token/", REGS[*r].trim_end_matches('/'));
                        let ok = revoked.len() == 1
                            && revoked[0].0 == "DELETE"
                            && revoked[0].1.strip_prefix(&prefix).map_or(false, |x| !x.contains(['/', '?', '#']) && crate::c01::unpercent(x) == *t)
                            && revoked[0].2 == vec![format!("Bearer {t}").into_bytes()];
                        if !ok {
                            return Err(fail(format!("`oro {}` with the token {t:?} stored for this registry sends {revoked:?}", args.join(" "))));
                        }
                    }
                    // Nothing to revoke.
                    _ => {
                        if !revoked.is_empty() {
                            return Err(fail(format!("`oro {}` without a token sends {revoked:?}", args.join(" "))));
                        }
                    }
                }
            }
        }
    }
    let text = std::fs::read_to_string(&file).unwrap_or_default();
    let hist = case.path.iter().map(|op| format!("`oro {}`", cargs(op, &url, cs).join(" "))).collect::<Vec<_>>().join(", ");
    agrees_cli(&text, &base, &m).map_err(|e| fail(format!("after {hist} on {:?}: {e}; the file is now {text:?}", case.base)))?;
    // What requests then use.
    for (i, u) in uris.iter().enumerate() {
        let (o, log) = run(&["ping".into(), "--registry".into(), u.clone()]);
        let want: Vec<Vec<u8>> = m.auth.get(&key(u)).map(|c| c.header().into_bytes()).into_iter().collect();
        if o.code != Some(0) || log.len() != 1 || auth_of(&log[0]) != want {
            return Err(fail(format!(
                "after {hist}, `oro ping` of {} ends with {:?} and is authorized by {:?}, not {:?}: {}",
                REGS[i],
                o.code,
                log.iter().map(|r| auth_of(r).iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect::<Vec<_>>()).collect::<Vec<_>>(),
                want.iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect::<Vec<_>>(),
                o.stderr
            )));
        }
    }
    if let Some(u) = m.scopes.get("s") {
        let (o, log) = run(&["view".into(), "@s/p".into(), "--registry".into(), uris[2].clone()]);
        let want: Vec<Vec<u8>> = m.auth.get(&key(u)).map(|c| c.header().into_bytes()).into_iter().collect();
        let dir = Url::parse(u).unwrap().path().trim_end_matches('/').to_string();
        let at = |p: &str| ["@s%2fp", "@s/p", "@s%2Fp"].iter().any(|n| p == format!("{dir}/{n}"));
        if o.code != Some(0) || log.is_empty() || log.iter().any(|r| !at(&r.path) || auth_of(r) != want) {
            return Err(fail(format!(
                "after {hist}, `oro view @s/p` ends with {:?} after asking {:?}, authorized by {:?}, not {:?}: {}",
                o.code,
                log.iter().map(|r| r.path.clone()).collect::<Vec<_>>(),
                log.iter().map(|r| auth_of(r).iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect::<Vec<_>>()).collect::<Vec<_>>(),
                want.iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect::<Vec<_>>(),
                o.stderr
            )));
        }
    }
    Ok(!m.auth.is_empty())
}

fn agrees_cli(text: &str, base: &Base, m: &Model) -> Result<(), String> {
    agrees(text, base, m)
}

fn commands(c: &Ctx, depth: usize) {
    let cs = ccreds();
    let mut ops = vec![];
    for r in 0..REGS.len() {
        for x in 0..cs.len() {
            ops.push(Cop::Login(r, x, None));
        }
        ops.push(Cop::Login(r, 0, Some(0)));
        ops.push(Cop::Logout(r));
    }
    ops.push(Cop::Login(1, 2, Some(1)));
    let mut paths: Vec<Vec<Cop>> = vec![vec![]];
    let mut level = paths.clone();
    for _ in 0..depth {
        level = level.iter().flat_map(|p| ops.iter().map(move |o| p.iter().cloned().chain([o.clone()]).collect::<Vec<_>>())).collect();
        paths.extend(level.iter().cloned());
    }
    let bases = ["", "// Mine.\noptions {\n    emoji false // Why?\n}\n", "options { emoji false; }"];
    let mut cases = vec![];
    for (b, base) in bases.iter().enumerate() {
        for p in &paths {
            if p.len() == depth && depth > 2 && b != p.len() % bases.len() {
                continue;
            }
            for explicit in [false, true] {
                if p.len() < depth || explicit == (b % 2 == 0) {
                    cases.push(Case { base, path: p.clone(), explicit });
                }
            }
        }
    }
    c.addcov("command_histories", cases.len() as u64);
    c.par(
        8,
        cases.iter(),
        |x| json!({ "file": x.base, "explicit": x.explicit, "commands": x.path.iter().map(|o| cargs(o, "http://HOST/", &cs)).collect::<Vec<_>>() }),
        |x, dir| run_case(x, &cs, dir),
    );
}

pub fn run(c: &Ctx) {
    let n = if c.thorough { 3 } else { 2 };
    c.cov("initial_documents", BASES.len() as u64);
    c.cov("library_depth", n);
    c.cov("command_depth", n);
    library(c, n);
    commands(c, n);
}
