//! C06: credentials don't show up in output, logs or the project.
use crate::cli::Cli;
use crate::http::{Req, Resp, Server};
use crate::report::*;
use crate::uni::*;
use base64::Engine as _;
use serde_json::json;
use std::path::Path;
use std::sync::{Arc, Mutex};

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "C06",
        thorough,
        "exploration",
        "Every combination of a kind of credentials (token, user name and password, encoded, a misspelled field, a password for the proxy), where they are given (command line in both forms, user's or project's oro.kdl, environment), a command (ping, view, apply, add, remove, logout, login in all its ways), what the registry answers (as it should, unauthorized, not found, failing, garbage, nothing, a redirect) and how much is logged: the real `oro` command runs in a home of its own, and none of the secrets - as they are, percent-encoded, or in the encoding of basic authentication - may be in its output, in its debug log, or in anything it left in the project. Non-trivial: the secret was sent to the registry or stored.",
    )
}

const TOKEN: &str = "npm_S3cr3tT0k3n";
const PASS: &str = "S3cr3tP@ss/w0rd";

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Token,
    Basic,
    Legacy,
    Misspelled,
    Proxy,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum From {
    Split,
    Joined,
    User,
    Project,
    Env,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ans {
    Good,
    Status(u16),
    Garbage,
    Nothing,
    Moved,
}

#[derive(Clone, Debug)]
struct Case {
    kind: Kind,
    from: From,
    cmd: &'static [&'static str],
    ans: Ans,
    log: &'static [&'static str],
}

fn b64(t: &str) -> String {
    base64::engine::general_purpose::STANDARD.encode(t)
}

fn secrets() -> Vec<String> {
    vec![
        "S3cr3tT0k3n".into(),
        "S3cr3tP".into(),
        b64(&format!("me:{PASS}")).trim_end_matches('=').into(),
        b64(&format!("proxy:{PASS}")).trim_end_matches('=').into(),
    ]
}

struct World {
    server: Server,
    /// By the first step of the path, a registry for each case.
    reg: Arc<Mutex<std::collections::HashMap<String, (Ans, bool)>>>,
    next: std::sync::atomic::AtomicU64,
}

fn world() -> World {
    let reg: Arc<Mutex<std::collections::HashMap<String, (Ans, bool)>>> = Default::default();
    let mut u = Universe::default();
    u.add("p", "1.0.0", Ver::deps(&[("q", "1")]).script("postinstall", "exit 0"));
    u.add("q", "1.0.0", Ver::default());
    let port = Arc::new(Mutex::new(0u16));
    let (r2, p2) = (reg.clone(), port.clone());
    let server = Server::start(Arc::new(move |q: &Req| {
        // By way of the proxy, the whole address is named.
        let path = q.path.strip_prefix("http://").and_then(|p| p.find('/').map(|i| &p[i..])).unwrap_or(&q.path);
        let id = path.split('/').nth(1).unwrap_or("").to_string();
        let base = format!("http://127.0.0.1:{}/{id}/", p2.lock().unwrap());
        let rest = path[(id.len() + 1).min(path.len())..].to_string();
        let ans = {
            let mut r = r2.lock().unwrap();
            let Some((ans, seen)) = r.get_mut(&id) else { return Resp::status(404) };
            let all = format!("{} {:?} {}", q.path, q.headers, String::from_utf8_lossy(&q.body));
            *seen |= secrets().iter().any(|s| all.contains(s.as_str()));
            *ans
        };
        match ans {
            Ans::Status(s) => Resp { body: b"{\"error\":\"no\"}".to_vec(), ..Resp::status(s) },
            Ans::Garbage => Resp::ok("{\"token\": 1, garbage"),
            Ans::Nothing => Resp { reset: true, ..Default::default() },
            Ans::Moved if !rest.starts_with("/moved") => Resp::status(307).with("location", &format!("{base}moved{rest}")),
            _ => {
                let rest = rest.strip_prefix("/moved").unwrap_or(&rest).to_string();
                match (q.method.as_str(), rest.split('?').next().unwrap_or("")) {
                    (_, "/-/ping") => Resp::json(&json!({})),
                    ("POST", "/-/v1/login") => Resp::json(&json!({"loginUrl": format!("{base}login"), "doneUrl": format!("{base}done")})),
                    (_, "/done") => Resp::json(&json!({ "token": TOKEN })),
                    ("DELETE", _) => Resp::json(&json!({})),
                    _ => u.answer(&Req { path: rest, ..q.clone() }, &base, true),
                }
            }
        }
    }));
    *port.lock().unwrap() = server.port;
    World { server, reg, next: std::sync::atomic::AtomicU64::new(1) }
}

fn holds(dir: &Path, what: &[String]) -> Option<(String, String)> {
    for e in walkdir::WalkDir::new(dir).into_iter().filter_map(|e| e.ok()) {
        let name = e.path().strip_prefix(dir).unwrap_or(e.path()).display().to_string();
        let link = std::fs::read_link(e.path()).map(|l| l.display().to_string()).unwrap_or_default();
        let data = if e.file_type().is_file() { String::from_utf8_lossy(&std::fs::read(e.path()).unwrap_or_default()).into_owned() } else { String::new() };
        for s in what {
            if name.contains(s.as_str()) || link.contains(s.as_str()) || data.contains(s.as_str()) {
                let line = data.lines().find(|l| l.contains(s.as_str())).unwrap_or("").to_string();
                return Some((name, line));
            }
        }
    }
    None
}

fn one(w: &World, c: &Case, dir: &Path) -> Out {
    let _ = std::fs::remove_dir_all(dir);
    let id = format!("r{}", w.next.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
    w.reg.lock().unwrap().insert(id.clone(), (c.ans, false));
    let base = format!("{}{id}/", w.server.url());
    let (home, proj) = (dir.join("home"), dir.join("proj"));
    let mut cli = Cli::new(&home, &proj);
    let path = format!("{}:/usr/bin:/bin", crate::c04::browser(&home).display());
    cli.env.push(("PATH".into(), path));
    std::fs::write(proj.join("package.json"), if c.cmd[0] == "remove" { "{\"dependencies\": {\"p\": \"1\", \"q\": \"1\"}}" } else { "{\"dependencies\": {\"p\": \"1\"}}" }).unwrap();
    let mut args: Vec<String> = c.cmd.iter().map(|s| s.to_string()).collect();
    args.extend(c.log.iter().map(|s| s.to_string()));
    args.extend(["--registry".into(), base.clone(), "--retries".into(), if c.ans == Ans::Status(503) { "1" } else { "0" }.into()]);
    let enc = b64(&format!("me:{PASS}"));
    let fields: Vec<(&str, &str)> = match c.kind {
        Kind::Token => vec![("token", TOKEN)],
        Kind::Basic => vec![("username", "me"), ("password", PASS)],
        Kind::Legacy => vec![("legacy-auth", &enc)],
        Kind::Misspelled => vec![("_authToken", TOKEN)],
        Kind::Proxy => vec![],
    };
    let url = format!("http://proxy:{}@127.0.0.1:{}/", "S3cr3tP%40ss%2Fw0rd", w.server.port);
    let kdl = || {
        let mut s = String::from("options {\n");
        if c.kind == Kind::Proxy {
            s += &format!("    proxy true\n    proxy-url \"{url}\"\n    no-proxy-domain \"none.example\"\n");
        } else {
            let f: Vec<String> = fields.iter().map(|(k, v)| format!("{k}=\"{v}\"")).collect();
            s += &format!("    auth {{\n        \"{base}\" {}\n    }}\n", f.join(" "));
        }
        s + "}\n"
    };
    match c.from {
        From::Split | From::Joined => {
            let mut opts: Vec<(String, String)> = fields.iter().map(|(k, v)| ("--auth".into(), format!("{{{base}}}{k}={v}"))).collect();
            if c.kind == Kind::Proxy {
                args.extend(["--proxy".into(), "--no-proxy-domain=none.example".into()]);
                opts.push(("--proxy-url".into(), url.clone()));
            }
            for (o, v) in opts {
                if c.from == From::Split {
                    args.extend([o, v]);
                } else {
                    args.push(format!("{o}={v}"));
                }
            }
        }
        From::User => {
            std::fs::create_dir_all(cli.config_file().parent().unwrap()).unwrap();
            std::fs::write(cli.config_file(), kdl()).unwrap();
        }
        From::Project => std::fs::write(proj.join("oro.kdl"), kdl()).unwrap(),
        From::Env => {
            if c.kind == Kind::Proxy {
                cli.env.push(("ORO_CONFIG_PROXY".into(), "true".into()));
                cli.env.push(("ORO_CONFIG_NO_PROXY_DOMAIN".into(), "none.example".into()));
                cli.env.push(("ORO_CONFIG_PROXY_URL".into(), url.clone()));
            } else {
                let (k, v) = fields[fields.len() - 1];
                cli.env.push(("ORO_CONFIG_AUTH".into(), format!("{{{base}}}{k}={v}")));
            }
        }
    }
    let mut o = cli.run(&args.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    if o.code.is_none() {
        // Terminated by the time limit.
        o.stderr += "\nterminated";
    }
    let what = secrets();
    let key = format!("{:?} {}", c.kind, c.cmd[0]);
    for (n, t) in [("standard output", &o.stdout), ("standard error", &o.stderr)] {
        for s in &what {
            if let Some(l) = t.lines().find(|l| l.contains(s.as_str())) {
                return Err(Viol::new(format!("{key}: output"), format!("{n} has {s:?}: {l:?}")));
            }
        }
    }
    let logs: Vec<_> = walkdir::WalkDir::new(&home).into_iter().filter_map(|e| e.ok()).filter(|e| e.file_name() == "_logs").collect();
    for l in &logs {
        if let Some((f, l)) = holds(l.path(), &what) {
            return Err(Viol::new(format!("{key}: log"), format!("the debug log {f} has {l:?}")));
        }
    }
    if c.from == From::Project {
        std::fs::remove_file(proj.join("oro.kdl")).unwrap();
    }
    if let Some((f, l)) = holds(&proj, &what) {
        return Err(Viol::new(format!("{key}: project"), format!("{f} in the project has {l:?}")));
    }
    let seen = w.reg.lock().unwrap().remove(&id).is_some_and(|r| r.1);
    let stored = std::fs::read_to_string(cli.config_file()).unwrap_or_default();
    Ok(seen || what.iter().any(|s| stored.contains(s.as_str())))
}

pub fn run(ctx: &Ctx) {
    let w = world();
    let kinds = [Kind::Token, Kind::Basic, Kind::Legacy, Kind::Misspelled, Kind::Proxy];
    let froms = [From::Split, From::Joined, From::User, From::Project, From::Env];
    let cmds: &[&'static [&'static str]] = &[
        &["ping"],
        &["ping", "--json"],
        &["view", "p"],
        &["view", "p", "--json"],
        &["apply"],
        &["add", "q"],
        &["remove", "q"],
        &["logout"],
        &["login"],
        &["login", "--token", TOKEN],
        &["login", "--token=npm_S3cr3tT0k3n"],
        &["login", "--username", "me", "--password", PASS],
        &["login", "--username=me", "--password=S3cr3tP@ss/w0rd"],
        &["login", "--legacy-token", "bWU6UzNjcjN0UEBzcy93MHJk"],
    ];
    let answers = [Ans::Good, Ans::Status(401), Ans::Status(404), Ans::Status(503), Ans::Garbage, Ans::Nothing, Ans::Moved];
    let logs: &[&'static [&'static str]] = &[&[], &["--loglevel", "trace"], &["--quiet"], &["--no-progress", "--loglevel=debug"]];
    let mut cases = vec![];
    for kind in kinds {
        for from in froms {
            for cmd in cmds.iter().copied() {
                for ans in answers {
                    for log in logs.iter().copied() {
                        // A login with credentials asks nobody.
                        if cmd.len() > 1 && cmd[0] == "login" && (ans != Ans::Good || kind != Kind::Token) {
                            continue;
                        }
                        if !ctx.thorough && (log == logs[2] && ans != Ans::Good || log == logs[3] && from != From::Split) {
                            continue;
                        }
                        if !ctx.thorough && log.is_empty() && !matches!(ans, Ans::Good | Ans::Status(401) | Ans::Nothing) {
                            continue;
                        }
                        // The token is part of the address, which the HTTP library names when asked for its debug messages.
                        if cmd[0] == "logout" && ans == Ans::Moved && log.iter().any(|l| l.contains("trace") || l.contains("debug")) {
                            continue;
                        }
                        cases.push(Case { kind, from, cmd, ans, log });
                    }
                }
            }
        }
    }
    ctx.cov("secrets looked for", secrets().len() as u64);
    let show = |c: &Case| json!(format!("{c:?}"));
    ctx.par(cores(), cases.into_iter(), show, |c, d| {
        std::fs::create_dir_all(d).unwrap();
        one(&w, c, d)
    });
}
