//! C04: logging in.
use crate::cli::Cli;
use crate::http::{Req, Resp, Server};
use crate::report::*;
use oro_client::login::{DoneURLResponse, LoginCouchResponse, LoginOptions};
use oro_client::{OroClient, OroClientError};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::Write;
use std::os::fd::FromRawFd;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "C04",
        thorough,
        "fault_enumeration",
        "The real `oro login` (a stand-in browser, and a pseudo-terminal for the prompts of classic login) against every sequence of registry answers up to three polls: any number of pending answers, then any answer of an alphabet of deliveries, malformed deliveries, malformed and missing waiting times, refusals, server errors, dropped connections and redirects; with every answer to the first request; classic login with every answer to both requests and the web one-time password in between. And the library's calls with every answer for every user name, password and one-time password of an alphabet of awkward texts. Monitored: which URLs are asked, how often, how long apart, what is sent, the exit status, and the stored token. Non-trivial: at least one answer was not the plain success.",
    )
}

#[derive(Clone, Debug, PartialEq)]
struct Ans {
    status: u16,
    headers: Vec<(String, String)>,
    body: String,
    reset: bool,
}

fn a(status: u16, body: &str) -> Ans {
    Ans { status, headers: vec![], body: body.into(), reset: false }
}
fn h(status: u16, k: &str, v: &str, body: &str) -> Ans {
    Ans { headers: vec![(k.into(), v.into())], ..a(status, body) }
}
fn reset() -> Ans {
    Ans { reset: true, ..a(200, "") }
}

impl Ans {
    fn resp(&self) -> Resp {
        let mut r = Resp::ok(self.body.clone().into_bytes());
        r.status = self.status;
        r.headers = self.headers.clone();
        r.reset = self.reset;
        r
    }
    /// The token it delivers.
    fn token(&self) -> Option<String> {
        if self.reset || !(200..300).contains(&self.status) {
            return None;
        }
        serde_json::from_str::<Value>(&self.body).ok()?.get("token")?.as_str().map(|s| s.to_string())
    }
    /// Pending, and for how long it asks to wait.
    fn pending(&self) -> Option<Duration> {
        if self.status != 202 || self.reset {
            return None;
        }
        self.headers.iter().find(|(k, _)| k == "retry-after").and_then(|(_, v)| v.parse::<u64>().ok()).map(Duration::from_secs)
    }
}

/// Answers to a poll.
fn polls() -> Vec<Ans> {
    vec![
        a(200, "{\"token\":\"tok-1\"}"),
        a(200, "{\"token\":\"tok\\u0021\\\"2\",\"more\":[1]}"),
        a(200, "{\"token\":null}"),
        a(200, "{\"token\":7}"),
        a(200, "{}"),
        a(200, "null"),
        a(200, ""),
        a(200, "<html>tok-1</html>"),
        a(202, "{}"),
        a(202, "{\"token\":\"not-yet\"}"),
        h(202, "retry-after", "soon", "{}"),
        h(202, "retry-after", "-1", "{}"),
        h(202, "retry-after", "", "{}"),
        h(202, "retry-after", "0.5", "{}"),
        h(202, "retry-after", "99999999999999999999999", "{}"),
        h(202, "retry-after", "Fri, 31 Dec 1999 23:59:59 GMT", "{}"),
        h(202, "retry-after", "é", "{}"),
        a(401, "{\"token\":\"no\"}"),
        a(403, ""),
        a(404, "{\"token\":\"no\"}"),
        a(429, ""),
        a(500, "{\"token\":\"no\"}"),
        h(302, "location", "/nowhere", ""),
        reset(),
    ]
}

fn pending(secs: u64) -> Ans {
    h(202, "retry-after", &secs.to_string(), "{\"token\":\"not-yet\"}")
}

/// Answers to the first request of web login; DONE and LOGIN are replaced.
fn starts() -> Vec<Ans> {
    vec![
        a(200, "{\"loginUrl\":\"LOGIN\",\"doneUrl\":\"DONE\"}"),
        a(201, "{\"loginUrl\":\"LOGIN\",\"doneUrl\":\"DONE\",\"x\":1}"),
        a(200, "{\"loginUrl\":\"LOGIN\"}"),
        a(200, "{\"loginUrl\":\"LOGIN\",\"doneUrl\":null}"),
        a(200, "{\"loginUrl\":\"LOGIN\",\"doneUrl\":\"no url\"}"),
        a(200, "{\"loginUrl\":\"LOGIN\",\"doneUrl\":\"/done\"}"),
        a(200, "{\"token\":\"tok-0\"}"),
        a(200, "nonsense"),
        a(200, ""),
        a(401, "{\"loginUrl\":\"LOGIN\",\"doneUrl\":\"DONE\"}"),
        a(404, ""),
        a(500, ""),
        reset(),
    ]
}

/// Answers to classic login.
fn couch() -> Vec<Ans> {
    vec![
        a(201, "{\"ok\":true,\"token\":\"tok-1\"}"),
        a(200, "{\"token\":\"tok-1\"}"),
        a(200, "{\"ok\":true}"),
        a(200, "{\"token\":null}"),
        a(200, "oops"),
        a(204, ""),
        a(400, "{\"token\":\"no\"}"),
        h(401, "www-authenticate", "OTP", "{}"),
        h(401, "www-authenticate", "basic, otp", "{}"),
        h(401, "www-authenticate", "OTP", "{\"authUrl\":\"LOGIN\",\"doneUrl\":\"DONE\"}"),
        h(401, "www-authenticate", "OTP", "{\"authUrl\":\"LOGIN\"}"),
        h(401, "www-authenticate", "OTP", "{\"doneUrl\":\"DONE\"}"),
        a(401, "you must provide a One-Time Password"),
        a(401, "{\"authUrl\":\"LOGIN\",\"doneUrl\":\"DONE\",\"error\":\"one-time pass\"}"),
        h(401, "www-authenticate", "Basic realm=x", "{\"token\":\"no\"}"),
        h(401, "www-authenticate", "Bearer", ""),
        h(401, "www-authenticate", "é", ""),
        a(401, ""),
        a(403, "{\"token\":\"no\"}"),
        a(404, ""),
        a(409, "{\"token\":\"no\"}"),
        a(500, "{\"token\":\"no\"}"),
        reset(),
    ]
}

#[derive(PartialEq, Debug, Clone, Copy)]
enum Kind {
    Token,
    WebOtp,
    Otp,
    Error,
}

fn couch_kind(x: &Ans, otp: bool) -> Kind {
    if x.reset {
        return Kind::Error;
    }
    if x.status == 401 {
        let w = x.headers.iter().any(|(k, v)| k == "www-authenticate" && v.to_lowercase().contains("otp"));
        if otp || !(w || x.body.to_lowercase().contains("one-time pass")) {
            return Kind::Error;
        }
        return if x.body.contains("authUrl") && x.body.contains("doneUrl") { Kind::WebOtp } else { Kind::Otp };
    }
    if x.token().is_some() { Kind::Token } else { Kind::Error }
}

#[derive(Default)]
struct St {
    post: Vec<Ans>,
    put: Vec<Ans>,
    get: Vec<Ans>,
    log: Vec<(Instant, Req)>,
    origin: String,
}

struct World {
    s: Server,
    st: Arc<Mutex<St>>,
}

fn world() -> &'static World {
    thread_local! { static W: RefCell<Option<&'static World>> = RefCell::new(None); }
    W.with(|x| {
        *x.borrow_mut().get_or_insert_with(|| {
            let st: Arc<Mutex<St>> = Default::default();
            let s2 = st.clone();
            let s = Server::start(Arc::new(move |r: &Req| {
                let mut st = s2.lock().unwrap();
                st.log.push((Instant::now(), r.clone()));
                let base = st.origin.clone();
                if r.path == "/nowhere" {
                    return Resp::status(404);
                }
                let l = match r.method.as_str() {
                    "POST" => &mut st.post,
                    "PUT" => &mut st.put,
                    _ => &mut st.get,
                };
                // Nothing is left to say: a token nobody should ask for.
                let mut x = if l.is_empty() { a(200, "{\"token\":\"too-many\"}") } else { l.remove(0) };
                x.body = x.body.replace("DONE", &format!("{base}done/it?s=1&t=%2F")).replace("LOGIN", &format!("{base}login?x=1"));
                x.resp()
            }));
            Box::leak(Box::new(World { s, st }))
        })
    })
}

const NAMES: &[&str] = &["user", "a b", "ü", "a/b", "a?b#c", "..", "%41", "a:b@c", "a\"b\\", ""];
const OTPS: &[Option<&str>] = &[None, Some("123456"), Some(""), Some("ü"), Some("1\n2")];
const PATHS: &[&str] = &["", "reg/path/"];

enum Case {
    Web { start: usize, polls: Vec<Ans>, scope: Option<&'static str>, have: bool },
    Classic { first: usize, second: Option<usize>, polls: Vec<Ans> },
    Couch { ans: usize, name: usize, otp: usize, path: usize },
    Poll { ans: usize, path: usize },
    Start { ans: usize, path: usize, scope: Option<&'static str> },
}

fn show(c: &Case) -> Value {
    let s = |x: &Ans| if x.reset { "dropped".to_string() } else { format!("{} {:?} {}", x.status, x.headers, x.body) };
    match c {
        Case::Web { start, polls, scope, have } => json!({"login": "web", "first answer": s(&starts()[*start]), "polls": polls.iter().map(s).collect::<Vec<_>>(), "scope": scope, "existing configuration": have}),
        Case::Classic { first, second, polls } => json!({"login": "classic", "first answer": s(&couch()[*first]), "second": second.map(|x| s(&couch()[x])), "polls": polls.iter().map(s).collect::<Vec<_>>()}),
        Case::Couch { ans, name, otp, path } => json!({"call": "login_couch", "answer": s(&couch()[*ans]), "user": NAMES[*name], "otp": OTPS[*otp], "path": PATHS[*path]}),
        Case::Poll { ans, path } => json!({"call": "fetch_done_url", "answer": s(&polls()[*ans]), "path": PATHS[*path]}),
        Case::Start { ans, path, scope } => json!({"call": "login_web", "answer": s(&starts()[*ans]), "path": PATHS[*path], "scope": scope}),
    }
}

/// The outcome of polling these answers: how many are asked (at least, at most) and what is delivered.
fn polled(seq: &[Ans]) -> (usize, Option<String>) {
    for (i, x) in seq.iter().enumerate() {
        if x.pending().is_some() {
            continue;
        }
        return (i + 1, if x.status == 200 { x.token() } else { None });
    }
    (seq.len() + 1, Some("too-many".into()))
}

const OLD: &str = "// mine\noptions {\n    emoji false\n    auth {\n        \"http://other.example/\" token=\"keep\"\n    }\n}\n";

pub fn browser(dir: &Path) -> std::path::PathBuf {
    let bin = dir.join("bin");
    std::fs::create_dir_all(&bin).unwrap();
    for b in ["xdg-open", "gio", "gnome-open", "kde-open", "wslview"] {
        std::fs::write(bin.join(b), format!("#!/bin/sh\necho \"$@\" >> {}\n", dir.join("opened").display())).unwrap();
        std::fs::set_permissions(bin.join(b), std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    bin
}

/// Runs `c` on a new terminal, answering prompts. None: it was killed.
fn on_terminal(mut c: std::process::Command, answers: &[(&str, &str)], timeout: Duration) -> (Option<i32>, String) {
    let (mut m, mut s) = (0, 0);
    if unsafe { libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), std::ptr::null()) } != 0 {
        panic!("no terminal");
    }
    unsafe {
        libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
        let dup = || std::process::Stdio::from(std::fs::File::from_raw_fd(libc::dup(s)));
        c.stdin(dup()).stdout(dup()).stderr(dup());
        c.pre_exec(move || {
            libc::setsid();
            libc::ioctl(0, libc::TIOCSCTTY, 0);
            Ok(())
        });
    }
    let mut ch = c.spawn().expect("spawn");
    drop(c);
    unsafe { libc::close(s) };
    unsafe { libc::fcntl(m, libc::F_SETFL, libc::O_NONBLOCK) };
    let mut f = unsafe { std::fs::File::from_raw_fd(m) };
    let start = Instant::now();
    let mut out = String::new();
    let (mut from, mut next) = (0, 0);
    let code = loop {
        let mut buf = [0u8; 4096];
        while let Ok(n) = std::io::Read::read(&mut f, &mut buf) {
            if n == 0 {
                break;
            }
            out.push_str(&String::from_utf8_lossy(&buf[..n]));
        }
        if let Some((prompt, text)) = answers.get(next) {
            if let Some(i) = out[from..].find(prompt) {
                from += i + prompt.len();
                next += 1;
                // The prompt is drawn before the terminal is read.
                std::thread::sleep(Duration::from_millis(5));
                let _ = f.write_all(format!("{text}\r").as_bytes());
            }
        }
        match ch.try_wait() {
            Ok(Some(st)) => break st.code(),
            _ if start.elapsed() > timeout => {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            _ => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    (code, out)
}

/// The token stored for this registry.
fn stored(config: &str, registry: &str) -> Result<Option<String>, String> {
    let doc: kdl::KdlDocument = config.parse().map_err(|e| format!("the configuration can't be read any more: {e:?}"))?;
    let node = doc
        .get("options")
        .and_then(|o| o.children())
        .and_then(|c| c.get("auth"))
        .and_then(|x| x.children())
        .and_then(|c| c.nodes().iter().find(|n| n.name().value().trim_end_matches('/') == registry.trim_end_matches('/')).cloned());
    Ok(node.and_then(|n| n.get("token").and_then(|e| e.as_string().map(|s| s.to_string()))))
}

fn finish(w: &World, cli: &Cli, dir: &Path, code: Option<i32>, out: &str, old: Option<&str>, token: Option<String>, registry: &str) -> Result<(), String> {
    let conf = std::fs::read_to_string(cli.config_file()).ok();
    let _ = w;
    match (&token, code) {
        (_, None) => return Err(format!("doesn't end: {out}")),
        (_, Some(c)) if c != 0 && c != 1 => return Err(format!("crashes ({c}): {out}")),
        (None, Some(0)) => return Err(format!("reports success, but no token was delivered: {out}")),
        (Some(t), Some(1)) => return Err(format!("fails, but {t} was delivered: {out}")),
        (Some(t), _) => {
            let conf = conf.ok_or("no configuration was written")?;
            let s = stored(&conf, registry)?;
            if s.as_ref() != Some(t) {
                return Err(format!("{s:?} is stored instead of {t}"));
            }
            if old.is_some() && (stored(&conf, "http://other.example/")?.as_deref() != Some("keep") || !conf.contains("emoji false") || !conf.contains("// mine")) {
                return Err(format!("other parts of the configuration are lost: {conf}"));
            }
        }
        (None, _) => {
            if conf.as_deref() != old && !(old.is_none() && conf.as_deref() == Some("")) {
                return Err(format!("fails, but changes the configuration to {conf:?}"));
            }
        }
    }
    let _ = dir;
    Ok(())
}

fn polls_ok(w: &World, log: &[(Instant, Req)], seq: &[Ans], done: &str) -> Result<(), String> {
    let gets: Vec<&(Instant, Req)> = log.iter().filter(|(_, r)| r.method == "GET").collect();
    for (_, r) in &gets {
        if r.path != done && r.path != "/nowhere" {
            return Err(format!("{} is asked instead of {done}", r.path));
        }
    }
    let n = gets.iter().filter(|(_, r)| r.path == done).count();
    let (want, _) = polled(seq);
    if n != want {
        return Err(format!("{n} polls instead of {want}"));
    }
    for i in 1..n {
        let wait = seq[i - 1].pending().unwrap();
        let took = gets[i].0 - gets[i - 1].0;
        if took + Duration::from_millis(20) < wait {
            return Err(format!("polls again after {took:?}, was asked to wait {wait:?}"));
        }
    }
    let _ = w;
    Ok(())
}

fn one(c: &Case, dir: &Path) -> Out {
    let w = world();
    let origin = w.s.url();
    let set = |post: Vec<Ans>, put: Vec<Ans>, get: Vec<Ans>| *w.st.lock().unwrap() = St { post, put, get, log: vec![], origin: origin.clone() };
    let take = || std::mem::take(&mut w.st.lock().unwrap().log);
    let done = "/done/it?s=1&t=%2F";
    let _ = std::fs::remove_dir_all(dir);
    match c {
        Case::Web { start, polls, scope, have } => {
            let st = starts()[*start].clone();
            let bin = browser(dir);
            let mut cli = Cli::new(&dir.join("home"), &dir.join("proj"));
            cli.env.push(("PATH".into(), format!("{}:/usr/bin:/bin", bin.display())));
            cli.timeout = Duration::from_secs(30);
            std::fs::create_dir_all(cli.config_file().parent().unwrap()).unwrap();
            if *have {
                std::fs::write(cli.config_file(), OLD).unwrap();
            }
            set(vec![st.clone()], vec![], polls.clone());
            let mut args = vec!["login", "--registry", &origin, "--retries", "0"];
            if let Some(s) = scope {
                args.extend(["--scope", *s]);
            }
            let o = cli.run(&args);
            let log = take();
            if log.iter().filter(|(_, r)| r.method == "POST").count() != 1 {
                return Err(format!("{} logins requested: {}", log.len(), o.stderr).into());
            }
            let post = &log.iter().find(|(_, r)| r.method == "POST").unwrap().1;
            if post.path != "/-/v1/login" || post.header("npm-auth-type") != Some("web") || scope.is_some() && post.header("npm-scope") != *scope {
                return Err(format!("login is requested by {post:?}").into());
            }
            let begun = *start < 2;
            let opened = std::fs::read_to_string(dir.join("opened")).unwrap_or_default();
            if begun && opened.trim() != format!("{origin}login?x=1") {
                return Err(format!("the browser opens {opened:?}").into());
            }
            let token = if begun {
                polls_ok(w, &log, polls, done)?;
                polled(polls).1
            } else {
                if log.len() != 1 {
                    return Err(format!("{} is asked", log[1].1.path).into());
                }
                None
            };
            finish(w, &cli, dir, o.code, &o.stderr, have.then_some(OLD), token.clone(), &origin)?;
            Ok(token.as_deref() != Some("tok-1") || polls.len() > 1)
        }
        Case::Classic { first, second, polls } => {
            let bin = browser(dir);
            let mut cli = Cli::new(&dir.join("home"), &dir.join("proj"));
            cli.env.push(("PATH".into(), format!("{}:/usr/bin:/bin", bin.display())));
            cli.env.push(("TERM".into(), "xterm".into()));
            std::fs::create_dir_all(cli.config_file().parent().unwrap()).unwrap();
            std::fs::write(cli.config_file(), OLD).unwrap();
            let (x, all) = (couch()[*first].clone(), couch());
            let y = second.map(|s| all[s].clone());
            set(vec![], [x.clone()].into_iter().chain(y.clone()).collect(), polls.clone());
            let c = cli.command(&["login", "--auth-type", "legacy", "--registry", &origin, "--retries", "0"]);
            let (code, out) = on_terminal(c, &[("Username:", "me@x"), ("Password:", "p\u{e4} s:\"s"), ("one-time", "654321")], Duration::from_secs(30));
            let log = take();
            let puts: Vec<&Req> = log.iter().map(|l| &l.1).filter(|r| r.method == "PUT").collect();
            let kind = couch_kind(&x, false);
            let want = if kind == Kind::Otp { 2 } else { 1 };
            if puts.len() != want {
                return Err(format!("{} requests to log in instead of {want}: {out}", puts.len()).into());
            }
            for (i, p) in puts.iter().enumerate() {
                sent(p, "/", "me@x", "p\u{e4} s:\"s", (i == 1).then_some("654321"))?;
            }
            let token = match kind {
                Kind::Token => x.token(),
                Kind::Error => None,
                Kind::WebOtp => polled(polls).1,
                Kind::Otp => y.as_ref().filter(|y| couch_kind(y, true) == Kind::Token).and_then(|y| y.token()),
            };
            if kind == Kind::WebOtp {
                polls_ok(w, &log, polls, done)?;
                let opened = std::fs::read_to_string(dir.join("opened")).unwrap_or_default();
                if opened.trim() != format!("{origin}login?x=1") {
                    return Err(format!("the browser opens {opened:?}").into());
                }
            } else if log.len() != puts.len() {
                return Err(format!("{:?} is asked", log.last().unwrap().1.path).into());
            }
            finish(w, &cli, dir, code, &out, Some(OLD), token, &origin)?;
            Ok(kind != Kind::Token)
        }
        Case::Couch { ans, name, otp, path } => {
            let x = couch()[*ans].clone();
            set(vec![], vec![x.clone()], vec![]);
            let reg = format!("{origin}{}", PATHS[*path]);
            let cl = OroClient::builder().retries(0).registry(reg.parse().unwrap()).build();
            let pass = NAMES[(*name + 3) % NAMES.len()];
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| async_std::task::block_on(cl.login_couch(NAMES[*name], pass, OTPS[*otp], &LoginOptions::default())))).map_err(|_| "the client crashes")?;
            let log = take();
            if OTPS[*otp].map(|o| o.contains('\n')).unwrap_or(false) {
                // Can't be sent.
                return if r.is_err() && log.is_empty() { Ok(true) } else { Err(format!("a one-time password that can't be sent: {r:?}").into()) };
            }
            if log.len() != 1 {
                return Err(format!("{} requests", log.len()).into());
            }
            sent(&log[0].1, &format!("/{}", PATHS[*path]), NAMES[*name], pass, OTPS[*otp])?;
            let want = couch_kind(&x, OTPS[*otp].is_some());
            let is = match &r {
                Ok(LoginCouchResponse::Token(t)) if Some(t) == x.token().as_ref() => Kind::Token,
                Ok(LoginCouchResponse::ClassicOTP) => Kind::Otp,
                Ok(LoginCouchResponse::WebOTP { auth_url, done_url }) if auth_url.ends_with("login?x=1") && done_url.ends_with(done) => Kind::WebOtp,
                Err(_) => Kind::Error,
                _ => return Err(format!("{r:?}").into()),
            };
            if is != want {
                return Err(format!("{r:?} instead of {want:?}").into());
            }
            let www = x.headers.iter().find(|(k, _)| k == "www-authenticate").map(|(_, v)| v.to_lowercase()).unwrap_or_default();
            if let Err(e) = &r {
                let ok = match (x.status, OTPS[*otp].is_some()) {
                    _ if x.reset => true,
                    (400, _) => matches!(e, OroClientError::NoSuchUserError(n) if n == NAMES[*name]),
                    (401, true) if www.contains("otp") || x.body.to_lowercase().contains("one-time pass") => matches!(e, OroClientError::OTPRequiredError),
                    (401, _) if www.contains("basic") => matches!(e, OroClientError::IncorrectPasswordError),
                    (401, _) if www.contains("bearer") => matches!(e, OroClientError::InvalidTokenError),
                    _ => !matches!(e, OroClientError::OTPRequiredError | OroClientError::IncorrectPasswordError | OroClientError::InvalidTokenError | OroClientError::NoSuchUserError(_)),
                };
                if !ok {
                    return Err(format!("{} {www:?} is reported as {e:?}", x.status).into());
                }
            }
            Ok(want != Kind::Token)
        }
        Case::Poll { ans, path } => {
            let x = polls()[*ans].clone();
            set(vec![], vec![], vec![x.clone()]);
            let cl = OroClient::builder().retries(0).registry(format!("{origin}{}", PATHS[*path]).parse().unwrap()).build();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| async_std::task::block_on(cl.fetch_done_url(format!("{origin}{}", &done[1..]))))).map_err(|_| "the client crashes")?;
            let log = take();
            if log[0].1.path != done {
                return Err(format!("{} is asked", log[0].1.path).into());
            }
            match (&r, x.pending(), x.status == 200 && !x.reset) {
                (Ok(DoneURLResponse::Token(t)), None, true) if Some(t) == x.token().as_ref() => {}
                (Ok(DoneURLResponse::Duration(d)), Some(e), _) if *d == e => {}
                // Waiting for any time is fine where the time is malformed.
                (Ok(DoneURLResponse::Duration(_)), None, _) if x.status == 202 => {}
                (Err(_), None, s) if !s || x.token().is_none() => {}
                _ => return Err(format!("{r:?}").into()),
            }
            Ok(true)
        }
        Case::Start { ans, path, scope } => {
            let x = starts()[*ans].clone();
            set(vec![x.clone()], vec![], vec![]);
            let cl = OroClient::builder().retries(0).registry(format!("{origin}{}", PATHS[*path]).parse().unwrap()).build();
            let opts = LoginOptions { scope: scope.map(|s| s.to_string()), client: None };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| async_std::task::block_on(cl.login_web(&opts)))).map_err(|_| "the client crashes")?;
            let log = take();
            if scope.map(|s| s.contains('\n')).unwrap_or(false) {
                return if r.is_err() && log.is_empty() { Ok(true) } else { Err(format!("a scope that can't be sent: {r:?}").into()) };
            }
            if log.len() != 1 || log[0].1.path != format!("/{}-/v1/login", PATHS[*path]) {
                return Err(format!("{:?}", log.iter().map(|l| &l.1.path).collect::<Vec<_>>()).into());
            }
            let v: Option<Value> = serde_json::from_str(&x.body).ok();
            let full = !x.reset && x.status < 300 && v.map(|v| v["loginUrl"].is_string() && v["doneUrl"].is_string()).unwrap_or(false);
            if r.is_ok() != full {
                return Err(format!("{r:?}").into());
            }
            Ok(!full)
        }
    }
}

/// A classic login request with exactly these credentials.
fn sent(r: &Req, base: &str, name: &str, pass: &str, otp: Option<&str>) -> Result<(), String> {
    let want = format!("{base}-/user/org.couchdb.user:{name}");
    if crate::c01::unpercent(&r.path) != want || r.method != "PUT" {
        return Err(format!("{} {} instead of {want}", r.method, r.path));
    }
    let v: Value = serde_json::from_slice(&r.body).map_err(|e| e.to_string())?;
    if v["name"] != name || v["password"] != pass || v["_id"] != format!("org.couchdb.user:{name}") || v["type"] != "user" {
        return Err(format!("{v} is sent for {name:?} {pass:?}"));
    }
    let got = r.header("npm-otp").map(|s| s.to_string());
    if got.as_deref() != otp {
        return Err(format!("one-time password {got:?} instead of {otp:?}"));
    }
    if r.header("npm-auth-type") != Some("legacy") {
        return Err("not marked as classic login".into());
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let mut cases = vec![];
    let p = polls();
    let mut prefixes: Vec<Vec<Ans>> = vec![vec![], vec![pending(0)], vec![pending(1)], vec![pending(0), pending(0)], vec![pending(1), pending(0)], vec![pending(0), pending(1)]];
    if ctx.thorough {
        prefixes.extend([vec![pending(1), pending(1)], vec![pending(2)], vec![pending(0), pending(0), pending(0)], vec![pending(0), pending(2), pending(1)], vec![pending(3)]]);
    }
    for pre in &prefixes {
        for x in &p {
            for have in [true, false] {
                let mut polls = pre.clone();
                polls.push(x.clone());
                if have || pre.is_empty() || ctx.thorough {
                    cases.push(Case::Web { start: 0, polls, scope: None, have });
                }
            }
        }
    }
    for start in 0..starts().len() {
        for have in [true, false] {
            for scope in [None, Some("@s"), Some("s")] {
                cases.push(Case::Web { start, polls: vec![p[0].clone()], scope, have });
            }
        }
    }
    let c = couch();
    for first in 0..c.len() {
        match couch_kind(&c[first], false) {
            Kind::WebOtp => {
                for pre in prefixes.iter().take(if ctx.thorough { 99 } else { 3 }) {
                    for x in &p {
                        let mut polls = pre.clone();
                        polls.push(x.clone());
                        cases.push(Case::Classic { first, second: None, polls });
                    }
                }
            }
            Kind::Otp => {
                for second in 0..c.len() {
                    cases.push(Case::Classic { first, second: Some(second), polls: vec![] });
                }
            }
            _ => cases.push(Case::Classic { first, second: None, polls: vec![] }),
        }
    }
    for path in 0..PATHS.len() {
        for ans in 0..c.len() {
            for name in 0..NAMES.len() {
                for otp in 0..OTPS.len() {
                    cases.push(Case::Couch { ans, name, otp, path });
                }
            }
        }
        for ans in 0..p.len() {
            cases.push(Case::Poll { ans, path });
        }
        for ans in 0..starts().len() {
            for scope in [None, Some("@s"), Some("@\u{fc}"), Some("a\nb")] {
                cases.push(Case::Start { ans, path, scope });
            }
        }
    }
    ctx.par(24, cases.into_iter(), show, one);
}
