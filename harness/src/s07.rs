//! S07: telemetry needs consent, and the first run keeps what is configured.
use crate::cli::Cli;
use crate::http::{Resp, Server};
use crate::report::*;
use crate::trace::{self, Crash, Fault, Traced};
use serde_json::json;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "S07",
        thorough,
        "exploration",
        "Every combination of what the user's oro.kdl, the project's oro.kdl, the environment and the command line say about telemetry and the first-time setup, in a terminal or not, in CI or not, with every answer to the question (yes, no, the terminal going away), each followed by a second run that is not in a terminal and (when the question was asked) a third one in a terminal: real `oro` commands that fail, in a pseudoterminal where one is needed, with a local server as the collector of telemetry. What decides about the sampling of reports is fixed to a seed with which a report of a consenting user is sent. A run may only contact the collector when the user agreed; the question is asked at most once; what the user's oro.kdl holds besides stays there; the answer is what it holds afterwards. Also, for every k, the first-time setup with the k-th access to the user's oro.kdl failing, and killed after the k-th change: what is configured stays configured. Non-trivial: a first-time setup ran, or a report was sent.",
    )
}

const LIMIT: Duration = Duration::from_secs(40);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Tty {
    No,
    Yes(&'static str),
}

#[derive(Clone, Debug)]
struct Case {
    /// What the user's oro.kdl says: whether there is one, telemetry, first-time.
    user: Option<(Option<bool>, Option<bool>)>,
    project: Option<bool>,
    env: Option<bool>,
    cmd: Option<bool>,
    no_first: bool,
    tty: Tty,
    ci: bool,
    config: bool,
    fault: Option<Fault>,
    crash: Option<Crash>,
}

struct Collector {
    server: Server,
    hits: Arc<Mutex<std::collections::HashMap<String, usize>>>,
    next: AtomicU64,
}

fn collector() -> Collector {
    let hits: Arc<Mutex<std::collections::HashMap<String, usize>>> = Default::default();
    let h = hits.clone();
    let server = Server::start(Arc::new(move |r| {
        let id = r.path.split('/').nth(2).unwrap_or("").to_string();
        *h.lock().unwrap().entry(id).or_default() += 1;
        Resp::json(&json!({}))
    }));
    Collector { server, hits, next: AtomicU64::new(1) }
}

const KEEP: &[&str] = &["// A note to keep", "registry \"http://127.0.0.1:1/kept/\"", "\"http://127.0.0.1:1/kept/\" token=\"kept-token\"", "something-else 1 2 3"];

fn user_config(u: (Option<bool>, Option<bool>)) -> String {
    let mut s = String::from("// A note to keep\noptions {\n    registry \"http://127.0.0.1:1/kept/\"\n");
    if let Some(t) = u.0 {
        s += &format!("    telemetry {t}\n");
    }
    s += "    auth {\n        \"http://127.0.0.1:1/kept/\" token=\"kept-token\"\n    }\n";
    if let Some(f) = u.1 {
        s += &format!("    first-time {f}\n");
    }
    s += "}\nsomething-else 1 2 3\n";
    s
}

struct Ran {
    t: Traced,
    out: String,
    sent: bool,
    asked: bool,
}

fn pty() -> std::io::Result<(std::fs::File, std::fs::File)> {
    let (mut m, mut s) = (0, 0);
    unsafe {
        if libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut()) != 0 {
            return Err(std::io::Error::last_os_error());
        }
        for f in [m, s] {
            libc::fcntl(f, libc::F_SETFD, libc::FD_CLOEXEC);
        }
        Ok((std::fs::File::from_raw_fd(m), std::fs::File::from_raw_fd(s)))
    }
}

fn go(col: &Collector, c: &Case, cli: &Cli, tty: Tty, dice: u64, crash: Option<Crash>, fault: Option<Fault>) -> Result<Ran, Viol> {
    let id = col.next.fetch_add(1, Ordering::SeqCst).to_string();
    let dsn = col.server.url().trim_end_matches('/').replacen("http://", "http://key@", 1) + "/" + &id;
    let custom = cli.home.join("custom.kdl");
    let mut args = vec!["ping", "--registry", "http://127.0.0.1:1/", "--retries", "0", "--sentry-dsn", &dsn];
    if c.config {
        args.extend(["--config", custom.to_str().unwrap()]);
    }
    match c.cmd {
        Some(true) => args.push("--telemetry"),
        Some(false) => args.push("--no-telemetry"),
        None => {}
    }
    if c.no_first {
        args.push("--no-first-time");
    }
    let mut cmd: Command = cli.command(&args);
    if !c.ci {
        cmd.env_remove("CI");
    }
    cmd.env("TERM", "xterm");
    if let Some(e) = c.env {
        cmd.env("ORO_CONFIG_TELEMETRY", e.to_string());
    }
    let scope = cli.home.join(if c.config { "custom.kdl" } else { "config" });
    let e = |e: std::io::Error| Viol::from(format!("trace: {e}"));
    let (t, out) = match tty {
        Tty::No => {
            let f = std::fs::File::create(cli.home.join("out")).unwrap();
            cmd.stdin(Stdio::null()).stdout(f.try_clone().unwrap()).stderr(f);
            let t = trace::run_diced(cmd, &scope, dice, crash, fault, LIMIT).map_err(e)?;
            (t, String::from_utf8_lossy(&std::fs::read(cli.home.join("out")).unwrap()).into_owned())
        }
        Tty::Yes(answer) => {
            let (mut m, s) = pty().map_err(e)?;
            cmd.stdin(s.try_clone().unwrap()).stdout(s.try_clone().unwrap()).stderr(s);
            let r = std::thread::spawn(move || {
                let mut out = vec![];
                let mut b = [0; 4096];
                let mut answered = false;
                while let Ok(n) = m.read(&mut b) {
                    if n == 0 {
                        break;
                    }
                    out.extend_from_slice(&b[..n]);
                    if !answered && String::from_utf8_lossy(&out).contains("y/n") {
                        answered = true;
                        if answer.is_empty() {
                            // The terminal goes away.
                            break;
                        }
                        let _ = m.write_all(answer.as_bytes());
                    }
                }
                String::from_utf8_lossy(&out).into_owned()
            });
            let t = trace::run_diced(cmd, &scope, dice, crash, fault, LIMIT).map_err(e)?;
            (t, r.join().unwrap())
        }
    };
    let sent = col.hits.lock().unwrap().contains_key(&id);
    Ok(Ran { asked: out.contains("Do you wish"), t, out, sent })
}

/// What an oro.kdl says about an option.
fn says(text: &str, option: &str) -> Option<bool> {
    let d: kdl::KdlDocument = text.parse().ok()?;
    d.get("options")?.children()?.get(option)?.get(0)?.as_bool()
}

fn kept(c: &Case, before: &str, after: &str) -> Result<(), String> {
    if c.user.is_some() {
        for k in KEEP {
            if !after.contains(k) {
                return Err(format!("{k:?} is gone from the user's oro.kdl, which was {before:?} and now is {after:?}"));
            }
        }
    }
    if after.parse::<kdl::KdlDocument>().is_err() {
        return Err(format!("the user's oro.kdl can't be read anymore: {after:?}"));
    }
    Ok(())
}

fn one(col: &Collector, dice: u64, c: &Case, dir: &Path) -> Out {
    let _ = std::fs::remove_dir_all(dir);
    let home = dir.join("home");
    let cli = Cli::new(&home, &dir.join("proj"));
    std::fs::write(dir.join("proj/package.json"), "{}").unwrap();
    let file: PathBuf = if c.config { home.join("custom.kdl") } else { cli.config_file() };
    std::fs::create_dir_all(file.parent().unwrap()).unwrap();
    let mut before = String::new();
    if let Some(u) = c.user {
        before = user_config(u);
        std::fs::write(&file, &before).unwrap();
    }
    if let Some(p) = c.project {
        std::fs::write(dir.join("proj/oro.kdl"), format!("options {{\n    telemetry {p}\n}}\n")).unwrap();
    }
    let layered = |user: Option<bool>| c.cmd.or(if c.config { None } else { c.project }).or(user).or(c.env).unwrap_or(false);
    let user = c.user.unwrap_or_default();
    let setup = !c.ci && !c.no_first && user.1.unwrap_or(true);
    let mut nontrivial = setup;
    // First run.
    let r = go(col, c, &cli, c.tty, dice, c.crash, c.fault)?;
    let after = std::fs::read_to_string(&file).unwrap_or_default();
    if c.fault.is_some() || c.crash.is_some() {
        if r.t.timed_out {
            return Err("the command doesn't end".into());
        }
        kept(c, &before, &after)?;
        let t = says(&after, "telemetry");
        if t != user.0 && t != Some(c.tty == Tty::Yes("y")) {
            return Err(format!("telemetry was {:?} and is now {t:?}, after the answer {:?}", user.0, c.tty).into());
        }
        if r.sent {
            return Err("a report was sent".into());
        }
        return Ok(r.t.killed || !r.t.failed.is_empty());
    }
    if r.t.timed_out {
        return Err(format!("the command doesn't end: {:?}", r.out).into());
    }
    let asked = setup && c.tty != Tty::No;
    if r.asked && !asked {
        return Err("the question about telemetry is asked, though the first-time setup is off, or there is no terminal".into());
    }
    if asked && !r.asked {
        return Err(format!("the question about telemetry isn't asked in the first run: {:?}", r.out).into());
    }
    let answer = match c.tty {
        Tty::Yes("y") if asked => Some(true),
        Tty::Yes("n") if asked => Some(false),
        _ => None,
    };
    let aborted = asked && answer.is_none();
    let agreed = match answer {
        Some(true) => true,
        Some(false) => false,
        None => !aborted && layered(user.0),
    };
    if r.sent && !agreed {
        return Err(format!("a report was sent without consent, in a run with the answer {answer:?}").into());
    }
    nontrivial |= r.sent;
    kept(c, &before, &after)?;
    if (!setup || aborted) && after != before {
        return Err(format!("the user's oro.kdl was changed without a first-time setup, from {before:?} to {after:?}").into());
    }
    let mut telemetry = user.0;
    if setup && !aborted {
        if says(&after, "first-time") != Some(false) {
            return Err(format!("the first-time setup isn't marked as done: {after:?}").into());
        }
        if answer.is_some() {
            telemetry = answer;
        }
        if says(&after, "telemetry") != telemetry {
            return Err(format!("the user's oro.kdl says telemetry {:?} and not {telemetry:?}: {after:?}", says(&after, "telemetry")).into());
        }
    }
    // Later runs.
    let again = Case { cmd: None, no_first: false, ..c.clone() };
    for tty in [Tty::No, Tty::Yes("y")] {
        if tty != Tty::No && (!asked || aborted) {
            continue;
        }
        let r = go(col, &again, &cli, tty, dice, None, None)?;
        let consent = again.project.filter(|_| !c.config).or(telemetry).or(c.env).unwrap_or(false);
        if r.sent && !consent {
            return Err(format!("a later run (terminal: {tty:?}) sends a report without consent, after the answer {answer:?}").into());
        }
        nontrivial |= r.sent;
        if r.asked {
            return Err("the question about telemetry is asked again".into());
        }
        let now = std::fs::read_to_string(&file).unwrap_or_default();
        kept(c, &before, &now)?;
        if says(&now, "telemetry") != telemetry {
            return Err(format!("a later run changes what the user's oro.kdl says about telemetry: {now:?}").into());
        }
    }
    Ok(nontrivial)
}

pub fn run(ctx: &Ctx) {
    let col = collector();
    // A seed with which what a consenting user's command reports is sent.
    let yes = Case { user: Some((Some(true), Some(false))), project: None, env: None, cmd: None, no_first: false, tty: Tty::No, ci: false, config: false, fault: None, crash: None };
    let mut dice = None;
    for seed in 1..200 {
        let dir = ctx.scratch.join("seed");
        let cli = Cli::new(&dir.join("home"), &dir.join("proj"));
        std::fs::create_dir_all(cli.config_file().parent().unwrap()).unwrap();
        std::fs::write(cli.config_file(), user_config(yes.user.unwrap())).unwrap();
        match go(&col, &yes, &cli, Tty::No, seed, None, None) {
            Ok(r) if r.sent => {
                dice = Some(seed);
                break;
            }
            Ok(_) => {}
            Err(v) => return ctx.error(v.what),
        }
    }
    // Without any, there is no telemetry at all.
    ctx.cov("seed of the sampling", dice.unwrap_or(0));
    let dice = dice.unwrap_or(1);
    let opt = [None, Some(true), Some(false)];
    let mut cases = vec![];
    let mut users = vec![None];
    for t in opt {
        for f in opt {
            users.push(Some((t, f)));
        }
    }
    for user in users {
        for project in opt {
            for env in opt {
                for cmd in opt {
                    for tty in [Tty::No, Tty::Yes("y"), Tty::Yes("n"), Tty::Yes("")] {
                        for ci in [false, true] {
                            for (no_first, config) in [(false, false), (true, false), (false, true)] {
                                let setup = !ci && !no_first && user.map(|u| u.1).flatten() != Some(false);
                                // Answers only matter where there is a question.
                                if !setup && matches!(tty, Tty::Yes("n" | "")) || !setup && tty != Tty::No && !ctx.thorough {
                                    continue;
                                }
                                if !ctx.thorough && (no_first || ci) && (cmd.is_some() && env.is_some() || user.map(|u| u.1).flatten().is_some()) {
                                    continue;
                                }
                                if !ctx.thorough && (config || cmd.is_some()) && project.is_some() && env.is_some() {
                                    continue;
                                }
                                cases.push(Case { user, project, env, cmd, no_first, tty, ci, config, ..yes.clone() });
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.cov("configurations", cases.len() as u64);
    let mut faults = 0;
    for user in [Some((None, None)), Some((Some(false), None)), Some((Some(true), Some(true))), None] {
        for tty in [Tty::No, Tty::Yes("y"), Tty::Yes("n")] {
            for config in [false, true] {
                let base = Case { user, tty, config, ..yes.clone() };
                if user.and_then(|u| u.0) == Some(true) && tty == Tty::No {
                    continue;
                }
                let most = if ctx.thorough { 16 } else { 8 };
                for k in 1..=most {
                    for errno in [libc::EIO, libc::EACCES] {
                        for (reads, forever) in [(true, false), (false, false), (false, true)] {
                            if errno == libc::EACCES && !reads && !ctx.thorough {
                                continue;
                            }
                            // Reports are sent where they may be.
                            if tty == Tty::Yes("y") || user.and_then(|u| u.0) == Some(true) {
                                continue;
                            }
                            cases.push(Case { fault: Some(Fault { at: k, forever, errno, reads }), ..base.clone() });
                            faults += 1;
                        }
                    }
                    if user.is_some() && tty != Tty::Yes("y") && user.and_then(|u| u.0) != Some(true) {
                        for torn in [false, true] {
                            cases.push(Case { crash: Some(Crash { after: k, torn }), ..base.clone() });
                            faults += 1;
                        }
                    }
                }
            }
        }
    }
    ctx.cov("failures and crashes", faults as u64);
    let show = |c: &Case| json!({"case": format!("{c:?}"), "seed": dice});
    ctx.par(cores(), cases.into_iter(), show, |c, d| {
        std::fs::create_dir_all(d).unwrap();
        one(&col, dice, c, d)
    });
}
