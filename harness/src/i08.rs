//! I08: every failing file operation of an apply.
use crate::i03::*;
use crate::report::*;
use crate::snap::{diff, Tree};
use crate::trace::{self, Fault};
use crate::uni::*;
use serde_json::json;
use std::path::{Path, PathBuf};
use std::process::Stdio;
use std::sync::{Arc, Mutex};

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "I08",
        thorough,
        "fault_enumeration",
        "Every file operation of real `oro` commands as the failing one: the command runs under ptrace, every system call that changes the filesystem (creating, writing, flushing, renaming, linking, removing, changing modes) or opens a file or directory for reading, in the project or the cache (but for logs), is counted, and for every k the k-th one fails with an error instead of being made; also, everything but removals failing from the k-th on (a full disk). The command must end; when it reports success, node_modules, package.json and the lockfile must be what it leaves undisturbed; when it fails, package.json must still be the old or the new one as a whole, and the same command again, undisturbed, must succeed and leave what it leaves undisturbed. Scenarios as for I03. Non-trivial: an operation failed.",
    )
}

struct Base {
    s: Scenario,
    dir: PathBuf,
    want: Tree,
    before: Vec<u8>,
    calls: [usize; 2],
}

#[derive(Clone, Debug)]
struct Case {
    base: usize,
    fault: Fault,
}

fn names(t: Tree) -> Tree {
    // What couldn't be removed.
    t.into_iter().filter(|(k, _)| !k.split('/').any(|p| p.starts_with(".tmp"))).collect()
}

fn one(w: &World, bases: &[Base], c: &Case, dir: &Path) -> Out {
    let b = &bases[c.base];
    let d = dir.join("x");
    restore(&b.dir, &d)?;
    let t = trace::run_faulty(command(w, &b.s, &d, true), &d, None, Some(c.fault), LIMIT).map_err(|e| format!("trace: {e}"))?;
    let first = t.failed.first().cloned().unwrap_or_default();
    let generic = |p: &str| p.split('/').map(|x| if x.len() > 24 || x.starts_with(".tmp") || x.chars().filter(|c| c.is_ascii_hexdigit()).count() == x.len() && x.len() > 1 { "*" } else { x }).collect::<Vec<_>>().join("/");
    let key = || format!("{} {}{} {:?}: {}", b.s.name, if b.s.hoisted { "hoisted" } else { "isolated" }, if b.s.cache { " cached" } else { "" }, c.fault, generic(&first));
    let how = format!("{first} fails ({})", c.fault.errno);
    if t.timed_out {
        return Err(Viol::new(key(), format!("{how}: the command doesn't end")));
    }
    let Some(code) = t.code else { return Err(Viol::new(key(), format!("{how}: the command crashes"))) };
    if code == 101 || code > 128 {
        return Err(Viol::new(key(), format!("{how}: the command crashes with {code}")));
    }
    if std::env::var_os("I08_LOG").is_some() {
        println!("OUT {} {} {} {}", code, c.fault.forever, c.fault.reads, generic(&first));
    }
    let got = names(result(&d));
    if code == 0 {
        let df = diff(&b.want, &got);
        if !df.is_empty() {
            return Err(Viol::new(key(), format!("{how}, and the command reports success, with another result: {df:?}")));
        }
        return Ok(!t.failed.is_empty());
    }
    if t.failed.is_empty() {
        return Err(Viol::new(key(), "the command fails though nothing failed"));
    }
    let now = std::fs::read(d.join("proj/package.json")).unwrap_or_default();
    let new = match b.want.get("package.json") {
        Some(crate::snap::Node::File { data, .. }) => data.clone(),
        _ => vec![],
    };
    if now != b.before && now != new {
        return Err(Viol::new(key(), format!("{how}: the command fails and leaves package.json as {:?}", String::from_utf8_lossy(&now))));
    }
    let mut again = command(w, &b.s, &d, true);
    again.stdout(Stdio::piped()).stderr(Stdio::piped());
    let o = crate::cli::run(again, LIMIT);
    if o.code != Some(0) {
        return Err(Viol::new(key(), format!("{how}: running again fails ({:?}): {}", o.code, o.stderr.lines().filter(|l| l.contains('×') || l.contains("rror")).collect::<Vec<_>>().join(" / "))));
    }
    let df = diff(&b.want, &names(result(&d)));
    if !df.is_empty() {
        return Err(Viol::new(key(), format!("{how}, the command fails, and running it again leaves another result: {df:?}")));
    }
    Ok(true)
}

fn chosen(thorough: bool) -> Vec<Scenario> {
    let mut v = scenarios(true);
    // With a lockfile that pins older versions than the newest, and nothing else to know them from.
    for hoisted in [true, false] {
        let s = v.iter().find(|s| s.hoisted == hoisted && s.name.starts_with("installation with")).unwrap().clone();
        v.push(Scenario { name: "installation with lockfile", cache: false, ..s });
    }
    if !thorough {
        v.retain(|s| match s.name {
            "first installation" | "add" => s.hoisted,
            "update" => s.hoisted && !s.cache,
            "installation with lockfile" | "installation with lockfile and cache" | "linker switch" | "remove" => !s.hoisted,
            _ => false,
        });
    }
    v
}

pub fn run(ctx: &Ctx) {
    let reg = Arc::new(Mutex::new(new()));
    let server = serve_cell(reg.clone(), true);
    let w = World { reg, server };
    let mut bases = vec![];
    for (i, s) in chosen(ctx.thorough).into_iter().enumerate() {
        let dir = ctx.scratch.join(format!("base{i}"));
        let r = prepare(&w, &s, &dir).and_then(|_| {
            let d = ctx.scratch.join("x");
            restore(&dir, &d)?;
            let t = trace::run(command(&w, &s, &d, true), &d, None, LIMIT).map_err(|e| format!("trace: {e}"))?;
            if t.code != Some(0) {
                return Err(format!("{}: the command fails without interruption: {:?}", s.name, t.code));
            }
            Ok((t, result(&d)))
        });
        match r {
            Ok((t, want)) => {
                ctx.addcov("changes in undisturbed runs", t.calls[0] as u64);
                ctx.addcov("files opened in undisturbed runs", t.calls[1] as u64);
                ctx.addcov("scenarios", 1);
                let before = std::fs::read(dir.join("proj/package.json")).unwrap();
                bases.push(Base { s, dir, want, before, calls: t.calls });
            }
            Err(e) => return ctx.error(e),
        }
    }
    let mut cases = vec![];
    for (i, b) in bases.iter().enumerate() {
        for k in 1..=b.calls[0] {
            let errs: &[i32] = if ctx.thorough { &[libc::EIO, libc::EACCES, libc::ENOSPC] } else { &[[libc::EIO, libc::EACCES, libc::ENOSPC][0]] };
            for e in errs {
                cases.push(Case { base: i, fault: Fault { at: k, forever: false, errno: *e, reads: false } });
            }
            if ctx.thorough || ["first installation", "add", "remove"].contains(&b.s.name) {
                cases.push(Case { base: i, fault: Fault { at: k, forever: true, errno: libc::ENOSPC, reads: false } });
            }
        }
        for k in 1..=b.calls[1] {
            for e in if ctx.thorough { &[libc::EIO, libc::EACCES][..] } else { &[libc::EACCES] } {
                cases.push(Case { base: i, fault: Fault { at: k, forever: false, errno: *e, reads: true } });
            }
        }
    }
    ctx.cov("failing operations", cases.len() as u64);
    let show = |c: &Case| json!({"scenario": bases[c.base].s.name, "hoisted": bases[c.base].s.hoisted, "cache": bases[c.base].s.cache, "fault": format!("{:?}", c.fault)});
    ctx.par(cores(), cases.into_iter(), show, |c, d| {
        std::fs::create_dir_all(d).unwrap();
        one(&w, &bases, c, d)
    });
}
