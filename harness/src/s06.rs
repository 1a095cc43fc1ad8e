//! S06: what package scripts find when they run, and what becomes of their output.
use crate::cli::Cli;
use crate::report::*;
use crate::uni::*;
use oro_script::{OroScript, OroScriptError};
use serde_json::{json, Value};
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "S06",
        thorough,
        "exploration",
        "Every set of places an executable may be in (the package's own node_modules/.bin, those of the packages around it up to the project's, one above the project, two inherited directories), for every shape of package (project, nested, scoped, isolated store), every way to give the project's path, and several inherited search paths: the real script runner starts the innermost one, none from above the project, the inherited ones after those, and leaves the inherited part as it was, byte for byte. Every way to end and every output of an alphabet, for both ways to run a script: status and output are reported as they are, the working directory is the package's, and the environment is inherited. And real `oro apply` of projects with such scripts, with both linkers: scripts find their own dependencies' executables, and their output never makes an install fail. Non-trivial: the script ran.",
    )
}

/// oromc script-probe MODE PACKAGE EVENT WORKSPACE OUT
pub fn helper(args: &[String]) {
    let [mode, pkg, event, ws, out] = args else { std::process::exit(2) };
    let out = Path::new(out);
    let r = (|| -> Result<(Vec<u8>, Vec<u8>), (OroScriptError, Vec<u8>, Vec<u8>)> {
        let e = |e| (e, vec![], vec![]);
        let mut s = OroScript::new(pkg, event).map_err(e)?;
        if ws != "-" {
            s = s.workspace_path(ws);
        }
        s = s.env("GIVEN", "giv\u{e9}n");
        if mode == "output" {
            return match s.output() {
                Ok(o) => Ok((o.stdout, o.stderr)),
                Err(OroScriptError::ScriptError(st, a, b)) => {
                    let (x, y) = (a.clone().unwrap_or_default(), b.clone().unwrap_or_default());
                    Err((OroScriptError::ScriptError(st, a, b), x, y))
                }
                Err(x) => Err(e(x)),
            };
        }
        let mut c = s.spawn().map_err(e)?;
        let (mut o, mut r) = (c.stdout.take().unwrap(), c.stderr.take().unwrap());
        let read = |mut s: Box<dyn std::io::Read + Send>| {
            std::thread::spawn(move || {
                let mut v = vec![];
                let _ = s.read_to_end(&mut v);
                v
            })
        };
        use std::io::Read;
        let _ = (&mut o as &mut dyn Read, &mut r as &mut dyn Read);
        let (a, b) = (read(Box::new(o)), read(Box::new(r)));
        let w = c.wait();
        let (a, b) = (a.join().unwrap(), b.join().unwrap());
        match w {
            Ok(()) => Ok((a, b)),
            Err(x) => Err((x, a, b)),
        }
    })();
    let (v, a, b) = match r {
        Ok((a, b)) => (json!({"code": 0}), a, b),
        Err((OroScriptError::ScriptError(s, ..), a, b)) => (json!({"code": s.code(), "signal": s.signal()}), a, b),
        Err((x, a, b)) => (json!({"error": format!("{x:?}")}), a, b),
    };
    std::fs::write(out.join("stdout"), a).unwrap();
    std::fs::write(out.join("stderr"), b).unwrap();
    std::fs::write(out.join("result"), v.to_string()).unwrap();
}

struct Ran {
    result: Value,
    out: Vec<u8>,
    err: Vec<u8>,
}

fn probe(dir: &Path, cwd: &Path, mode: &str, pkg: &str, event: &str, ws: &str, env: &[(&str, OsString)]) -> Result<Ran, String> {
    let out = dir.join("result");
    let _ = std::fs::remove_dir_all(&out);
    std::fs::create_dir_all(&out).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["script-probe", mode, pkg, event, ws, out.to_str().unwrap()]).current_dir(cwd).env_clear().stdin(Stdio::piped());
    for (k, v) in env {
        c.env(k, v);
    }
    let r = crate::cli::run(c, std::time::Duration::from_secs(30));
    if r.code != Some(0) {
        return Err(format!("ends with {:?}: {}", r.code, r.stderr));
    }
    Ok(Ran {
        result: serde_json::from_slice(&std::fs::read(out.join("result")).unwrap()).unwrap(),
        out: std::fs::read(out.join("stdout")).unwrap(),
        err: std::fs::read(out.join("stderr")).unwrap(),
    })
}

fn exe(path: &Path, text: &str) {
    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
    std::fs::write(path, format!("#!/bin/sh\n{text}\n")).unwrap();
    std::fs::set_permissions(path, PermissionsExt::from_mode(0o755)).unwrap();
}

/// Shape, path in the project, node_modules directories it's inside of, innermost first.
const SHAPES: &[(&str, &str, &[&str])] = &[
    ("project", "", &["node_modules"]),
    ("installed", "node_modules/a", &["node_modules/a/node_modules", "node_modules"]),
    ("nested", "node_modules/a/node_modules/@s/b", &["node_modules/a/node_modules/@s/b/node_modules", "node_modules/a/node_modules", "node_modules"]),
    ("stored", "node_modules/.oro-store/a@0/node_modules/a", &["node_modules/.oro-store/a@0/node_modules/a/node_modules", "node_modules/.oro-store/a@0/node_modules", "node_modules"]),
    ("workspace", "packages/w", &["packages/w/node_modules", "node_modules"]),
];

const WORKSPACES: &[&str] = &["ABS", "ABS/", "ABS/.", "LINK", "REL", "none"];

const INHERITED: &[&str] = &["plain", "bytes", "one", "twice"];

fn lookups(c: &Ctx) {
    let mut cases = vec![];
    for s in SHAPES {
        // The places, one above the project, and two inherited ones.
        let n = s.2.len() + 3;
        for set in 0..1u32 << n {
            for (i, w) in WORKSPACES.iter().enumerate() {
                for (j, p) in INHERITED.iter().enumerate() {
                    // Quick: every set with every workspace, and every set with every search path.
                    if c.thorough || i == 0 || j == 0 {
                        for linked in [false, true] {
                            if !linked || c.thorough || (i <= 1 && j <= 1) {
                                cases.push((s, set, *w, *p, linked));
                            }
                        }
                    }
                }
            }
        }
    }
    c.par(
        8,
        cases.iter(),
        |(s, set, w, p, l)| json!({ "package": s.0, "places": format!("{set:b}"), "project": w, "inherited": p, "package by a link": l }),
        |(s, set, w, p, linked), dir| {
            let _ = std::fs::remove_dir_all(dir);
            let root = dir.join("above/w");
            let pkg = root.join(s.1);
            std::fs::create_dir_all(&pkg).unwrap();
            std::os::unix::fs::symlink("w", dir.join("above/l")).unwrap();
            let script = "tool; printf '%s' \"$?,\"; printf '%s' \"$PATH\"";
            std::fs::write(pkg.join("package.json"), json!({ "name": "p", "scripts": { "ev": script } }).to_string()).unwrap();
            let one = dir.join("one");
            let two = match *p {
                "bytes" => PathBuf::from(OsString::from_vec([dir.as_os_str().as_bytes(), b"/t\xffw\xc3o"].concat())),
                _ => dir.join("two"),
            };
            std::fs::create_dir_all(&one).unwrap();
            std::fs::create_dir_all(&two).unwrap();
            let mut places: Vec<PathBuf> = s.2.iter().map(|n| root.join(n).join(".bin")).collect();
            places.push(dir.join("above/node_modules/.bin"));
            places.push(one.clone());
            places.push(two.clone());
            let above = s.2.len();
            for (i, d) in places.iter().enumerate() {
                std::fs::create_dir_all(d).unwrap();
                if set >> i & 1 == 1 {
                    exe(&d.join("tool"), &format!("printf '%s' {i},"));
                }
            }
            let inherited: Vec<&OsStr> = match *p {
                "one" => vec![one.as_os_str()],
                "twice" => vec![one.as_os_str(), two.as_os_str(), one.as_os_str()],
                _ => vec![one.as_os_str(), two.as_os_str()],
            };
            let mut path = inherited.join(OsStr::new(":"));
            path.push(":/usr/bin:/bin");
            let ws = match *w {
                "ABS" => root.display().to_string(),
                "ABS/" => format!("{}/", root.display()),
                "ABS/." => format!("{}/.", root.display()),
                "LINK" => dir.join("above/l").display().to_string(),
                "REL" => "w".into(),
                _ => "-".into(),
            };
            let pkg_arg = if *linked { dir.join("above/l").join(s.1) } else { pkg.clone() };
            let id = format!("lookup {} {set:b} {w} {p} {linked}", s.0);
            let r = probe(dir, &dir.join("above"), "output", pkg_arg.to_str().unwrap(), "ev", &ws, &[("PATH", path.clone())]).map_err(|e| Viol::new(&id, e))?;
            let want = (0..places.len())
                .find(|i| set >> i & 1 == 1 && (*i != above || *w == "none") && (*i != above + 2 || *p != "one"));
            let want = match want {
                Some(i) => format!("{i},0,"),
                None => "127,".into(),
            };
            let got = r.out.clone();
            let show = |b: &[u8]| String::from_utf8_lossy(b).replace(dir.to_str().unwrap(), "");
            if r.result != json!({"code": 0}) || !got.starts_with(want.as_bytes()) {
                return Err(Viol::new(id, format!("an executable that's in {:?} (of {:?}) is found as {:?} instead of {want:?}: {}", (0..places.len()).filter(|i| set >> i & 1 == 1).collect::<Vec<_>>(), places.iter().map(|p| show(p.as_os_str().as_bytes())).collect::<Vec<_>>(), show(&got), r.result)));
            }
            let got = &got[want.len()..];
            let tail = path.as_bytes();
            if !got.ends_with(tail) {
                return Err(Viol::new(id, format!("the search path {:?} has become {:?}", show(tail), show(got))));
            }
            Ok(true)
        },
    );
}

/// Script, how it ends (status or signal), standard output and error.
fn outcomes() -> Vec<(String, Result<i32, i32>, Vec<u8>, Vec<u8>)> {
    let mut v: Vec<(String, Result<i32, i32>, Vec<u8>, Vec<u8>)> = vec![];
    for c in [0, 1, 2, 3, 126, 127, 128, 130, 255] {
        v.push((format!("exit {c}"), Ok(c), vec![], vec![]));
        v.push((format!("printf 'a\\nb'; printf 'c' >&2; exit {c}"), Ok(c), b"a\nb".to_vec(), b"c".to_vec()));
    }
    for (n, s) in [("TERM", 15), ("KILL", 9), ("INT", 2), ("HUP", 1), ("SEGV", 11)] {
        v.push((format!("printf x; kill -{n} $$; sleep 5"), Err(s), b"x".to_vec(), vec![]));
    }
    let big: Vec<u8> = b"0123456789abcde\n".iter().copied().cycle().take(1 << 20).collect();
    v.push(("yes 0123456789abcde | head -c 1048576".into(), Ok(0), big.clone(), vec![]));
    v.push(("yes 0123456789abcde | head -c 1048576 >&2; yes 0123456789abcde | head -c 1048576".into(), Ok(0), big.clone(), big.clone()));
    v.push(("(yes 0123456789abcde | head -c 1048576 >&2) & yes 0123456789abcde | head -c 1048576; wait; exit 3".into(), Ok(3), big.clone(), big));
    v.push(("printf '\\377\\300\\n\\303'".into(), Ok(0), b"\xff\xc0\n\xc3".to_vec(), vec![]));
    v.push(("printf '\\377' >&2; exit 4".into(), Ok(4), vec![], b"\xff".to_vec()));
    v.push(("printf '\\000a\\r\\n\\r'".into(), Ok(0), b"\0a\r\n\r".to_vec(), vec![]));
    v.push(("cat; printf end".into(), Ok(0), b"end".to_vec(), vec![]));
    v.push(("printf '%s' \"$GIVEN\" \"$KEPT\"".into(), Ok(0), [&b"giv\xc3\xa9n"[..], b"\xffkept\n "].concat(), vec![]));
    v.push(("printf '%s\\n' 'a \"b\"' \\\n  $(printf c) && false || exit 5".into(), Ok(5), b"a \"b\"\nc\n".to_vec(), vec![]));
    v.push(("# only a comment".into(), Ok(0), vec![], vec![]));
    v.push(("".into(), Ok(0), vec![], vec![]));
    v.push((" ".into(), Ok(0), vec![], vec![]));
    v.push(("printf '\u{e9}\u{1F600}'".into(), Ok(0), "\u{e9}\u{1F600}".into(), vec![]));
    v
}

fn endings(c: &Ctx) {
    let all = outcomes();
    let cases = all.iter().flat_map(|o| ["output", "spawn"].into_iter().flat_map(move |m| ["p", "a b", "\u{e9}$HOME'\""].into_iter().map(move |d| (o, m, d))));
    c.par(
        8,
        cases,
        |(o, m, d)| json!({ "script": o.0, "run by": m, "directory": d }),
        |(o, m, d), dir| {
            let _ = std::fs::remove_dir_all(dir);
            let p = dir.join(d);
            std::fs::create_dir_all(&p).unwrap();
            let script = format!("{}", o.0);
            std::fs::write(p.join("package.json"), json!({ "scripts": { "ev": script, "other": "exit 77", "cwd": "pwd -P" } }).to_string()).unwrap();
            let id = format!("ending {:?} {m} {d}", o.0);
            let env = [("PATH", OsString::from("/usr/bin:/bin")), ("KEPT", OsString::from_vec(b"\xffkept\n ".to_vec())), ("GIVEN", "overridden".into())];
            let pkg = p.to_str().unwrap();
            let r = probe(dir, dir, m, pkg, "ev", pkg, &env).map_err(|e| Viol::new(&id, e))?;
            let want = match o.1 {
                Ok(0) => json!({"code": 0}),
                Ok(c) => json!({"code": c, "signal": null}),
                Err(s) => json!({"code": null, "signal": s}),
            };
            if r.result != want || r.out != o.2 || r.err != o.3 {
                let cut = |b: &[u8]| format!("{} bytes, {:?}", b.len(), String::from_utf8_lossy(&b[..b.len().min(60)]));
                return Err(Viol::new(id, format!("the script {:?} is reported as {} with {} and {}, instead of {want} with {} and {}", o.0, r.result, cut(&r.out), cut(&r.err), cut(&o.2), cut(&o.3))));
            }
            let r = probe(dir, dir, m, pkg, "cwd", pkg, &env).map_err(|e| Viol::new(&id, e))?;
            if r.out != [std::fs::canonicalize(&p).unwrap().as_os_str().as_bytes(), b"\n"].concat() {
                return Err(Viol::new(id, format!("a script of {} runs in {:?}", p.display(), String::from_utf8_lossy(&r.out))));
            }
            Ok(true)
        },
    );
    // What can't run is an error.
    let broken = [
        Some(r#"{"scripts":{"other":"touch ran"}}"#),
        Some(r#"{"scripts":{}}"#),
        Some("{}"),
        Some("{"),
        Some(""),
        Some(r#"{"scripts":{"ev":1}}"#),
        Some(r#"{"scripts":{"Ev":"touch ran","ev ":"touch ran"}}"#),
        None,
    ];
    c.par(
        8,
        broken.iter().flat_map(|b| ["output", "spawn"].into_iter().map(move |m| (*b, m))),
        |(b, m)| json!({ "package.json": b, "run by": m }),
        |(b, m), dir| {
            let _ = std::fs::remove_dir_all(dir);
            std::fs::create_dir_all(dir.join("p")).unwrap();
            if let Some(b) = b {
                std::fs::write(dir.join("p/package.json"), b).unwrap();
            }
            let id = format!("broken {b:?} {m}");
            let r = probe(dir, dir, m, dir.join("p").to_str().unwrap(), "ev", "-", &[("PATH", "/usr/bin:/bin".into())]).map_err(|e| Viol::new(&id, e))?;
            if r.result["error"].is_null() || dir.join("p/ran").exists() {
                return Err(Viol::new(id, format!("running a script of {b:?} is {}", r.result)));
            }
            Ok(false)
        },
    );
}

// ---- Installs.

#[derive(Clone, Debug)]
struct Install {
    isolated: bool,
    by: &'static str,
    /// Which versions of `tool` the project, p and q depend on (0: none).
    tools: [u8; 3],
    /// What p's script prints.
    out: &'static str,
}

const OUTS: &[&str] = &["", "printf '\\377\\n'", "printf '\\303' >&2", "printf 'a\\000b\\rc\\n\\r\\n'", "yes | head -c 300000; yes | head -c 300000 >&2", "printf '\\033[2J%%s{}\\n'; printf 'x' >&2", "head -c 3000000 /dev/zero"];

fn installs(c: &Ctx) {
    let mut u = Universe::default();
    for v in 1..=2 {
        u.add("tool", &format!("{v}.0.0"), Ver::default().bin("tool", "t.sh").file("t.sh", &format!("#!/bin/sh\nprintf '%s' tool{v}\n")));
        u.tag("tool", "latest", &format!("{v}.0.0"));
    }
    // Every package that the cases need: p-T-O and q-T.
    for t in 0..=2u8 {
        let deps = |t: u8| if t > 0 { vec![("tool".to_string(), format!("{t}.0.0"))] } else { vec![] };
        for (o, text) in OUTS.iter().enumerate() {
            let mut v = Ver { deps: deps(t).into_iter().collect(), ..Default::default() };
            for e in ["preinstall", "install", "postinstall"] {
                v = v.script(e, &format!("{}{}tool > {e}.tool 2>/dev/null; pwd -P > {e}.pwd", text, if text.is_empty() { "" } else { "; " }));
            }
            u.add(&format!("p-{t}-{o}"), "1.0.0", v);
        }
        u.add(&format!("q-{t}"), "1.0.0", Ver { deps: deps(t).into_iter().collect(), ..Default::default() }.script("install", "tool > install.tool 2>/dev/null; true"));
    }
    let server = u.serve(true);
    let url = server.url();
    let mut cases = vec![];
    for isolated in [false, true] {
        for by in ["cwd", "root", "relative", "link", "subdir"] {
            for i in 0..27u8 {
                let tools = [i / 9, i / 3 % 3, i % 3];
                if by == "cwd" || c.thorough || i % 4 == 1 {
                    cases.push(Install { isolated, by, tools, out: OUTS[0] });
                }
            }
        }
        for o in &OUTS[1..] {
            cases.push(Install { isolated, by: "cwd", tools: [1, 2, 0], out: o });
            cases.push(Install { isolated, by: "cwd", tools: [0, 1, 2], out: o });
        }
    }
    c.par(
        8,
        cases.iter(),
        |x| json!(format!("{x:?}")),
        |x, dir| {
            let _ = std::fs::remove_dir_all(dir);
            let root = dir.join("above/proj");
            std::fs::create_dir_all(root.join("sub")).unwrap();
            std::os::unix::fs::symlink("proj", dir.join("above/link")).unwrap();
            let o = OUTS.iter().position(|o| *o == x.out).unwrap();
            let mut deps = sm(&[]);
            let (p, q) = (format!("p-{}-{o}", x.tools[1]), format!("q-{}", x.tools[2]));
            deps.insert(p.clone(), "1.0.0".into());
            deps.insert(q.clone(), "1.0.0".into());
            if x.tools[0] > 0 {
                deps.insert("tool".into(), format!("{}.0.0", x.tools[0]));
            }
            std::fs::write(root.join("package.json"), json!({"name": "proj", "dependencies": deps, "scripts": {"install": "tool > install.tool 2>/dev/null; pwd -P > install.pwd"}}).to_string()).unwrap();
            exe(&dir.join("inherited/tool"), "printf '%s' inherited");
            exe(&dir.join("above/node_modules/.bin/tool"), "printf '%s' above");
            let (cwd, root_arg): (PathBuf, Option<String>) = match x.by {
                "cwd" => (root.clone(), None),
                "root" => (dir.join("inherited"), Some(root.display().to_string())),
                "relative" => (dir.join("above"), Some("proj".into())),
                "link" => (dir.join("inherited"), Some(dir.join("above/link").display().to_string())),
                _ => (root.join("sub"), None),
            };
            let mut cli = Cli::new(&dir.join("home"), &cwd);
            cli.env.push(("PATH".into(), format!("{}:/usr/bin:/bin", dir.join("inherited").display())));
            let mut args = vec!["apply", "--registry", &url];
            if x.isolated {
                args.push("--no-hoisted");
            } else {
                args.push("--hoisted");
            }
            if let Some(r) = &root_arg {
                args.extend(["--root", r]);
            }
            let r = cli.run(&args);
            let id = format!("{x:?}");
            if r.code != Some(0) {
                return Err(Viol::new(id, format!("the install fails with {:?}: {}", r.code, &r.stderr.chars().take(2000).collect::<String>())));
            }
            let real = std::fs::canonicalize(&root).unwrap();
            let find = |n: &str| std::fs::canonicalize(root.join("node_modules").join(n)).unwrap();
            let read = |f: PathBuf| std::fs::read_to_string(&f).map_err(|e| Viol::new(&id, format!("{}: {e}", f.display())));
            let mut look = vec![(real.clone(), x.tools[0], "install")];
            for e in ["preinstall", "install", "postinstall"] {
                look.push((find(&p), x.tools[1], e));
            }
            look.push((find(&q), x.tools[2], "install"));
            for (d, t, e) in look {
                // preinstall runs before executables are linked.
                if e != "preinstall" {
                    let got = read(d.join(format!("{e}.tool")))?;
                    let ok = if t > 0 { got == format!("tool{t}") } else { got != "above" };
                    if !ok {
                        return Err(Viol::new(&id, format!("{e} of {} finds {got:?} instead of its dependency's executable, version {t}", d.display())));
                    }
                    // Without any, there's only the inherited one.
                    if x.tools == [0, 0, 0] && got != "inherited" {
                        return Err(Viol::new(&id, format!("{e} of {} finds {got:?} instead of the inherited executable", d.display())));
                    }
                }
                if !d.ends_with(&q) {
                    let got = read(d.join(format!("{e}.pwd")))?;
                    if got.trim_end() != d.to_str().unwrap() {
                        return Err(Viol::new(&id, format!("{e} of {} runs in {got}", d.display())));
                    }
                }
            }
            Ok(true)
        },
    );
}

pub fn run(c: &Ctx) {
    lookups(c);
    endings(c);
    installs(c);
}
