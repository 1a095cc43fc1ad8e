//! I06 and I07: install scripts, under a scheduler that decides which script ends next.
use crate::drive::corgi;
use crate::http::Server;
use crate::report::*;
use crate::uni::*;
use node_maintainer::NodeMaintainer;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::OpenOptionsExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn ctx6(thorough: bool) -> Ctx {
    Ctx::new(
        "I06",
        thorough,
        "model_checking",
        "Stateless model checking of the real installer's script scheduling: every script reports its start and then waits until the explorer lets it end, so the explorer owns the completion order; depth-first search over every order in which running scripts can end, for every dependency graph of the bound (up to isomorphism), every assignment of script stages, several limits and both linkers. Every start is checked: its stage, its directory, that everything it depends on has ended, the limit, and that it never ran before; at the end every due script has run. Histories: a second apply runs the scripts of new packages only. states = reached scheduling states (case, sets of ended and running scripts), transitions = releases. Non-trivial: at least two scripts ran.",
    )
}

pub fn ctx7(thorough: bool) -> Ctx {
    Ctx::new(
        "I07",
        thorough,
        "model_checking",
        "Stateless model checking of the real installer's script scheduling under failure: as I06, with every choice of failing scripts in every graph of the bound including cycles, with every choice of optional edges, over every completion order. The apply must fail exactly when a failing script's package is reachable without optional edges, must always end, and nothing starts after it has ended. states = reached scheduling states, transitions = releases. Non-trivial: a script failed.",
    )
}

const EVENTS: [&str; 3] = ["preinstall", "install", "postinstall"];

/// A package of a case.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Slot {
    name: String,
    version: String,
    /// Which stages it has scripts for, and which of them fail.
    stages: u8,
    fails: u8,
    /// 0: no dependency, 1: dependency, 2: optional dependency (by slot).
    deps: Vec<u8>,
}

#[derive(Clone, Debug)]
struct Case {
    slots: Vec<Slot>,
    root: Vec<u8>,
    /// Scripts of the project itself.
    own: u8,
    own_fails: u8,
    limit: usize,
    hoisted: bool,
    scripts: bool,
    /// What was installed before.
    before: Option<Vec<u8>>,
}

impl Case {
    fn describe(&self) -> Value {
        let deps = |d: &[u8]| -> Vec<String> { d.iter().enumerate().filter(|(_, x)| **x > 0).map(|(i, x)| format!("{}{}", self.slots[i].id(), if *x == 2 { "?" } else { "" })).collect() };
        let st = |s: u8| -> Vec<&str> { (0..3).filter(|i| s >> i & 1 == 1).map(|i| EVENTS[i]).collect() };
        let p: Vec<Value> = self.slots.iter().map(|s| json!({"package": s.id(), "needs": deps(&s.deps), "scripts": st(s.stages), "fails": st(s.fails)})).collect();
        json!({"packages": p, "project needs": deps(&self.root), "project scripts": st(self.own), "project fails": st(self.own_fails), "limit": self.limit, "hoisted": self.hoisted, "scripts": self.scripts, "installed before": self.before.as_ref().map(|b| deps(b))})
    }

    fn universe(&self) -> Universe {
        let mut u = Universe::default();
        for (i, s) in self.slots.iter().enumerate() {
            let mut v = Ver::default();
            for (j, k) in s.deps.iter().enumerate() {
                let t = &self.slots[j];
                match k {
                    1 => drop(v.deps.insert(t.name.clone(), t.version.clone())),
                    2 => drop(v.optional.insert(t.name.clone(), t.version.clone())),
                    _ => {}
                }
            }
            for e in 0..3 {
                if s.stages >> e & 1 == 1 {
                    v.scripts.insert(EVENTS[e].into(), script(&i.to_string(), e));
                }
            }
            u.add(&s.name, &s.version, v);
            u.tag(&s.name, "latest", &s.version);
        }
        u
    }

    fn manifest(&self, root: &[u8]) -> Value {
        let pick = |k: u8| -> BTreeMap<String, String> { root.iter().enumerate().filter(|(_, x)| **x == k).map(|(i, _)| (self.slots[i].name.clone(), self.slots[i].version.clone())).collect() };
        let scripts: BTreeMap<&str, String> = (0..3).filter(|e| self.own >> e & 1 == 1).map(|e| (EVENTS[e], script("root", e))).collect();
        json!({"name": "proj", "version": "1.0.0", "dependencies": pick(1), "optionalDependencies": pick(2), "scripts": scripts})
    }

    /// Slots reachable from these.
    fn reach(&self, from: &[u8], optional: bool) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        let ok = |k: u8| k == 1 || (optional && k == 2);
        let mut todo: Vec<usize> = from.iter().enumerate().filter(|(_, k)| ok(**k)).map(|(i, _)| i).collect();
        while let Some(i) = todo.pop() {
            if out.insert(i) {
                todo.extend(self.slots[i].deps.iter().enumerate().filter(|(_, k)| ok(**k)).map(|(j, _)| j));
            }
        }
        out
    }

    fn due(&self) -> BTreeSet<usize> {
        let mut now = self.reach(&self.root, true);
        if let Some(b) = &self.before {
            for x in self.reach(b, true) {
                now.remove(&x);
            }
        }
        now
    }
}

impl Slot {
    fn id(&self) -> String {
        format!("{}@{}", self.name, self.version)
    }
}

fn script(slot: &str, event: usize) -> String {
    format!("echo s {slot} {event} $PWD > $OROMC_D/events; read c < $OROMC_D/gate.{slot}.{event}; echo e {slot} {event} > $OROMC_D/events; exit $c")
}

/// The child process: one apply.
pub fn helper(args: &[String]) {
    let (url, proj, cache, hoisted, limit, scripts) = (&args[0], Path::new(&args[1]), Path::new(&args[2]), args[3] == "true", args[4].parse().unwrap(), args[5] == "true");
    let r: Result<(), String> = async_std::task::block_on(async {
        let man: Value = serde_json::from_slice(&std::fs::read(proj.join("package.json")).unwrap()).unwrap();
        let nm = NodeMaintainer::builder()
            .registry(url.parse().unwrap())
            .cache(cache)
            .hoisted(hoisted)
            .script_concurrency(limit)
            .root(proj)
            .resolve_manifest(corgi(man))
            .await
            .map_err(|e| format!("resolution: {e}"))?;
        nm.prune().await.map_err(|e| format!("pruning: {e}"))?;
        nm.extract().await.map_err(|e| format!("extraction: {e}"))?;
        nm.rebuild(!scripts).await.map_err(|e| format!("script: {e}"))
    });
    if let Err(e) = r {
        println!("{e}");
        std::process::exit(3);
    }
    std::process::exit(0);
}

/// Who runs a script: a slot, or the project (last).
type Who = usize;

struct Fifo(File);

impl Fifo {
    fn open(p: &Path) -> Result<Fifo, String> {
        let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
        unsafe { libc::mkfifo(c.as_ptr(), 0o600) };
        std::fs::OpenOptions::new().read(true).write(true).custom_flags(libc::O_NONBLOCK).open(p).map(Fifo).map_err(|e| format!("{}: {e}", p.display()))
    }
}

struct Run<'a> {
    case: &'a Case,
    dir: &'a Path,
    events: Fifo,
    gates: HashMap<(Who, usize), Fifo>,
    buf: String,
    child: Child,
    out: Option<String>,
    running: BTreeSet<(Who, usize)>,
    ended: BTreeSet<(Who, usize)>,
    due: BTreeSet<(Who, usize)>,
    failed: bool,
}

impl<'a> Run<'a> {
    fn label(&self, w: Who) -> String {
        if w == self.case.slots.len() { "the project".into() } else { self.case.slots[w].id() }
    }

    /// What has to end before this may start.
    fn waits_for(&self, (w, e): (Who, usize)) -> Vec<(Who, usize)> {
        let c = self.case;
        let n = c.slots.len();
        let below = |x: Who| if x == n { c.reach(&c.root, true) } else { c.reach(&c.slots[x].deps, true) };
        let deps = below(w);
        self.due
            .iter()
            .copied()
            .filter(|(x, f)| *f < e || (*f == e && *x != w && deps.contains(x) && (*x == n || w == n || !below(*x).contains(&w))))
            .collect()
    }

    fn ready(&self) -> BTreeSet<(Who, usize)> {
        self.due.iter().copied().filter(|s| !self.running.contains(s) && !self.ended.contains(s) && self.waits_for(*s).iter().all(|d| self.ended.contains(d))).collect()
    }

    /// Waits for something to happen: an event, the end of the child, or the time limit (false).
    fn step(&mut self, limit: Duration) -> Result<bool, String> {
        loop {
            if let Some(i) = self.buf.find('\n') {
                let line: String = self.buf.drain(..=i).collect();
                self.event(line.trim())?;
                return Ok(true);
            }
            let so = self.child.stdout.as_ref().map(|s| s.as_raw_fd());
            let mut fds = vec![libc::pollfd { fd: self.events.0.as_raw_fd(), events: libc::POLLIN, revents: 0 }];
            if let (Some(fd), None) = (so, &self.out) {
                fds.push(libc::pollfd { fd, events: libc::POLLIN, revents: 0 });
            }
            let n = unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as u64, limit.as_millis() as i32) };
            if n <= 0 {
                return Ok(false);
            }
            if fds[0].revents != 0 {
                let mut b = [0u8; 4096];
                let n = self.events.0.read(&mut b).map_err(|e| e.to_string())?;
                self.buf.push_str(&String::from_utf8_lossy(&b[..n]));
                continue;
            }
            let mut t = String::new();
            let _ = self.child.stdout.take().unwrap().read_to_string(&mut t);
            self.out = Some(t);
            return Ok(true);
        }
    }

    fn event(&mut self, line: &str) -> Result<(), String> {
        let f: Vec<&str> = line.splitn(4, ' ').collect();
        let n = self.case.slots.len();
        let who = if f[1] == "root" { n } else { f[1].parse().map_err(|_| format!("event {line}"))? };
        let s = (who, f[2].parse::<usize>().unwrap());
        let what = format!("{} of {}", EVENTS[s.1], self.label(who));
        if f[0] == "e" {
            self.running.remove(&s);
            self.ended.insert(s);
            return Ok(());
        }
        if self.out.is_some() {
            return Err(format!("{what} starts after the end"));
        }
        if !self.due.contains(&s) {
            return Err(format!("{what} runs, but has no reason to"));
        }
        if self.running.contains(&s) || self.ended.contains(&s) {
            return Err(format!("{what} runs twice"));
        }
        for d in self.waits_for(s) {
            if !self.ended.contains(&d) {
                return Err(format!("{what} starts before {} of {} has ended", EVENTS[d.1], self.label(d.0)));
            }
        }
        self.running.insert(s);
        if self.running.len() > self.case.limit {
            return Err(format!("{} scripts run at once: {:?}", self.running.len(), self.running.iter().map(|s| self.label(s.0)).collect::<Vec<_>>()));
        }
        // Where it runs.
        let pwd = Path::new(f[3]);
        let proj = std::fs::canonicalize(self.dir.join("proj")).unwrap();
        if who == n {
            if pwd != proj {
                return Err(format!("{what} runs in {}", pwd.display()));
            }
        } else {
            let m: Value = std::fs::read(pwd.join("package.json")).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
            let want = &self.case.slots[who];
            if !pwd.starts_with(proj.join("node_modules")) || m["name"] != want.name.as_str() || m["version"] != want.version.as_str() {
                return Err(format!("{what} runs in {}", pwd.display()));
            }
        }
        Ok(())
    }

    /// Waits until everything that should be running is.
    fn quiesce(&mut self) -> Result<(), String> {
        let start = Instant::now();
        loop {
            if self.out.is_some() {
                return Ok(());
            }
            let want = (self.running.len() + self.ready().len()).min(self.case.limit);
            let settled = self.running.len() >= want && want > 0;
            if !self.step(Duration::from_millis(if settled { 3 } else { 50 }))? {
                if settled {
                    return Ok(());
                }
                if start.elapsed() > Duration::from_secs(15) {
                    if want == 0 {
                        return Err("the apply doesn't end".into());
                    }
                    let r: Vec<String> = self.ready().iter().map(|s| format!("{} of {}", EVENTS[s.1], self.label(s.0))).collect();
                    return Err(format!("nothing happens, although {} could start", r.join(", ")));
                }
            }
        }
    }

    fn release(&mut self, s: (Who, usize)) -> Result<(), String> {
        let c = self.case;
        let fails = if s.0 == c.slots.len() { c.own_fails } else { c.slots[s.0].fails } >> s.1 & 1;
        let line = format!("{fails}\n");
        self.gates.get_mut(&s).unwrap().0.write_all(line.as_bytes()).map_err(|e| e.to_string())?;
        if fails == 1 {
            self.failed = true;
        }
        let start = Instant::now();
        while !self.ended.contains(&s) {
            self.step(Duration::from_millis(50))?;
            if start.elapsed() > Duration::from_secs(15) {
                return Err("a released script doesn't end".into());
            }
        }
        Ok(())
    }
}

impl Drop for Run<'_> {
    fn drop(&mut self) {
        unsafe { libc::kill(-(self.child.id() as i32), libc::SIGKILL) };
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

struct World {
    reg: Arc<Mutex<Universe>>,
    server: Server,
}

fn spawn(w: &World, c: &Case, dir: &Path, scripts: bool) -> Result<Child, String> {
    use std::os::unix::process::CommandExt;
    Command::new(std::env::current_exe().unwrap())
        .args(["i06-apply", &w.server.url()])
        .args([dir.join("proj"), dir.join("cache")])
        .args([c.hoisted.to_string(), c.limit.to_string(), scripts.to_string()])
        .env("OROMC_D", dir)
        .process_group(0)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())
}

/// What was running at a choice, and which of it was released.
type Choice = (Vec<(Who, usize)>, usize);

/// One run following `choices` (then always the first); returns the choices made. Which of
/// several scripts start when only some of them may is up to the installer, so a run can
/// leave the path; the choices returned then differ.
fn once(ctx: &Ctx, w: &World, c: &Case, dir: &Path, choices: &[Choice]) -> Result<Vec<Choice>, String> {
    let _ = std::fs::remove_dir_all(dir.join("proj"));
    std::fs::create_dir_all(dir.join("proj")).unwrap();
    std::fs::create_dir_all(dir.join("cache")).unwrap();
    *w.reg.lock().unwrap() = c.universe();
    let man = |r: &[u8]| std::fs::write(dir.join("proj/package.json"), c.manifest(r).to_string()).unwrap();
    if let Some(b) = &c.before {
        man(b);
        let st = spawn(w, c, dir, false)?.wait_with_output().map_err(|e| e.to_string())?;
        if st.status.code() != Some(0) {
            return Err(format!("the apply before fails: {}", String::from_utf8_lossy(&st.stdout)));
        }
    }
    man(&c.root);
    let n = c.slots.len();
    let mut due = BTreeSet::new();
    if c.scripts {
        for e in 0..3 {
            due.extend(c.due().into_iter().filter(|i| c.slots[*i].stages >> e & 1 == 1).map(|i| (i, e)));
            if c.own >> e & 1 == 1 {
                due.insert((n, e));
            }
        }
    }
    let events = Fifo::open(&dir.join("events"))?;
    // Whatever an earlier run left.
    let mut b = [0u8; 65536];
    while matches!((&events.0).read(&mut b), Ok(k) if k > 0) {}
    let mut gates = HashMap::new();
    for s in (0..=n).flat_map(|i| (0..3).map(move |e| (i, e))) {
        let l = if s.0 == n { "root".into() } else { s.0.to_string() };
        let g = Fifo::open(&dir.join(format!("gate.{l}.{}", s.1)))?;
        while matches!((&g.0).read(&mut b), Ok(k) if k > 0) {}
        gates.insert(s, g);
    }
    let child = spawn(w, c, dir, c.scripts)?;
    let mut r = Run { case: c, dir, events, gates, buf: String::new(), child, out: None, running: Default::default(), ended: Default::default(), due, failed: false };
    // Failures that count.
    let needed = c.reach(&c.root, false);
    let fatal = |s: &(Who, usize)| {
        if s.0 == n { c.own_fails >> s.1 & 1 == 1 } else { c.slots[s.0].fails >> s.1 & 1 == 1 && needed.contains(&s.0) }
    };
    let mut made: Vec<Choice> = vec![];
    let mut on_path = true;
    let mut path = String::new();
    let mut stop = false;
    loop {
        r.quiesce()?;
        ctx.states.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if r.out.is_some() || stop {
            break;
        }
        let opts: Vec<_> = r.running.iter().copied().collect();
        if opts.is_empty() {
            continue;
        }
        let k = match choices.get(made.len()) {
            Some((o, k)) if on_path && *o == opts => *k,
            Some(_) => {
                on_path = false;
                0
            }
            None => 0,
        };
        let s = opts[k];
        made.push((opts, k));
        path += &format!(" {}/{}", r.label(s.0), EVENTS[s.1]);
        r.release(s).map_err(|e| format!("{e} (order:{path})"))?;
        ctx.transitions.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if fatal(&s) {
            stop = true;
            // Now it has to end by itself, even while other scripts still run.
            let start = Instant::now();
            while r.out.is_none() {
                // Starts between the script's end and the report of its failure are fine, but they have to be legitimate.
                r.step(Duration::from_millis(50)).map_err(|e| format!("{e} (order:{path})"))?;
                if start.elapsed() > Duration::from_secs(15) {
                    return Err(format!("doesn't end after a script failed (order:{path})"));
                }
            }
        }
    }
    let out = r.out.clone().unwrap_or_default();
    let code = r.child.wait().ok().and_then(|s| s.code());
    // Nothing may start any more.
    while r.step(Duration::from_millis(2)).map_err(|e| format!("{e} (order:{path})"))? {}
    if stop {
        if code != Some(3) || !out.starts_with("script:") {
            return Err(format!("a required script failed, but the apply ended with {code:?} {out} (order:{path})"));
        }
    } else {
        if code != Some(0) {
            return Err(format!("no required script failed, but the apply did: {code:?} {out} (order:{path})"));
        }
        let missing: Vec<String> = r.due.iter().filter(|s| !r.ended.contains(s)).map(|s| format!("{} of {}", EVENTS[s.1], r.label(s.0))).collect();
        if !missing.is_empty() {
            return Err(format!("ended without running {} (order:{path})", missing.join(", ")));
        }
    }
    Ok(made)
}

fn one(ctx: &Ctx, w: &World, c: &Case, dir: &Path, min: usize) -> Out {
    let mut choices: Vec<Choice> = vec![];
    let mut orders = 0;
    let mut most = 0;
    let mut lost = 0;
    loop {
        let made = once(ctx, w, c, dir, &choices)?;
        orders += 1;
        most = most.max(made.len());
        if ctx.out_of_time() {
            break;
        }
        let left = choices.iter().zip(&made).any(|(a, b)| a != b) || made.len() < choices.len();
        if left && lost < 6 {
            lost += 1;
            continue;
        }
        if left {
            ctx.addcov("orders given up because the installer kept starting other scripts first", 1);
        }
        lost = 0;
        // The next path in depth-first order.
        let mut next = if left { choices } else { made };
        while let Some((o, k)) = next.pop() {
            if k + 1 < o.len() {
                next.push((o, k + 1));
                break;
            }
        }
        if next.is_empty() {
            break;
        }
        choices = next;
    }
    ctx.addcov("completion orders", orders);
    ctx.traces.fetch_add(orders, std::sync::atomic::Ordering::SeqCst);
    Ok(most >= min)
}

fn slots(n: usize) -> Vec<Slot> {
    (0..n).map(|i| Slot { name: format!("p{i}"), version: "1.0.0".into(), stages: 4, fails: 0, deps: vec![0; n] }).collect()
}

/// All graphs of n packages with edges of these kinds, one of each isomorphism class of (graph, root edges).
fn graphs(n: usize, kinds: &[u8], roots: &[u8], acyclic: bool) -> Vec<(Vec<Vec<u8>>, Vec<u8>)> {
    let mut out = vec![];
    let mut seen = BTreeSet::new();
    // Every acyclic graph has a numbering in which all edges go up.
    let ne = if acyclic { n * (n - 1) / 2 } else { n * (n - 1) };
    let total = kinds.len().pow(ne as u32) * roots.len().pow(n as u32);
    let perms = permutations(n);
    for mut x in 0..total {
        let mut take = |k: &[u8]| {
            let v = k[x % k.len()];
            x /= k.len();
            v
        };
        let mut m = vec![vec![0u8; n]; n];
        for i in 0..n {
            for j in 0..n {
                if if acyclic { i < j } else { i != j } {
                    m[i][j] = take(kinds);
                }
            }
        }
        let r: Vec<u8> = (0..n).map(|_| take(roots)).collect();
        // Everything has to be needed by something.
        let mut reach = BTreeSet::new();
        let mut todo: Vec<usize> = (0..n).filter(|i| r[*i] > 0).collect();
        while let Some(i) = todo.pop() {
            if reach.insert(i) {
                todo.extend((0..n).filter(|j| m[i][*j] > 0));
            }
        }
        if reach.len() < n {
            continue;
        }
        let canon = perms
            .iter()
            .map(|p| {
                let mut v = vec![];
                for i in 0..n {
                    for j in 0..n {
                        v.push(m[p[i]][p[j]]);
                    }
                }
                v.extend(p.iter().map(|i| r[*i]));
                v
            })
            .min()
            .unwrap();
        if seen.insert(canon) {
            out.push((m, r));
        }
    }
    out
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    permutations(n - 1).into_iter().flat_map(|p| (0..n).map(move |i| { let mut q = p.clone(); q.insert(i, n - 1); q })).collect()
}

fn drive(ctx: &Ctx, cases: Vec<Case>, min: usize) {
    ctx.cov("cases", cases.len() as u64);
    let worlds: Mutex<HashMap<PathBuf, Arc<World>>> = Default::default();
    ctx.par(cores(), cases.into_iter(), Case::describe, |c, d| {
        std::fs::create_dir_all(d).unwrap();
        let w = worlds
            .lock()
            .unwrap()
            .entry(d.to_path_buf())
            .or_insert_with(|| {
                let reg = Arc::new(Mutex::new(Universe::default()));
                let server = serve_cell(reg.clone(), true);
                Arc::new(World { reg, server })
            })
            .clone();
        one(ctx, &w, c, d, min)
    });
}

fn with(g: &(Vec<Vec<u8>>, Vec<u8>), stages: &[u8]) -> (Vec<Slot>, Vec<u8>) {
    let mut s = slots(g.0.len());
    for (i, x) in s.iter_mut().enumerate() {
        x.deps = g.0[i].clone();
        x.stages = stages[i % stages.len()];
    }
    (s, g.1.clone())
}

pub fn run6(ctx: &Ctx) {
    let mut cases = vec![];
    let base = |slots: Vec<Slot>, root: Vec<u8>| Case { slots, root, own: 0, own_fails: 0, limit: 8, hoisted: true, scripts: true, before: None };
    // Graphs with one stage each, all completion orders.
    for n in 1..=if ctx.thorough { 5 } else { 4 } {
        for g in graphs(n, &[0, 1], &[0, 1], true) {
            for limit in [1, 2, 8] {
                if limit == 8 && n < 3 {
                    continue;
                }
                let (s, r) = with(&g, &[4]);
                for hoisted in [true, false] {
                    if (n == 5 || (!ctx.thorough && n == 4)) && hoisted == (limit == 2) {
                        continue;
                    }
                    cases.push(Case { limit, hoisted, own: if n < 3 { 4 } else { 0 }, ..base(s.clone(), r.clone()) });
                }
            }
        }
    }
    // Assignments of stages.
    for n in 1..=2 {
        for g in graphs(n, &[0, 1], &[0, 1], true) {
            for x in 0..8usize.pow(n as u32 + 1) {
                let st: Vec<u8> = (0..n).map(|i| (x >> (3 * i) & 7) as u8).collect();
                let own = (x >> (3 * n) & 7) as u8;
                let (s, r) = with(&g, &st);
                cases.push(Case { own, hoisted: x % 2 == 0, limit: 2, ..base(s, r) });
            }
        }
    }
    for g in graphs(3, &[0, 1], &[0, 1], true) {
        for st in [[1, 1, 4], [4, 1, 1], [3, 6, 5], [2, 0, 2], [1, 0, 4], [0, 2, 1], [7, 0, 7]] {
            let (s, r) = with(&g, &st);
            cases.push(Case { hoisted: st[0] % 2 == 0, limit: 3, own: st[0] & 4, ..base(s, r) });
        }
    }
    // Cycles, and optional dependencies: they have to be waited for as well.
    for n in 2..=3 {
        for g in graphs(n, &[0, 1, 2], &[1, 2], false) {
            let flat: Vec<u8> = g.0.iter().flatten().chain(&g.1).copied().collect();
            if !ctx.thorough && n == 3 && (flat.iter().filter(|x| **x == 2).count() != 1 || flat.iter().filter(|x| **x > 0).count() > 6) {
                continue;
            }
            if ctx.thorough && n == 3 && flat.iter().filter(|x| **x == 2).count() > 2 {
                continue;
            }
            let (s, r) = with(&g, &[4]);
            cases.push(Case { hoisted: flat.len() % 2 == 0, limit: 3, ..base(s, r) });
        }
    }
    // Two versions of one package.
    for g in graphs(3, &[0, 1], &[0, 1], true) {
        // p2 becomes another version of p1: nobody may need both.
        let both = |d: &[u8]| d[1] > 0 && d[2] > 0;
        if g.0.iter().any(|d| both(d)) || both(&g.1) {
            continue;
        }
        // Several dependents could each get a copy of their own.
        if (1..3).any(|i| g.0.iter().chain([&g.1]).filter(|d| d[i] > 0).count() > 1) {
            continue;
        }
        let (mut s, r) = with(&g, &[5]);
        s[2].name = "p1".into();
        s[2].version = "2.0.0".into();
        for hoisted in [true, false] {
            cases.push(Case { hoisted, limit: 2, ..base(s.clone(), r.clone()) });
        }
    }
    // What was there before doesn't run again; and scripts can be disabled.
    for n in 2..=3 {
        for g in graphs(n, &[0, 1], &[0, 1], true) {
            let (s, r) = with(&g, &[5]);
            for b in 0..1u8 << n {
                let before: Vec<u8> = (0..n).map(|i| b >> i & 1).collect();
                cases.push(Case { before: Some(before), hoisted: b % 2 == 0, limit: 1, ..base(s.clone(), r.clone()) });
            }
            cases.push(Case { scripts: false, own: 7, hoisted: n == 2, ..base(s, r) });
        }
    }
    drive(ctx, cases, 2);
}

pub fn run7(ctx: &Ctx) {
    let mut cases = vec![];
    let base = |slots: Vec<Slot>, root: Vec<u8>| Case { slots, root, own: 0, own_fails: 0, limit: 3, hoisted: true, scripts: true, before: None };
    for n in 1..=3 {
        for g in graphs(n, &[0, 1, 2], &[0, 1, 2], false) {
            let flat: Vec<u8> = g.0.iter().flatten().chain(&g.1).copied().collect();
            let (edges, optional) = (flat.iter().filter(|x| **x > 0).count(), flat.iter().filter(|x| **x == 2).count());
            if n == 3 && (edges > if ctx.thorough { 7 } else { 5 } || (!ctx.thorough && optional > 2)) {
                continue;
            }
            for f in 1..1u8 << n {
                if n == 3 && !ctx.thorough && edges > 4 && f.count_ones() > 1 {
                    continue;
                }
                let (mut s, r) = with(&g, &[4]);
                for (i, x) in s.iter_mut().enumerate() {
                    if f >> i & 1 == 1 {
                        x.fails = 4;
                    }
                }
                let k = flat.iter().map(|x| *x as usize).sum::<usize>() + f as usize;
                for limit in if n < 3 { vec![1, 2] } else { vec![1 + 2 * (k % 2)] } {
                    cases.push(Case { limit, hoisted: k % 2 == 0, ..base(s.clone(), r.clone()) });
                }
            }
        }
    }
    // Failures in other stages, with scripts in several.
    for g in graphs(2, &[0, 1, 2], &[0, 1, 2], false) {
        for e in 0..3 {
            for who in 0..2 {
                let (mut s, r) = with(&g, &[7]);
                s[who].fails = 1 << e;
                cases.push(Case { hoisted: who == 0, limit: 2, ..base(s, r) });
            }
        }
    }
    // The project's own scripts.
    for g in graphs(1, &[0], &[1, 2], false) {
        for e in 0..3 {
            let (s, r) = with(&g, &[7]);
            cases.push(Case { own: 7, own_fails: 1 << e, hoisted: e == 1, ..base(s, r) });
        }
    }
    drive(ctx, cases, 1);
}
