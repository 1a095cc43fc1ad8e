//! T05: every interleaving (within a bound) of two installs that share a cache.
use crate::cli::Cli;
use crate::report::*;
use crate::snap::{diff, snap, Node, Tree};
use crate::trace;
use crate::uni::*;
use serde_json::{json, Value};
use std::fs::File;
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering;
use std::process::Command;
use std::sync::{Condvar, Mutex};
use std::time::Duration;

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "T05",
        thorough,
        "model_checking",
        "Stateless model checking: two real `oro apply` processes, in projects of their own, share one cache and run under a scheduler (ptrace) that hands the turn over at operations on the cache's files (looking, opening, reading, mapping, writing, renaming, linking, removing): every schedule in which the first stops before its k-th operation until the second is done, and (thorough, for the same package and three states of the cache) every schedule in which the second in turn stops before its m-th operation until the first is done. Scenarios: an empty cache; a warm one; one whose contents are cut short, altered or gone; one without its index, or with half of it; the same packages in both projects, and different ones with files in common; copying and linking. Oracle: both succeed with the trees that each project has by itself; so does a third install from that cache, which leaves the trees of the other two as they are. states = points at which the turn can be handed over, transitions = operations on the cache executed under the scheduler. Non-trivial: the turn was handed over before the end.",
    )
}

/// Who may touch the cache.
struct Turns {
    /// Whose turn it is; what is left of it (in operations; None: all there are).
    state: Mutex<State>,
    changed: Condvar,
}

struct State {
    turn: usize,
    left: Option<usize>,
    /// The slices to come.
    next: Vec<usize>,
    over: [bool; 2],
    ops: [usize; 2],
    switches: usize,
}

const LIMIT: Duration = Duration::from_secs(60);

impl Turns {
    fn new(slices: &[usize]) -> Self {
        let mut next = slices.to_vec();
        let left = if next.is_empty() { None } else { Some(next.remove(0)) };
        Turns { state: Mutex::new(State { turn: 0, left, next, over: [false; 2], ops: [0; 2], switches: 0 }), changed: Condvar::new() }
    }

    fn pass(s: &mut State) {
        s.turn = 1 - s.turn;
        s.left = if s.next.is_empty() { None } else { Some(s.next.remove(0)) };
    }

    fn step(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        if s.turn == me && s.left == Some(0) && !s.over[1 - me] {
            s.switches += 1;
            Self::pass(&mut s);
            self.changed.notify_all();
        }
        while s.turn != me && !s.over[1 - me] {
            s = self.changed.wait(s).unwrap();
        }
        s.ops[me] += 1;
        s.left = s.left.map(|l| l.saturating_sub(1));
    }

    fn end(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        s.over[me] = true;
        if s.turn == me {
            Self::pass(&mut s);
        }
        self.changed.notify_all();
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Cache {
    Empty,
    Warm,
    /// Contents: cut short, altered, gone.
    Short,
    Altered,
    Gone,
    /// The index: gone, cut in the middle of its files' last lines.
    NoIndex,
    HalfIndex,
}

#[derive(Clone, Debug)]
struct Scenario {
    name: &'static str,
    deps: [&'static [&'static str]; 2],
    copy: [bool; 2],
    cache: Cache,
}

fn universe() -> Universe {
    let mut u = Universe::default();
    let shared = "module.exports = 'shared'\n";
    u.add("a", "1.0.0", Ver::default().file("shared.js", shared).bin("a", "a.js")).tag("a", "latest", "1.0.0");
    u.add("b", "1.0.0", Ver::default().file("lib/other.js", shared).file("b.js", "b\n")).tag("b", "latest", "1.0.0");
    // Its files are its own: it may change them.
    u.add("s", "1.0.0", Ver::default().script("install", "echo more >> shared.js").file("shared.js", shared)).tag("s", "latest", "1.0.0");
    u
}

fn scenarios(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    for cache in [Cache::Empty, Cache::Warm, Cache::Short, Cache::Altered, Cache::Gone, Cache::NoIndex, Cache::HalfIndex] {
        v.push(Scenario { name: "the same package", deps: [&["a"], &["a"]], copy: [false, false], cache });
        v.push(Scenario { name: "packages with files in common", deps: [&["a"], &["b"]], copy: [false, true], cache });
        v.push(Scenario { name: "a package whose script changes files in common", deps: [&["s"], &["a"]], copy: [false, false], cache });
        v.push(Scenario { name: "several packages", deps: [&["a", "s"], &["b", "a"]], copy: [true, false], cache });
    }
    if !thorough {
        v.retain(|s| match s.name {
            "the same package" => [Cache::Empty, Cache::Short, Cache::Gone, Cache::NoIndex].contains(&s.cache),
            "packages with files in common" => [Cache::Altered, Cache::HalfIndex].contains(&s.cache),
            "several packages" => [Cache::Empty, Cache::Short].contains(&s.cache),
            _ => s.cache == Cache::Altered,
        });
    }
    v
}

struct World {
    url: String,
}

fn apply(w: &World, dir: &Path, who: &str, copy: bool) -> Command {
    let d = dir.join(who);
    let mut c = Cli::new(&d.join("home"), &d.join("proj"));
    c.timeout = LIMIT;
    let cache = dir.join("cache");
    let mut a = vec!["apply", "--registry", &w.url, "--retries", "0", "--concurrency", "1", "--script-concurrency", "1", "--cache", cache.to_str().unwrap()];
    if copy {
        a.push("--prefer-copy");
    }
    let mut c = c.command(&a);
    let err = File::create(d.join("stderr")).unwrap();
    c.stdout(std::process::Stdio::null()).stderr(err);
    c
}

fn project(dir: &Path, who: &str, deps: &[&str]) {
    let d = dir.join(who);
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(d.join("proj")).unwrap();
    std::fs::create_dir_all(d.join("home")).unwrap();
    let m = json!({"name": "proj", "version": "1.0.0", "dependencies": deps.iter().map(|d| (d.to_string(), json!("^1.0.0"))).collect::<serde_json::Map<String, Value>>()});
    std::fs::write(d.join("proj/package.json"), m.to_string()).unwrap();
}

fn err(dir: &Path, who: &str) -> String {
    let e = std::fs::read_to_string(dir.join(who).join("stderr")).unwrap_or_default();
    e.lines().filter(|l| ['×', '├', '╰'].iter().any(|c| l.contains(*c)) || l.contains("rror") || l.contains("panic")).collect::<Vec<_>>().join(" / ").chars().take(700).collect()
}

/// One install by itself.
fn alone(w: &World, dir: &Path, who: &str, deps: &[&str], copy: bool) -> Result<Tree, String> {
    project(dir, who, deps);
    let o = crate::cli::run(
        {
            let mut c = apply(w, dir, who, copy);
            c.stderr(std::process::Stdio::piped());
            c
        },
        LIMIT,
    );
    if o.code != Some(0) {
        return Err(format!("{:?}: {}", o.code, o.stderr));
    }
    Ok(snap(&dir.join(who).join("proj")))
}

fn wreck(cache: &Path, how: Cache) {
    for (k, n) in snap(cache) {
        let Node::File { data, .. } = n else { continue };
        let f = cache.join(&k);
        match how {
            Cache::Empty | Cache::Warm => {}
            Cache::Short | Cache::Altered | Cache::Gone => {
                if k.starts_with("content-v2") {
                    let _ = std::fs::remove_file(&f);
                    if how == Cache::Short {
                        std::fs::write(&f, &data[..data.len() / 2]).unwrap();
                    } else if how == Cache::Altered {
                        let mut d = data;
                        let i = d.len() / 2;
                        d[i] ^= 1;
                        std::fs::write(&f, d).unwrap();
                    }
                }
            }
            Cache::NoIndex => {
                if k.starts_with("index-v5") {
                    std::fs::remove_file(&f).unwrap();
                }
            }
            Cache::HalfIndex => {
                if k.starts_with("index-v5") {
                    std::fs::write(&f, &data[..data.len() * 2 / 3]).unwrap();
                }
            }
        }
    }
}

struct Base {
    s: Scenario,
    dir: PathBuf,
    want: [Tree; 2],
    ops: [usize; 2],
}

#[derive(Clone, Debug)]
struct Case {
    base: usize,
    slices: Vec<usize>,
}

struct Ran {
    codes: [Option<i32>; 2],
    timed_out: bool,
    ops: [usize; 2],
    /// The operation each switch came before.
    at: Vec<String>,
    switches: usize,
}

fn both(w: &World, s: &Scenario, d: &Path, slices: &[usize]) -> Result<Ran, String> {
    for i in 0..2 {
        project(d, ["p0", "p1"][i], s.deps[i]);
    }
    let turns = Turns::new(slices);
    let cache = d.join("cache");
    let at = Mutex::new(vec![]);
    let logs = cache.join("_logs");
    let go = |me: usize| {
        let c = apply(w, d, ["p0", "p1"][me], s.copy[me]);
        let r = trace::run_stepped(c, &cache, LIMIT, &mut |op, path| {
            // Logs have names of their own.
            if path.starts_with(&logs) {
                return;
            }
            let before = turns.state.lock().unwrap().switches;
            turns.step(me);
            let after = turns.state.lock().unwrap().switches;
            if before != after || std::env::var_os("T05_LOG").is_some() {
                at.lock().unwrap().push(format!("{me}: {op} {}", path.strip_prefix(&cache).unwrap_or(path).display()));
            }
        });
        turns.end(me);
        r.map_err(|e| format!("trace: {e}"))
    };
    let (a, b) = std::thread::scope(|t| {
        let a = t.spawn(|| go(0));
        let b = t.spawn(|| go(1));
        (a.join().unwrap(), b.join().unwrap())
    });
    let (a, b) = (a?, b?);
    let st = turns.state.lock().unwrap();
    let at = at.lock().unwrap().clone();
    Ok(Ran { codes: [a.code, b.code], timed_out: a.timed_out || b.timed_out, ops: st.ops, at, switches: st.switches })
}

fn one(ctx: &Ctx, w: &World, bases: &[Base], c: &Case, dir: &Path) -> Out {
    let b = &bases[c.base];
    let s = &b.s;
    let d = dir.join("x");
    crate::i03::restore(&b.dir, &d)?;
    let r = both(w, s, &d, &c.slices)?;
    let key = || format!("{} {:?} {:?}", s.name, s.cache, c.slices);
    let how = format!("switches before {:?}", r.at);
    ctx.transitions.fetch_add(r.ops.iter().sum::<usize>() as u64, Ordering::SeqCst);
    ctx.traces.fetch_add(1, Ordering::SeqCst);
    if r.timed_out {
        return Err(Viol::new(key(), format!("{how}: doesn't end")));
    }
    let check = |when: &str| -> Result<(), Viol> {
        for i in 0..2 {
            let df = diff(&b.want[i], &snap(&d.join(["p0", "p1"][i]).join("proj")));
            if !df.is_empty() {
                return Err(Viol::new(key(), format!("{how}: {when} the {} install's tree is different: {df:?}", ["first", "second"][i])));
            }
        }
        Ok(())
    };
    for i in 0..2 {
        if r.codes[i] != Some(0) {
            return Err(Viol::new(key(), format!("{how}: the {} install fails ({:?}): {}", ["first", "second"][i], r.codes[i], err(&d, ["p0", "p1"][i]))));
        }
    }
    check("when both are done")?;
    for i in 0..2 {
        match alone(w, &d, "p2", s.deps[i], false) {
            Err(e) => return Err(Viol::new(key(), format!("{how}: another install from that cache fails: {e}"))),
            Ok(t) => {
                let df = diff(&b.want[i], &t);
                if !df.is_empty() {
                    return Err(Viol::new(key(), format!("{how}: another install from that cache is different: {df:?}")));
                }
            }
        }
        if s.deps[0] == s.deps[1] {
            break;
        }
    }
    check("after another install")?;
    Ok(r.switches > 0)
}

pub fn run(ctx: &Ctx) {
    let server = universe().serve(true);
    let w = World { url: server.url() };
    let mut bases = vec![];
    for (i, s) in scenarios(ctx.thorough).into_iter().enumerate() {
        let dir = ctx.scratch.join(format!("base{i}"));
        let d = ctx.scratch.join("x");
        let r = (|| -> Result<Base, String> {
            crate::i03::wipe(&dir);
            let cache = dir.join("cache");
            std::fs::create_dir_all(&cache).unwrap();
            let mut want = [Tree::new(), Tree::new()];
            for i in 0..2 {
                want[i] = alone(&w, &dir, "p", s.deps[i], s.copy[i])?;
            }
            std::fs::remove_dir_all(dir.join("p")).unwrap();
            if s.cache == Cache::Empty {
                crate::i03::wipe(&cache);
            } else {
                wreck(&cache, s.cache);
            }
            crate::i03::restore(&dir, &d)?;
            // Both orders, to know how many operations there can be.
            let r = both(&w, &s, &d, &[])?;
            if r.codes != [Some(0); 2] {
                return Err(format!("one after the other fails: {:?} {} {}", r.codes, err(&d, "p0"), err(&d, "p1")));
            }
            crate::i03::restore(&dir, &d)?;
            let q = both(&w, &s, &d, &[0])?;
            if std::env::var_os("T05_LOG").is_some() {
                println!("{} {:?}: {:?} {:?}\n{:#?}", s.name, s.cache, r.ops, q.ops, r.at);
            }
            Ok(Base { dir: dir.clone(), want, ops: [r.ops[0].max(q.ops[0]), r.ops[1].max(q.ops[1])], s: s.clone() })
        })();
        match r {
            Ok(b) => {
                ctx.addcov("scenarios", 1);
                ctx.addcov("operations on the cache", b.ops.iter().sum::<usize>() as u64);
                bases.push(b);
            }
            Err(e) => return ctx.error(format!("{} {:?}: {e}", s.name, s.cache)),
        }
    }
    let mut cases = vec![];
    for (i, b) in bases.iter().enumerate() {
        for k in 0..=b.ops[0] {
            cases.push(Case { base: i, slices: vec![k] });
        }
        if ctx.thorough && b.s.name == "the same package" && [Cache::Empty, Cache::Short, Cache::NoIndex].contains(&b.s.cache) {
            for k in 0..=b.ops[0] {
                for m in 1..b.ops[1] {
                    cases.push(Case { base: i, slices: vec![k, m] });
                }
            }
        }
    }
    ctx.cov("schedules", cases.len() as u64);
    ctx.states.fetch_add(bases.iter().map(|b| b.ops.iter().sum::<usize>() as u64).sum(), Ordering::SeqCst);
    let show = |c: &Case| json!({"scenario": bases[c.base].s.name, "cache": format!("{:?}", bases[c.base].s.cache), "slices": c.slices});
    ctx.par(cores(), cases.into_iter(), show, |c, d| {
        std::fs::create_dir_all(d).unwrap();
        one(ctx, &w, &bases, c, d)
    });
}
