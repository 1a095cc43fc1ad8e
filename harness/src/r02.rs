use crate::drive::*;
use crate::gate::Gate;
use crate::report::*;
use crate::tree::*;
use crate::uni::*;
use serde_json::{json, Value};
use std::sync::atomic::Ordering;
use std::sync::Mutex;
use std::time::Duration;

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "R02",
        thorough,
        "model_checking",
        "For each universe and concurrency: stateless depth-first exploration of the orders in which the registry's answers reach the real resolver, up to a bound on deviations from the canonical order (every held answer is a choice point). All runs of one universe and concurrency must end with one and the same tree, which must be right by Node's lookup rule. Non-trivial: a run in which at least two answers were outstanding at once. states = choice points, transitions = answers released.",
    )
}

pub struct Run {
    /// (held answers, the one released)
    pub trace: Vec<(Vec<String>, String)>,
    pub out: Result<(Tree, String), String>,
    pub diverged: bool,
}

pub fn scheduled(u: &Universe, root: &Value, conc: usize, prefix: &[String], settle: Duration) -> Run {
    let (g, s) = Gate::serve(u, false, |_| true);
    let mut trace = vec![];
    let mut diverged = false;
    let out = std::thread::scope(|sc| {
        let g2 = g.clone();
        let s = &s;
        let h = sc.spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let nm = resolve(opts(s).concurrency(conc), root.clone()).map_err(|e| format!("failed: {e}"))?;
                let t = tree_of(&nm)?;
                let k = nm.to_kdl().map_err(|e| e.to_string())?.to_string().replace(&format!(":{}/", s.port), "/");
                Ok((t, k))
            }));
            g2.finish();
            r.unwrap_or_else(|_| Err("panic".into()))
        });
        let mut n = 0;
        while let Some(held) = g.quiesce(&|_| true, settle, Duration::from_secs(30)) {
            let i = trace.len();
            let pick = if i < prefix.len() { prefix[i].clone() } else { held[0].clone() };
            if !g.release(&pick, Duration::from_secs(2)) {
                diverged = true;
                break;
            }
            let mut held = held;
            if !held.contains(&pick) {
                held.push(pick.clone());
            }
            trace.push((held, pick));
            n += 1;
            if n > 500 {
                break;
            }
        }
        g.open();
        let t = std::time::Instant::now();
        while !h.is_finished() {
            if t.elapsed() > Duration::from_secs(90) {
                // The run does not end although every answer was given.
                println!("VIOLATION property=R02 replay={}", write_hang(u, root, conc, prefix));
                std::process::exit(1);
            }
            std::thread::sleep(Duration::from_micros(300));
        }
        h.join().unwrap()
    });
    Run { trace, out, diverged }
}

fn write_hang(u: &Universe, root: &Value, conc: usize, prefix: &[String]) -> String {
    let p = verif().join("work/R02-hang.json");
    let _ = std::fs::create_dir_all(p.parent().unwrap());
    let _ = std::fs::write(&p, json!({"universe": format!("{u:?}"), "root": root, "concurrency": conc, "order": prefix, "what": "resolution does not end"}).to_string());
    p.display().to_string()
}

struct Uni {
    u: Universe,
    deps: Deps,
    what: String,
}

fn universes(thorough: bool) -> Vec<Uni> {
    let opt = [None, Some("^1.0.0"), Some("^2.0.0")];
    let mut v = vec![];
    for ac in 0..3 {
        for ad in 0..3 {
            for bc in 0..3 {
                for bd in 0..3 {
                    for rc in 0..3 {
                        for cd in 0..3 {
                            for dc in 0..if thorough { 3 } else { 1 } {
                                // a conflict must be possible, else the order cannot matter
                                let mut cs: Vec<usize> = [ac, bc, rc, dc].into_iter().filter(|x| *x > 0).collect();
                                let mut ds: Vec<usize> = [ad, bd, cd].into_iter().filter(|x| *x > 0).collect();
                                cs.sort();
                                cs.dedup();
                                ds.sort();
                                ds.dedup();
                                if cs.len() < 2 && ds.len() < 2 {
                                    continue;
                                }
                                if !thorough && rc > 0 && cd > 0 && (ac + ad + bc + bd) % 2 == 1 {
                                    continue;
                                }
                                let mk = |l: &[(&str, usize)]| -> Vec<(String, String)> {
                                    l.iter().filter_map(|(n, i)| opt[*i].map(|r| (n.to_string(), r.to_string()))).collect()
                                };
                                let ver = |l: Vec<(String, String)>| Ver { deps: l.into_iter().collect(), ..Default::default() };
                                let mut u = Universe::default();
                                u.add("a", "1.0.0", ver(mk(&[("c", ac), ("d", ad)])));
                                u.add("b", "1.0.0", ver(mk(&[("c", bc), ("d", bd)])));
                                u.add("c", "1.0.0", ver(mk(&[("d", dc)])));
                                u.add("c", "2.0.0", ver(mk(&[("d", cd)])));
                                u.add("d", "1.0.0", Ver::default());
                                u.add("d", "2.0.0", Ver::default());
                                for (n, t) in [("a", "1.0.0"), ("b", "1.0.0"), ("c", "2.0.0"), ("d", "2.0.0")] {
                                    u.tag(n, "latest", t);
                                }
                                let mut deps = sm(&[("a", "^1.0.0"), ("b", "^1.0.0")]);
                                deps.extend(mk(&[("c", rc)]));
                                let what = format!(
                                    "project > a, b{}; a > {:?}; b > {:?}; c@1 > {:?}; c@2 > {:?}",
                                    opt[rc].map(|r| format!(", c@{r}")).unwrap_or_default(),
                                    mk(&[("c", ac), ("d", ad)]),
                                    mk(&[("c", bc), ("d", bd)]),
                                    mk(&[("d", dc)]),
                                    mk(&[("d", cd)])
                                );
                                v.push(Uni { u, deps, what });
                            }
                        }
                    }
                }
            }
        }
    }
    v
}

pub fn run(ctx: &Ctx) {
    let us = universes(ctx.thorough);
    let concs: &[usize] = if ctx.thorough { &[2, 3, 50] } else { &[2, 50] };
    let bound = if ctx.thorough { 3 } else { 1 };
    ctx.cov("universes", us.len());
    ctx.cov("concurrency values", json!(concs));
    ctx.cov("deviation bound", bound);
    let jobs: Vec<(usize, usize)> = (0..us.len()).flat_map(|i| concs.iter().map(move |c| (i, *c))).collect();
    let diverged = Mutex::new(0u64);
    ctx.par(
        48,
        jobs.into_iter(),
        |(i, c)| json!({"universe": us[*i].what, "concurrency": c}),
        |(i, c), _| {
            let x = &us[*i];
            let root = json!({"name": "root", "version": "1.0.0", "dependencies": x.deps});
            let mut base: Option<(Tree, String, Vec<String>)> = None;
            let mut stack: Vec<(Vec<String>, usize)> = vec![(vec![], 0)];
            let mut wide = false;
            while let Some((prefix, dev)) = stack.pop() {
                if ctx.out_of_time() {
                    break;
                }
                let r = scheduled(&x.u, &root, *c, &prefix, Duration::from_micros(2500));
                ctx.states.fetch_add(r.trace.len() as u64, Ordering::SeqCst);
                ctx.transitions.fetch_add(r.trace.len() as u64, Ordering::SeqCst);
                ctx.traces.fetch_add(1, Ordering::SeqCst);
                let order: Vec<String> = r.trace.iter().map(|t| t.1.clone()).collect();
                if r.diverged {
                    *diverged.lock().unwrap() += 1;
                }
                let (t, k) = r.out.map_err(|e| format!("order {order:?}: {e}"))?;
                check_tree(&x.u, &x.deps, &t).map_err(|e| format!("order {order:?}: {e} in {}", show(&t)))?;
                match &base {
                    None => base = Some((t, k, order)),
                    Some((t0, k0, o0)) => {
                        if *k0 != k {
                            return Err(format!(
                                "the tree depends on the order of answers:\n order {o0:?}: {}\n order {order:?}: {}",
                                show(t0),
                                show(&t)
                            )
                            .into());
                        }
                    }
                }
                for i in prefix.len()..r.trace.len() {
                    let (held, pick) = &r.trace[i];
                    wide |= held.len() > 1;
                    if dev == bound {
                        continue;
                    }
                    // Answers for one package are the same bytes: only the oldest of each name is a choice.
                    let mut names: Vec<&str> = vec![pick.split('#').next().unwrap()];
                    for alt in held {
                        let n = alt.split('#').next().unwrap();
                        if names.contains(&n) {
                            continue;
                        }
                        names.push(n);
                        let mut p: Vec<String> = r.trace[..i].iter().map(|t| t.1.clone()).collect();
                        p.push(alt.clone());
                        stack.push((p, dev + 1));
                    }
                }
            }
            Ok(wide)
        },
    );
    ctx.cov("schedules", ctx.traces.load(Ordering::SeqCst));
    ctx.cov("diverged replays", *diverged.lock().unwrap());
}
