use crate::drive::*;
use crate::gen::*;
use crate::report::*;
use crate::tree::*;
use crate::uni::*;
use std::sync::{Arc, Mutex};

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "R01",
        thorough,
        "exploration",
        "Every assignment of at most k requests to the packages reachable from the project, for each family of packages, versions, tags and request alphabets, and for concurrency 1 and 50; each is resolved by the real resolver against a loopback registry and judged by Node's lookup rule. Non-trivial: the tree has at least two packages, or a request that cannot be met.",
    )
}

/// Registry requests after which a resolution of a tiny universe counts as one that never ends.
pub const CAP: usize = 600;

type Cell = Arc<Mutex<(Universe, usize, usize)>>;
thread_local! {
    static SERVER: (Cell, crate::http::Server) = {
        let c: Cell = Arc::new(Mutex::new((Universe::default(), 0, 0)));
        (c.clone(), crate::http::Server::start({
            let c = c.clone();
            Arc::new(move |r| {
                let base = format!("http://{}/", r.header("host").unwrap());
                let mut g = c.lock().unwrap();
                g.1 += 1;
                if g.1 > g.2 {
                    return crate::http::Resp::status(404);
                }
                let u = g.0.clone();
                drop(g);
                u.answer(r, &base, false)
            })
        }))
    };
}

/// Resolve against `u` with this thread's server. Also says whether it ran away.
pub fn with_server<R>(u: &Universe, f: impl FnOnce(&crate::http::Server) -> R) -> (R, bool) {
    with_server_cap(u, CAP, f)
}

pub fn with_server_cap<R>(u: &Universe, cap: usize, f: impl FnOnce(&crate::http::Server) -> R) -> (R, bool) {
    SERVER.with(|(c, s)| {
        *c.lock().unwrap() = (u.clone(), 0, cap);
        s.log.lock().unwrap().clear();
        let r = f(s);
        let ran = c.lock().unwrap().1 > cap;
        (r, ran)
    })
}

fn judge(u: &Universe, deps: &Deps, r: Result<node_maintainer::NodeMaintainer, node_maintainer::NodeMaintainerError>, ran: bool) -> Out {
    if ran {
        return Err("resolution does not end".into());
    }
    match r {
        Ok(nm) => {
            let t = tree_of(&nm)?;
            check_tree(u, deps, &t).map_err(|e| format!("{e} in {}", show(&t)))?;
            for (d, r) in deps {
                if !meetable(u, d, r) {
                    return Err(format!("resolved although {d}@{r} cannot be met").into());
                }
            }
            Ok(t.len() > 1)
        }
        Err(e) if all_meetable(u, deps) => Err(format!("resolution failed: {e}").into()),
        Err(_) => Ok(true),
    }
}

pub fn run(ctx: &Ctx) {
    let threads = cores();
    for fam in families(ctx.thorough) {
        let cases: Vec<Case> = fam.cases();
        ctx.cov(&format!("universes: {}", fam.name), cases.len());
        let concs: &[usize] = if fam.kinds.len() > 1 || cases.len() > 30000 && !ctx.thorough { &[50] } else { &[1, 50] };
        let it = cases.iter().flat_map(|c| concs.iter().map(move |k| (c, *k)));
        let t = std::time::Instant::now();
        ctx.par(
            threads,
            it,
            |(c, k)| {
                let mut v = fam.describe(c);
                v["concurrency"] = (*k).into();
                v
            },
            |(c, k), _| {
                let (u, m, deps) = fam.build(c);
                let excused = cyclic_conflict(&u, &deps);
                let (r, ran) = with_server_cap(&u, if excused { 120 } else { CAP }, |s| resolve(opts(s).concurrency(*k), m));
                if ran && excused {
                    ctx.addcov("no verdict: cycle in conflict with itself, which need not have a finite tree", 1);
                    return Ok(false);
                }
                judge(&u, &deps, r, ran)
            },
        );
        eprintln!("{}: {} universes, {:?}", fam.name, cases.len(), t.elapsed());
    }
    // The one input class with no finite answer by nesting: see known-findings.jsonl.
    let mut u = Universe::default();
    u.add("a", "1.0.0", Ver::deps(&[("b", "1.0.0")]));
    u.add("b", "1.0.0", Ver::deps(&[("a", "2.0.0")]));
    u.add("a", "2.0.0", Ver::deps(&[("b", "2.0.0")]));
    u.add("b", "2.0.0", Ver::deps(&[("a", "1.0.0")]));
    let deps = sm(&[("a", "1.0.0")]);
    let m = serde_json::json!({"name": "root", "version": "1.0.0", "dependencies": deps});
    let (_, ran) = with_server(&u, |s| resolve(opts(s), m));
    let out = if ran { Err(Viol::new("conflict cycle a@1 > b@1 > a@2 > b@2 > a@1", "resolution never ends")) } else { Ok(true) };
    ctx.done(&serde_json::json!("a@1 -> b@1 -> a@2 -> b@2 -> a@1"), out);
}
