use crate::uni::*;
use crate::drive::*;
use crate::gate::Gate;
use serde_json::json;
use std::time::Duration;
use std::collections::*;

fn lockrun(u: &Universe, root: &serde_json::Value, conc: usize, prefix: &[String]) -> (Vec<(Vec<String>, String)>, String) {
    let (g, s) = Gate::serve(u, false, |_| true);
    let mut trace = vec![];
    let out = std::thread::scope(|sc| {
        let g2 = g.clone(); let s = &s; 
        let h = sc.spawn(move || {
            let r = resolve(opts(s).concurrency(conc), root.clone());
            g2.finish();
            match r { Ok(n) => n.to_kdl().unwrap().to_string(), Err(e) => format!("ERR {e}") }
        });
        let mut i = 0;
        while let Some(held) = g.quiesce(&|_| true, Duration::from_millis(3), Duration::from_secs(3)) {
            let pick = if i < prefix.len() { prefix[i].clone() } else { held[0].clone() };
            if !g.release(&pick, Duration::from_secs(2)) { eprintln!("DIVERGE {prefix:?} {held:?}"); g.open(); break; }
            trace.push((held, pick)); i += 1;
        }
        g.open();
        h.join().unwrap()
    });
    (trace, out.replace(&format!(":{}", s.port), ""))
}
fn explore(u: &Universe, root: &serde_json::Value, conc: usize, prefix: Vec<String>, outs: &mut BTreeMap<String, Vec<Vec<String>>>, n: &mut usize) {
    let (tr, o) = lockrun(u, root, conc, &prefix);
    *n += 1;
    outs.entry(o).or_default().push(tr.iter().map(|t| t.1.clone()).collect());
    for i in prefix.len()..tr.len() {
        for alt in &tr[i].0 { if *alt != tr[i].1 {
            let mut p: Vec<String> = tr[..i].iter().map(|t| t.1.clone()).collect(); p.push(alt.clone());
            explore(u, root, conc, p, outs, n);
        }}
    }
}
pub fn run(_a: &[String]) {
    let mut u = Universe::default();
    u.add("a", "1.0.0", Ver::deps(&[("d", "^1.0.0"),("c","^2.0.0")]));
    u.add("b", "1.0.0", Ver::deps(&[("d", "^2.0.0"),("c","^1.0.0")]));
    for n in ["c","d"] { u.add(n, "1.0.0", Ver::default()); u.add(n, "2.0.0", Ver::default()); }
    let root = json!({"name":"root","version":"1.2.3","dependencies":{"a":"^1.0.0","b":"^1.0.0"}});
    for conc in [1,2,50] {
    let mut outs = BTreeMap::new(); let mut n = 0;
    let t = std::time::Instant::now();
    explore(&u, &root, conc, vec![], &mut outs, &mut n);
    println!("conc {conc}: {n} schedules, {} outcomes {:?}", outs.len(), t.elapsed());
    for (k, v) in outs { println!("{} schedules e.g. {:?}\n{}", v.len(), v[0], k.lines().filter(|l| l.contains("pkg")||l.contains(" version")||l.contains("ERR")).collect::<Vec<_>>().join("\n")); }
    }
}
