//! Exhaustive enumeration of small dependency universes.
use crate::tree::{allows, target, Deps};
use crate::uni::{Universe, Ver};
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Prod,
    Opt,
    Dev,
}

#[derive(Clone)]
pub struct Family {
    pub name: &'static str,
    /// Published versions (package, version), in order of node ids.
    pub nodes: Vec<(&'static str, &'static str)>,
    pub tags: Vec<(&'static str, &'static str, &'static str)>,
    /// For every dependency name, the possible requests.
    pub reqs: Vec<(&'static str, Vec<&'static str>)>,
    pub kinds: Vec<Kind>,
    pub self_deps: bool,
    pub max_edges: usize,
}

/// (node: 0 = project, else 1 + index; dep index; request index; kind)
pub type Edge = (u8, u8, u8, u8);
pub type Case = Vec<Edge>;

impl Family {
    pub fn base(&self) -> Universe {
        let mut u = Universe::default();
        for (p, v) in &self.nodes {
            u.add(p, v, Ver::default());
        }
        for (p, t, v) in &self.tags {
            u.tag(p, t, v);
        }
        u
    }

    pub fn build(&self, c: &Case) -> (Universe, Value, Deps) {
        let mut u = self.base();
        let (mut d, mut o, mut dev) = (Deps::new(), Deps::new(), Deps::new());
        for &(n, di, ri, k) in c {
            let (dep, reqs) = &self.reqs[di as usize];
            let (dep, req) = (dep.to_string(), reqs[ri as usize].to_string());
            let k = self.kinds[k as usize];
            if n == 0 {
                match k {
                    Kind::Prod => &mut d,
                    Kind::Opt => &mut o,
                    Kind::Dev => &mut dev,
                }
                .insert(dep, req);
            } else {
                let (p, v) = self.nodes[n as usize - 1];
                let ver = u.pkgs.get_mut(p).unwrap().versions.get_mut(v).unwrap();
                match k {
                    Kind::Prod => &mut ver.deps,
                    Kind::Opt => &mut ver.optional,
                    Kind::Dev => &mut ver.dev,
                }
                .insert(dep, req);
            }
        }
        let m = json!({"name": "root", "version": "1.0.0", "dependencies": d, "optionalDependencies": o, "devDependencies": dev});
        let mut all = d;
        all.extend(o);
        all.extend(dev);
        (u, m, all)
    }

    /// All assignments of at most `max_edges` requests to reachable packages, without duplicates.
    pub fn cases(&self) -> Vec<Case> {
        let u = self.base();
        // which nodes each (dep, req) may lead to
        let leads: Vec<Vec<Vec<u8>>> = self
            .reqs
            .iter()
            .map(|(d, rs)| {
                rs.iter()
                    .map(|r| {
                        let (pkg, rr) = target(d, r);
                        self.nodes
                            .iter()
                            .enumerate()
                            .filter(|(_, (p, v))| *p == pkg && allows(&u, &pkg, &rr, v))
                            .map(|(i, _)| i as u8 + 1)
                            .collect()
                    })
                    .collect()
            })
            .collect();
        let mut out = vec![];
        let mut cur = vec![];
        let reach = vec![0u8];
        self.rec(&leads, &mut cur, &reach, 0, 0, &mut out);
        out
    }

    fn rec(&self, leads: &[Vec<Vec<u8>>], cur: &mut Case, reach: &[u8], qi: usize, di: usize, out: &mut Vec<Case>) {
        if qi == reach.len() {
            out.push(cur.clone());
            return;
        }
        if di == self.reqs.len() {
            return self.rec(leads, cur, reach, qi + 1, 0, out);
        }
        // no request for this dependency
        self.rec(leads, cur, reach, qi, di + 1, out);
        if cur.len() == self.max_edges {
            return;
        }
        let n = reach[qi];
        if n != 0 && !self.self_deps && self.nodes[n as usize - 1].0 == self.reqs[di].0 {
            return;
        }
        for ri in 0..self.reqs[di].1.len() {
            for k in 0..self.kinds.len() {
                let mut r2 = reach.to_vec();
                // a package's own development dependencies lead nowhere
                if !(n != 0 && self.kinds[k] == Kind::Dev) {
                    for &x in &leads[di][ri] {
                        if !r2.contains(&x) {
                            r2.push(x);
                        }
                    }
                }
                cur.push((n, di as u8, ri as u8, k as u8));
                self.rec(leads, cur, &r2, qi, di + 1, out);
                cur.pop();
            }
        }
    }

    pub fn describe(&self, c: &Case) -> Value {
        let v: Vec<String> = c
            .iter()
            .map(|&(n, di, ri, k)| {
                let who = if n == 0 {
                    "root".to_string()
                } else {
                    let (p, v) = self.nodes[n as usize - 1];
                    format!("{p}@{v}")
                };
                let (d, rs) = &self.reqs[di as usize];
                let kind = match self.kinds[k as usize] {
                    Kind::Prod => "",
                    Kind::Opt => " (optional)",
                    Kind::Dev => " (dev)",
                };
                format!("{who} -> {d}@{}{kind}", rs[ri as usize])
            })
            .collect();
        json!({"family": self.name, "requests": v})
    }
}

pub fn families(thorough: bool) -> Vec<Family> {
    use Kind::*;
    let e = |q: usize, t: usize| if thorough { t } else { q };
    vec![
        Family {
            name: "three packages, two majors",
            nodes: vec![("a", "1.0.0"), ("a", "2.0.0"), ("b", "1.0.0"), ("b", "2.0.0"), ("c", "1.0.0"), ("c", "2.0.0")],
            tags: vec![("a", "latest", "2.0.0"), ("b", "latest", "2.0.0"), ("c", "latest", "2.0.0")],
            reqs: vec![("a", vec!["^1.0.0", "^2.0.0"]), ("b", vec!["^1.0.0", "^2.0.0"]), ("c", vec!["^1.0.0", "^2.0.0"])],
            kinds: vec![Prod],
            self_deps: false,
            max_edges: e(6, 8),
        },
        Family {
            name: "hoisting conflicts",
            nodes: vec![("a", "1.0.0"), ("b", "1.0.0"), ("c", "1.0.0"), ("c", "2.0.0"), ("d", "1.0.0"), ("d", "2.0.0")],
            tags: vec![("a", "latest", "1.0.0"), ("b", "latest", "1.0.0"), ("c", "latest", "2.0.0"), ("d", "latest", "2.0.0")],
            reqs: vec![("a", vec!["^1.0.0"]), ("b", vec!["^1.0.0"]), ("c", vec!["^1.0.0", "^2.0.0"]), ("d", vec!["^1.0.0", "^2.0.0"])],
            kinds: vec![Prod],
            self_deps: false,
            max_edges: e(5, 8),
        },
        Family {
            name: "overlapping ranges, tags, self dependencies",
            nodes: vec![("a", "1.0.0"), ("a", "1.1.0"), ("a", "2.0.0"), ("b", "1.0.0"), ("b", "1.1.0")],
            tags: vec![("a", "latest", "1.1.0"), ("a", "old", "1.0.0"), ("b", "latest", "1.1.0"), ("b", "next", "1.0.0")],
            reqs: vec![
                ("a", vec!["*", "^1.0.0", "1.0.0", "~1.0.0", ">=1.1.0", "old", "latest", "1.0.0 || ^2.0.0"]),
                ("b", vec!["*", "1.0.0", "^1.1.0", "next"]),
            ],
            kinds: vec![Prod],
            self_deps: true,
            max_edges: e(3, 4),
        },
        Family {
            name: "scopes, aliases, kinds",
            nodes: vec![("@s/a", "1.0.0"), ("@s/a", "2.0.0"), ("b", "1.0.0"), ("b", "2.0.0"), ("c", "1.0.0")],
            tags: vec![("@s/a", "latest", "2.0.0"), ("b", "latest", "2.0.0"), ("c", "latest", "1.0.0")],
            reqs: vec![
                ("@s/a", vec!["^1.0.0", "^2.0.0"]),
                ("b", vec!["^1.0.0", "npm:@s/a@^1.0.0", "npm:c@^1.0.0", "npm:@s/a"]),
                ("x", vec!["npm:b@^1.0.0", "npm:b@^2.0.0", "npm:@s/a@2.0.0"]),
            ],
            kinds: vec![Prod, Opt, Dev],
            self_deps: false,
            max_edges: e(3, 4),
        },
        Family {
            name: "requests that cannot be met",
            nodes: vec![("a", "1.0.0"), ("a", "2.0.0"), ("b", "1.0.0")],
            tags: vec![("a", "latest", "2.0.0"), ("b", "latest", "1.0.0")],
            reqs: vec![
                ("a", vec!["^1.0.0", "^2.0.0", "^3.0.0", "notag"]),
                ("b", vec!["*", "2.0.0", "<1.0.0", "npm:missing@1"]),
                ("missing", vec!["*"]),
            ],
            kinds: vec![Prod],
            self_deps: false,
            max_edges: e(3, 5),
        },
    ]
}
