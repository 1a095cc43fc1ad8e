//! The harness's own semver: written from npm's documentation, independent of the code under test.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Id {
    Num(u64),
    Txt(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct V {
    pub n: [u64; 3],
    pub pre: Vec<Id>,
}

impl V {
    pub fn parse(s: &str) -> Option<V> {
        let s = s.trim().trim_start_matches('v');
        let s = s.split('+').next()?;
        let (core, pre) = match s.split_once('-') {
            Some((c, p)) => (c, Some(p)),
            None => (s, None),
        };
        let mut n = [0; 3];
        let parts: Vec<&str> = core.split('.').collect();
        if parts.len() != 3 {
            return None;
        }
        for (i, p) in parts.iter().enumerate() {
            n[i] = p.parse().ok()?;
        }
        Some(V { n, pre: ids(pre) })
    }
}

fn ids(p: Option<&str>) -> Vec<Id> {
    p.map(|p| {
        p.split('.')
            .map(|x| x.parse().map(Id::Num).unwrap_or_else(|_| Id::Txt(x.into())))
            .collect()
    })
    .unwrap_or_default()
}

impl PartialOrd for V {
    fn partial_cmp(&self, o: &V) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for V {
    fn cmp(&self, o: &V) -> Ordering {
        self.n.cmp(&o.n).then_with(|| match (self.pre.is_empty(), o.pre.is_empty()) {
            (true, true) => Ordering::Equal,
            (true, false) => Ordering::Greater,
            (false, true) => Ordering::Less,
            _ => {
                for (a, b) in self.pre.iter().zip(&o.pre) {
                    let c = match (a, b) {
                        (Id::Num(a), Id::Num(b)) => a.cmp(b),
                        (Id::Num(_), Id::Txt(_)) => Ordering::Less,
                        (Id::Txt(_), Id::Num(_)) => Ordering::Greater,
                        (Id::Txt(a), Id::Txt(b)) => a.cmp(b),
                    };
                    if c != Ordering::Equal {
                        return c;
                    }
                }
                self.pre.len().cmp(&o.pre.len())
            }
        })
    }
}

#[derive(Clone, Debug)]
struct Cmp(&'static str, V);

/// A partial version: up to three numbers, maybe a prerelease.
fn partial(s: &str) -> Option<(Vec<u64>, Vec<Id>)> {
    let s = s.trim().trim_start_matches('v').trim_start_matches('=').trim();
    let s = s.split('+').next()?;
    let (core, pre) = match s.split_once('-') {
        Some((c, p)) => (c, Some(p)),
        None => (s, None),
    };
    let mut n = vec![];
    if core.is_empty() {
        return Some((n, vec![]));
    }
    let parts: Vec<&str> = core.split('.').collect();
    if parts.len() > 3 {
        return None;
    }
    for p in parts {
        if p == "*" || p == "x" || p == "X" {
            return Some((n, vec![]));
        }
        n.push(p.parse().ok()?);
    }
    Some((n, ids(pre)))
}

fn v(a: u64, b: u64, c: u64) -> V {
    V { n: [a, b, c], pre: vec![] }
}
/// The smallest version of a release (its `-0` prerelease).
fn v0(a: u64, b: u64, c: u64) -> V {
    V { n: [a, b, c], pre: vec![Id::Num(0)] }
}

fn comparator(tok: &str) -> Option<Vec<Cmp>> {
    let (op, rest) = if let Some(r) = tok.strip_prefix(">=") {
        (">=", r)
    } else if let Some(r) = tok.strip_prefix("<=") {
        ("<=", r)
    } else if let Some(r) = tok.strip_prefix('>') {
        (">", r)
    } else if let Some(r) = tok.strip_prefix('<') {
        ("<", r)
    } else if let Some(r) = tok.strip_prefix('^') {
        ("^", r)
    } else if let Some(r) = tok.strip_prefix('~') {
        ("~", r)
    } else {
        ("=", tok)
    };
    let (n, pre) = partial(rest)?;
    let g = |i: usize| n.get(i).copied().unwrap_or(0);
    let low = V { n: [g(0), g(1), g(2)], pre: if n.len() == 3 { pre.clone() } else { vec![] } };
    Some(match (op, n.len()) {
        (">", 0) | ("<", 0) => vec![Cmp("<", v0(0, 0, 0))],
        (_, 0) => vec![Cmp(">=", v(0, 0, 0))],
        ("=", 3) => vec![Cmp("=", low)],
        ("=", 2) => vec![Cmp(">=", low), Cmp("<", v0(g(0), g(1) + 1, 0))],
        ("=", 1) => vec![Cmp(">=", low), Cmp("<", v0(g(0) + 1, 0, 0))],
        ("~", 1) => vec![Cmp(">=", low), Cmp("<", v0(g(0) + 1, 0, 0))],
        ("~", _) => vec![Cmp(">=", low), Cmp("<", v0(g(0), g(1) + 1, 0))],
        ("^", l) => {
            let hi = if g(0) > 0 || l == 1 {
                v0(g(0) + 1, 0, 0)
            } else if g(1) > 0 || l == 2 {
                v0(0, g(1) + 1, 0)
            } else {
                v0(0, 0, g(2) + 1)
            };
            vec![Cmp(">=", low), Cmp("<", hi)]
        }
        (">=", _) => vec![Cmp(">=", low)],
        ("<", 3) => vec![Cmp("<", low)],
        ("<", _) => vec![Cmp("<", v0(g(0), g(1), 0))],
        (">", 3) => vec![Cmp(">", low)],
        (">", 2) => vec![Cmp(">=", v(g(0), g(1) + 1, 0))],
        (">", _) => vec![Cmp(">=", v(g(0) + 1, 0, 0))],
        ("<=", 3) => vec![Cmp("<=", low)],
        ("<=", 2) => vec![Cmp("<", v0(g(0), g(1) + 1, 0))],
        ("<=", _) => vec![Cmp("<", v0(g(0) + 1, 0, 0))],
        _ => return None,
    })
}

fn set(s: &str) -> Option<Vec<Cmp>> {
    if let Some((a, b)) = s.split_once(" - ") {
        let mut r = comparator(&format!(">={}", a.trim()))?;
        r.extend(comparator(&format!("<={}", b.trim()))?);
        return Some(r);
    }
    // An operator may be separated from its version by spaces.
    let mut toks: Vec<String> = vec![];
    for t in s.split_whitespace() {
        match toks.last_mut() {
            Some(l) if ["<", ">", "<=", ">=", "=", "^", "~"].contains(&l.as_str()) => l.push_str(t),
            _ => toks.push(t.to_string()),
        }
    }
    if toks.is_empty() {
        return comparator("*");
    }
    let mut r = vec![];
    for t in toks {
        r.extend(comparator(&t)?);
    }
    Some(r)
}

/// None: not a range.
pub fn satisfies(version: &str, range: &str) -> Option<bool> {
    let ver = V::parse(version)?;
    let mut any = false;
    for alt in range.split("||") {
        let cs = set(alt)?;
        let ok = cs.iter().all(|Cmp(op, w)| match *op {
            "=" => ver == *w,
            "<" => ver < *w,
            "<=" => ver <= *w,
            ">" => ver > *w,
            _ => ver >= *w,
        });
        let pre_ok = ver.pre.is_empty()
            || cs.iter().any(|Cmp(_, w)| {
                !w.pre.is_empty() && w.n == ver.n && w.pre != vec![Id::Num(0)]
            });
        any |= ok && pre_ok;
    }
    Some(any)
}

pub fn is_version(s: &str) -> bool {
    V::parse(s).is_some() && s.as_bytes()[0].is_ascii_digit()
}
