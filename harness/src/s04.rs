//! S04: rewriting a JSON file keeps its formatting.
use crate::report::*;
use serde_json::{json, Map, Value};
use std::path::Path;

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "S04",
        thorough,
        "exploration",
        "Every JSON document up to a size over an alphabet of keys and values (among them texts that look like layout), laid out by the harness's own printer with every indentation (none to eight spaces, one to three tabs), every line ending and with and without a final one: read and written back it must be the same text, and with any one value replaced, any key removed or added, the text the printer gives for that document. Every document also in irregular layouts (one line, odd spacing, blank lines, mixed line endings, spaced containers): the same data, key order, line ending and final newline. Non-trivial: more than one line.",
    )
}

const SCALARS: &[&str] = &["0", "-12", "1.5", "true", "null", "\"\"", "\"x\"", "\"a\\n    b\"", "\"{\\r\\n\"", "\"\\\\\\\"\"", "\"é\u{2028} \\t\"", "123456789012"];
const KEYS: &[&str] = &["b", "a", "é\\\"", "", "  c\\n"];

/// A document: scalars by index.
#[derive(Clone, Debug)]
pub enum D {
    S(usize),
    A(Vec<D>),
    O(Vec<(usize, D)>),
}

/// All documents of exactly `n` nodes; `ks`, `vs`: how many keys and values to use.
fn docs(n: usize, ks: usize, vs: usize) -> Vec<D> {
    let mut out = vec![];
    if n == 1 {
        out.extend((0..vs).map(D::S));
        out.push(D::A(vec![]));
        out.push(D::O(vec![]));
        return out;
    }
    // Every composition of n - 1 into children.
    for parts in compositions(n - 1) {
        let mut lists: Vec<Vec<D>> = vec![vec![]];
        for p in &parts {
            let c = docs(*p, ks, vs);
            lists = lists.into_iter().flat_map(|l| c.iter().map(move |d| l.iter().cloned().chain([d.clone()]).collect::<Vec<_>>()).collect::<Vec<_>>()).collect();
        }
        for l in lists {
            out.push(D::A(l.clone()));
            if l.len() <= ks {
                // Every ordered selection of keys.
                let mut sel: Vec<Vec<usize>> = vec![vec![]];
                for _ in 0..l.len() {
                    sel = sel.into_iter().flat_map(|s| (0..ks).filter(|k| !s.contains(k)).map(|k| s.iter().copied().chain([k]).collect::<Vec<_>>()).collect::<Vec<_>>()).collect();
                }
                for s in sel {
                    out.push(D::O(s.into_iter().zip(l.iter().cloned()).collect()));
                }
            }
        }
    }
    out
}

fn compositions(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    (1..=n).flat_map(|a| compositions(n - a).into_iter().map(move |mut r| { r.insert(0, a); r })).collect()
}

#[derive(Clone, Debug)]
struct Style {
    unit: String,
    eol: &'static str,
    last: bool,
}

fn print(d: &D, st: &Style) -> String {
    fn go(d: &D, st: &Style, depth: usize, out: &mut String) {
        let line = |out: &mut String, depth: usize| {
            out.push_str(st.eol);
            out.push_str(&st.unit.repeat(depth));
        };
        match d {
            D::S(i) => out.push_str(SCALARS[*i]),
            D::A(v) if v.is_empty() => out.push_str("[]"),
            D::O(v) if v.is_empty() => out.push_str("{}"),
            D::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    line(out, depth + 1);
                    go(x, st, depth + 1, out);
                }
                line(out, depth);
                out.push(']');
            }
            D::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    line(out, depth + 1);
                    out.push_str(&format!("\"{}\": ", KEYS[*k]));
                    go(x, st, depth + 1, out);
                }
                line(out, depth);
                out.push('}');
            }
        }
    }
    let mut out = String::new();
    go(d, st, 0, &mut out);
    if st.last {
        out.push_str(st.eol);
    }
    out
}

/// Irregular layouts of the same document.
fn irregular(d: &D, how: usize) -> String {
    let st = Style { unit: "  ".into(), eol: "\n", last: how % 2 == 0 };
    let t = print(d, &st);
    match how / 2 {
        // One line.
        0 => print(d, &Style { unit: String::new(), eol: "", last: false }) + if how % 2 == 0 { "\n" } else { "" },
        // Blank lines, a blank one first.
        1 => t.replace('\n', "\n\n"),
        2 => format!("\n{t}"),
        // Mixed line endings.
        3 => {
            let mut k = 0;
            t.chars().map(|c| if c == '\n' { k += 1; if k % 2 == 1 { "\r\n".to_string() } else { "\n".into() } } else { c.to_string() }).collect()
        }
        // Irregular spaces around structure.
        4 => t.replace("{}", "{ }").replace("[]", "[\t]").replace("\": ", "\" :\t").replace(",\n", " ,\n"),
        // Each level by another character.
        5 => t.replace("\n    ", "\n\t \t "),
        // The first level not indented.
        6 => t.replace("\n  ", "\n"),
        _ => t.replace('\n', " \r"),
    }
}
const IRREGULAR: usize = 16;

/// Paths of all nodes below the root.
fn paths(v: &Value) -> Vec<Vec<usize>> {
    let kids: Vec<&Value> = match v {
        Value::Array(a) => a.iter().collect(),
        Value::Object(o) => o.values().collect(),
        _ => vec![],
    };
    let mut out = vec![];
    for (i, k) in kids.into_iter().enumerate() {
        out.push(vec![i]);
        out.extend(paths(k).into_iter().map(|p| [i].into_iter().chain(p).collect()));
    }
    out
}

fn at<'a>(v: &'a mut Value, p: &[usize]) -> &'a mut Value {
    match p.split_first() {
        None => v,
        Some((i, r)) => match v {
            Value::Array(a) => at(&mut a[*i], r),
            Value::Object(o) => at(o.values_mut().nth(*i).unwrap(), r),
            _ => unreachable!(),
        },
    }
}

fn dat<'a>(d: &'a mut D, p: &[usize]) -> &'a mut D {
    match p.split_first() {
        None => d,
        Some((i, r)) => match d {
            D::A(a) => dat(&mut a[*i], r),
            D::O(o) => dat(&mut o[*i].1, r),
            _ => unreachable!(),
        },
    }
}

fn ordered(v: &Value) -> String {
    match v {
        Value::Array(a) => format!("[{}]", a.iter().map(ordered).collect::<Vec<_>>().join(",")),
        Value::Object(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{k:?}:{}", ordered(v))).collect::<Vec<_>>().join(",")),
        x => x.to_string(),
    }
}

fn rewrite(t: &str) -> Result<(oro_pretty_json::Formatted, String), String> {
    std::panic::catch_unwind(|| {
        let f = oro_pretty_json::from_str(t).map_err(|e| format!("{t:?}: {e}"))?;
        let s = oro_pretty_json::to_string_pretty(&f).map_err(|e| format!("{t:?}: {e}"))?;
        Ok((f, s))
    })
    .map_err(|_| format!("crashes on {t:?}"))?
}

fn styles() -> Vec<Style> {
    let mut v = vec![];
    for eol in ["\n", "\r\n", "\r"] {
        for last in [false, true] {
            for unit in ["", " ", "  ", "   ", "    ", "      ", "        ", "\t", "\t\t", "\t\t\t"] {
                v.push(Style { unit: unit.into(), eol, last });
            }
        }
    }
    v
}

fn one(d: &D, ctx: &Ctx) -> Out {
    let flat = print(d, &Style { unit: String::new(), eol: "", last: false });
    let data = ordered(&serde_json::from_str::<Value>(&flat).map_err(|e| format!("harness: {flat} {e}"))?);
    let mut lines = false;
    let mut n = 0;
    for st in styles() {
        let t = print(d, &st);
        // Without a line break there is no style to keep.
        let multi = t.trim_end().contains(['\r', '\n']);
        lines |= multi;
        let (f, s) = rewrite(&t)?;
        n += 1;
        if s != t {
            return Err(format!("{t:?} is rewritten as {s:?}").into());
        }
        if !multi {
            continue;
        }
        // One change.
        for p in paths(&f.value) {
            let mut v = f.value.clone();
            let mut e = d.clone();
            let new = match dat(&mut e, &p) {
                D::S(7) => 2,
                _ => 7,
            };
            *at(&mut v, &p) = serde_json::from_str(SCALARS[new]).unwrap();
            *dat(&mut e, &p) = D::S(new);
            let g = oro_pretty_json::Formatted { value: v, character: f.character, count: f.count, line_end: f.line_end.clone(), trailing_line_end: f.trailing_line_end };
            let s = oro_pretty_json::to_string_pretty(&g).map_err(|e| e.to_string())?;
            n += 1;
            if s != print(&e, &st) {
                return Err(format!("{t:?} with another value at {p:?} is written as {s:?}").into());
            }
        }
        // One more key.
        let mut v = f.value.clone();
        let mut e = d.clone();
        if let (Value::Object(o), D::O(x)) = (&mut v, &mut e) {
            if let Some(k) = (0..KEYS.len()).find(|k| x.iter().all(|(y, _)| y != k)) {
                let key: String = serde_json::from_str(&format!("\"{}\"", KEYS[k])).unwrap();
                let mut inner = Map::new();
                inner.insert(serde_json::from_str(&format!("\"{}\"", KEYS[2])).unwrap(), json!(0));
                o.insert(key, Value::Object(inner));
                x.push((k, D::O(vec![(2, D::S(0))])));
                let g = oro_pretty_json::Formatted { value: v, character: f.character, count: f.count, line_end: f.line_end.clone(), trailing_line_end: f.trailing_line_end };
                let s = oro_pretty_json::to_string_pretty(&g).map_err(|e| e.to_string())?;
                n += 1;
                if s != print(&e, &st) {
                    return Err(format!("{t:?} with another key is written as {s:?}").into());
                }
            }
        }
    }
    for how in 0..IRREGULAR {
        let t = irregular(d, how);
        if serde_json::from_str::<Value>(&t).is_err() {
            continue;
        }
        let (_, s) = rewrite(&t)?;
        n += 1;
        let back: Value = serde_json::from_str(&s).map_err(|e| format!("{t:?} is rewritten as {s:?}: {e}"))?;
        if ordered(&back) != data {
            return Err(format!("{t:?} is rewritten as {s:?}: other data").into());
        }
        if t.ends_with(['\r', '\n']) != s.ends_with(['\r', '\n']) {
            return Err(format!("{t:?} is rewritten as {s:?}: another end").into());
        }
        let eol = |x: &str| x.find(['\r', '\n']).map(|i| if x[i..].starts_with("\r\n") { "\r\n" } else { &x[i..=i] }.to_string());
        if let (Some(e), Some(g)) = (eol(&t), eol(&s)) {
            if e != g {
                return Err(format!("{t:?} is rewritten as {s:?}: other line endings").into());
            }
        }
        // Written once, it is stable.
        let (_, again) = rewrite(&s)?;
        if again != s {
            return Err(format!("{s:?} is rewritten as {again:?}").into());
        }
    }
    ctx.addcov("rewrites", n);
    Ok(lines)
}

pub fn run(ctx: &Ctx) {
    // (nodes, keys, values)
    let sizes: &[(usize, usize, usize)] = if ctx.thorough {
        &[(1, 5, 12), (2, 5, 12), (3, 5, 12), (4, 3, 5), (5, 2, 2)]
    } else {
        &[(1, 5, 12), (2, 5, 12), (3, 3, 7), (4, 2, 2)]
    };
    let mut all = vec![];
    for (n, k, v) in sizes {
        all.extend(docs(*n, *k, *v));
    }
    ctx.cov("documents", all.len() as u64);
    ctx.cov("styles", styles().len() as u64);
    ctx.par(8, all.into_iter(), |d| json!(print(d, &Style { unit: String::new(), eol: "", last: false })), |d, _: &Path| one(d, ctx));
}
