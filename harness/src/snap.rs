//! Snapshots of directory trees.
use std::collections::BTreeMap;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::Path;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Node {
    Dir,
    File { mode: u32, data: Vec<u8> },
    Link(String),
    Other,
}

pub type Tree = BTreeMap<String, Node>;

pub fn snap(root: &Path) -> Tree {
    let mut t = Tree::new();
    walk(root, "", &mut t);
    t
}

fn walk(p: &Path, rel: &str, t: &mut Tree) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    for e in rd.flatten() {
        let name = e.file_name().to_string_lossy().into_owned();
        let r = if rel.is_empty() { name } else { format!("{rel}/{name}") };
        let Ok(m) = std::fs::symlink_metadata(e.path()) else { continue };
        if m.file_type().is_symlink() {
            let l = std::fs::read_link(e.path()).map(|l| l.to_string_lossy().into_owned()).unwrap_or_default();
            t.insert(r, Node::Link(l));
        } else if m.is_dir() {
            t.insert(r.clone(), Node::Dir);
            walk(&e.path(), &r, t);
        } else if m.is_file() {
            let data = std::fs::read(e.path()).unwrap_or_default();
            t.insert(r, Node::File { mode: m.permissions().mode() & 0o777, data });
        } else {
            t.insert(r, Node::Other);
        }
    }
}

pub fn ino(p: &Path) -> Option<u64> {
    std::fs::symlink_metadata(p).ok().map(|m| m.ino())
}

/// The first few differences, human readable.
pub fn diff(a: &Tree, b: &Tree) -> Vec<String> {
    let mut out = Vec::new();
    for (k, v) in a {
        match b.get(k) {
            None => out.push(format!("missing: {k}")),
            Some(w) if w != v => out.push(format!("differs: {k}: {} vs {}", short(v), short(w))),
            _ => {}
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            out.push(format!("unexpected: {k}"));
        }
    }
    out.truncate(12);
    out
}

pub fn short(n: &Node) -> String {
    match n {
        Node::Dir => "dir".into(),
        Node::Link(l) => format!("-> {l}"),
        Node::File { mode, data } => {
            format!("file {:o} {} bytes {:?}", mode, data.len(), String::from_utf8_lossy(&data[..data.len().min(60)]))
        }
        Node::Other => "other".into(),
    }
}
