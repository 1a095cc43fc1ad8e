//! Package universes: what the mock registry serves.
use crate::http::{Handler, Req, Resp, Server};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Ver {
    pub deps: BTreeMap<String, String>,
    pub optional: BTreeMap<String, String>,
    pub dev: BTreeMap<String, String>,
    pub peer: BTreeMap<String, String>,
    pub scripts: BTreeMap<String, String>,
    pub bin: BTreeMap<String, String>,
    /// Extra files: path in package -> (mode, content)
    pub files: BTreeMap<String, (u32, String)>,
    pub no_integrity: bool,
    pub deprecated: bool,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Pkg {
    pub versions: BTreeMap<String, Ver>,
    pub tags: BTreeMap<String, String>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Universe {
    pub pkgs: BTreeMap<String, Pkg>,
}

pub fn sm(v: &[(&str, &str)]) -> BTreeMap<String, String> {
    v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

impl Ver {
    pub fn deps(v: &[(&str, &str)]) -> Self {
        Ver { deps: sm(v), ..Default::default() }
    }
    pub fn bin(mut self, name: &str, path: &str) -> Self {
        self.bin.insert(name.into(), path.into());
        self.files.entry(path.into()).or_insert((0o644, format!("#!/bin/sh\necho bin {name} {path}\n")));
        self
    }
    pub fn script(mut self, ev: &str, cmd: &str) -> Self {
        self.scripts.insert(ev.into(), cmd.into());
        self
    }
    pub fn opt(mut self, v: &[(&str, &str)]) -> Self {
        self.optional = sm(v);
        self
    }
    pub fn file(mut self, p: &str, c: &str) -> Self {
        self.files.insert(p.into(), (0o644, c.into()));
        self
    }
}

impl Universe {
    pub fn add(&mut self, name: &str, version: &str, v: Ver) -> &mut Self {
        self.pkgs.entry(name.into()).or_default().versions.insert(version.into(), v);
        self
    }
    pub fn tag(&mut self, name: &str, tag: &str, version: &str) -> &mut Self {
        self.pkgs.entry(name.into()).or_default().tags.insert(tag.into(), version.into());
        self
    }

    pub fn package_json(name: &str, version: &str, v: &Ver) -> Value {
        let mut o = Map::new();
        o.insert("name".into(), json!(name));
        o.insert("version".into(), json!(version));
        for (k, m) in [
            ("dependencies", &v.deps),
            ("optionalDependencies", &v.optional),
            ("devDependencies", &v.dev),
            ("peerDependencies", &v.peer),
            ("scripts", &v.scripts),
            ("bin", &v.bin),
        ] {
            if !m.is_empty() {
                o.insert(k.into(), json!(m));
            }
        }
        Value::Object(o)
    }

    pub fn tgz(name: &str, version: &str, v: &Ver) -> Arc<Vec<u8>> {
        static CACHE: OnceLock<Mutex<BTreeMap<(String, String, Ver), Arc<Vec<u8>>>>> = OnceLock::new();
        let key = (name.to_string(), version.to_string(), v.clone());
        let c = CACHE.get_or_init(Default::default);
        if let Some(x) = c.lock().unwrap().get(&key) {
            return x.clone();
        }
        let mut ents = vec![crate::tarb::Ent::file(
            "package/package.json",
            0o644,
            serde_json::to_vec(&Self::package_json(name, version, v)).unwrap(),
        )];
        ents.push(crate::tarb::Ent::file("package/index.js", 0o644, format!("// {name}@{version}\n").into_bytes()));
        for (p, (mode, c)) in &v.files {
            ents.push(crate::tarb::Ent::file(&format!("package/{p}"), *mode, c.clone().into_bytes()));
        }
        let t = Arc::new(crate::tarb::tgz(&ents));
        let mut c = c.lock().unwrap();
        if c.len() > 20000 {
            c.clear();
        }
        c.insert(key, t.clone());
        t
    }

    pub fn integrity(data: &[u8]) -> String {
        ssri::IntegrityOpts::new().algorithm(ssri::Algorithm::Sha512).chain(data).result().to_string()
    }

    pub fn tarball_path(name: &str, version: &str) -> String {
        format!("{name}/-/{}-{version}.tgz", name.rsplit('/').next().unwrap())
    }

    /// `tarballs`: whether the integrity fields describe real tarballs, or fixed placeholders (resolution only).
    pub fn packument(&self, name: &str, base: &str, tarballs: bool) -> Option<Value> {
        let p = self.pkgs.get(name)?;
        let mut versions = Map::new();
        for (v, ver) in &p.versions {
            let mut o = Self::package_json(name, v, ver);
            let mut dist = Map::new();
            dist.insert("tarball".into(), json!(format!("{base}{}", Self::tarball_path(name, v))));
            if !ver.no_integrity {
                let i = if tarballs {
                    Self::integrity(&Self::tgz(name, v, ver))
                } else {
                    "sha512-deadbeef".into()
                };
                dist.insert("integrity".into(), json!(i));
            }
            o["dist"] = Value::Object(dist);
            if ver.deprecated {
                o["deprecated"] = json!("this version is deprecated");
            }
            versions.insert(v.clone(), o);
        }
        Some(json!({"name": name, "versions": versions, "dist-tags": p.tags}))
    }

    /// Answer one registry request, relative to the registry root path `prefix`.
    pub fn answer(&self, req: &Req, base: &str, tarballs: bool) -> Resp {
        let path = req.path.trim_start_matches('/');
        let path = path.split('?').next().unwrap();
        let path = path.replace("%2f", "/").replace("%2F", "/").replace("%40", "@");
        if let Some((name, _)) = path.split_once("/-/") {
            if let Some(p) = self.pkgs.get(name) {
                for (v, ver) in &p.versions {
                    if Self::tarball_path(name, v) == path {
                        return Resp::ok(Self::tgz(name, v, ver).to_vec());
                    }
                }
            }
            return Resp::status(404);
        }
        match self.packument(&path, base, tarballs) {
            Some(p) => Resp::json(&p),
            None => Resp::status(404),
        }
    }

    pub fn serve(&self, tarballs: bool) -> Server {
        serve_cell(Arc::new(Mutex::new(self.clone())), tarballs)
    }
}

/// Serve a universe that the caller may swap while the server runs.
pub fn serve_cell(cell: Arc<Mutex<Universe>>, tarballs: bool) -> Server {
    let h: Handler = Arc::new(move |req: &Req| {
        let base = format!("http://{}/", req.header("host").unwrap_or("localhost"));
        let u = cell.lock().unwrap().clone();
        u.answer(req, &base, tarballs)
    });
    Server::start(h)
}
