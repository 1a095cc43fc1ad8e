//! S01: package specifiers.
use crate::report::*;
use node_semver::{Range, Version};
use oro_package_spec::{GitHost, GitInfo, PackageSpec, VersionSpec};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

pub fn ctx(thorough: bool) -> Ctx {
    Ctx::new(
        "S01",
        thorough,
        "exploration",
        "Every text of up to the stated number of tokens over an alphabet of everything that means something in a specifier; every combination of names and requests of each kind; and everything within one or two single-character edits of these. Each is classified by the harness's own version of npm's rules (which kind, which name, owner, commit, path); printed and parsed again it must be the same; its parts must be usable (addresses of hosted repositories, safe names). Non-trivial: accepted, and not just a name.",
    )
}

#[derive(Clone, Debug, PartialEq)]
enum K {
    Npm { name: String, tag: Option<String>, plain: bool },
    Alias(String, Box<K>),
    Dir(String),
    Hosted { host: &'static str, owner: String, repo: String, frag: String },
    Git { frag: String },
    /// Some git repository or other.
    AnyGit,
    /// A range, if read generously.
    Loose { name: String, or: Option<Box<K>> },
}

/// What a text may be taken for; `must`: it has to be accepted.
#[derive(Debug)]
enum E {
    Reject,
    Is { k: K, must: bool },
}
use E::*;

fn may(k: K) -> E {
    Is { k, must: false }
}
fn must(k: K) -> E {
    Is { k, must: true }
}

/// A range. node-semver (the crate) crashes on some with an operator in front of a wildcard, or drops them.
fn range(s: &str) -> Option<Range> {
    let mut t = String::new();
    let (mut start, mut i) = (true, 0);
    let cs: Vec<char> = s.chars().collect();
    while i < cs.len() {
        if start && "~^=".contains(cs[i]) {
            let space = |mut j: usize| {
                while j < cs.len() && " \t".contains(cs[j]) {
                    j += 1;
                }
                j
            };
            let mut j = space(i + 1);
            if cs[i] == '~' && cs.get(j) == Some(&'>') {
                j = space(j + 1);
            }
            let wild = |j: usize| matches!(cs.get(j), Some('x' | 'X' | '*'));
            let v = space(if cs.get(j) == Some(&'v') { j + 1 } else { j });
            let n = cs[v.min(cs.len())..].iter().take_while(|c| c.is_ascii_digit()).count();
            if wild(v) || n > 0 && cs.get(v + n) == Some(&'.') && wild(v + n + 1) {
                i = j;
                start = false;
                continue;
            }
        }
        t.push(cs[i]);
        start = " \t".contains(cs[i]) || t.ends_with("||");
        i += 1;
    }
    Range::parse(&t).ok()
}

fn enc(c: char) -> bool {
    c.is_ascii_alphanumeric() || "-_.!~*'()".contains(c)
}
fn word(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || "-_.".contains(c)) && !s.starts_with(['.', '-', '_'])
}
fn part(s: &str) -> bool {
    !s.is_empty() && s.chars().all(enc) && !s.starts_with('.')
}
fn name_ok(n: &str) -> bool {
    match n.strip_prefix('@') {
        Some(r) => r.split_once('/').map(|(s, p)| part(s) && part(p)).unwrap_or(false),
        None => part(n),
    }
}
fn name_plain(n: &str) -> bool {
    match n.strip_prefix('@') {
        Some(r) => r.split_once('/').map(|(s, p)| word(s) && word(p)).unwrap_or(false),
        None => word(n),
    }
}
fn ci<'a>(s: &'a str, prefix: &str) -> Option<&'a str> {
    (s.len() >= prefix.len() && s.is_char_boundary(prefix.len()) && s[..prefix.len()].eq_ignore_ascii_case(prefix)).then(|| &s[prefix.len()..])
}
fn is_url(s: &str) -> bool {
    let s = ci(s, "git+").unwrap_or(s);
    let n = s.chars().take_while(|c| c.is_ascii_alphabetic()).count();
    n > 0 && s[n..].starts_with(':')
}
fn drive(s: &str) -> bool {
    let mut c = s.chars();
    c.next().map(|c| c.is_alphabetic()).unwrap_or(false) && c.next() == Some(':')
}

fn npa(s: &str) -> E {
    let at = match s.strip_prefix('@') {
        Some(r) => r.find('@').map(|i| i + 1),
        None => s.find('@'),
    };
    let name_part = at.filter(|a| *a > 0).map(|a| &s[..a]).unwrap_or(s);
    // Windows paths are paths everywhere.
    if is_url(s) || drive(s) || s.starts_with(['\\', '/', '.']) && !s.contains('@') {
        return resolve(None, s);
    }
    if !s.starts_with('@') && name_part.contains(['/', '\\']) {
        return resolve(None, s);
    }
    if let Some(a) = at.filter(|a| *a > 0) {
        if !name_ok(&s[..a]) {
            // A path with an @ in it, or nothing.
            return if s.starts_with('.') {
                may(K::Dir(s.into()))
            } else if ci(s, "git+").is_some() {
                may(K::AnyGit)
            } else {
                Reject
            };
        }
        return resolve(Some(&s[..a]), &s[a + 1..]);
    }
    if name_ok(s) {
        return Is { k: K::Npm { name: s.into(), tag: None, plain: true }, must: name_plain(s) };
    }
    resolve(None, s)
}

fn named(name: Option<&str>, k: K) -> K {
    match name {
        Some(n) => K::Alias(n.into(), Box::new(k)),
        None => k,
    }
}

fn resolve(name: Option<&str>, spec: &str) -> E {
    match (name, strictly(name, spec)) {
        (_, e @ Is { must: true, .. }) => e,
        // What's no range in a list of them is left out: much can be taken for ranges.
        (Some(n), e) if range(spec).is_some() => may(K::Loose {
            name: n.into(),
            or: match e {
                Is { k, .. } => Some(Box::new(k)),
                Reject => None,
            },
        }),
        (_, e) => e,
    }
}

fn strictly(name: Option<&str>, spec: &str) -> E {
    let plain = name.map(name_plain).unwrap_or(true);
    let e = |k: K, m: bool| Is { k: named(name, k), must: m && plain };
    if let Some(r) = ci(spec, "file:") {
        let m = r == "." || r == ".." || r.starts_with("./") || r.starts_with("../") || r.starts_with('/') && !r.starts_with("//");
        return e(K::Dir(r.into()), m && r.is_ascii());
    }
    if spec.starts_with(['.', '/', '\\']) || spec.starts_with("~/") || drive(spec) {
        let m = spec == "." || spec == ".." || spec.starts_with("./") || spec.starts_with("../") || spec.starts_with('/');
        return e(K::Dir(spec.into()), m);
    }
    if let Some(r) = ci(spec, "npm:") {
        if let Is { k: k @ K::Npm { .. }, must } = npa(r) {
            return e(k, must && ci(r, "npm:").is_none());
        }
        // Only packages of a registry can be named this way: what's no path here may still be a tag.
        let Some(a) = r.char_indices().find(|(i, c)| *i > 0 && *c == '@').map(|(i, _)| i) else { return Reject };
        return match (r.get(..a), r.get(a + 1..)) {
            (Some(n), Some(t)) if name_ok(n) && range(t).is_some() => may(named(name, K::Npm { name: n.into(), tag: None, plain: false })),
            (Some(n), Some(t)) if name_ok(n) && !t.is_empty() && t.chars().all(enc) && !t.starts_with('.') => may(named(name, K::Npm { name: n.into(), tag: Some(t.into()), plain: false })),
            _ => Reject,
        };
    }
    let (base, frag) = spec.split_once('#').map(|(b, f)| (b, format!("#{f}"))).unwrap_or((spec, String::new()));
    let frag_plain = frag.is_empty() || frag.strip_prefix("#semver:").map(|f| range(f).is_some()).unwrap_or_else(|| frag[1..].split('/').all(word));
    for host in ["github", "gitlab", "bitbucket", "gist"] {
        if let Some(r) = ci(base, &format!("{host}:")) {
            return hosted(host, r, &frag).map(|(k, m)| e(k, m && frag_plain)).unwrap_or(Reject);
        }
    }
    if ci(spec, "git+").is_some() || ci(spec, "git://").is_some() || ci(spec, "ssh://").is_some() {
        let url = ci(base, "git+").unwrap_or(base);
        let Some((scheme, rest)) = url.split_once("://") else { return may(named(name, K::AnyGit)) };
        let (auth, path) = rest.split_once('/').unwrap_or((rest, ""));
        let (user, host) = auth.split_once('@').map(|(u, h)| (Some(u), h)).unwrap_or((None, auth));
        // Numbers at the end make it an IP address.
        let host_ok = |h: &str| word(h) && !h.rsplit('.').next().unwrap().starts_with(|c: char| c.is_ascii_digit());
        let port_ok = |h: &str| h.split_once(':').map(|(h, p)| host_ok(h) && (!p.is_empty() && p.bytes().all(|b| b.is_ascii_digit()) && p.parse::<u16>().is_ok())).unwrap_or(host_ok(h));
        let url_ok = port_ok(host) && user.map(word).unwrap_or(true) && !path.is_empty() && path.split('/').all(word);
        if url_ok && ["https", "http", "git", "ssh", "file"].contains(&scheme) {
            let known = [("github.com", "github"), ("gitlab.com", "gitlab"), ("bitbucket.org", "bitbucket"), ("gist.github.com", "gist")].into_iter().find(|(h, _)| *h == host.split(':').next().unwrap().to_lowercase());
            let host_plain = host == host.to_lowercase() && scheme == scheme.to_lowercase();
            if let (Some((_, n)), [owner, repo]) = (known, &path.split('/').collect::<Vec<_>>()[..]) {
                if word(repo.strip_suffix(".git").unwrap_or(repo)) && host_plain {
                    return e(K::Hosted { host: n, owner: owner.to_string(), repo: repo.strip_suffix(".git").unwrap_or(repo).into(), frag }, frag_plain);
                }
            }
            if !host_plain {
                return may(named(name, K::AnyGit));
            }
            return e(K::Git { frag }, frag_plain && (spec.starts_with("git") || spec.starts_with("ssh")));
        }
        // scp-like: [user@]host:owner/repo
        if scheme.eq_ignore_ascii_case("ssh") {
            if let Some((auth, path)) = rest.split_once(':') {
                if let Some((user, host)) = auth.split_once('@') {
                    if word(user) && word(host) && host == host.to_lowercase() && path.split('/').all(word) && path.parse::<u64>().is_err() {
                        let known = [("github.com", "github"), ("gitlab.com", "gitlab"), ("bitbucket.org", "bitbucket"), ("gist.github.com", "gist")].into_iter().find(|(h, _)| *h == host);
                        if let (Some((_, n)), [owner, repo]) = (known, &path.split('/').collect::<Vec<_>>()[..]) {
                            return e(K::Hosted { host: n, owner: owner.to_string(), repo: repo.strip_suffix(".git").unwrap_or(repo).into(), frag }, frag_plain);
                        }
                        return e(K::Git { frag }, frag_plain);
                    }
                }
            }
        }
        return may(named(name, K::AnyGit));
    }
    if is_url(spec) {
        return Reject;
    }
    // GitHub's shorthand: one slash, and neither @, : nor white space before the #.
    if base.matches('/').count() == 1 && !base.contains(['@', ':', '\\']) && !base.contains(char::is_whitespace) && !base.starts_with('/') && !base.starts_with("~/") && !base.ends_with('/') {
        if let Some((k, m)) = hosted("github", base, &frag) {
            return e(k, m && frag_plain);
        }
        return Reject;
    }
    if base.contains('/') || base.contains('\\') {
        // A directory; those have to start with ./ here.
        return may(named(name, K::Dir(spec.into())));
    }
    let Some(name) = name else {
        return Reject;
    };
    if spec.is_empty() {
        return may(K::Npm { name: name.into(), tag: None, plain: true });
    }
    if Version::parse(spec).is_ok() || range(spec).is_some() {
        return Is { k: K::Npm { name: name.into(), tag: None, plain: false }, must: plain };
    }
    if spec.chars().all(enc) {
        return Is { k: K::Npm { name: name.into(), tag: Some(spec.into()), plain: false }, must: plain && word(spec) };
    }
    Reject
}

/// The repository of a shorthand, and whether it has to be accepted.
fn hosted(host: &'static str, s: &str, frag: &str) -> Option<(K, bool)> {
    let (owner, repo) = s.split_once('/')?;
    let stripped = repo.strip_suffix(".git").unwrap_or(repo);
    if owner.is_empty() || repo.is_empty() || repo.ends_with('/') || repo.contains('/') && host != "gitlab" {
        return None;
    }
    if repo.contains('/') || stripped.is_empty() {
        return Some((K::AnyGit, false));
    }
    Some((K::Hosted { host, owner: owner.into(), repo: stripped.into(), frag: frag.into() }, word(owner) && word(stripped)))
}

fn frag_of(i: &GitInfo) -> (Option<String>, Option<Range>) {
    (i.committish().map(|s| s.to_string()), i.semver().cloned())
}

fn same_frag(frag: &str, i: &GitInfo) -> Result<(), String> {
    let want = if frag.is_empty() {
        (None, None)
    } else if let Some(r) = ci(&frag[1..], "semver:") {
        (None, range(r))
    } else {
        (Some(frag[1..].to_string()), None)
    };
    if frag_of(i) != want {
        return Err(format!("{:?} instead of {want:?}", frag_of(i)));
    }
    Ok(())
}

fn same(k: &K, p: &PackageSpec) -> Result<(), String> {
    match (k, p) {
        (K::Npm { name, tag, plain }, PackageSpec::Npm { name: n, scope, requested }) => {
            let sc = name.strip_prefix('@').and_then(|n| n.split('/').next()).map(|s| s.to_string());
            if n != name || *scope != sc {
                return Err(format!("name {n:?}, scope {scope:?}"));
            }
            match (tag, requested) {
                (Some(t), Some(VersionSpec::Tag(u))) if t == u => Ok(()),
                (None, None) if *plain => Ok(()),
                (None, Some(VersionSpec::Version(_) | VersionSpec::Range(_))) => Ok(()),
                _ => Err(format!("requested {requested:?}")),
            }
        }
        (K::Alias(n, k), PackageSpec::Alias { name, spec }) => {
            if n != name {
                return Err(format!("name {name:?}"));
            }
            same(k, spec)
        }
        (K::Dir(d), PackageSpec::Dir { path }) if path.as_os_str() == d.as_str() => Ok(()),
        (K::Hosted { host, owner, repo, frag }, PackageSpec::Git(i @ GitInfo::Hosted { owner: o, repo: r, host: h, .. })) => {
            let hn = match h {
                GitHost::GitHub => "github",
                GitHost::GitLab => "gitlab",
                GitHost::Bitbucket => "bitbucket",
                GitHost::Gist => "gist",
            };
            if (hn, o, r) != (*host, owner, repo) {
                return Err(format!("{hn} {o} {r} instead of {host} {owner} {repo}"));
            }
            same_frag(frag, i)?;
            let (https, ssh, tar) = (i.https().map(|u| u.to_string()), i.ssh(), i.tarball().map(|u| u.to_string()));
            let https = https.unwrap_or_default().replace("bitbucket.com", "bitbucket.org");
            let ssh = ssh.unwrap_or_default().replace("bitbucket.com", "bitbucket.org");
            let ssh = ssh.strip_suffix(".git").unwrap_or(&ssh).to_string();
            if word(o) && word(r) {
                let dom = match *host {
                    "github" => "github.com",
                    "gitlab" => "gitlab.com",
                    "bitbucket" => "bitbucket.org",
                    _ => "gist.github.com",
                };
                let path = if *host == "gist" { r.clone() } else { format!("{o}/{r}") };
                let want_ssh = if *host == "gist" { format!("git@{dom}:/{path}") } else { format!("git@{dom}:{path}") };
                if https != format!("https://{dom}/{path}.git") || ssh != want_ssh {
                    return Err(format!("addresses {https} {ssh}"));
                }
                let c = i.committish();
                let want_tar = c.map(|c| match *host {
                    "github" => format!("https://codeload.github.com/{o}/{r}/tar.gz/{c}"),
                    "gitlab" => format!("https://gitlab.com/{o}/{r}/repository/archive.tar.gz?ref={c}"),
                    "bitbucket" => format!("https://bitbucket.org/{o}/{r}/get/{c}.tar.gz"),
                    _ => format!("https://codeload.github.com/gist/{r}/tar.gz/{c}"),
                });
                if tar != want_tar && c.map(word).unwrap_or(true) {
                    return Err(format!("archive {tar:?} instead of {want_tar:?}"));
                }
            }
            Ok(())
        }
        (K::Git { frag }, PackageSpec::Git(i @ (GitInfo::Url { .. } | GitInfo::Ssh { .. }))) => same_frag(frag, i),
        (K::AnyGit, PackageSpec::Git(_)) => Ok(()),
        (K::Loose { name, .. }, PackageSpec::Npm { name: n, requested: Some(VersionSpec::Range(_)), .. }) if n == name => Ok(()),
        (K::Loose { or: Some(k), .. }, _) => same(k, p),
        _ => Err("another kind".into()),
    }
}

fn judge(s: &str) -> Out {
    let run = |f: &dyn Fn() -> Out| catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| Err("crashes".to_string().into()));
    let e = npa(s);
    run(&|| {
        match (s.parse::<PackageSpec>(), &e) {
            (Err(e), exp) => {
                // Reported to the user with its location.
                let _ = (e.to_string(), format!("{e:?}"), e.location());
                match exp {
                    Is { k, must: true } => Err(format!("rejected ({e}), but is {k:?}").into()),
                    _ => Ok(false),
                }
            }
            (Ok(p), Reject) => Err(format!("taken for {p:?}, but should be rejected").into()),
            (Ok(p), Is { k, .. }) => {
                same(k, &p).map_err(|e| format!("taken for {p:?} ({e}), but is {k:?}"))?;
                names(&p)?;
                if let PackageSpec::Git(i) = p.target() {
                    let _ = (i.https(), i.ssh(), i.tarball());
                }
                let t = p.to_string();
                match t.parse::<PackageSpec>() {
                    Ok(q) if eq(&p, &q) => {}
                    Ok(q) => return Err(format!("prints as {t:?}, which is {q:?} instead of {p:?}").into()),
                    Err(e) => return Err(format!("prints as {t:?}, which is rejected ({e})").into()),
                }
                // As it is written to manifests and lockfiles.
                let name = match &p {
                    PackageSpec::Npm { name, .. } | PackageSpec::Alias { name, .. } => name.clone(),
                    _ => "n".into(),
                };
                let t = format!("{name}@{}", p.requested());
                let q = t.parse::<PackageSpec>().map_err(|e| format!("is requested as {t:?}, which is rejected ({e})"))?;
                let same = match (&p, &q) {
                    (PackageSpec::Npm { name, requested: None, .. }, PackageSpec::Npm { name: n, requested: Some(VersionSpec::Range(r)), .. }) => name == n && *r == range("*").unwrap(),
                    (PackageSpec::Npm { .. } | PackageSpec::Alias { .. }, _) => eq(&p, &q),
                    (_, PackageSpec::Alias { spec, .. }) => eq(&p, spec),
                    _ => false,
                };
                if !same {
                    return Err(format!("is requested as {t:?}, which is {q:?} instead of {p:?}").into());
                }
                Ok(!matches!(&p, PackageSpec::Npm { requested: None, .. }))
            }
        }
    })
}

/// The same specifier (how a repository was spelled aside).
fn eq(a: &PackageSpec, b: &PackageSpec) -> bool {
    match (a, b) {
        (PackageSpec::Alias { name: n, spec: s }, PackageSpec::Alias { name: m, spec: t }) => n == m && eq(s, t),
        (PackageSpec::Npm { name: n, scope: s, requested: r }, PackageSpec::Npm { name: m, scope: t, requested: q }) => {
            n == m && s == t && match (r, q) {
                // A range of just one version is that version.
                (Some(VersionSpec::Range(_) | VersionSpec::Version(_)), Some(VersionSpec::Range(_) | VersionSpec::Version(_))) => r.as_ref().map(|r| r.to_string()) == q.as_ref().map(|q| q.to_string()),
                _ => r == q,
            }
        }
        (PackageSpec::Git(i), PackageSpec::Git(j)) => match (i, j) {
            (GitInfo::Hosted { owner: o, repo: r, host: h, .. }, GitInfo::Hosted { owner: p, repo: q, host: g, .. }) => (o, r, h) == (p, q, g) && frags(i, j),
            (GitInfo::Url { url: u, .. }, GitInfo::Url { url: v, .. }) => (u == v || u.as_str().parse().as_ref() == Ok(v)) && frags(i, j),
            (GitInfo::Ssh { ssh: u, .. }, GitInfo::Ssh { ssh: v, .. }) => u == v && frags(i, j),
            _ => false,
        },
        _ => a == b,
    }
}

fn frags(i: &GitInfo, j: &GitInfo) -> bool {
    i.committish() == j.committish() && i.semver().map(|s| s.to_string()) == j.semver().map(|s| s.to_string())
}

/// Names become paths.
fn names(p: &PackageSpec) -> Result<(), String> {
    match p {
        PackageSpec::Npm { name, .. } if !name_ok(name) => Err(format!("the name {name:?} is accepted")),
        PackageSpec::Alias { name, spec } => {
            if !name_ok(name) {
                return Err(format!("the name {name:?} is accepted"));
            }
            names(spec)
        }
        _ => Ok(()),
    }
}

const TOKENS: &[&str] = &[
    "@", "/", "p", "Q-q_1", "^1.0.0", "1.2.3-a.1+b", "1.x || >=3 <4.5", "latest", "npm:", "file:", ".", "github:", "gist:", "gitlab:", "git+", "git://", "ssh://", "https://", "github.com", "h.io", ":", "#", "semver:", ".git", " ", "\u{e9}", "~", "\\",
];

const NAMES: &[&str] = &["p", "P.q-r_1", "@s/p", "@S-1/p.js", "github", "npm", "x.git", "1", "p~!*'()"];
const REGISTRY: &[&str] = &["", "@1.2.3", "@^1.2.3", "@~1", "@*", "@1.x || 2", "@>=1.0.0 <2.0.0", "@1.0.0 - 2", "@latest", "@next-1.0", "@1.2.3-beta.1+build", "@=1.2.3", "@v1.2.3", "@npm", "@x", "@"];
const OTHER: &[&str] = &[
    ".", "..", "./d", "../d/e", "/abs/d", "./a@b", "./@s/p", "../x@npm:y", "./a@/b", "./d e/\u{e9}", "file:./d", "file:/d", "file:d", "~/d", "d/e/f", "C:\\d\\e", "C:/d", "\\\\h\\d", ".hidden/d", "a/", "/",
    "o/r", "o/r#c1", "o/r#semver:^1.0.0", "o/r.git", "github:o/r", "github:o/r.git#main", "github:o/r/s", "gitlab:o/r#v1", "gitlab:o/r/s", "bitbucket:o/r#1.0.0", "gist:o/123abc#c", "gist:123abc", "o/r.github.io", "github:o/x.gitfoo",
    "git+https://github.com/o/r.git", "git+https://github.com/o/r.github.io.git#c1", "git+https://github.com/o/r", "git+https://github.com/o/r/s", "git+https://u:p@gitlab.com/o/r.git#semver:1.x", "git://github.com/o/r.git#c", "git+ssh://git@github.com/o/r.git", "git+ssh://git@github.com:o/r.git#c1", "git+ssh://git@bitbucket.org:o/r", "git+ssh://git@h.io:o/r.git", "git+ssh://git@h.io/o/r.git", "git+ssh://git@h.io:22/o/r.git", "git+ssh://git@gitlab.com:o/r.github.io.git",
    "ssh://git@h.io/o/r.git#c", "ssh://git@h.io:o/r.git#semver:^2", "ssh://git@github.com/o/r", "ssh://git@github.com:o/r.git", "ssh://h.io/r", "git+file:///d/e", "git+http://h.io/r.git#main", "git+https://h.io:8443/a/b/c.git#v1.0", "git://h.io/r#semver:>=1 <2", "git@github.com:o/r.git", "https://h.io/x", "https://github.com/o/r", "http://h.io/x", "o/r#feature/x", "o/r#a b",
    "git+https://github.com/o/r.git#semver:^1 || ^2", "git+https://gist.github.com/o/r.git", "GitHub:o/r", "FILE:./d", "git+https://GitHub.com/o/r",
];
const EDITS: &[char] = &['a', '1', '@', '/', '.', ':', '#', ' ', '-', '_', '+', '\\', '%', '?', '\u{e9}', '\u{1F600}', '\0', '\n', '~', '^', '*', '"', '&', '='];

fn formed() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for n in NAMES {
        for r in REGISTRY {
            v.push(format!("{n}{r}"));
            v.push(format!("npm:{n}{r}"));
        }
    }
    for o in OTHER {
        v.push(o.to_string());
        for n in NAMES {
            v.push(format!("{n}@{o}"));
        }
    }
    for a in NAMES {
        for n in NAMES {
            for r in REGISTRY {
                v.push(format!("{a}@npm:{n}{r}"));
            }
        }
    }
    v
}

fn edits(s: &str) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    let mut out = vec![];
    for i in 0..=cs.len() {
        for e in EDITS {
            out.push(cs[..i].iter().chain([e]).chain(&cs[i..]).collect());
            if i < cs.len() {
                out.push(cs[..i].iter().chain([e]).chain(&cs[i + 1..]).collect());
            }
        }
        if i < cs.len() {
            out.push(cs[..i].iter().chain(&cs[i + 1..]).collect());
            if i + 1 < cs.len() {
                let mut c = cs.clone();
                c.swap(i, i + 1);
                out.push(c.into_iter().collect());
            }
        }
    }
    out
}

enum Case {
    One(String),
    /// All texts that start with these tokens and have so many more.
    Tokens(String, usize),
    Edits(String, usize),
}

fn one(c: &Case) -> Result<(u64, bool), Viol> {
    let fail = |s: &str, v: Viol| Viol::new(s.to_string(), format!("{s:?}: {}", v.what));
    match c {
        Case::One(s) => judge(s).map(|b| (1, b)).map_err(|v| fail(s, v)),
        Case::Tokens(s, more) => {
            let mut r = judge(s).map(|b| (1, b)).map_err(|v| fail(s, v))?;
            if *more > 0 {
                for t in TOKENS {
                    let x = one(&Case::Tokens(format!("{s}{t}"), more - 1))?;
                    r = (r.0 + x.0, r.1 | x.1);
                }
            }
            Ok(r)
        }
        Case::Edits(s, n) => {
            let mut r = (0, false);
            for e in edits(s) {
                let x = if *n > 1 { one(&Case::Edits(e, n - 1))? } else { one(&Case::One(e))? };
                r = (r.0 + x.0, r.1 | x.1);
            }
            Ok(r)
        }
    }
}

pub fn run(ctx: &Ctx) {
    let len = if ctx.thorough { 6 } else { 5 };
    ctx.cov("tokens", TOKENS.len() as u64);
    ctx.cov("length up to", len as u64);
    ctx.cov("single-character edits up to", if ctx.thorough { 2 } else { 1 });
    let mut cases: Vec<Case> = formed().into_iter().map(Case::One).collect();
    let f = formed();
    cases.extend(f.iter().map(|s| Case::Edits(s.clone(), 1)));
    if ctx.thorough {
        cases.extend(OTHER.iter().filter(|s| s.len() <= 22).map(|s| Case::Edits(s.to_string(), 2)));
    }
    cases.push(Case::One(String::new()));
    for a in TOKENS {
        cases.push(Case::One(a.to_string()));
        for b in TOKENS {
            cases.push(Case::Tokens(format!("{a}{b}"), len - 2));
        }
    }
    ctx.par(
        24,
        cases.into_iter(),
        |c| -> Value {
            match c {
                Case::One(s) => json!({ "text": s }),
                Case::Tokens(s, n) => json!({"texts starting with": s, "tokens more": n}),
                Case::Edits(s, n) => json!({"edits of": s, "number": n}),
            }
        },
        |c: &Case, _: &Path| -> Out {
            let (n, b) = one(c)?;
            ctx.addcov("texts", n);
            Ok(b)
        },
    );
}
