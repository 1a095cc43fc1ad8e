seeds = [
 dict(id="r03-tag-unpublished", property="R03",
  edits={"crates/nassun/src/resolver.rs": [("""            && packument
                .versions
                .get(tag_version.as_ref().unwrap())
                .is_some()
""", "")]},
  needs="a registry whose `latest` tag names a version that has been unpublished, and a range that version would satisfy",
  breaks="the highest published version that satisfies the range is no longer selected; resolution fails instead",
  demo='''
r = Registry()
r.add("a", "1.0.0")
r.add("a", "1.1.0")
r.pkgs["a"]["dist-tags"]["latest"] = "1.2.0"
p = Project({"name": "x", "version": "1.0.0", "dependencies": {"a": "^1.0.0"}})
try:
    o = p.oro("apply", "--registry", r.url)
    check(o.returncode == 0, "apply succeeds " + o.stderr[-300:])
    check(p.json("node_modules", "a", "package.json")["version"] == "1.1.0", "the highest published version is installed")
finally:
    p.close()
'''),
 dict(id="t01-cache-fallback-unchecked", property="T01",
  edits={"crates/nassun/src/package.rs": [("""                            return self
                                .tarball_checked(sri)
                                .await?
""", """                            return self
                                .tarball_unchecked()
                                .await?
""")]},
  needs="an earlier installation whose cache was damaged since, and a registry that now serves other data for the same version",
  breaks="after extraction from the cache fails, the tarball is fetched again without checking its integrity",
  demo='''
r = Registry()
r.add("a", "1.0.0")
p = Project({"name": "x", "version": "1.0.0", "dependencies": {"a": "1.0.0"}})
try:
    o = p.oro("apply", "--registry", r.url, "--cache", p.base + "/cache")
    check(o.returncode == 0, "first apply succeeds " + o.stderr[-300:])
    n = 0
    for d, _, fs in os.walk(p.base + "/cache"):
        for f in fs:
            if "content-v2" in d:
                os.chmod(os.path.join(d, f), 0o644)
                os.remove(os.path.join(d, f))
                n += 1
    check(n > 0, "the cached files were removed")
    r.tars["a/-/a-1.0.0.tgz"] = tgz([("package/package.json", 0o644, b'{"name":"a","version":"1.0.0"}'), ("package/index.js", 0o644, b"evil")])
    shutil.rmtree(p.path("node_modules"))
    o = p.oro("apply", "--registry", r.url, "--cache", p.base + "/cache")
    bad = [d for d, _, fs in os.walk(p.path("node_modules")) for f in fs if open(os.path.join(d, f), "rb").read() == b"evil"]
    check(not bad, "data that doesn't match the integrity is not installed")
finally:
    p.close()
'''),
 dict(id="t02-scripts-share-cache", property="T02",
  edits={"crates/nassun/src/package.rs": [("index.should_copy && !extract_mode.is_copy()", "index.should_copy && extract_mode.is_copy()")]},
  needs="a package with an install script that changes one of its own files, installed again from the cache with hard links next to a package with the same file",
  breaks="a package with install scripts is hard linked to the cache on later installations, so that its scripts change the cached files of everyone",
  demo='''
r = Registry()
r.add("a", "1.0.0", {"scripts": {"postinstall": "echo changed >> data.txt"}}, [("package/data.txt", 0o644, b"original\\n")])
r.add("b", "1.0.0", {}, [("package/data.txt", 0o644, b"original\\n")])
p = Project({"name": "x", "version": "1.0.0", "dependencies": {"a": "1.0.0", "b": "1.0.0"}})
try:
    for i in range(3):
        o = p.oro("apply", "--registry", r.url, "--cache", p.base + "/cache")
        check(o.returncode == 0, "apply succeeds " + o.stderr[-300:])
        got = open(p.path("node_modules", "a", "data.txt")).read()
        check(got == "original\\nchanged\\n", "installation %d has the package's own file plus the script's line: %r" % (i, got))
        got = open(p.path("node_modules", "b", "data.txt")).read()
        check(got == "original\\n", "the other package with the same file is unaffected: %r" % got)
        shutil.rmtree(p.path("node_modules"))
finally:
    p.close()
'''),
 dict(id="t02-large-archive", property="T02",
  edits={"crates/nassun/src/tarball.rs": [("""                    if n == 0 {
                        return Ok(TempTarball::File(tempfile));
                    }
""", """                    if n < buf.len() {
                        return Ok(TempTarball::File(tempfile));
                    }
""")]},
  needs="a tarball of more than 5 MB (which is spooled to a temporary file) whose transfer comes in pieces that don't fill the buffer",
  breaks="the rest of a large tarball is dropped as soon as a read returns less than a full buffer",
  demo='''
import random
r = Registry()
r.add("a", "1.0.0", {}, [("package/big.bin", 0o644, random.Random(1).randbytes(6_000_000)), ("package/last.js", 0o644, b"last")])
p = Project({"name": "x", "version": "1.0.0", "dependencies": {"a": "1.0.0"}})
try:
    o = p.oro("apply", "--registry", r.url)
    check(o.returncode == 0, "apply succeeds " + o.stderr[-300:])
    check(open(p.path("node_modules", "a", "last.js")).read() == "last", "the whole package is there")
finally:
    p.close()
'''),
 dict(id="r05-npm-path-split", property="R05",
  edits={"crates/node-maintainer/src/lockfile.rs": [("""            .split("/node_modules/")
            .skip(1)
            .map(|s| s.into())""", """            .split("node_modules/")
            .skip(1)
            .map(|s| s.trim_end_matches('/').into())""")]},
  needs="an npm lockfile with a package below another one whose name ends in node_modules",
  breaks="the path of such a package is read wrongly, so it isn't found in the lockfile",
  demo='''
r = Registry()
r.add("b", "1.0.0")
r.add("b", "1.1.0")
r.add("b", "2.0.0")
r.add("my_node_modules", "1.0.0", {"dependencies": {"b": "^1.0.0"}})
lock = {"name": "x", "version": "1.0.0", "lockfileVersion": 3, "requires": True, "packages": {
    "": {"name": "x", "version": "1.0.0", "dependencies": {"b": "^2.0.0", "my_node_modules": "^1.0.0"}}}}
def ent(path, name, v, deps={}):
    d = r.pkgs[name]["versions"][v]["dist"]
    lock["packages"][path] = {"version": v, "resolved": d["tarball"], "integrity": d["integrity"], **({"dependencies": deps} if deps else {})}
ent("node_modules/b", "b", "2.0.0")
ent("node_modules/my_node_modules", "my_node_modules", "1.0.0", {"b": "^1.0.0"})
ent("node_modules/my_node_modules/node_modules/b", "b", "1.0.0")
p = Project({"name": "x", "version": "1.0.0", "dependencies": {"b": "^2.0.0", "my_node_modules": "^1.0.0"}})
try:
    open(p.path("package-lock.json"), "w").write(json.dumps(lock))
    o = p.oro("apply", "--registry", r.url, "--hoisted")
    check(o.returncode == 0, "apply succeeds " + o.stderr[-300:])
    v = p.json("node_modules", "my_node_modules", "node_modules", "b", "package.json")["version"]
    check(v == "1.0.0", "the locked version is installed: " + v)
finally:
    p.close()
'''),
 dict(id="r04-target-depth", property="R04",
  edits={"crates/node-maintainer/src/resolver.rs": [("if locked == &graph.node_path(target_idx) {", "if locked.len() == graph.node_path(target_idx).len() + 1 {")]},
  needs="a lockfile with a nested package where hoisting it one level less or more makes no conflict",
  breaks="packages are placed one level deeper than the lockfile says",
  demo='''
r = Registry()
r.add("b", "1.0.0")
r.add("b", "2.0.0")
r.add("c", "1.0.0", {"dependencies": {"b": "^1.0.0"}})
r.add("a", "1.0.0", {"dependencies": {"c": "^1.0.0"}})
p = Project({"name": "x", "version": "1.0.0", "dependencies": {"a": "^1.0.0", "b": "^2.0.0"}})
try:
    o = p.oro("apply", "--registry", r.url, "--lockfile-only")
    check(o.returncode == 0, "apply succeeds " + o.stderr[-300:])
    first = open(p.path("package-lock.kdl")).read()
    # The same tree, with c below a and the old b below a, too.
    t = first.replace('pkg "c" {', 'pkg "a" "c" {').replace('pkg "c" "b"', 'pkg "a" "b"')
    check(t != first, "lockfile was changed")
    open(p.path("package-lock.kdl"), "w").write(t)
    for i in range(2):
        o = p.oro("apply", "--registry", r.url, "--lockfile-only")
        check(o.returncode == 0, "apply succeeds " + o.stderr[-300:])
        got = open(p.path("package-lock.kdl")).read()
        check(sorted(l for l in got.split("\\n") if l.startswith("pkg")) == sorted(l for l in t.split("\\n") if l.startswith("pkg")), "the layout of the lockfile is kept:\\n" + got)
finally:
    p.close()
'''),
]
