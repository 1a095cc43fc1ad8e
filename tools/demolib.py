"""Support for demonstrations: a mock npm registry on the loopback network, and the real `oro` binary."""
import base64, gzip, hashlib, io, json, os, shutil, subprocess, sys, tarfile, tempfile, threading, urllib.parse
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

ORO = os.path.join(os.getcwd(), "target", "debug", "oro")


def tgz(files):
    """files: list of (name, mode, bytes)"""
    raw = io.BytesIO()
    with tarfile.open(fileobj=raw, mode="w", format=tarfile.USTAR_FORMAT) as t:
        for name, mode, data in files:
            ti = tarfile.TarInfo(name)
            ti.size, ti.mode = len(data), mode
            t.addfile(ti, io.BytesIO(data))
    return gzip.compress(raw.getvalue(), mtime=0)


class Registry:
    def __init__(self):
        self.pkgs, self.tars, self.log, self.hook = {}, {}, [], None
        reg = self

        class H(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def log_message(self, *a):
                pass

            def handle_any(self):
                n = int(self.headers.get("content-length") or 0)
                self.body = self.rfile.read(n) if n else b""
                path = urllib.parse.unquote(self.path.split("?")[0]).lstrip("/")
                reg.log.append((self.command, self.path, dict((k.lower(), v) for k, v in self.headers.items())))
                if reg.hook:
                    r = reg.hook(self, path)
                    if r is not None:
                        return self.answer(*r)
                if path in reg.tars:
                    return self.answer(200, reg.tars[path])
                if path in reg.pkgs:
                    return self.answer(200, json.dumps(reg.pkgs[path]).encode())
                self.answer(404, b"{}")

            def answer(self, status, body, headers={}):
                self.send_response(status)
                for k, v in headers.items():
                    self.send_header(k, v)
                self.send_header("content-length", str(len(body)))
                self.end_headers()
                if self.command != "HEAD":
                    self.wfile.write(body)

            do_GET = do_POST = do_PUT = do_DELETE = do_HEAD = handle_any

        self.srv = ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.srv.daemon_threads = True
        self.url = "http://127.0.0.1:%d/" % self.srv.server_address[1]
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()

    def add(self, name, version, manifest=None, files=None, tags=("latest",), tarball=None, dist=None):
        m = dict(manifest or {})
        m.update(name=name, version=version)
        if tarball is None:
            fs = [("package/package.json", 0o644, json.dumps(m).encode())]
            fs += [(f, mo, d) for f, mo, d in (files or [("package/index.js", 0o644, (name + "@" + version).encode())])]
            tarball = tgz(fs)
        p = "%s/-/%s-%s.tgz" % (name, name.split("/")[-1], version)
        self.tars[p] = tarball
        m["dist"] = {"tarball": self.url + p, "integrity": "sha512-" + base64.b64encode(hashlib.sha512(tarball).digest()).decode()}
        if dist is not None:
            m["dist"] = dict(tarball=self.url + p, **dist)
        if m.get("scripts", {}).keys() & {"preinstall", "install", "postinstall"}:
            m["hasInstallScript"] = True
        q = self.pkgs.setdefault(name, {"name": name, "versions": {}, "dist-tags": {}})
        q["versions"][version] = m
        for t in tags:
            q["dist-tags"][t] = version


class Project:
    def __init__(self, manifest):
        self.base = tempfile.mkdtemp(prefix="demo")
        self.root = os.path.join(self.base, "project")
        os.makedirs(self.root)
        self.home = os.path.join(self.base, "home")
        os.makedirs(self.home)
        self.manifest(manifest)

    def manifest(self, m):
        with open(os.path.join(self.root, "package.json"), "w") as f:
            f.write(m if isinstance(m, str) else json.dumps(m, indent=2) + "\n")

    def oro(self, *args, env=None, timeout=60):
        h = self.home
        e = {"PATH": "/usr/bin:/bin", "HOME": h, "XDG_CONFIG_HOME": h + "/config", "XDG_CACHE_HOME": h + "/cache",
             "XDG_DATA_HOME": h + "/data", "TMPDIR": h, "CI": "true", "NO_COLOR": "1", "SSL_CERT_FILE": "/dev/null", "SSL_CERT_DIR": "/nonexistent"}
        e.update(env or {})
        return subprocess.run([ORO, *args], cwd=self.root, env=e, capture_output=True, text=True, timeout=timeout, stdin=subprocess.DEVNULL)

    def path(self, *p):
        return os.path.join(self.root, *p)

    def json(self, *p):
        with open(self.path(*p)) as f:
            return json.load(f)

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)


def check(ok, what):
    print(("ok: " if ok else "FAILED: ") + what)
    if not ok:
        raise SystemExit(1)
