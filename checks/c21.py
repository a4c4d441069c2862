"""C21: copies of remote files"""
import atexit
import ftplib
import hashlib
import io
import json
import os
import pathlib
import posixpath
import resource
import signal
import subprocess
import sys
import time
import urllib.request
import numpy as np
from vlib import *

CFG = "SPECIFICATION Spec\nINVARIANTS Lawful NeverPartial Emit\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Design = \"%s\"\n EmitOn = %s\n MaxLen = %d\n Blocks = 2\n"
SIM = CFG.replace("PROPERTIES Ends\n", "")
EPOCH = 1577836800


class Server:
    def __init__(self, d):
        self.d = d
        d.mkdir()
        self.c = dict(how="length", path="/", body="content", listing=[], times={})
        (d / "content").write_bytes(b"")
        self.put()
        self.p = subprocess.Popen([sys.executable, str(pathlib.Path(__file__).parent.parent / "harness" / "servers.py"), str(d)], stdin=subprocess.PIPE)
        atexit.register(self.stop)
        for _ in range(1000):
            if (d / "ports").exists():
                break
            time.sleep(0.02)
        else:
            raise MachineryError("servers did not start")
        self.http, self.ftp, self.shut = json.loads((d / "ports").read_text())

    def put(self, **k):
        self.c.update(k)
        (self.d / "ctl.tmp").write_text(json.dumps(self.c))
        (self.d / "ctl.tmp").rename(self.d / "ctl.json")

    def stop(self):
        if self.p.poll() is None:
            self.p.stdin.close()
            self.p.kill()
            self.p.wait()


def within(limit, fn):
    """files cannot grow beyond the limit; writing more is an error"""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
    try:
        return fn()
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def killed(limit, fn):
    """the same in a process that ends when it writes more"""
    pid = os.fork()
    if pid == 0:
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            signal.alarm(60)
            _, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            o = fn()
            os._exit(0 if o.ok else 1)
        finally:
            os._exit(2)
    _, st = os.waitpid(pid, 0)
    return Outcome(None, "" if st == 0 else "Killed" if os.WIFSIGNALED(st) else "Error", f"status {st}")


class User:
    """one history: a server, a directory of the user, versions of a file"""
    def __init__(self, ctx, S, j):
        self.ctx, self.S, self.rng = ctx, S, ctx.rng
        rng = self.rng
        self.d = ctx.scratch / f"u{j}"
        self.d.mkdir()
        self.name = ["file.bin", "de440s.bsp", "a b.txt", "x+y.nc.gz", "finals.all"][int(rng.integers(4))] if rng.random() < 0.7 else "f"
        if " " in self.name:
            self.name = "a_b.txt"
        sub = ["", "sub", "sub/deep"][int(rng.integers(3))]
        self.local = self.d / "home" / sub / (self.name if rng.random() < 0.6 else "local.dat")
        (self.d / "home").mkdir()
        self.size = [60, 1000, 20000, 40000][int(rng.integers(4))]
        self.versions = {}
        self.v = 0
        self.tmode = int(rng.integers(3))
        self.dir = ["pub", "pub/deep/dir", ""][int(rng.integers(3))]

    def content(self, c):
        if c not in self.versions:
            n = self.size + int(self.rng.integers(0, 50))
            # versions may be longer or shorter, or differ in one byte
            k = int(self.rng.integers(3))
            if self.versions and k == 0:
                b = bytearray(list(self.versions.values())[-1]); b[int(self.rng.integers(len(b)))] ^= 1 << int(self.rng.integers(8)); b = bytes(b)
            elif k == 1:
                b = self.rng.bytes(max(50, n // 2))
            else:
                b = self.rng.bytes(n)
            self.versions[c] = b
        return self.versions[c]

    def known(self, path):
        if not path.exists():
            return 0
        b = path.read_bytes()
        return next((c for c, x in self.versions.items() if x == b), -1)

    def serve(self):
        self.v += 1
        b = self.content(self.v)
        self.t = int(self.rng.integers(0, 190000000))
        (self.S.d / "content.tmp").write_bytes(b)
        (self.S.d / "content.tmp").rename(self.S.d / "content")
        g = time.gmtime(EPOCH + self.t)
        self.stamp = time.strftime("%Y%m%d%H%M%S", g) + [".000", "", ""][self.tmode]
        return dict(kind="serve", status="ok", c=self.v, t=self.t)

    def edit(self):
        b = self.content(9)
        self.local.write_bytes(b)
        t = int(self.rng.integers(0, 190000000))
        os.utime(self.local, (EPOCH + t, EPOCH + t))
        return dict(kind="edit", status="ok", c=9, t=t)

    def fetch(self, op, key):
        import pyTMD.utilities as U
        S, rng = self.S, self.rng
        proto, fault = op["proto"], op["fault"]
        n = len(self.versions[self.v])
        at = int(rng.integers(0, n))
        parts = [p for p in self.dir.split("/") if p] + [self.name]
        kw = {}
        c = dict(path="/" + "/".join(parts), body="content", at=at, auth="", how=["length", "chunked", "close"][int(rng.integers(3))], times={})
        if rng.random() < 0.7:
            kw["chunk"] = int(rng.choice([1 if n < 2000 else 300, 7 if n < 2000 else 1000, 4096, n, 2 * n]))
        variants = {("http", "refused"): ["drop", "shut"], ("http", "missing"): ["404", "500", "403"], ("http", "cut"): ["short", "shortchunked", "reset", "stall"],
                    ("ftp", "refused"): ["530", "421", "shut"], ("ftp", "missing"): ["550"], ("ftp", "cut"): ["426", "gone", "ftpreset", "ftpstall"], ("ftp", "stamp"): ["nomdtm", "500mdtm", "dropmdtm"]}
        var = ""
        port = getattr(S, "ftp" if proto == "ftp" else "http")
        if (("ftp" if proto == "ftp" else "http"), fault) in variants:
            w = variants[("ftp" if proto == "ftp" else "http"), fault]
            var = w[int(rng.integers(len(w)))]
            if var in ("stall", "ftpstall") and rng.random() < 0.6:
                var = w[0]
            if var == "shut":
                port = S.shut
            else:
                c["how"] = var
            if "stall" in var:
                kw["timeout"] = 0.2
        elif rng.random() < 0.3:
            kw["timeout"] = 20
        jpl = proto == "http" and op["local"] and rng.random() < 0.2
        if jpl:
            parts = ["ftp", "eph", "planets", "bsp", self.local.name]
            c["path"] = "/" + "/".join(parts)
        if proto == "ftp":
            ftplib.FTP.port = port
            host = ["127.0.0.1"] + parts
            # of the server: names from its root
            c["path"] = "/".join(parts)
            c["times"] = {c["path"]: self.stamp}
            fn = U.from_ftp
            if rng.random() < 0.4:
                kw.update(username="u", password="secret"); c["auth"] = "u:secret"
        else:
            host = [f"http://127.0.0.1:{port}"] + parts
            fn = U.from_http
            if proto == "cddis":
                fn = U.from_cddis
                kw.update(username="me", password="pass:word", build=False); c["auth"] = "me:pass:word"
                if fault == "refused" and var == "drop" and rng.random() < 0.5:
                    kw["password"] = "other"; c["how"] = "length"; var = "401"
        form = int(rng.integers(3))
        where = posixpath.join(*host) if form == 0 else host if form == 1 else tuple(host)
        S.put(**c)
        before = {p for p in self.d.rglob("*")}
        remote = self.versions[self.v]
        if op["hash"] == "local":
            kw["hash"] = U.get_hash(self.local if rng.random() < 0.5 else str(self.local))
        elif op["hash"] == "other":
            kw["hash"] = hashlib.md5(rng.bytes(9)).hexdigest()
        elif op["hash"] == "remote":
            kw["hash"] = hashlib.md5(remote).hexdigest()
        elif rng.random() < 0.5:
            kw["hash"] = ""
        mode = int(rng.choice([0o775, 0o664, 0o600]))
        if op["local"]:
            kw["mode"] = mode
            rel = int(rng.integers(4))
            kw["local"] = self.local if rel == 0 else str(self.local) if rel == 1 else f"~/{self.local.relative_to(self.d / 'home')}" if rel == 2 else os.path.relpath(self.local)
            if rel == 3 and rng.random() < 0.5:
                kw["local"] = pathlib.Path(kw["local"])
        if jpl:
            real = urllib.request.urlopen
            base = "https://ssd.jpl.nasa.gov"
            def stand_in(req, *a, **k):
                u = req.full_url if hasattr(req, "full_url") else req
                if not u.startswith(base):
                    raise OSError(f"no network: {u}")
                return real(urllib.request.Request(f"http://127.0.0.1:{port}" + u[len(base):]), *a, **k)
            def fn(w, **k):
                urllib.request.urlopen = stand_in
                try:
                    return U.from_jpl_ssd(*([self.local.name] if rng.random() < 0.5 else [None]), **k)
                finally:
                    urllib.request.urlopen = real
        home = os.environ.get("HOME")
        os.environ["HOME"] = str(self.d / "home")
        run = lambda: call(fn, where, **kw)
        was = int(self.local.stat().st_mtime) - EPOCH if self.local.exists() else 0
        try:
            lim = int(rng.integers(0, len(remote)))
            o = within(lim, run) if fault == "full" else killed(lim, run) if fault == "killed" else run()
        finally:
            os.environ["HOME"] = home or "/root"
        after = self.known(self.local)
        st = self.local.stat() if self.local.exists() else None
        allowed = {self.local, *self.local.parents}
        r = dict(kind="fetch", proto=proto, fault=fault, hash=op["hash"], haslocal=op["local"], status=o.err or "ok", msg=o.msg, after=after, aftertime=int(st.st_mtime) - EPOCH if st else 0,
                 ret=0, pos=0, named=True, others=len([p for p in self.d.rglob("*") if p not in before and p not in allowed]),
                 mode=st.st_mode & 0o777 if st else 0, wantmode=mode)
        if o.ok and not jpl and fault != "killed":
            v = o.value
            r["pos"] = v.tell()
            b = v.getvalue()
            r["ret"] = next((c for c, x in self.versions.items() if x == b), -1)
            r["named"] = getattr(v, "filename", "") == self.name
        elif o.ok:
            # nothing is returned, or not to this process
            r["ret"] = self.v
        if st is None:
            r["aftertime"] = 0
        r["key"] = f"{key}|{proto}{'/jpl' if jpl else ''}:{fault}:{var or c['how']}:{op['hash']}:{'local' if op['local'] else 'buffer'}:{['text', 'list', 'tuple'][form]}|{o.err}"
        return r


def histories(ctx, S, cases, recs):
    for j, case in enumerate(cases):
        u = User(ctx, S, j)
        recs.append(dict(kind="begin", status="ok", key="begin"))
        recs.append(dict(u.serve(), key="serve"))
        key = ""
        for i, op in enumerate(case["hist"]):
            key += f">{op['f'][:1]}{op['fault']}"
            if op["f"] == "serve":
                recs.append(dict(u.serve(), key="serve"))
            elif op["f"] == "edit":
                if u.local.exists():
                    recs.append(dict(u.edit(), key="edit"))
            else:
                recs.append(u.fetch(op, f"{key}|{i}"))


def hashes(ctx, recs):
    import pyTMD.utilities as U
    rng = ctx.rng
    d = ctx.scratch / "hash"
    d.mkdir()
    for j in range(500 if ctx.thorough else 150):
        b = rng.bytes(int(rng.choice([0, 1, 100, 70000])))
        p = d / f"h{j}.bin"
        p.write_bytes(b)
        alg = ["md5", "sha1", "sha256", "sha512", "blake2b"][int(rng.integers(5))]
        form = ["str", "path", "home", "relative", "BytesIO", "file", "raw", "missing", "unknown"][j % 9]
        want = hashlib.new(alg, b).hexdigest()
        pos = posa = 0
        def arg():
            if form == "str": return str(p)
            if form == "path": return p
            if form == "home": return f"~/{p.name}"
            if form == "relative": return os.path.relpath(p)
            if form == "missing": return d / "none" if j % 2 else str(d / "none")
            if form == "BytesIO": return io.BytesIO(b)
            if form == "file": return p.open("rb")
            if form == "raw": return p.open("rb", buffering=0)
            return p
        a = arg()
        if form in ("BytesIO", "file", "raw"):
            pos = int(rng.integers(0, len(b) + 1)); a.seek(pos)
        home = os.environ.get("HOME"); os.environ["HOME"] = str(d)
        if form == "unknown":
            o = call(U.get_hash, a, "sha1024"); want = "ValueError"
        elif alg == "md5" and j % 2:
            o = call(U.get_hash, a)
        else:
            o = call(U.get_hash, a, algorithm=alg)
        os.environ["HOME"] = home or "/root"
        if form == "missing":
            want = ""
        if hasattr(a, "tell"):
            posa = a.tell(); a.close()
        recs.append(dict(kind="hash", got=o.value if o.ok else o.err, want=want, pos=pos, posafter=posa, key=f"hash|{form}|{alg}|{len(b)}|{o.err}"))


def copies(ctx, recs):
    import pyTMD.utilities as U
    rng = ctx.rng
    for j in range(300 if ctx.thorough else 120):
        d = ctx.scratch / f"c{j}"
        d.mkdir(); (d / "to").mkdir()
        vs = {1: rng.bytes(int(rng.choice([1, 50, 30000]))), 2: rng.bytes(77)}
        src = d / "src.bin"; src.write_bytes(vs[1])
        t = int(rng.integers(0, 190000000)); os.utime(src, (EPOCH + t, EPOCH + t))
        how = ["new", "replace", "same", "nodir", "full", "missing"][int(rng.choice([0, 0, 1, 1, 2, 3, 4, 5]))]
        dst = dict(new=d / "to" / "dst.bin", replace=d / "to" / "dst.bin", same=src, nodir=d / "no" / "dst.bin", full=d / "to" / "dst.bin", missing=d / "to" / "x")[how]
        if how == "replace":
            dst.write_bytes(vs[2])
        if how == "missing":
            src = d / "nothing"
        move = bool(rng.random() < 0.5)
        s = ["%s", "~/%s"][int(rng.integers(2))]
        A = lambda p: (str(p), p, f"~/{p.relative_to(d)}", os.path.relpath(p))[int(rng.integers(4))]
        home = os.environ.get("HOME"); os.environ["HOME"] = str(d)
        args = (A(src), A(dst))
        run = lambda: call(U.copy, *args, **(dict(move=move) if move or rng.random() < 0.5 else {}))
        o = within(int(rng.integers(0, len(vs[1]))), run) if how == "full" else run()
        os.environ["HOME"] = home or "/root"
        known = lambda p: next((c for c, b in vs.items() if p.exists() and p.read_bytes() == b), -1 if p.exists() else 0)
        fails = how in ("same", "nodir", "full", "missing")
        recs.append(dict(kind="copy", src=0 if how == "missing" else 1, srctime=t, move=move, same=fails, done=o.ok, dst=known(dst), dsttime=int(dst.stat().st_mtime) - EPOCH if dst.exists() else 0,
                         srcafter=known(src), msg=o.msg, key=f"copy|{how}|{move}|{o.err}"))


def splits(ctx, recs):
    import pyTMD.utilities as U
    rng = ctx.rng
    for j in range(200):
        head = ["http://host.org", "https://h:8080", "ftp://host", "s3://bucket", "host.org", "127.0.0.1"][int(rng.integers(6))]
        parts = [str(x) for x in rng.choice(["a", "b.c", "pub", "x-1", "v2.0", "tide_model", "a b", "%20", "?q=1", "http"], int(rng.integers(0, 6)))]
        text = posixpath.join(head, *parts)
        if parts and rng.random() < 0.15:
            text += "/"; parts = parts + [""]
        o = call(U.url_split, text)
        got = list(o.value) if o.ok else []
        recs.append(dict(kind="split", text=text, got=got, want=[head] + parts, joined=posixpath.join(*got) if got else "", key=f"split|{text}|{o.err}"))


def documents(ctx, S, recs):
    import pyTMD.utilities as U
    rng = ctx.rng
    for j in range(40):
        doc = dict(a=int(rng.integers(1000)), b=["x"] * int(rng.integers(0, 90)), c=dict(d=None, e="µ"))
        b = json.dumps(doc).encode()
        (S.d / "doc").write_bytes(b)
        how = ["length", "chunked", "close", "404", "500", "short", "shortchunked", "drop", "shut"][j % 9]
        fault = "" if how in ("length", "chunked", "close") else how
        S.put(how=how if how != "shut" else "length", path="/api/doc", body="doc", at=int(rng.integers(0, len(b))), auth="")
        host = [f"http://127.0.0.1:{S.shut if how == 'shut' else S.http}", "api", "doc"]
        o = call(U.from_json, host if j % 2 else "/".join(host), timeout=5)
        recs.append(dict(kind="json", fault=fault, status=o.err or "ok", got=json.dumps(o.value, sort_keys=True) if o.ok else "", want=json.dumps(doc, sort_keys=True), key=f"json|{how}|{o.err}"))


def checks(ctx, S, recs):
    import pyTMD.utilities as U
    for j in range(16):
        how = ["length", "404", "500", "shut"][j % 4]
        S.put(how=how if how != "shut" else "length", path="/", body="content", auth="")
        o = call(U.check_connection, f"http://127.0.0.1:{S.shut if how == 'shut' else S.http}/")
        recs.append(dict(kind="check", got=o.err or str(o.value), want="True" if how == "length" else "RuntimeError", key=f"check|http|{how}|{o.err}"))
        how = ["length", "530", "shut", "length"][j % 4]
        ftplib.FTP.port = S.shut if how == "shut" else S.ftp
        S.put(how=how if how != "shut" else "length", auth="u:p" if j % 8 < 4 else "")
        o = call(U.check_ftp_connection, "127.0.0.1", *(["u", "p"] if j % 8 < 4 else []))
        recs.append(dict(kind="check", got=o.err or str(o.value), want="True" if how == "length" else "RuntimeError", key=f"check|ftp|{how}|{o.err}"))


def listings(ctx, S, recs):
    import pyTMD.utilities as U
    import html
    rng = ctx.rng
    import re
    kinds = ("http", "ftp", "cddis", "uhslc", "iers")
    for j in range(500 if ctx.thorough else 150):
        kind = kinds[j % 5]
        n = int(rng.integers(0, 8))
        names = [str(rng.choice(["a", "B", "tide", "gsfc", "m2", "K1"])) + "_" + str(int(rng.integers(30))) + str(rng.choice([".nc", ".txt", ".nc.gz", ""])) for _ in range(n)]
        times = [int(rng.integers(0, 3000000)) * 60 for _ in names]
        host = ["127.0.0.1" if kind == "ftp" else f"http://127.0.0.1:{S.http}", "pub", "list"]
        fmt = lambda f, t: time.strftime(f, time.gmtime(EPOCH + t))
        kw = {}
        pre = []
        if kind == "http":
            rows = "".join(f'<tr><td valign="top"><img src="x"></td><td><a href="{x}">{x[:8]}..&gt;</a></td><td align="right">{fmt("%Y-%m-%d %H:%M", t)}  </td><td align="right">{int(rng.integers(900))}K</td><td>&nbsp;</td></tr>\n' for x, t in zip(names, times))
            # the folder above has no time
            up = ""
            if rng.random() < 0.5:
                up = '<tr><td valign="top"><img src="y"></td><td><a href="/pub/">Parent Directory</a></td><td align="right">  </td><td align="right">  - </td><td>&nbsp;</td></tr>\n'
                pre = [("/pub/", None)]
            body = f'<html><body><h1>Index</h1><table><tr><th>a</th><th><a href="?C=N">Name</a></th></tr>\n{up}{rows}</table></body></html>'
            fn = U.http_list
        elif kind == "cddis":
            dirs = [f"d{k}" for k in range(int(rng.integers(0, 3)))]
            body = "<html><body>" + "".join(f'<div class="archiveDir"><div class="archiveDirTextContainer"><a class="archiveDirText" href="{x}">{x}</a></div></div>' for x in dirs) + \
                "".join(f'<div class="archiveItem"><div class="archiveItemTextContainer"><a class="archiveItemText" href="{x}">{x}</a><span class="fileInfo">{fmt("%Y:%m:%d %H:%M:%S", t)}&nbsp;&nbsp;{int(rng.integers(10 ** 6))}</span></div></div>' for x, t in zip(names, times)) + "</body></html>"
            pre = [(x, None) for x in dirs]
            fn = U.cddis_list
            kw.update(username="a", password="b", build=False)
        elif kind == "uhslc":
            body = "<html><body>" + "".join(f'<a href="x/{x}">{x}</a><br>' for x in names) + "</body></html>"
            times = [None] * n
            fn = U.uhslc_list
        elif kind == "iers":
            # newest last on the page, newest first in the list
            times = [t - t % 86400 for t in times]
            td = lambda x: f'<td class="$tdclass">{x}</td>'
            rows = "".join("<tr>" + td(f"Bulletin {i}") + td(f'<span class="d">{fmt("%Y-%m-%d", t)}</span>') + td("<b>text</b>") + td(f'<p><a href="{x}">version</a></p>') + td('<a href="meta">m</a>') + "</tr>\n" for i, (x, t) in enumerate(zip(names, times)))
            body = f'<html><body><table><tr><td class="head">x</td></tr>{rows}</table></body></html>'
            names, times = names[::-1], times[::-1]
            fn = U.iers_list
        else:
            fn = U.ftp_list
            # some have no time
            times = [t if rng.random() < 0.8 else None for t in times]
            if len(set(names)) < len(names):
                names = [f"{k}{x}" for k, x in enumerate(names)]
            full = [f"pub/list/{x}" for x in names]
            if rng.random() < 0.5:
                kw["basename"] = True
            else:
                names = full
        rows = pre + list(zip(names, times))
        if kind != "iers" and rng.random() < 0.5:
            kw["pattern"] = str(rng.choice([r"nc$", r"\.nc", "^a", "1", "zzz", r"\d\d"]))
        if kind != "iers" and rng.random() < 0.5:
            kw["sort"] = True
        match = [bool(re.search(kw["pattern"], x)) if kw.get("pattern") else True for x, _ in rows]
        if kind == "ftp":
            ftplib.FTP.port = S.ftp
            S.put(how="length", auth="", listing=full, times={f: fmt("%Y%m%d%H%M%S", t) if t is not None else "" for f, t in zip(full, times)})
        else:
            (S.d / "list").write_bytes(body.encode())
            S.put(how=["length", "chunked"][int(rng.integers(2))], path="/pub/list", body="list", auth="a:b" if kind == "cddis" else "")
        where = posixpath.join(*host) if rng.random() < 0.5 else host
        o = call(fn, where, timeout=20, **kw)
        show = lambda x, t: f"{x}|{'' if t is None else int(t)}"
        got, rank = [], []
        if o.ok:
            v = o.value if kind != "uhslc" else (o.value, [None] * len(o.value))
            ts = [None if t is None else t - EPOCH for t in v[1]]
            got = [show(x, t) for x, t in zip(v[0], ts)]
            if len(v[0]) != len(ts):
                got.append("lengths differ")
            order = sorted(set(v[0]))
            rank = [order.index(x) for x in v[0]]
        recs.append(dict(kind="list", status=o.err or "ok", msg=o.msg, rows=[show(*x) for x in rows], match=match, got=got, rank=rank, sort=bool(kw.get("sort")), key=f"list|{kind}|{n}|{kw.get('pattern', '')}|{bool(kw.get('sort'))}|{o.err}"))


def main(ctx):
    import pyTMD.utilities
    ctx.model("FetchMC", CFG % ("sound", "FALSE", 2), name="fetches with faults")
    for d in ("in place", "stamp last", "no stamp", "gate on the copy", "short is complete"):
        ctx.refute("FetchMC", SIM % (d, "FALSE", 2), name=d)
    n = 5
    cases = ctx.model("FetchMC", SIM % ("sound", "TRUE", n), name="histories", simulate=(700 if ctx.thorough else 170, 90))
    if not cases:
        raise MachineryError("no histories")
    # histories of two fetches with every protocol and fault, and random longer ones
    pairs = ctx.model("FetchMC", SIM % ("sound", "TRUE", 2), name="pairs of steps")
    pick = [x for x in pairs if x["hist"][0]["f"] == "fetch" and x["hist"][0]["local"] and x["hist"][0]["fault"] == "" and x["hist"][1]["f"] == "fetch" and x["hist"][1]["local"]]
    todo = cases + [pick[int(i)] for i in ctx.rng.choice(len(pick), size=min(len(pick), 1500 if ctx.thorough else 260), replace=False)]
    S = Server(ctx.scratch / "server")
    recs = []
    try:
        histories(ctx, S, todo, recs)
        documents(ctx, S, recs)
        checks(ctx, S, recs)
        listings(ctx, S, recs)
    finally:
        S.stop()
    hashes(ctx, recs)
    copies(ctx, recs)
    splits(ctx, recs)
    can = []
    good = [r for r in recs if r["kind"] == "fetch" and r["status"] == "ok" and r["haslocal"]]
    can += [dict(kind="begin", status="ok"), dict(kind="serve", status="ok", c=1, t=5)]
    extra = [dict(good[0], hash="none", proto="ftp", fault="", after=1, aftertime=6), dict(good[0], hash="none", fault="cut", status="ok", after=0)]
    for k, f in (("hash", dict(got="0")), ("copy", dict(srcafter=9)), ("split", dict(got=["x"])), ("list", dict(got=["zz|1"])), ("json", dict(fault="404", status="ok"))):
        g = [r for r in recs if r["kind"] == k]
        extra.append(dict(g[len(g) // 2], **f))
    ctx.validate("FetchTrace", recs + can, canaries=extra)
