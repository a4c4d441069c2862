"""C29: the programs that fetch models"""
import calendar
import contextlib
import ftplib
import getpass
import gzip
import hashlib
import http.client
import importlib.util
import io
import json
import logging
import lzma
import os
import pathlib
import posixpath
import socket
import sys
import tarfile
import threading
import time
import urllib.request
import zipfile
import builtins
import numpy as np
from vlib import *
import models as M
from c21 import within, killed

CFG = "SPECIFICATION Spec\nINVARIANTS Lawful FaultsStrike Whole Confined Settles Emit\n%sCHECK_DEADLOCK FALSE\nCONSTANTS\n Design = \"%s\"\n EmitOn = %s\n MaxLen = %d\n"
EPOCH = 1577836800
LIMIT = 30000
AVISO = "auxiliary/tide_model/"
# where the products are published
HTTP = {"GOT4.8": ("earth.gsfc.nasa.gov", "/sites/default/files/2022-07/got4.8.tar.gz"), "GOT4.10": ("earth.gsfc.nasa.gov", "/sites/default/files/2023-12/got4.10c.tar.gz"),
        "GOT5.5": ("earth.gsfc.nasa.gov", "/sites/default/files/2024-07/GOT5.5.tar%201.gz"), "GOT5.5D": ("earth.gsfc.nasa.gov", "/sites/default/files/2024-07/GOT5.5D.tar%201.gz"),
        "GOT5.6": ("earth.gsfc.nasa.gov", "/sites/default/files/2024-07/GOT5.6.tar%201.gz"), "RE14": ("earth.gsfc.nasa.gov", "/sites/default/files/2022-07/re14_longperiodtides_rel.tar")}
BAG = "/metacat/d1/mn/v2/packages/application%2Fbagit-097/resource_map_doi%3A10.18739%2F"
HTTP.update({m: ("arcticdata.io", BAG + d) for m, d in (("AODTM-5", "A2901ZG3N"), ("AOTIM-5", "A2S17SS80"), ("AOTIM-5-2018", "A21R6N14K"), ("Arc2kmTM", "A2D21RK6K"), ("Gr1kmTM", "A2B853K18"))})
FTP = {"fes1999-readme": "fes1999_fes2004/readme_fes1999.html", "fes1999": "fes1999_fes2004/fes1999.tar.gz", "fes2004-readme": "fes1999_fes2004/readme_fes2004.html", "fes2004": "fes1999_fes2004/fes2004.tar.gz",
       "fes2012-readme": "fes2012_heights/readme_fes2012_heights_v1.1", "fes2012": "fes2012_heights/fes2012_heights_v1.1.tar.lzma", "fes2012-creadme": "fes2012_currents/readme_fes2012_currents_v1.1",
       **{f"fes2012-currents{k}": f"fes2012_currents/fes2012_currents_v1.1_block{k}.tar.lzma" for k in (1, 2, 3, 4)},
       "fes2014-readme": "fes2014_elevations_and_load/readme_fes2014_elevation_and_load_v1.2.txt", "fes2014": "fes2014_elevations_and_load/fes2014b_elevations/ocean_tide.tar.xz",
       "fes2014-load": "fes2014_elevations_and_load/fes2014a_loadtide/load_tide.tar.xz", "fes2014-creadme": "fes2014a_currents/readme_fes2014_currents_v1.2.txt",
       "fes2014-east": "fes2014a_currents/eastward_velocity.tar.xz", "fes2014-north": "fes2014a_currents/northward_velocity.tar.xz",
       "fes2022": "fes2022b/ocean_tide_20241025/", "fes2022-load": "fes2022b/load_tide/", "fes2022-extrapolated": "fes2022b/ocean_tide_extrapolated/"}
GOT = ["GOT4.8", "GOT4.10", "GOT5.5", "GOT5.5D", "GOT5.6", "RE14"]
ARCTIC = ["AODTM-5", "AOTIM-5", "AOTIM-5-2018", "Arc2kmTM", "Gr1kmTM"]
FES = ["FES1999", "FES2004", "FES2012", "FES2014", "FES2022"]
SCRIPTS = dict(got="gsfc_got_tides", arctic="arcticdata_tides", aviso="aviso_fes_tides", box="verify_box_tpxo")


class Net:
    """hosts of the web and of AVISO, on the loopback"""
    def __init__(self):
        self.http, self.ftp, self.fault, self.login, self.logins, self.seen = {}, {}, None, None, [], []
        self.socks = []
        self.ports = []
        for fn in (self.serve_http, self.serve_ftp):
            s = socket.socket(); s.bind(("127.0.0.1", 0)); s.listen(64)
            self.socks.append(s); self.ports.append(s.getsockname()[1])
            threading.Thread(target=self.accept, args=(s, fn), daemon=True).start()

    def accept(self, s, fn):
        while True:
            try:
                k, _ = s.accept()
            except OSError:
                return
            threading.Thread(target=self.one, args=(fn, k), daemon=True).start()

    def one(self, fn, k):
        try:
            fn(k)
        except (OSError, IndexError, ValueError):
            pass
        finally:
            k.close()

    def serve_http(self, s):
        f = s.makefile("rb")
        line = f.readline().decode().split()
        head = {}
        while True:
            x = f.readline().decode().strip()
            if not x:
                break
            a, _, b = x.partition(":")
            head[a.lower()] = b.strip()
        host, path = head["host"].split(":")[0], line[1]
        self.seen.append((host, path, head.get("authorization", "")))
        how, at = self.fault or ("", None)
        reply = lambda st, b=b"": s.sendall(f"HTTP/1.1 {st} X\r\nContent-Length: {len(b)}\r\nConnection: close\r\n\r\n".encode() + b)
        if how == "offline" and path in ("/", ""):
            return reply(503)
        if path in ("/", ""):
            return reply(200, b"<html></html>")
        body = self.http.get((host, path))
        if body is None or (how == "missing" and at == (host, path)):
            return reply(404, b"<html>no such file</html>")
        if how == "cut" and at == (host, path):
            return s.sendall(f"HTTP/1.1 200 OK\r\nContent-Length: {len(body)}\r\n\r\n".encode() + body[:max(0, len(body) - 700)])
        reply(200, body)

    def serve_ftp(self, s):
        f = s.makefile("rb")
        say = lambda t: s.sendall((t + "\r\n").encode())
        how, at = self.fault or ("", None)
        if how == "offline":
            return say("421 too many")
        say("220 ready")
        user, data = "", None
        while True:
            line = f.readline().decode().strip()
            if not line:
                return
            cmd, _, arg = line.partition(" ")
            cmd = cmd.upper()
            if cmd == "USER":
                user = arg; say("331 password")
            elif cmd == "PASS":
                self.logins.append((user, arg))
                say("230 in" if (user, arg) == self.login else "530 no")
            elif cmd in ("EPSV", "PASV"):
                data = socket.socket(); data.bind(("127.0.0.1", 0)); data.listen(1)
                p = data.getsockname()[1]
                say(f"229 Entering ({'|||%d|' % p})" if cmd == "EPSV" else f"227 Entering (127,0,0,1,{p >> 8},{p & 255})")
            elif cmd == "RETR":
                x = self.ftp.get(arg)
                if x is None or (how == "missing" and arg.startswith(at)):
                    say("550 no such file"); data.close(); continue
                say("150 here")
                k, _ = data.accept()
                if how == "cut" and arg.startswith(at):
                    k.sendall(x[0][:max(0, len(x[0]) - 700)]); k.close(); say("426 broken")
                else:
                    k.sendall(x[0]); k.close(); say("226 done")
                data.close()
            elif cmd == "NLST":
                rows = [p for p in self.ftp if posixpath.dirname(p) == arg.rstrip("/")]
                say("150 here")
                k, _ = data.accept()
                k.sendall("".join(r + "\r\n" for r in rows).encode()); k.close(); data.close(); say("226 done")
            elif cmd == "MDTM":
                x = self.ftp.get(arg)
                if x is None or (how == "missing" and arg.startswith(at)):
                    say("550 no such file")
                else:
                    say("213 " + time.strftime("%Y%m%d%H%M%S", time.gmtime(x[1])))
            elif cmd == "QUIT":
                say("221 bye"); return
            else:
                say("200 ok")

    @contextlib.contextmanager
    def connected(self):
        """all connections end at the loopback"""
        net = self
        real_http, real_ftp = http.client.HTTPSConnection.connect, ftplib.FTP.connect
        def connect(conn):
            conn.sock = socket.create_connection(("127.0.0.1", net.ports[0]), 30)
        def fconnect(ftp, host="", port=0, timeout=-999, source_address=None):
            r = real_ftp(ftp, "127.0.0.1", net.ports[1], 30)
            ftp.host = host or ftp.host
            if host != "ftp-access.aviso.altimetry.fr":
                raise OSError(f"no such host {host}")
            return r
        http.client.HTTPSConnection.connect, ftplib.FTP.connect = connect, fconnect
        try:
            yield
        finally:
            http.client.HTTPSConnection.connect, ftplib.FTP.connect = real_http, real_ftp
            urllib.request.install_opener(None)

    def stop(self):
        for s in self.socks:
            s.close()


def program(name):
    f = pathlib.Path(os.environ.get("VERIF_REPO", "/repo")) / "scripts" / f"{SCRIPTS[name]}.py"
    spec = importlib.util.spec_from_file_location(f"fetch_{name}", f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


@contextlib.contextmanager
def settings(**k):
    """environment variables, None to have none"""
    old = {n: os.environ.get(n) for n in k}
    for n, v in k.items():
        os.environ.pop(n, None) if v is None else os.environ.__setitem__(n, v)
    try:
        yield
    finally:
        for n, v in old.items():
            os.environ.pop(n, None) if v is None else os.environ.__setitem__(n, v)


def invoke(mod, argv, home, prompts=None, env=None):
    """a program with its arguments, as a process of its own would run it"""
    def go():
        logging.getLogger(mod.__name__).handlers.clear()
        old = sys.argv, builtins.input, getpass.getpass
        def ask(*a):
            if prompts is None:
                raise EOFError("nobody there")
            return prompts[0]
        def secret(*a, **k):
            if prompts is None:
                raise EOFError("nobody there")
            return prompts[1]
        sys.argv = ["prog"] + [str(a) for a in argv]
        builtins.input, getpass.getpass = ask, secret
        err = io.StringIO()
        try:
            with settings(HOME=str(home), **(env or {})), contextlib.redirect_stderr(err):
                mod.main()
        except SystemExit as e:
            if e.code not in (0, None):
                raise RuntimeError("usage " + err.getvalue()[-200:]) from None
        finally:
            sys.argv, builtins.input, getpass.getpass = old
            logging.getLogger(mod.__name__).handlers.clear()
    return call(go, _t=120)


DB = M.database


class User:
    def __init__(self, ctx, net, mods, j, prog):
        self.ctx, self.net, self.mods, self.rng, self.prog = ctx, net, mods, ctx.rng, prog
        rng = self.rng
        self.d = ctx.scratch / f"m{j}"
        self.home = self.d / "home"
        self.home.mkdir(parents=True)
        self.root = self.home / ["data", "deep/er/data", "a b"][int(rng.integers(3))]
        if rng.random() < 0.5:
            self.root.mkdir(parents=True)
        self.contents = {}
        self.db = DB()
        if prog == "got":
            self.models = [str(x) for x in rng.choice(GOT, size=int(rng.integers(1, 3)), replace=False)]
            # the archives of GOT5.x hold the same directories
            if sum(m.startswith("GOT5") for m in self.models) > 1:
                self.models = self.models[:1]
        elif prog == "arctic":
            self.models = [str(x) for x in rng.choice(ARCTIC, size=int(rng.integers(1, 3)), replace=False)]
        else:
            self.models = [str(x) for x in rng.choice(FES, size=int(rng.integers(1, 3)), replace=False, p=[0.1, 0.1, 0.2, 0.3, 0.3])]
        self.products = {}
        for m in self.models:
            for pid, mem in self.make(m).items():
                self.products[pid] = mem
        self.names = {x["path"][-1] for v in self.products.values() for x in v}
        self.login = ("me@" + str(int(rng.integers(99))), "pass word"[:int(rng.integers(4, 10))].replace(" ", "_"))
        self.dirform = int(rng.integers(3))

    def entries(self, kind, name, n, which=None):
        """paths of the registry's files of a model"""
        e = self.db[kind].get(name)
        if e is None:
            return []
        mf = e["model_file"]
        if isinstance(mf, dict):
            mf = mf[which or "u"]
        mf = [mf] if isinstance(mf, str) else list(mf)
        pick = [mf[int(i)] for i in self.rng.choice(len(mf), size=min(n, len(mf)), replace=False)]
        return pick + ([e["grid_file"]] if e.get("grid_file") else [])

    def member(self, path, cls="model", big=None):
        path = list(path)
        big = bool(self.rng.random() < 0.35) if big is None else big
        m = dict(path=path, sfx=posixpath.splitext(path[-1])[1], cls=cls, v=0, t=int(self.rng.integers(10 ** 6, 10 ** 8)), big=big)
        self.renew(m)
        return m

    def renew(self, m):
        self.v = getattr(self, "v", 0) + 1
        m["v"] = self.v
        n = int(self.rng.integers(60000, 90000)) if m["big"] else int(self.rng.choice([0, 1, 300, 2500])) + 8
        b = self.rng.bytes(n)
        self.contents[b] = self.v
        m["bytes"] = b

    def make(self, model):
        rng = self.rng
        out = {}
        db = lambda *a, **k: [p.split("/") for p in self.entries(*a, **k)]
        if self.prog == "got":
            paths = db("elevation", model, 3) + db("elevation", f"{model}_load", 1)
            twin = [p[:-1] + [posixpath.splitext(p[-1])[0] + (".d" if p[-1].endswith(".nc") else ".nc")] for p in paths[:2]]
            mem = [self.member(p) for p in paths + twin]
            top = paths[0][0]
            mem += [self.member([top, n], "other", False) for n in rng.choice(["README.txt", "a_notes.txt", "ADS_list.txt", "Makefile", "x_DS_Store.txt"], size=2, replace=False)]
            mem += [self.member(p, "hidden", False) for p in ([top, ".DS_Store"], paths[0][:-1] + ["._" + paths[0][-1]])]
            out[model] = mem
        elif self.prog == "arctic":
            paths = [p for p in db("elevation", model, 3) + db("current", model, 3)]
            names = sorted({p[-1] for p in paths})
            mem = [self.member(["data", n]) for n in names] + [self.member(["data", f"{c}_{model}"], big=False) for c in ("Model", "xy_ll")]
            mem += [self.member(p, "other", False) for p in (["bagit.txt"], ["manifest-md5.txt"], ["metadata", "science-metadata.xml"])]
            out[model] = mem
        elif model == "FES2014":
            for pid, a in (("fes2014", ("elevation", "FES2014", 3)), ("fes2014-load", ("elevation", "FES2014_load", 2)), ("fes2014-east", ("current", "FES2014", 2, "u")), ("fes2014-north", ("current", "FES2014", 2, "v"))):
                out[pid] = [self.member(p[1:]) for p in db(*a)]
            out["fes2014"].append(self.member(["ocean_tide", "readme.txt"], "other", False))
        elif model == "FES2022":
            for pid, name in (("fes2022", "FES2022"), ("fes2022-load", "FES2022_load"), ("fes2022-extrapolated", "FES2022_extrapolated")):
                out[pid] = [self.member(p[2:]) for p in db("elevation", name, 3)]
            out["fes2022"].append(self.member(["readme.txt"], "other", False))
            # a file that is not compressed
            out["fes2022-load"].append(dict(self.member(["extra_fes2022.nc"]), plain=True))
        elif model == "FES2012":
            out["fes2012"] = [self.member(["FES2012", "data", f"{c}_FES2012_SLEV.nc"]) for c in ("M2", "K1")]
            for k, c in zip((1, 2, 3, 4), ("M2", "S2", "K1", "O1")):
                out[f"fes2012-currents{k}"] = [self.member(["currents", f"{c}_FES2012_UV.nc"])]
        else:
            n = model.lower()
            out[n] = [self.member([n, "asc", f"{c}_{n}.asc"]) for c in ("M2", "K1")] + [self.member([n, "src", "prog.f"], "other", False)]
        for pid, f in FTP.items():
            if "readme" in pid and pid.split("-")[0] in [p.split("-")[0] for p in out]:
                out[pid] = [self.member([posixpath.basename(f)], "other", bool(rng.random() < 0.3))]
        return out

    def put_evil(self):
        """a member that leads out of the directory"""
        tars = [p for p in self.products if p in GOT or p in ("fes2014", "fes2014-load")]
        if not tars:
            return
        p = tars[int(self.rng.integers(len(tars)))]
        up = [".."] * (1 + int(self.rng.integers(2))) + (["x"] if self.rng.random() < 0.4 else [])
        path = [["q"] + [".."] + up + ["evil.nc"], up + ["evil.nc"], list((self.d / "abs" / "evil.nc").parts)][int(self.rng.integers(3))]
        if p.startswith("fes"):
            path = [".."] + path if path[0] != "/" else path
        m = self.member(path, "outside", False)
        self.products[p].insert(int(self.rng.integers(len(self.products[p]) + 1)), m)

    # -- the server -----------------------------------------------------------
    def tar(self, pid, mode):
        f = io.BytesIO()
        with tarfile.open(fileobj=f, mode=mode, format=[tarfile.GNU_FORMAT, tarfile.PAX_FORMAT, tarfile.USTAR_FORMAT][int(self.rng.integers(3))], **(dict(preset=1) if mode == "w:xz" else {})) as t:
            dirs = set()
            for m in self.products[pid]:
                d = "/".join(m["path"][:-1])
                if d and d not in dirs and self.rng.random() < 0.5:
                    dirs.add(d)
                    i = tarfile.TarInfo(d); i.type = tarfile.DIRTYPE; i.mode = 0o755
                    t.addfile(i)
                i = tarfile.TarInfo(posixpath.join(*m["path"])); i.size = len(m["bytes"]); i.mtime = EPOCH + m["t"]
                t.addfile(i, io.BytesIO(m["bytes"]))
        return f.getvalue()

    def zip(self, pid):
        f = io.BytesIO()
        with zipfile.ZipFile(f, "w") as z:
            if self.rng.random() < 0.5:
                z.writestr("data/", "")
            if self.rng.random() < 0.3:
                z.writestr("Model_files/", "")
            for m in self.products[pid]:
                z.writestr("/".join(m["path"]), m["bytes"], compress_type=[zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED][int(self.rng.integers(2))])
        return f.getvalue()

    def serve(self):
        self.net.http, self.net.ftp = {}, {}
        for pid, mem in self.products.items():
            if pid in HTTP:
                self.net.http[HTTP[pid]] = self.zip(pid) if self.prog == "arctic" else self.tar(pid, "w" if pid == "RE14" else "w:gz")
            elif FTP[pid].endswith("/"):
                for m in mem:
                    x = m.get("plain") or m["cls"] == "other"
                    self.net.ftp[AVISO + FTP[pid] + m["path"][-1] + ("" if x else ".xz")] = (m["bytes"] if x else lzma.compress(m["bytes"], preset=0), EPOCH + m["t"])
            elif "readme" in pid:
                self.net.ftp[AVISO + FTP[pid]] = (mem[0]["bytes"], EPOCH + mem[0]["t"])
            else:
                self.net.ftp[AVISO + FTP[pid]] = (self.tar(pid, "w:gz" if FTP[pid].endswith(".gz") else "w:xz"), EPOCH)
        return dict(kind="publish", status="ok", products=[dict(id=p, members=[{k: m[k] for k in ("path", "sfx", "cls", "v", "t", "big")} for m in mem]) for p, mem in self.products.items()])

    def publish(self):
        ps = [p for p in self.products if any(m["cls"] in ("model", "other") for m in self.products[p])]
        for _ in range(int(self.rng.integers(1, 4))):
            p = ps[int(self.rng.integers(len(ps)))]
            mem = [m for m in self.products[p] if m["cls"] in ("model", "other")]
            m = mem[int(self.rng.integers(len(mem)))]
            self.renew(m)
            m["t"] += int(self.rng.choice([1, 2, 3, 1000, -1, -2, -1000]))
        return self.serve()

    # -- the user's files -----------------------------------------------------
    def look(self):
        files, others = [], 0
        if self.root.exists():
            for p in sorted(x for x in self.root.rglob("*") if x.is_file()):
                if p.suffix == ".log":
                    continue
                rel = list(p.relative_to(self.root).parts)
                name = rel[-1]
                if name not in self.names and not (name.endswith(".gz") and name[:-3] in self.names):
                    others += 1
                    continue
                b = p.read_bytes()
                if name.endswith(".gz"):
                    try:
                        b = gzip.decompress(b)
                    except (OSError, EOFError):
                        b = None
                st = p.stat()
                t = st.st_mtime - EPOCH
                files.append(dict(path=rel, v=self.contents.get(b, -1), t=int(np.floor(t)), mode=st.st_mode & 0o777))
        return files, others

    def outside(self):
        return sorted(str(p) for p in self.d.rglob("*") if p.is_file() and not p.is_relative_to(self.root) and p.name != ".netrc" and p.name != "net.rc")

    def edit(self):
        files, _ = self.look()
        if not files:
            return None
        for _ in range(int(self.rng.integers(1, 3))):
            f = files[int(self.rng.integers(len(files)))]
            p = self.root.joinpath(*f["path"])
            if self.rng.random() < 0.3:
                p.unlink(missing_ok=True)
                continue
            if not p.exists():
                continue
            if self.rng.random() < 0.7:
                b = self.rng.bytes(20)
                self.v += 1
                self.contents[b] = self.v
                p.write_bytes(gzip.compress(b) if p.name.endswith(".gz") else b)
            base = [m["t"] for v in self.products.values() for m in v if m["path"][-1] == p.name.removesuffix(".gz") or m["path"][-1] == p.name]
            t = EPOCH + base[0] + int(self.rng.choice([0, 1, -1, 2, -2, -500, 500]))
            os.utime(p, (t, t))
        return dict(kind="edit", status="ok", files=self.look()[0])

    # -- a run ----------------------------------------------------------------
    def run(self, op, key):
        rng, net, prog = self.rng, self.net, self.prog
        models = [m for m in self.models if rng.random() < 0.75] or self.models[:1]
        load, currents, extra = op["load"], bool(rng.random() < 0.5), bool(rng.random() < 0.5)
        fmt = ["netcdf", "ascii"][int(rng.integers(2))]
        gz = op["gzip"] and prog != "arctic"
        fault, at = op["fault"], ""
        if fault == "full" and rng.random() < 0.4:
            fault = "killed"
        if fault == "offline" and prog == "aviso" and rng.random() < 0.5:
            fault = "login"
        ids = list(self.products)
        if fault in ("missing", "cut"):
            mine = [p for p in ids if p in models or any(m.lower() in p for m in models)]
            at = mine[int(rng.integers(len(mine)))]
        mode = int(rng.choice([0o775, 0o664, 0o640]))
        argv = ["--directory", [self.root, "~/" + str(self.root.relative_to(self.home)), os.path.relpath(self.root)][self.dirform], ["--tide", "-T"][int(rng.integers(2))], *models, ["--mode", "-M"][int(rng.integers(2))], f"{mode:o}"]
        env, prompts, login, logged = {}, None, "none", False
        net.login = self.login
        rc = self.home / ".netrc"
        rc.unlink(missing_ok=True)
        if prog == "got":
            argv += ["--format", fmt] if rng.random() < 0.7 or fmt == "ascii" else []
        if gz:
            argv += [["--gzip", "-G"][int(rng.integers(2))]]
        if rng.random() < 0.3:
            argv += ["--timeout", "60"]
        if prog == "aviso":
            argv += ["--load"] * load + ["--currents"] * currents + ["--extrapolated"] * extra
            u, w = self.login if fault != "login" else (self.login[0], "wrong")
            how = int(rng.integers(6))
            if how == 0:
                argv += ["--user", u, "--password", w]
            elif how == 1:
                rc.write_text(f"machine ftp-access.aviso.altimetry.fr login {u} password {w}\n"); rc.chmod(0o600)
            elif how == 2:
                f = self.d / "net.rc"
                f.write_text(f"machine urs.earthdata.nasa.gov login x password y\nmachine ftp-access.aviso.altimetry.fr login {u} password {w}\n"); f.chmod(0o600)
                argv += ["--netrc", f]
            elif how == 3:
                prompts = (u, w)
            elif how == 4:
                env = dict(AVISO_USERNAME=u, AVISO_PASSWORD=w)
            else:
                # a file with entries of other hosts
                rc.write_text("machine urs.earthdata.nasa.gov login x password y\n"); rc.chmod(0o600)
                argv += ["--user", u, "--password", w]
            env = dict(dict(AVISO_USERNAME=None, AVISO_PASSWORD=None), **env)
            if rng.random() < 0.3:
                argv += ["--log"]; logged = True
        where = {p: HTTP[p] if p in HTTP else AVISO + FTP[p] for p in ids}
        net.fault = (fault, where.get(at)) if fault in ("missing", "cut", "offline") else None
        net.logins = []
        before, others0 = self.look()
        had = {tuple(f["path"]): (f["v"], f["t"]) for f in before}
        out0 = set(self.outside())
        for p in (self.root.glob("*.log") if self.root.exists() else ()):
            p.unlink()
        mod = self.mods[prog]
        t0 = int(time.time()) - EPOCH
        go = lambda: invoke(mod, argv, self.home, prompts, env)
        with net.connected():
            o = killed(LIMIT, go) if fault == "killed" else within(LIMIT, go) if fault == "full" else go()
        t1 = int(time.time()) - EPOCH + 1
        net.fault = None
        files, others = self.look()
        others = max(0, others - others0)
        if logged and o.ok:
            texts = [p.read_text(errors="replace") for p in self.root.glob("*.log")]
            modes = [p.stat().st_mode & 0o777 for p in self.root.glob("*.log")]
            new = [f for f in files if had.get(tuple(f["path"])) != (f["v"], f["t"])]
            fine = len(texts) == 1 and "\0" not in texts[0] and all("/".join(f["path"]) in texts[0] for f in new) and modes == [mode] and all(m in texts[0] for m in models)
            logged = "ok" if fine else "wrong"
        else:
            logged = "none"
        lost = []
        if o.ok:
            lost = self.registry(models, load, currents, extra, gz, fmt)
        if prog == "aviso" and fault not in ("offline", "killed"):
            login = "ok" if net.logins and all((x == self.login) == (fault != "login") for x in net.logins) else "wrong"
        # a member with a bad path in something asked for
        evil = any(m["cls"] == "outside" for v in self.products.values() for m in v)
        return dict(kind="run", status=o.err or "ok", msg=o.msg, prog=prog, models=models, format=fmt, gzip=gz, load=load, currents=currents, extrapolated=extra, fault=fault, at=at, mode=mode,
                    files=files, others=others, outside=len(set(self.outside()) - out0), lost=lost, login=login, log=logged, evil=evil, now=[t0, t1],
                    key=f"{prog}|{'+'.join(models)}|{fmt}|gz{gz}|{fault}@{at}|load{load}|cur{currents}|{o.err}|{key}")

    def registry(self, models, load, currents, extra, gz, fmt):
        """files that were fetched and are not where the registry looks for them"""
        import pyTMD.io
        ask = []
        for m in models:
            if m in ARCTIC:
                ask += [("elevation", m, m), ("current", m, m)]
            elif m in GOT:
                ask += [("elevation", m, m), ("elevation", f"{m}_load", m)]
            elif m == "FES2014":
                ask += [("elevation", "FES2014", "fes2014")] + [("elevation", "FES2014_load", "fes2014-load")] * load + [("current", "FES2014", "fes2014-east"), ("current", "FES2014", "fes2014-north")] * currents
            elif m == "FES2022":
                ask += [("elevation", "FES2022", "fes2022")] + [("elevation", "FES2022_load", "fes2022-load")] * load + [("elevation", "FES2022_extrapolated", "fes2022-extrapolated")] * extra
        out = []
        for kind, name, pid in ask:
            if name not in self.db[kind]:
                continue
            e = self.db[kind][name]
            f = e["model_file"]
            first = (list(f.values())[0] if isinstance(f, dict) else f)
            first = first if isinstance(first, str) else first[0]
            if pid in GOT and (first.endswith(".d")) != (fmt == "ascii"):
                continue
            o = call(lambda: getattr(pyTMD.io.model(directory=self.root, compressed=gz, verify=False), kind)(name))
            if not o.ok:
                out.append(f"{name}: {o.err}")
                continue
            mf = o.value.model_file
            mf = sum([v if isinstance(v, list) else [v] for v in mf.values()], []) if isinstance(mf, dict) else mf if isinstance(mf, list) else [mf]
            mf = list(mf) + ([o.value.grid_file] if getattr(o.value, "grid_file", None) else [])
            got = {m["path"][-1]: m for m in self.products[pid]}
            # directories of the same names of other products
            tail = lambda p: p.name.removesuffix(".gz")
            for p in map(pathlib.Path, mf):
                m = got.get(tail(p))
                if m is None or not (pid in ARCTIC or pid.startswith("fes2022") or p.parent.name == m["path"][-2]):
                    continue
                if not p.exists():
                    out.append(f"{name}: {p.relative_to(self.root)}")
        return out


def verifications(ctx, net, mods, recs):
    """checksums of a folder of files"""
    rng = ctx.rng
    db = DB()["elevation"]
    names = sorted(n for n, e in db.items() if n.startswith("TPXO9-atlas") and isinstance(e["model_file"], list) and not e["model_file"][0].endswith(".nc"))
    names += sorted(n for n, e in db.items() if n.startswith("TPXO") and isinstance(e["model_file"], list) and e["model_file"][0].endswith(".nc"))[:2]
    for j in range(40 if ctx.thorough else 14):
        d = ctx.scratch / f"box{j}"
        d.mkdir()
        name = str(rng.choice(names))
        e = db[name]
        paths = [d / p for p in e["model_file"]] + [d / e["grid_file"]]
        gz = False
        here = paths[0].parent
        paths += [here / f"u_{c}.bin" for c in ("m2", "k1")] + [here / "README.txt", here / "v_other.bin"]
        here.mkdir(parents=True)
        entries, local = [], []
        v = 0
        net.http = {}
        items = []
        mode = int(rng.choice([0o775, 0o640]))
        currents = bool(rng.random() < 0.5)
        fault = ["", "", "", "offline", "missing"][int(rng.integers(5))]
        wrong = int(rng.integers(len(paths))) if rng.random() < 0.5 else -1
        folder = str(int(rng.integers(10 ** 6)))
        token = "T" + str(int(rng.integers(10 ** 9)))
        contents = {}
        for k, p in enumerate(paths):
            p.parent.mkdir(parents=True, exist_ok=True)
            b = rng.bytes(int(rng.choice([5, 4000, 40000])))
            v += 1
            contents[b] = v
            t = int(rng.integers(10 ** 6, 10 ** 8))
            remote = v
            sha = hashlib.sha1(b).hexdigest()
            if k == wrong:
                # one byte
                x = bytearray(b); x[int(rng.integers(len(x)))] ^= 1 << int(rng.integers(8)); b = bytes(x)
                v += 1
                contents[b] = v
            p.write_bytes(b)
            os.utime(p, (EPOCH + 5, EPOCH + 5 + k))
            p.chmod(0o600)
            off = int(rng.choice([-28800, -25200, 0, 3600, 19800]))
            stamp = time.strftime("%Y-%m-%dT%H:%M:%S", time.gmtime(EPOCH + t + off)) + f"{'-' if off < 0 else '+'}{abs(off) // 3600:02d}:{abs(off) % 3600 // 60:02d}"
            fid = str(1000 + k)
            items.append(dict(type="file", id=fid, name=p.name, sha1=sha, etag="0"))
            net.http["api.box.com", f"/2.0/files/{fid}"] = json.dumps(dict(type="file", id=fid, name=p.name, modified_at=stamp, sha1=sha)).encode()
            entries.append(dict(name=p.name, cls=next((c for c in ("grid", "h", "u") if p.name.startswith(c)), "other"), v=remote, t=t))
        items.insert(int(rng.integers(len(items))), dict(type="folder", id="77", name="h_folder"))
        order = rng.permutation(len(items))
        net.http["api.box.com", f"/2.0/folders/{folder}/items"] = json.dumps(dict(total_count=len(items), entries=[items[int(i)] for i in order])).encode()
        look = lambda: [contents.get(p.read_bytes(), -1) for p in paths]
        times = lambda: [int(p.stat().st_mtime) - EPOCH for p in paths]
        before, tb = look(), times()
        net.seen = []
        net.fault = ("offline", None) if fault == "offline" else ("missing", ("api.box.com", f"/2.0/folders/{folder}/items")) if fault == "missing" else None
        argv = ["-D", d, "--token", token, "--folder", folder, "-T", name, "-M", f"{mode:o}"] + ["--currents"] * currents
        with net.connected():
            o = invoke(mods["box"], argv, d)
        net.fault = None
        api = [a for h, p, a in net.seen if h == "api.box.com"]
        recs.append(dict(kind="verify", status=o.err or "ok", msg=o.msg, currents=currents, fault=fault, entries=entries, before=before, after=look(), times=times(), timesbefore=tb,
                         modes=[p.stat().st_mode & 0o777 for p in paths], mode=mode, token=all(a == f"Bearer {token}" for a in api) and all(not a for h, p, a in net.seen if h != "api.box.com"),
                         key=f"verify|{name}|{currents}|{fault}|{'' if wrong < 0 else paths[wrong].name}|{o.err}"))


def main(ctx):
    import pyTMD.utilities
    import pyTMD.io
    ctx.model("MirrorMC", CFG % ("PROPERTIES Ends\n", "right", "FALSE", 2), name="runs with faults")
    if ctx.thorough:
        ctx.model("MirrorMC", CFG % ("", "right", "FALSE", 3), name="three steps")
    for d in ("in place", "no stamp", "no gate", "gate on existence", "gate on seconds", "gate reversed", "gate on the plain name", "pairs run out", "outside too"):
        ctx.refute("MirrorMC", CFG % ("", d, "FALSE", 3), name=d)
    n = 5
    cases = ctx.model("MirrorMC", CFG % ("", "right", "TRUE", n), name="histories", simulate=(900 if ctx.thorough else 130, 120))
    if not cases:
        raise MachineryError("no histories")
    k = 2500 if ctx.thorough else 190
    cases = [cases[int(i)] for i in ctx.rng.permutation(len(cases))[:k]]
    net = Net()
    mods = {p: program(p) for p in SCRIPTS}
    recs = []
    old = os.umask(0o022)
    try:
        for j, c in enumerate(cases):
            prog = ["aviso", "got", "aviso", "arctic", "aviso", "got"][j % 6]
            u = User(ctx, net, mods, j, prog)
            if ctx.rng.random() < 0.12:
                u.put_evil()
            recs.append(dict(kind="begin", status="ok", key=f"{j}"))
            recs.append(dict(u.serve(), key=f"{j}"))
            for k, op in enumerate(c["hist"]):
                if op["f"] == "run":
                    recs.append(u.run(op, f"{j}.{k}"))
                else:
                    r = u.publish() if op["f"] == "publish" else u.edit()
                    if r:
                        recs.append(dict(r, key=f"{j}.{k}"))
            import shutil
            shutil.rmtree(u.d)
        verifications(ctx, net, mods, recs)
    finally:
        os.umask(old)
        net.stop()
    mem = dict(path=["a.nc"], sfx=".nc", cls="model", v=1, t=100, big=True)
    tail = [dict(kind="begin", status="ok", key="canary"), dict(kind="publish", status="ok", key="canary", products=[dict(id="GOT5.5", members=[mem, dict(mem, path=["b.d"], sfx=".d")])])]
    base = next(r for r in recs if r["kind"] == "run")
    base = dict(base, prog="got", models=["GOT5.5"], format="netcdf", gzip=False, fault="", at="", mode=1, evil=False, status="ok", lost=[], login="none", log="none", outside=0, others=0, key="canary")
    f = lambda *a: dict(path=[a[0]], v=a[1], t=a[2], mode=1)
    can = [dict(base, files=x, **k) for x, k in (([], {}), ([f("a.nc", -1, 100)], {}), ([f("a.nc", 1, 101)], {}), ([f("a.nc", 1, 100), f("b.d", 1, 100)], {}), ([f("a.nc", 1, 100)], dict(fault="offline")),
                                                  ([f("a.nc", 1, 100)], dict(outside=1)))]
    can = [y for x in can for y in (x,)]
    v = next(r for r in recs if r["kind"] == "verify")
    can += [dict(v, fault="", status="ok", before=[0] * len(v["before"])), dict(v, token=False)]
    ctx.validate("MirrorTrace", recs + tail, canaries=can)
