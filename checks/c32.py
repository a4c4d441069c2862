"""C32: logging in to a data centre"""
import base64
import builtins
import getpass
import http.server
import json
import os
import threading
import urllib.parse
import urllib.request
import numpy as np
from vlib import *

CFG = "SPECIFICATION Spec\nINVARIANTS FirstIsGiven Few Fresh Used Ends SameAsLaw Emit\n%sCHECK_DEADLOCK FALSE\nCONSTANTS\n Design = \"%s\"\n EmitOn = %s\n MaxN = %d\n"


class Centre:
    """a centre that asks for credentials, on the loopback network"""
    def __init__(self):
        centre = self
        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.0"
            def answer(self):
                a = self.headers.get("Authorization")
                pair = base64.b64decode(a.split(None, 1)[1]).decode().split(":", 1) if a and a.startswith("Basic ") else None
                u = urllib.parse.urlsplit(self.path)
                if u.path != "/archive":
                    centre.requests.append((self.command, self.path))
                    centre.auth.append(pair)
                    if centre.fault:
                        return self.reply(centre.fault, b"{}")
                    return self.reply(200, json.dumps(centre.body).encode())
                if pair is None:
                    return self.reply(401, b"", {"WWW-Authenticate": 'Basic realm="centre"'})
                centre.seen.append(pair)
                v = centre.verdict(pair)
                self.reply({"yes": 200, "no": 401, "down": 503}[v], b"ok", {"WWW-Authenticate": 'Basic realm="centre"'} if v == "no" else {})
            do_GET = do_POST = answer
            def reply(self, code, body, head={}):
                self.send_response(code)
                for k, v in head.items():
                    self.send_header(k, v)
                self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                self.wfile.write(body)
            def log_message(self, *a):
                pass
        self.s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.host = f"127.0.0.1:{self.s.server_port}"
        threading.Thread(target=self.s.serve_forever, daemon=True).start()
        self.clear()

    def clear(self):
        self.seen, self.requests, self.auth, self.fault, self.body = [], [], [], 0, {}
        self.verdict = lambda p: "no"


class Session:
    """one login, with stand-ins for the keyboard and for the name of the centre"""
    def __init__(self, ctx, S, case, j):
        self.ctx, self.rng, self.S = ctx, ctx.rng, S
        self.c, self.v = case["c"], case["v"]
        rng = self.rng
        self.home = ctx.scratch / f"h{j}"
        self.home.mkdir()
        self.netrc = self.home / ".netrc"
        self.tok = {}
        self.attempts, self.asks, self.prompts = [], [], True
        c = self.c
        word = lambda: "".join(rng.choice(list("abcdefghijkmnopqrstuvwxyzABC0123456789"), 9))
        self.words = {(k, w): word() + ["", "@x.org", "+"][int(rng.integers(3))] * (k == 0) + ["", "p:w", "&=é"][int(rng.integers(3))] * (k == 1 and w != "N") for k in (0, 1) for w in ["N", "A", "E"] + [str(i) for i in range(1, 9)]}
        self.names = {(k, x): w for (k, w), x in self.words.items()}
        if c["netrc"] != "none":
            host = self.host = S.host
            self.netrc.write_text(dict(entry=f"machine elsewhere.org login x password y\nmachine {host} login {self.words[0, 'N']} password {self.words[1, 'N']}\n",
                                       other=f"machine elsewhere.org login {self.words[0, 'N']}\n  password {self.words[1, 'N']}\n", broken="machine\nlogin login password\n\x00 {")[c["netrc"]])
            self.netrc.chmod([0o644, 0o600, 0o640][int(rng.integers(3))])
        self.env = {k: os.environ.pop(k, None) for k in ("EARTHDATA_USERNAME", "EARTHDATA_PASSWORD", "HOME")}
        os.environ["HOME"] = str(self.home)
        if c["envu"]:
            os.environ["EARTHDATA_USERNAME"] = self.words[0, "E"]
        if c["envp"]:
            os.environ["EARTHDATA_PASSWORD"] = self.words[1, "E"]
        self.kw = {}
        for name, k, how in (("username", 0, c["argu"]), ("password", 1, c["argp"])):
            if how != "absent":
                self.kw[name] = self.words[k, "A"] if how == "value" else None
        self.old = (builtins.input, getpass.getpass, urllib.request.urlopen, urllib.request._opener)
        builtins.input, getpass.getpass, urllib.request.urlopen = self.input, self.getpass, self.urlopen
        S.clear()
        S.verdict = self.verdict

    def close(self):
        builtins.input, getpass.getpass, urllib.request.urlopen, urllib.request._opener = self.old
        for k, v in self.env.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v

    def round(self):
        # the first round comes before the first attempt
        return len(self.attempts) + 1

    def input(self, prompt=""):
        self.asks.append("user")
        self.prompts &= self.S.host in prompt
        if len(self.asks) > 30:
            raise MachineryError("questions without end")
        self.user = self.words[0, str(min(self.round(), 8))]
        return self.user

    def getpass(self, prompt="", stream=None):
        self.asks.append("password")
        self.prompts &= self.S.host in prompt
        return self.words[1, str(min(self.round(), 8))]

    def pair(self, p):
        return [self.names.get((0, p[0]), "?"), self.names.get((1, p[1]), "?")] if p else ["", ""]

    def verdict(self, pair):
        k = len(self.attempts)
        return self.v[k] if k < len(self.v) else "no"

    def urlopen(self, url, *a, **k):
        """requests to the archive reach the centre"""
        req = url if isinstance(url, urllib.request.Request) else urllib.request.Request(url)
        u = urllib.parse.urlsplit(req.full_url)
        if u.hostname == "cddis.nasa.gov":
            new = urllib.request.Request(f"http://{self.S.host}/archive", headers=dict(req.header_items()), method=req.get_method())
            self.S.seen = []
            try:
                return self.old[2](new, *a, **k)
            finally:
                # (an opener with a password manager shows them when asked; again if refused)
                seen = [self.pair(p) for p in self.S.seen] or [["", ""]]
                self.attempts.append(seen[0] if all(s == seen[0] for s in seen) else ["?", "?"])
        if u.netloc != self.S.host:
            raise urllib.error.URLError("no network")
        return self.old[2](req, *a, **k)


def login(ctx, S, case, j, U):
    s = Session(ctx, S, case, j)
    rng = ctx.rng
    try:
        kw = dict(s.kw, retries=s.c["n"])
        if rng.random() < 0.5 or s.c["netrc"] == "none":
            kw["netrc"] = str(s.netrc)
        how = int(rng.integers(3))
        # by password manager, by header, or both
        kw.update(password_manager=how != 1, authorization_header=how != 0)
        if rng.random() < 0.5:
            kw.update(redirect=bool(rng.random() < 0.5), get_ca_certs=bool(rng.random() < 0.5))
        o = call(U.attempt_login, S.host, **kw)
        later = "no"
        sent = list(s.attempts)
        if o.ok:
            # a request of the caller, by the opener and by the module
            s.attempts = []; S.verdict = lambda p: "yes" if s.pair(p) == sent[-1] else "no"
            r = call(o.value.open, f"http://{S.host}/archive")
            r2 = call(urllib.request.urlopen, f"http://{S.host}/archive")
            later = "yes" if r.ok and r2.ok and r.value.status == 200 and r2.value.status == 200 else "no"
        return dict(kind="login", status="ok", c=s.c, v=s.v, sent=sent, asks=s.asks, result="in" if o.ok else o.err, msg=o.msg, prompts=s.prompts, later=later,
                    private=not s.netrc.exists() or (s.netrc.stat().st_mode & 0o077) == 0,
                    key=f"login|{s.c['netrc']}|{s.c['argu']}/{s.c['argp']}|{s.c['envu']}/{s.c['envp']}|{s.c['n']}|{s.v}|{how}")
    finally:
        s.close()


def token(ctx, S, case, j, U):
    case = dict(c=dict(case["c"], n=5), v=list(case["v"][:case["c"]["n"]]) + ["no"] * 6)
    s = Session(ctx, S, case, j)
    rng = ctx.rng
    try:
        what = ["get", "list", "revoke"][int(rng.integers(3))]
        build = bool(rng.random() < 0.75)
        kw = dict(s.kw, build=build, urs=S.host)
        if not build:
            U.build_opener("who", "ever", authorization_header=True, password_manager=False)
        path = dict(get="/api/users/token", list="/api/users/tokens", revoke="/api/users/revoke_token")[what]
        host = f"http://{S.host}{path}"
        S.fault = [0, 0, 0, 403, 500][int(rng.integers(5))]
        S.body = dict(get={"access_token": "t", "token_type": "Bearer"}, list=[{"access_token": "a"}, {"access_token": "b"}], revoke={})[what]
        args = ["eyJ0.tok-en_1"] if what == "revoke" else []
        o = call(dict(get=U.get_token, list=U.list_tokens, revoke=U.revoke_token)[what], *args, HOST=host, **kw)
        want = ("GET " if what == "list" else "POST ") + path + ("?token=eyJ0.tok-en_1" if what == "revoke" else "")
        last = s.attempts[-1] if s.attempts else ["", ""]
        auth = [["who", "ever"] if not build else None]
        return dict(kind="token", status="ok", c=s.c, v=s.v, build=build, sent=s.attempts, asks=s.asks, requests=[" ".join(r) for r in S.requests], want=want, fault=bool(S.fault),
                    authorised=all((p == ["who", "ever"]) if not build else s.pair(p) == last for p in S.auth), result="ok" if o.ok else o.err, msg=o.msg, same=o.value == (None if what == "revoke" else S.body),
                    key=f"token|{what}|{build}|{S.fault}|{s.c['netrc']}|{s.c['argu']}/{s.c['argp']}|{s.c['envu']}/{s.c['envp']}|{s.v}")
    finally:
        s.close()


def main(ctx):
    import pyTMD.utilities as U
    n = 3 if ctx.thorough else 2
    cases = ctx.model("LoginMC", CFG % ("PROPERTIES Terminates\n", "sound", "TRUE", n), name="logins")
    for d in ("environment needs absence", "file last", "any entry", "once more", "asks for nothing", "no prompt", "keeps the password"):
        ctx.refute("LoginMC", CFG % ("", d, "FALSE", 2), name=d)
    S = Centre()
    os.environ["no_proxy"] = "*"
    rng = ctx.rng
    N = 6000 if ctx.thorough else 900
    pick = rng.permutation(len(cases))[:N]
    recs = [login(ctx, S, cases[int(i)], j, U) for j, i in enumerate(pick)]
    recs += [token(ctx, S, cases[int(i)], 100000 + j, U) for j, i in enumerate(rng.permutation(len(cases))[:N // 3])]
    S.s.shutdown()
    can = []
    for k, f in (("login", dict(sent=[["N", "A"]] * 2)), ("login", dict(asks=["user"] * 9)), ("login", dict(result="ok")), ("token", dict(requests=["GET /"])), ("token", dict(authorised=False, v=["yes"] + ["no"] * 7))):
        g = [r for r in recs if r["kind"] == k]
        can.append(dict(g[len(g) // 2], key="canary", **f))
    ctx.validate("LoginTrace", recs, canaries=can, cfg="SPECIFICATION TraceSpec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n")
