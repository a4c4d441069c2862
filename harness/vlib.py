"""Common machinery of the checks: running TLC, replaying, validating, reporting.

Every check has the same three stages (see DESIGN.md):
  model    TLC explores a specification module exhaustively within constants,
           checks its invariants and emits scenarios/behaviours (JSON)
  replay   the scenarios are executed on the real code imported from /repo and
           what was observed is recorded as integers/strings/booleans
  validate TLC evaluates the trace module on the recorded events and names the
           clause each event violates
"""
import os, sys, json, time, re, shutil, signal, tempfile, subprocess, traceback
import pathlib, hashlib, contextlib, math

VERIF = pathlib.Path(__file__).resolve().parents[1]
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
SPEC = VERIF / "spec"
BIG = 900000000          # stands for "not representable": nan/inf/out of range


class MachineryError(Exception):
    pass


class CallTimeout(Exception):
    pass


@contextlib.contextmanager
def limit(seconds):
    def handler(sig, frm):
        raise CallTimeout(f"no answer within {seconds} s")
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def q(x, scale=1):
    """float -> integer on a lattice of 1/scale; BIG when not representable"""
    try:
        v = float(x) * scale
    except Exception:
        return BIG
    if not math.isfinite(v) or abs(v) >= BIG:
        return BIG
    return int(round(v))


def offlat(x, scale, tol=1e-6):
    """is x away from the lattice 1/scale by more than tol lattice steps"""
    v = float(x) * scale
    return (not math.isfinite(v)) or abs(v - round(v)) > tol


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, complex):
        return [o.real, o.imag]
    if o is None or isinstance(o, (str, int, float, bool)):
        return o
    return str(o)


_STAT = re.compile(r"(\d+) states generated, (\d+) distinct states found")
_DEPTH = re.compile(r"depth of the complete state graph search is (\d+)")
_SIM = re.compile(r"(?:The number of states generated|states generated): (\d+)")


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.scratch = pathlib.Path(tempfile.mkdtemp(prefix=f"vp_{pid}_"))
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.models = []
        self.traces = []
        self.assumptions = []
        self.violations = []
        self.known_hit = {}
        self.canaries = [0, 0]
        self.notes = {}
        import numpy as np
        self.rng = np.random.default_rng([self.seed, int(pid[1:])])
        kf = VERIF / "known_findings.json"
        self.known = []
        if kf.exists():
            self.known = [k for k in json.loads(kf.read_text())["findings"]
                          if k["property"] == pid and k["status"] == "known"]
        # reset old replays
        self.repdir = VERIF / "evidence" / "replay"
        self.repdir.mkdir(parents=True, exist_ok=True)
        for f in self.repdir.glob(f"{pid}_*.json"):
            f.unlink()

    # -- TLC ---------------------------------------------------------------
    def _tlc(self, module, cfgtext, env, workers=1, simulate=None, timeout=800,
             extra=()):
        wd = pathlib.Path(tempfile.mkdtemp(prefix="tlc_", dir=self.scratch))
        cfg = wd / "M.cfg"
        cfg.write_text(cfgtext)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in env.items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", f"-Djava.io.tmpdir={wd}", "-cp",
               "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
               "tlc2.TLC", "-noGenerateSpecTE", "-metadir", str(wd / "meta"),
               "-workers", str(workers), "-config", str(cfg)]
        if simulate:
            cmd += ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1]),
                    "-seed", str(self.seed)]
        cmd += list(extra) + [str(SPEC / f"{module}.tla")]
        p = subprocess.run(cmd, cwd=str(wd), env=e, capture_output=True,
                           text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr

    def model(self, module, cfg, name=None, workers=1, simulate=None, timeout=800,
              env=None):
        """explore a specification module; returns emitted scenarios"""
        out = pathlib.Path(tempfile.mktemp(prefix="emit_", dir=self.scratch))
        en = {"OUT": out}
        en.update(env or {})
        t = time.time()
        rc, txt = self._tlc(module, cfg, en, workers, simulate, timeout)
        m = _STAT.findall(txt)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if simulate and not m:
            s = _SIM.findall(txt)
            gen = dist = int(s[-1]) if s else 0
        if rc != 0:
            raise MachineryError(f"TLC on {module} failed (rc {rc}):\n{txt[-4000:]}")
        cases = []
        if out.exists():
            for line in out.read_text().splitlines():
                if line.strip():
                    v = json.loads(line)
                    cases.append(json.loads(v) if isinstance(v, str) else v)
        self.states += dist
        self.transitions += gen
        self.models.append(dict(module=module, name=name or module, distinct_states=dist,
            states_generated=gen, emitted=len(cases), wall_s=round(time.time() - t, 2)))
        return cases

    def refute(self, module, cfg, name=None, timeout=300, env=None):
        """a deliberately wrong design must violate an invariant of its specification"""
        en = {"OUT": pathlib.Path(tempfile.mktemp(prefix="emit_", dir=self.scratch))}
        en.update(env or {})
        t = time.time()
        rc, txt = self._tlc(module, cfg, en, 1, None, timeout)
        self.canaries[0] += 1
        if rc == 12 or "is violated" in txt:
            self.canaries[1] += 1
        else:
            raise MachineryError(f"wrong design of {module} not refuted (rc {rc}):\n{txt[-3000:]}")
        m = _STAT.findall(txt)
        self.models.append(dict(module=module, name=f"refuted: {name or module}", distinct_states=int(m[-1][1]) if m else 0,
            states_generated=int(m[-1][0]) if m else 0, emitted=0, wall_s=round(time.time() - t, 2)))

    def validate(self, module, records, describe=None, cfg=None, name=None, canaries=(),
                 timeout=800, chunk=None, group=None, env=None):
        """validate recorded events against a trace module.
        records: list of dicts (JSON, integers/strings/bools only) with field 'key'.
        canaries: deliberately corrupted records which must be rejected.
        Returns list of (index, clauses)."""
        if not records:
            raise MachineryError(f"no records for {module}")
        cfg = cfg or ("SPECIFICATION TraceSpec\nPOSTCONDITION Consumed\n"
                      "CHECK_DEADLOCK FALSE\n")
        t = time.time()
        allrec = [jsonable(r) for r in records] + [jsonable(c) for c in canaries]
        n = len(records)
        bad = {}
        start = 0
        while start < len(allrec):
            f = pathlib.Path(tempfile.mktemp(prefix="trace_", suffix=".ndjson", dir=self.scratch))
            f.write_text("".join(json.dumps(r) + "\n" for r in allrec[start:]))
            rc, txt = self._tlc(module, cfg, dict(env or {}, TRACE=f), 1, None, timeout)
            for mm in re.finditer(r'^"@BAD (.*)"$', txt, re.M):
                v = json.loads(json.loads('"' + mm.group(1) + '"'))
                bad[start + v["i"] - 1] = sorted(v["bad"])
            m = _STAT.findall(txt)
            if m:
                self.states += int(m[-1][1])
                self.transitions += int(m[-1][0])
            f.unlink()
            if rc == 0:
                break
            # evaluation error on a record: name the record, go on after it
            if "is not a valid" in txt and "Parsing" in txt or "Could not parse" in txt:
                raise MachineryError(txt[-4000:])
            pos = [int(x) for x in re.findall(r"^(?:/\\ )?l = (\d+)", txt, re.M)]
            if not pos:
                raise MachineryError(f"TLC on {module} failed (rc {rc}):\n{txt[-4000:]}")
            i = start + pos[-1] - 1
            if i >= len(allrec):
                raise MachineryError(f"TLC on {module} failed (rc {rc}):\n{txt[-4000:]}")
            reason = re.findall(r"^Error: (.*)$", txt, re.M)
            bad[i] = ["Uninterpretable: " + " ".join(reason)[:300]]
            start = i + 1
            # (enough: the observations are not those of any behaviour)
            if group is not None or len([b for b in bad.values() if b and b[0].startswith("Uninterpretable")]) > 4:
                if not any(k < n for k in bad):
                    raise MachineryError(f"TLC on {module} failed (rc {rc}):\n{txt[-4000:]}")
                break
        self.validated += n
        self.canaries[0] += len(canaries)
        self.canaries[1] += len([i for i in bad if i >= n])
        fails = [(i, c) for i, c in sorted(bad.items()) if i < n]
        self.traces.append(dict(module=module, name=name or module, records=n,
            rejected=len(fails), canaries=len(canaries),
            canaries_rejected=len([i for i in bad if i >= n]),
            wall_s=round(time.time() - t, 2)))
        if len(self.samples) < 6:
            self.samples += [{"validated_event": r} for r in allrec[:2]]
        for i, c in fails:
            self.violation(records[i].get("key", ""), c, records[i],
                           describe(records[i]) if describe else None)
        return fails

    # -- verdicts ------------------------------------------------------------
    def violation(self, key, clauses, record, description=None):
        for k in self.known:
            if re.fullmatch(k["match"], key) and all(
                    re.fullmatch(k.get("clauses", ".*"), c) for c in clauses):
                self.known_hit.setdefault(k["id"], []).append((k["what"], key))
                return
        self.violations.append(dict(key=key, clauses=clauses, record=jsonable(record),
                                    description=jsonable(description)))

    def finish(self):
        wall = time.time() - self.t0
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
            coverage=dict(states=self.states, transitions=self.transitions,
                traces_validated_against_impl=self.validated,
                samples=self.samples[:8] or ["none"], models=self.models,
                trace_checks=self.traces,
                corrupted_traces_rejected=f"{self.canaries[1]}/{self.canaries[0]}",
                **self.notes),
            assumptions=self.assumptions, wall_s=round(wall, 2),
            violations=len(self.violations))
        evd = VERIF / "evidence"
        evd.mkdir(exist_ok=True)
        (evd / f"{self.pid}.json").write_text(json.dumps(jsonable(ev), indent=1) + "\n")
        for kid, hits in sorted(self.known_hit.items()):
            print(f"KNOWN-FINDING: property={self.pid} {hits[0][0]} "
                  f"[{len(hits)} scenario(s), e.g. {hits[0][1]}]")
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.violations:
            seen = {}
            for v in self.violations:
                seen.setdefault(tuple(v["clauses"]), []).append(v)
            n = 0
            for cl, vs in list(seen.items())[:8]:
                p = self.repdir / f"{self.pid}_{n}.json"
                p.write_text(json.dumps(dict(property=self.pid, seed=self.seed,
                    tier=self.tier, clauses=list(cl), count=len(vs), examples=vs[:5],
                    rerun=f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} /opt/venv/bin/python harness/check.py {self.pid}"),
                    indent=1) + "\n")
                print(f"  {len(vs)} event(s) rejected by {list(cl)}; e.g. {vs[0]['key']}")
                print(f"VIOLATION property={self.pid} replay={p}")
                n += 1
            return 1
        print(f"OK property={self.pid} tier={self.tier} states={self.states} "
              f"validated={self.validated} wall={wall:.1f}s")
        return 0


def run_check(pid, main):
    ctx = Ctx(pid)
    try:
        try:
            main(ctx)
        except MachineryError as e:
            print(f"MACHINERY ERROR: {e}", file=sys.stderr)
            shutil.rmtree(ctx.scratch, ignore_errors=True)
            return 2
        except subprocess.TimeoutExpired as e:
            print(f"MACHINERY ERROR (TLC timeout): {e}", file=sys.stderr)
            shutil.rmtree(ctx.scratch, ignore_errors=True)
            return 2
        except Exception as e:
            # an unforeseen failure while driving the code under test: the code no
            # longer answers a call that it answers on the pinned tree
            tb = traceback.format_exc()
            print(tb, file=sys.stderr)
            ctx.violation(f"driver:{type(e).__name__}", ["CallCompletes"],
                          dict(error=str(e)[:500]), tb)
        return ctx.finish()
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)


class Outcome:
    """result of one call on the code under test: value or error"""
    def __init__(self, value=None, err="", msg=""):
        self.value, self.err, self.msg = value, err, msg
    @property
    def ok(self):
        return self.err == ""


def call(fn, *a, _t=60, **k):
    import io, warnings
    try:
        with limit(_t), warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return Outcome(fn(*a, **k))
    except CallTimeout as e:
        return Outcome(None, "Timeout", str(e))
    except Exception as e:
        return Outcome(None, type(e).__name__, str(e)[:300])
