"""C12: the constituent container"""
import numpy as np
from vlib import *

NAMES = {"a": "m2", "b": "k1", "c": "o1"}
SH = (2, 3)


def value(v):
    """distinct masked complex array for an abstract value"""
    z = np.ma.array((v * 0.5 + np.arange(6).reshape(SH) - 2.0) + 1j * (v - 3.5 + 0.25 * np.arange(6).reshape(SH)[::-1]))
    z.mask = np.zeros(SH, dtype=bool)
    z.mask[v % 2, v % 3] = True
    z.fill_value = -9999.0
    return z


def ident(z, values):
    """abstract value of an array: which value's data and mask it has, 0 if none"""
    for v in values:
        w = value(v)
        try:
            if z.shape == w.shape and np.array_equal(np.ma.getmaskarray(z), w.mask) and \
                    np.array_equal(np.asarray(z.data)[~w.mask], w.data[~w.mask]):
                return v
        except Exception:
            pass
    return 0


def observe(c, values, inv):
    out = dict(fields=[], len=-1, vals=[], ampph=[], listed=[], ncodes=-1, shapeok=False)
    try:
        out["fields"] = [inv.get(f, f) for f in c.fields]
        out["len"] = len(c)
        for f in c.fields:
            z = c.get(f)
            v = ident(z, values)
            out["vals"].append(v)
            # the amplitude and phase rebuild the stored value, masked stays masked
            ok = v > 0
            if ok:
                w = value(v)
                a, p = c.amplitude(f), c.phase(f)
                m = w.mask
                rec = a.data * np.exp(-1j * np.radians(p.data))
                ok = (np.array_equal(np.ma.getmaskarray(a), m) and np.array_equal(np.ma.getmaskarray(p), m)
                      and np.allclose(rec[~m], w.data[~m], atol=1e-9)
                      and bool(np.all((p.data[~m] >= 0) & (p.data[~m] <= 360)))
                      and bool(np.all(a.data[~m] >= 0)))
            out["ampph"].append(bool(ok))
        import types
        # a fresh iteration, bounded
        k = 0
        for item in c:
            out["listed"].append([inv.get(item[0], item[0]), ident(item[1], values)])
            k += 1
            if k > 20:
                break
        codes = [len(c.doodson_number), len(c.cartwright_number), len(c.extended_doodson)]
        out["ncodes"] = codes[0] if len(set(codes)) == 1 else -1
        out["shapeok"] = (c.shape == SH) if len(c.fields) else (c.shape is None)
    except Exception as e:
        out["listed"].append([f"{type(e).__name__}", 0])
    return out


def replay(h, values, names, every=False):
    import pyTMD.io
    c = pyTMD.io.constituents()
    inv = {v: k for k, v in names.items()}
    its = {1: None, 2: None}
    ev = [dict(op="reset", key="reset")]
    hist = []
    for n, o in enumerate(h):
        op = o["op"]
        hist.append(op + ":" + str(o.get("n", o.get("i", ""))) + ("=" + str(o["v"]) if "v" in o else ""))
        f = names.get(o.get("n"), o.get("n"))
        res = ["ok", "", 0]
        if op == "append":
            r = call(c.append, f, value(o["v"])); res = ["ok", "", 0] if r.ok else ["error", "", 0]
        elif op == "update":
            r = call(c.update, f, value(o["v"])); res = ["ok", "", 0] if r.ok else ["error", "", 0]
        elif op == "pop":
            r = call(c.pop, f); res = ["val", "", ident(r.value, values)] if r.ok else ["error", "", 0]
        elif op == "get":
            r = call(c.get, f); res = ["val", "", ident(r.value, values)] if r.ok else ["error", "", 0]
        elif op == "scribble":
            r = call(c.get, f)
            res = ["val", "", ident(r.value, values)] if r.ok else ["error", "", 0]
            if r.ok:
                r.value.data[:] = 12345.0
                a = call(c.amplitude, f)
                if a.ok:
                    a.value.data[:] = -1.0
                    a.value.mask[:] = True
        elif op == "open":
            its[o["i"]] = iter(c)
        elif op == "next":
            r = call(next, its[o["i"]])
            if r.ok:
                res = ["item", inv.get(r.value[0], r.value[0]), ident(r.value[1], values)]
            else:
                res = ["stop" if r.err == "StopIteration" else "error", "", 0]
        # observing all lookups at every step would itself be an interleaved
        # iteration, so it is done at the end of the behaviour and at modifications
        e = dict(o)
        e["res"] = res
        e["key"] = "/".join(hist)
        e["full"] = bool(every or n == len(h) - 1)
        if e["full"]:
            e.update(observe(c, values, inv))
        ev.append(e)
        if op in ("append", "update", "pop") and res[0] != "error":
            its = {1: None, 2: None}
    return ev


def main(ctx):
    cfg = ("SPECIFICATION Spec\nVIEW View\nINVARIANTS OneEntryPerName ItersBounded\nPROPERTIES Frame OrderKept\n"
           "CHECK_DEADLOCK FALSE\nCONSTANTS\n Names = {%s}\n Values = {%s}\n MaxLen = %d\n")
    if ctx.thorough:
        cases = ctx.model("ContainerMC", cfg % ('"a", "b", "c"', "1, 2", 9))
    else:
        cases = ctx.model("ContainerMC", cfg % ('"a", "b"', "1, 2", 9))
        cases += ctx.model("ContainerMC", cfg % ('"a", "b", "c"', "1", 6), name="ContainerMC-3names")
    ev = []
    for n, h in enumerate(cases):
        ev += replay(h, [1, 2, 3], NAMES, every=(n % 10 == 0))
    # long random histories
    ops = ["append", "append", "update", "pop", "get", "scribble", "open", "next", "next", "next"]
    for n in range(60 if ctx.thorough else 15):
        h = []
        open_ = {1: False, 2: False}
        have = set()
        for k in range(40):
            op = ops[ctx.rng.integers(len(ops))]
            nm = "abc"[ctx.rng.integers(3)]
            i = int(ctx.rng.integers(1, 3))
            if op in ("append", "update"):
                h.append(dict(op=op, n=nm, v=int(ctx.rng.integers(1, 4))))
            elif op in ("open",):
                h.append(dict(op=op, i=i)); open_[i] = True
            elif op == "next":
                if not open_[i]:
                    continue
                h.append(dict(op=op, i=i))
            else:
                h.append(dict(op=op, n=nm))
            # any modification closes the handles
            if op == "append": have.add(nm)
            if op == "append" or (op in ("update", "pop") and nm in have):
                open_ = {1: False, 2: False}
            if op == "pop": have.discard(nm)
        # drop 'next' on exhausted handles by replaying the abstract machine
        ev += replay(prune(h), [1, 2, 3], NAMES, every=bool(n % 2))
    can = []
    good = [e for e in ev if e["op"] == "append" and e["full"]][:3]
    for g in good:
        can.append(dict(op="reset"))
        c = json.loads(json.dumps(g)); c["op"] = "append"; c["len"] = 7; can.append(c)
    fails = ctx.validate("ContainerTrace", ev, canaries=can, group="history")
    ctx.notes["behaviours_replayed"] = len(cases)


def prune(h):
    """remove calls of next on handles that are closed"""
    order, its, out = [], {1: -1, 2: -1}, []
    for o in h:
        op = o["op"]
        if op == "next":
            if its[o["i"]] < 0:
                continue
            its[o["i"]] = its[o["i"]] + 1 if its[o["i"]] < len(order) else -1
        elif op == "open":
            its[o["i"]] = 0
        elif op == "append":
            if o["n"] not in order:
                order.append(o["n"])
            its = {1: -1, 2: -1}
        elif op == "update" and o["n"] in order:
            its = {1: -1, 2: -1}
        elif op == "pop" and o["n"] in order:
            order.remove(o["n"]); its = {1: -1, 2: -1}
        out.append(o)
    return out
