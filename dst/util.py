"""Shared by the properties: clean state, simulated clusters, operations, tree comparison, shrinking."""
import copy
import hashlib
import json
import math
import random

import numpy as np

from . import boot, canon, fakeray, gen
from .core import W, Choices, StepLimit


def clean_state():
    W.reset()
    random.seed(12345)
    np.random.seed(12345)
    fakeray.install_cluster(fakeray.Cluster())


def cluster(case, sched=None, tag=""):
    """the simulated cluster of a case: recorded choices if there are any, else its PRNG"""
    if case.get("choices") is not None and not tag:
        ch = Choices(case["choices"])
    else:
        ch = Choices(None, seed="%s%s" % (case.get("cseed", 0), tag))
    return fakeray.install_cluster(fakeray.Cluster(sched if sched is not None else case.get("sched"), ch))


def gen_sched(r, faults=True):
    s = {"mode": r.choice(["random", "random", "straggler", "lifo", "burst", "fifo"]), "workers": r.choice([1, 2, 3, 4, 8])}
    if faults and r.random() < 0.5:
        s["crash"] = r.choice([5, 15, 30])
    if faults and r.random() < 0.3:
        s["lost"] = r.choice([10, 30])
    if faults and r.random() < 0.3:
        s["dup"] = r.choice([10, 30])
    if r.random() < 0.3:
        s["preinit"] = True
    return s


def config(case=None, parallel=False, **kw):
    from verse import ScenarioConfig

    kw.setdefault("print_level", 0)
    if case and parallel:
        kw.setdefault("parallel_sim_ahead", case.get("ahead", 8))
        kw.setdefault("parallel_ver_ahead", case.get("ahead", 8))
    return ScenarioConfig(parallel=parallel, **kw)


def attempt(f, *a, **kw):
    """('ok', value) or ('raise', type name, text); BaseExceptions other than interrupts pass"""
    try:
        return ("ok", f(*a, **kw))
    except (Exception, KeyboardInterrupt) as e:
        return ("raise", type(e).__name__, str(e)[:300], e)


def viol(cls, msg):
    return {"class": cls, "msg": str(msg)[:1500]}


def h(*a):
    return hashlib.sha256(json.dumps(a, default=str, sort_keys=True).encode()).hexdigest()[:16]


# ---- trees ----------------------------------------------------------------------------------
def all_nodes(root):
    out = [root]
    for n in out:
        out.extend(n.child)
    return out


def shape(root):
    """a hash: nesting the text itself would grow without bounds"""
    return h(sorted((k, str(v)) for k, v in root.mode.items()), round(float(root.start_time), 6), canon.hits(root), sorted(map(shape, root.child)))


def close(a, b, tol):
    """numeric structures equal up to tol (arrays, lists, tuples, scalars)"""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return False
        if a.size == 0:
            return True
        return bool(np.allclose(a.astype(float), b.astype(float), rtol=tol, atol=tol))
    try:
        x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return len(a) == len(b) and all(close(p, q, tol) for p, q in zip(a, b))
    return x.shape == y.shape and (x.size == 0 or bool(np.allclose(x, y, rtol=tol, atol=tol)))


def node_diff(a, b, tol=1e-6, traces=True):
    if {k: canon.num(v) for k, v in a.mode.items()} != {k: canon.num(v) for k, v in b.mode.items()}:
        return "mode %r / %r" % (a.mode, b.mode)
    if abs(float(a.start_time) - float(b.start_time)) > tol:
        return "start time %r / %r" % (a.start_time, b.start_time)
    if a.height != b.height:
        return "height %r / %r" % (a.height, b.height)
    if canon.hits(a) != canon.hits(b):
        return "assert hits %r / %r" % (canon.hits(a), canon.hits(b))
    if set(a.init) != set(b.init):
        return "agents with init %r / %r" % (sorted(a.init), sorted(b.init))
    for k in sorted(a.init):
        if not close(a.init[k], b.init[k], tol):
            return "init of %s: %.200r / %.200r" % (k, a.init[k], b.init[k])
    if traces:
        if set(a.trace) != set(b.trace):
            return "agents with a trace: %r / %r" % (sorted(a.trace), sorted(b.trace))
        for k in sorted(a.trace):
            x, y = np.asarray(a.trace[k], dtype=float), np.asarray(b.trace[k], dtype=float)
            if x.shape != y.shape:
                return "trace of %s: %r / %r rows" % (k, x.shape, y.shape)
            if not close(x, y, tol):
                i = int(np.argmax(np.abs(x - y).max(axis=1)))
                return "trace of %s differs in row %d: %s / %s" % (k, i, x[i].tolist(), y[i].tolist())
    if canon.num(a.static) != canon.num(b.static):
        return "static data %r / %r" % (a.static, b.static)
    if a.type != b.type:
        return "type %s / %s" % (a.type, b.type)
    return None


def sort_key(n):
    return (sorted((k, str(v)) for k, v in n.mode.items()), round(float(n.start_time), 4),
            sorted((k, np.round(np.asarray(v, dtype=float), 3).tolist() if not callable(v) else 0) for k, v in n.init.items()))


def tree_diff(a, b, tol=1e-6, traces=True, ordered=False, path="root"):
    """None if the two analysis trees are the same up to tol and the order of children"""
    d = node_diff(a, b, tol, traces)
    if d:
        return "%s: %s" % (path, d)
    if len(a.child) != len(b.child):
        return "%s: %d / %d children (%.200s / %.200s)" % (
            path, len(a.child), len(b.child), [c.mode for c in a.child], [c.mode for c in b.child])
    if ordered:
        for i, (x, y) in enumerate(zip(a.child, b.child)):
            d = tree_diff(x, y, tol, traces, ordered, "%s.%d" % (path, i))
            if d:
                return d
        return None
    left = list(b.child)
    for i, x in enumerate(a.child):
        first = None
        cands = sorted(left, key=lambda y: node_diff(x, y, tol, False) is not None)
        for y in cands:
            d = tree_diff(x, y, tol, traces, ordered, "%s.%d" % (path, i))
            if d is None:
                left.remove(y)
                break
            first = first or d
        else:
            return first
    return None


def snapshot(root, ordered=True):
    """a comparable deep copy of everything observable in a tree"""
    return canon.tree(root, ordered)


def scen_time(root):
    """simulated seconds covered by a tree"""
    t = 0.0
    for n in all_nodes(root):
        for tr in n.trace.values():
            tr = np.asarray(tr)
            if tr.ndim == 2 and len(tr):
                t += float(tr[-1][0] - tr[0][0])
            break
    return t


# ---- shrinking ------------------------------------------------------------------------------
def shrink_spec(spec):
    n = len(spec["agents"])
    for k in ("bloat", "method", "style"):
        if spec.get(k):
            yield {x: v for x, v in spec.items() if x != k}
    if n > 1:
        for i in range(n):
            s = copy.deepcopy(spec)
            del s["agents"][i]
            if len(s["agents"]) == 1:
                # nobody left to look at
                ag = s["agents"][0]
                ag["blocks"] = [b for b in ag["blocks"] if not gen.has_others(b["guard"])]
                ag["asserts"] = [a for a in ag["asserts"] if not gen.has_others(a["cond"])]
                ag["reads"] = False
            yield s
    for i in range(n):
        for key in ("blocks", "asserts"):
            for j in range(len(spec["agents"][i].get(key, []))):
                s = copy.deepcopy(spec)
                del s["agents"][i][key][j]
                yield s
        for j, b in enumerate(spec["agents"][i]["blocks"]):
            for k in range(len(b["assign"])):
                if len(b["assign"]) > 1:
                    s = copy.deepcopy(spec)
                    del s["agents"][i]["blocks"][j]["assign"][k]
                    yield s
            if b["guard"][0] in ("any", "all") and len(b["guard"]) > 2:
                s = copy.deepcopy(spec)
                del s["agents"][i]["blocks"][j]["guard"][2]
                yield s
            if b["guard"][0] in ("and", "or"):
                for g in b["guard"][1:]:
                    s = copy.deepcopy(spec)
                    s["agents"][i]["blocks"][j]["guard"] = g
                    yield s
        lo, hi = spec["agents"][i]["init"]
        if lo != hi:
            s = copy.deepcopy(spec)
            s["agents"][i]["init"] = [lo, list(lo)]
            yield s
        for m, dyn in spec["agents"][i]["dyn"].items():
            for d in range(1, len(dyn)):
                if dyn[d] != [0, 0]:
                    s = copy.deepcopy(spec)
                    s["agents"][i]["dyn"][m][d] = [0, 0]
                    yield s
    k = int(round(spec["horizon"] / spec["dt"]))
    for f in (k // 2, k - 1):
        if 0 < f < k:
            s = copy.deepcopy(spec)
            s["horizon"] = round(spec["dt"] * f, 6)
            yield s


def shrink_sched(case):
    s = case.get("sched")
    if not s:
        return
    for k in ("crash", "lost", "dup", "preinit", "kill_task"):
        if s.get(k):
            yield {k2: v for k2, v in s.items() if k2 != k}
    if s.get("workers", 1) > 1:
        yield dict(s, workers=s["workers"] // 2)
    if s.get("mode") != "fifo":
        yield dict(s, mode="fifo")


def shrink_case(case):
    for i in range(len(case.get("plan", []))):
        yield dict(case, plan=case["plan"][:i] + case["plan"][i + 1:])
    for i in range(len(case.get("ops", []))):
        if len(case["ops"]) > 1:
            yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
    if "spec" in case:
        for s in shrink_spec(case["spec"]):
            yield dict(case, spec=s)
    for s in shrink_sched(case):
        yield dict(case, sched=s)
    mh = case.get("mh")
    if mh and mh > 2:
        yield dict(case, mh=mh - 1)
    ch = case.get("choices")
    if ch:
        yield dict(case, choices=[])
        if len(ch) > 1:
            yield dict(case, choices=ch[: len(ch) // 2])
        for i in range(min(len(ch), 60)):
            if ch[i]:
                yield dict(case, choices=ch[:i] + [0] + ch[i + 1:])
