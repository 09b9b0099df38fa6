"""P04: the tree simulate() returns is the one the sampled hybrid semantics defines."""
import math

import numpy as np

from . import gen, ref, util
from .base import Prop
from .core import W, StepLimit
from .util import attempt, viol


def ref_diff(n, r, spec, path="root", tol=1e-7):
    """real node n against reference node r"""
    mode = {k: tuple(v) for k, v in n.mode.items()}
    if mode != {k: tuple(v) for k, v in r.mode.items()}:
        return "%s: mode %r, reference %r" % (path, mode, r.mode)
    if abs(float(n.start_time) - r.start) > 1e-8:
        return "%s: start time %r, reference %r" % (path, n.start_time, r.start)
    if n.height != r.height:
        return "%s: height %r, reference %r" % (path, n.height, r.height)
    for i in r.init:
        if i not in n.init or not util.close(list(n.init[i]), list(r.init[i]), tol):
            return "%s: init of %s %r, reference %r" % (path, i, n.init.get(i), r.init[i])
    hits = {k: sorted(v) if not isinstance(v, str) else [v] for k, v in (n.assert_hits or {}).items()}
    if hits != {k: sorted(v) for k, v in r.asserts.items()}:
        return "%s: assert hits %r, reference %r" % (path, hits, r.asserts)
    if r.expanded:
        for i in r.trace:
            if i not in n.trace:
                return "%s: no trace for %s" % (path, i)
            x, y = np.asarray(n.trace[i], dtype=float), r.trace[i]
            if x.size == 0 and y.size == 0:
                continue
            if x.shape != y.shape:
                return "%s: trace of %s has %r rows, reference %r" % (path, i, x.shape, y.shape)
            if not util.close(x, y, tol):
                k = int(np.argmax(np.abs(x - y).max(axis=1)))
                return "%s: trace of %s row %d %s, reference %s" % (path, i, k, x[k].tolist(), y[k].tolist())
    if len(n.child) != len(r.child):
        return "%s: %d children %s, reference %d %s" % (path, len(n.child), [c.mode for c in n.child][:6], len(r.child), [c.mode for c in r.child][:6])
    left = list(r.child)
    for k, c in enumerate(n.child):
        first = None
        for d in sorted(left, key=lambda d: {i: tuple(v) for i, v in c.mode.items()} != {i: tuple(v) for i, v in d.mode.items()}):
            e = ref_diff(c, d, spec, "%s.%d" % (path, k), tol)
            if e is None:
                left.remove(d)
                break
            first = first or e
        else:
            return first
    return None


class Semantics(Prop):
    id = "P04"
    quick_n = 2500
    rule = ("a run counts when the reference tree has at least 2 nodes or an assertion hit, no threshold was within 1e-7 of "
            "equality, and the real tree was compared with it node by node")
    measure = "hash of (reference tree shape, scheduling order)"

    def gen(self, r, tier):
        p = dict(aux=True, resets=0.5, widths=[0, 0.5, 1.0], pre=True, names=True, track=0.25, asserts=True, n_agents=[1, 1, 2, 2, 3, 3, 4])
        mh = r.choice([3, 4, 5, 6, 8, None])
        if mh is None:
            p["cyclic"] = False
        case = {"spec": gen.gen_scenario(r, p), "mh": mh, "cseed": r.randrange(1 << 30),
                "how": r.choice(["set_init", "single", "agent"]), "seed": r.randrange(1000), "api": r.choice(["seq", "seq", "par", "simple"])}
        if case["api"] == "simple":
            case["spec"] = gen.gen_scenario(r, dict(p, multi=False, track=False))
        if case["api"] == "par":
            case["sched"] = util.gen_sched(r)
            case["ahead"] = r.choice([1, 2, 3, 8])
        return case

    def run(self, case):
        spec = case["spec"]
        W.limit = 5000
        c = util.cluster(case)
        api = case["api"]
        s = gen.make_scenario(spec, util.config(case, parallel=api == "par", incremental=api == "inc"), case["how"])
        try:
            if api == "simple":
                t = s.simulate_simple(spec["horizon"], spec["dt"], case["mh"], case["seed"])
            else:
                t = s.simulate(spec["horizon"], spec["dt"], case["mh"], case["seed"])
        except StepLimit:
            return {"skip": "too big"}
        root = t.root
        for ag in spec["agents"]:
            x = np.asarray(root.init[ag["id"]], dtype=float)
            lo, hi = np.asarray(ag["init"], dtype=float)
            if x.shape != lo.shape or (x < lo - 1e-9).any() or (x > hi + 1e-9).any():
                return {"viol": viol("init", "the run starts in %r, outside %r" % (x.tolist(), ag["init"]))}
        mg = gen.Margin()
        inits = {k: tuple(float(q) for q in v) for k, v in root.init.items()}
        want = ref.simulate(spec, inits, mg, case["mh"], 600, simple=api == "simple")
        if want is None:
            return {"skip": "reference too big"}
        if mg.m < 1e-7:
            return {"skip": "borderline"}
        if want == "length":
            return {"skip": "length"}
        d = ref_diff(root, want, spec)
        n = ref.size(want)
        out = {"choices": c.ch.log, "stats": {"nodes": n, "vt_scenario": util.scen_time(root), "vt_cluster": c.now, "api_" + api: 1,
                                              "hit_trees": int(ref.any_hits(want))}}
        if d:
            out["viol"] = viol("semantics", d)
            return out
        out["nontrivial"] = n >= 2 or ref.any_hits(want)
        out["sig"] = util.h(util.shape(root), c.outcome)
        out["dig"] = util.h(util.snapshot(root), c.outcome)
        if n >= 5:
            out["sample"] = "%d nodes, %d leaves, api %s" % (n, sum(1 for _ in ref.paths(want)), api)
        return out


PROPS = [Semantics()]
