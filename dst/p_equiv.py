"""P01, P02: parallel runs under any schedule and worker failures against sequential runs."""
from . import gen, util
from .base import Prop
from .core import W, StepLimit
from .util import attempt, viol


def common(r, tier, profile, horizon_mh=(3, 4, 5, 6)):
    mh = r.choice(horizon_mh)
    spec = gen.gen_scenario(r, dict(profile, cyclic=False) if mh is None else profile)
    return {"spec": spec, "mh": mh, "sched": util.gen_sched(r), "cseed": r.randrange(1 << 30),
            "ahead": r.choice([1, 2, 3, 8]), "how": r.choice(["set_init", "single", "agent"])}


class ParallelVerify(Prop):
    id = "P01"
    quick_n = 160
    rule = "a run counts when the sequential tree has at least 2 nodes and the parallel run dispatched at least 2 tasks"
    measure = "hash of (tree shape, order in which task results reached the driver)"

    def gen(self, r, tier):
        return common(r, tier, dict(aux=True, resets=0.3, widths=[0, 0.2, 0.5], pre=True, disc=0.1), (3, 4, 5))

    def run(self, case):
        spec = case["spec"]
        W.limit = 4000
        try:
            a = attempt(lambda: gen.verify(gen.make_scenario(spec, util.config(parallel=False), case["how"]), spec, case["mh"]))
        except StepLimit:
            return {"skip": "too big"}
        seq_calls = W.calls
        W.limit = W.calls * 40 + 4000
        c = util.cluster(case)
        try:
            b = attempt(lambda: gen.verify(gen.make_scenario(spec, util.config(case, parallel=True), case["how"]), spec, case["mh"]))
        except StepLimit:
            return {"viol": viol("nontermination", "parallel run made %d seam calls, sequential run %d" % (W.calls, seq_calls)), "choices": c.ch.log}
        return judge(case, a, b, c)


def judge(case, a, b, c, tol=1e-6):
    out = {"choices": c.ch.log, "stats": {"tasks": len(c.tasks), "vt_cluster": c.now}}
    if a[0] != b[0]:
        bad = a if a[0] == "raise" else b
        out["viol"] = viol("outcome", "sequential: %s, parallel: %s" % (a[:3] if a[0] == "raise" else "ok", b[:3] if b[0] == "raise" else "ok"))
        return out
    if a[0] == "raise":
        out["skip"] = "both raise " + a[1]
        return out
    at, bt = a[1], b[1]
    if not isinstance(at, list):
        at, bt = [at], [bt]
    if len(at) != len(bt):
        out["viol"] = viol("differs", "%d / %d trees" % (len(at), len(bt)))
        return out
    n = 0
    for x, y in zip(at, bt):
        d = util.tree_diff(x.root, y.root, tol)
        if d:
            out["viol"] = viol("differs", "sequential / parallel: " + d)
            return out
        if len(x.nodes) != len(y.nodes):
            out["viol"] = viol("differs", "nodes: %d / %d" % (len(x.nodes), len(y.nodes)))
            return out
        n += len(x.nodes)
        out["stats"]["vt_scenario"] = out["stats"].get("vt_scenario", 0) + 2 * util.scen_time(x.root)
    out["stats"]["nodes"] = n
    out["stats"]["trees_with_hits"] = sum(bool(any(q.assert_hits for q in x.nodes)) for x in at)
    out["nontrivial"] = n >= 2 and len(c.tasks) >= 2
    out["sig"] = util.h([util.shape(x.root) for x in at], c.outcome)
    out["dig"] = util.h([util.snapshot(y.root) for y in bt], c.outcome, c.now)
    if n >= 4:
        out["sample"] = "%d nodes, results in order %s" % (n, c.outcome)
    return out


class ParallelSimulate(Prop):
    id = "P02"
    quick_n = 1500
    rule = ParallelVerify.rule
    measure = ParallelVerify.measure

    def gen(self, r, tier):
        c = common(r, tier, dict(aux=True, resets=0.4, widths=[0, 0.5, 1.0], pre=True), (3, 4, 5, 6, None))
        c["seed"] = r.randrange(1000)
        c["multi"] = r.choice([0, 0, 0, 2, 3])
        return c

    def op(self, case, s):
        spec = case["spec"]
        if case["multi"]:
            return s.simulate_multi(spec["horizon"], spec["dt"], max_height=case["mh"], seed=case["seed"], num_sims=case["multi"])
        return s.simulate(spec["horizon"], spec["dt"], case["mh"], case["seed"])

    def run(self, case):
        spec = case["spec"]
        W.limit = 5000
        try:
            a = attempt(lambda: self.op(case, gen.make_scenario(spec, util.config(parallel=False), case["how"])))
        except StepLimit:
            return {"skip": "too big"}
        seq_calls = W.calls
        W.limit = W.calls * 40 + 4000
        c = util.cluster(case)
        try:
            b = attempt(lambda: self.op(case, gen.make_scenario(spec, util.config(case, parallel=True), case["how"])))
        except StepLimit:
            return {"viol": viol("nontermination", "parallel run made %d seam calls, sequential run %d" % (W.calls, seq_calls)), "choices": c.ch.log}
        return judge(case, a, b, c, 1e-9)


PROPS = [ParallelVerify(), ParallelSimulate()]
