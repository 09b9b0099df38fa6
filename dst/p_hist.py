"""P06 reproducibility, P07 isolation, P08 failed runs leave no trace, P15 configuration."""
import copy
import json
import os

from . import gen, hist, oracle, util
from .base import Prop
from .core import W

PROF = dict(aux=True, nasserts=[0, 0, 1], steps=[8, 12], n_agents=[1, 1, 2, 2, 3], resets=0.3, track=0.25, nd=[1, 2, 2])


def base_cfg(r, par=0.4, incremental=False):
    c = {"parallel": r.random() < par, "init_seg_length": r.choice([1, 1000]), "parallel_sim_ahead": r.choice([1, 2, 8]),
         "parallel_ver_ahead": r.choice([1, 2, 8]), "unsafe_continue": r.random() < 0.15}
    if incremental:
        c["incremental"] = True
    return c


def run_op(r, scn, specs, only=None, simple=True):
    k = r.choice(only or ["sim"] * 6 + ["ver"] * 3 + (["simple"] * 2 if simple else []) + ["multi", "list", "part"])
    sp = specs[scn]
    if k in ("part",) and len(sp["agents"]) > 1:
        k = "ver"
    if k == "simple" and not simple:
        k = "sim"
    if k in ("ver", "part"):
        op = {"op": k, "mh": r.choice([1, 2, 3, 3])}
    else:
        op = {"op": k, "mh": r.choice([None, 2, 3, 4]), "seed": r.choice([None, None, r.randrange(100)]) if k != "multi" else r.randrange(100)}
        if op.get("seed") is None and k != "list" and any(a["init"][0] != a["init"][1] for a in sp["agents"]):
            op["seed"] = r.randrange(100)  # without a seed the sample is not determined
    if k == "multi":
        op["k"] = r.choice([1, 2, 3])
    if k == "list":
        op["inits"] = [{a["id"]: [round(r.uniform(-2, 2), 2) for _ in sp["cont"]] for a in sp["agents"]} for _ in range(r.choice([1, 2, 3]))]
    op["scn"] = scn
    return op


def setinit(r, scn, specs):
    sp = specs[scn]
    out = {}
    for a in sp["agents"]:
        lo = [round(x + r.uniform(-0.5, 0.5), 2) for x in a["init"][0]]
        w = r.choice([0, 0.2, 0.5])
        out[a["id"]] = [lo, [round(x + w, 3) for x in lo]]
    return {"op": "setinit", "scn": scn, "inits": out}


def shrink_hist(case):
    ops = case["ops"]
    for i in range(len(ops)):
        if len(ops) > 1:
            yield dict(case, ops=ops[:i] + ops[i + 1:])
    for i, o in enumerate(ops):
        f = o.get("fault")
        if f:
            yield dict(case, ops=ops[:i] + [{k: v for k, v in o.items() if k != "fault"}] + ops[i + 1:])
        if o["op"] == "multi" and o.get("k", 1) > 1:
            yield dict(case, ops=ops[:i] + [dict(o, k=1)] + ops[i + 1:])
        if o["op"] == "list" and len(o["inits"]) > 1:
            yield dict(case, ops=ops[:i] + [dict(o, inits=o["inits"][:1])] + ops[i + 1:])
    for s in range(len(case["specs"])):
        for sp in util.shrink_spec(case["specs"][s]):
            yield dict(case, specs=case["specs"][:s] + [sp] + case["specs"][s + 1:])
        for k in ("parallel", "incremental", "unsafe_continue"):
            if case["cfgs"][s].get(k):
                yield dict(case, cfgs=case["cfgs"][:s] + [dict(case["cfgs"][s], **{k: False})] + case["cfgs"][s + 1:])
    if len(case["specs"]) > 1:
        last = len(case["specs"]) - 1
        o2 = [o for o in ops if o["scn"] != last]
        if o2:
            yield dict(case, specs=case["specs"][:last], cfgs=case["cfgs"][:last], hows=case["hows"][:last], ops=o2)
    if case.get("share"):
        yield dict(case, share=False)
    for s in util.shrink_sched(case):
        yield dict(case, sched=s)
    ch = case.get("choices")
    if ch:
        yield dict(case, choices=[])
        yield dict(case, choices=ch[: len(ch) // 2])


class Hist(Prop):
    uses_oracle = True
    measure = "hash of (results of the operations, scheduling order)"
    assumptions = ["agents, sensor and map are deterministic functions of their arguments", "the reference run of an operation is a new scenario in a process forked from a pristine interpreter"]

    def nscn(self, r):
        return 1

    def mk(self, r):
        n = self.nscn(r)
        specs = [gen.gen_scenario(r, PROF) for _ in range(n)]
        case = {"specs": specs, "cfgs": [base_cfg(r, self.par) for _ in specs], "hows": [r.choice(["set_init", "single", "agent"]) for _ in specs],
                "sched": util.gen_sched(r), "cseed": r.randrange(1 << 30), "share": n > 1 and r.random() < 0.4 and all(bool(s.get("track")) == bool(specs[0].get("track")) for s in specs)}
        if case["share"] and specs[0].get("track"):
            case["share"] = False
        return case

    par = 0.4

    def run(self, case):
        out = hist.run(case, oracle.ask)
        out.pop("live", None)
        n = out.pop("nrun", 0)
        out["nontrivial"] = self.interesting(case, out, n)
        if n > 1 and not out.get("viol"):
            out["sample"] = "%d operations, %d runs compared" % (len(case["ops"]), n)
        return out

    def interesting(self, case, out, n):
        return n >= 2

    def shrink(self, case):
        return shrink_hist(case)


class Repro(Hist):
    id = "P06"
    quick_n = 450
    rule = "a run counts when at least two operations were compared with the same operation in a pristine process (with another string hash seed)"

    def gen(self, r, tier):
        c = self.mk(r)
        ops = []
        for _ in range(r.choice([2, 3, 4, 5])):
            x = r.random()
            if x < 0.3:
                ops.append({"op": "noise", "scn": 0, "k": r.randrange(1 << 20)})
            elif x < 0.4:
                ops.append(setinit(r, 0, c["specs"]))
            else:
                ops.append(run_op(r, 0, c["specs"]))
        if ops[-1]["op"] in hist.RUNS:
            # the same again
            if r.random() < 0.6:
                ops.append({"op": "noise", "scn": 0, "k": r.randrange(1 << 20)})
            ops.append(copy.deepcopy(ops[-2] if ops[-1]["op"] == "noise" else ops[-1]))
        else:
            ops.append(run_op(r, 0, c["specs"]))
        c["ops"] = ops
        return c


class Isolation(Hist):
    id = "P07"
    quick_n = 450
    rule = "a run counts when at least two runs were compared and every earlier tree and user input was compared with its snapshot after each later operation"

    def nscn(self, r):
        return r.choice([1, 2, 2, 3])

    def gen(self, r, tier):
        c = self.mk(r)
        ops = []
        n = len(c["specs"])
        for _ in range(r.choice([3, 4, 5, 6, 8])):
            s = r.randrange(n)
            x = r.random()
            if x < 0.2:
                ops.append(setinit(r, s, c["specs"]))
            elif x < 0.3:
                ops.append({"op": "mutate", "scn": s})
            elif x < 0.4:
                ops.append({"op": "scribble", "scn": s, "k": r.randrange(3)})
            elif x < 0.44:
                ops.append({"op": "cleanup", "scn": s})
            elif x < 0.5:
                sp = c["specs"][s]
                if len(sp["agents"]) < 3:
                    ag = gen.gen_agent(r, sp, len(sp["agents"]), len(sp["agents"]) + 1, PROF)
                    ag["id"] = "n%d" % len(ops)
                    ops.append({"op": "addagent", "scn": s, "agent": ag})
            else:
                ops.append(run_op(r, s, c["specs"]))
        ops.append(run_op(r, r.randrange(n), c["specs"]))
        c["ops"] = ops
        return c


class Failures(Hist):
    id = "P08"
    quick_n = 450
    par = 0.6
    rule = "a run counts when at least one injected failure made a run fail and a later run was compared with a pristine process"

    def gen(self, r, tier):
        c = self.mk(r)
        if r.random() < 0.3:
            # results of earlier runs may be reused, but a failed run has none
            c["cfgs"][0]["incremental"] = False
        s = c["sched"]
        ops = []
        for _ in range(r.choice([2, 3, 4])):
            op = run_op(r, 0, c["specs"], simple=True)
            if r.random() < 0.75:
                kind = r.choice(["agent_exception", "interrupt", "alloc_failure", "kill"])
                if kind == "kill" and c["cfgs"][0]["parallel"] and op["op"] in ("sim", "ver", "multi", "list"):
                    op["fault"] = {"kill": r.choice([1, 1, 2, 3, 5])}
                else:
                    if kind == "kill":
                        kind = "agent_exception"
                    op["fault"] = {"plan": [{"kind": kind, "at": int(2 ** r.uniform(0, 7))}]}
                ops.append(op)
                if r.random() < 0.6:
                    again = copy.deepcopy(op)
                    del again["fault"]
                    ops.append(again)
            else:
                ops.append(op)
            if r.random() < 0.15:
                ops.append(setinit(r, 0, c["specs"]))
        ops.append(run_op(r, 0, c["specs"]))
        c["ops"] = ops
        return c

    def interesting(self, case, out, n):
        return out["stats"].get("failed_runs", 0) >= 1 and n > out["stats"].get("failed_runs", 0)


class Config(Hist):
    id = "P15"
    quick_n = 400
    rule = "a run counts when the configuration was changed between runs and at least two runs were compared with a new scenario created with that configuration"

    def gen(self, r, tier):
        c = self.mk(r)
        ops = []
        for _ in range(r.choice([2, 3, 4])):
            ops.append(run_op(r, 0, c["specs"]))
            if r.random() < 0.8:
                ops.append({"op": "config", "scn": 0, "cfg": base_cfg(r, 0.6)})
        ops.append(run_op(r, 0, c["specs"]))
        c["ops"] = ops
        return c

    def interesting(self, case, out, n):
        return n >= 2 and out["stats"].get("op:config", 0) > 0


PROPS = [Repro(), Isolation(), Failures(), Config()]
