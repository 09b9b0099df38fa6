"""P11, P12: runs with incremental=True, which reuse results of earlier runs."""
import copy
import math

from . import canon, gen, hist, oracle, p_verify, util
from .base import Prop
from .core import W, StepLimit
from .p_hist import PROF, Hist, run_op, setinit, shrink_hist
from .util import viol


def walk(g):
    yield g
    for x in g[1:]:
        if isinstance(x, list) and x and isinstance(x[0], str):
            yield from walk(x)


def atoms(g):
    return [x for x in walk(g) if x[0] == "atom"]


def edited(r, sp, ag, prof):
    """another decision logic for the agent: changed thresholds, destinations, resets and assertions,
    blocks and assertions more or less"""
    ag = copy.deepcopy(ag)
    sound = prof.get("sound")
    for _ in range(r.choice([1, 1, 2])):
        bl = ag["blocks"]
        x = r.random()
        if bl and x < 0.35:
            b = r.choice(bl)
            if atoms(b["guard"]):
                g = r.choice(atoms(b["guard"]))
                g[3] = round(g[3] + r.choice([-1, -0.3, 0.3, 1]), 5)
        elif bl and x < 0.45:
            b = r.choice(bl)
            for q in b["assign"]:
                ms = [m for m in sp["modes"] if (m > b["mode"] if sound else m != b["mode"])]
                if q[0] == "agent_mode" and ms:
                    q[1] = r.choice(ms)
                elif q[0] == "track_mode" and not sound:
                    q[1] = ["h", [v for k, v in b["assign"] if k == "agent_mode"][0]] if r.random() < 0.5 else r.choice(sp["track"]["names"])
        elif bl and x < 0.55:
            q = r.choice(r.choice(bl)["assign"])
            if isinstance(q[1], dict):
                q[1]["c"] = round(q[1].get("c", 0) + r.choice([-0.5, 0.5]), 5)
        elif bl and x < 0.65:
            bl.pop(r.randrange(len(bl)))
        elif x < 0.75:
            new = gen.gen_agent(r, sp, 0, 1, dict(prof, nblocks=[1], multi=False))["blocks"]
            bl[r.randrange(len(bl) + 1):0] = [b for b in new if not b.get("alt") and not (sound and "track" in sp)]
        elif ag["asserts"] and x < 0.9:
            a = r.choice(ag["asserts"])
            y = r.random()
            if y < 0.2:
                ag["asserts"].remove(a)
            elif y < 0.4 and a.get("pre"):
                p = r.choice(atoms(a["pre"]))
                p[3] = round(p[3] + r.choice([-1, 1]), 5)
            else:
                p = r.choice(atoms(a["cond"]))
                p[3] = round(p[3] + r.choice([-1.5, -0.5, 0.5, 1.5]), 5)
        else:
            q = gen.gen_agent(r, sp, 0, 1, dict(prof, nasserts=[1], nblocks=[0]))["asserts"]
            for a in q:
                a["label"] = "N%d" % r.randrange(100)
            if not any(a["label"] == q[0]["label"] for a in ag["asserts"]):
                ag["asserts"] += q
    return ag


def nearby(r, sp, init):
    """initial sets that have much in common with the ones before"""
    new = copy.deepcopy(init)
    i = r.choice(sorted(new))
    x = r.random()
    if x < 0.35 and len(sp["cont"]) > 1:
        # two variables exchanged, or one up and the other down
        a, b = r.sample(range(len(sp["cont"])), 2)
        if r.random() < 0.5:
            for row in new[i]:
                row[a], row[b] = row[b], row[a]
        else:
            q = r.choice([-2, -1, 1, 2])
            for row in new[i]:
                row[a], row[b] = round(row[a] + q, 9), round(row[b] - q, 9)
    elif x < 0.55 and len(new) > 1:
        j = r.choice([k for k in sorted(new) if k != i])
        new[i], new[j] = new[j], new[i]
    else:
        q = r.choice([1, 0.01, 0.001, 1e-4, 1e-5]) * r.choice([1, -1])
        d = r.choice([None] + list(range(len(sp["cont"]))))
        for row in new[i]:
            for k in range(len(row)):
                if d in (None, k):
                    row[k] = round(row[k] + q, 9)
    return new


def later_start(r, sp, init, horizon, dt):
    """operations after which every agent comes k steps later where it was at first, with the same time
    left: the same nodes at other start times"""
    T = r.choice([1, 2, 4]) * dt
    out = {}
    for ag in sp["agents"]:
        dyn = ag["dyn"][ag["mode0"]]
        out[ag["id"]] = [[round(x - b * T if not a else (x + b / a) * math.exp(-a * T) - b / a, 9) for (a, b), x in zip(dyn, row)] for row in init[ag["id"]]]
    return [{"op": "setinit", "scn": 0, "inits": out}, {"op": "horizon", "scn": 0, "dt": dt, "horizon": round(horizon + T, 6)}]


def timing(r, sp):
    """another horizon, another time step, or another time step with about the same horizon"""
    n = round(sp["horizon"] / sp["dt"])
    x = r.random()
    if x < 0.4:
        return {"op": "horizon", "scn": 0, "dt": sp["dt"], "horizon": round(sp["dt"] * r.choice([n // 2, n, n + 3]), 6)}
    dt = r.choice([sp["dt"] / 2, sp["dt"] * 2, 0.3])
    return {"op": "horizon", "scn": 0, "dt": dt, "horizon": round(dt * max(1, round(sp["horizon"] / dt)), 6)}


class Incremental(Hist):
    id = "P11"
    quick_n = 500
    par = 0.3
    rule = "a run counts when at least two runs of a scenario with incremental=True were compared with a new scenario without it"

    def gen(self, r, tier):
        c = self.mk(r)
        c["specs"] = [gen.gen_scenario(r, dict(PROF, nasserts=[0, 0, 1, 1, 2]))]
        c["cfgs"][0].update(incremental=True, try_local=r.random() < 0.3)
        sp = c["specs"][0]
        cur = {a["id"]: a for a in sp["agents"]}
        init, hor = {a["id"]: a["init"] for a in sp["agents"]}, sp
        ops = [run_op(r, 0, c["specs"], ["sim"])]
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            x = r.random()
            if x < 0.4:
                i = r.choice(sorted(cur))
                if r.random() < 0.2:
                    new = [a for a in sp["agents"] if a["id"] == i][0]  # as it was
                else:
                    new = edited(r, sp, cur[i], PROF)
                cur[i] = new
                ops.append({"op": "swap", "scn": 0, "agent": new, "replace": r.random() < 0.4})
            elif x < 0.56:
                if r.random() < 0.6:
                    ops.append(setinit(r, 0, c["specs"]) if r.random() < 0.4 else {"op": "setinit", "scn": 0, "inits": nearby(r, sp, init)})
                    init.update(ops[-1]["inits"])
                else:
                    ops += later_start(r, sp, init, hor["horizon"], hor["dt"])
                    init, hor = ops[-2]["inits"], ops[-1]
            elif x < 0.68:
                hor = timing(r, sp)
                ops.append(hor)
            elif x < 0.72:
                ops.append({"op": "scribble", "scn": 0, "k": r.randrange(3)})
            elif x < 0.74:
                ops.append({"op": "cleanup", "scn": 0})
            elif x < 0.8:
                ops.append({"op": "config", "scn": 0, "cfg": dict(c["cfgs"][0], incremental=r.random() < 0.8, parallel=r.random() < 0.4)})
            elif x < 0.86:
                # a failed run leaves nothing behind that later ones reuse
                op = run_op(r, 0, c["specs"], ["sim"])
                op["fault"] = {"plan": [{"kind": r.choice(["agent_exception", "interrupt", "alloc_failure"]), "at": int(2 ** r.uniform(0, 7))}]}
                ops.append(op)
            if r.random() < 0.6:
                op = copy.deepcopy([o for o in ops if o["op"] in hist.RUNS][-1])
                op.pop("fault", None)
                ops.append(op)
            else:
                ops.append(run_op(r, 0, c["specs"], ["sim"] * 5 + ["multi", "list"]))
        c["ops"] = ops
        return c

    def run(self, case):
        out = hist.run(case, oracle.ask)
        live = out.pop("live", None)
        n = out.pop("nrun", 0)
        if live:
            h = live[0].s.simulator.cache_hits
            out["stats"]["traces_reused"], out["stats"]["traces_computed"] = h
        out["nontrivial"] = n >= 2
        if n > 2 and not out.get("viol"):
            out["sample"] = "%d operations, %d runs compared, %s traces reused" % (len(case["ops"]), n, out["stats"].get("traces_reused"))
        return out


VPROF = dict(nasserts=[0, 0, 1], pre=True, disc=0)


class IncrementalVerify(Prop):
    id = "P12"
    quick_n = 500
    rule = "a run counts when at least two verifications of a scenario with incremental=True were checked and at least one tube was reused"
    measure = "hash of (trees of the operations, scheduling order)"
    assumptions = ["agents, sensor and map are deterministic functions of their arguments and are not exchanged between the runs"]
    P03, P05, P17 = p_verify.Containment(), p_verify.Verdict(), p_verify.Justified()

    def gen(self, r, tier):
        sp = p_verify.sound_spec(r, VPROF)
        prof = dict(cyclic=False, sound=True, stay=0, multi=False, **VPROF)
        case = {"specs": [sp], "hows": [r.choice(["set_init", "single", "agent"])], "share": False, "pts": r.randrange(1 << 30), "npts": 5,
                "sched": util.gen_sched(r), "cseed": r.randrange(1 << 30),
                "cfgs": [{"parallel": r.random() < 0.3, "incremental": True, "init_seg_length": 1 if len(sp["agents"]) > 1 else r.choice([1, 1, 1000]),
                          "parallel_ver_ahead": r.choice([1, 2, 8]), "try_local": r.random() < 0.3}]}
        cur = {a["id"]: a for a in sp["agents"]}
        init, hor = {a["id"]: a["init"] for a in sp["agents"]}, sp
        ops = [{"op": "ver", "scn": 0, "mh": r.choice([None, None, 4])}]
        for _ in range(r.choice([1, 1, 2, 3])):
            x = r.random()
            if x < 0.45:
                i = r.choice(sorted(cur))
                cur[i] = [a for a in sp["agents"] if a["id"] == i][0] if r.random() < 0.2 else edited(r, sp, cur[i], prof)
                ops.append({"op": "swap", "scn": 0, "agent": cur[i], "replace": r.random() < 0.4})
            elif x < 0.7:
                if r.random() < 0.3:
                    ops += later_start(r, sp, init, hor["horizon"], hor["dt"])
                    init, hor = ops[-2]["inits"], ops[-1]
                    ops.append({"op": "ver", "scn": 0, "mh": r.choice([None, ops[0]["mh"]])})
                    continue
                # inside, overlapping, around, or away from what has been computed
                new = nearby(r, sp, init) if r.random() < 0.3 else {}
                for i in init if not new else []:
                    lo, hi = init[i]
                    w = [max(q - p, 0.2) for p, q in zip(lo, hi)]
                    f = r.choice([(0.25, 0.75), (0.5, 1), (0.5, 1.5), (-0.5, 1.5), (0, 1), (2, 3)])
                    new[i] = [[round(p + f[0] * d, 4) for p, d in zip(lo, w)], [round(p + f[1] * d, 4) for p, d in zip(lo, w)]]
                ops.append({"op": "setinit", "scn": 0, "inits": new})
                init = new
            elif x < 0.85:
                hor = timing(r, sp)
                ops.append(hor)
            elif x < 0.9:
                ops.append({"op": "scribble", "scn": 0, "k": r.randrange(3)})
            elif x < 0.93:
                ops.append({"op": "config", "scn": 0, "cfg": dict(case["cfgs"][0], init_seg_length=r.choice([1, case["cfgs"][0]["init_seg_length"]]), parallel=r.random() < 0.4)})
            ops.append({"op": "ver", "scn": 0, "mh": r.choice([None, ops[0]["mh"]])})
        case["ops"] = ops
        return case

    def shrink(self, case):
        for c in shrink_hist(case):
            if all(o["op"] != "ver" or not o.get("fault") for o in c["ops"]) and c["cfgs"][0].get("incremental"):
                if all(any(k == "agent_mode" for k, _ in b["assign"]) for a in c["specs"][0]["agents"] for b in a["blocks"]):
                    yield c

    def judge(self, case, L, t, stats):
        sub = {"spec": L.spec, "seg": L.cfg["init_seg_length"], "pts": case["pts"], "npts": case["npts"], "how": L.how}
        root = t.root
        for a in L.spec["agents"]:
            lo, hi = a["init"]
            got = root.init[a["id"]]
            if canon.num(got) != canon.num([[lo, hi]]) or root.start_time != 0 or list(root.mode[a["id"]])[0] != a["mode0"]:
                return viol("root", "the tree starts in %s, %s; the initial set is %s" % (got, root.mode[a["id"]], a["init"])), 0
        if not any(p_verify.has_hits(n) for n in util.all_nodes(root)):
            v, n, sw = self.P03.follow(sub, L.spec, t)
            if v:
                return v, 0
            stats["behaviours"] = stats.get("behaviours", 0) + n
            stats["with_switch"] = stats.get("with_switch", 0) + sw
        v, done, unsafe = self.P05.judge(sub, L.spec, t, stats)
        if v:
            return v, 0
        return self.P17.branches(L.spec, t)

    def run(self, case):
        c = util.cluster(case)
        L = hist.Scn(case["specs"][0], case["cfgs"][0], case["hows"][0])
        out = {"stats": {}}
        st = out["stats"]
        sig = []
        nver = nb = 0
        for step, op in enumerate(case["ops"]):
            k = op["op"]
            st["op:" + k] = st.get("op:" + k, 0) + 1
            if k != "ver":
                L.apply(op)
                continue
            W.limit = W.calls + 1500
            try:
                t = gen.verify(L.s, L.spec, op["mh"])
            except StepLimit:
                return {"skip": "too big", "stats": st}
            snap = canon.tree(t.root, True)
            v, n = self.judge(case, L, t, st)
            if v:
                # is it the reuse? a scenario without it must pass
                s2 = gen.make_scenario(L.spec, hist.config(dict(L.cfg, incremental=False, parallel=False)), L.how)
                W.limit = W.calls + 1500
                t2 = gen.verify(s2, L.spec, op["mh"])
                if self.judge(case, L, t2, {})[0]:
                    return {"skip": "outside the class", "stats": st, "choices": c.ch.log}
                out["viol"] = dict(v, msg="step %d: %s" % (step, v["msg"]))
                out["choices"] = c.ch.log
                return out
            nver += 1
            nb += n
            sig.append(util.h(util.shape(t.root)))
            st["vt_scenario"] = st.get("vt_scenario", 0) + util.scen_time(t.root)
            L.trees.append((t, snap))
            d = L.check_trees()
            if d:
                out["viol"] = viol("tree_changed", "after step %d: %s" % (step, d))
                out["choices"] = c.ch.log
                return out
        out["choices"] = c.ch.log
        v = L.s.verifier
        st.update(tubes_reused=v.tube_cache_hits[0], tubes_computed=v.tube_cache_hits[1], transitions_reused=v.trans_cache_hits[0], transitions_computed=v.trans_cache_hits[1],
                  branches=nb, verifications=nver, vt_cluster=c.now)
        out["nontrivial"] = nver >= 2 and v.tube_cache_hits[0] > 0
        out["sig"] = out["dig"] = util.h(sig, c.outcome)
        if nver > 2 and nb > 1:
            out["sample"] = "%d verifications, %d branches, %d tubes reused, %d computed" % (nver, nb, v.tube_cache_hits[0], v.tube_cache_hits[1])
        return out


PROPS = [Incremental(), IncrementalVerify()]
