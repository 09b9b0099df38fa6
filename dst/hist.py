"""Histories of operations on one or more scenarios of one process, with injected failures.

Every operation that returns is compared with the same operation on a scenario built anew from the
current settings, run alone in a pristine process (dst/oracle.py)."""
import copy
import random

import numpy as np

from . import canon, fakeray, gen, util
from .core import W, Choices, StepLimit
from .util import viol

AGAIN = ("worker_crash_mid_task", "worker_crash_after_task", "duplicate_execution", "object_lost_rebuilt")
RUNS = ("sim", "ver", "simple", "multi", "list", "part")


def do(s, spec, op):
    """one run operation; returns the list of trees"""
    k = op["op"]
    if k == "sim":
        return [s.simulate(spec["horizon"], spec["dt"], op["mh"], op["seed"])]
    if k == "ver":
        return [gen.verify(s, spec, op["mh"])]
    if k == "part":
        return [s.verify_partitioned(spec["horizon"], spec["dt"], 2, op["mh"])]
    if k == "simple":
        return [s.simulate_simple(spec["horizon"], spec["dt"], op["mh"], op["seed"])]
    if k == "multi":
        return s.simulate_multi(spec["horizon"], spec["dt"], max_height=op["mh"], seed=op["seed"], num_sims=op["k"])
    if k == "list":
        return s.simulate_multi(spec["horizon"], spec["dt"], init_dict_list=op["inits"], max_height=op["mh"])
    raise ValueError(k)


def config(cfg):
    from verse import ScenarioConfig

    return ScenarioConfig(print_level=0, **cfg)


def fresh(req):
    """the reference answer: a new scenario, sequential, alone"""
    util.clean_state()
    spec, op, cfg = req["spec"], copy.deepcopy(req["op"]), dict(req["cfg"], parallel=False, incremental=False)
    W.limit = req.get("limit", 5000)
    try:
        trees = do(gen.make_scenario(spec, config(cfg)), spec, op)
    except StepLimit:
        return ("big",)
    except Exception as e:
        return ("raise", type(e).__name__, str(e)[:200])
    return ("ok", [canon.tree(t.root, True) for t in trees], W.calls, sum(util.scen_time(t.root) for t in trees))


class Scn:
    """a live scenario and what the user knows about it"""

    def __init__(self, spec, cfg, how, share=None):
        self.spec = copy.deepcopy(spec)
        self.cfg = dict(cfg)
        self.how = how
        self.bufs = []  # user's own input objects, and what they contained
        self.s = gen.make_scenario(self.spec, config(self.cfg), how, self.bufs)
        if share is not None:
            self.s.set_sensor(share.s.sensor)
            if not spec.get("track"):
                self.s.set_map(share.s.map)
        self.trees = []  # (tree, snapshot)

    def setinit(self, inits):
        for ag in self.spec["agents"]:
            if ag["id"] in inits:
                ag["init"] = copy.deepcopy(inits[ag["id"]])
        ls, ms, ts = [], [], []
        for ag in self.spec["agents"]:
            ls.append(gen.init_list(self.spec, ag, "set_init"))
            ms.append(gen.mode_enums(self.spec, ag))
            ts.append(gen.static_enums(self.spec, ag))
        self.keep([ls, ms, ts])
        if self.how == "set_init":
            self.s.set_init(ls, ms, ts)
        else:
            for ag, i, m, t in zip(self.spec["agents"], ls, ms, ts):
                self.s.set_init_single(ag["id"], i, m, t)

    def keep(self, obj):
        self.bufs.append([obj, copy.deepcopy(obj)])

    def mutate(self):
        """the user reuses his lists"""
        for b in self.bufs:
            scribble(b[0])
            b[1] = copy.deepcopy(b[0])

    def check_bufs(self):
        for obj, was in self.bufs:
            if canon.num(obj) != canon.num(was):
                return "an input of the user was changed from %s to %s" % (was, obj)
        return None

    def check_trees(self):
        for i, (t, snap) in enumerate(self.trees):
            now = canon.tree(t.root, True)
            if now != snap:
                return "tree %d of scenario was changed after it had been returned: %s" % (i, canon.diff(snap, now))
        return None

    def apply(self, op):
        """an operation of the user which is not a run"""
        k = op["op"]
        if k == "setinit":
            self.setinit(op["inits"])
        elif k == "config":
            self.cfg = dict(op["cfg"])
            self.s.update_config(config(self.cfg))
        elif k == "mutate":
            self.mutate()
        elif k == "scribble":
            # the user overwrites a tree he was given
            if self.trees:
                t, _ = self.trees.pop(op["k"] % len(self.trees))
                scribble_tree(t)
        elif k == "swap":
            # the user gives an agent another decision logic
            ags = [a for a in self.spec["agents"] if a["id"] == op["agent"]["id"]]
            if not ags or ags[0].get("reads") != op["agent"].get("reads"):
                return
            from verse.parser.parser import ControllerIR

            self.spec = copy.deepcopy(self.spec)
            ag = [a for a in self.spec["agents"] if a["id"] == op["agent"]["id"]][0]
            ag["blocks"], ag["asserts"] = copy.deepcopy(op["agent"]["blocks"]), copy.deepcopy(op["agent"]["asserts"])
            if op.get("replace"):
                self.s.agent_dict[ag["id"]] = gen.make_agents(dict(self.spec, agents=[ag]))[0]
            else:
                self.s.agent_dict[ag["id"]].decision_logic = ControllerIR.parse(gen.dl_src(self.spec, ag))
        elif k == "horizon":
            self.spec = dict(self.spec, horizon=op["horizon"], dt=op["dt"])
        elif k == "cleanup":
            self.s.cleanup_cache()
        elif k == "addagent":
            ag = copy.deepcopy(op["agent"])
            if any(a["id"] == ag["id"] for a in self.spec["agents"]):
                return
            sp = dict(self.spec, agents=[ag])
            a = gen.make_agents(sp)[0]
            a.set_initial(copy.deepcopy(ag["init"]), gen.mode_enums(sp, ag), gen.static_enums(sp, ag) or None)
            self.s.add_agent(a)
            self.spec = dict(self.spec, agents=self.spec["agents"] + [ag])


def scribble(x):
    if isinstance(x, dict):
        for k in x:
            if isinstance(x[k], (list, dict)):
                scribble(x[k])
            else:
                x[k] = 77.25
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (list, dict)):
                scribble(v)
            else:
                x[i] = 77.25


def scribble_tree(t):
    for n in util.all_nodes(t.root):
        for d in (n.trace, n.init, n.static, n.uncertain_param):
            for k in d:
                if isinstance(d[k], np.ndarray):
                    if d[k].flags.writeable:
                        d[k][...] = 77.25
                else:
                    scribble(d[k])
                    if isinstance(d[k], list) and (d is n.static or d is n.uncertain_param):
                        d[k].append("Z")
        for k in n.mode:
            if isinstance(n.mode[k], list):
                n.mode[k][:] = ["ZZ"]
            n.mode[k] = ("ZZ",)
        if n.assert_hits:
            n.assert_hits.clear()
    t.nodes.clear()
    t.root.child.clear()
    t.root.agent.clear()


def noise(k):
    r = random.Random(k)
    random.seed(k)
    np.random.seed(k % 2**32)
    for _ in range(r.randrange(5)):
        random.random()
        np.random.rand()


def resort(t):
    """child order out of a canonical tree"""
    kids = sorted((resort(c) for c in t[1]), key=repr)
    return (t[0], tuple(kids))


def run(case, ask, ordered_ok=True):
    """returns an outcome dict; ask(req) gives the reference answer"""
    c = util.cluster(case)
    live = []
    share = None
    for i, sp in enumerate(case["specs"]):
        live.append(Scn(sp, case["cfgs"][i], case["hows"][i], share if case.get("share") else None))
        share = share or live[0]
    out = {"stats": {}}
    st = out["stats"]
    nrun = 0
    sig = []
    vt = 0
    for step, op in enumerate(case["ops"]):
        if op["scn"] >= len(live):
            continue
        L = live[op["scn"]]
        k = op["op"]
        st["op:" + k] = st.get("op:" + k, 0) + 1
        if k not in RUNS:
            if k == "noise":
                noise(op["k"])
            else:
                L.apply(op)
        else:
            par = bool(L.cfg.get("parallel")) and k not in ("simple", "part")
            op2 = copy.deepcopy(op)
            if op2.get("seed", 0) is None and k in ("sim", "simple", "multi") and any(a["init"][0] != a["init"][1] for a in L.spec["agents"]):
                op2["seed"] = 17  # without a seed the sample is not determined
            if k == "list":
                ids = {a["id"] for a in L.spec["agents"]}
                op2["inits"] = [{i: v for i, v in x.items() if i in ids} for x in op2["inits"]]
                if any(set(x) != ids for x in op2["inits"]):
                    continue
                L.keep(op2["inits"])
            ref = ask({"spec": L.spec, "op": copy.deepcopy(op2), "cfg": L.cfg})
            if ref[0] == "big":
                return {"skip": "too big", "stats": st}
            if ref[0] == "error":
                raise RuntimeError("oracle: %s" % (ref,))
            base = W.calls
            killed = W.fired.get("worker_crash_final", 0)
            again = sum(W.fired.get(x, 0) for x in AGAIN)
            W.limit = W.calls + (ref[2] if ref[0] == "ok" else 2000) * 40 + 4000
            fault = op.get("fault")
            W.plan = [dict(f, at=base + f["at"]) for f in fault.get("plan", [])] if fault else []
            if fault and fault.get("kill"):
                c.kill_task = len(c.tasks) + fault["kill"] - 1
            try:
                res = util.attempt(do, L.s, L.spec, op2)
            except StepLimit:
                out["viol"] = viol("nontermination", "step %d (%s): %d seam calls, the reference run %s" % (step, k, W.calls - base, ref[2:3]))
                return out
            fired = any(p.get("done") for p in W.plan) or W.fired.get("worker_crash_final", 0) > killed
            W.plan = []
            c.kill_task = None
            nrun += 1
            st["parallel_runs"] = st.get("parallel_runs", 0) + par
            if res[0] == "raise":
                if fired:
                    st["failed_runs"] = st.get("failed_runs", 0) + 1
                    sig.append((k, res[1]))
                elif ref[0] == "raise" and ref[1] == res[1]:
                    st["both_raise"] = st.get("both_raise", 0) + 1
                else:
                    out["viol"] = viol("outcome", "step %d (%s): raised %s: %s; alone in a new scenario: %s" % (step, k, res[1], res[2], str(ref)[:120]))
                    return out
            else:
                if fired and sum(W.fired.get(x, 0) for x in AGAIN) > again:
                    fired = False  # a task which met the failure was run again
                trees = res[1]
                snaps = [canon.tree(t.root, True) for t in trees]
                if fired and not (fault.get("kill") and not par):
                    out["viol"] = viol("swallowed", "step %d (%s): the failure %s was injected and the run returned as if nothing had happened" % (step, k, fault))
                    return out
                if ref[0] == "raise":
                    out["viol"] = viol("outcome", "step %d (%s): returned; alone in a new scenario: %s" % (step, k, ref))
                    return out
                a, b = ref[1], snaps
                if par or not ordered_ok:
                    a, b = [resort(x) for x in a], [resort(x) for x in b]
                if len(a) != len(b):
                    out["viol"] = viol("differs", "step %d (%s): %d trees instead of %d" % (step, k, len(b), len(a)))
                    return out
                for x, y in zip(a, b):
                    if L.cfg.get("incremental"):
                        # a trace continued from a parent and the same trace computed anew differ in rounding
                        d = canon.similar(x, y, 1e-8)
                        if d:
                            out["viol"] = viol("differs", "step %d (%s), alone / in this history: %s" % (step, k, d))
                            return out
                    elif x != y:
                        out["viol"] = viol("differs", "step %d (%s), alone / in this history: %s" % (step, k, canon.diff(x, y)))
                        return out
                vt += ref[3]
                sig.append((k, [util.h(x) for x in a]))
                if fired:
                    st["fault_without_effect"] = st.get("fault_without_effect", 0) + 1
                for t, sn in zip(trees, snaps):
                    L.trees.append((t, sn))
        for M in live:
            d = M.check_trees()
            if d:
                out["viol"] = viol("tree_changed", "after step %d (%s): %s" % (step, k, d))
                return out
            d = M.check_bufs()
            if d:
                out["viol"] = viol("input_changed", "after step %d (%s): %s" % (step, k, d))
                return out
    out["choices"] = c.ch.log
    st["vt_cluster"] = c.now
    st["vt_scenario"] = 2 * vt
    st["runs"] = nrun
    out["sig"] = util.h(sig, c.outcome)
    out["dig"] = out["sig"]
    out["live"] = live
    out["nrun"] = nrun
    return out
