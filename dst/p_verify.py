"""P03, P05, P17, P14: what verification promises about all behaviours of the sampled semantics."""
import itertools

import numpy as np

from . import gen, ref, util
from .base import Prop
from .core import W, StepLimit, sub_rng
from .util import attempt, viol

TOL = 1e-5


# ---- boxes --------------------------------------------------------------------------------
def box_atom(g, lo, hi, other=None):
    """range of a linear expression over boxes {var: value} lo/hi (ego) and other (lo, hi)"""
    a = b = 0.0
    for k, c in g[1].items():
        if k == "c":
            a += c
            b += c
            continue
        who, v = k.split(".")
        l, h = (lo[v], hi[v]) if who == "ego" else (other[0][v], other[1][v])
        a += min(c * l, c * h)
        b += max(c * l, c * h)
    return a, b


def elem(g):
    """what any / all ask of one agent, with the filter"""
    if len(g) < 3:
        return g[1]
    return ["and", g[1], g[2]] if g[0] == "any" else ["or", g[1], ["not", g[2]]]


def box3(g, ego, others, o=None, tol=1e-7):
    """'yes' on every point of the boxes, 'no' on every point, 'maybe' otherwise (or not known).
    ego/others: (lo, hi) dicts which carry modes too; near-ties are 'maybe'."""
    k = g[0]
    if k == "atom":
        a, b = box_atom(g, ego[0], ego[1], o)
        t = float(g[3])
        if g[2][0] == ">":
            return "yes" if a > t + tol else "no" if b < t - tol else "maybe"
        return "yes" if b < t - tol else "no" if a > t + tol else "maybe"
    if k in ("and", "all"):
        rs = [box3(x, ego, others, o, tol) for x in g[1:]] if k == "and" else [box3(elem(g), ego, others, x, tol) for x in others]
        return "no" if "no" in rs else "yes" if all(r == "yes" for r in rs) else "maybe"
    if k in ("or", "any"):
        rs = [box3(x, ego, others, o, tol) for x in g[1:]] if k == "or" else [box3(elem(g), ego, others, x, tol) for x in others]
        return "yes" if "yes" in rs else "no" if all(r == "no" for r in rs) else "maybe"
    if k == "not":
        return {"yes": "no", "no": "yes", "maybe": "maybe"}[box3(g[1], ego, others, o, tol)]
    if k == "hex":
        return "yes" if (ego[0]["track_mode"], ego[0]["agent_mode"], g[1]) in ego[0]["offers"] else "no"
    st = o[0] if k in ("omode", "okind") else ego[0]
    key = {"aux": "aux_mode", "kind": "type", "okind": "type"}.get(k, "agent_mode")
    return "yes" if st.get(key) == g[1] else "no"


def segs(n, spec):
    """per segment: {agent: (lo dict, hi dict)} with modes"""
    L = min(len(t) for t in n.trace.values()) // 2
    out = []
    for k in range(L):
        row = {}
        for ag in spec["agents"]:
            tr = n.trace[ag["id"]]
            lo = ref.state_of(spec, ag, tr[2 * k], tuple(n.mode[ag["id"]]))
            hi = ref.state_of(spec, ag, tr[2 * k + 1], tuple(n.mode[ag["id"]]))
            if spec.get("track", {}).get("lanes"):
                a, b = gen.lane_ranges(spec, lo["track_mode"], tr[2 * k][1:3], tr[2 * k + 1][1:3])
                lo.update(a)
                hi.update(b)
            row[ag["id"]] = (lo, hi)
        out.append(row)
    return out


def expanded(n, spec):
    return all(a["id"] in n.trace and len(n.trace[a["id"]]) >= 1 for a in spec["agents"])


def in_mode(b, ego):
    return not (b.get("mode") and ego[0]["agent_mode"] != b["mode"]) and not (b.get("aux") and ego[0].get("aux_mode") != b["aux"])


def has_hits(n):
    return bool(n.assert_hits)


def on_bends(spec, g, ego):
    return any(k in ("ego.lon", "ego.lat") for k in g[1]) and isinstance(spec["track"]["lanes"][ego[0]["track_mode"]][0], list)


def bend_violates(spec, g, ego):
    """whether some state of the box certainly violates an atom on a lane of several segments (the ranges
    of lane_ranges are not tight there)"""
    x, y = spec["cont"][:2]
    f = (0, 0.25, 0.5, 0.75, 1)
    for i in f:
        for j in f:
            s = {k: v for k, v in ego[0].items()}
            s[x] += i * (ego[1][x] - s[x])
            s[y] += j * (ego[1][y] - s[y])
            s.update(gen.lane_coords(spec, s["track_mode"], (s[x], s[y])))
            mg = gen.Margin()
            if not gen.guard_eval(g, s, [], None, mg) and mg.m > 1e-5:
                return True
    return False


# ---- containment --------------------------------------------------------------------------
def ref_samples(path, spec):
    """timed states along one reference path: [(t, {agent: mode}, {agent: state row})]"""
    out = []
    for n in path:
        L = min((len(t) for t in n.trace.values()), default=0)
        if not n.expanded:
            # only its start is known
            out.append((n.start, n.mode, {i: np.array(x) for i, x in n.init.items()}, True))
            continue
        for k in range(L):
            t = next(iter(n.trace.values()))[k][0]
            x = {i: tr[k][1:] for i, tr in n.trace.items()}
            if k == 0:
                x = {i: np.array(n.init[i]) for i in n.trace}
            out.append((float(t), n.mode, x, k == 0))
    return out


def holds(n, t, mode, x, timed, spec):
    if {i: tuple(m) for i, m in n.mode.items()} != {i: tuple(m) for i, m in mode.items()}:
        return False
    if not expanded(n, spec):
        return True  # cut by the depth bound or the horizon: it stands for anything
    if timed:
        for i, s in x.items():
            tr = np.asarray(n.trace[i], dtype=float)
            lo, hi = tr[::2], tr[1::2]
            m = min(len(lo), len(hi))
            lo, hi = lo[:m], hi[:m]
            on = (lo[:, 0] - TOL <= t) & (t <= hi[:, 0] + TOL)
            ins = ((lo[:, 1:] - TOL <= s) & (s <= hi[:, 1:] + TOL)).all(axis=1)
            if not (on & ins).any():
                return False
        return True
    m = min(len(tr) for tr in n.trace.values()) // 2
    ok = np.ones(m, dtype=bool)
    for i, s in x.items():
        tr = np.asarray(n.trace[i], dtype=float)
        lo, hi = tr[::2][:m], tr[1::2][:m]
        ok &= ((lo[:, 1:] - TOL <= s) & (s <= hi[:, 1:] + TOL)).all(axis=1)
    return bool(ok.any())


def between(mode, a, b):
    return all(tuple(mode[i]) in (tuple(a[i]), tuple(b[i])) for i in mode)


def contained(root, samples, timed, spec):
    """None, or the first sample no branch of the verification tree accounts for"""
    cur = {id(root): root}
    for j, (t, mode, x, new) in enumerate(samples):
        nxt = {}
        seen = {}
        stack = list(cur.values())
        while stack:
            n = stack.pop()
            if id(n) in seen:
                continue
            seen[id(n)] = n
            if holds(n, t, mode, x, timed, spec):
                nxt[id(n)] = n
            stack.extend(n.child)
        if not nxt:
            # simulate() switches several agents at once, verify() one after the other: the branch may
            # be cut by the depth bound between the two
            if any(not expanded(n, spec) and between(n.mode, samples[j - 1][1], mode) for n in seen.values()):
                return None
            return j
        if any(not expanded(n, spec) for n in nxt.values()):
            return None  # cut by the depth bound: nothing is claimed from there on
        cur = nxt
    return None


# ---- cases --------------------------------------------------------------------------------
def sound_spec(r, prof):
    """a scenario inside the class for which Verse's tubes are meant to be an over-approximation
    at any time of the run: acyclic modes, monotone motion in the guard variable"""
    p = dict(cyclic=False, sound=True, stay=0, names=True, track=0.4, widths=[0.2, 0.5, 0.5, 1.0], steps=[8, 12, 16], nd=[1, 1, 2, 2, 3], n_agents=[1, 1, 1, 2, 2], aux=False, disc=0.1,
             reads=True)
    p.update(prof)
    spec = gen.gen_scenario(r, p)
    if len(spec["agents"]) > 1:
        spec["modes"] = spec["modes"][:3]
        for a in spec["agents"]:
            a["dyn"] = {m: a["dyn"][m] for m in spec["modes"]}
            a["blocks"] = [b for b in a["blocks"] if b["mode"] in spec["modes"] and all(
                k != "agent_mode" or v in spec["modes"] for k, v in b["assign"] + b.get("else", []))]
            for x in a["asserts"]:
                if x.get("mode") and x["mode"] not in spec["modes"]:
                    del x["mode"]
    for a in spec["agents"]:
        # K1 again: a map that refuses one of several joint resets leaves a gap after the guard hits
        for b in a["blocks"]:
            if sum(q["mode"] == b["mode"] for q in a["blocks"]) > 1:
                dst = [v for k, v in b["assign"] if k == "agent_mode"]
                if not dst:
                    continue
                dst = dst[0]
                b["assign"] = [[k, ["h", dst] if k == "track_mode" else v] for k, v in b["assign"]]
                gen.offered(spec, b, dst)
    return spec


def points(spec, r, k):
    """initial points: corners and random points of the initial set, per agent independently"""
    out = []
    for j in range(k):
        ini = {}
        for a in spec["agents"]:
            lo, hi = a["init"]
            if j == 0:
                ini[a["id"]] = tuple(map(float, lo))
            elif j == 1:
                ini[a["id"]] = tuple(map(float, hi))
            elif r.random() < 0.4:
                ini[a["id"]] = tuple(float(r.choice([p, q])) for p, q in zip(lo, hi))
            else:
                ini[a["id"]] = tuple(round(r.uniform(p, q), 9) for p, q in zip(lo, hi))
        out.append(ini)
    return out


def ver(case, spec, c, **kw):
    seg = case.get("seg", 1)
    s = gen.make_scenario(spec, util.config(case, parallel=bool(case.get("sched")), init_seg_length=seg, **kw), case["how"])
    if case.get("api") == "partitioned":
        return s, s.verify_partitioned(spec["horizon"], spec["dt"], case["parts"], case["mh"], partition_initial=case.get("pinit", False), partition_dims=case.get("pdims"))
    return s, gen.verify(s, spec, case["mh"])


class Containment(Prop):
    id = "P03"
    quick_n = 2600
    rule = "a run counts when at least one behaviour with a mode switch, from a point of the initial set, was followed through the verification tree"
    measure = "hash of (verification tree shape, scheduling order)"
    prof = dict(nasserts=[0], poly=0)
    api = "verify"

    def gen(self, r, tier):
        spec = sound_spec(r, dict(self.prof))
        seg = 1 if len(spec["agents"]) > 1 else r.choice([1, 1, 1000])
        c = {"spec": spec, "mh": r.choice([None, None, 4]), "how": r.choice(["set_init", "single", "agent"]), "seg": seg,
             "pts": r.randrange(1 << 30), "npts": 8, "cseed": r.randrange(1 << 30), "ahead": r.choice([1, 3, 8]), "seed": r.randrange(1000)}
        if r.random() < 0.4:
            c["sched"] = util.gen_sched(r)
        return c

    def shrink(self, case):
        for c in util.shrink_case(case):
            # stay inside the class: every block leaves its mode
            if not self.prof.get("sound", True) or all(any(k == "agent_mode" for k, _ in b["assign"]) for a in c["spec"]["agents"] for b in a["blocks"]):
                yield c

    def behaviours(self, case, spec):
        """reference behaviours from several initial points, without borderline decisions"""
        r = sub_rng(case["pts"])
        out = []
        for ini in points(spec, r, case["npts"]):
            mg = gen.Margin()
            t = ref.simulate(spec, ini, mg, None, 300)
            if t is None or t == "length" or mg.m < 1e-6:
                continue
            out.append((ini, t))
        return out

    def follow(self, case, spec, t):
        """(violation or None, behaviours followed, those with a switch)"""
        beh = self.behaviours(case, spec)
        timed = case["seg"] == 1 and case.get("api") != "partitioned"
        n = 0
        switched = 0
        for ini, tr in beh:
            for path in itertools.islice(ref.paths(tr), 40):
                sm = ref_samples(path, spec)
                j = contained(t.root, sm, timed, spec)
                n += 1
                switched += len(path) > 1
                if j is not None:
                    tt, mode, x, _ = sm[j]
                    return viol("escape", "from %s the state at t=%g in modes %s, %s, is in no tube of the verification tree" % (
                        ini, tt, mode, {k: v.tolist() for k, v in x.items()})), n, switched
        # the tool's own simulations too
        if timed and case.get("seed") is not None:
            s2 = gen.make_scenario(spec, util.config(parallel=False), case["how"])
            tr = attempt(s2.simulate, spec["horizon"], spec["dt"], 8, case["seed"])
            if tr[0] == "ok":
                mg = gen.Margin()
                ref.simulate(spec, {k: tuple(map(float, v)) for k, v in tr[1].root.init.items()}, mg, 8, 300)
                if mg.m > 1e-6:
                    for path in itertools.islice(real_paths(tr[1].root), 40):
                        j = contained(t.root, path, timed, spec)
                        n += 1
                        if j is not None:
                            tt, mode, x, _ = path[j]
                            return viol("escape", "simulate(seed=%d): the state at t=%g in modes %s, %s, is in no tube of the verification tree" % (
                                case["seed"], tt, mode, {k: list(v) for k, v in x.items()})), n, switched
        return None, n, switched

    def run(self, case):
        spec = case["spec"]
        W.limit = 6000
        c = util.cluster(case)
        try:
            s, t = ver(case, spec, c)
        except StepLimit:
            return {"skip": "too big"}
        v, n, switched = self.follow(case, spec, t)
        if v:
            return {"viol": v, "choices": c.ch.log}
        out = {"choices": c.ch.log, "stats": {"behaviours": n, "with_switch": switched, "vt_cluster": c.now, "vt_scenario": util.scen_time(t.root),
                                              "nodes": len(t.nodes), "seg%d" % case["seg"]: 1, "agents%d" % len(spec["agents"]): 1}}
        out["nontrivial"] = switched > 0
        out["sig"] = util.h(util.shape(t.root), c.outcome)
        out["dig"] = util.h(util.snapshot(t.root), c.outcome)
        if switched > 2:
            out["sample"] = "%d behaviours, %d with a switch, verification tree of %d nodes" % (n, switched, len(t.nodes))
        return out


def real_paths(n, pre=()):
    pre = pre + (n,)
    if not n.child:
        out = []
        for m in pre:
            if not m.trace or any(i not in m.trace for i in m.agent):
                out.append((float(m.start_time), m.mode, {i: np.asarray(x, dtype=float) for i, x in m.init.items()}, True))
                continue
            L = min(len(t) for t in m.trace.values())
            for k in range(L):
                x = {i: np.asarray(tr[k][1:], dtype=float) for i, tr in m.trace.items()}
                out.append((float(next(iter(m.trace.values()))[k][0]), m.mode, x, k == 0))
        yield out
    for c in n.child:
        yield from real_paths(c, pre)


class Verdict(Containment):
    id = "P05"
    quick_n = 1600
    prof = dict(nasserts=[1, 1, 2], pre=True)
    rule = "a run counts when the scenario has assertions and at least one behaviour was executed against a verdict, or a reported violation was checked against its tube"
    measure = Containment.measure

    def gen(self, r, tier):
        c = Containment.gen(self, r, tier)
        if r.random() < 0.15:
            c["uc"] = True
        return c

    def unsafe_continue(self, case, t, c):
        """with unsafe_continue: the same verdict, and at least the same tubes"""
        _, t2 = ver(dict(case, sched=None), case["spec"], c, unsafe_continue=True)
        a, b = util.all_nodes(t.root), util.all_nodes(t2.root)
        if util.shape(t.root) != util.shape(t2.root):
            return viol("continue", "with unsafe_continue the verdict or the branches differ: %s / %s" % (
                [(n.mode, n.assert_hits) for n in a], [(n.mode, n.assert_hits) for n in b]))
        for key in {util.h(util.shape(n)) for n in a}:
            la = [sum(len(x) for x in n.trace.values()) for n in a if util.h(util.shape(n)) == key]
            lb = [sum(len(x) for x in n.trace.values()) for n in b if util.h(util.shape(n)) == key]
            if sum(lb) < sum(la):
                return viol("continue", "with unsafe_continue the tubes are shorter")
        return None

    def run(self, case):
        spec = case["spec"]
        W.limit = 6000
        c = util.cluster(case)
        try:
            s, t = ver(case, spec, c)
        except StepLimit:
            return {"skip": "too big"}
        nodes = util.all_nodes(t.root)
        stats = {"vt_cluster": c.now, "vt_scenario": util.scen_time(t.root), "nodes": len(nodes), "agents%d" % len(spec["agents"]): 1}
        out = {"choices": c.ch.log, "stats": stats}
        if case.get("uc"):
            out["viol"] = self.unsafe_continue(case, t, c)
            if out["viol"]:
                return out
        out["viol"], done, unsafe = self.judge(case, spec, t, stats)
        if out["viol"]:
            return out
        out["nontrivial"] = any(a["asserts"] for a in spec["agents"]) and (done > 0 or unsafe)
        out["sig"] = util.h(util.shape(t.root), c.outcome)
        out["dig"] = util.h(util.snapshot(t.root), c.outcome)
        if unsafe and len(nodes) > 2:
            out["sample"] = "unsafe verdict, %d nodes, all hits backed by the tube" % len(nodes)
        return out

    def judge(self, case, spec, t, stats):
        """(violation or None, behaviours executed against a safe verdict, whether the verdict is unsafe)"""
        nodes = util.all_nodes(t.root)
        unsafe = any(has_hits(n) for n in nodes)
        cutoff = any(not expanded(n, spec) and n.start_time < spec["horizon"] - 1e-9 for n in nodes)
        stats["unsafe_verdicts"] = stats.get("unsafe_verdicts", 0) + int(unsafe)
        done = 0
        if not unsafe and not cutoff:
            for ini, tr in self.behaviours(case, spec):
                done += 1
                for path in ref.paths(tr):
                    for n in path:
                        if n.asserts:
                            return viol("missed", "verification reports no violation, but from %s assertion %s fails at t=%g" % (
                                ini, n.asserts, n.start + n.cut * spec["dt"])), done, unsafe
        # tube against verdict
        for n in nodes:
            if not expanded(n, spec):
                continue
            sg = segs(n, spec)
            if not sg:
                continue
            hits = {k: set(v) for k, v in (n.assert_hits or {}).items()}
            for k, row in enumerate(sg):
                last = k == len(sg) - 1
                for ag in spec["agents"]:
                    oth = [row[b["id"]] for b in spec["agents"] if b["id"] != ag["id"]] if ag.get("reads") else []
                    ego = row[ag["id"]]
                    for a in ag["asserts"]:
                        if a.get("mode") and ego[0]["agent_mode"] != a["mode"]:
                            st = "yes"
                        else:
                            pre = box3(a["pre"], ego, oth) if a.get("pre") else "yes"
                            st = "yes" if pre == "no" else box3(a["cond"], ego, oth)
                            if pre == "maybe" and st == "no":
                                st = "maybe"
                            if st == "maybe" and a["cond"][0] == "atom" and not a.get("pre"):
                                g = box_atom(a["cond"], ego[0], ego[1])
                                th = float(a["cond"][3])
                                if on_bends(spec, a["cond"], ego):
                                    if bend_violates(spec, a["cond"], ego):
                                        st = "part"
                                elif min(abs(g[0] - th), abs(g[1] - th)) > 1e-5:
                                    st = "part"  # certainly violated on a part of the box
                        lab = a["label"]
                        hit = last and lab in hits.get(ag["id"], ())
                        if hit and st == "yes":
                            return viol("unbacked", "violation %s of %s reported at t=%g, but the tube there satisfies it: %s" % (
                                lab, ag["id"], n.trace[ag["id"]][2 * k][0], ego)), done, unsafe
                        if not hit and st in ("no", "part"):
                            return viol("overlooked", "the tube of %s at t=%g, %s, violates %s, which is not reported" % (
                                ag["id"], n.trace[ag["id"]][2 * k][0], ego, lab)), done, unsafe
                        if hit:
                            stats["backed_hits"] = stats.get("backed_hits", 0) + 1
        return None, done, unsafe


def assigned(spec, src, y):
    """the mode an assignment gives in the source mode (track modes may go through the map)"""
    if isinstance(y, list):
        dv = ref.disc_vars(spec)
        key = [src[dv.index("track_mode")], src[dv.index("agent_mode")], y[1]]
        return dict((tuple(k), v) for k, v in spec["track"]["h"]).get(tuple(key))
    return y


class Justified(Containment):
    id = "P17"
    quick_n = 800
    prof = dict(nasserts=[0], aux=True, sound=False, cyclic=True, resets=0.4, stay=0.12)
    rule = "a run counts when the verification tree has at least one branch, each of which was checked against the tube it leaves"

    def gen(self, r, tier):
        c = Containment.gen(self, r, tier)
        c["mh"] = r.choice([3, 4])
        c["seg"] = r.choice([1, 1000])
        return c

    def run(self, case):
        spec = case["spec"]
        W.limit = 6000
        c = util.cluster(case)
        try:
            s, t = ver(case, spec, c)
        except StepLimit:
            return {"skip": "too big"}
        out = {"choices": c.ch.log}
        out["viol"], nb = self.branches(spec, t)
        if out["viol"]:
            return out
        out["stats"] = {"branches": nb, "vt_cluster": c.now, "vt_scenario": util.scen_time(t.root)}
        out["nontrivial"] = nb > 0
        out["sig"] = util.h(util.shape(t.root), c.outcome)
        out["dig"] = util.h(util.snapshot(t.root), c.outcome)
        if nb > 2:
            out["sample"] = "%d branches" % nb
        return out

    def branches(self, spec, t):
        nb = 0
        for n in util.all_nodes(t.root):
            for ch in n.child:
                nb += 1
                d = self.unjustified(n, ch, spec)
                if d:
                    return viol("unjustified", d), nb
        return None, nb

    def unjustified(self, n, ch, spec):
        diff = [i for i in n.mode if tuple(n.mode[i]) != tuple(ch.mode[i])]
        if len(diff) > 1:
            return "a branch from %s to %s switches several agents at once" % (n.mode, ch.mode)
        if diff:
            return self.switch(n, ch, spec, diff[0])
        # the mode stays: some agent's state was reset
        why = None
        for a in spec["agents"]:
            why = self.switch(n, ch, spec, a["id"])
            if why is None:
                return None
        return why

    def switch(self, n, ch, spec, aid):
        """why the branch cannot be the agent's transition, or None"""
        ag = [a for a in spec["agents"] if a["id"] == aid][0]
        src, dst = tuple(n.mode[aid]), tuple(ch.mode[aid])
        sg = segs(n, spec)
        ks = [k for k in range(len(sg)) if n.trace[aid][2 * k][0] >= ch.start_time - 1e-6]
        if not ks:
            return "branch to %s starts at %g, after the tube ends" % (dst, ch.start_time)
        dv = ref.disc_vars(spec)
        want = {v: dst[i] for i, v in enumerate(dv) if dst[i] != src[i]}
        blocks = gen.branches(ag)
        on = {}
        for k in ks:
            row = sg[k]
            oth = [row[o["id"]] for o in spec["agents"] if o["id"] != aid] if ag.get("reads") else []
            on[k] = [b for b in blocks if in_mode(b, row[aid]) and box3(b["guard"], row[aid], oth) != "no"]
        txt = "branch of %s from %s to %s at t=%g" % (aid, src, dst, ch.start_time)
        if not want and not on[ks[0]]:
            return txt + ": no guard can hold there"
        for v, val in want.items():
            able = [k for k in ks if any(x == v and assigned(spec, src, y) == val for b in on[k] for x, y in b["assign"])]
            if not able:
                return "%s: no guard for %s=%s can hold in the tube from there on" % (txt, v, val)
            if able[0] > ks[0]:
                # the earliest segment of the branch is one where each change is possible
                return "%s: a guard for %s can only hold from t=%g" % (txt, v, n.trace[aid][2 * able[0]][0])
        # its initial set: the image of the tube below the resets that can happen there
        images = []
        for k in ks:
            ego = sg[k][aid]
            dims = []
            for v in spec["cont"]:
                ivs = [(ego[0][v], ego[1][v])]
                for b in on[k]:
                    for x, e in b["assign"]:
                        if x == v:
                            ivs.append(box_atom(["atom", e], ego[0], ego[1]))
                dims.append(ivs)
            images.append(dims)
        for rect in ch.init[aid]:
            lo, hi = np.asarray(rect[0], dtype=float), np.asarray(rect[1], dtype=float)
            if not any(all(any(p[0] - TOL <= lo[d] and hi[d] <= p[1] + TOL for p in ivs) for d, ivs in enumerate(dims)) for dims in images):
                return "%s: the initial set %s, %s is the image of no segment of the tube from there on" % (txt, lo.tolist(), hi.tolist())
        # the other agents go on where they are
        for o in spec["agents"]:
            i = o["id"]
            if i == aid:
                continue
            lo = np.min([np.asarray(q[0], dtype=float) for q in ch.init[i]], axis=0)
            hi = np.max([np.asarray(q[1], dtype=float) for q in ch.init[i]], axis=0)
            k = 2 * ks[0]
            if (lo < np.asarray(n.trace[i][k][1:]) - TOL).any() or (hi > np.asarray(n.trace[i][k + 1][1:]) + TOL).any():
                return "%s: the initial set of %s, %s, %s, is outside its tube" % (txt, i, lo.tolist(), hi.tolist())
        return None


class Partitioned(Containment):
    id = "P14"
    quick_n = 1000
    prof = dict(nasserts=[0], n_agents=[1], disc=0, poly=0)
    rule = "a run counts when at least one behaviour with a mode switch, from a point of the initial set, was followed through the partitioned verification tree"

    def gen(self, r, tier):
        c = Containment.gen(self, r, tier)
        c.pop("sched", None)
        nd = len(c["spec"]["cont"])
        c.update(api="partitioned", seg=1000, parts=r.choice([1, 2, 2, 3]), pinit=r.random() < 0.5, seed=None,
                 pdims=r.choice([None, None, [1], list(range(1, nd + 1))]))
        return c


PROPS = [Containment(), Verdict(), Justified(), Partitioned()]
