"""Scenario specs (JSON), the Verse objects built from them, and their generators.

A spec describes a scenario of hybrid agents with closed-form, dimension-wise decoupled dynamics
x' = a*x + b (per mode), threshold guards, affine resets, and assertions."""
import copy
import dataclasses
import math
import random

import numpy as np

from .core import W

CMP = {">": lambda a, b: a > b, "<": lambda a, b: a < b, ">=": lambda a, b: a >= b, "<=": lambda a, b: a <= b}


# ---- expressions --------------------------------------------------------------------------
BEFORE = 2000.0
LANE_CALL = {"lon": "get_longitudinal_position", "lat": "get_lateral_distance"}


def var_src(k, names):
    """'ego.x' -> ego.x; 'ego.lon', 'ego.lat' -> the position along and off the lane the agent is on"""
    who, v = k.split(".")
    who = names.get(who, who)
    if v in LANE_CALL:
        x, y = names["xy"]
        return "%s.%s(%s.track_mode, [%s.%s, %s.%s])" % (names["track_map"], LANE_CALL[v], who, who, x, who, y)
    return "%s.%s" % (who, v)


def lin_src(e, names={}):
    """{'ego.x': 1, 'o.x': -1, 'c': 2} -> python source; a fixed left-to-right order of terms"""
    parts = []
    for k, v in e.items():
        t = repr(float(v)) if k == "c" else (var_src(k, names) if v == 1 else "%r*%s" % (float(v), var_src(k, names)))
        parts.append(t)
    src = ""
    for i, t in enumerate(parts):
        src = t if i == 0 else "%s + %s" % (src, t)
    return src


def lin_eval(e, env):
    r = None
    for k, v in e.items():
        t = float(v) if k == "c" else (env[k] if v == 1 else float(v) * env[k])
        r = t if r is None else r + t
    return r


class Style:
    """how a decision logic is written: equivalent forms of comparisons, local variables, helper
    functions, constants, filters, names, merged and chained ifs. Seeded, so that a spec always gives
    the same source."""

    def __init__(self, seed, spec=None):
        self.r = None if seed is None else random.Random(seed)
        self.locals = []
        self.consts = []
        self.helpers = set()
        self.dists = []
        self.names = {"others": "others", "track_map": "track_map", "output": "output"}
        if spec is not None:
            self.names["xy"] = spec["cont"][:2]
        if self.p(0.2):
            self.names["output"] = self.r.choice(["next", "res", "out"])

    def p(self, x):
        return self.r is not None and self.r.random() < x

    def lin(self, e):
        if self.p(0.2) and any(k.startswith("o.") for k in e) and not any(k.endswith((".lon", ".lat")) for k in e):
            # a function of two states
            self.dists.append(lin_src(e, {"ego": "p", "o": "q"}))
            return "d%d(ego, o)" % (len(self.dists) - 1)
        return lin_src(e, self.names)

    def atom(self, g):
        e, op, c = self.lin(g[1]), g[2], repr(float(g[3]))
        if self.p(0.15):
            self.consts.append(c)
            c = "LIM%d" % (len(self.consts) - 1)
        if self.p(0.15) and not any(k.startswith("o.") for k in g[1]):
            self.locals.append(e)
            e = "v%d" % (len(self.locals) - 1)
        z = self.r.random() if self.r is not None else 1
        if z < 0.12:
            return "%s %s %s" % (c, {">": "<", "<": ">", ">=": "<=", "<=": ">="}[op], e)
        if z < 0.22:
            return "not (%s %s %s)" % (e, {">": "<=", "<": ">=", ">=": "<", "<=": ">"}[op], c)
        if z < 0.3:
            return "%s %s %s %s 10000.0" % (c, {">": "<", ">=": "<="}[op], e, "<") if op[0] == ">" else "-10000.0 < %s %s %s" % (e, op, c)
        if z < 0.42:
            name = {">": "above", "<": "below", ">=": "reached", "<=": "within"}[op]
            self.helpers.add((name, op))
            return "%s(%s, %s)" % (name, e, c)
        return "%s %s %s" % (e, op, c)

    def mode(self, left, enum, m):
        if self.p(0.15):
            return "not (%s != %s.%s)" % (left, enum, m)
        if self.p(0.1):
            return "%s.%s == %s" % (enum, m, left)
        return "%s == %s.%s" % (left, enum, m)


def guard_src(g, st=None):
    st = st or Style(None)
    k = g[0]
    if k == "atom":
        return st.atom(g)
    if k in ("and", "or"):
        return "(" + (" %s " % k).join(guard_src(x, st) for x in g[1:]) + ")"
    if k in ("any", "all"):
        if len(g) > 2:
            return "%s(%s for o in %s if %s)" % (k, guard_src(g[1], st), st.names["others"], guard_src(g[2], st))
        return "%s(%s for o in %s)" % (k, guard_src(g[1], st), st.names["others"])
    if k == "not":
        return "not (%s)" % guard_src(g[1], st)
    if k == "mode":  # ego's mode
        return "ego.agent_mode == AMode.%s" % g[1]
    if k == "omode":
        return "o.agent_mode == AMode.%s" % g[1]
    if k == "aux":
        return "ego.aux_mode == BMode.%s" % g[1]
    if k == "kind":
        return "ego.type == KindMode.%s" % g[1]
    if k == "okind":
        return "o.type == KindMode.%s" % g[1]
    if k == "hex":  # the map offers a way into the mode
        return "%s.h_exist(ego.track_mode, ego.agent_mode, AMode.%s)" % (st.names["track_map"], g[1])
    raise ValueError(k)


class Margin:
    """smallest distance of any evaluated threshold from equality"""

    def __init__(self):
        self.m = math.inf


def guard_eval(g, ego, others, o=None, mg=None):
    """ego/others: dict with 'agent_mode','aux_mode' and cont variables"""
    k = g[0]
    if k == "atom":
        env = {"ego." + n: v for n, v in ego.items()}
        if o is not None:
            env.update({"o." + n: v for n, v in o.items()})
        v = lin_eval(g[1], env)
        if mg is not None:
            mg.m = min([mg.m, abs(v - float(g[3]))] + [env[n[:-3] + "edge"] for n in g[1] if n[-4:] in (".lon", ".lat")])
        return bool(CMP[g[2]](v, float(g[3])))
    if k == "and":
        return all([guard_eval(x, ego, others, o, mg) for x in g[1:]])
    if k == "or":
        return any([guard_eval(x, ego, others, o, mg) for x in g[1:]])
    if k in ("any", "all"):
        rs = [guard_eval(g[1], ego, others, x, mg) for x in others if len(g) < 3 or guard_eval(g[2], ego, others, x, mg)]
        return any(rs) if k == "any" else all(rs)
    if k == "not":
        return not guard_eval(g[1], ego, others, o, mg)
    if k == "mode":
        return ego["agent_mode"] == g[1]
    if k == "omode":
        return o["agent_mode"] == g[1]
    if k == "aux":
        return ego.get("aux_mode") == g[1]
    if k == "kind":
        return ego["type"] == g[1]
    if k == "okind":
        return o["type"] == g[1]
    if k == "hex":
        return (ego["track_mode"], ego["agent_mode"], g[1]) in ego["offers"]
    raise ValueError(k)


def has_others(g):
    return g[0] in ("any", "all") or any(has_others(x) for x in g[1:] if isinstance(x, list) and x and isinstance(x[0], str))


# ---- decision logic source ----------------------------------------------------------------
def dl_src(spec, ag):
    aux = spec.get("aux")
    L = ["from enum import Enum, auto", "import copy", "from typing import List", ""]
    L.append("class AMode(Enum):")
    for m in spec["modes"]:
        L.append("    %s = auto()" % m)
    if aux:
        L.append("class BMode(Enum):")
        for m in aux:
            L.append("    %s = auto()" % m)
    if spec.get("track"):
        L.append("class TrackMode(Enum):")
        for m in spec["track"]["names"]:
            L.append("    %s = auto()" % m)
    if spec.get("kinds"):
        L.append("class KindMode(Enum):")
        for m in spec["kinds"]:
            L.append("    %s = auto()" % m)
    L.append("class State:")
    for v in spec["cont"]:
        L.append("    %s: float" % v)
    L.append("    agent_mode: AMode")
    if aux:
        L.append("    aux_mode: BMode")
    if spec.get("track"):
        L.append("    track_mode: TrackMode")
    if spec.get("kinds"):
        L.append("    type: KindMode")
    args = ", ".join(spec["cont"] + ["agent_mode: AMode"] + (["aux_mode: BMode"] if aux else [])
                     + (["track_mode: TrackMode"] if spec.get("track") else [])
                     + (["type: KindMode"] if spec.get("kinds") else []))
    L.append("    def __init__(self, %s):" % args)
    L.append("        pass")
    L.append("")
    st = Style(spec.get("style"), spec)
    sig = "ego: State"
    if ag.get("reads"):
        sig += ", %s: List[State]" % st.names["others"]
    if spec.get("track"):
        sig += ", " + st.names["track_map"]
    B = []
    blocks = ag["blocks"]
    groups = [[b] for b in blocks]
    if st.p(0.6):
        # consecutive blocks of the same mode below one if
        groups = []
        for b in blocks:
            if groups and b.get("mode") and not b.get("else") and not b.get("alt") and groups[-1][0].get("mode") == b["mode"] and not groups[-1][0].get("else"):
                groups[-1].append(b)
            else:
                groups.append([b])
    chain = st.p(0.6)
    before = None
    last = None
    for g in groups:
        mode = g[0].get("mode")
        if len(g) == 1 and g[0].get("alt") and last is not None and not last.get("nest") and st.p(0.7):
            # "elif" of the block before
            conds = [st.mode("ego.agent_mode", "AMode", mode)] if st.p(0.5) else ["ego.agent_mode == AMode.%s" % mode]
            B.append("    elif %s:" % " and ".join(conds + [guard_src(g[0]["alt"], st)]))
            B.extend("        " + assign_src(var, val, st) for var, val in g[0]["assign"])
            last = None
            continue
        last = None
        if len(g) == 1 and not (chain and mode and not g[0].get("else")):
            block_src(B, "    ", g[0], True, st)
            before, last = None, g[0]
            continue
        word = "if"
        if chain and before and mode not in before:
            word = "elif"
        B.append("    %s %s:" % (word, st.mode("ego.agent_mode", "AMode", mode)))
        before = (before if word == "elif" else set()) | {mode}
        for b in g:
            block_src(B, "        ", b, False, st)
    for a in ag.get("asserts", []):
        pre = []
        if a.get("mode"):
            pre.append(st.mode("ego.agent_mode", "AMode", a["mode"]))
        if a.get("pre"):
            pre.append(guard_src(a["pre"], st))
        ind = "    "
        if pre:
            B.append(ind + "if %s:" % " and ".join(pre))
            ind += "    "
        B.append(ind + "assert %s, %r" % (guard_src(a["cond"], st), a["label"]))
    for name, op in sorted(st.helpers):
        L.append("def %s(a, b):" % name)
        L.append("    return a %s b" % op)
        L.append("")
    for k, e in enumerate(st.dists):
        L.append("def d%d(p, q):" % k)
        L.append("    return %s" % e)
        L.append("")
    for k, e in enumerate(st.consts):
        L.append("LIM%d = %s" % (k, e))
    L.append("def decisionLogic(%s):" % sig)
    L.append("    %s = copy.deepcopy(ego)" % st.names["output"])
    for k, e in enumerate(st.locals):
        L.append("    v%d = %s" % (k, e))
    L += B
    L.append("    return %s" % st.names["output"])
    return "\n".join(L) + "\n"


def block_src(B, ind, b, with_mode, st):
    conds = []
    if with_mode and b.get("mode"):
        conds.append(st.mode("ego.agent_mode", "AMode", b["mode"]))
    if b.get("aux"):
        conds.append("ego.aux_mode == BMode.%s" % b["aux"])
    if b.get("track"):
        conds.append("ego.track_mode == TrackMode.%s" % b["track"])
    gs = guard_src(b["guard"], st)
    if b.get("nest") and conds:
        B.append(ind + "if %s:" % " and ".join(conds))
        ind += "    "
        B.append(ind + "if %s:" % gs)
    else:
        B.append(ind + "if %s:" % " and ".join(conds + [gs]))
    for var, val in b["assign"]:
        B.append(ind + "    " + assign_src(var, val, st))
    if b.get("else"):
        B.append(ind + "else:")
        for var, val in b["else"]:
            B.append(ind + "    " + assign_src(var, val, st))


def branches(ag):
    """the blocks with their else branches as blocks of their own"""
    out = []
    for b in ag["blocks"]:
        out.append(b)
        if b.get("else"):
            out.append(dict(b, guard=["not", b["guard"]], assign=b["else"]))
    return out


def assign_src(var, val, st):
    out, tm = st.names["output"], st.names["track_map"]
    if var == "agent_mode":
        return "%s.agent_mode = AMode.%s" % (out, val)
    if var == "aux_mode":
        return "%s.aux_mode = BMode.%s" % (out, val)
    if var == "track_mode":
        if val[0] == "h":
            return "%s.track_mode = %s.h(ego.track_mode, ego.agent_mode, AMode.%s)" % (out, tm, val[1])
        return "%s.track_mode = TrackMode.%s" % (out, val)
    return "%s.%s = %s" % (out, var, lin_src(val, st.names))


# ---- plant --------------------------------------------------------------------------------
def npoints(horizon, dt):
    return int(math.ceil(round(horizon / dt, 6)))


def plant(dyn, init, horizon, dt):
    """exact solution of x' = a x + b, sampled at k*dt for k = 0..n"""
    n = npoints(horizon, dt)
    t = np.round(np.arange(0, n + 1) * dt, 10)
    out = np.zeros((n + 1, len(dyn) + 1))
    out[:, 0] = t
    for d, (a, b) in enumerate(dyn):
        x0 = float(init[d])
        if a == 0:
            out[:, d + 1] = x0 + b * t
        else:
            out[:, d + 1] = (x0 + b / a) * np.exp(a * t) - b / a
    return out


def dyn_of(spec, ag, mode):
    return ag["dyn"][mode[0]]


def make_agents(spec):
    from .agents import GenAgent

    out = []
    for ag in spec["agents"]:
        a = GenAgent(ag["id"], dl_src(spec, ag), spec, ag)
        out.append(a)
    return out


def mode_names(spec, ag):
    m = [ag["mode0"]]
    if spec.get("aux"):
        m.append(ag["aux0"])
    if spec.get("track"):
        m.append(ag["track0"])
    return m


def init_list(spec, ag, how):
    lo, hi = ag["init"]
    if spec.get("short") and how != "agent" and list(lo) == list(hi):
        return [list(lo)]
    return [list(lo), list(hi)]


def make_scenario(spec, config, how="set_init", bufs=None):
    from verse import Scenario
    from .agents import GenSensor

    if spec.get("method"):
        from verse.analysis import ReachabilityMethod

        config = dataclasses.replace(config, reachability_method=ReachabilityMethod[spec["method"]])
    s = Scenario(config)
    if spec.get("track"):
        s.set_map(make_map(spec))
    agents = make_agents(spec)
    inits, modes, static = [], [], []
    for a, ag in zip(agents, spec["agents"]):
        inits.append(init_list(spec, ag, how))
        modes.append(mode_enums(spec, ag))
        static.append(static_enums(spec, ag))
    if bufs is not None:
        bufs.append([[inits, modes, static], copy.deepcopy([inits, modes, static])])
    if how == "agent":
        for a, i, m, t in zip(agents, inits, modes, static):
            a.set_initial(i, m, t or None)
            s.add_agent(a)
    else:
        for a in agents:
            s.add_agent(a)
        if how == "single":
            for a, i, m, t in zip(agents, inits, modes, static):
                s.set_init_single(a.id, i, m, t)
        else:
            s.set_init(inits, modes, static)
    s.set_sensor(GenSensor())
    return s


def verify(s, spec, mh):
    if spec.get("bloat"):
        return s.verify(spec["horizon"], spec["dt"], mh, params={"bloating_method": spec["bloat"]})
    return s.verify(spec["horizon"], spec["dt"], mh)


_ENUMS = {}


def enum_of(name, members):
    import enum

    key = (name, tuple(members))
    if key not in _ENUMS:
        _ENUMS[key] = enum.Enum(name, list(members))
    return _ENUMS[key]


def mode_enums(spec, ag):
    m = [enum_of("AMode", spec["modes"])[ag["mode0"]]]
    if spec.get("aux"):
        m.append(enum_of("BMode", spec["aux"])[ag["aux0"]])
    if spec.get("track"):
        m.append(enum_of("TrackMode", spec["track"]["names"])[ag["track0"]])
    return tuple(m)


def static_enums(spec, ag):
    return [enum_of("KindMode", spec["kinds"])[ag["kind"]]] if spec.get("kinds") else []


def make_map(spec):
    from .agents import GenMap

    return GenMap(spec["track"])


# ---- generators ---------------------------------------------------------------------------
def c3(r, lo, hi):
    """a constant off every grid the samples fall on"""
    return round(r.uniform(lo, hi), 2) + r.choice([0.00137, 0.00271, 0.00419])


def gen_scenario(r, profile):
    """profile: dict of knobs
    n_agents, reads(bool), multi(bool: several blocks per mode), resets, asserts, aux, sound (only
    guards which every trajectory of the set passes), point (degenerate initial sets)"""
    nd = r.choice(profile.get("nd", [1, 2, 2, 3]))
    cont = [["x", "y", "z"], ["pos", "v", "h"], ["x", "x2", "xx"]][r.choice([0, 0, 0, 1, 1, 2] if profile.get("names") else [0, 1])][:nd]
    nm = r.choice([2, 2, 3, 3, 4])
    modes = ["A", "B", "C", "D"][:nm]
    aux = ["P", "Q"] if profile.get("aux") and r.random() < 0.3 else None
    na = r.choice(profile.get("n_agents", [1, 1, 2, 2, 3]))
    dt = r.choice([0.1, 0.1, 0.25, 0.25, 0.2, 0.5, 0.125, 0.0625])
    steps = r.choice(profile.get("steps", [8, 12, 16, 24]))
    horizon = round(dt * steps, 6)
    spec = {"cont": cont, "modes": modes, "aux": aux, "dt": dt, "horizon": horizon, "agents": []}
    if r.random() < profile.get("track", 0):
        names = ["T0", "T1", "T2"][: r.choice([2, 3])]
        table = []
        for t in names:
            for m in modes:
                for m2 in modes:
                    if m != m2:
                        table.append([[t, m, m2], r.choice(names)])
        spec["track"] = {"names": names, "h": table}
        if nd > 1 and r.random() < 0.65:
            turn = r.choice([0, 0.3, 0.7, 0.7])
            spec["track"]["lanes"] = {}
            at = r.choice([0, math.pi / 2, math.pi, math.pi, -math.pi / 2]) + r.uniform(-0.2, 0.2)
            for t in names:
                a = r.uniform(-turn, turn)
                spec["track"]["lanes"][t] = [round(r.uniform(-3, 3), 1), round(r.uniform(-3, 3), 1), math.cos(a), math.sin(a)]
            if r.random() < 0.4:
                # bent lanes, around a centre from which the agents are in the direction `at`
                d = r.choice([1, -1])
                for t in names if r.random() < 0.7 else names[:1]:
                    R = round(r.uniform(2.5, 8) * reach_of(spec), 1)
                    c = [round(-(R + r.uniform(-3, 3)) * f(at), 1) for f in (math.cos, math.sin)]
                    spec["track"]["lanes"][t] = c + [R, round(at - d * r.uniform(1, 2), 2), d]
            if r.random() < profile.get("poly", 0.35):
                for t in names:
                    spec["track"]["lanes"][t] = gen_poly(r)
        if r.random() < 0.3:
            # the map does not offer some changes at all
            spec["track"]["h"] = [x for x in table if r.random() < 0.8]
    if r.random() < profile.get("kinds", 0.15):
        spec["kinds"] = ["K", "L", "M"][: r.choice([2, 3])]
    for i in range(na):
        spec["agents"].append(gen_agent(r, spec, i, na, profile))
    if na > 2 and r.random() < 0.5:
        # agents with equal values
        a, b = spec["agents"][-2:]
        d = r.randrange(nd)
        for m in modes:
            b["dyn"][m][d] = list(a["dyn"][m][d])
        b["init"] = [[p if k == d else q for k, (p, q) in enumerate(zip(x, y))] for x, y in zip(a["init"], b["init"])]
    if r.random() < 0.5:
        spec["style"] = r.randrange(1 << 30)
    if r.random() < 0.3:
        spec["short"] = True  # a point is given as a list with one state
    if r.random() < profile.get("global", 0.12):
        spec["bloat"] = "GLOBAL"
    if r.random() < profile.get("disc", 0):
        spec["method"] = "DRYVR_DISC"
    return spec


def gen_poly(r):
    """a lane of several straight segments which bends near the agents"""
    a = r.uniform(-math.pi, math.pi)
    x, y = round(r.uniform(-3, 3), 1), round(r.uniform(-3, 3), 1)
    out = [[x - BEFORE * math.cos(a), y - BEFORE * math.sin(a), math.cos(a), math.sin(a), BEFORE]]
    n = r.choice([1, 2, 2, 3])
    for k in range(n):
        a += r.choice([-1, 1]) * r.uniform(0.15, 1.2)
        ln = round(r.uniform(0.5, 5), 1) if k < n - 1 else BEFORE
        out.append([x, y, math.cos(a), math.sin(a), ln])
        x, y = x + ln * math.cos(a), y + ln * math.sin(a)
    return out


def gen_agent(r, spec, i, na, profile):
    cont, modes, aux = spec["cont"], spec["modes"], spec["aux"]
    nd = len(cont)
    T = spec["horizon"]
    ag = {"id": "a%d" % i, "dyn": {}, "blocks": [], "asserts": []}
    sgn = [r.choice([1, 1, -1]) for _ in range(nd)]
    for m in modes:
        ag["dyn"][m] = []
        for d in range(nd):
            b = round(r.uniform(0.3, 3.0), 1) * (sgn[d] if d == 0 else r.choice([1, -1, 1, 0]))
            a = r.choice([0, 0, 0, 0.1, -0.1]) if d > 0 else 0
            if a and d > 0 and profile.get("lin", True) is False:
                a = 0
            ag["dyn"][m].append([a, b])
    w = r.choice(profile.get("widths", [0, 0.2, 0.5, 1.0]))
    lo = [round(r.uniform(-2, 2), 1) for _ in range(nd)]
    hi = [round(x + (w if r.random() < 0.8 else 0), 3) for x in lo]
    ag["init"] = [lo, hi]
    ag["mode0"] = modes[0]
    if aux:
        ag["aux0"] = aux[0]
    if spec.get("track"):
        ag["track0"] = spec["track"]["names"][0]
    if spec.get("kinds"):
        ag["kind"] = r.choice(spec["kinds"])
    reads = bool(na > 1 and profile.get("reads", True) and r.random() < 0.7)
    ag["reads"] = reads
    # guards: thresholds on x0 in the direction of motion
    v = cont[0]
    span = abs(ag["dyn"][modes[0]][0][1]) * T
    nb = r.choice(profile.get("nblocks", [0, 1, 1, 2, 2, 2, 3, 3, 4]))
    for j in range(nb):
        src = modes[min(j, len(modes) - 1)] if r.random() < 0.6 else r.choice(modes[:-1])
        dests = [m for m in modes if m != src]
        if not profile.get("cyclic", True):
            dests = modes[modes.index(src) + 1:] or None
            if dests is None:
                continue
        dst = r.choice(dests)
        lo0 = ag["init"][0][0]
        thr = lo0 + sgn[0] * span * r.uniform(0.05, 0.5) * (1 if src == modes[0] else r.uniform(1, 1.6))
        op = ">" if sgn[0] > 0 else "<"
        if r.random() < 0.3:
            op += "="
        g = ["atom", {"ego." + v: 1}, op, c3(r, thr - 0.05, thr + 0.05)]
        kind = r.random()
        if reads and kind < 0.4 and not profile.get("sound"):
            q = r.choice(["any", "any", "all"])
            g = [q, ["atom", {"ego." + v: 1, "o." + v: -1}, r.choice(["<", ">"]), c3(r, -3, 3)]]
            if r.random() < 0.3:
                g = ["and", g, ["atom", {"ego." + v: 1}, op, c3(r, thr - 0.05, thr + 0.05)]]
            elif r.random() < 0.3:
                g = ["any", ["and", g[1], ["omode", r.choice(modes)]]]
        elif kind < 0.55 and nd > 1 and not profile.get("sound"):
            d = r.randrange(1, nd)
            g2 = ["atom", {"ego." + cont[d]: 1}, r.choice(["<", ">"]), c3(r, -2, 4)]
            g = [r.choice(["and", "or"]), g, g2]
        elif kind < 0.4 and nd > 1 and profile.get("sound"):
            # several variables, all of which move towards the guard
            s = 1 if op[0] == ">" else -1
            d = r.randrange(1, nd)
            bd = ag["dyn"][src][d]
            if not bd[0]:
                k = s * (1 if bd[1] >= 0 else -1) * r.choice([0.25, 0.5, 1])
                e = {"ego." + v: 1, "ego." + cont[d]: k}
                if nd > 2 and r.random() < 0.5:
                    d2 = 3 - d
                    if not ag["dyn"][src][d2][0]:
                        e["ego." + cont[d2]] = s * (1 if ag["dyn"][src][d2][1] >= 0 else -1) * r.choice([0.25, 0.5])
                off = sum(q * lo[cont.index(n[4:])] for n, q in e.items()) - lo[0]
                if r.random() < 0.6:
                    g = ["atom", e, op, c3(r, thr + off - 0.05, thr + off + 0.05)]
                else:
                    g2 = ["atom", {"ego." + cont[d]: 1}, ">" if bd[1] >= 0 else "<", c3(r, lo[d] - 1, lo[d] + 1)]
                    g = [r.choice(["and", "or"]), g, g2]
        if spec.get("track", {}).get("lanes") and r.random() < (0.6 if profile.get("sound") else 0.4):
            g = lane_guard(r, spec, ag, src, reads, profile) or g
        if r.random() < 0.2:
            g = side_guard(r, spec, g, dst, reads)
        assign = [["agent_mode", dst]]
        if aux and r.random() < 0.5:
            assign.append(["aux_mode", r.choice(aux)])
        if spec.get("track") and r.random() < 0.7:
            # through the map, or a fixed track which the map may not offer
            assign.append(["track_mode", ["h", dst] if r.random() < 0.6 else r.choice(spec["track"]["names"])])
        if r.random() < profile.get("resets", 0.3):
            d = r.randrange(nd) if not profile.get("sound") else r.randrange(nd)
            e = r.choice([{"c": c3(r, -2, 2)}, {"ego." + cont[d]: r.choice([0.5, 1, -1]), "c": c3(r, -1, 1)}])
            if nd > 1 and r.random() < 0.3:
                e = {"ego." + cont[d]: 0.5, "ego." + cont[(d + 1) % nd]: r.choice([0.5, -0.5]), "c": c3(r, -1, 1)}
                if nd > 2 and r.random() < 0.5:
                    e["ego." + cont[(d + 2) % nd]] = r.choice([0.5, -0.5, 1])
            assign.append([cont[d], e])
        if r.random() < profile.get("stay", 0.12):
            # the mode stays, the state jumps back from the threshold
            thr0 = g[3] if g[0] == "atom" and set(g[1]) == {"ego." + v} else thr
            back = thr0 - sgn[0] * r.uniform(0.6, 2.0)
            assign = [[v, {"c": c3(r, back, back + 0.1)} if r.random() < 0.5 else {"ego." + v: 1, "c": round(-sgn[0] * r.uniform(0.6, 2), 3)}]]
        b = {"mode": src, "guard": g, "assign": assign, "nest": r.random() < 0.5}
        offered(spec, b, dst)
        g = b["guard"]
        ag["blocks"].append(b)
        if profile.get("multi", True) and r.random() < 0.35:
            # nondeterminism: the same guard enables another destination too
            other = [m for m in dests if m != dst]
            if other and len(assign[0][0]) > 9:
                b2 = {"mode": src, "guard": g, "assign": [["agent_mode", r.choice(other)]], "nest": r.random() < 0.5}
                ag["blocks"].append(b2)
        if not profile.get("sound") and r.random() < 0.06:
            # decides either way
            ag["blocks"][-1].update(nest=True)
            ag["blocks"][-1]["else"] = [["agent_mode", r.choice(dests)]] if r.random() < 0.7 else [["agent_mode", src]] + [q for q in assign if q[0] in cont]
        elif not profile.get("sound") and r.random() < 0.15:
            # an alternative that is taken only when this block is not
            g2 = ["atom", {"ego." + cont[-1]: 1}, r.choice(["<", ">"]), c3(r, -2, 3)]
            ag["blocks"].append({"mode": src, "guard": ["and", ["not", ag["blocks"][-1]["guard"]], g2], "alt": g2, "nest": False,
                                 "assign": [["agent_mode", r.choice(dests)]]})
    for k in range(r.choice(profile.get("nasserts", [0, 0, 1, 1, 2]))):
        d = r.randrange(nd)
        far = r.uniform(0.3, 2.0)
        x0 = ag["init"][0][d]
        up = r.random() < 0.6 if d else sgn[0] > 0
        op, val = ("<", x0 + far * max(span, 1)) if up else (">", x0 - far * max(span, 1))
        a = {"label": "L%d_%d" % (i, k), "cond": ["atom", {"ego." + cont[d]: 1}, op, c3(r, val, val + 0.3)]}
        z = r.random()
        if z < 0.3:
            a["mode"] = r.choice(modes)
        if reads and r.random() < 0.3:
            a["cond"] = ["all", ["atom", {"ego." + v: 1, "o." + v: -1}, r.choice([">", "<"]), c3(r, -8, 8)]]
        if spec.get("track", {}).get("lanes") and r.random() < 0.4:
            k = r.choice(["lon", "lat"])
            at = lane_coords(spec, ag["track0"], lo)[k]
            up = r.random() < 0.5
            a["cond"] = ["atom", {"ego." + k: 1}, "<" if up else ">", c3(r, at, at + 0.3) + (1 if up else -1) * far * max(span, 1)]
        elif a["cond"][0] == "all" and r.random() < 0.2:
            a["cond"].append(["omode", r.choice(modes)] if r.random() < 0.5 else ["atom", {"o." + v: 1}, r.choice(["<", ">"]), c3(r, -3, 3)])
        if profile.get("pre") and r.random() < 0.3:
            a["pre"] = ["atom", {"ego." + cont[-1]: 1}, r.choice(["<", ">"]), c3(r, -3, 3)]
        ag["asserts"].append(a)
    return ag


def offered(spec, b, dst):
    """where the map does not offer a change, it is asked before it is followed"""
    if ["track_mode", ["h", dst]] in b["assign"] and "hex" not in str(b["guard"]) and any((t, b["mode"], dst) not in offers(spec) for t in spec["track"]["names"]):
        b["guard"] = ["and", ["hex", dst], b["guard"]]


_OFFERS = {}


def offers(spec):
    key = str(spec["track"]["h"])
    if key not in _OFFERS:
        if len(_OFFERS) > 200:
            _OFFERS.clear()
        _OFFERS[key] = {tuple(k) for k, v in spec["track"]["h"]}
    return _OFFERS[key]


def lane_coords(spec, track, p):
    """(along, off) the lane of a track, for a point; straight lanes start BEFORE their origin"""
    t = spec["track"]["lanes"][track]
    if isinstance(t[0], list):
        return poly_coords(t, p)
    if len(t) == 5:
        cx, cy, R, phase, d = t
        dx, dy = float(p[0]) - cx, float(p[1]) - cy
        return {"lon": d * wrap(math.atan2(dy, dx) - phase) * R, "lat": d * (R - math.hypot(dx, dy)), "edge": math.inf}
    x0, y0, ux, uy = t
    dx, dy = float(p[0]) - x0, float(p[1]) - y0
    return {"lon": dx * ux + dy * uy + BEFORE, "lat": -dx * uy + dy * ux, "edge": math.inf}


SLACK = 3  # a segment of a lane also covers so much before its start


def poly_coords(segs, p):
    """on a lane of several straight segments: of those beside which the point is, the one with the smallest
    signed distance decides, the first one if there is none"""
    on, edge, off = [], math.inf, 0.0
    first = None
    for x0, y0, ux, uy, ln in segs:
        dx, dy = float(p[0]) - x0, float(p[1]) - y0
        lon, lat = dx * ux + dy * uy, -dx * uy + dy * ux
        first = first or (lat, lon + off)
        if -SLACK <= lon < ln:
            on.append((lat, lon + off))
        edge = min(edge, abs(lon + SLACK), abs(lon - ln))
        off += ln
    on.sort()
    if len(on) > 1:
        edge = min(edge, on[1][0] - on[0][0])
    lat, lon = on[0] if on else first
    return {"lon": lon, "lat": lat, "edge": edge}


def poly_ranges(segs, lo, hi):
    """for every segment which some point of the rectangle may belong to"""
    parts, off, covered = [], 0.0, False
    for k, (x0, y0, ux, uy, ln) in enumerate(segs):
        r = []
        for cx, cy in ((ux, uy), (-uy, ux)):
            xs = sorted((cx * (lo[0] - x0), cx * (hi[0] - x0)))
            ys = sorted((cy * (lo[1] - y0), cy * (hi[1] - y0)))
            r.append((xs[0] + ys[0], xs[1] + ys[1]))
        (a, b), lat = r
        part = (a + off, b + off) + lat
        if b >= -SLACK - 1e-6 and a <= ln + 1e-6:
            parts.append(part)
        covered = covered or (a >= -SLACK and b < ln)
        if k == 0:
            first = part
        off += ln
    if not covered:
        parts.append(first)
    return {"lon": min(q[0] for q in parts), "lat": min(q[2] for q in parts)}, {"lon": max(q[1] for q in parts), "lat": max(q[3] for q in parts)}


def wrap(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


def lane_ranges(spec, track, lo, hi):
    """the same for a rectangle (arcs: one which does not hold the centre)"""
    t = spec["track"]["lanes"][track]
    lo, hi = [float(v) for v in lo], [float(v) for v in hi]
    if isinstance(t[0], list):
        return poly_ranges(t, lo, hi)
    if len(t) == 5:
        cs = [lane_coords(spec, track, (x, y)) for x in (lo[0], hi[0]) for y in (lo[1], hi[1])]
        near = lane_coords(spec, track, [min(max(c, q), p) for c, q, p in zip(t[:2], lo, hi)])
        ls, rs = [c["lon"] for c in cs], [c["lat"] for c in cs + [near]]
        if max(ls) - min(ls) > math.pi * t[2]:
            ls = [-math.pi * t[2], math.pi * t[2]]
        return {"lon": min(ls), "lat": min(rs)}, {"lon": max(ls), "lat": max(rs)}
    x0, y0, ux, uy = t
    a, b = {}, {}
    for k, (cx, cy), off in (("lon", (ux, uy), BEFORE), ("lat", (-uy, ux), 0.0)):
        xs = sorted((cx * (lo[0] - x0), cx * (hi[0] - x0)))
        ys = sorted((cy * (lo[1] - y0), cy * (hi[1] - y0)))
        a[k], b[k] = xs[0] + ys[0] + off, xs[1] + ys[1] + off
    return a, b


def reach_of(spec):
    """how far agents get"""
    return 5 + 3.5 * spec["horizon"]


def lane_rate(t, k, p, v):
    """how fast the position along or off a lane changes at p with velocity v"""
    if len(t) == 5:
        cx, cy, R, phase, d = t
        dx, dy = float(p[0]) - cx, float(p[1]) - cy
        r = math.hypot(dx, dy)
        return d * R * (dx * v[1] - dy * v[0]) / r / r if k == "lon" else -d * (dx * v[0] + dy * v[1]) / r
    x0, y0, ux, uy = t
    return v[0] * ux + v[1] * uy if k == "lon" else -v[0] * uy + v[1] * ux


def lane_guard(r, spec, ag, src, reads, profile):
    """a guard on the position along or off the lane, in the direction of motion on every lane"""
    k = r.choice(["lon", "lon", "lat"])
    if reads and not profile.get("sound") and r.random() < 0.4:
        return [r.choice(["any", "all"]), ["atom", {"ego." + k: 1, "o." + k: -1}, r.choice(["<", ">"]), c3(r, -3, 3)]]
    dx, dy = ag["dyn"][src][:2]
    if dx[0] or dy[0]:
        return None
    lanes, vel = spec["track"]["lanes"], (dx[1], dy[1])
    if isinstance(lanes[ag["track0"]][0], list):
        # such positions jump: no monotone guards
        at = lane_coords(spec, ag["track0"], ag["init"][0])[k] + r.uniform(-6, 6)
        return None if profile.get("sound") else ["atom", {"ego." + k: 1}, r.choice(["<", ">", ">="]), c3(r, at, at + 0.1)]
    q = reach_of(spec)
    vs = [lane_rate(t, k, p, vel) for t in lanes.values() for p in ((-q, -q), (-q, q), (q, -q), (q, q))]
    if min(map(abs, vs)) < 0.1 or len({v > 0 for v in vs}) > 1:
        return None
    at = lane_coords(spec, ag["track0"], ag["init"][0])[k]
    v0 = lane_rate(lanes[ag["track0"]], k, ag["init"][0], vel)
    thr = at + v0 * spec["horizon"] * r.uniform(0.05, 0.5)
    g = ["atom", {"ego." + k: 1}, (">" if v0 > 0 else "<") + r.choice(["", "", "="]), c3(r, thr - 0.05, thr + 0.05)]
    if not profile.get("sound") and r.random() < 0.2:
        g[1]["ego." + r.choice(spec["cont"])] = r.choice([0.5, -0.5])
    return g


def side_guard(r, spec, g, dst, reads):
    """g below a condition which does not change with time within a mode"""
    opts = []
    if spec.get("track"):
        opts.append(["hex", dst])
    if spec.get("kinds"):
        opts.append(["kind", r.choice(spec["kinds"])])
    if g[0] in ("any", "all"):
        cond = r.choice([["omode", r.choice(spec["modes"])], ["atom", {"o." + spec["cont"][0]: 1}, r.choice(["<", ">"]), c3(r, -3, 3)]])
        if spec.get("kinds") and r.random() < 0.5:
            cond = ["okind", r.choice(spec["kinds"])]
        if r.random() < 0.6:
            return [g[0], g[1], cond]
        return [g[0], ["and" if g[0] == "any" else "or", g[1], cond]]
    if not opts:
        return g
    o = r.choice(opts)
    return ["and"] + r.choice([[g, o], [o, g]])
