"""Reference models, evaluated on the spec only (no Verse code): an executor of the sampled hybrid
semantics which Verse's simulate() and simulate_simple() document."""
import itertools

import numpy as np

from . import gen


class Node:
    __slots__ = ("mode", "init", "start", "trace", "asserts", "child", "height", "expanded", "cut")

    def __init__(self, mode, init, start, trace, height):
        self.mode, self.init, self.start, self.trace, self.height = mode, init, start, trace, height
        self.asserts = {}
        self.child = []
        self.expanded = False
        self.cut = None


def state_of(spec, ag, row, mode):
    d = {v: row[i + 1] for i, v in enumerate(spec["cont"])}
    d["agent_mode"] = mode[0]
    k = 1
    if spec.get("aux"):
        d["aux_mode"] = mode[k]
        k += 1
    if spec.get("track"):
        d["track_mode"] = mode[k]
        d["offers"] = gen.offers(spec)
        if spec["track"].get("lanes"):
            d.update(gen.lane_coords(spec, mode[k], row[1:3]))
    if spec.get("kinds"):
        d["type"] = ag["kind"]
    return d


def block_on(spec, b, ego, others, mg):
    if b.get("mode") and ego["agent_mode"] != b["mode"]:
        return None
    if b.get("aux") and ego.get("aux_mode") != b["aux"]:
        return None
    if b.get("track") and ego.get("track_mode") != b["track"]:
        return None
    return gen.guard_eval(b["guard"], ego, others, None, mg)


def assert_fails(a, ego, others, mg):
    if a.get("mode") and ego["agent_mode"] != a["mode"]:
        return False
    if a.get("pre") and not gen.guard_eval(a["pre"], ego, others, None, mg):
        return False
    return not gen.guard_eval(a["cond"], ego, others, None, mg)


def disc_vars(spec):
    return ["agent_mode"] + (["aux_mode"] if spec.get("aux") else []) + (["track_mode"] if spec.get("track") else [])


def transitions_of(spec, ag, ego, others, mode, row, mg, hmap):
    """all (mode, init) successors enabled for one agent in one state"""
    resets = {}
    for b in ag["blocks"]:
        on = block_on(spec, b, ego, others, mg)
        if on is None:
            continue
        for var, val in (b["assign"] if on else b.get("else", [])):
            resets.setdefault(var, []).append(val)
    if not resets:
        return []
    out = []
    env = {"ego." + k: v for k, v in ego.items()}
    for combo in itertools.product(*resets.values()):
        init = list(row[1:])
        m = list(mode)
        for var, val in zip(resets, combo):
            if var in disc_vars(spec):
                if var == "track_mode" and isinstance(val, list):
                    val = hmap.get((ego["track_mode"], ego["agent_mode"], val[1]), "")
                m[disc_vars(spec).index(var)] = val
            else:
                init[spec["cont"].index(var)] = gen.lin_eval(val, env)
        s = (tuple(m), tuple(float(x) for x in init))
        if s not in out:
            out.append(s)
    return out


def simple_output(spec, ag, ego, others, mode, row, mg):
    """what running the decision logic as plain Python code returns: later assignments win"""
    env = {"ego." + k: v for k, v in ego.items()}
    init, m = list(row[1:]), list(mode)
    for b in ag["blocks"]:
        on = block_on(spec, b, ego, others, mg)
        if on is None:
            continue
        for var, val in (b["assign"] if on else b.get("else", [])):
            if var in disc_vars(spec):
                m[disc_vars(spec).index(var)] = val
            else:
                init[spec["cont"].index(var)] = gen.lin_eval(val, env)
    if tuple(m) == tuple(mode) and all(float(a) == float(b) for a, b in zip(init, row[1:])):
        return []
    return [(tuple(m), tuple(float(x) for x in init))]


def allowed(spec, src, dst, hmap):
    """a change of agent or track mode must be one the map offers"""
    if not spec.get("track"):
        return True
    dv = disc_vars(spec)
    ti = dv.index("track_mode")
    sm, st, dm, dt_ = src[0], src[ti], dst[0], dst[ti]
    if sm == dm and st == dt_:
        return True
    return hmap.get((st, sm, dm), "") == dt_


def simulate(spec, inits, mg, max_height=None, max_nodes=400, horizon=None, simple=False):
    """inits: {agent id: point}. Returns the root Node; None when the tree grows beyond max_nodes."""
    H = spec["horizon"] if horizon is None else horizon
    dt = spec["dt"]
    mh = float("inf") if max_height is None else max_height
    ags = {a["id"]: a for a in spec["agents"]}
    hmap = {tuple(k): v for k, v in spec["track"]["h"]} if spec.get("track") else {}
    root = Node({i: tuple(gen.mode_names(spec, a)) for i, a in ags.items()}, dict(inits), 0.0, {}, 0)
    queue = [root]
    count = 1
    while queue:
        n = queue.pop(0)
        if n.height >= mh - 1:
            continue
        remain = round(H - n.start, 10)
        if remain <= 0:
            continue
        n.expanded = True
        for i, a in ags.items():
            if i not in n.trace:
                tr = gen.plant(a["dyn"][n.mode[i][0]], n.init[i], remain, dt)
                tr[:, 0] += n.start
                n.trace[i] = tr
        length = len(next(iter(n.trace.values())))
        if any(len(t) != length for t in n.trace.values()):
            return "length"
        for k in range(length):
            st = {i: state_of(spec, a, n.trace[i][k], n.mode[i]) for i, a in ags.items()}
            hits, succ = {}, {}
            for i, a in ags.items():
                oth = [st[j] for j in ags if j != i] if a.get("reads") else []
                bad = [x["label"] for x in a["asserts"] if assert_fails(x, st[i], oth, mg)]
                if simple:
                    bad = bad[:1]
                if bad:
                    hits[i] = bad
                    continue
                if simple:
                    t = simple_output(spec, a, st[i], oth, n.mode[i], n.trace[i][k], mg)
                else:
                    t = transitions_of(spec, a, st[i], oth, n.mode[i], n.trace[i][k], mg, hmap)
                    t = [x for x in t if allowed(spec, n.mode[i], x[0], hmap)]
                if t:
                    succ[i] = t
            if hits:
                n.asserts = hits
                n.cut = k
                for i in ags:
                    n.trace[i] = n.trace[i][: k + 1 if simple else k]
                break
            if succ:
                n.cut = k
                rest = {i: n.trace[i][k:] for i in ags}
                for i in ags:
                    n.trace[i] = n.trace[i][: k + 1]
                start = round(float(next(iter(rest.values()))[0][0]), 10)
                for combo in itertools.product(*succ.values()):
                    mode, init, trace = dict(n.mode), {}, {}
                    for i, (m, x) in zip(succ, combo):
                        mode[i] = m
                        init[i] = x
                    for i in ags:
                        if i not in init:
                            trace[i] = rest[i]
                            init[i] = tuple(rest[i][0][1:].tolist())
                    c = Node(mode, init, start, trace, n.height + 1)
                    n.child.append(c)
                    queue.append(c)
                    count += 1
                    if count > max_nodes:
                        return None
                break
    return root


def size(n):
    return 1 + sum(size(c) for c in n.child)


def any_hits(n):
    return bool(n.asserts) or any(any_hits(c) for c in n.child)


def paths(n, pre=()):
    """all root-to-leaf lists of nodes"""
    pre = pre + (n,)
    if not n.child:
        yield pre
    for c in n.child:
        yield from paths(c, pre)
