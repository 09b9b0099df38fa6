"""P09 well-formed trees, P10 dispatching, P13 dump and load, P16 comparison of trees."""
import copy
import json
import os

import numpy as np
import portion

from . import canon, gen, hist, p_hist, simfs, util
from .base import Prop
from .core import W, StepLimit, sub_rng
from .util import attempt, viol

PROF = dict(aux=True, nasserts=[0, 0, 1, 2], steps=[8, 12, 16], n_agents=[1, 1, 2, 2, 3], resets=0.3, track=0.25, nd=[1, 2, 2, 3], pre=True)


def one(r, ops=None, par=0.6, faults=True):
    spec = gen.gen_scenario(r, PROF)
    op = p_hist.run_op(r, 0, [spec], ops, simple=not spec.get("track"))
    return {"spec": spec, "op": op, "cfg": p_hist.base_cfg(r, par), "how": r.choice(["set_init", "single", "agent"]),
            "sched": util.gen_sched(r, faults), "cseed": r.randrange(1 << 30)}


class Single(Prop):
    """one run operation on one scenario"""

    measure = "hash of (shapes of the trees, scheduling order)"

    def trees(self, case, cfg=None, limit=6000, op=None, spec=None):
        spec = spec or case["spec"]
        W.limit = W.calls + limit
        s = gen.make_scenario(spec, hist.config(cfg or case["cfg"]), case["how"])
        return hist.do(s, spec, copy.deepcopy(op or case["op"]))

    def shrink(self, case):
        op = case["op"]
        if op["op"] == "multi" and op["k"] > 1:
            yield dict(case, op=dict(op, k=1))
        if op["op"] == "list" and len(op["inits"]) > 1:
            yield dict(case, op=dict(op, inits=op["inits"][:1]))
        if op.get("mh") and op["mh"] > 2:
            yield dict(case, op=dict(op, mh=op["mh"] - 1))
        for k in ("parallel", "unsafe_continue"):
            if case["cfg"].get(k):
                yield dict(case, cfg=dict(case["cfg"], **{k: False}))
        for c in util.shrink_case(case):
            ids = {a["id"] for a in c["spec"]["agents"]}
            if c["op"]["op"] == "list":
                c = dict(c, op=dict(c["op"], inits=[{k: v for k, v in x.items() if k in ids} for x in c["op"]["inits"]]))
            yield c

    def finish(self, out, case, ts, c):
        ns = [n for t in ts for n in util.all_nodes(t.root)]
        out["choices"] = c.ch.log
        out["stats"] = dict(out.get("stats", {}), nodes=len(ns), vt_cluster=c.now, vt_scenario=sum(util.scen_time(t.root) for t in ts),
                            tasks=len(c.tasks), **{"op:" + case["op"]["op"]: 1})
        out["sig"] = util.h([util.shape(t.root) for t in ts], c.outcome)
        out["dig"] = util.h([util.snapshot(t.root) for t in ts], c.outcome, out.get("sample"))
        return ns


def malformed(t, spec, op, cfg):
    """None, or what is wrong with a tree"""
    sim = op["op"] in ("sim", "multi", "list", "simple")
    ids = {a["id"] for a in spec["agents"]}
    ags = {a["id"]: a for a in spec["agents"]}
    reach = util.all_nodes(t.root)
    dt = spec["dt"]
    mh = op["mh"]
    if len(set(map(id, reach))) != len(reach):
        return "a node is reachable twice"
    if sorted(map(id, t.nodes)) != sorted(map(id, reach)):
        return "tree.nodes has %d nodes, %d are reachable from the root" % (len(t.nodes), len(reach))
    nid = [n.id for n in reach]
    if len(set(nid)) != len(nid) or any(not isinstance(i, int) or i < 0 for i in nid):
        return "node ids %s" % nid
    if t.root.id != 0 or t.root.height != 0 or t.root.start_time != 0:
        return "root has id %s, height %s, start time %s" % (t.root.id, t.root.height, t.root.start_time)
    want = "simtrace" if sim else "reachtube"
    if str(t.type) != want:
        return "the tree is a %s" % t.type
    for n in reach:
        w = "node %d" % n.id
        if str(n.type) != want:
            return "%s is a %s" % (w, n.type)
        for nme, d in (("mode", n.mode), ("init", n.init), ("agent", n.agent), ("static", n.static), ("uncertain_param", n.uncertain_param)):
            if set(d) != ids:
                return "%s: %s of agents %s" % (w, nme, sorted(d))
        if not set(n.trace) <= ids:
            return "%s: traces of agents %s" % (w, sorted(n.trace))
        for i in ids:
            m = n.mode[i]
            ok = len(m) == 1 + bool(spec.get("aux")) + bool(spec.get("track")) and m[0] in spec["modes"] and (not spec.get("aux") or m[1] in spec["aux"])
            if not ok:
                return "%s: mode %s of %s" % (w, m, i)
        full = set(n.trace) == ids
        if mh is not None and n.height > mh - 1:
            return "%s has height %d, the depth is limited to %d" % (w, n.height, mh)
        if mh is not None and n.height >= mh - 1 and n.child:
            return "%s at the depth limit has children" % w
        if not full and n.child:
            return "%s has children but no traces" % w
        if not full and (mh is None or n.height < mh - 1) and n.start_time < spec["horizon"] - 1e-9:
            return "%s was not explored: start time %s, height %d" % (w, n.start_time, n.height)
        h = canon.hits(n)
        for aid, labels in h:
            if aid not in ids or not labels or any(l not in {x["label"] for x in ags[aid]["asserts"]} for l in labels):
                return "%s: assert hits %s" % (w, h)
        if h and n.child and not cfg.get("unsafe_continue"):
            return "%s violates an assertion and has children" % w
        if not full:
            continue
        tr = {i: np.asarray(n.trace[i], dtype=float) for i in ids}
        L = {len(x) for x in tr.values()}
        if len(L) > 1:
            return "%s: traces of different lengths %s" % (w, L)
        rows = L.pop()
        if rows == 0:
            continue
        nd = len(spec["cont"]) + 1
        if any(x.ndim != 2 or x.shape[1] != nd for x in tr.values()):
            return "%s: traces of shapes %s" % (w, {i: x.shape for i, x in tr.items()})
        ref = next(iter(tr.values()))[:, 0]
        for i, x in tr.items():
            if not np.allclose(x[:, 0], ref, atol=1e-6):
                return "%s: the times of the agents differ" % w
        if abs(ref[0] - n.start_time) > 1e-6:
            return "%s starts at %s, its traces at %s" % (w, n.start_time, ref[0])
        if ref[-1] > spec["horizon"] + dt * 1.001:
            return "%s ends at %s, after the horizon" % (w, ref[-1])
        if sim:
            if rows > 1 and not np.allclose(np.diff(ref), dt, atol=1e-6):
                return "%s: the times are not %s apart" % (w, dt)
            for i in ids:
                if not np.allclose(tr[i][0, 1:], np.asarray(n.init[i], dtype=float), atol=1e-6):
                    return "%s: the trace of %s starts at %s, not in its initial state %s" % (w, i, tr[i][0, 1:].tolist(), n.init[i])
        else:
            if rows % 2:
                return "%s: odd number of tube rows" % w
            if not (np.allclose(ref[2::2], ref[1:-1:2], atol=1e-6) and np.all(ref[1::2] - ref[0::2] > 0)):
                return "%s: the tube segments are not consecutive in time" % w
            for i in ids:
                if np.any(tr[i][0::2, 1:] > tr[i][1::2, 1:] + 1e-9):
                    return "%s: a tube segment of %s with lower bound above the upper bound" % (w, i)
        if not n.child and not h:
            end = ref[-1]
            if sim and end < spec["horizon"] - 1e-6:
                return "%s ends at %s without a child, an assertion or the horizon" % (w, end)
        starts = [c.start_time for c in n.child]
        for c in n.child:
            if c.height != n.height + 1:
                return "child %d of %s has height %d" % (c.id, w, c.height)
            if c.start_time < n.start_time - 1e-9 or c.start_time > ref[-1] + 1e-9:
                return "child %d of %s starts at %s, outside of [%s, %s]" % (c.id, w, c.start_time, n.start_time, ref[-1])
            if sim:
                if abs(c.start_time - ref[-1]) > 1e-6:
                    return "child %d starts at %s, %s ends at %s" % (c.id, c.start_time, w, ref[-1])
                for i in ids:
                    if tuple(map(str, c.mode[i])) == tuple(map(str, n.mode[i])) and not ags[i]["blocks"]:
                        if not np.allclose(np.asarray(c.init[i], dtype=float), tr[i][-1, 1:], atol=1e-6):
                            return "agent %s jumps from %s to %s in child %d of %s" % (i, tr[i][-1, 1:].tolist(), c.init[i], c.id, w)
            else:
                k = int(np.argmin(np.abs(ref[0::2] - c.start_time)))
                for i in ids:
                    if not ags[i]["blocks"]:
                        if tuple(map(str, c.mode[i])) != tuple(map(str, n.mode[i])):
                            return "agent %s has no decision logic and changes its mode in child %d" % (i, c.id)
                        b = np.asarray(c.init[i], dtype=float)
                        if not (np.all(b[:, 0].min(axis=0) <= tr[i][2 * k, 1:] + 1e-6) and np.all(b[:, 1].max(axis=0) >= tr[i][2 * k + 1, 1:] - 1e-6)):
                            return "agent %s, which does not switch, loses states at the start of child %d of %s" % (i, c.id, w)
        if len({id(c) for c in n.child}) != len(n.child):
            return "%s has the same child twice" % w
    return None


class WellFormed(Single):
    id = "P09"
    quick_n = 1000
    rule = "a run counts when its trees have at least 3 nodes"

    def gen(self, r, tier):
        return one(r)

    def run(self, case):
        c = util.cluster(case)
        out = {}
        try:
            ts = self.trees(case)
        except StepLimit:
            return {"skip": "too big"}
        for t in ts:
            d = malformed(t, case["spec"], case["op"], case["cfg"])
            if d:
                out["viol"] = viol("malformed", d)
        ns = self.finish(out, case, ts, c)
        out["nontrivial"] = len(ns) >= 3
        if len(ns) >= 4:
            out["sample"] = "%s: %d nodes, results in order %s" % (case["op"]["op"], len(ns), c.outcome)
        return out


class Dispatch(Single):
    id = "P10"
    quick_n = 900
    rule = "a run counts when at least 3 tasks were dispatched, or when a sequential run was shown not to touch the cluster"

    def gen(self, r, tier):
        return one(r, ["sim"] * 4 + ["ver"] * 3 + ["multi", "list"], 0.85)

    def run(self, case):
        out = {"stats": {}}
        par = case["cfg"]["parallel"]
        seq_agents = seq_calls = None
        try:
            util.cluster(dict(case, choices=None), sched={}, tag="x")
            a0, k0 = W.kinds["agent"], W.calls
            self.trees(case, dict(case["cfg"], parallel=False))
            seq_agents, seq_calls = W.kinds["agent"] - a0, W.calls - k0
        except StepLimit:
            return {"skip": "too big"}
        c = util.cluster(case)
        a0 = W.kinds["agent"]
        try:
            ts = self.trees(case, None, seq_calls * 40 + 4000)
        except StepLimit:
            out["choices"] = c.ch.log
            out["viol"] = viol("nontermination", "the parallel run makes more than %d seam calls, the sequential one %d" % (seq_calls * 40 + 4000, seq_calls))
            return out
        agents = W.kinds["agent"] - a0
        ns = self.finish(out, case, ts, c)
        full = [n for n in ns if set(n.trace) == set(n.agent)]
        ahead = case["cfg"]["parallel_ver_ahead" if case["op"]["op"] == "ver" else "parallel_sim_ahead"]
        faulty = any(case["sched"].get(k) for k in ("crash", "lost", "dup"))
        if not par:
            if c.n or c.inited != bool(case["sched"].get("preinit")):
                out["viol"] = viol("cluster_used", "the run is sequential and puts %d objects and tasks into the cluster" % c.n)
        else:
            if c.max_inflight > max(1, ahead):
                out["viol"] = viol("window", "%d tasks were outstanding, the limit is %d" % (c.max_inflight, ahead))
            elif c.inflight:
                out["viol"] = viol("left", "%d tasks were outstanding when the run returned" % len(c.inflight))
            elif len(c.tasks) != len(full):
                out["viol"] = viol("tasks", "%d tasks for %d explored nodes" % (len(c.tasks), len(full)))
            elif not faulty and agents != seq_agents:
                out["viol"] = viol("repeated_work", "%d trajectories were computed, %d in the sequential run" % (agents, seq_agents))
            out["stats"]["max_outstanding"] = c.max_inflight
            out["stats"]["window_full"] = int(c.max_inflight == ahead)
        out["nontrivial"] = not par or len(c.tasks) >= 3
        if len(c.tasks) >= 4:
            out["sample"] = "%d tasks, at most %d of %d outstanding, results in order %s" % (len(c.tasks), c.max_inflight, ahead, c.outcome)
        return out


def same(a, b):
    """the tree b loaded from the dump of a"""
    def pairs(x, y, p):
        if len(x.child) != len(y.child):
            return "%s has %d children, %d after loading" % (p, len(x.child), len(y.child))
        for k in ("id", "height", "start_time", "ndigits"):
            if getattr(x, k) != getattr(y, k):
                return "%s: %s %r, %r after loading" % (p, k, getattr(x, k), getattr(y, k))
        if str(x.type) != str(y.type):
            return "%s: type" % p
        for k in ("mode", "init", "static", "uncertain_param", "trace"):
            if canon.num(getattr(x, k)) != canon.num(getattr(y, k)):
                return "%s: %s %.200r, %.200r after loading" % (p, k, getattr(x, k), getattr(y, k))
        if canon.hits(x) != canon.hits(y):
            return "%s: assert hits %r, %r after loading" % (p, canon.hits(x), canon.hits(y))
        if set(x.agent) != set(y.agent):
            return "%s: agents %s, %s after loading" % (p, sorted(x.agent), sorted(y.agent))
        for i, (u, v) in enumerate(zip(x.child, y.child)):
            d = pairs(u, v, "%s.%d" % (p, i))
            if d:
                return d
        return None

    d = pairs(a.root, b.root, "root")
    if not d and len(a.nodes) != len(b.nodes):
        d = "%d nodes, %d after loading" % (len(a.nodes), len(b.nodes))
    return d


class Durable(Single):
    id = "P13"
    quick_n = 700
    rule = "a run counts when the tree has at least 2 nodes and a disk fault hit its dump or its load"
    measure = "hash of (shapes of the trees, disk fault and outcome)"

    def gen(self, r, tier):
        c = one(r)
        c["fs"] = [{"kind": r.choice(["enospc", "eio_write", "eio_close", "eio_read", "short_read", "crash", "crash", "short"]), "at": int(2 ** r.uniform(0, 16))}
                   for _ in range(r.choice([1, 2, 3]))]
        return c

    def shrink(self, case):
        for i in range(len(case["fs"])):
            yield dict(case, fs=case["fs"][:i] + case["fs"][i + 1:])
        yield from Single.shrink(self, case)

    def run(self, case):
        from verse.analysis.analysis_tree import AnalysisTree

        c = util.cluster(case)
        out = {}
        try:
            ts = self.trees(case)
        except StepLimit:
            return {"skip": "too big"}
        ns = self.finish(out, case, ts, c)
        st = out["stats"]
        r = sub_rng(case["cseed"], "fs")
        disk = simfs.Disk()
        log = []
        try:
            with disk:
                for j, t in enumerate(ts):
                    d = self.check(t, disk, case, AnalysisTree, disk.path("t%d.json" % j), st, r, log)
                    if d:
                        out["viol"] = viol(*d)
                        break
        finally:
            disk.cleanup()
        out["sig"] = util.h(out["sig"], log)
        out["nontrivial"] = len(ns) >= 2 and any(x[-1] for x in log)
        if len(log) > 1:
            out["sample"] = log[:5]
        return out

    def check(self, t, disk, case, AnalysisTree, fn, st, r, log):
        before = canon.tree(t.root, True)

        def verify_load(what):
            u = attempt(AnalysisTree.load, fn)
            if u[0] == "raise":
                return ("load_failed", "%s: load() raises %s: %s" % (what, u[1], u[2]))
            d = same(t, u[1])
            if d:
                return ("differs", "%s: %s" % (what, d))
            e = attempt(lambda: (t.is_equal(u[1]), u[1].is_equal(t)))
            if e[:2] != ("ok", (True, True)):
                return ("not_equal", "%s: is_equal() between a tree and its reloaded copy: %s" % (what, e[1:3]))
            return None

        for plan in [None] + case["fs"]:
            disk.arm(plan)
            crashed = False
            try:
                res = attempt(t.dump, fn)
            except simfs.PowerLoss:
                crashed = True
            wrote = disk.fired()
            if canon.tree(t.root, True) != before:
                return ("changed", "dump() changed the tree")
            kind = plan["kind"] if plan else "none"
            if crashed:
                disk.arm(None)
                disk.power_loss(r)
                u = attempt(AnalysisTree.load, fn)
                log.append((kind, u[0], True))
                st["loads_of_torn_files"] = st.get("loads_of_torn_files", 0) + 1
                if u[0] == "ok":
                    d = same(t, u[1])
                    if d:
                        return ("torn", "a file torn by a crash was loaded: %s" % d)
            elif res[0] == "raise":
                log.append((kind, "dump failed", True))
                if not wrote:
                    return ("dump_failed", "dump() raises %s: %s" % res[1:3])
                st["dumps_failed"] = st.get("dumps_failed", 0) + 1
                disk.arm(None)
                u = attempt(AnalysisTree.load, fn)
                if u[0] == "ok":
                    d = same(t, u[1])
                    if d:
                        return ("torn", "the file left by a failed dump was loaded: %s" % d)
            else:
                if kind in ("eio_read", "short_read"):
                    u = attempt(AnalysisTree.load, fn)
                    log.append((kind, u[0], disk.fired()))
                    if u[0] == "raise" and not (kind == "eio_read" and disk.fired()):
                        return ("load_failed", "load() raises %s: %s" % u[1:3])
                    if u[0] == "ok":
                        d = same(t, u[1])
                        if d:
                            return ("differs", "with %s: %s" % (kind, d))
                else:
                    log.append((kind, "dumped", wrote))
                disk.arm(None)
                d = verify_load("after dump() returned (%s)" % kind)
                if d:
                    return d
        # once the disk works again
        disk.arm(None)
        res = attempt(t.dump, fn)
        if res[0] == "raise":
            return ("dump_failed", "dump() after the faults raises %s: %s" % res[1:3])
        return verify_load("after a dump over the torn file")


def ranges(t, dt):
    """(agent, time index, dimension) -> union of the tubes there"""
    out = {}
    ids = sorted(t.root.agent)
    for n in util.all_nodes(t.root):
        if set(n.trace) != set(ids):
            continue
        for i in ids:
            x = np.asarray(n.trace[i], dtype=float)
            for k in range(0, len(x), 2):
                idx = round(x[k][0] / dt)
                for j in range(x.shape[1]):
                    key = (i, idx, j)
                    iv = portion.closed(x[k][j], x[k + 1][j])
                    out[key] = out[key] | iv if key in out else iv
    return out


def ref_contains(a, b, tol=1e-7):
    for key, iv in b.items():
        if key not in a:
            return False
        if iv not in a[key].apply(lambda x: x.replace(lower=lambda v: v - tol, upper=lambda v: v + tol)):
            return False
    return True


def shuffled(n, r):
    m = copy.copy(n)
    m.trace = {k: np.array(v) if str(n.type) == "simtrace" else copy.deepcopy(v) for k, v in n.trace.items()}
    m.child = [shuffled(c, r) for c in n.child]
    if r:
        r.shuffle(m.child)
    return m


def multiplied(root, k, which):
    """the k-th node's first branch c and a branch d which is nearly like it, as c, c, d or c, d, d"""
    root = shuffled(root, None)
    n = util.all_nodes(root)[k]
    c = [shuffled(n.child[0], None) for _ in range(3)]
    for x in c[1 if which else 2:]:
        i = sorted(x.trace)[-1]
        x.trace[i][-1, -1] += 0.5
    n.child = c
    return root


class Compare(Single):
    id = "P16"
    quick_n = 700
    rule = "a run counts when at least one comparison that has to fail and one that has to hold were made on trees with at least 2 nodes"

    def gen(self, r, tier):
        c = one(r, ["sim"] * 4 + ["ver"] * 5 + ["simple"], 0.9)
        c["alt"] = r.choice(["init", "horizon", "mh", "init"])
        c["edit"] = r.choice(["value", "value", "drop", "late"])
        c["cfg"]["init_seg_length"] = r.choice([1, 1000])
        return c

    def run(self, case):
        from verse.analysis.analysis_tree import AnalysisTree

        out = {}
        spec = case["spec"]
        r = sub_rng(case["cseed"], "cmp")
        try:
            util.cluster(dict(case, choices=None), sched={}, tag="x")
            [a] = self.trees(case, dict(case["cfg"], parallel=False))
            sp2 = copy.deepcopy(spec)
            op2 = dict(case["op"])
            if case["alt"] == "init":
                for ag in sp2["agents"]:
                    ag["init"] = [[x + r.choice([0, 0.25, 1]) for x in q] for q in [ag["init"][0]]] * 2
            elif case["alt"] == "horizon":
                sp2["horizon"] = round(spec["dt"] * max(2, round(spec["horizon"] / spec["dt"]) // 2), 6)
            else:
                op2["mh"] = 2 if op2["mh"] != 2 else 3
            [o] = self.trees(case, dict(case["cfg"], parallel=False), op=op2, spec=sp2)
            c = util.cluster(case)
            [b] = self.trees(case)
        except StepLimit:
            return {"skip": "too big"}
        ns = self.finish(out, case, [a, b], c)
        st = out["stats"]
        ver = case["op"]["op"] == "ver"

        def ask(what, f, want):
            e = attempt(f)
            st["comparisons"] = st.get("comparisons", 0) + 1
            if e[0] == "raise":
                return viol("comparison_raises", "%s: %s: %s" % (what, e[1], e[2]))
            if want is not None and e[1] is not want:
                return viol("comparison", "%s: %s, expected %s" % (what, e[1], want))
            return None

        def tests():
            yield "is_equal() of a tree with itself", lambda: a.is_equal(a), True
            yield "sequential.is_equal(parallel)", lambda: a.is_equal(b), True
            yield "parallel.is_equal(sequential)", lambda: b.is_equal(a), True
            s = AnalysisTree(shuffled(a.root, r))
            yield "is_equal() with the branches in another order", lambda: a.is_equal(s), True
            inner = [k for k, n in enumerate(util.all_nodes(a.root)) if n.child and n.child[0].trace and len(next(iter(n.child[0].trace.values())))]
            if inner and not ver:
                # the same branches, but not each as often
                k = r.choice(inner)
                p, q = AnalysisTree(multiplied(a.root, k, False)), AnalysisTree(multiplied(a.root, k, True))
                st["multiplicities"] = 1
                yield "contains() with other multiplicities of the branches", lambda: p.contains(q), False
                yield "contains() with other multiplicities of the branches (2)", lambda: q.contains(p), False
                yield "is_equal() with other multiplicities of the branches", lambda: q.is_equal(p), False
            # a changed copy
            e = AnalysisTree(shuffled(a.root, r))
            full = [n for n in util.all_nodes(e.root) if set(n.trace) == set(n.agent) and len(next(iter(n.trace.values())))]
            if full:
                n = r.choice(full)
                i = r.choice(sorted(n.trace))
                if ver:
                    d = r.randrange(1, len(n.trace[i][0]))
                    k = r.randrange(len(n.trace[i]) // 2)
                    top = max(row[d] for q in full for row in q.trace[i])
                    n.trace[i][2 * k + 1][d] = top + 0.5
                    st["must_fail"] = 1
                    yield "a tube exceeds the other one: the larger tree contains the smaller one", lambda: e.contains(a), True
                    yield "a tube exceeds the other one: the smaller tree does not contain the larger one", lambda: a.contains(e), False
                    yield "is_equal() with a tube that exceeds the other one", lambda: a.is_equal(e), False
                else:
                    if case["edit"] == "drop" and any(q.child for q in full):
                        q = r.choice([q for q in full if q.child])
                        q.child.pop(r.randrange(len(q.child)))
                        e = AnalysisTree(e.root)
                        what = "a branch less"
                    elif case["edit"] == "late":
                        n.trace[i][-1, -1] += 0.01
                        what = "another last state of one node"
                    else:
                        k = r.randrange(len(n.trace[i]))
                        n.trace[i][k, r.randrange(1, n.trace[i].shape[1])] += r.choice([-0.01, 0.5, 3.0])
                        what = "another state of one node"
                    st["must_fail"] = 1
                    yield "contains() with %s" % what, lambda: a.contains(e), False
                    yield "contains() with %s, the other way round" % what, lambda: e.contains(a), False
                    yield "is_equal() with %s" % what, lambda: a.is_equal(e), False
            # other trees
            if ver:
                ra, ro = ranges(a, spec["dt"]), ranges(o, spec["dt"])
                if ra and ro:
                    yield "contains() of another scenario's tree", lambda: a.contains(o), ref_contains(ra, ro)
                    yield "contains() by another scenario's tree", lambda: o.contains(a), ref_contains(ro, ra)
            else:
                yield "is_equal() with another scenario's tree", lambda: a.is_equal(o), (False if util.tree_diff(a.root, o.root, 1e-4) and case["alt"] == "horizon" and len(next(iter(a.root.trace.values()), ())) != len(next(iter(o.root.trace.values()), ())) else None)

        for what, f, want in tests():
            out["viol"] = ask(what, f, want)
            if out["viol"]:
                break
        out["nontrivial"] = len(ns) >= 4 and bool(st.get("must_fail"))
        if out["nontrivial"]:
            out["sample"] = "%s: %d comparisons on trees of %d nodes" % (case["op"]["op"], st["comparisons"], len(a.nodes))
        return out


PROPS = [WellFormed(), Dispatch(), Durable(), Compare()]
