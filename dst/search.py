"""Seeded search driver: runs cases of one property in forked workers, minimises and reports."""
import argparse
import collections
import hashlib
import json
import os
import select
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_WALL = int(os.environ.get("DST_CASE_WALL", "60"))


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


def crashed(e):
    """an exception which the code under test raised on a valid scenario is a violation, one of the
    harness is an error"""
    ours = [f.filename for f in traceback.extract_tb(e.__traceback__) if "/verse/" in f.filename or f.filename.startswith(VERIF)]
    if ours and "/verse/" in ours[-1] and not ours[-1].startswith(VERIF):
        return {"viol": {"class": "crash", "msg": ("%s: %s\n" % (type(e).__name__, e) + traceback.format_exc()[-900:])}}
    return {"error": traceback.format_exc()}


def run_case(prop, case, wall=None):
    """one simulated execution; never raises"""
    from . import boot
    from .core import W, StepLimit
    from .util import clean_state

    wall = wall or CASE_WALL
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(wall)
    real = sys.stdout
    sys.stdout = boot.Null()
    try:
        clean_state()
        out = prop.run(case)
    except CaseTimeout:
        out = {"timeout": True, "viol": {"class": "hang", "msg": "no result after %d s of real time" % wall}}
    except StepLimit:
        out = {"skip": "too big"}
    except (RecursionError, MemoryError) as e:
        out = {"error": repr(e)}
    except Exception as e:
        out = crashed(e)
    finally:
        signal.alarm(0)
        sys.stdout = real
    out.setdefault("viol", None)
    out.setdefault("stats", {})
    out["stats"] = dict(out["stats"])
    for k, v in W.fired.items():
        out["stats"]["fault:" + k] = out["stats"].get("fault:" + k, 0) + v
    return out


def worker(prop, tier, seed, idxs, fd, deadline):
    from .core import sub_rng

    w = os.fdopen(fd, "w")
    if prop.uses_oracle:
        from . import oracle

        oracle.start()
    for i in idxs:
        if time.time() > deadline:
            break
        if i < 0:
            case = load_corpus(prop)[-i - 1]["case"]
        else:
            case = prop.gen(sub_rng(seed, prop.id, i), tier)
        case["index"] = i
        t = time.time()
        out = run_case(prop, case)
        rec = {"i": i, "out": out, "t": time.time() - t}
        if out["viol"] or out.get("error") or out.get("sample"):
            rec["case"] = case
        w.write(json.dumps(rec, default=str) + "\n")
        w.flush()
    w.close()
    if prop.uses_oracle:
        oracle.stop()
    os._exit(0)


def pool(prop, tier, seed, n, jobs, wall, on_rec):
    """fork workers over the corpus (negative indices) and indices 0..n-1; on_rec(rec) -> True to stop"""
    deadline = time.time() + wall
    idxs = [-k - 1 for k in range(len(load_corpus(prop)))] + list(range(n))
    chunks = [idxs[k::jobs] for k in range(jobs)]
    procs = {}
    for c in chunks:
        if not c:
            continue
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for q in procs:
                os.close(q)
            try:
                worker(prop, tier, seed, c, w, deadline)
            except BaseException:
                traceback.print_exc()
            os._exit(3)
        os.close(w)
        procs[r] = [pid, b""]
    stop = False
    dead = []
    while procs and not stop:
        rd, _, _ = select.select(list(procs), [], [], 5)
        for fd in rd:
            data = os.read(fd, 1 << 20)
            if not data:
                pid = procs.pop(fd)[0]
                os.close(fd)
                _, st = os.waitpid(pid, 0)
                if st != 0:
                    dead.append(st)
                continue
            buf = procs[fd][1] + data
            *lines, rest = buf.split(b"\n")
            procs[fd][1] = rest
            for l in lines:
                if on_rec(json.loads(l)):
                    stop = True
    for fd, (pid, _) in procs.items():
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.close(fd)
    return dead


def minimise(prop, case, viol, budget=90):
    """greedy: accept any smaller case with the same violation class"""
    end = time.time() + budget
    best, bv = case, viol
    tried = set()
    progress = True
    runs = 0
    while progress and time.time() < end:
        progress = False
        for cand in prop.shrink(best):
            if time.time() > end:
                break
            key = json.dumps(cand, sort_keys=True)
            if key in tried or len(tried) > 4000:
                continue
            tried.add(key)
            runs += 1
            out = run_case(prop, json.loads(key), wall=30)
            if out["viol"] and out["viol"]["class"] == bv["class"]:
                best, bv = cand, out["viol"]
                if out.get("choices") is not None and "choices" in best:
                    best["choices"] = out["choices"]
                progress = True
                break
    return best, bv, runs


def fresh(prop, path, wall=300):
    p = subprocess.run([os.path.join(VERIF, "check"), prop.id, "--replay", path], capture_output=True, text=True, timeout=wall)
    return p.returncode, p.stdout + p.stderr


def load_corpus(prop):
    """minimised cases that showed a violation once (of a repaired defect or a planted bug)"""
    p = os.path.join(VERIF, "corpus", prop.id + ".json")
    return json.load(open(p)) if os.path.exists(p) else []


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--n", type=int)
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--digest", action="store_true")
    ap.add_argument("--index", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        from . import boot
        from . import props
    except Exception:
        # the code under test cannot even be imported: no property of it can be shown
        traceback.print_exc()
        path = os.path.join(VERIF, "replays", "%s-import.json" % a.prop)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        json.dump({"property": a.prop, "class": "import", "msg": traceback.format_exc()}, open(path, "w"))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    prop = props.PROPS[a.prop]
    if a.replay:
        rec = json.load(open(a.replay))
        out = run_case(prop, rec["case"], wall=200)
        if out.get("error"):
            print(out["error"])
        if out["viol"]:
            print("%s: %s" % (out["viol"]["class"], out["viol"]["msg"]))
            same = out["viol"]["class"] == rec["class"]
            print("reproduces" if same else "fails differently (recorded: %s)" % rec["class"])
            print("VIOLATION property=%s replay=%s" % (prop.id, a.replay))
            return 1
        print("holds on this case")
        return 0
    if a.index is not None:
        from .core import sub_rng

        case = prop.gen(sub_rng(seed, prop.id, a.index), tier)
        case["index"] = a.index
        out = run_case(prop, case)
        print(json.dumps(case, indent=1))
        print(json.dumps({k: v for k, v in out.items() if k != "choices"}, indent=1, default=str))
        return 0
    print("seed %d tier %s property %s" % (seed, tier, prop.id))
    n = a.n or (prop.quick_n if tier == "quick" else prop.quick_n * 40)
    wall = a.wall or (400 if tier == "quick" else float(os.environ.get("DST_THOROUGH_S", "3000")))
    known = [k for k in load_known() if k.get("property") == prop.id and k.get("status") == "known"]
    agg = collections.Counter()
    sigs = {}
    state = {"n": 0, "nontriv": 0, "errors": [], "viol": [], "samples": [], "skips": collections.Counter(), "digest": {}, "slow": 0, "timeouts": []}

    def on_rec(rec):
        o = rec["out"]
        state["n"] += 1
        state["slow"] = max(state["slow"], rec["t"])
        for k, v in o["stats"].items():
            agg[k] += v
        if o.get("skip"):
            state["skips"][o["skip"]] += 1
        if o.get("error"):
            state["errors"].append((rec["i"], o["error"]))
            if a.keep_going:
                print("ERROR", rec["i"], o["error"][-600:])
        if a.digest:
            state["digest"][rec["i"]] = hashlib.sha256(json.dumps([o.get("sig"), o.get("dig"), o["viol"], o.get("skip"), sorted(o["stats"].items())], default=str).encode()).hexdigest()[:16]
        if o.get("nontrivial") and not o["viol"]:
            state["nontriv"] += 1
            sigs[o.get("sig")] = 1
        if o.get("sample") and len(state["samples"]) < 4 and not o["viol"]:
            state["samples"].append({"index": rec["i"], "case": rec.get("case"), "outcome": o["sample"]})
        if o["viol"]:
            kf = prop.known(rec["case"], o["viol"], known)
            if kf:
                agg["known_finding_hits"] += 1
                return False
            if o.get("timeout"):
                # real time ran out; settled at the end, in a fresh process and with more time
                state["timeouts"].append(rec)
                return len(state["timeouts"]) >= 4
            state["viol"].append(rec)
            if a.keep_going:
                print("VIOL", rec["i"], json.dumps(o["viol"])[:400], flush=True)
            return not a.keep_going and len(state["viol"]) >= 1
        return False

    dead = pool(prop, tier, seed, n, a.jobs, wall, on_rec)
    if a.digest:
        print(hashlib.sha256(json.dumps(sorted(state["digest"].items())).encode()).hexdigest(), len(state["digest"]))
        if os.environ.get("DST_DIGEST_OUT"):
            json.dump(state["digest"], open(os.environ["DST_DIGEST_OUT"], "w"))
    rc = 0
    # known findings: shown again on this tree, one by one
    kf_lines = []
    for k in known:
        out = run_case(prop, k["case"], wall=120)
        if out["viol"] and out["viol"]["class"] == k["class"]:
            kf_lines.append(k["id"])
            print("KNOWN-FINDING: property=%s %s" % (prop.id, k["what"]))
    for rec in (state["viol"] or state["timeouts"])[:1]:
        case, viol = rec["case"], rec["out"]["viol"]
        if rec["out"].get("choices") is not None:
            c2 = dict(case, choices=rec["out"]["choices"])
            o2 = run_case(prop, json.loads(json.dumps(c2)))
            if o2["viol"] and o2["viol"]["class"] == viol["class"]:
                case, viol = c2, o2["viol"]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        if rec["out"].get("timeout"):
            small, sv, runs = case, viol, 0
        else:
            small, sv, runs = minimise(prop, case, viol)
        tag = hashlib.sha256(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop.id, tag))

        def write(c, v):
            json.dump({"property": prop.id, "seed": seed, "index": rec["i"], "class": v["class"], "msg": v["msg"],
                       "case": c, "original_case": rec["case"], "minimiser_runs": runs}, open(path, "w"), indent=1)

        write(small, sv)
        code, txt = fresh(prop, path)
        if code != 1:
            write(case, viol)
            code, txt = fresh(prop, path)
        if code == 1 or not rec["out"].get("timeout"):
            print("%s: %s" % (sv["class"], sv["msg"]))
            print("replay in a fresh process: %s" % ("reproduces" if code == 1 else "does NOT reproduce: " + txt[-300:]))
            print("VIOLATION property=%s replay=%s" % (prop.id, path))
            rc = 1
        else:
            print("a case ran into the real-time limit once, and not again in a fresh process (not a violation): %s" % path)
    wall_s = time.time() - t0
    ev = {
        "property": prop.id, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": state["n"], "distinct_nontrivial": len(sigs), "rule": prop.rule,
            "samples": state["samples"] or [{"note": "no sample kept"}],
            "corpus_cases": len(load_corpus(prop)),
            "simulated_runs": state["n"], "nontrivial_runs": state["nontriv"],
            "runs_per_hour": round(state["n"] / max(wall_s, 1e-9) * 3600),
            "seeds_per_hour": round(state["n"] / max(wall_s, 1e-9) * 3600),
            "simulated_seconds_of_scenario_time": round(agg.pop("vt_scenario", 0), 3),
            "simulated_seconds_of_cluster_time": round(agg.pop("vt_cluster", 0), 3),
            "faults_fired": {k[6:]: v for k, v in sorted(agg.items()) if k.startswith("fault:")},
            "counters": {k: v for k, v in sorted(agg.items()) if not k.startswith("fault:")},
            "distinct_measure": prop.measure,
            "skipped": dict(state["skips"]), "harness_errors": len(state["errors"]), "real_time_limit_reached": len(state["timeouts"]),
            "slowest_case_s": round(state["slow"], 2), "workers": a.jobs,
            "known_findings_reproduced": kf_lines,
            "real_code": prop.real, "stubs": prop.stub,
        },
        "assumptions": prop.assumptions, "wall_s": round(wall_s, 2), "violations": len(state["viol"]) if rc else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w"), indent=1, default=str)
    print("%d runs, %d distinct non-trivial, %.0f s, skips %s, faults %s" % (
        state["n"], len(sigs), wall_s, dict(state["skips"]), ev["coverage"]["faults_fired"]))
    if state["errors"]:
        print("%d harness errors; first: case %s\n%s" % (len(state["errors"]), state["errors"][0][0], state["errors"][0][1]))
    if dead:
        print("worker deaths: %s" % dead)
    if rc == 0 and (state["n"] == 0 or len(state["errors"]) > max(2, state["n"] // 20)):
        print("the check did not run: too many harness errors")
        return 3
    return rc


if __name__ == "__main__":
    sys.exit(main())
