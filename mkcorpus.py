#!/opt/venv/bin/python
"""adds the given replay files (default: all in replays/) which hold on the current tree to corpus/
(run by hand, never by a check)"""
import glob, json, os, sys

os.chdir(os.path.dirname(os.path.abspath(__file__)))
os.makedirs("corpus", exist_ok=True)
from dst import boot, props, search

byp = {}
for f in sys.argv[1:] or sorted(glob.glob("replays/*.json")):
    rec = json.load(open(f))
    if "case" in rec:
        byp.setdefault(rec["property"], []).append(rec)
for p, recs in byp.items():
    prop = props.PROPS[p]
    if prop.uses_oracle:
        from dst import oracle

        oracle.start()
    path = "corpus/%s.json" % p
    old = json.load(open(path)) if os.path.exists(path) else []
    seen = {json.dumps(o["case"], sort_keys=True) for o in old}
    for rec in recs:
        case = dict(rec["case"])
        case.pop("index", None)
        key = json.dumps(case, sort_keys=True)
        if key in seen:
            continue
        out = search.run_case(prop, json.loads(key))
        print(p, rec.get("class"), "viol" if out["viol"] else "error" if out.get("error") else out.get("skip") or "holds", str(rec.get("msg"))[:90])
        if not out["viol"] and not out.get("error") and not out.get("skip"):
            seen.add(key)
            old.append({"was": "%s: %s" % (rec.get("class"), str(rec.get("msg"))[:200]), "case": case})
    json.dump(old, open(path, "w"), indent=0, sort_keys=True)
    if prop.uses_oracle:
        oracle.stop()
