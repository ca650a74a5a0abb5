import json, os, sys, glob
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
os.chdir(os.path.dirname(here))
import spec
for m in ("spec_frame", "spec_client", "spec_server", "spec_more"):
    if os.path.exists(os.path.join(here, m + ".py")):
        __import__(m)
with open("properties.jsonl", "w") as f:
    for p in spec.PROPS:
        f.write(json.dumps(p) + "\n")
os.makedirs("checks", exist_ok=True)
for f in glob.glob("checks/*.json"):
    os.unlink(f)
titles = {p["id"]: p["title"] for p in spec.PROPS}
checks = []
TECH = "symbolic execution of the real code from go/ssa, path conditions and assertions decided by z3, counterexamples replayed natively"
TECHC = "symbolic execution of the real code from go/ssa with exhaustive delay-bounded scheduling and virtual time, decided by z3, counterexamples replayed natively"
for p in spec.PROPS:
    c = spec.CHECKS.get(p["id"])
    if not c: continue
    d = dict(title=p["title"], quick=c["quick"], thorough=c["thorough"], bounds=c["bounds"], assumptions=c["assumptions"])
    if c["in_package"]: d["in_package"] = c["in_package"]
    json.dump(d, open("checks/%s.json" % p["id"], "w"), indent=1)
    checks.append(dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique=c["technique"] or (TECH if p["id"] < "C07" else TECHC), level="model_checking",
        level_note=c["note"] or ("bounded: " + "; ".join(c["bounds"]))))
na = list(spec.NA)
done = {c["property"] for c in checks} | {n["property"] for n in na}
for p in spec.PROPS:
    if p["id"] not in done:
        na.append(dict(property=p["id"], reason="the check is not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(spec.PROPS), "properties", len(checks), "checks")
import bounds; bounds.write()
