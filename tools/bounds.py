# BOUNDS.md from checks/*.json (called by gen.py)
import json, glob, os
def write():
    out = ["# Bounds of every check (generated by tools/gen.py)", ""]
    for f in sorted(glob.glob("checks/*.json")):
        c = json.load(open(f))
        out += ["## %s %s" % (os.path.basename(f)[:-5], c["title"]), ""]
        for tier in ("quick", "thorough"):
            out += ["%s:" % tier, ""]
            for j in c[tier]:
                p = ",".join("%s=%s" % kv for kv in sorted(j["params"].items()))
                d = ", delays %d" % j["delays"] if j.get("delays") else ""
                out.append("* `%s(%s)`%s — %s" % (j["harness"], p, d, j["bound"]))
            out.append("")
        out += ["Overall: " + "; ".join(c["bounds"]), "", "Assumptions:", ""] + ["* " + a for a in c["assumptions"]] + [""]
    open("BOUNDS.md", "w").write("\n".join(out))
