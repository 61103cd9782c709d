"""Regenerates sections 2-5 of DESIGN.md from tools/props.py, known_findings.json and tools/design_extra.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import props, design_extra as X
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
s = open(p).read().split("## 2. ")[0]
out = [s.rstrip("\n") + "\n\n## 2. Properties decided\n"]
for d in props.PROPS:
    out.append("### %s %s" % (d["id"], d["title"]))
    out.append("*Statement.* " + d["statement"])
    out.append("*Anchors.* " + d["mech"] + " (" + ", ".join(d["files"]) + ").")
    out.append("*Decided by.* `checks/%s.py`: %s; over %s." % (d["module"], d["tech"], d["quant"]))
    out.append("*Beyond the tests.* " + d["why"])
    if d.get("note"):
        out.append("*Limits.* " + d["note"])
    if d["id"] in X.EXTRA:
        out.append(X.EXTRA[d["id"]].strip())
    out.append("")
out.append("## 3. Not applicable\n")
for d in props.NA:
    out.append("- **%s %s**: %s" % (d["id"], d["title"], d.get("reason") or d.get("na") or ""))
out.append("")
k = json.load(open(os.path.join(here, "known_findings.json")))
out.append("## 4. Genuine defects\n\nRepaired (one `fix:` commit each in /repo; the checks report them again if they return):\n")
for f in k["fixed"]:
    out.append("- " + f[len("fixed: property="):])
out.append("\nRecorded, not repaired (`known_findings.json`; printed as KNOWN-FINDING):\n")
seen = {}
for f in k["findings"]:
    seen.setdefault((f["property"], f["what"]), []).append(f["key"])
for (i, w), ks in seen.items():
    out.append("- %s (%s): %s" % (i, "; ".join(ks), w))
out.append("\n## 5. Planted bugs\n\n`seeded/<id>/`; each was confirmed to build, pass the stable tests and fail its demonstration; the last column names the checks that report it.\n")
out.append("| planted bug | breaks | needs | caught by |\n|---|---|---|---|")
sd = os.path.join(here, "seeded")
for n in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, n, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (n, m["what_it_breaks"], m["needs"], X.CAUGHT.get(n, m["property"])))
out.append("")
out.append(X.TAIL.strip() + "\n")
open(p, "w").write("\n\n".join(out).replace("|\n\n|", "|\n|").replace("\n\n- ", "\n- ") if False else "\n".join(x if x.startswith(("- ", "|")) else x + "\n" for x in out))
