#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/<ID>.json (one file per property)."""
import glob, json, os
V = os.path.dirname(os.path.abspath(__file__))
TECH = "symbolic execution of the real code's LLVM IR, decided by Z3 (bounded, all values)"
props, checks, na = [], [], []
for p in sorted(glob.glob(V + "/meta/*.json")):
    m = json.load(open(p))
    i = os.path.basename(p)[:-5]
    props.append({"id": i, "title": m["title"], "statement": m["statement"],
                  "quantifier": {"over": m.get("over", ["inputs"]), "text": m["quant"]},
                  "why_tests_cant": m["why"],
                  "anchors": {"files": m["files"], "mechanism": [{"name": a, "where": b} for a, b in m["mech"]]}})
    if "na" in m:
        na.append({"property": i, "reason": m["na"]})
    else:
        c = {"property": i, "quick_cmd": "python3 vt.py %s quick" % i, "thorough_cmd": "python3 vt.py %s thorough" % i,
             "technique": m.get("technique", TECH), "level": "model_checking", "level_note": m["note"]}
        checks.append(c)
with open(V + "/properties.jsonl", "w") as f:
    for x in props:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
json.dump({"version": 1, "setup_cmd": "bash engine/build.sh build/engine", "checks": checks, "not_applicable": na,
           "notes": "engine/: symbolic executor over LLVM 18 bitcode with Z3; rt/: models of libc/libstdc++/fmt/file system linked into the bitcode; props/<ID>/: harness and entry list; vt.py: driver. Counterexamples are replayed natively under ASan before they are reported."},
          open(V + "/MANIFEST.json", "w"), indent=1)

# DESIGN.md
known = json.load(open(V + "/known_findings.json"))
seeds = {}
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(p))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(p)), m))
out = [open(V + "/design/intro.md").read().rstrip(), "", "# Properties", ""]
for p in props:
    i = p["id"]
    m = json.load(open(V + "/meta/%s.json" % i))
    out += ["## %s %s" % (i, p["title"]), "", p["statement"], ""]
    if "na" in m:
        out += ["Not applicable: " + m["na"], ""]
        continue
    sp = json.load(open(V + "/props/%s/spec.json" % i))
    out += ["*How:* " + m.get("how", m["note"]), "",
            "*Code encoded:* " + ", ".join("`%s`" % x for x in sp["sources"]) + ". Entries: " + ", ".join("`%s` (%d)" % (e["name"], len(e.get("param_sets", [[]]))) for e in sp["entries"]) + ".", "",
            "*Bounds:* " + sp["bounds"] + ". *Outside:* " + sp["outside"] + ".", "",
            "*Why tests cannot:* " + m["why"], ""]
    for f in known["findings"]:
        if f["property"] == i: out += ["*Known finding:* " + f["what"], ""]
    for n, sm in seeds.get(i, []):
        out += ["*Planted bug caught:* `%s` - %s (needs: %s)" % (n, sm["what_it_breaks"], sm["needs"]), ""]
out += [open(V + "/design/notes.md").read().rstrip(), "", "### Repaired", ""] + ["- " + x for x in known["fixed"]] + [""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
