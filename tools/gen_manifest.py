#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below (run by hand after editing)."""
import json, os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
ids=[json.loads(l)["id"] for l in open(os.path.join(R,"properties.jsonl"))]
REF="property-based testing: generated {} against {}"
T={
"E01":("generated expressions, operators and matrices against a naive tree interpreter","composition is compared bit for bit with a recursive interpreter; single operators with an independent formula table"),
"E02":("generated expressions and extreme inputs against a finiteness-tracking interpreter","verdict and values in all option combinations"),
"E03":("generated call histories on shared contexts against fresh calls","stateful differential test"),
"E04":("generated expressions against chain rule with closed-form partials","running error bound decides the tolerance"),
"E05":("generated expressions over four declared operator sets against their declarations","macro-declared sets are fixed at compile time: four sets of very different shape are used"),
"E06":("generated expressions, before/after comparison with an exact integer operator set and with rounding bounds","structure, value, idempotence"),
"E07":("generated constant layouts, round trip and position model","round-trip and reference model"),
"E08":("generated node sequences against a recursive tree model","well-formed and ill-formed sequences"),
"E09":("generated expressions printed and parsed back by an independent parser","print/parse round trip"),
"E10":("generated expression-building programs against a tree model","model-based"),
}
T.update(json.load(open(os.path.join(R,"tools","techniques.json"))) if os.path.exists(os.path.join(R,"tools","techniques.json")) else {})
NA={}
checks=[]; na=[]
for i in ids:
    if i in T:
        t,n=T[i]
        checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"./check.sh {i}","technique":("property-based testing (fast-check): " if i[0]=="U" else "property-based testing (proptest): ")+t,"level":"exploration","level_note":n+". Exploration only: no violation in the cases generated (counts in the evidence file); it does not prove absence."})
    else:
        na.append({"property":i,"reason":NA.get(i,"check not built yet")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,"hooks":{"guard":"cargo feature `bench` of symbolic_regression (and of dynamic_expressions)","enable":"the harness crates depend on /repo/symbolic_regression with features = [\"bench\"]; off by default"},
 "notes":"checks are release-independent debug builds (opt-level 1, debug assertions, overflow checks) of the crates in harness/, rebuilt from /repo on every run"}
m["hooks"]["source_commits"]=["8805a83", "53325c5"]
json.dump(m,open(os.path.join(R,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"checks",len(na),"n/a")
