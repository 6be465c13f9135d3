"""Development aid: run one runner. runner.py GROUP PROP [budget] [seed] [case] [--bins pkg:bin,...]"""
import sys, json
sys.path.insert(0, "/verif/lib")
import engine
g, p = sys.argv[1:3]
b = float(sys.argv[3]) if len(sys.argv) > 3 else 8
s = int(sys.argv[4]) if len(sys.argv) > 4 else 1
case = sys.argv[5] if len(sys.argv) > 5 else None
import props
bins = props.PROPS[p].bins
r = engine.run_runner(g, p, "quick", s, b, bins=bins, case=case, workdir="/tmp")
for f in r.get("failures", []):
    print("FAIL", f["case"], "|", f["input"][:700], "|", f["what"][:700])
r.pop("failures", None); r["samples"] = len(r.get("samples", []))
print(r)
