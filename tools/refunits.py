#!/usr/bin/env python3
"""refunits.py [ID...]: what the verifier says of each edit of refs.py (units only, no runner): obligations that fail, functions whose contracts do not fit"""
import os, re, subprocess, sys, shutil
os.environ["REPO"] = "/tmp/rfu/repo"
sys.path[:0] = ["/verif/lib", "/verif/tools"]
import engine, refs, props
S = "/tmp/rfu"
os.makedirs(S + "/w", exist_ok=True)
subprocess.check_call("rsync -a --delete --exclude target /repo/ %s/repo/" % S, shell=True)
engine.build_vx()


def files_of(f):
    t = open("/verif/contracts/" + f).read()
    return set(re.findall(r"^#file (\S+)", t, re.M)).union(*[files_of(i) for i in re.findall(r"^#include (\S+)", t, re.M)])


units = {u: files_of(u + ".vx") for p in props.PROPS.values() for u in p.units}
carry = {}
for p, d in props.PROPS.items():
    for u, fs in d.units.items():
        for f in fs:
            carry.setdefault((u, engine.canon(f)), set()).add(p)
for r in refs.REFS:
    if sys.argv[1:] and r["id"] not in sys.argv[1:]:
        continue
    subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=S + "/repo")
    bad = 0
    for f, old, new in r["edits"]:
        q = os.path.join(S, "repo", f)
        t = open(q).read()
        if old not in t:
            bad = old
            break
        open(q, "w").write(t.replace(old, new))
    if bad:
        print(r["id"], "NOT FOUND", bad.splitlines()[0], flush=True)
        continue
    c = subprocess.run(["cargo", "check", "--workspace", "--offline", "-q"], cwd=S + "/repo", env=dict(os.environ, RUSTUP_TOOLCHAIN="1.81", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER=""), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if c.returncode:
        print(r["id"], "DOES NOT BUILD", "\n".join(re.findall(r"^error.*\n.*", c.stdout, re.M)[:3]), flush=True)
        continue
    touched = {e[0] for e in r["edits"]}
    out = []
    for u in sorted(units):
        if units[u] & touched:
            x = engine.run_unit(u, S + "/w", canary=False)
            for f in x.failed:
                out.append("%s: %s FAILS (%s)" % (u, f, ",".join(sorted(carry.get((u, f), ["-"])))))
            for f, why in x.degraded.items():
                out.append("%s: %s degraded: %s" % (u, f, why[:110]))
            if x.broken:
                out.append("%s BROKEN %s" % (u, x.broken[:200]))
    print(r["id"], "ok" if not out else "\n    " + "\n    ".join(out), flush=True)
