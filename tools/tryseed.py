#!/usr/bin/env python3
"""tryseed.py [ID...]: each planted bug is applied to a scratch copy of /repo, which is mounted in its place (with a copy of
/verif) for the check of its property; prints what the check reports."""
import json, os, re, subprocess, sys
S = os.environ.get("TS", "/tmp/ts")
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin", VERIF_SEED="1", VERIF_TIER="quick", RUSTC_WRAPPER="")
os.makedirs(S, exist_ok=True)
subprocess.check_call("rsync -a --delete /repo/ %s/repo/ && rsync -a --delete --exclude seeded --exclude .git /verif/ %s/verif/" % (S, S), shell=True)
for s in sys.argv[1:] or sorted(os.listdir("/verif/seeded")):
    p = json.load(open("/verif/seeded/%s/meta.json" % s))["property"]
    subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=S + "/repo")
    if subprocess.call(["git", "apply", "/verif/seeded/%s/patch.diff" % s], cwd=S + "/repo"):
        print(s, "does not apply", flush=True)
        continue
    q = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec timeout 850 python3 check.py %s" % (S, S, p)], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = re.findall(r"^VIOLATION.*", q.stdout, re.M)
    how, obl = "MISSED rc=%d" % q.returncode, ""
    if v:
        how = "proof" if "no-failing" in v[0] else "input"
        obl = ", ".join(sorted(set(re.findall(r"^failed obligation: (\S+) in", q.stdout, re.M)))) or "-"
    print(s, p, how, obl, flush=True)
    if os.environ.get("V"):
        print(q.stdout[-1500:], flush=True)
subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=S + "/repo")
