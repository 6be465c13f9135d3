#!/usr/bin/env python3
"""tryref.py [-t] [-w] [p=Cnn] [ID...]: applies each edit of refs.py to a scratch copy of /repo and runs the checks of every
property whose contracts are woven into a file it touches (-w: also through the units it includes), with the copies of /repo and /verif mounted in place.  -t: also the stable tests."""
import json, os, subprocess, sys, re, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, "/verif/lib")
import refs, props
S = "/tmp/rf"
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin", VERIF_SEED="1", VERIF_TIER="quick")


def files_of(f):
    t = open("/verif/contracts/" + f).read()
    return set(re.findall(r"^#file (\S+)", t, re.M)).union(*[files_of(i) for i in re.findall(r"^#include (\S+)", t, re.M)])


def main():
    a = sys.argv[1:]
    tests = "-t" in a
    wide = "-w" in a
    only = [x[2:] for x in a if x.startswith("p=")]
    a = [x for x in a if x not in ("-t", "-w") and not x.startswith("p=")]
    os.makedirs(S, exist_ok=True)
    subprocess.check_call("rsync -a --delete /repo/ %s/repo/ && rsync -a --delete --exclude seeded /verif/ %s/verif/" % (S, S), shell=True) if subprocess.call("which rsync >/dev/null", shell=True) == 0 else subprocess.check_call("mkdir -p %s && { [ -d %s/repo ] || cp -a /repo %s/repo; } && cd %s/repo && git checkout -q -- . && { [ -d %s/verif ] || cp -a /verif %s/verif; } && cp -a /verif/*.py /verif/lib /verif/contracts /verif/kani /verif/run /verif/tools /verif/known-findings.txt %s/verif/" % ((S,) * 7), shell=True)
    units = {u: files_of(u + '.vx') for p in props.PROPS.values() for u in p.units}
    for r in refs.REFS:
        if a and r["id"] not in a:
            continue
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=S + "/repo")
        bad = None
        for f, old, new in r["edits"]:
            p = os.path.join(S, "repo", f)
            t = open(p).read()
            if old not in t:
                bad = old
                break
            open(p, "w").write(t.replace(old, new) if t.count(old) > 1 else t.replace(old, new, 1))
        if bad:
            print(r["id"], "NOT FOUND", bad.splitlines()[0], flush=True)
            continue
        if tests:
            q = subprocess.run(["cargo", "test", "--workspace", "--offline", "--no-fail-fast"], cwd=S + "/repo", env=dict(ENV, RUSTUP_TOOLCHAIN="1.81", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER=""), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if q.returncode:
                print(r["id"], "TESTS", re.findall(r"^error.*|^test .*FAILED.*", q.stdout, re.M)[:5], flush=True)
                continue
        touched = {e[0] for e in r["edits"]}
        own = {u: set(re.findall(r"^#file (\S+)", open("/verif/contracts/" + u + ".vx").read(), re.M)) for u in units}
        ps = only or sorted(p for p, d in props.PROPS.items() if any((units if wide else own)[u] & touched for u in d.units)) or sorted(p for p, d in props.PROPS.items() if any(units[u] & touched for u in d.units))
        res = []
        for p in ps:
            q = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && python3 check.py %s" % (S, S, p)], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = re.findall(r"^VIOLATION.*", q.stdout, re.M)
            if q.returncode:
                res.append("%s rc=%d %s" % (p, q.returncode, (v or [q.stdout[-300:]])[0]))
                if v and "no-failing" in v[0]:
                    try:
                        j = json.load(open(S + "/verif/replay/%s.json" % p))
                        res[-1] += " :: " + json.dumps({k: j[k] for k in j if k in ("obligations", "failed", "functions", "obligation")})[:300]
                    except Exception as e:
                        pass
        print(r["id"], "%d checks" % len(ps), "; ".join(res) or "quiet", flush=True)
    subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=S + "/repo")


main()
