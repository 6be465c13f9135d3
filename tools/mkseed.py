#!/usr/bin/env python3
"""mkseed.py [ID...]: makes /verif/seeded/<id>/ from tools/seeds.py after confirming, in a scratch copy of /repo,
that the change builds, passes the stable tests, and that the demonstration tells the two apart."""
import json, os, subprocess, sys, shutil, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds
SCR = "/tmp/seedrepo"
OUT = "/verif/seeded"
BASE = "cf903e9"
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin", RUSTUP_TOOLCHAIN="1.81", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")

DEMO = '''#!/bin/bash
# cwd: the repository.  Builds demo.rs against its crates and runs it; exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin RUSTUP_TOOLCHAIN=1.81 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
work=$(mktemp -d) || exit 9
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" "$work/scratch"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
%s[profile.dev]
debug = false
[workspace]
TOML
cd "$work" || exit 9
export CARGO_TARGET_DIR="$work/target"
%scargo build --offline -q || exit 9
cd "$work/scratch" && REPO="$repo" TMPDIR="$work/scratch" timeout 200 "$work/target/debug/demo"
'''


def run(cmd, cwd=SCR, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def tests():
    """-> set of passing tests, or None when it does not build"""
    r = run(["cargo", "test", "--workspace", "--all-targets", "--no-run", "--offline"])
    if r.returncode != 0:
        return None, r.stdout[-1500:]
    os.makedirs("/tmp/seedtmp", exist_ok=True)
    e = dict(ENV, TMPDIR="/tmp/seedtmp")
    r = subprocess.run(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--", "--test-threads", "8"], cwd=SCR, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
    shutil.rmtree("/tmp/seedtmp", ignore_errors=True)
    f = re.findall(r"^test (.*) \.\.\. (?!ok|ignored)(.*)$", r.stdout, re.M)
    return f, r.stdout[-500:]


def main():
    want = sys.argv[1:]
    if not os.path.exists(SCR):
        subprocess.check_call(["cp", "-a", "/repo", SCR])
    subprocess.check_call("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=SCR)
    for s in seeds.SEEDS:
        if want and s["id"] not in want or (not want and os.path.exists(os.path.join(OUT, s["id"], "meta.json"))):
            continue
        print("==", s["id"], flush=True)
        d = os.path.join("/tmp/seedout", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        deps = "".join('%s = { path = "$repo/%s" }\n' % (c, c) for c in s.get("deps", ["atsc"])) + s.get("extra", "")
        bins = "".join('cargo build --offline -q --manifest-path "$repo/Cargo.toml" -p %s --bin %s || exit 9\n' % (p, b) for p, b in s.get("bins", []))
        open(d + "/demo.sh", "w").write(DEMO % (deps, bins))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(s["demo"])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=SCR)
        bad = None
        for f, old, new in s["edits"]:
            p = os.path.join(SCR, f)
            t = open(p).read()
            if t.count(old) < 1:
                bad = "text not found in %s: %s" % (f, old); break
            t = t.replace(old, new, 1)
            open(p, "w").write(t)
        if bad:
            print("  BAD", bad); continue
        diff = subprocess.check_output(["git", "diff"], cwd=SCR, text=True)
        open(d + "/patch.diff", "w").write(diff)
        # removed lines must be of the original repository
        for f, _, _ in s["edits"]:
            h = subprocess.check_output(["git", "diff", "-U0", "--", f], cwd=SCR, text=True)
            n_orig = n_mine = 0
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", h, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                if n == 0:
                    continue
                b = subprocess.check_output(["git", "blame", "-s", "-l", "-L", "%d,%d" % (a, a + n - 1), "HEAD", "--", f], cwd=SCR, text=True)
                for l in b.splitlines():
                    c = l.split()[0].lstrip("^")
                    r = subprocess.run(["git", "merge-base", "--is-ancestor", c, BASE], cwd=SCR)
                    if r.returncode == 0: n_orig += 1
                    else: n_mine += 1
            print("  %s: removes %d original lines, %d of fix commits" % (f, n_orig, n_mine))
        fails, out = tests()
        if fails is None:
            print("  DOES NOT BUILD", out); continue
        if fails:
            print("  TESTS FAIL", fails[:5]); continue
        r1 = run([d + "/demo.sh"])
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=SCR)
        r0 = run([d + "/demo.sh"])
        ok = r0.returncode == 0 and r1.returncode not in (0, 9)
        print("  demo: unchanged %s, patched %s %s" % (r0.returncode, r1.returncode, "OK" if ok else "REJECTED\n--unchanged--\n%s\n--patched--\n%s" % (r0.stdout[-800:], r1.stdout[-800:])), flush=True)
        if ok:
            dst = os.path.join(OUT, s["id"])
            shutil.rmtree(dst, ignore_errors=True)
            os.makedirs(OUT, exist_ok=True)
            shutil.copytree(d, dst)


main()
