#!/usr/bin/env python3
"""mutate.py [-n N] [-s SEED] [FILE...]: small mechanical mutations of the sources under contract, each applied to a scratch
copy; those that compile and pass the stable tests are given to the checks of the properties whose contracts are woven into
the file (first the one unit, then the whole check), and the ones no check reports are listed, to be looked at by hand:
either the mutation changes nothing that a property speaks of, or a check misses it."""
import json, os, random, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, "/verif/lib")
import props
S = os.environ.get("MUT", "/tmp/mut")
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin", VERIF_SEED="1", VERIF_TIER="quick", RUSTC_WRAPPER="")


def fns_of(f, cur=None):
    """(file, function) pairs that the unit verifies"""
    out = set()
    for l in open("/verif/contracts/" + f).read().split("\n"):
        m = re.match(r"#(file|include|fn) (.*)", l)
        if not m:
            continue
        if m.group(1) == "file":
            cur = m.group(2).strip()
        elif m.group(1) == "include":
            o, cur = fns_of(m.group(2).strip(), cur)
            out |= o
        elif cur:
            out.add((cur, m.group(2).strip()))
    return out, cur


RULES = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
    (r" as i64\b", " as i32 as i64"), (r" as usize\b", " as u16 as usize"), (r" as f64\b", " as f32 as f64"), (r" as u32\b", " as u16 as u32"), (r" as i32\b", " as i16 as i32"),
    (r"\b(\d+)\b", lambda m: str(int(m.group(1)) + 1)), (r"\b([1-9]\d*)\b", lambda m: str(int(m.group(1)) - 1)),
    (r"^(\s*)(self\.[\w.]+(?: [-+*]?= .*|\.\w+\(.*\));)$", r"\1/* \2 */"), (r"\.round\(\)", ".floor()"), (r"\.abs\(\)", ""),
    (r"\bfirst\(\)", "last()"), (r"\blast\(\)", "first()"), (r"!(?=[\w(]+)", ""), (r"\.skip\(1\)", ""), (r"\.is_finite\(\)", ".is_normal()"),
    (r"0\.\.", "1.."), (r"\.\.=", ".."), (r"\bif (.*) \{$", r"if !(\1) {"), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"), (r"\? *;", ".ok();"),
]


def candidates(path):
    t = open(path).read()
    stop = t.find("#[cfg(test)]")
    body = t if stop < 0 else t[:stop]
    out, off = [], 0
    for l in body.split("\n"):
        s = l.strip()
        if not (s.startswith("//") or s.startswith("#[") or s.startswith("use ") or s.startswith("pub fn") or s.startswith("fn ") or s.startswith("impl") or re.match(r"(debug|info|trace|warn|error|println|eprintln)!", s) or '"' in s):
            for i, (p, q) in enumerate(RULES):
                for m in re.finditer(p, l):
                    n = l[:m.start()] + m.expand(q) + l[m.end():] if isinstance(q, str) else l[:m.start()] + q(m) + l[m.end():]
                    if n != l:
                        out.append((off, l, n))
        off += len(l) + 1
    return t, out


def main():
    a = sys.argv[1:]
    n, seed = 40, 1
    if "-n" in a: i = a.index("-n"); n = int(a[i + 1]); del a[i:i + 2]
    if "-s" in a: i = a.index("-s"); seed = int(a[i + 1]); del a[i:i + 2]
    os.makedirs(S, exist_ok=True)
    subprocess.check_call("rsync -a --delete /repo/ %s/repo/ && rsync -a --delete --exclude seeded --exclude .git /verif/ %s/verif/" % (S, S), shell=True)
    units = {u: fns_of(u + ".vx")[0] for p in props.PROPS.values() for u in p.units}
    files = a or sorted({f for v in units.values() for f, _ in v})
    rnd = random.Random(seed)
    pool = []
    for f in files:
        t, c = candidates("/repo/" + f)
        pool += [(f, x) for x in c]
    rnd.shuffle(pool)
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("tests", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
    done = 0
    for f, (off, old, new) in pool:
        if done >= n:
            break
        if "\nfn " not in open("/repo/" + f).read()[:off] and not re.search(r"^\s+(pub )?fn ", open("/repo/" + f).read()[:off], re.M):
            continue
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=S + "/repo")
        p = os.path.join(S, "repo", f)
        t = open(p).read()
        open(p, "w").write(t[:off] + new + t[off + len(old):])
        line = t[:off].count("\n") + 1
        tag = "%s:%d  %s  ->  %s" % (f, line, old.strip(), new.strip())
        q = subprocess.run(["timeout", "120", "cargo", "test", "--workspace", "--offline"], cwd=S + "/repo", env=dict(ENV, RUSTUP_TOOLCHAIN="1.81", CARGO_NET_OFFLINE="true"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if q.returncode:
            continue
        done += 1
        # the properties that a function of this name carries, or else those whose units verify it
        fn = (re.findall(r"\bfn (\w+)", t[:off]) or ["?"])[-1]
        last = lambda x: re.split(r"::", x)[-1]
        ps = sorted(p for p, d in props.PROPS.items() if any(any(last(g) == fn for g in c) and any(q[0] == f and last(q[1]) == fn for q in units[u]) for u, c in d.units.items()))
        ps = ps or sorted(p for p, d in props.PROPS.items() if any(q[0] == f and last(q[1]) == fn for u in d.units for q in units[u]))
        tag = "%s  %s" % (fn, tag)
        hit, weak, odd = None, None, []
        for p in ps:
            q = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec timeout 800 python3 check.py %s" % (S, S, p)], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = re.findall(r"^VIOLATION.*", q.stdout, re.M)
            if v and "no-failing" not in v[0]:
                hit = p
                break
            if v:
                weak = weak or p
            elif q.returncode:
                odd.append("%s rc=%d" % (p, q.returncode))
        print("%s  %s%s" % ("CAUGHT %s" % hit if hit else "PROOF-ONLY %s of %s" % (weak, ",".join(ps)) if weak else "MISSED by %s" % ",".join(ps), tag, "  [%s]" % ", ".join(odd) if odd else ""), flush=True)
    subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=S + "/repo")


main()
