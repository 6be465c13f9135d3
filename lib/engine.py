"""Runs the pieces of a check: Verus units, Kani harnesses, runners on the compiled code."""
import json, os, re, subprocess, sys, time, hashlib, shutil, threading, signal
import weave

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
VX = os.path.join(BUILD, "vx", "debug", "vx")

ENV = dict(os.environ)
ENV.update({"HOME": ENV.get("HOME", "/root"), "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "", "RUST_BACKTRACE": "0"})
ENV["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:" + ENV.get("PATH", "")
ENV.pop("RUST_LOG", None)
CENV = dict(ENV, RUSTUP_TOOLCHAIN="1.81", CARGO_INCREMENTAL="0")

# messages of Verus that mean: an obligation is not discharged
VERDICT = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "assertion not satisfied", "invariant not satisfied", "invariant not", "possible arithmetic",
           "possible division by zero", "decreases not satisfied", "possible bit shift", "unable to prove", "cannot prove", "index out of bounds", "loop invariant",
           "could not prove", "requires not satisfied", "possible", "unwind", "termination")


def sh(cmd, timeout, **kw):
    """-> (rc, stdout, stderr, seconds); rc None on timeout.  Ends the whole process group."""
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        rc = None
    return rc, o, e, time.time() - t0


def build_vx():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "vx")
    stamp = os.path.join(BUILD, "vx", "stamp")
    h = hashlib.sha256()
    for f in ("Cargo.toml", "Cargo.lock", "src/main.rs"):
        h.update(open(os.path.join(src, f), "rb").read())
    if os.path.exists(VX) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    env = dict(ENV)
    env.pop("RUSTUP_TOOLCHAIN", None)
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "vx")
    rc, o, e, _ = sh(["cargo", "build", "--offline", "--locked", "-q"], 600, cwd=src, env=env)
    if rc != 0:
        raise RuntimeError("building the span indexer failed: " + e[-2000:])
    open(stamp, "w").write(h.hexdigest())


# ------------------------------------------------------------------ Verus
class UnitResult:
    def __init__(self):
        self.ok, self.failed, self.degraded = [], {}, {}
        self.funcs, self.trusted, self.clauses, self.lemmas = [], [], 0, []
        self.assumed, self.rewrites, self.smt_ms, self.wall = [], {}, 0, 0.0
        self.broken = None      # the unit could not be decided at all
        self.output = ""
        self.cmd = ""
        self.canaries = None
        self.retried = {}       # function: the random seed of the solver under which it was discharged


SEEDS = (1, 2, 4, 5)


def short(name):
    """name of a Verus function in the breakdown -> our name"""
    return name.split("::", 1)[1] if "::" in name else name


def verus(path, timeout=600, rlimit=60, multi=4):
    cmd = ["verus", "--triggers-mode", "silent", "--multiple-errors", str(multi), "--rlimit", str(rlimit), "--output-json", "--time", "--error-format=json"] + [os.path.basename(path)]
    rc, o, e, w = sh(cmd, timeout, cwd=os.path.dirname(path), env={k: v for k, v in ENV.items() if k != "RUSTUP_TOOLCHAIN"})
    diags = []
    for l in e.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            if l.strip():
                diags.append({"level": "raw", "message": l.strip(), "spans": [], "rendered": l})
            continue
        if m.get("level") == "error" and not m["message"].startswith("aborting due"):
            diags.append(m)
    try:
        js = json.loads(o)
    except ValueError:
        js = None
    return rc, js, diags, w, " ".join(cmd)


def fn_at(spans, line):
    for a, b, tag in spans:
        if a <= line <= b:
            return tag
    return None


def breakdown(js):
    out = []
    try:
        for mod in js["times-ms"]["smt"]["smt-run-module-times"]:
            for f in mod.get("function-breakdown", []):
                out.append((short(f["function"]), f["mode:"], f["success"], f["time-micros"] / 1000.0))
    except (KeyError, TypeError):
        pass
    return out


def run_unit(name, workdir, canary=True, timeout=600, rlimit=60):
    """Weaves contracts/<name>.vx into the current source and runs Verus on it."""
    R = UnitResult()
    t0 = time.time()
    degrade = {}
    path = os.path.join(workdir, name + ".rs")
    u = None
    for attempt in range(8):
        u = weave.Unit(os.path.join(VERIF, "contracts", name + ".vx"), VX, REPO)
        try:
            text = u.build(degrade)
        except weave.Unfit as e:
            R.broken = str(e)
            R.wall = time.time() - t0
            return R
        open(path, "w").write(text)
        can, cres = None, {}
        if canary:
            can = threading.Thread(target=lambda d=dict(degrade), c=cres: c.update(r=run_canary(name, u, d, workdir, timeout)))
            can.start()
        rc, js, diags, w, cmd = verus(path, timeout, rlimit=rlimit)
        R.cmd = cmd
        if rc is None:
            R.broken = "Verus did not finish in %d s" % timeout
            break
        # errors that are not verdicts: the function is outside the reach of the contracts as it stands
        other = {}
        for d in diags:
            m = d["message"]
            lines = [s["line_start"] for s in d["spans"] if s["is_primary"]] or [s["line_start"] for s in d["spans"]]
            tag = fn_at(u.spans, lines[0]) if lines else None
            is_verdict = d["level"] == "error" and any(m.startswith(v) or m.lower().startswith(v) for v in VERDICT) and "not supported" not in m
            if d["level"] == "raw":
                continue
            if is_verdict:
                continue
            where = tag[1] if tag and tag[0] == "fn" else None
            other.setdefault(where, []).append(m)
        if not other:
            break
        new = {f: ms for f, ms in other.items() if f and f not in degrade}
        if not new:
            R.broken = "; ".join("%s: %s" % (f, ms[0]) for f, ms in other.items())[:600]
            break
        for f, ms in new.items():
            degrade[f] = ms[0][:300]
        if can:
            can.join()
    else:
        R.broken = "too many functions outside the reach of the contracts"
    R.degraded = dict(u.degraded)
    R.wall = time.time() - t0
    R.funcs = [f for f in u.funcs if f not in R.degraded]
    R.trusted, R.clauses, R.rewrites = u.trusted, u.clauses, {k: sorted(set(v)) for k, v in u.used.items()}
    R.output = "\n".join(d.get("rendered") or d["message"] for d in diags)[-20000:]
    R.assumed = scan_assumptions(text)
    if R.broken:
        return R
    bd = breakdown(js)
    R.smt_ms = sum(b[3] for b in bd)
    if js is None or not bd or js["verification-results"]["verified"] == 0:
        R.broken = "Verus generated no obligation: " + (R.output[-300:] or str(js)[:200])
        return R
    bad = {}
    for d in diags:
        if d["level"] != "error":
            continue
        lines = [s["line_start"] for s in d["spans"] if s["is_primary"]] + [s["line_start"] for s in d["spans"] if not s["is_primary"]]
        tag = None
        # the failing function is where the exit, call or loop is: a non-primary span, or the primary one
        cand = [fn_at(u.spans, l) for l in lines]
        fns = [t for t in cand if t and t[0] == "fn"]
        bad.setdefault("msgs", []).append((d["message"], [t[1] for t in fns], d.get("rendered", "")))
    for n, mode, okf, ms in bd:
        if mode == "spec":
            continue
        nn = canon(n)
        (R.ok.append(nn) if okf else R.failed.setdefault(nn, []))
    for f in list(R.failed):
        R.ok = [x for x in R.ok if x != f]
    if R.failed:
        R.retried = retry(path, R.failed, bd, timeout, rlimit)
        for f in R.retried:
            del R.failed[f]
            R.ok.append(f)
    for msg, fns, rend in bad.get("msgs", []):
        for f in R.failed:
            if any(canon(x) == f for x in fns) or not fns:
                R.failed[f].append(rend.strip())
    R.lemmas = [canon(n) for n, mode, okf, ms in bd if mode == "proof"]
    if can:
        can.join()
        R.canaries = cres.get("r")
    R.wall = time.time() - t0
    return R


def retry(path, failed, bd, timeout, rlimit):
    """The solver's search depends on a random seed: an obligation that is valid may be left open under
    one seed and be discharged under another. Any seed under which all obligations of a function are
    discharged is a proof of them. -> {function: seed}"""
    raw = {}
    for n, mode, okf, ms in bd:
        if canon(n) in failed and mode != "spec":
            raw.setdefault(canon(n), []).append(n)
    names = sorted({n for ns in raw.values() for n in ns})
    only = []
    if len(names) == 1 and re.fullmatch(r"\w+(::\w+)?", names[0]):
        only = ["--verify-root", "--verify-function", names[0]]
    got, lock = {}, threading.Lock()

    def one(seed):
        cmd = ["verus", "--triggers-mode", "silent", "--rlimit", str(rlimit), "--num-threads", "2", "--smt-option", "smt.random_seed=%d" % seed, "--output-json", "--time-expanded"] + only + [os.path.basename(path)]
        rc, o, e, w = sh(cmd, timeout, cwd=os.path.dirname(path), env={k: v for k, v in ENV.items() if k != "RUSTUP_TOOLCHAIN"})
        try:
            b = breakdown(json.loads(o))
        except (TypeError, ValueError):
            return
        for f, ns in raw.items():
            runs = [okf for n, mode, okf, ms in b if canon(n) == f and mode != "spec"]
            if len(runs) >= len(ns) and all(runs):
                with lock:
                    got[f] = min(seed, got.get(f, seed))
    ts = [threading.Thread(target=one, args=(k,)) for k in SEEDS]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return got


def canon(n):
    """Vsri::get -> Vsri::get; impl&%3::f -> f; generic parameters dropped"""
    n = re.sub(r"^<(\w+)(?:<[^<>]*>)? as [^>]*>", r"\1", n)
    n = re.sub(r"<[^<>]*>", "", n)
    n = re.sub(r"<[^<>]*>", "", n)
    n = n.split("|")[0].strip()
    return n[8:] if n.startswith("metric::") else n   # the module a unit puts around a file's items


def run_canary(name, u, degrade, workdir, timeout):
    """Each function again with an additional `ensures false`: all of these must fail, or a
    precondition, an axiom or an assumed contract is contradictory."""
    c = weave.Unit(u.path, VX, REPO)
    text = c.build(degrade, canary=True)
    path = os.path.join(workdir, name + "_canary.rs")
    open(path, "w").write(text)
    rc, js, diags, w, cmd = verus(path, timeout, multi=1)
    bd = breakdown(js) if js else []
    want = set(c.canary_names)
    got = {n.split("::")[-1]: okf for n, mode, okf, ms in bd}
    vac = sorted(x for x in want if got.get(x) is True)
    missing = sorted(x for x in want if x not in got)
    return {"planted": len(want), "failed_as_expected": len([x for x in want if got.get(x) is False]), "vacuous": vac, "missing": missing}


def scan_assumptions(text):
    """Mechanical scan of everything the proof takes for granted."""
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        if re.search(r"\bassume\s*\(|\badmit\s*\(", s):
            out.append("assume: " + s[:160])
        m = re.search(r"assume_specification(?:<[^>]*>)?\s*(?:<.*>)?\s*\[(.*)\]", s)
        if m or "assume_specification" in s:
            out.append("assumed contract of a library function: " + (m.group(1).strip() if m else s[:140]))
        if "external_body" in s or "external_type_specification" in s or "external_trait_specification" in s:
            k = i + 1
            while k < len(lines) and (lines[k].strip().startswith("#[") or not lines[k].strip() or lines[k].strip().startswith("//")):
                k += 1
            sig = re.sub(r"\s+", " ", lines[k].strip()) if k < len(lines) else ""
            out.append(("external type: " if "type" in s else "trusted (body not verified): ") + sig[:160])
        m = re.search(r"\buninterp spec fn (\w+)", s)
        if m:
            out.append("uninterpreted: " + m.group(1))
    return sorted(set(out))


# ------------------------------------------------------------------ Kani
def run_kani(name, workdir, timeout=600):
    """kani/<name>.vk: functions extracted mechanically plus harnesses; every harness must be verified."""
    t0 = time.time()
    res = {"name": name, "harnesses": {}, "broken": None, "wall": 0.0, "output": "", "cmd": "", "replay": {}}
    try:
        text, harn, info = weave.kani_file(os.path.join(VERIF, "kani", name + ".vk"), VX, REPO)
    except weave.Unfit as e:
        res["broken"] = str(e)
        return res
    res["extracted"] = info
    path = os.path.join(workdir, name + ".rs")
    open(path, "w").write(text)
    res["bounded"] = {h: b for h, b in harn.items() if b}
    cmd = ["kani", os.path.basename(path), "--output-format", "terse"]
    res["cmd"] = " ".join(cmd)
    env = {k: v for k, v in ENV.items() if k != "RUSTUP_TOOLCHAIN"}
    rc, o, e, w = sh(cmd + ["-j", "4"], timeout, cwd=workdir, env=env)
    out = o + e
    res["output"] = out[-12000:]
    res["wall"] = time.time() - t0
    if rc is None:
        res["broken"] = "Kani did not finish in %d s" % timeout
        return res
    cur = {}
    order = []
    # with -j the output of the harnesses is interleaved per thread: "Thread n: Checking harness x..."
    for l in out.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", l)
        if m:
            cur[m.group(1)] = m.group(2)
            order.append(m.group(2))
        m = re.match(r"(?:Thread (\d+): )?.*VERIFICATION:- (\w+)", l)
        if m and m.group(1) in cur:
            res["harnesses"][cur[m.group(1)]] = m.group(2)
        elif m and len(order) == 1:
            res["harnesses"][order[0]] = m.group(2)
    names = set(h for h in harn)
    have = {k.split("::")[-1]: v for k, v in res["harnesses"].items()}
    # summary of failures at the end
    for l in out.splitlines():
        m = re.match(r"Verification failed for - (\S+)", l)
        if m:
            have[m.group(1).split("::")[-1]] = "FAILED"
    m = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total", out)
    if m and int(m.group(3)) == len(names):
        for h in names:
            if h not in have:
                have[h] = "SUCCESSFUL" if int(m.group(2)) == 0 else "UNKNOWN"
            if int(m.group(2)) == 0:
                have[h] = "SUCCESSFUL"
        failed = re.findall(r"Verification failed for - (\S+)", out)
        if len(failed) == int(m.group(2)):
            for h in names:
                have[h] = "FAILED" if any(f.split("::")[-1] == h for f in failed) else "SUCCESSFUL"
    else:
        res["broken"] = "Kani gave no verdict: " + out[-400:]
    res["harnesses"] = {h: have.get(h, "UNKNOWN") for h in names}
    if "unsupported" in out.lower() and "FAILED" in res["harnesses"].values() and "unwinding assertion" in out:
        pass
    return res


# ------------------------------------------------------------------ runners
GROUPS = {
    "vsri": {"deps": {"vsri": "vsri"}, "extra": 'chrono = "0.4.26"\n'},
    "wav": {"deps": {"wavbrro": "wavbrro"}, "extra": ""},
    "atsc": {"deps": {"atsc": "atsc", "wavbrro": "wavbrro"}, "extra": 'bincode = "2.0.0-rc.3"\n'},
    "cli": {"deps": {"atsc": "atsc", "wavbrro": "wavbrro", "vsri": "vsri"}, "extra": 'hound = "3.5"\n'},
}


def build_runner(group, bins, timeout=800):
    """-> (path, error)"""
    g = GROUPS[group]
    d = os.path.join(BUILD, "run-" + group)
    os.makedirs(d, exist_ok=True)
    toml = '[package]\nname = "run-%s"\nversion = "0.1.0"\nedition = "2021"\n[[bin]]\nname = "run-%s"\npath = "%s"\n[dependencies]\n' % (group, group, os.path.join(VERIF, "run", "src", group + ".rs"))
    for c, p in g["deps"].items():
        toml += '%s = { path = "%s" }\n' % (c, os.path.join(REPO, p))
    toml += g["extra"] + "[profile.dev]\nopt-level = 1\ndebug = false\noverflow-checks = true\ndebug-assertions = true\n[workspace]\n"
    f = os.path.join(d, "Cargo.toml")
    if not os.path.exists(f) or open(f).read() != toml:
        open(f, "w").write(toml)
    lock = os.path.join(d, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists(os.path.join(REPO, "Cargo.lock")):
        shutil.copy(os.path.join(REPO, "Cargo.lock"), lock)
    env = dict(CENV, CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
    res = {}

    def one():
        res["lib"] = sh(["cargo", "build", "--offline", "-q"], timeout, cwd=d, env=env)

    def two():
        e2 = dict(CENV, CARGO_TARGET_DIR=os.path.join(BUILD, "target-bins"), CARGO_PROFILE_DEV_DEBUG="0", CARGO_PROFILE_DEV_OPT_LEVEL="1", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="true")
        cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(REPO, "Cargo.toml")]
        for pkg, b in bins:
            cmd += ["-p", pkg]
        for pkg, b in bins:
            cmd += ["--bin", b]
        res["bins"] = sh(cmd, timeout, cwd=d, env=e2)
    ts = [threading.Thread(target=one)]
    if bins:
        ts.append(threading.Thread(target=two))
    for t in ts: t.start()
    for t in ts: t.join()
    for k, (rc, o, e, w) in res.items():
        if rc != 0:
            return None, "%s does not build: %s" % (k, e[-1500:])
    return os.path.join(BUILD, "target", "debug", "run-" + group), None


def run_runner(group, prop, tier, seed, budget, bins=(), case=None, timeout=600, workdir=None):
    exe, err = build_runner(group, list(bins))
    if err:
        return {"broken": err}
    out = os.path.join(workdir or BUILD, "run-%s-%s.json" % (prop, group))
    for f in (out, out + ".current"):
        if os.path.exists(f):
            os.remove(f)
    env = dict(CENV)
    env["ATSC_BIN"] = os.path.join(BUILD, "target-bins", "debug", "atsc")
    env["CSVC_BIN"] = os.path.join(BUILD, "target-bins", "debug", "csv-compressor")
    env["W2W_BIN"] = os.path.join(BUILD, "target-bins", "debug", "wav2wbro")
    env["TMPDIR"] = os.path.join(workdir or BUILD, "tmp")
    os.makedirs(env["TMPDIR"], exist_ok=True)
    cmd = [exe, prop, tier, str(seed), str(budget), out] + ([case] if case else [])

    def limit():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    rc, o, e, w = sh(cmd, timeout, env=env, cwd=env["TMPDIR"], preexec_fn=limit)
    shutil.rmtree(env["TMPDIR"], ignore_errors=True)
    if os.path.exists(out):
        try:
            r = json.load(open(out))
            r["wall"] = w
            return r
        except ValueError as ex:
            return {"broken": "unreadable result of the runner: %s" % ex}
    if os.path.exists(out + ".current") and rc not in (64,):
        cur = open(out + ".current", errors="replace").read()
        cid, _, text = cur.partition("\n")
        why = "no result after %d s" % timeout if rc is None else "the process ended with status %s: %s" % (rc, e[-300:])
        return {"evaluations": 1, "distinct_nontrivial": 1, "rule": "", "samples": [], "failures": [{"case": cid, "input": text, "what": why}], "wall": w}
    return {"broken": "the runner ended with status %s: %s" % (rc, (o + e)[-600:])}
