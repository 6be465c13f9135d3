#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Decides one property of the code in /repo: weaves the contracts into the current source and has the
verifier discharge every obligation; the runner looks for a failing input on the compiled code."""
import json, os, sys, time, threading, traceback, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import engine
from props import PROPS

VERIF = engine.VERIF


def known(prop):
    out = []
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                key, _, what = l[len("known: property=%s " % prop):].partition(" :: ")
                out.append((key.strip(), what.strip()))
    return out


def main():
    t0 = time.time()
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = PROPS[prop]
    case = None
    if "--replay" in a:
        rp = json.load(open(a[a.index("--replay") + 1]))
        case, tier, seed = rp.get("case"), rp.get("tier", tier), rp.get("seed", seed)
        if not case:
            print("the replay file names a failed obligation, there is no input to run; re-running the verifier")
    work = os.path.join(engine.BUILD, "work-" + prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    engine.build_vx()
    res = {}
    budget = p.budget[1 if tier == "thorough" else 0]

    def job(key, f, *args, **kw):
        def run():
            try:
                res[key] = f(*args, **kw)
            except Exception:
                res[key] = traceback.format_exc()
        t = threading.Thread(target=run)
        t.start()
        return t
    ts = []
    for u in p.units:
        ts.append(job(("unit", u), engine.run_unit, u, work, timeout=1500 if tier == "thorough" else 400, rlimit=200 if tier == "thorough" else 60))
    for k in p.kani:
        ts.append(job(("kani", k), engine.run_kani, k, work, timeout=1500 if tier == "thorough" else 500))
    if p.runner:
        ts.append(job(("run", p.runner), engine.run_runner, p.runner, prop, tier, seed, budget, bins=p.bins, case=case, timeout=budget + (1800 if tier == "thorough" else 400), workdir=work))
    for t in ts:
        t.join()

    obligations = discharged = smt = 0
    clauses = 0
    notes, failed, undecided, assumptions, funcs, backends = [], [], [], [], [], []
    und_fns = []
    cmds = []
    canaries = []
    for (kind, name), r in sorted(res.items(), key=str):
        if kind == "unit":
            if isinstance(r, str):
                undecided.append("unit %s: %s" % (name, r[-600:])); continue
            carry = p.units[name]
            if r.broken:
                undecided.append("unit %s: %s" % (name, r.broken)); und_fns += carry
                continue
            cmds.append(r.cmd)
            n_all = len(r.ok) + len(r.failed) + len(r.degraded)
            obligations += n_all
            discharged += len(r.ok)
            clauses += r.clauses
            smt += r.smt_ms
            funcs += ["%s: %s" % (name, f) for f in r.funcs]
            assumptions += ["%s: %s" % (name, x) for x in r.assumed]
            for k, v in r.rewrites.items():
                notes.append("%s: rewrite %s in %s" % (name, k, "; ".join(v)[:400]))
            for f, k in r.retried.items():
                notes.append("%s: %s discharged with random seed %d of the solver (not with the default one)" % (name, f, k))
            for f, why in r.degraded.items():
                undecided.append("%s: the contracts do not fit %s any more (%s)" % (name, f, why[:200]))
                if engine.canon(f) in [engine.canon(c) for c in carry]:
                    und_fns.append(f)
            for f, msgs in r.failed.items():
                if f in [engine.canon(c) for c in carry]:
                    failed.append((name, f, msgs))
                else:
                    undecided.append("%s: %s is not discharged (decided by another property's check)" % (name, f))
            if r.canaries:
                canaries.append((name, r.canaries))
                if r.canaries["vacuous"]:
                    undecided.append("%s: contradictory assumptions, `ensures false` accepted for %s" % (name, r.canaries["vacuous"]))
                    und_fns.append(name)
            missing = [c for c in carry if engine.canon(c) not in r.ok and engine.canon(c) not in r.failed and engine.canon(c) not in [engine.canon(x) for x in r.degraded]]
            for c in missing:
                undecided.append("%s: no obligation was generated for %s" % (name, c)); und_fns.append(c)
        elif kind == "kani":
            if isinstance(r, str):
                undecided.append("kani %s: %s" % (name, r[-600:])); continue
            if r["broken"]:
                undecided.append("kani %s: %s" % (name, r["broken"])); und_fns.append(name)
                continue
            cmds.append(r["cmd"])
            obl = r["harnesses"]
            full = {h: v for h, v in obl.items() if not r["bounded"].get(h)}
            obligations += len(full)
            discharged += sum(1 for v in full.values() if v == "SUCCESSFUL")
            funcs += ["%s (Kani): %s" % (name, f) for f in r["extracted"]["functions"]]
            for h, b in r["bounded"].items():
                if b:
                    notes.append("bounded, not counted as proved: Kani harness %s (%s): %s" % (h, b, obl[h]))
            for h, v in obl.items():
                if v == "FAILED":
                    failed.append(("kani " + name, h, [r["output"][-6000:]]))
                elif v != "SUCCESSFUL":
                    undecided.append("kani %s: harness %s: %s" % (name, h, v)); und_fns.append(h)
    run = res.get(("run", p.runner)) if p.runner else None
    run_ok = isinstance(run, dict) and not run.get("broken")
    fails = run["failures"] if run_ok else []
    if p.runner and not run_ok:
        undecided.append("runner: " + (run if isinstance(run, str) else run.get("broken", ""))[-1500:])

    kf = known(prop)
    listed, news = [], []
    for f in fails:
        hit = [w for k, w in kf if k == f["case"] or (k.startswith("input~") and k[6:] in f["input"])]
        (listed if hit else news).append((f, hit))
    violations = len(news) + (1 if failed and not news else 0)
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + ".json")
    rc = 0
    lines = []
    # listed findings are reproduced on every run, also when the runner does not meet them
    for k, w in kf:
        lines.append("KNOWN-FINDING: property=%s %s" % (prop, w))
    if news:
        f = news[0][0]
        json.dump({"property": prop, "tier": tier, "seed": seed, "case": f["case"], "input": f["input"], "what": f["what"],
                   "replay": "python3 /verif/check.py %s --replay %s" % (prop, rpath),
                   "failed_obligations": [{"unit": u, "function": fn, "verifier_output": "\n".join(m)[:6000]} for u, fn, m in failed],
                   "other_failing_inputs": [x[0] for x in news[1:]]}, open(rpath, "w"), indent=1)
        lines.append("failing input: %s" % f["input"][:1500])
        lines.append("what fails: %s" % f["what"][:1500])
        for u, fn, m in failed:
            lines.append("failed obligation: %s in unit %s" % (fn, u))
        lines.append("VIOLATION property=%s replay=%s" % (prop, rpath))
        rc = 1
    elif failed:
        json.dump({"property": prop, "tier": tier, "seed": seed, "case": None,
                   "failed_obligations": [{"unit": u, "function": fn, "verifier_output": "\n".join(m)[:8000]} for u, fn, m in failed],
                   "note": "the verifier does not accept the obligation; %d inputs were tried on the compiled code and none fails" % (run.get("evaluations", 0) if run_ok else 0)}, open(rpath, "w"), indent=1)
        for u, fn, m in failed:
            lines.append("failed obligation: %s in unit %s" % (fn, u))
            for x in m[:3]:
                lines.append("  " + x.strip()[:600])
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rpath))
        rc = 1
    elif not run_ok and (p.runner or und_fns) and (und_fns or not p.units and not p.kani):
        rc = 2
    elif und_fns and not p.runner:
        rc = 2
    for u in undecided:
        lines.append("note: " + u[:900])

    cov = {"obligations": obligations, "discharged": discharged, "checker_cmd": "; ".join(sorted(set(cmds))) or "none",
           "trusted_base": ["Verus 0.2026.09.13 (rustc front end, VIR, AIR) with Z3 and vstd", "lib/weave.py and vx (extraction of the functions from /repo; rewrites listed below)"]
                           + (["Kani 0.68 with CBMC (CaDiCaL)"] if p.kani else []) + ["rustc 1.81 for the executed code"],
           "functions_under_contract": funcs, "contract_clauses": clauses, "solver_ms": round(smt, 1),
           "carrying_functions": {u: c for u, c in p.units.items()},
           "vacuity_canaries": [{"unit": n, **c} for n, c in canaries],
           "rewrites": notes, "bounded_parts": p.bounded, "undecided": undecided}
    if run_ok:
        cov.update({"evaluations": run["evaluations"], "distinct_nontrivial": run["distinct_nontrivial"], "rule": run["rule"], "samples": run["samples"] or ["(none)"]})
    elif p.level == "exploration":
        cov.update({"evaluations": 0, "distinct_nontrivial": 0, "rule": "not run", "samples": ["(not run)"]})
    if p.level == "other":
        cov["explanation"] = p.note
    ev = {"property": prop, "tier": tier, "seed": seed, "level": p.level, "coverage": cov,
          "assumptions": sorted(set(assumptions)) + ["the Verus proof covers the functions named above; the inputs tried by the runner are a bounded check and are not counted as proved"],
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not case:
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    lines.append("%s %s: %d obligations, %d discharged, %s inputs run, %.1f s" % (prop, {0: "held", 1: "VIOLATED", 2: "UNDECIDED"}[rc], obligations, discharged, run["evaluations"] if run_ok else "no", time.time() - t0))
    # the VIOLATION line comes last
    lines.sort(key=lambda l: l.startswith("VIOLATION"))
    print("\n".join(lines), flush=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
