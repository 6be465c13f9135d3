import sys, os, subprocess, time
sys.path.insert(0, os.path.dirname(__file__))
import weave
u = weave.Unit(sys.argv[1], "/verif/vx/target/debug/vx", os.environ.get("REPO", "/repo"))
t = u.build()
o = "/tmp/units"; os.makedirs(o, exist_ok=True)
f = "%s/%s.rs" % (o, u.name)
open(f, "w").write(t)
t0 = time.time()
r = subprocess.run(["verus", "--triggers-mode", "silent", "--multiple-errors", "3", f] + sys.argv[2:], capture_output=True, text=True, cwd=o)
print((r.stdout + r.stderr)[:9000])
print("%.1fs  funcs=%d trusted=%d clauses=%d" % (time.time() - t0, len(u.funcs), len(u.trusted), u.clauses))
print('DEGRADED', u.degraded) if u.degraded else None
