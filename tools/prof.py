"""Developer aid: runs one case in this process and prints slow queries."""
import os, sys, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import warnings; warnings.simplefilter("ignore")
import numpy, pandas, scipy.interpolate, scipy.integrate, pint, pyam, z3
from symex import core, loader, runner, harness
loader.install()
pid, name = sys.argv[1], sys.argv[2]
maxp = int(sys.argv[3]) if len(sys.argv) > 3 else 20
cs = {c.name: c for c in runner.load_cases(pid, sys.argv[4] if len(sys.argv) > 4 else "quick")}
runner.preload()
oc = core.Ctx.check
def check(self, *extra, ms=None):
    t = time.time(); r = oc(self, *extra, ms=ms); d = time.time() - t
    if d > 0.3:
        print("slow query %.2fs %s" % (d, r[0]), core.where(), [str(x)[:300] for x in extra])
    return r
core.Ctx.check = check
class C:
    runs = 0
    def run(self, *a, **k):
        return dict(status="none", label="", detail="", values={}, obs=[], trace=[])
c = cs[name]; c.max_paths = maxp; c.conc = 0
def send(r):
    if r.get("done"): print(runner.summary_line(r))
r = runner.CaseRun(c, C(), 1, send, "quick")
import cProfile, pstats
p = cProfile.Profile()
if os.environ.get("PROF"): p.enable()
_ex = runner.CaseRun.exception
def ex(self, ctx, h, e):
    import traceback
    if os.environ.get("TB"): traceback.print_exception(e)
    return _ex(self, ctx, h, e)
runner.CaseRun.exception = ex
r.explore()
if os.environ.get("PROF"): p.disable(); pstats.Stats(p).sort_stats("cumtime").print_stats(35)
if r.violation: print(r.violation)
