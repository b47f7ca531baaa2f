"""one.py CONTRACT.cpp PROOF [cases...]: one proof instance (development aid)"""
import os, sys, time, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vf import build, terms as tm
from vf.ir import Module
from vf.exec import Exec, NeedCase
src, proof, cases = sys.argv[1], sys.argv[2], [int(x) for x in sys.argv[3:]]
work = os.environ.get("VF_WORK", "/tmp/vfone"); os.makedirs(work, exist_ok=True)
build.config_hpp(work)
ll = os.path.join(work, src.replace(".cpp", ".opt.ll"))
if not os.environ.get("VF_NOBUILD"):
    from vf import props
    fl = ()
    for k,(us,kw) in props.PROPS.items():
        for u in us:
            if u.file == src: fl = u.flags
    ll = build.to_ir(os.path.join(build.VERIF, "contracts", src), work, fl)
t0 = time.time(); m = Module(open(ll).read()); print("parse", round(time.time() - t0, 2))
from vf import props
o = {}
import re
for k,(us,kw) in props.PROPS.items():
    for u in us:
        if u.file == src:
            o.update(u.opts)
            for r,d in u.popts.items():
                if re.fullmatch(r, proof): o.update(d)
t0 = time.time(); ex = Exec(m, dict(o, cases=cases, deadline=time.time()+float(os.environ.get("VF_T","300"))))
try:
    if os.environ.get("VF_PROF"):
        import cProfile; cProfile.run('ex.run("proof_" + proof)', sort="cumtime")
    else: ex.run("proof_" + proof)
except NeedCase as e: print("need case", e.lo, e.hi)
print("obl", ex.obl, "disch", ex.disch, "paths", ex.paths, "t", round(time.time() - t0, 2), "solver", round(ex.t_solver, 2), "calls", ex.solver_calls, ex.by, sorted(ex.covered))
for f in ex.failures[:10]: print(f.kind, f.name, f.status, f.inputs, f.why[-1500:], f.where, f.cond)
if os.environ.get("VF_OPAQUE"):
    print("\n".join(sorted(ex.opaque_seen)))
