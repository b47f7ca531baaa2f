"""helper of mutate.py: runs the proofs which execute a line, cheapest first, until one fails"""
import glob, json, os, re, sys, time
sys.path.insert(0, "/verif")
sys.setrecursionlimit(20000)
f, n, w, budget = sys.argv[1], int(sys.argv[2]), sys.argv[3], float(sys.argv[4])
from vf import build, driver, props
from vf.exec import Exec, NeedCase
from vf.ir import Module
t0 = time.time()
todo = {}
for c in glob.glob("/tmp/cov/P*.json"):
    prop = os.path.basename(c)[:-5]
    for k, (t, e) in json.load(open(c)).items():
        if n in e.get(f, ()):
            mod, proof = k.split("/")
            todo.setdefault((prop, mod), []).append((t, proof))
if not todo:
    print("NOCOV"); sys.exit()
build.config_hpp(w)
order = sorted(todo, key=lambda k: min(t for t, _ in todo[k]))
# builds that are shared
mods = {}
ran = skipped = 0
def run1(m, proof, o):
    stack = [[]]
    while stack:
        cs = stack.pop()
        if time.time() - t0 > budget and cs:
            return "budget"
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                oo = dict(o); oo["cases"] = cs
                ex = Exec(m, oo)
                try:
                    ex.run("proof_" + proof)
                    out = {"fails": [x.d()["name"] for x in ex.failures]}
                except NeedCase as e:
                    out = {"need": [e.lo, e.hi]}
                except Exception as e:
                    out = {"fails": ["crash " + repr(e)[:80]]}
                os.write(wr, json.dumps(out).encode()[:60000])
            finally:
                os._exit(0)
        os.close(wr)
        b = b""
        while True:
            x = os.read(r, 65536)
            if not x:
                break
            b += x
        os.close(r); os.waitpid(pid, 0)
        out = json.loads(b or b'{"fails":["died"]}')
        if "need" in out:
            vs = list(range(out["need"][0], out["need"][1] + 1))
            import random
            random.shuffle(vs)
            stack += [cs + [v] for v in vs]
            random.shuffle(stack)
        elif out["fails"]:
            return "FAIL " + out["fails"][0]
    return "ok"
for prop, mod in order:
    if time.time() - t0 > budget:
        skipped += len(todo[(prop, mod)]); continue
    us = props.PROPS[prop][0]
    u = us[int(mod.split("#")[1])]
    k = (u.src, tuple(u.flags))
    if k not in mods:
        try:
            sub = os.path.join(w, "b%d" % len(mods)); os.makedirs(sub)
            mods[k] = Module(open(build.to_ir(u.src, w, u.flags, out=sub)).read())
        except build.BuildError as e:
            print("BUILD"); sys.exit()
    for t, proof in sorted(todo[(prop, mod)]):
        if time.time() - t0 > budget:
            skipped += 1; continue
        o = dict(timeout=20000, ext_timeout=20, deadline=time.time() + 600)
        o.update(u.opts)
        for r, d in u.popts.items():
            if re.fullmatch(r, proof):
                o.update(d)
        if "proof_" + proof not in mods[k].ftext:
            continue
        res = run1(mods[k], proof, o)
        ran += 1
        if res.startswith("FAIL"):
            print("KILLED %s %s: %s" % (prop, proof, res[5:])); sys.exit()
        if res == "budget":
            skipped += 1
print("SURVIVED ran %d skipped %d props %s" % (ran, skipped, ",".join(sorted({p for p, _ in todo}))))
