"""selftest.py [N]: compares the simplifying term constructors of vf/terms.py, and the lowering to SMT, with direct
evaluation on random terms (development aid)."""
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import terms as t  # noqa: E402


def sg(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


R = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
BIN = {"add": lambda a, b, w: a + b, "sub": lambda a, b, w: a - b, "mul": lambda a, b, w: a * b,
       "band": lambda a, b, w: a & b, "bor": lambda a, b, w: a | b, "xor": lambda a, b, w: a ^ b}
CMP = {"eq": lambda a, b, w: a == b, "ne": lambda a, b, w: a != b, "ult": lambda a, b, w: a < b,
       "ule": lambda a, b, w: a <= b, "slt": lambda a, b, w: sg(a, w) < sg(b, w), "sle": lambda a, b, w: sg(a, w) <= sg(b, w)}


def tq(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def rc(w):
    return R.choice([0, 1, 2, 3, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, R.getrandbits(w), R.getrandbits(w) >> R.randrange(w)]) & ((1 << w) - 1)


stat = {}


def main(n):
    for it in range(n):
        envs = []
        vs = []
        for i in range(3):
            w = R.choice([8, 8, 16, 32, 64])
            s = R.random() < .5
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
            if R.random() < .5:
                a, b = sorted((R.randint(lo, hi), R.randint(lo, hi)))
                lo, hi = a, b
            vs.append((t.var("x%d_%d" % (it, i), w, s, lo, hi), lo, hi, w))
        ne = 6
        for e in range(ne):
            envs.append([R.choice([lo, hi, R.randint(lo, hi), max(lo, min(hi, R.randint(-3, 3)))]) & ((1 << w) - 1) for _, lo, hi, w in vs])
        pool = [(v[0], [envs[e][i] for e in range(ne)]) for i, v in enumerate(vs)]
        bools = []
        for step in range(14):
            k = R.randrange(9)
            a, va = R.choice(pool)
            w = a.w
            same = [p for p in pool if p[0].w == w]
            if R.random() < .4:
                c = rc(w)
                b, vb = t.const(c, w), [c] * ne
            else:
                b, vb = R.choice(same)
            M = (1 << w) - 1
            if k <= 3:
                op = R.choice(list(BIN))
                r, vr = getattr(t, op)(a, b), [BIN[op](x, y, w) & M for x, y in zip(va, vb)]
            elif k == 4:
                c = R.randrange(w)
                op = R.choice(["shl", "lshr", "ashr"])
                f = {"shl": lambda x: x << c & M, "lshr": lambda x: x >> c, "ashr": lambda x: (sg(x, w) >> c) & M}[op]
                r, vr = getattr(t, op)(a, t.const(c, w)), [f(x) for x in va]
            elif k == 5:
                if not all(vb):
                    continue
                op = R.choice(["udiv", "urem", "sdiv", "srem"])
                f = {"udiv": lambda x, y: x // y, "urem": lambda x, y: x % y,
                     "sdiv": lambda x, y: tq(sg(x, w), sg(y, w)), "srem": lambda x, y: sg(x, w) - tq(sg(x, w), sg(y, w)) * sg(y, w)}[op]
                if b.op != "c":
                    continue
                r, vr = getattr(t, op)(a, b), [f(x, y) & M for x, y in zip(va, vb)]
            elif k == 6:
                nw = R.choice([8, 16, 32, 64, 128])
                if nw > w:
                    if R.random() < .5:
                        r, vr = t.zext(a, nw), va
                    else:
                        r, vr = t.sext(a, nw), [sg(x, w) & ((1 << nw) - 1) for x in va]
                elif nw < w:
                    r, vr = t.trunc(a, nw), [x & ((1 << nw) - 1) for x in va]
                else:
                    continue
            elif k == 7:
                op = R.choice(list(CMP))
                c, vc = getattr(t, op)(a, b), [int(CMP[op](x, y, w)) for x, y in zip(va, vb)]
                if R.random() < .3:
                    kd = R.choice(["sadd", "ssub", "smul", "uadd", "usub", "umul"])
                    f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}[kd[1:]]
                    if kd[0] == "s":
                        vc = [int(not -(1 << (w - 1)) <= f(sg(x, w), sg(y, w)) < 1 << (w - 1)) for x, y in zip(va, vb)]
                    else:
                        vc = [int(not 0 <= f(x, y) <= M) for x, y in zip(va, vb)]
                    c = t.ovf(kd, a, b)
                bools.append((c, vc))
                if len(bools) > 1 and R.random() < .5:
                    d, vd = R.choice(bools)
                    o = R.choice(["band", "bor", "xor"])
                    bools.append((getattr(t, o)(c, d), [BIN[o](x, y, 1) & 1 for x, y in zip(vc, vd)]))
                continue
            else:
                if not bools:
                    continue
                c, vc = R.choice(bools)
                r, vr = t.ite(c, a, b), [x if z else y for z, x, y in zip(vc, va, vb)]
            pool.append((r, vr))
        for r, vr in pool + bools:
            for e in range(ne):
                env = {v[0]: envs[e][i] for i, v in enumerate(vs)}
                got = t.evaluate(r, env)
                if got is None:
                    continue
                if int(got) & ((1 << r.w) - 1) != vr[e]:
                    print("MISMATCH", it, t.show(r), env, got, vr[e])
                    return 1
                lo, hi = t.uivl(r)
                if not lo <= vr[e] <= hi:
                    print("INTERVAL", it, t.show(r), lo, hi, vr[e])
                    return 1
        # what the solver refutes must be false on every sample, and models must satisfy the condition
        for c, vc in bools[-3:]:
            if c.op == "c":
                continue
            r = t.solve([c], 2000)
            if r.kind == "unsat" and any(vc):
                print("UNSOUND", it, t.show(c), r.backend, vs, envs, vc)
                return 1
            if r.kind == "sat" and r.model is not None:
                try:
                    ok = t.evaluate(c, {v[0]: r.model.get(v[0], 0) for v in vs})
                except KeyError:
                    ok = 1
                if not ok:
                    print("MODEL", it, t.show(c), r.model, r.backend)
                    return 1
            stat[r.kind] = stat.get(r.kind, 0) + 1
    print("ok", n, stat)
    return 0


sys.exit(main(int(sys.argv[1]) if len(sys.argv) > 1 else 300))
