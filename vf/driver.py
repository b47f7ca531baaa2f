"""Runs the proofs of one property: every obligation generated from /repo's
current source must be discharged."""
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import build
from . import terms as tm
from .exec import Exec, NeedCase
from .ir import Module

VERIF = build.VERIF
EVID = os.environ.get("VF_EVIDENCE") or os.path.join(VERIF, "evidence")
_mods = {}


def _job(a):
    """one proof instance -> result dict (runs in a worker)"""
    mod, proof, cases, opts = a
    sys.setrecursionlimit(20000)
    t0 = time.time()
    m = _mods[mod]
    o = dict(opts)
    o["cases"] = cases
    try:
        ex = Exec(m, o)
        ex.run("proof_" + proof)
        if os.environ.get("VF_COV"):
            with open("%s/%s-%s-%d.json" % (os.environ["VF_COV"], mod, proof, os.getpid()), "a") as h:
                h.write(json.dumps([mod, proof, time.time() - t0, sorted(x for x in ex.cov if x[0])]) + "\n")
    except NeedCase as e:
        return dict(mod=mod, proof=proof, cases=cases, need=(e.lo, e.hi))
    except Exception:
        return dict(mod=mod, proof=proof, cases=cases, crash=traceback.format_exc()[-3000:], obl=1, disch=0, fails=[
            dict(kind="unsupported", name="verifier error", where=[], status="unknown", inputs=None,
                 why=traceback.format_exc()[-1500:], cond="")], by={}, named={}, covered=[], paths=0, funcs=[],
            opaque=[], t=time.time() - t0, ts=0, calls=0, contracts=[])
    return dict(mod=mod, proof=proof, cases=cases, obl=ex.obl, disch=ex.disch, by=ex.by,
                named={k: v for k, v in ex.named.items()}, fails=[f.d() for f in ex.failures],
                covered=sorted(ex.covered), paths=ex.paths, funcs=sorted(ex.funcs_seen), opaque=sorted(ex.opaque_seen),
                t=time.time() - t0, ts=ex.t_solver, calls=ex.solver_calls, contracts=sorted(ex.contract_seen))


class Unit:
    """a contract file: source, the proofs in it to run, options"""

    def __init__(self, src, proofs, covers=None, links=(), flags=(), opts=None, bounded="", popts=None,
                 sel=None):
        self.src = os.path.join(VERIF, "contracts", src)
        self.name = self.file = src
        self.proofs = proofs
        self.covers = covers or {}
        self.links = links
        self.flags = flags
        self.opts = opts or {}
        self.popts = popts or {}
        # what a bounded stand-in is bounded by ("" = for all inputs)
        self.bounded = bounded


def load_known():
    p = os.path.join(VERIF, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for L in open(p):
            L = L.strip()
            if L.startswith("known:"):
                # known: property=<id> proof=<p> obligation=<name> :: text
                head, _, text = L[6:].partition("::")
                d = dict(x.split("=", 1) for x in head.split() if "=" in x)
                d["text"] = text.strip()
                r.append(d)
    return r


def hexin(inputs):
    return " ".join("%0*x" % ((b + 7) // 8 * 2, v & ((1 << b) - 1)) for _, v, b, _ in inputs)


def check(prop, units, statement="", tier=None, level_note="", assumptions=(), bounded=()):
    """-> exit code"""
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    deadline = t0 + (600 if tier == "quick" else 3000)
    work = tempfile.mkdtemp(prefix="vf_%s_" % prop)
    try:
        return _check(prop, units, tier, seed, work, t0, assumptions, bounded, deadline)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _ncpu():
    try:
        return max(1, len(os.sched_getaffinity(0)))
    except Exception:
        return 4


def _check(prop, units, tier, seed, work, t0, assumptions, bounded, deadline):
    build.config_hpp(work)
    broken = []
    native_procs = {}
    irs = {}
    from concurrent.futures import ThreadPoolExecutor
    pool = ThreadPoolExecutor(_ncpu())
    builds = {}
    for i, u in enumerate(units):
        u.name = u.file + "#%d" % i
        k = (u.src, tuple(u.flags), tuple(u.links))
        if k not in builds:
            sub = os.path.join(work, "b%d" % i)
            os.makedirs(sub)
            builds[k] = (pool.submit(build.to_ir, u.src, work, u.flags, out=sub),
                         (u.src, work, u.flags, u.links, sub))
    bk = {u.name: builds[(u.src, tuple(u.flags), tuple(u.links))] for u in units}
    futs = {n: b[0] for n, b in bk.items()}
    nats = {n: b[1] for n, b in bk.items()}
    for u in units:
        try:
            irs[u.name] = futs[u.name].result()
        except build.BuildError as e:
            broken.append((u, str(e)))
    for u in units:
        if u.name in irs:
            same = [n for n in _mods if irs.get(n) == irs[u.name]]
            _mods[u.name] = _mods[same[0]] if same else Module(open(irs[u.name]).read())
    t_build = time.time() - t0
    jobs = []
    for u in units:
        if u.name not in irs:
            continue
        have = [n[len("proof_"):] for n in _mods[u.name].ftext if n.startswith("proof_")]
        import re
        sel = [p for p in have if any(re.fullmatch(r, p) for r in u.proofs)]
        if not sel:
            broken.append((u, "no proof selected in " + u.file))
        for p in sel:
            o = dict(timeout=20000 if tier == "quick" else 120000, ext_timeout=20 if tier == "quick" else 120,
                     deadline=max(time.time() + 60, deadline))
            o.update(u.opts)
            for r, d in u.popts.items():
                if re.fullmatch(r, p):
                    o.update(d)
            jobs.append((u.name, p, [], o))
    results = []
    ctx = mp.get_context("fork")
    with ctx.Pool(_ncpu(), maxtasksperchild=40) as pl:
        pend = [(j, pl.apply_async(_job, (j,))) for j in jobs]
        while pend:
            nxt = []
            for j, r in pend:
                if not r.ready():
                    nxt.append((j, r))
                    continue
                d = r.get()
                if "need" in d:
                    lo, hi = d["need"]
                    for v in reversed(range(lo, hi + 1)):
                        j2 = (j[0], j[1], j[2] + [v], j[3])
                        nxt.append((j2, pl.apply_async(_job, (j2,))))
                else:
                    results.append(d)
            pend = nxt
            if pend:
                time.sleep(0.01)
    umap = {u.name: u for u in units}
    obl = sum(d["obl"] for d in results if not umap[d["mod"]].bounded)
    disch = sum(d["disch"] for d in results if not umap[d["mod"]].bounded)
    bobl = sum(d["obl"] for d in results if umap[d["mod"]].bounded)
    bdisch = sum(d["disch"] for d in results if umap[d["mod"]].bounded)
    by, named = {}, {}
    for d in results:
        for k, v in d["by"].items():
            by[k] = by.get(k, 0) + v
        for k, v in d["named"].items():
            e = named.setdefault(k, [0, 0])
            e[0] += v[0]
            e[1] += v[1]
    # vacuity: every proof must reach its end, and its covers, on some feasible path
    vac = []
    cov = {}
    for d in results:
        cov.setdefault((d["mod"], d["proof"]), set()).update(d["covered"])
    for (mod, p), c in cov.items():
        need = {"end"}
        for r, l in umap[mod].covers.items():
            import re
            if re.fullmatch(r, p):
                need |= set(l)
        for x in need - c:
            vac.append((mod, p, x))
    failures = [(d, f) for d in results for f in d["fails"]]
    fn = sorted({f for d in results for f in d["funcs"]})
    dem = {}
    for m in _mods.values():
        dem.update(m.dem)
    repo_fns = sorted({dem.get(f, f)[:200] for f in fn if "obake" in f})
    opaque = sorted({o for d in results for o in d["opaque"]})
    viol = []
    known_hit = []
    known = [k for k in load_known() if k.get("property") == prop]
    native_log = []

    # ---- triage of what failed
    seen = {}
    rdir = os.path.join(EVID, "replay")
    if failures or broken or vac:
        os.makedirs(rdir, exist_ok=True)
    natbin = {}
    natf = {}
    for n, k in nats.items():
        # the native programs are only needed to replay failures
        if k not in natf and any(d["mod"] == n for d, _ in failures):
            natf[k] = pool.submit(build.native, k[0], k[1], k[2], k[3], out=k[4])
    for u in units:
        try:
            natbin[u.name] = natf[nats[u.name]].result() if nats[u.name] in natf else None
        except build.BuildError as e:
            natbin[u.name] = None
            native_log.append(str(e)[:1500])
    groups = {}
    for d, f in failures:
        groups.setdefault((d["mod"], d["proof"], f["kind"], f["name"]), []).append((d, f))

    def replay(mod, path):
        b = natbin.get(mod)
        if not b:
            return None, "no native program"
        try:
            p = subprocess.run([b, "replay", path], capture_output=True, text=True, timeout=60, errors="replace")
        except subprocess.TimeoutExpired:
            return True, "the replay does not terminate (60 s)"
        return p.returncode == 1, p.stdout[-1500:]

    def write(path, mod, proof, inputs, f, extra):
        with open(path, "w") as fh:
            fh.write("property: %s\nproof: %s\ncontract-file: contracts/%s\n" % (prop, proof, mod.split("#")[0]))
            if inputs is not None:
                fh.write("inputs: %s\n" % inputs)
            fh.write("obligation: [%s] %s\nstatus: %s\n" % (f["kind"], f["name"], f["status"]))
            fh.write("where:\n  " + "\n  ".join(f["where"]) + "\n")
            if f.get("cond"):
                fh.write("condition: %s\n" % f["cond"])
            if f.get("why"):
                fh.write("verifier: %s\n" % f["why"])
            fh.write(extra + "\n")
            fh.write("replay with: python3-vt /verif/vf/replay.py %s\n" % path)

    confirmed_proofs = set()
    fuzz_budget = 60.0
    for key in sorted(groups, key=lambda k: 0 if any(f["status"] == "sat" for _, f in groups[k]) else 1):
        mod, proof, kind, name = key
        h = hashlib.sha1(("%s %s %s %s" % key).encode()).hexdigest()[:10]
        path = os.path.join(rdir, "%s-%s-%s.txt" % (prop, proof, h))
        done = False
        k = [q for q in known if q.get("proof") == proof and q.get("obligation", "").replace("_", " ") == name]
        if k:
            known_hit.append(k[0])
            continue
        for d, f in groups[key]:
            if f["inputs"] is None:
                continue
            write(path, mod, proof, hexin(f["inputs"]), f, "")
            ok, out = replay(mod, path)
            if ok:
                write(path, mod, proof, hexin(f["inputs"]), f, "native replay on the real code: FAILS\n" + out)
                viol.append((path, True, name))
                confirmed_proofs.add((mod, proof))
                done = True
                break
        if not done:
            seen[key] = (path, groups[key][0])
    # failed obligations without a confirmed input: search for one on the real code
    unconf = [k for k in seen]
    for key in unconf:
        mod, proof, kind, name = key
        path, (d, f) = seen[key]
        if (mod, proof) in confirmed_proofs:
            continue  # the proof already has a confirmed failing input
        b = natbin.get(mod)
        found = False
        out = ""
        if b and fuzz_budget > 0:
            secs = min(12.0, fuzz_budget)
            t1 = time.time()
            procs = [subprocess.Popen([b, "fuzz", proof, str(secs), str(seed * 1000 + i)], stdout=subprocess.PIPE,
                                      text=True, errors="replace") for i in range(_ncpu())]
            outs = []
            for p in procs:
                try:
                    outs.append((p.communicate(timeout=secs + 20)[0], p.returncode))
                except subprocess.TimeoutExpired:
                    p.kill()
                    outs.append((p.communicate()[0], -1))
            fuzz_budget -= time.time() - t1
            for o, rc in outs:
                if rc == 1 and "VF_INPUTS" in o:
                    inp = [L for L in o.split("\n") if L.startswith("VF_INPUTS")][0][len("VF_INPUTS"):].strip()
                    write(path, mod, proof, inp, f, "found by a random search over the proof's inputs on the real code\n" + o)
                    ok, _ = replay(mod, path)
                    if ok:
                        found = True
                        break
            out = outs[0][0] if outs else ""
        if found:
            viol.append((path, True, name))
            confirmed_proofs.add((mod, proof))
        else:
            write(path, mod, proof, hexin(f["inputs"]) if f["inputs"] is not None else None, f,
                  "no failing input was found on the real code\n" + out[-500:])
            viol.append((path, False, name))
    for u, e in broken:
        path = os.path.join(rdir, "%s-%s-build.txt" % (prop, u.file.replace(".cpp", "")))
        with open(path, "w") as fh:
            fh.write("property: %s\nobligation: the functions under contract exist with the specified interface\n%s\n" % (
                prop, e))
        viol.append((path, False, "interface of the functions under contract"))
    for mod, p, x in vac:
        if (mod, p) in confirmed_proofs or any(d["mod"] == mod and d["proof"] == p and d["fails"] for d in results):
            continue
        path = os.path.join(rdir, "%s-%s-cover.txt" % (prop, p))
        with open(path, "w") as fh:
            fh.write("property: %s\nproof: %s\nobligation: cover point '%s' is reachable\n" % (prop, p, x))
        viol.append((path, False, "cover " + x))
    shutil.rmtree  # keep
    wall = time.time() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level="proof" if obl else "other", wall_s=round(wall, 2),
        coverage=dict(
            obligations=obl, discharged=disch,
            checker_cmd="python3-vt /verif/vf/run.py %s" % prop,
            trusted_base=["clang 18 front end and opt (sroa, early-cse, simplifycfg) as extraction to LLVM IR",
                          "the verification-condition generator /verif/vf (IR semantics, term simplifier, interval analysis)",
                          "z3 %s, cvc5" % __import__("z3").get_version_string()],
            discharged_by=by, named_obligations={k: v for k, v in sorted(named.items())},
            proofs=len(cov), proof_instances=len(results), paths=sum(d["paths"] for d in results),
            solver_s=round(sum(d["ts"] for d in results), 2), solver_calls=sum(d["calls"] for d in results),
            functions_under_contract=sorted({p for _, p in cov}), repo_functions_executed=repo_fns[:400],
            n_repo_functions=len(repo_fns), unproved=len(failures),
            bounded=[dict(contracts=u.file, proofs=u.proofs, bound=u.bounded) for u in units if u.bounded] + list(bounded),
            bounded_obligations=bobl, bounded_discharged=bdisch, build_s=round(t_build, 2),
        ),
        assumptions=list(assumptions) + ["contract assumed (external): " + o for o in opaque][:60],
    )
    if not obl:
        ev["coverage"]["explanation"] = (
            "bounded stand-in: every obligation generated from the real code was discharged for all inputs within the "
            "stated bounds: %d of %d obligations" % (bdisch, bobl))
    ev["violations"] = len(viol)
    if viol:
        ev["coverage"]["violated"] = [dict(replay=p, obligation=n, failing_input=ok) for p, ok, n in viol]
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    print("%s: %d obligations, %d discharged%s, %d proofs (%d instances), %d paths, solver %.1f s, wall %.1f s" % (
        prop, obl, disch, ", bounded: %d of %d" % (bdisch, bobl) if bobl else "", len(cov), len(results), ev["coverage"]["paths"], ev["coverage"]["solver_s"], wall))
    if os.environ.get("VF_VERBOSE"):
        for d in sorted(results, key=lambda d: -d["t"])[:int(os.environ["VF_VERBOSE"])]:
            print("   %-40s %-10s obl=%d paths=%d t=%.1f solver=%.1f calls=%d" % (
                d["proof"], d["cases"], d["obl"], d["paths"], d["t"], d["ts"], d["calls"]))
        print("  by", by, "build", round(t_build, 1))
        for d, f in failures[:10]:
            print("  FAIL", d["proof"], d["cases"], f["kind"], f["name"], f["status"], f["inputs"], f["why"][-1200:], f["where"][:4], f["cond"][:300])
        for l in native_log:
            print(l)
    if obl + bobl == 0 and not viol:
        print("no obligations were generated")
        return 2
    rc = 0
    viol.sort(key=lambda v: not v[1])
    shown = [v for v in viol if v[1]] or viol
    for path, ok, name in shown[:20]:
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if ok else " no-failing-input-found"))
        rc = 1
    return rc
