"""tryrefs.py FILE [IDs]: applies refactorings to scratch copies, builds and tests them, and runs the checks"""
import os, re, subprocess, sys, json, time
ns = {}
exec(open(sys.argv[1]).read(), ns)
for i, props, edits in ns["R"]:
    if len(sys.argv) > 2 and i not in sys.argv[2:]:
        continue
    d = "/tmp/tr/" + i
    subprocess.run(["rm", "-rf", d]); os.makedirs(d)
    subprocess.run("git -C /repo archive HEAD | tar x -C " + d, shell=True, check=True)
    ok = True
    for f, a, b in edits:
        s = open(d + "/" + f).read()
        if s.count(a) < 1:
            print(i, "text not found in", f, repr(a[:60])); ok = False; break
        open(d + "/" + f, "w").write(s.replace(a, b, 1) if not ns.get("ALL") else s.replace(a, b))
    if not ok:
        continue
    for p in props:
        t = time.time()
        e = dict(os.environ, VF_REPO=d, VF_EVIDENCE=d + "/ev")
        r = subprocess.run(["timeout", "900", "python3-vt", "/verif/vf/run.py", p], env=e, capture_output=True, text=True)
        v = [l for l in r.stdout.split("\n") if "VIOLATION" in l]
        print(i, p, "exit", r.returncode, "%ds" % (time.time() - t), v[:3], r.stderr[-300:], flush=True)
        for l in v[:1]:
            m = re.search(r"replay=(\S+)", l)
            print("".join(open(m.group(1)).readlines()[:16])[:1500])
    subprocess.run(["rm", "-rf", d])
