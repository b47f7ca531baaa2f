"""cov.py PIDs: which lines of /repo each proof executes (symbolically), and how long it takes -> /tmp/cov/PXX.json"""
import glob, json, os, subprocess, sys
for p in sys.argv[1:]:
    d = "/tmp/cov/" + p
    subprocess.run(["rm", "-rf", d]); os.makedirs(d)
    subprocess.run(["python3-vt", "/verif/vf/run.py", p], env=dict(os.environ, VF_COV=d, VF_EVIDENCE="/tmp/cov/ev"), stdout=subprocess.DEVNULL)
    c = {}
    for f in glob.glob(d + "/*.json"):
        for L in open(f):
            mod, proof, t, ls = json.loads(L)
            e = c.setdefault(mod + "/" + proof, [0, {}])
            e[0] += t
            for a, n in ls:
                if "/repo/" in a:
                    e[1].setdefault(a, set()).add(n)
    json.dump({k: [t, {a: sorted(x) for a, x in e.items()}] for k, (t, e) in c.items()}, open(d + ".json", "w"))
    subprocess.run(["rm", "-rf", d])
    print(p, len(c), flush=True)
