"""gaps.py [FILE-REGEX]: lines of /repo that look like statements and that no proof executes (uses /tmp/cov)"""
import glob, json, os, re, sys
cov = {}
for f in glob.glob("/tmp/cov/P*.json"):
    for k, (t, e) in json.load(open(f)).items():
        for a, ls in e.items():
            cov.setdefault(a, set()).update(ls)
fre = sys.argv[1] if len(sys.argv) > 1 else "."
for root in ("/repo/include", "/repo/src"):
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if not re.search(fre, p):
                continue
            L = open(p).read().split("\n")
            c = cov.get(p, set())
            out = []
            for i, l in enumerate(L, 1):
                t = l.split("//")[0].strip()
                if i in c or not t:
                    continue
                if l.startswith(" ") and re.search(r"(;|\) \{|return.*|throw.*)$", t) and not re.match(r"(static_assert|using|typedef|template|requires|friend|explicit|constexpr|inline|static|assert|namespace|class|struct|decltype|\w+\(.*\) = (default|delete);|.*= (default|delete);|typename)", t):
                    out.append((i, t))
            if out:
                print("%s: %d covered, %d not" % (p, len(c), len(out)))
                if len(sys.argv) > 1:
                    for i, t in out:
                        print("   %d: %s" % (i, t[:150]))
