"""mutate.py OUT N [FILE-REGEX] [SEED]: mechanical mutations of /repo's lines that the proofs execute; for each one the
proofs that execute the line are run until one fails (uses /tmp/cov, see cov.py). Survivors are listed in OUT."""
import glob, json, multiprocessing as mp, os, random, re, shutil, subprocess, sys, time
sys.path.insert(0, "/verif")
OUT, N = sys.argv[1], int(sys.argv[2])
FRE = sys.argv[3] if len(sys.argv) > 3 else "."
SEED = int(sys.argv[4]) if len(sys.argv) > 4 else 1
PAR = int(os.environ.get("MU_PAR", "3"))
BUDGET = float(os.environ.get("MU_BUDGET", "150"))
cov = {}   # file -> line -> [(prop, mod, proof, time)]
for f in glob.glob("/tmp/cov/P*.json"):
    prop = os.path.basename(f)[:-5]
    for k, (t, e) in json.load(open(f)).items():
        mod, proof = k.split("/")
        for a, ls in e.items():
            for n in ls:
                cov.setdefault(a, {}).setdefault(n, []).append((t, prop, mod, proof))


def mutants(line):
    r = []
    s = line
    code = s.split("//")[0]
    if not code.strip() or code.strip().startswith(("*", "#", "template", "static_assert", "using", "typename", "//", "assert(")):
        return r

    def sub(pat, rep, what):
        for m in re.finditer(pat, code):
            if code[:m.start()].count('"') % 2:
                continue
            r.append((what, s[:m.start()] + m.expand(rep) + s[m.end():]))
    sub(r" < (?!=)", " <= ", "lt->le")
    sub(r" <= ", " < ", "le->lt")
    sub(r" > (?!=)", " >= ", "gt->ge")
    sub(r" >= ", " > ", "ge->gt")
    sub(r" == ", " != ", "eq->ne")
    sub(r" != ", " == ", "ne->eq")
    sub(r" && ", " || ", "and->or")
    sub(r" \|\| ", " && ", "or->and")
    sub(r" \+ ", " - ", "plus->minus")
    sub(r" - ", " + ", "minus->plus")
    sub(r" \+= ", " -= ", "pluseq")
    sub(r" -= ", " += ", "minuseq")
    sub(r" \*= ", " += ", "muleq")
    sub(r"\btrue\b", "false", "true")
    sub(r"\bfalse\b", "true", "false")
    sub(r"\b1u?\b(?!\.)", "0", "1->0")
    sub(r"\b0u?\b(?!\.)", "1", "0->1")
    sub(r"\bcontinue;", "break;", "continue->break")
    sub(r"\.first\b", ".second", "first->second")
    sub(r"\bif (constexpr )?\(obake_unlikely\((.*)\)\) \{", r"if (false) {", "drop check")
    sub(r"\bif \((?!constexpr)(.*)\) \{", r"if (!(\1)) {", "negate if")
    sub(r"\bstd::max\b", "std::min", "max->min")
    sub(r"\bstd::min\b", "std::max", "min->max")
    sub(r"\+\+(\w)", r"--\1", "inc->dec")
    t = code.strip()
    if t.endswith(";") and not re.match(r"(return|const|auto|using|throw|typedef|static|break|continue|}|\)|[\w:<>, ]+ \w+( =.*|\{.*)?;)", t) and t.count("(") == t.count(")"):
        r.append(("delete statement", s[:len(s) - len(s.lstrip())] + ";"))
    return r


def all_mutants():
    r = []
    for f in sorted(cov):
        if not re.search(FRE, f):
            continue
        L = open(f).read().split("\n")
        for n in sorted(cov[f]):
            if 1 <= n <= len(L):
                for w, new in mutants(L[n - 1]):
                    r.append((f, n, w, L[n - 1], new))
    return r


def jobproc(a, d, mod, props_u, q):
    pass


def one(a):
    i, (f, n, what, old, new) = a
    d = "/tmp/mu/%d" % i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run("git -C /repo archive HEAD include src config.hpp.in CMakeLists.txt | tar x -C " + d, shell=True, check=True)
    rel = f[len("/repo/"):]
    L = open(os.path.join(d, rel)).read().split("\n")
    if L[n - 1] != old:
        return i, "line differs", ""
    L[n - 1] = new
    open(os.path.join(d, rel), "w").write("\n".join(L))
    w = os.path.join(d, "w")
    os.makedirs(w)
    t0 = time.time()
    # child so that VF_REPO is read afresh and memory is returned
    e = dict(os.environ, VF_REPO=d)
    try:
        p = subprocess.run(["python3-vt", "/verif/tools/mutate1.py", f, str(n), w, str(BUDGET)], env=e, capture_output=True, text=True, timeout=BUDGET * 3 + 200)
        res = p.stdout.strip().split("\n")[-1] if p.stdout.strip() else "error " + p.stderr[-300:]
    except subprocess.TimeoutExpired:
        res = "KILLED timeout"
    shutil.rmtree(d, ignore_errors=True)
    return i, res, "%.0fs" % (time.time() - t0)


if __name__ == "__main__":
    ms = all_mutants()
    print(len(ms), "mutants possible", flush=True)
    random.Random(SEED).shuffle(ms)
    ms = ms[:N]
    k = {}
    from concurrent.futures import ThreadPoolExecutor, as_completed
    with ThreadPoolExecutor(PAR) as pl, open(OUT, "a") as o:
        for fu in as_completed([pl.submit(one, x) for x in enumerate(ms)]):
            i, res, t = fu.result()
            f, n, what, old, new = ms[i]
            k[res.split()[0]] = k.get(res.split()[0], 0) + 1
            if not res.startswith(("KILLED", "BUILD")):
                o.write("%s %s:%d %s (%s)\n  - %s\n  + %s\n" % (res, f, n, what, t, old.strip(), new.strip()))
                o.flush()
            print(i, res[:150], t, k, flush=True)
