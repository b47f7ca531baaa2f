"""Fallback back ends: cvc5 (integers) on the same obligation."""
import subprocess
import tempfile
import os

import z3

from . import terms as tm


def solve(conds, timeout_s):
    if tm.wants_bv(conds):
        return None
    low = tm.IntLower(tm.collect_bounds(conds))
    fs = []
    try:
        for c in conds:
            f = low.Bl(c)
            if f is False:
                return tm.Result("unsat", backend="interval")
            if f is True:
                f = tm._restate(low, c)
                if f is None:
                    continue
            fs.append(f)
    except tm.Unsupported:
        return None
    sv = z3.Solver()
    for f in low.side + fs:
        sv.add(f)
    txt = "(set-logic ALL)\n" + sv.to_smt2().replace("(set-info :status unknown)", "")
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(txt)
        try:
            r = subprocess.run(["cvc5", "--tlimit=%d" % (timeout_s * 1000), p], capture_output=True, text=True,
                               timeout=timeout_s + 5).stdout.strip().split("\n")[0]
        except (subprocess.TimeoutExpired, FileNotFoundError):
            return None
        if r == "unsat":
            return tm.Result("unsat", backend="cvc5")
        return None
    finally:
        os.unlink(p)
