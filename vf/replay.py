#!/usr/bin/env python3
"""replay.py FILE: builds the contract file named in a replay file natively,
against /repo's current sources, and runs the recorded inputs through it."""
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, props  # noqa: E402

if __name__ == "__main__":
    d = {}
    for L in open(sys.argv[1]):
        if ": " in L:
            k, v = L.rstrip("\n").split(": ", 1)
            d.setdefault(k, v)
    if "contract-file" not in d or "inputs" not in d:
        print("the file records no failing input; the failed obligation is:", d.get("obligation"))
        sys.exit(2)
    src = os.path.basename(d["contract-file"])
    fl, links = (), ()
    for us, _ in props.PROPS.values():
        for u in us:
            if u.file == src:
                fl, links = u.flags, u.links
    work = tempfile.mkdtemp(prefix="vf_replay_")
    try:
        build.config_hpp(work)
        b = build.native(os.path.join(build.VERIF, "contracts", src), work, fl, links)
        rc = subprocess.run([b, "replay", sys.argv[1]]).returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(1 if rc == 1 else 0)
