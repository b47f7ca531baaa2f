#!/usr/bin/env python3
"""run.py PROPERTY: decides one property of /repo's current working tree."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import props  # noqa: E402

if __name__ == "__main__":
    sys.exit(props.run(sys.argv[1]))
