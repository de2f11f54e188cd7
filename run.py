#!/usr/bin/env python3
"""run.py <property id>: decide one property on /repo's current source."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "props"))
sys.dont_write_bytecode = True

import rules  # noqa: E402

if __name__ == "__main__":
    sys.exit(rules.main(sys.argv[1], sys.argv[1].lower()))
