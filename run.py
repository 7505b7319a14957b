#!/usr/bin/env python3
"""run.py <property id>: decide one property on the current tree of the repository"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import check, mir
from checks import registry
if __name__ == "__main__":
    cid = sys.argv[1]
    rule, f = registry.CHECKS[cid]
    sys.exit(check.run(cid, rule, f, mir.program))
