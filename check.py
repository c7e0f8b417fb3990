#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]   - decides one property (see DESIGN.md)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
import kit, checks
pid = sys.argv[1]
kit.main(pid, checks.CHECKS[pid])
