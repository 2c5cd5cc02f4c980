#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
sys.exit(common.main(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1") or 1)))
