#!/usr/bin/env python3
"""tools/fails.py <prop> [args of run.py]: list every failing (op, clause, tag) of a run"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
os.environ["VT_LIST"] = "1"
import run
sys.argv = ["run.py"] + sys.argv[1:]
run.main()
