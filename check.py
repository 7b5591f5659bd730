#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [--seed=N]
check.py --replay FILE

Decides one property of properties.jsonl for the code in /repo.  Exit 0: it
held on everything explored; 1: a VIOLATION line names the replay file; 2: the
check itself failed.  The second form repeats what a replay file describes."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import runner  # noqa: E402

if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
