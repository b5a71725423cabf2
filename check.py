#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] ..."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import env
env.reexec([os.path.abspath(__file__)] + sys.argv[1:])
env.setup_path()
from sim import runner
if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
