#!/usr/bin/env python3
"""Decide one property:  python3-vt run.py C01 [--tier quick|thorough]
Replay a violation:      python3-vt run.py --replay FILE
"""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from symx import runner

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
