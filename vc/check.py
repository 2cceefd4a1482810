#!/usr/bin/env python3-vt
import importlib
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'specs'))
sys.setrecursionlimit(100000)
if __name__ == '__main__':
    import framework
    spec = importlib.import_module(sys.argv[1].lower())
    sys.exit(framework.main_check(spec, sys.argv[2:]))
