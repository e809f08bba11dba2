"""Worker process: runs a share of a property's cases (see run.py)"""
import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
if os.environ['VERIF_HYP'] not in sys.path:
    sys.path.append(os.environ['VERIF_HYP'])
sys.setrecursionlimit(3000)
from harness import core

if __name__ == '__main__':
    sys.exit(core.worker_main(sys.argv[1:]))
