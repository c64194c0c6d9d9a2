#!/opt/venv/bin/python
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
import symx
sys.setrecursionlimit(20000)
sys.set_int_max_str_digits(0)
from symx import runner
rc = runner.main(sys.argv[1:])
sys.stdout.flush()
sys.exit(rc)
