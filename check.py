#!/opt/venv/bin/python
"""Decide one property:  check.py C02 [--tier quick|thorough]   |  check.py --replay FILE  |  check.py --list

Exit 0: every obligation discharged (or, where stated in the evidence, a labelled bounded stand-in passed).
Exit 1: a line  VIOLATION property=<id> replay=<path> [no-failing-input-found].
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, '/repo']
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
os.environ.setdefault('OMP_NUM_THREADS', '1')

from pyvc.runner import main      # noqa: E402

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:], HERE))
