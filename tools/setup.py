"""checks that everything the checks need is there; nothing has to be built"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from oracle import common
common.setup_path()
import z3, creole, docutils  # noqa
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
print('z3', z3.get_version_string(), 'creole', creole.__file__, 'docutils', docutils.__version__)

import subprocess
try:
    r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'crosscheck.py'), '1', '0.3'], capture_output=True, text=True, timeout=300)
    print(r.stdout[-6000:])
    print('engine and CPython agree' if r.returncode == 0 else 'ENGINE DIFFERS FROM CPYTHON (see above)')
except subprocess.TimeoutExpired:
    print('crosscheck: time limit')
