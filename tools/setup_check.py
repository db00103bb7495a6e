"""setup_cmd: nothing to build; checks that the interpreter, the solvers and the repository are importable."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import pyvc, z3, numpy  # noqa
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
print('z3', z3.get_version_string(), 'numpy', numpy.__version__)
sys.argv = ['crosscheck.py', '2']
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import crosscheck  # noqa
sys.exit(crosscheck.main())
