''' The only place where the code under test is imported: always from the sources in /repo, never from cached byte code. '''

import functools
import inspect
import os
import sys

sys.dont_write_bytecode = True
inspect.getfullargspec = functools.lru_cache(maxsize=4096)(inspect.getfullargspec)  # A pure function of the standard library, only cached for speed.
REPO = os.environ.get('MC_REPO', '/repo')
sys.path.insert(0, REPO)

import numpy, networkx, decorator, realalg  # noqa: E401,F401  (third party, byte code allowed)
try:
    import sympy  # noqa: F401
except ImportError:
    pass

sys.pycache_prefix = '/nonexistent-mc-pycache'
import curver
import curver.kernel
assert os.path.realpath(curver.__file__).startswith(os.path.realpath(REPO)), curver.__file__
