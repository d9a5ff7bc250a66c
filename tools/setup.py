"""setup_cmd: nothing is built ahead (every check imports /repo's tree afresh); this only tests that the parts are there."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import hypothesis  # noqa
import numpy  # noqa
from pbt.rpc import *  # noqa
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
print('hypothesis', hypothesis.__version__, 'ready')
