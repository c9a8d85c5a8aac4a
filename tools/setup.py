"""setup_cmd: nothing is compiled; checks that the interpreter, the code under test and the seeds can be loaded."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env, product  # noqa: E402

env.load()
for name in product.ALL:
    assert product.seed(name).flat(), name
print('ready')
