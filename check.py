#!/usr/bin/env python3
"""Entry point:  check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE] [--case N]"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
if not os.environ.get('VERIF_NO_REEXEC'):
    # a UTF-8 locale without the UTF-8 mode: there the default encoding of files follows the locale (see core._child)
    os.environ.update(VERIF_NO_REEXEC='1', PYTHONUTF8='0', LC_ALL='C.UTF-8')
    exe = VENV if os.path.exists(VENV) else sys.executable
    os.execv(exe, [exe, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)

from vlib import core  # noqa: E402

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
