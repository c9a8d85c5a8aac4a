"""Which lines of the code under test a run reaches (sys.monitoring, each line reported once per process)."""
import gc
import os
import sys
import types

_hit = set()
_TOOL = sys.monitoring.COVERAGE_ID


def _codes(src):
    seen, out = set(), []
    todo = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType)]
    while todo:
        c = todo.pop()
        if c in seen or not c.co_filename.startswith(src):
            continue
        seen.add(c)
        out.append(c)
        todo += [x for x in c.co_consts if isinstance(x, types.CodeType)]
    return out


def executable(src):
    """-> {file: set of lines inside functions}"""
    r = {}
    for c in _codes(src + os.sep):
        lines = {l for _, _, l in c.co_lines() if l and l != c.co_firstlineno}
        r.setdefault(os.path.relpath(c.co_filename, src), set()).update(lines)
    return r


def start(src):
    src += os.sep
    n = len(src)
    mon = sys.monitoring

    def line(code, no):
        _hit.add((code.co_filename[n:], no))
        return mon.DISABLE

    try:
        mon.use_tool_id(_TOOL, 'v8v')
    except ValueError:
        return
    mon.register_callback(_TOOL, mon.events.LINE, line)
    for c in _codes(src):
        mon.set_local_events(_TOOL, c, mon.events.LINE)


def hits():
    return _hit
