"""Measures which functions and lines of the code under test the deductive leg executed."""
from __future__ import annotations

import os
import sys

HIT: dict = {}
_TOOL = 3


def start(root):
    mon = sys.monitoring
    try:
        mon.use_tool_id(_TOOL, "pydv-cover")
    except ValueError:
        return False
    root = os.path.realpath(root)

    def line(code, no):
        if code.co_filename.startswith(root):
            HIT.setdefault((code.co_filename, code.co_qualname), [code, set()])[1].add(no)
        return mon.DISABLE

    mon.register_callback(_TOOL, mon.events.LINE, line)
    mon.set_events(_TOOL, mon.events.LINE)
    return True


def reset():
    HIT.clear()
    sys.monitoring.restart_events()


def report(root):
    """{file::function: [lines executed, lines of the function]} of functions whose body was entered."""
    root = os.path.realpath(root)
    out = {}
    for (path, name), (code, hit) in HIT.items():
        if not code.co_flags & 1 or "<" in name.replace("<locals>", ""):  # module and class bodies
            continue
        lines = {no for _, _, no in code.co_lines() if no is not None and no != code.co_firstlineno}
        if not lines & hit:
            continue
        key = os.path.relpath(path, root) + "::" + name.replace(".<locals>", "")
        out[key] = [len(hit & lines), len(lines), sorted(lines - hit)]
    return out
