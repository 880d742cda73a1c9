"""Development aid (MC_COVER=directory): which lines and branches of the package a check executes.

Only reports; no verdict depends on it.  tools/coverage.py combines the reports.
"""
import os
import sys


def start(directory, src):
    mon = sys.monitoring
    tool = 3
    mon.use_tool_id(tool, 'cover')
    files = {}

    def out():
        pid = os.getpid()
        if pid not in files:
            files[pid] = os.open(os.path.join(directory, str(pid)), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        return files[pid]

    pre = os.path.realpath(src) + os.sep

    def line(code, n):
        if code.co_filename.startswith(pre):
            os.write(out(), 'L {} {}\n'.format(code.co_filename[len(pre):], n).encode())
        return mon.DISABLE

    seen = {}

    def branch(code, offset, dest):
        if not code.co_filename.startswith(pre):
            return mon.DISABLE
        s = seen.setdefault((code, offset), set())
        if dest not in s:
            s.add(dest)
            lines = {}
            for a, b, n in code.co_lines():
                for o in range(a, b, 2):
                    lines[o] = n
            os.write(out(), 'B {} {} {} {} {}\n'.format(code.co_filename[len(pre):], lines.get(offset), offset, lines.get(dest), dest).encode())
        return mon.DISABLE if len(s) > 1 else None

    mon.register_callback(tool, mon.events.LINE, line)
    mon.register_callback(tool, mon.events.BRANCH, branch)
    mon.set_events(tool, mon.events.LINE | mon.events.BRANCH)
