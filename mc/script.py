"""Runs the command line tools of the package in this process."""
import contextlib
import importlib
import io
import sys
import warnings


class Result:
    def __init__(self, out, error, warned):
        self.out = out
        self.error = error          # None: ended normally
        self.warned = warned
        self.lines = out.split('\n')[:-1] if out.endswith('\n') else out.split('\n') if out else []


def run(tool, *argv):
    """tool: module of eventio.scripts with a function main(), as its console entry point"""
    main = importlib.import_module('eventio.scripts.' + tool).main
    out = io.StringIO()
    error = None
    old = sys.argv
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        sys.argv = ['tool'] + [str(a) for a in argv]
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                main()
        except SystemExit as e:
            if e.code not in (0, None):
                error = e
        except Exception as e:
            error = e
        finally:
            sys.argv = old
    return Result(out.getvalue(), error, bool(w))
