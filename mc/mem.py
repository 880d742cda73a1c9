"""Compiles and loads mem.c."""
import importlib.util
import os
import subprocess
import sys
import sysconfig

import numpy as np

from .engine import HarnessError

_module = None


def load():
    """call before the workers are forked"""
    global _module
    if _module is None:
        out = os.path.join(os.environ['MC_WORK'], 'mcmem' + sysconfig.get_config_var('EXT_SUFFIX'))
        r = subprocess.run(['gcc', '-O2', '-w', '-shared', '-fPIC', '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION',
                            '-DNPY_TARGET_VERSION=NPY_1_22_API_VERSION', '-I' + sysconfig.get_path('include'), '-I' + np.get_include(),
                            os.path.join(os.path.dirname(__file__), 'mem.c'), '-o', out], stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise HarnessError('cannot compile mem.c: ' + r.stderr[-2000:])
        spec = importlib.util.spec_from_file_location('mcmem', out)
        _module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(_module)
        # does it work?
        _module.install()
        for v in (0x5a, 0xa5):
            _module.fill(v)
            if not (np.empty(500, 'u1') == v).all() or not (np.empty(50000, 'u1') == v).all():
                raise HarnessError('mem.c does not work')
        _module.fill(0)
    return _module
