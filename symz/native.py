"""
The compiled extension for replays.  It is built by build.sh, which nobody runs
again after a change: when the stamp it left does not match the source, the
extension is compiled into a scratch directory and imported from there.
"""
import atexit
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
from . import shadow


def _sum():
    h = hashlib.sha256()
    for f in ('setup.py', 'zounds/__init__.py', 'zounds/nputil/countbits.pyx'):
        with open(os.path.join(shadow.REPO, f), 'rb') as fd:
            h.update(fd.read())
    return h.hexdigest()


def _stamp():
    try:
        with open(os.path.join(shadow.REPO, 'build', '.countbits.sha256')) as f:
            return f.read().split()[0]
    except (OSError, IndexError):
        return ''


SETUP = """
import numpy, sys
from setuptools import setup, Extension
from Cython.Build import cythonize
setup(name='countbits', script_args=['build_ext', '--inplace', '--force'],
      ext_modules=cythonize([Extension('countbits', ['countbits.pyx'],
          include_dirs=[numpy.get_include()])], quiet=True))
"""


def ensure():
    if _stamp() == _sum():
        return
    d = tempfile.mkdtemp(prefix='countbits-')
    owner = os.getpid()
    atexit.register(lambda: os.getpid() == owner and shutil.rmtree(
        d, ignore_errors=True))
    shutil.copy(os.path.join(shadow.REPO, 'zounds', 'nputil', 'countbits.pyx'),
                d)
    with open(os.path.join(d, 'setup.py'), 'w') as f:
        f.write(SETUP)
    r = subprocess.run([sys.executable, '-W', 'ignore', 'setup.py'], cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode == 0:
        sys.path.insert(0, d)
        import countbits  # noqa: F401
    else:
        print('native: the extension does not build: ' +
              r.stdout.decode(errors='replace')[-500:])
