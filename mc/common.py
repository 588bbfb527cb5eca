"""Helpers shared by the checks."""
import atexit
import os
import shutil
import tempfile
from mc.engine import Violation, Prune
from mc import refpdf as R


def expect(cond, msg, key=None):
    if not cond:
        raise Violation(msg if isinstance(msg, str) else msg(), key)


# sizes around the thresholds where implementations change their mind
SIZES = [1, 2, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]
LONG = SIZES + [511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]


def norm(v):
    """Value with Python null forms unified and null dictionary entries (same as absent) removed."""
    if v is None:
        return 'null'
    if isinstance(v, list):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items() if not (x is None or x == 'null')}
    return v


def num(c):
    """Integers and reals that are equal are the same number."""
    return c


def same(a, b, **kw):
    return R.canon(norm(a), **kw) == R.canon(norm(b), **kw)


SCRATCH = None


def scratch():
    """Private scratch directory of this process, below the one the run removes at its end."""
    global SCRATCH
    if SCRATCH is None or SCRATCH[0] != os.getpid():
        top = os.environ.get('MC_SCRATCH')
        if not top:
            top = os.environ['MC_SCRATCH'] = tempfile.mkdtemp(prefix='mc_pdfsyntax_')
            atexit.register(shutil.rmtree, top, True)
        SCRATCH = (os.getpid(), tempfile.mkdtemp(dir=top))
    return SCRATCH[1]


def write(doc):
    """Bytes that writefile() produces for doc, and the document it returns."""
    import pdfsyntax as pdf
    p = os.path.join(scratch(), 'out.pdf')
    if os.path.exists(p):
        os.unlink(p)
    d2 = pdf.writefile(doc, p)
    with open(p, 'rb') as f:
        return f.read(), d2


BASE = {1: {'/Type': '/Catalog', '/Pages': 2j}, 2: {'/Type': '/Pages', '/Kids': [3j], '/Count': 1},
        3: {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 100, 200], '/Resources': {}}}


def strict(data, ref_only=False):
    """Strict reader on a written file: every problem is a violation."""
    try:
        d = R.RefDoc(data)
        d.check_all()
        return d
    except (R.PdfError, ValueError, KeyError, IndexError, AssertionError, TypeError) as e:
        raise Violation(f'the written file is not well formed: {type(e).__name__}: {e}')
