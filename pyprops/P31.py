"""P31: the bindings give back what they take.  Random histories over all objects and functions of the Python interface (the generators of P25
and P26) are run again and again; after the first runs neither memory nor open files may grow every time."""
import ctypes, gc, os, shutil, sys
import array
import P25, P26
from pbtpy import Src, check, Discard

_used = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
_used.restype = ctypes.c_size_t

class Again(Src):
    """the same decisions once more, recorded nowhere"""
    def __init__(self, choices): self.rep = choices; self.k = 0; self.labels = {}; self.desc = []; self.nontriv = False; self.verbose = self.want = False
    def draw(self, mx):
        v = min(self.rep[self.k], mx) if self.k < len(self.rep) else 0
        self.k += 1
        return v

def clear():
    for f in os.listdir('.'):
        shutil.rmtree(f) if os.path.isdir(f) and not os.path.islink(f) else os.unlink(f)

def files(): return len(os.listdir('/proc/self/fd'))

def repeated(name, fn):
    def body(s):
        clear(); fn(s); choices = s.sh.choices()
        def once():
            clear(); fn(Again(choices)); gc.collect(); sys._clear_type_cache()       # (it keeps the names that were looked up)
        m = array.array('q', [0] * 31); once(); once(); f0 = files()           # no new objects of ours while it measures
        for k in range(31):                                                    # the interpreter's own caches fill up: a leak happens in every run
            m[k] = _used()
            if k >= 4 and m[k] <= m[k - 1] or k == 30: break
            once()
        d = [b - a for a, b in zip(m, m[1:k + 1])]
        check(files() <= f0, '%s: %d files open, %d before', name, files(), f0)
        check(min(d) <= 0, '%s: keeps memory every time, %s bytes', name, d[-4:])
    return body

S = {t[0]: t[3] for t in P26.SUBS}; C = {t[0]: t[3] for t in P25.SUBS}
SUBS = [
    ('history', 400, 12000, repeated('history', S['history'])),
    ('lifetimes', 400, 8000, repeated('lifetimes', S['lifetimes'])),
    ('tracks', 120, 3000, repeated('tracks', S['tracker'])),
    ('impossible', 600, 12000, repeated('impossible', S['impossible'])),
    ('transforms', 400, 16000, repeated('transforms', C['transforms'])),
    ('projection', 400, 16000, repeated('projection', C['projection'])),
    ('epipolar', 400, 12000, repeated('epipolar', C['epipolar'])),
    ('positions', 400, 12000, repeated('positions', C['positions'])),
    ('dumbbell', 200, 6000, repeated('dumbbell', C['dumbbell'])),
    ('recognition', 300, 8000, repeated('recognition', C['recognition'])),
    ('preprocess', 300, 8000, repeated('preprocess', C['preprocess'])),
    ('matching', 300, 8000, repeated('matching', C['matching'])),
    ('calibration', 300, 6000, repeated('calibration', C['calibration'])),
    ('records', 600, 16000, repeated('records', C['records'])),
    ('files', 300, 8000, repeated('files', C['files'])),
    ('targets', 300, 6000, repeated('targets', C['targets'])),
    ('tracker', 80, 2400, repeated('tracker', C['tracker'])),
]
