import sys, os
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path: sys.path.insert(0, REPO)
from . import core
from .core import *
from .rope import *
from .rope import Rope, val, rcat, rrep, rslice, rreverse
from .interp import *
from .interp import LoopSpec, SObj, Opaque
from .kinds import *
from .unit import unit, Unit, UNITS
def oblige_eq(it, name, a, b):
    e = it.eqb(a, b)
    return it.c.oblige(name, e, note='got %r, expected %r' % (a, b) if len(repr(a)) + len(repr(b)) < 400 else '')

def val_(*a):
    v = val(*a)
    if v is None: raise Unsupported('value of a sequence that is not known to consist of digits')
    return v
