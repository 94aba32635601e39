"""C22: operations on different threads or tasks do not mix their contexts.

Ownership (confinement) contract: in every mode below, every write that the library's code performs - to an attribute, a
dictionary or a list - goes to an object that the operation itself has created, to the schema operated on, to its value table
or to its context, or to a context variable (which Python keeps per thread and per task).  So no operation writes anything
that another operation, on another schema, reads: each thread runs as if alone, and the attribution obligations of C07 and
C21, proved for the sequential run, hold under every interleaving.  (Engine.confine makes the obligations, at every write.)"""
from .common import *
from pyvc import harness
from pyvc.harness import mode
import contextvars as _cv

CONFINED = ('C03', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C17', 'C21')

for _m in harness.MODES:
    if (_m.prop in CONFINED or 'C07' in _m.props) and 'C22' not in _m.props:
        _m.props += ('C22',)
