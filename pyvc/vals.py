"""Values of the verifier: the z3 sort Val and the Python-level wrappers around it."""
import z3

_V = z3.Datatype('Val')
_V.declare('vnone')
_V.declare('vunset')
_V.declare('vbool', ('b', z3.BoolSort()))
_V.declare('vint', ('i', z3.IntSort()))
_V.declare('vstr', ('s', z3.IntSort()))
_V.declare('vobj', ('o', z3.IntSort()))
Val = _V.create()

INTERN_BASE = 10_000_000


class Unsupported(Exception):
    """The code uses something the verifier has no model of."""


class Interner:
    """Concrete Python objects and string literals <-> numerals (one table per process)."""

    def __init__(self):
        self.objs, self.by_id, self.strs = [], {}, {'': 0}
        self.str_list = ['']

    def obj(self, o):
        k = self.by_id.get(id(o))
        if k is None:
            k = len(self.objs)
            self.objs.append(o)
            self.by_id[id(o)] = k
        return INTERN_BASE + k

    def str(self, s):
        k = self.strs.get(s)
        if k is None:
            k = len(self.str_list)
            self.strs[s] = k
            self.str_list.append(s)
        return k


INTERN = Interner()


def lit(o):
    """The Val term of a concrete Python object."""
    if o is None:
        return Val.vnone
    if o is True or o is False:
        return Val.vbool(z3.BoolVal(o))
    if type(o) is int:
        return Val.vint(z3.IntVal(o))
    if type(o) is str:
        return Val.vstr(z3.IntVal(INTERN.str(o)))
    return Val.vobj(z3.IntVal(INTERN.obj(o)))


class V:
    """Base class of the wrappers."""
    __slots__ = ()


class C(V):
    """A concrete Python object (None, literals, classes, functions, sentinels, modules)."""
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o

    def __repr__(self):
        return f'C({self.o!r})'


class T(V):
    """A symbolic value; hint: a Python class it is known to be an instance of.

    exact: its class is exactly hint.  sub: for class objects (hint is type), the class that the
    value is known to be a subclass of.  meta: free-form extra knowledge (frozen mapping)."""
    __slots__ = ('t', 'hint', 'exact', 'sub', 'meta')

    def __init__(self, t, hint=None, exact=False, sub=None, meta=None):
        self.t, self.hint, self.exact, self.sub, self.meta = t, hint, exact, sub, meta

    def __repr__(self):
        return f'T({self.t}{":" + self.hint.__name__ if self.hint else ""})'


class B(V):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return f'B({self.b})'


class I(V):
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return f'I({self.i})'


class Tup(V):
    """A tuple of known length, built by the code."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f'Tup{self.items!r}'


class Fn(V):
    """A function with source: node (ast), globals, closure frame id, defining class, real function."""
    __slots__ = ('node', 'glob', 'frame', 'cls', 'real', 'name', 'defaults', 'kwdefaults', 'cells', 'mangle')

    def __init__(self, node, glob, frame=None, cls=None, real=None, name=None, defaults=(), kwdefaults=None, cells=None, mangle=None):
        self.node, self.glob, self.frame, self.cls, self.real = node, glob, frame, cls, real
        self.name = name or getattr(node, 'name', '<lambda>')
        self.defaults, self.kwdefaults, self.cells = defaults, kwdefaults or {}, cells or {}
        self.mangle = mangle

    def __repr__(self):
        return f'Fn({self.name})'


class BM(V):
    """A bound method: callable(self_, *args) of an Fn or of a model."""
    __slots__ = ('fn', 'self_', 'name')

    def __init__(self, fn, self_, name=None):
        self.fn, self.self_, self.name = fn, self_, name

    def __repr__(self):
        return f'BM({self.fn},{self.self_})'


class Model(V):
    """A modelled callable: f(ex, args, kwargs) -> V."""
    __slots__ = ('f', 'name')

    def __init__(self, f, name=''):
        self.f, self.name = f, name

    def __repr__(self):
        return f'Model({self.name})'


class Super(V):
    __slots__ = ('cls', 'self_')

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Rng(V):
    """range(lo, hi) with step 1."""
    __slots__ = ('lo', 'hi')

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class View(V):
    """A view or lazy iterable: kind in keys/values/items/enumerate/zip/seq, over source."""
    __slots__ = ('kind', 'src', 'extra', 'started')

    def __init__(self, kind, src, extra=None):
        self.started = False
        self.kind, self.src, self.extra = kind, src, extra


class Token(V):
    __slots__ = ('var', 'old')

    def __init__(self, var, old):
        self.var, self.old = var, old


class MaybeUnbound(V):
    """A local first assigned inside a summarised loop."""
    __slots__ = ()


UNBOUND = MaybeUnbound()


def simp(e):
    return z3.simplify(e)


def is_true(e):
    return e is True or (not isinstance(e, bool) and z3.is_true(e))


def is_false(e):
    return e is False or (not isinstance(e, bool) and z3.is_false(e))


def zbool(e):
    return z3.BoolVal(e) if isinstance(e, bool) else e


def oid(term):
    """The object id of a Val term known to be an object."""
    if z3.is_app(term) and term.decl().eq(Val.vobj):
        return term.arg(0)
    return simp(Val.o(term))


_KEEP = {}


def key(term):
    """Hashable identity of a z3 term (structural: z3 hash-conses; kept alive so ids are not reused)."""
    k = term.get_id()
    if k not in _KEEP:
        _KEEP[k] = term
    return k
