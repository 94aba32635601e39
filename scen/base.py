"""Shared pieces of the concrete scenarios (executions of the real code against an independent oracle)."""
import warnings
warnings.simplefilter('ignore')
from oblate.utils import current_schema, current_field_key, current_context, MISSING

CVS = (current_schema, current_field_key, current_context)
UNSET = type('UNSET', (), {'__repr__': lambda s: 'UNSET'})()
SCEN = {}


class Viol(Exception):
    pass


class Ck:
    """Collects the property under test; only its checks count."""

    def __init__(self, prop):
        self.prop = prop
        self.sig = []

    def __call__(self, props, cond, what, *info):
        if not cond and (self.prop == 'ALL' or self.prop in props.split()):
            raise Viol(what + ''.join(f' | {short(i)}' for i in info))

    def note(self, *sig):
        self.sig.append('/'.join(map(str, sig)))


def short(x):
    try:
        r = repr(x)
    except Exception as e:
        r = f'<{type(x).__name__}>'
    return r if len(r) < 300 else r[:300] + '...'


def scen(props, rule):
    def deco(f):
        for p in props.split() + ['ALL']:
            SCEN.setdefault(p, []).append((f, rule))
        return f
    return deco


class Ambient:
    """Sets the ambient variables of the caller and checks that they are as they were."""

    def __init__(self, rng, force=False):
        self.vals = []
        self.tokens = []
        for v in CVS:
            if force or rng.random() < .5:
                o = Sentinel(v.name)
                self.tokens.append((v, v.set(o)))
                self.vals.append(o)
            else:
                self.vals.append(UNSET)

    def now(self):
        return [v.get(UNSET) for v in CVS]

    def ok(self):
        return all(a is b for a, b in zip(self.now(), self.vals))

    def close(self):
        for v, t in reversed(self.tokens):
            v.reset(t)


class Sentinel:
    __load_fields__ = {}

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'<ambient {self.n}>'


class Abort(BaseException):
    pass


class OddError(KeyError):
    pass


FOREIGN = (KeyError, RuntimeError, TypeError, Abort, StopIteration, AttributeError, LookupError, IndexError, OddError, OSError,
           NotImplementedError, RecursionError, GeneratorExit, ArithmeticError)


class Thing:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'Thing({self.n})'


class Grumpy:
    """Equal to nothing, false."""

    def __eq__(self, o):
        return False

    def __bool__(self):
        return False
    __hash__ = object.__hash__

    def __repr__(self):
        return 'Grumpy()'


def some_value(rng, none=.15):
    if rng.random() < none:
        return None
    return rng.choice([0, 1, -5, '', 'x', 'None', False, True, 0.0, 1.5, [], [1], {}, {'a': 1}, (), set(), b'', Thing(rng.randrange(9)),
                       Grumpy(), NotImplemented, Ellipsis, int, len, float('nan')])
