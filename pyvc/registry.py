"""Models of builtins and of the standard library functions that the verified code calls (the trusted base),
and the tables (hints, contracts, callbacks) that the specifications fill in."""
import ast, builtins as _bi, collections.abc, contextlib, contextvars, copy, inspect, types, typing, re, warnings
import z3
import typing_extensions
from .vals import *
from .heap import *
from .engine import Infeasible, PyRaise, KwRest, SuppressCM, StarRest, NOTFOUND, Engine, FoundSig, has_unset
from . import containers as K


class Hint:
    """Type knowledge about a stored value."""
    __slots__ = ('kind', 'cls', 'sub', 'maybe', 'opt', 'ehint', 'khint', 'vhint', 'tag', 'hook', 'elem', 'owned', 'meta')

    def __init__(self, kind='any', cls=None, sub=None, maybe=False, opt=None, ehint=None, khint=None, vhint=None,
                 tag=None, hook=None, elem=None, owned=False, meta=None):
        self.kind, self.cls, self.sub, self.maybe, self.opt = kind, cls, sub, maybe, opt
        self.ehint, self.khint, self.vhint, self.tag, self.hook, self.elem = ehint, khint, vhint, tag, hook, elem
        self.owned, self.meta = owned, meta

    def get(self, name, default=None):
        return getattr(self, name, default)


def ANY():
    return Hint()


def OBJ(cls, **kw):
    return Hint('obj', cls, **kw)


def CLS(sub, **kw):
    return Hint('cls', type, sub=sub, **kw)


def LIST(**kw):
    return Hint('list', list, owned=True, **kw)


def DICT(**kw):
    return Hint('dict', kw.pop('cls', dict), owned=True, **kw)


def typing_construct(o):
    return isinstance(o, (typing._SpecialForm, types.GenericAlias)) or type(o).__module__ == 'typing'


class Registry:
    def __init__(self, repo=None):
        import oblate, oblate.utils, os
        self.repo = repo or os.path.dirname(os.path.abspath(oblate.__file__))
        self.MISSING = oblate.utils.MISSING
        self.symbolic_instances = {'GlobalConfig'}
        self.class_attrs = {'__config__', '__fields__', '__load_fields__'}
        self.hints = {}            # (class, attribute) -> Hint
        self.gattrs = {}           # attribute of values of unknown type -> Hint
        self.contracts = {}        # function/class object -> f(ex, env) ; class -> f(ex, args, kwargs)
        self.virtuals = {}         # method name -> f(ex, BM, args, kwargs) or None
        self.callback = None       # f(ex, callee V, args, kwargs)
        self.class_call = None
        self.copyattrs = {}        # class -> attribute names
        self.models = {}
        self.modattr = {}          # (module, name) -> f(ex)
        self.eqhook = None
        self.obj_inv = {}          # class -> f(ex, term): what holds of its objects in the pre-state
        self.unset_term = None     # attributes holding this count as not set yet (see loops.py)
        install(self)

    # --- scope
    def in_scope(self, path):
        return path.startswith(self.repo)

    def in_scope_class(self, cls):
        return getattr(cls, '__module__', '').startswith('oblate')

    # --- hints
    def attr_hint(self, cls, name):
        if cls is None:
            return self.gattrs.get(name)
        for k in getattr(cls, '__mro__', ()):
            h = self.hints.get((k, name))
            if h is not None:
                return h
        return None

    def apply_hint(self, ex, t, h, owner=None):
        if isinstance(h, type):
            return ex.mk(t, h)
        if not isinstance(t, z3.ExprRef):
            return t
        u = ex.unterm(t)
        if not isinstance(u, T):
            return u
        if h.opt is not None:
            o = lit(h.opt[0] if isinstance(h.opt, tuple) else h.opt)
            if ex.branch(simp(t == o)):
                return ex.unterm(o)
        if u.hint is not None and (h.cls is None or issubclass(u.hint, h.cls)):
            # allocated during the run: known already
            if h.kind == 'cls':
                u = T(u.t, u.hint, u.exact, sub=h.sub)
            return u
        if h.kind == 'any' and not (h.elem or h.hook):
            return ex.mk(t)
        meta = {k: getattr(h, k) for k in ('ehint', 'khint', 'vhint', 'tag', 'hook', 'elem') if getattr(h, k) is not None}
        if h.meta:
            meta.update(h.meta)
        if owner is not None:
            meta['owner'] = owner
        if h.kind == 'any' and h.elem:
            meta['elem'] = lambda e, x, j: h.elem(e, x, j, owner)
        v = ex.mk(t, h.cls, sub=h.sub, meta=meta or None)
        if isinstance(v, T) and h.owned and owner is not None:
            i = oid(v.t)
            k = key(i)
            if not is_fresh_id(i) and k not in ex.st.owner:
                ex.st.owner[k] = owner
        return v

    # --- attributes
    def attr_model(self, ex, v, name):
        if isinstance(v, C):
            o = v.o
            if isinstance(o, types.ModuleType):
                f = self.modattr.get((o.__name__, name))
                return f(ex) if f else None
            if isinstance(o, contextvars.ContextVar):
                return cvar_method(ex, o, name)
            if name == '__getitem__' and typing_construct(o):
                return Model(lambda e, a, k: self.type_getitem(e, v, a[0]), '__getitem__')
            if isinstance(o, type) and name == '__new__':
                return Model(lambda e, a, k: e.new_obj(a[0].o) if isinstance(a[0], C) else new_of_class(e, a[0]), '__new__')
            if isinstance(o, (tuple, list)):
                return None
            if isinstance(o, range):
                if name in ('start', 'stop', 'step'):
                    return C(getattr(o, name))
            return None
        if isinstance(v, Rng):
            if name == 'start':
                return ex.unterm(Val.vint(simp(v.lo)))
            if name == 'stop':
                return ex.unterm(Val.vint(simp(v.hi)))
            if name == 'step':
                return C(1)
        if isinstance(v, Tup):
            if name == '__len__':
                return Model(lambda e, a, k: C(len(v.items)))
            if name in ('index', 'count'):
                raise Unsupported('tuple method')
        if isinstance(v, BM) and name in ('__name__',):
            return C(v.name or '')
        if isinstance(v, T) and v.hint is type and name == '__new__':
            return Model(lambda e, a, k: new_of_class(e, a[0]), '__new__')
        if isinstance(v, T) and name == '__dict__':
            raise Unsupported('__dict__')
        if isinstance(v, T) and v.hint is re.Pattern and name in ('match', 'search', 'fullmatch'):
            return self.pattern_method(ex, v, name)
        if isinstance(v, View):
            return None
        return None

    def pattern_method(self, ex, v, name):
        memo = self.__dict__.setdefault('_pm', {})
        k = (key(v.t), name)
        if k not in memo:
            memo[k] = Model(lambda e, a, kw: self.pattern_call(e, v, name, a), 're.' + name)
        return memo[k]

    def pattern_call(self, ex, v, name, args):
        f = z3.Function(f're.{name}', Val, Val, Val)
        r = f(v.t, ex.term(args[0]))
        ex.assume(z3.Or(Val.is_vnone(r), z3.And(Val.is_vobj(r), z3.Function('truthy', Val, z3.BoolSort())(r))))     # None or a match
        return ex.mk(r)

    def unknown_attr(self, ex, v, name):
        m, i = ex.st.attrs.get(name), oid(v.t)
        while m is not None and m.kind != 'base':       # written since?
            if m.kind == 'store':
                if not ids_distinct(m.idx, i) and ex.branch(z3.And(Val.is_vobj(v.t), simp(m.idx == i))):
                    return ex.unterm_w(m.val)
            elif ex.branch(simp(m.cond(i))):
                return ex.unterm_w(m.f(i))
            m = m.prev
        h = self.gattrs.get(name)
        if h is not None and not h.maybe:
            f = z3.Function('ga:' + name, Val, Val)
            t = f(v.t)
            return self.apply_hint(ex, t, h)
        has = z3.Function('has:' + name, Val, z3.BoolSort())(v.t)
        if not ex.branch(has):
            return None
        f = z3.Function('ga:' + name, Val, Val)
        return self.apply_hint(ex, f(v.t), h or Hint())

    def container_method(self, ex, v, name):
        return K.container_method(ex, v, name)

    def str_method(self, ex, v, name):
        if isinstance(v, C) and not hasattr(str, name):
            return None

        def f(e, a, k):
            if isinstance(v, C) and all(isinstance(x, C) and isinstance(x.o, (str, int)) for x in a) and not k:
                return e.wrap(getattr(v.o, name)(*[x.o for x in a]))
            if name == 'join':
                segs = K.segments(e, a[0])
                for s in segs:
                    if not isinstance(s, Ex) and s.__class__.__name__ == 'Any_':
                        pass
                if isinstance(v, C) and all(isinstance(s, Ex) and isinstance(s.v, C) and isinstance(s.v.o, str) for s in segs):
                    return C(v.o.join(s.v.o for s in segs))
                return e.opaque_str()
            if name in ('startswith', 'endswith', 'isdigit', 'isidentifier', '__contains__'):
                return B(e.fresh_bool(name))
            if name in ('format', 'lower', 'upper', 'strip', 'rstrip', 'lstrip', 'replace', 'title', 'capitalize'):
                if name == 'format':
                    r = fmt(e, 'format', [v] + list(a) + list(k.values()))
                    e.st.fired['format'] = (v, list(a), dict(k), r)
                    return r
                g = z3.Function('str.' + name, *([Val] * (1 + len(a)) + [z3.IntSort()]))
                return T(Val.vstr(g(e.term(v), *[e.term(x) for x in a])), str)
            raise Unsupported('str.' + name)
        return Model(f, 'str.' + name)

    def class_setattr(self, ex, v, name, val):
        ex.write_attr(v, name, val)

    # --- calls
    def contract_for(self, ex, real):
        return self.contracts.get(real)

    def virtual(self, ex, f, args, kwargs):
        s = f.self_
        if isinstance(s, T) and not s.exact and s.hint is not None and s.hint is not type:
            g = self.virtuals.get(f.name)
            if g is not None:
                return g(ex, f, args, kwargs)
        return None

    def call_unknown(self, ex, f, args, kwargs):
        if f.hint is not None and f.hint is not type and self.in_scope_class(f.hint) and hasattr(f.hint, '__call__'):
            return ex.call(ex.getattr(f, '__call__'), args, kwargs)
        if f.hint is type and self.class_call is not None:
            r = self.class_call(ex, f, args, kwargs)
            if r is not None:
                return r
        if self.callback is None:
            raise Unsupported(f'call of an unknown value {f}')
        return self.callback(ex, f, args, kwargs)

    def global_value(self, ex, g, name):
        m = self.modattr.get((g.get('__name__'), name))
        if m is not None:
            return m(ex)
        return ex.wrap(g[name])

    def isinstance_unknown(self, ex, v, c):
        f = z3.Function('isinst', Val, Val, z3.BoolSort())
        t = ex.term(v)
        r = f(t, c.t)
        if c.sub is not None and c.hint is type:
            # instance of a subclass of c.sub
            base = ex.inst(v, c.sub)
            ex.assume(z3.Implies(r, zbool(base)))
        return r

    # --- operators
    def segments(self, ex, v):
        return K.segments(ex, v)

    def inplace(self, ex, op, cur, val):
        if isinstance(cur, T) and cur.hint is list and isinstance(op, ast.Add):
            K.list_method(ex, cur, 'extend').f(ex, [val], {})
            return cur
        if isinstance(cur, T) and K.is_setlike(cur.hint):
            o = {'BitAnd': 'and', 'BitOr': 'or', 'Sub': 'diff', 'BitXor': 'xor'}.get(type(op).__name__)
            if o:
                ex.set_dict(cur, K.mk_setop(ex, o, ex.get_dict(cur), K.set_of(ex, val)))
                return cur
        if isinstance(cur, T) and cur.hint is dict and isinstance(op, ast.BitOr):
            K.dict_method(ex, cur, 'update').f(ex, [val], {})
            return cur
        return None

    def binop(self, ex, op, a, b):
        n = type(op).__name__
        if isinstance(a, C) and isinstance(b, C) and isinstance(a.o, (int, str, tuple)) and isinstance(b.o, (int, str, tuple)):
            try:
                return ex.wrap({'Add': lambda: a.o + b.o, 'Sub': lambda: a.o - b.o, 'Mult': lambda: a.o * b.o, 'Mod': lambda: a.o % b.o,
                                'FloorDiv': lambda: a.o // b.o, 'BitAnd': lambda: a.o & b.o, 'BitOr': lambda: a.o | b.o}[n]())
            except (TypeError, KeyError):
                raise Unsupported(f'operator {n}')
        ka, kb = ex.kind(a), ex.kind(b)
        if isinstance(a, T) and a.hint is list and n == 'Add':
            return ex.new_list(tuple(ex.get_list(a).segs) + tuple(K.segments_nosplit(ex, b)))
        if isinstance(a, Tup) and isinstance(b, Tup) and n == 'Add':
            return Tup(a.items + b.items)
        if n in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and (isinstance(a, View) or isinstance(a, T) and K.is_setlike(a.hint)):
            o = {'BitAnd': 'and', 'BitOr': 'or', 'Sub': 'diff', 'BitXor': 'xor'}[n]
            return ex.new_dict(K.mk_setop(ex, o, K.set_of(ex, a), K.set_of(ex, b)), set)
        if n == 'BitOr' and isinstance(a, T) and a.hint is dict:
            return ex.new_dict(K.overlay(ex, ex.get_dict(a), K.to_dct(ex, b)))
        if ka is str or kb is str:
            return fmt(ex, 'op' + n, [a, b])
        if ka in (int, bool) and kb in (int, bool):
            x, y = ex.as_int(a), ex.as_int(b)
            if n in ('Add', 'Sub', 'Mult'):
                return ex.unterm(Val.vint(simp({'Add': x + y, 'Sub': x - y, 'Mult': x * y}[n])))
        raise Unsupported(f'operator {n} on {a}, {b}')

    def eq(self, ex, a, b):
        if self.eqhook is not None:
            r = self.eqhook(ex, a, b)
            if r is not None:
                return r
        return ex.eq_(a, b)

    def contains(self, ex, c, x):
        return K.contains(ex, c, x)

    def set_compare(self, ex, n, a, b):
        return K.set_compare(ex, n, a, b)

    def getitem(self, ex, v, k):
        return K.getitem(ex, v, k)

    def setitem(self, ex, v, k, val):
        return K.setitem(ex, v, k, val)

    def delitem(self, ex, v, k):
        return K.delitem(ex, v, k)

    def slice(self, ex, v, s, fr):
        return K.slice_(ex, v, s, fr)

    def type_getitem(self, ex, v, k):
        """Subscription of a type or of a typing construct."""
        if isinstance(k, T):
            k = ex.narrow(k)
            if k.hint is tuple:
                return ex.mk(z3.Function('subscript*', Val, Val, Val)(ex.term(v), k.t))
        ks = [ex.term(x) for x in (k.items if isinstance(k, Tup) else [k])]
        if isinstance(v, C) and isinstance(k, C) and not isinstance(k.o, V):
            return ex.wrap(v.o[k.o])
        f = z3.Function(f'subscript{len(ks)}', *([Val] * (len(ks) + 1) + [Val]))
        r = f(ex.term(v), *ks)
        ex.assume(z3.And(Val.is_vobj(r), r != ex.term(v)))
        return ex.mk(r)

    def dict_merge(self, ex, d, v):
        return K.overlay(ex, d, K.to_dct(ex, v))

    def known_items(self, ex, v):
        if isinstance(v, T):
            v = ex.narrow(v)
            if v.hint is dict:
                d = ex.get_dict(v)
                ks = K.explicit_items(ex, d)
                if ks is not None:
                    out = {}
                    for k in ks:
                        kv = ex.unterm(k)
                        if not (isinstance(kv, C) and isinstance(kv.o, str)):
                            return None
                        x = d.val(ex, k)
                        out[kv.o] = x if isinstance(x, V) else ex.mk(x)
                    return out
        if isinstance(v, C) and isinstance(v.o, dict):
            return {k: ex.wrap(x) for k, x in v.o.items()}
        return None

    def fstring(self, ex, parts):
        return fmt(ex, 'f:' + '|'.join(p.o if isinstance(p, C) and isinstance(p.o, str) else '{}%d' % c for p, c in parts),
                   [p for p, c in parts if not (isinstance(p, C) and isinstance(p.o, str))],
                   nonempty=any(isinstance(p, C) and p.o not in ('', None) for p, _ in parts))


def fmt(ex, name, args, nonempty=False):
    """A string made from values; a function of the values when they are immutable, fresh otherwise."""
    if all(isinstance(a, (C, I, B)) or isinstance(a, T) and a.hint in (str, int, bool, type) for a in args):
        f = z3.Function('fmt:' + name, *([Val] * len(args) + [z3.IntSort()])) if args else z3.Int('fmt:' + name)
        s = f(*[ex.term(a) for a in args]) if args else f
    else:
        s = ex.fresh_int('s')
    t = Val.vstr(s)
    if nonempty:
        ex.assume(s != 0)
    r = T(t, str, meta={'made_of': [ex.term(a) for a in args if not isinstance(a, (Fn, BM, Model))]})
    return r


def new_of_class(ex, cv):
    """object.__new__ of a class value."""
    v = ex.new_obj(cv.sub or object, exact=False)
    f = z3.Function('typeof', Val, Val)
    ex.assume(f(v.t) == cv.t)
    if cv.sub is not None:
        ex.assume(ex.inst_uf(v.t, cv.sub))
    return v


# ------------------------------------------------------------------------------- context variables

def cvar_value(ex, var):
    n = var.name
    v = ex.st.cvars.get(n)
    if v is None:
        v = ex.st.cvars[n] = T(z3.Const('cv0!' + n, Val))
    return v


def cvar_method(ex, var, name):
    n = var.name
    if name == 'set':
        def f(e, a, k):
            old = cvar_value(e, var)
            e.st.cvars[n] = a[0]
            e.neff += 1
            return Token(n, old)
        return Model(f, 'ContextVar.set')
    if name == 'reset':
        def f(e, a, k):
            tok = a[0]
            if not isinstance(tok, Token):
                raise Unsupported('reset of an unknown token')
            if tok.var != n:
                e.raise_(ValueError, C('token of another variable'))
            if ('tok', id(tok)) in e.st.fired:
                e.raise_(RuntimeError, C('token used twice'))
            e.st.fired[('tok', id(tok))] = tok
            e.st.cvars[n] = tok.old
            e.neff += 1
            return C(None)
        return Model(f, 'ContextVar.reset')
    if name == 'get':
        def f(e, a, k):
            v = cvar_value(e, var)
            if isinstance(v, T) and (has_unset(v.t) or v.hint is None and not v.exact):
                if e.branch(simp(Val.is_vunset(v.t))):
                    if a:
                        return a[0]
                    e.raise_(LookupError, C(n))
                h = e.reg.gattrs.get('cvar:' + n)
                if h is not None:
                    return e.reg.apply_hint(e, v.t, h)
                e.wf(v)
            return v
        return Model(f, 'ContextVar.get')
    return None


# ------------------------------------------------------------------------------- builtins

def install(reg):
    M = reg.models

    def model(o):
        def deco(f):
            M[id(o)] = f
            reg.__dict__.setdefault('_alive', []).append(o)
            return f
        return deco

    @model(isinstance)
    def _(ex, a, k):
        return ex.mkb(ex.isinstance_v(a[0], a[1]))

    @model(issubclass)
    def _(ex, a, k):
        return ex.mkb(issub(ex, a[0], a[1]))

    def issub(ex, c, d):
        if isinstance(d, Tup):
            return ex.disj([issub(ex, c, x) for x in d.items])
        if isinstance(c, C) and isinstance(d, C):
            if not isinstance(c.o, type):
                ex.raise_(TypeError, C('issubclass() arg 1 must be a class'))
            return issubclass(c.o, d.o)
        if isinstance(c, T):
            if c.hint is not type:
                isc = zbool(is_class(ex, c))
                if not ex.branch(isc):
                    ex.raise_(TypeError, C('issubclass() arg 1 must be a class'))
            if isinstance(d, C) and isinstance(d.o, type):
                if c.sub is not None and issubclass(c.sub, d.o):
                    return True
                f = z3.Function(f'sub:{d.o.__module__}.{d.o.__qualname__}', Val, z3.BoolSort())
                if c.hint is not type:
                    ex.st.inst_q.setdefault(key(c.t), {})[('sub', d.o)] = f(c.t)
                return f(c.t)
        f = z3.Function('subclass', Val, Val, z3.BoolSort())
        return f(ex.term(c), ex.term(d))
    reg.issub = issub

    def is_class(ex, v):
        if isinstance(v, C):
            return isinstance(v.o, type)
        if isinstance(v, T):
            if v.hint is type:
                return True
            if v.hint is not None:
                return False
            # values of unknown type: an interned class or a UF
            return z3.And(Val.is_vobj(v.t), z3.Function('isclass', Val, z3.BoolSort())(v.t))
        return False

    @model(inspect.isclass)
    def _(ex, a, k):
        return ex.mkb(is_class(ex, a[0]))

    @model(len)
    def _(ex, a, k):
        v = a[0]
        if isinstance(v, Tup):
            return C(len(v.items))
        if isinstance(v, C):
            if isinstance(v.o, (str, tuple, list, dict)):
                return C(len(v.o))
            ex.raise_(TypeError, C('len'))
        if isinstance(v, View):
            if v.kind in ('keys', 'items', 'values'):
                v = v.src
        if isinstance(v, Rng):
            return ex.unterm(Val.vint(simp(z3.If(v.hi > v.lo, v.hi - v.lo, 0))))
        if isinstance(v, T):
            v = ex.narrow(v)
            if v.hint is list:
                return ex.unterm(Val.vint(K.list_len(ex, v)))
            if v.hint is tuple:
                return ex.unterm(Val.vint(ex.tuple_seq(v).n))
            if K.is_dictlike(v.hint):
                return ex.unterm(Val.vint(K.dict_len(ex, ex.get_dict(v))))
            n = z3.Function('pylen', Val, z3.IntSort())(v.t)
            if v.hint is None and not (v.meta or {}).get('sized'):
                if not ex.branch(z3.Function('sized', Val, z3.BoolSort())(v.t)):
                    ex.raise_(TypeError, C('len'))
            ex.assume(n >= 0)
            return ex.unterm(Val.vint(n))
        raise Unsupported(f'len of {v}')

    @model(callable)
    def _(ex, a, k):
        v = a[0]
        if isinstance(v, C):
            return C(callable(v.o))
        if isinstance(v, (Fn, BM, Model)):
            return C(True)
        if isinstance(v, T):
            if v.hint is type:
                return C(True)
            if v.hint is not None and v.hint is not object:
                return C(hasattr(v.hint, '__call__')) if v.hint not in (list, dict, str, int, bool, tuple) else C(False)
            return B(z3.And(Val.is_vobj(v.t), z3.Function('callable', Val, z3.BoolSort())(v.t)))
        return C(False)

    @model(getattr)
    def _(ex, a, k):
        if not (isinstance(a[1], C) and isinstance(a[1].o, str)):
            raise Unsupported('getattr with a computed name')
        return ex.getattr(a[0], a[1].o, *a[2:])

    @model(hasattr)
    def _(ex, a, k):
        if not isinstance(a[1], C):
            raise Unsupported('hasattr with a computed name')
        r = ex.getattr0(a[0], a[1].o)
        return C(r is not None)

    @model(setattr)
    def _(ex, a, k):
        if isinstance(a[1], C):
            ex.setattr(a[0], a[1].o, a[2])
            return C(None)
        f = getattr(reg, 'dyn_setattr', None)
        if f is None:
            raise Unsupported('setattr with a computed name')
        f(ex, a[0], a[1], a[2])
        return C(None)

    @model(type)
    def _(ex, a, k):
        if len(a) != 1:
            raise Unsupported('type(...)')
        return ex.class_of(a[0])

    @model(repr)
    def _(ex, a, k):
        if isinstance(a[0], C) and isinstance(a[0].o, (int, str)):
            return C(repr(a[0].o))
        return fmt(ex, 'repr', [a[0]])

    @model(id)
    def _(ex, a, k):
        f = z3.Function('pyid', Val, z3.IntSort())
        return I(f(ex.term(a[0])))

    @model(str)
    def _(ex, a, k):
        v = a[0] if a else C('')
        if isinstance(v, C) and isinstance(v.o, (int, str)):
            return C(str(v.o))
        if isinstance(v, T):
            v = ex.narrow(v)
        if isinstance(v, T) and v.hint is str and v.exact:
            return v
        h = getattr(reg, 'strhook', None)
        if h is not None:
            r = h(ex, v)
            if r is not None:
                return r
        if isinstance(v, T) and v.hint is not None and isinstance(v.hint, type) and issubclass(v.hint, BaseException) and is_fresh_id(oid(v.t)):
            t = ex.mem('args').select(oid(v.t))
            u = ex.unterm(t)
            if isinstance(u, Tup):
                if not u.items:
                    return C('')
                if len(u.items) == 1:
                    w = u.items[0]
                    if ex.kind(w) is str:
                        return w
                    return fmt(ex, 'str', [w])
        f = z3.Function('strof', Val, z3.IntSort())
        t = ex.term(v)
        if isinstance(v, T) and v.hint is str:
            return v
        r = f(t)
        if isinstance(v, T) and v.hint is None:
            ex.assume(z3.Implies(Val.is_vstr(t), r == Val.s(t)))
        return T(Val.vstr(r), str)

    def conv(cls, name):
        @model(cls)
        def _(ex, a, k):
            v = a[0] if a else C(cls())
            if isinstance(v, C) and isinstance(v.o, (int, str)) and cls is int:
                try:
                    return C(int(v.o))
                except ValueError:
                    ex.raise_(ValueError, C('int'))
            t = ex.term(v)
            out = z3.Function(name + '.outcome', Val, z3.IntSort())(t)
            i = ex.choose([out == 0, out == 1, out == 2])
            if i == 1:
                ex.raise_(ValueError, ex.opaque_str())
            if i == 2:
                raise PyRaise(foreign(ex, Exception))
            if cls is int:
                return ex.unterm(Val.vint(z3.Function('intof', Val, z3.IntSort())(t)))
            r = z3.Function('floatof', Val, Val)(t)
            return ex.mk(r, float)
    conv(int, 'int')
    conv(float, 'float')

    @model(bool)
    def _(ex, a, k):
        return ex.mkb(ex.truth(a[0])) if a else C(False)

    @model(list)
    def _(ex, a, k):
        return ex.new_list(tuple(K.segments_nosplit(ex, a[0])) if a else ())

    @model(tuple)
    def _(ex, a, k):
        if not a:
            return Tup(())
        if isinstance(a[0], Tup):
            return a[0]
        if isinstance(a[0], T) and a[0].hint is tuple:
            return a[0]
        segs = K.segments_nosplit(ex, a[0])
        if all(isinstance(s, Ex) for s in segs):
            return Tup([s.v for s in segs])
        return ex.new_list(segs)     # behaves like the tuple for iteration

    @model(dict)
    def _(ex, a, k):
        d = Dct('empty')
        if a:
            v = a[0]
            if isinstance(v, T):
                v = ex.narrow(v)
            if isinstance(v, T) and v.hint in (dict, collections.abc.Mapping):
                d = ex.get_dict(v)
            elif isinstance(v, T) and v.hint is None and (v.meta or {}).get('mapping'):
                d = ex.get_dict(v)
            elif isinstance(v, KwRest):
                d = K.to_dct(ex, v)
            else:
                for s in K.segments(ex, v):
                    if not isinstance(s, Ex):
                        raise Unsupported('dict of pairs')
                    p = ex.unpack(s.v, 2)
                    d = Dct('store', prev=d, k=ex.term(p[0]), v=p[1])
        for n, v in k.items():
            d = Dct('store', prev=d, k=lit(n), v=v)
        return ex.new_dict(d)

    def fromkeys(ex, a, k):
        val = a[1] if len(a) > 1 else C(None)
        v = a[0]
        if isinstance(v, View) and v.kind == 'keys':
            v = v.src
        if isinstance(v, T):
            v = ex.narrow(v)
        if isinstance(v, T) and K.is_dictlike(v.hint):
            src = ex.get_dict(v)
            if K.explicit_items(ex, src) is None:
                t = ex.term(val)
                return ex.new_dict(Dct('base', domf=lambda x: src.dom(ex, x), valf=lambda x: t, tag=src.tag, khint=src.khint))
        d = Dct('empty')
        for s in K.segments(ex, v):
            if not isinstance(s, Ex):
                raise Unsupported('dict.fromkeys of unknown sequence')
            d = Dct('store', prev=d, k=K.hash_key(ex, s.v), v=val)
        return ex.new_dict(d)
    reg.dict_fromkeys = fromkeys

    @model(set)
    def _(ex, a, k):
        return ex.new_dict(K.set_of(ex, a[0]) if a else None, set)

    @model(frozenset)
    def _(ex, a, k):
        return ex.new_dict(K.set_of(ex, a[0]) if a else None, set)

    @model(enumerate)
    def _(ex, a, k):
        start = k.get('start', a[1] if len(a) > 1 else C(0))
        return View('enumerate', a[0], ex.as_int(start))

    @model(contextlib.suppress)
    def _(ex, a, k):
        return SuppressCM(list(a))

    @model(zip)
    def _(ex, a, k):
        return View('zip', list(a))

    @model(map)
    def _(ex, a, k):
        return View('map', a[1], a[0])

    @model(reversed)
    def _(ex, a, k):
        return View('reversed', a[0])

    @model(iter)
    def _(ex, a, k):
        if isinstance(a[0], T) and a[0].hint is list or isinstance(a[0], (Tup, View)):
            return a[0]
        raise Unsupported('iter')

    @model(next)
    def _(ex, a, k):
        if isinstance(a[0], View) and (a[0].kind == 'gen' or a[0].kind == 'segs'):
            return ex.gen_first(a[0], a[1] if len(a) > 1 else None)
        raise Unsupported('next')

    @model(range)
    def _(ex, a, k):
        xs = [ex.as_int(x) for x in a]
        if len(xs) == 1:
            return Rng(z3.IntVal(0), simp(xs[0]))
        if len(xs) == 3 and not is_true(simp(xs[2] == 1)):
            raise Unsupported('range step')
        return Rng(simp(xs[0]), simp(xs[1]))

    def anyall(want):
        def f(ex, a, k):
            v = a[0]
            if isinstance(v, View) and v.kind == 'gen':
                return C(ex.gen_any(v, want))
            if isinstance(v, View) and v.kind == 'map':
                g = v.extra
                segs = K.segments(ex, v.src)
            else:
                g = None
                segs = K.segments(ex, v)
            from .loops import summarise
            res = []

            def bind(x):
                res[:] = [x]

            def body():
                x = res[0] if g is None else ex.call(g, [res[0]], {})
                if ex.branch(ex.truth(x)) == want:
                    raise FoundSig()
            try:
                for s in segs:
                    if isinstance(s, Ex):
                        bind(s.v)
                        body()
                    else:
                        summarise(ex, s, bind, body, id(v))
            except FoundSig:
                return C(want)
            return C(not want)
        return f
    M[id(any)] = anyall(True)
    M[id(all)] = anyall(False)

    @model(vars)
    def _(ex, a, k):
        h = getattr(reg, 'vars_model', None)
        if h is None:
            raise Unsupported('vars()')
        return h(ex, a[0])

    @model(min)
    def _(ex, a, k):
        if len(a) == 2:
            x, y = ex.as_int(a[0]), ex.as_int(a[1])
            return ex.unterm(Val.vint(simp(z3.If(x <= y, x, y))))
        raise Unsupported('min')

    @model(max)
    def _(ex, a, k):
        if len(a) == 2:
            x, y = ex.as_int(a[0]), ex.as_int(a[1])
            return ex.unterm(Val.vint(simp(z3.If(x >= y, x, y))))
        raise Unsupported('max')

    @model(sorted)
    def _(ex, a, k):
        segs = K.segments(ex, a[0])
        if len(segs) <= 1:
            return ex.new_list(segs)
        raise Unsupported('sorted')

    @model(typing.cast)
    def _(ex, a, k):
        return a[1]

    @model(warnings.warn)
    def _(ex, a, k):
        return C(None)

    @model(re.compile)
    def _(ex, a, k):
        f = z3.Function('re.compile', Val, Val, Val)
        fl = a[1] if len(a) > 1 else k.get('flags', C(0))
        return ex.mk(f(ex.term(a[0]), ex.term(fl)), re.Pattern)

    @model(copy.copy)
    def _(ex, a, k):
        return shallow_copy(ex, reg, a[0])

    def copy_replace(ex, v):
        raise Unsupported('copy.deepcopy')

    def generic(v):
        """A container subscripted with symbolic arguments."""
        if isinstance(v, T) and z3.is_app(v.t) and v.t.decl().name().startswith('subscript') and v.t.decl().name() != 'subscript*':
            o = unlit(v.t.arg(0))
            if any(o is x for x in (typing.Tuple, typing.List, typing.Set, typing.Dict, typing.Sequence, typing.Mapping)):
                return o, v.t.children()[1:]
        return None

    def unlit(t):
        if z3.is_app(t) and t.decl().eq(Val.vobj) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() >= INTERN_BASE:
            return INTERN.objs[t.arg(0).as_long() - INTERN_BASE]

    @model(typing.get_origin)
    def _(ex, a, k):
        v = a[0]
        if isinstance(v, C):
            return ex.wrap(typing.get_origin(v.o))
        g = generic(v)
        if g is not None:
            return ex.wrap(typing.get_origin(g[0]))
        return ex.mk(z3.Function('get_origin', Val, Val)(ex.term(v)))
    M[id(typing_extensions.get_origin)] = M[id(typing.get_origin)]

    @model(typing.get_args)
    def _(ex, a, k):
        v = a[0]
        if isinstance(v, C):
            return ex.wrap(typing.get_args(v.o))
        g = generic(v)
        if g is not None:
            return Tup([ex.unterm(x) for x in g[1]])
        r = z3.Function('get_args', Val, Val)(ex.term(v))
        return ex.mk(r, tuple, meta={'tag': 'args'})
    M[id(typing_extensions.get_args)] = M[id(typing.get_args)]

    @model(typing_extensions.is_typeddict)
    def _(ex, a, k):
        v = a[0]
        if isinstance(v, C):
            return C(typing_extensions.is_typeddict(v.o))
        return B(z3.Function('is_typeddict', Val, z3.BoolSort())(ex.term(v)))

    # exception constructors of the builtin classes, called explicitly through super().__init__
    def exc_init(ex, a, k):
        ex.write_attr(a[0], 'args', Tup(a[1:]))
        return C(None)
    for cls in (BaseException, Exception, AttributeError, ValueError, AssertionError, TypeError, RuntimeError, LookupError, KeyError, NameError):
        f = cls.__dict__.get('__init__')
        if f is not None:
            M[id(f)] = exc_init
    M[id(object.__init__)] = lambda ex, a, k: C(None)
    M[id(object.__setattr__)] = lambda ex, a, k: (ex.setattr(a[0], a[1].o, a[2]), C(None))[1]
    for f in (object.__dict__['__init_subclass__'],):
        M[id(f)] = lambda ex, a, k: C(None)


def foreign(ex, cls=BaseException):
    """An exception that signals nothing to the library."""
    import oblate.exceptions as X
    e = ex.new_obj(cls, exact=False)
    for c in (ValueError, AssertionError, X.FieldError):
        ex.assume(z3.Not(zbool(ex.inst(e, c))))
    ex.st.fired[('foreign', key(oid(e.t)))] = True
    return e


def shallow_copy(ex, reg, v):
    if isinstance(v, (C, I, B, Tup)):
        return v
    v = ex.narrow(v)
    if isinstance(v, C):
        return v
    if v.hint is list:
        return ex.new_list(ex.get_list(v).segs)
    if v.hint in (dict, set):
        return ex.new_dict(ex.get_dict(v), v.hint)
    names = None
    for c in getattr(v.hint, '__mro__', ()):
        if c in reg.copyattrs:
            names = reg.copyattrs[c]
            break
    if names is None:
        if v.hint is None:
            r = ex.mk(z3.Function('copyof', Val, Val)(v.t))
            return r
        raise Unsupported(f'copy of {v}')
    cv = ex.class_of(v)
    n = new_of_class(ex, cv if isinstance(cv, T) else T(lit(cv.o), type, sub=cv.o))
    n = T(n.t, v.hint, v.exact)
    ex.st.cls_of[key(oid(n.t))] = (v.hint, v.exact)
    i, j = oid(v.t), oid(n.t)
    for a in names:
        t = ex.mem(a).select(i)
        ex.st.attrs[a] = Mem('store', prev=ex.mem(a), idx=j, val=t)
    return n
