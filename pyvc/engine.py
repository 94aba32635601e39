"""Symbolic executor: generates and discharges the obligations of one mode of one function."""
import ast, builtins as _bi, collections, collections.abc, contextlib, inspect, threading, time, types, contextvars
import z3
from .vals import *
from .heap import *


class Infeasible(Exception):
    pass


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class PyRaise(Exception):
    """The verified code raises exc (a V)."""
    def __init__(self, exc):
        self.exc = exc


class State:
    __slots__ = ('frames', 'attrs', 'dicts', 'lists', 'cvars', 'ghost', 'alloc', 'fired', 'excs', 'nfresh', 'cls_of',
                 'inst_q', 'owner', 'steps', 'loopno', 'draws', 'notes', 'thints', 'version')

    def __init__(self):
        self.frames = {}
        self.attrs, self.dicts, self.lists, self.cvars, self.ghost = {}, {}, {}, {}, {}
        self.alloc = (z3.IntVal(1), 0)
        self.fired, self.excs, self.nfresh = {}, (), 0
        self.cls_of, self.inst_q, self.owner = {}, {}, {}
        self.steps = self.loopno = 0
        self.draws = {}
        self.notes = ()
        self.thints = {}         # term -> the typed value it was stored as
        self.version = ''        # content of the containers allocated by the iterations of loops

    def copy(self):
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        for a in ('attrs', 'dicts', 'lists', 'cvars', 'ghost', 'cls_of', 'owner', 'draws', 'fired', 'thints'):
            setattr(s, a, dict(getattr(self, a)))
        s.inst_q = {k: dict(v) for k, v in self.inst_q.items()}
        s.alloc, s.excs, s.nfresh, s.steps, s.loopno = self.alloc, self.excs, self.nfresh, self.steps, self.loopno
        s.notes, s.version = self.notes, self.version
        return s


_AST_CACHE = {}


def loop_symbol(n):
    """Values that iterations of loops leave behind: possibly allocated by them."""
    return n[:3] in ('hv!', 'el!') or n[:2] in ('h:', 'L:') or '~' in n


def load_module_ast(path):
    if path not in _AST_CACHE:
        src = open(path, encoding='utf-8').read()
        tree = ast.parse(src)
        idx = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                line = node.lineno
                if isinstance(node, ast.FunctionDef) and node.decorator_list:
                    line = min(line, min(d.lineno for d in node.decorator_list))
                idx.setdefault((getattr(node, 'name', '<lambda>'), line), node)
        _AST_CACHE[path] = (tree, idx, src)
    return _AST_CACHE[path]


def fn_from_real(f):
    code = f.__code__
    _, idx, _ = load_module_ast(code.co_filename)
    node = idx.get((code.co_name, code.co_firstlineno))
    if node is None:
        raise Unsupported(f'no source for {f.__qualname__}')
    cells = {}
    for n, c in zip(code.co_freevars, f.__closure__ or ()):
        try:
            cells[n] = c.cell_contents
        except ValueError:
            pass
    qn = f.__qualname__.split('.')
    mangle = None
    if len(qn) >= 2 and qn[-2] != '<locals>':
        mangle = qn[-2].lstrip('_')
    return Fn(node, f.__globals__, real=f, name=f.__qualname__, defaults=f.__defaults__ or (), kwdefaults=f.__kwdefaults__ or {},
              cells=cells, mangle=mangle)


def has_yield(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


_LAYOUT = (int, str, float, list, dict, set, frozenset, tuple, bytes, type, BaseException, type(None), types.FunctionType)


def slotted(c):
    """The class that last added slots to the instance layout."""
    for k in getattr(c, '__mro__', ()):
        s = k.__dict__.get('__slots__', ())
        if isinstance(s, str) or any(n not in ('__dict__', '__weakref__') for n in s):
            return k
    return None


def layout(c):
    for l in _LAYOUT:
        if isinstance(c, type) and issubclass(c, l):
            return l
    return None


def classes_disjoint(a, b):
    """No object can be an instance of both."""
    la, lb = layout(a), layout(b)
    if la and lb and la is not lb:
        return True
    sa, sb = slotted(a), slotted(b)
    if sa or sb:
        x, y = sa or la, sb or lb
        if x and y and not issubclass(x, y) and not issubclass(y, x):
            return True
    # abstract collections: exceptions, ints, functions, classes and None are none of them
    for x, y, lx in ((a, b, la), (b, a, lb)):
        if y in (collections.abc.Mapping,) and lx in (int, str, float, list, set, frozenset, tuple, bytes, BaseException, type(None), type):
            return True
    return False


class Engine:
    MAXSTEPS = 60000

    def __init__(self, registry, timeout_ms=8000, debug=False):
        self.reg = registry                     # specs: hints, contracts, models, virtual methods
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.st = State()
        self.trace, self.pos, self.work = [], 0, None
        self.log, self.lpos = None, 0
        self.ctx, self.ns, self.cut = (), '', None
        self.boxes = {}
        self.loop_cache, self.warm = {}, {}
        self.priors, self.renamers = [], []
        self.tracked = []                       # [(tag or None, key term)]
        self.tracked_idx = []                   # [(seq uid matcher, index term)]
        self.obligations = []                   # results
        self.stats = {'checks': 0, 'solver_s': 0.0, 'paths': 0, 'unknown': 0}
        self.debug = debug
        self.inline_only = set()
        self.used_contracts, self.inlined = set(), set()
        self.covers = {}
        self.line = None
        self.depth = 0
        self.in_infer = 0
        self.gen_start, self.op_start, self.op_bound, self.op_open = None, None, z3.IntVal(1), False
        self.neff = 0            # number of writes so far
        self.opts = {}
        self.infer_obliges = False
        self.deadline = None
        self.nsn = 0

    # ------------------------------------------------------------------ solver

    def check(self, *fs):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time limit of the mode reached')
        self.stats['checks'] += 1
        t0 = time.time()
        for r in reversed(self.renamers):
            fs = [r.t(f) for f in fs]
        r = self.solver.check(*fs)
        self.stats['solver_s'] += time.time() - t0
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r

    def assume(self, f):
        if is_true(f):
            return
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        for r in reversed(self.renamers):
            f = r.t(f)
        self.solver.add(f)

    def logged(self, kind, f):
        """Outcome of a query; when a path is replayed, the outcome recorded on the path it was forked from."""
        lg = self.log
        if lg is not None:
            if self.lpos < len(lg):
                r = lg[self.lpos]
                if r[0] != kind:
                    raise Unsupported('replay out of step')
                self.lpos += 1
                return r[1]
            r = f()
            if self.log is lg:
                lg.append((kind, r))
                self.lpos += 1
            return r
        return f()

    @property
    def replaying(self):
        return self.log is not None and self.lpos < len(self.log)

    def must(self, f):
        """f holds on the current path (False when unknown)."""
        if is_true(f):
            return True
        if is_false(f):
            return False
        f = simp(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self.logged('must', lambda: self.check(z3.Not(f)) == z3.unsat)

    def may(self, f):
        if is_true(f):
            return True
        if is_false(f):
            return False
        f = simp(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self.logged('may', lambda: self.check(f) != z3.unsat)

    def may_now(self, f):
        if is_true(f):
            return True
        if is_false(f):
            return False
        f = simp(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self.check(f) != z3.unsat

    # ------------------------------------------------------------------ exploration

    def choose(self, conds, why=''):
        """Fork over exhaustive alternatives; returns the index taken."""
        if self.pos < len(self.trace):
            i = self.trace[self.pos]
            self.pos += 1
            self.assume(conds[i])
            return i
        if self.replaying:
            raise Unsupported('replay out of step')
        feas = [i for i, c in enumerate(conds) if self.may_now(c)]
        if not feas:
            raise Infeasible()
        for i in reversed(feas[1:]):
            self.work.append((self.trace[:self.pos] + [i], list(self.log)))
        i = feas[0]
        self.trace = self.trace[:self.pos] + [i]
        self.pos += 1
        self.assume(conds[i])
        return i

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.choose([cond, z3.Not(cond)]) == 0

    def explore(self, run, maxpaths=4000):
        """Run run() along every feasible path from the current state."""
        saved = (self.trace, self.pos, self.work, self.st, self.line, self.ctx, self.log, self.lpos)
        self.ctx = self.ctx + (tuple(self.trace[:self.pos]), self.st.loopno)
        self.work = [([], [])]
        n = 0
        try:
            while self.work:
                prefix, log = self.work.pop()
                self.trace, self.pos = list(prefix), 0
                self.log, self.lpos = log, 0
                self.st = saved[3].copy()
                self.solver.push()
                n += 1
                if n > maxpaths:
                    raise Unsupported('too many paths')
                try:
                    run()
                except Infeasible:
                    pass
                finally:
                    self.solver.pop()
        finally:
            self.trace, self.pos, self.work, self.st, self.line, self.ctx, self.log, self.lpos = saved
        return n

    # ------------------------------------------------------------------ symbols and conversion

    def fname(self, p):
        self.st.nfresh += 1
        return f'{p}!{self.ns}{self.st.nfresh}'

    def fresh_val(self, p='v'):
        return z3.Const(self.fname(p), Val)

    def fresh_int(self, p='i'):
        return z3.Int(self.fname(p))

    def fresh_bool(self, p='b'):
        return z3.Bool(self.fname(p))

    def fresh_fun(self, p, *sorts):
        return z3.Function(self.fname(p), *sorts)

    def fire(self, k, f):
        """Run f at most once per path for key k."""
        if k not in self.st.fired:
            self.st.fired[k] = True
            f()

    def new_id(self):
        root, off = self.st.alloc
        self.st.alloc = (root, off + 1)
        return simp(root + off)

    def alloc_bound(self):
        root, off = self.st.alloc
        return simp(root + off)

    def new_obj(self, cls, exact=True):
        i = self.new_id()
        t = Val.vobj(i)
        self.st.cls_of[key(i)] = (cls, exact)
        return T(t, hint=cls, exact=exact)

    def new_list(self, segs=(), hint=None):
        v = self.new_obj(list)
        i = oid(v.t)
        self.st.lists[key(i)] = (i, Lst(segs))
        return v

    def new_dict(self, d=None, cls=dict):
        v = self.new_obj(cls)
        i = oid(v.t)
        self.st.dicts[key(i)] = (i, d or Dct('empty'))
        return v

    def term(self, v):
        """The Val term of a value."""
        if isinstance(v, T):
            return v.t
        if isinstance(v, z3.ExprRef):
            return v
        if isinstance(v, C):
            if isinstance(v.o, tuple) and not isinstance(v.o, type):
                return self.term(Tup([self.wrap(x) for x in v.o]))
            return lit(v.o)
        if isinstance(v, B):
            return Val.vbool(zbool(v.b))
        if isinstance(v, I):
            return Val.vint(v.i)
        if v is UNBOUND:
            raise Unsupported('unbound local merged')
        # box it
        for k, (bv, bt) in self.boxes.items():
            if bv is v:
                return bt
        i = INTERN_BASE * 10 + len(self.boxes)
        bt = Val.vobj(z3.IntVal(i))
        self.boxes[i] = (v, bt)
        return bt

    def unterm(self, t, hint=None, exact=False, sub=None, meta=None):
        """The most concrete wrapper of a Val term."""
        if not isinstance(t, z3.ExprRef):
            return t
        if z3.is_app(t):
            d = t.decl()
            if d.eq(Val.vnone):
                return C(None)
            if d.eq(Val.vbool):
                b = t.arg(0)
                return C(True) if z3.is_true(b) else C(False) if z3.is_false(b) else B(b)
            if d.eq(Val.vint):
                return C(t.arg(0).as_long()) if z3.is_int_value(t.arg(0)) else I(t.arg(0))
            if d.eq(Val.vstr) and z3.is_int_value(t.arg(0)) and 0 <= t.arg(0).as_long() < len(INTERN.str_list):
                return C(INTERN.str_list[t.arg(0).as_long()])
            if d.eq(Val.vobj) and z3.is_int_value(t.arg(0)):
                n = t.arg(0).as_long()
                if n >= INTERN_BASE * 10:
                    return self.boxes[n][0]
                if n >= INTERN_BASE:
                    return self.wrap(INTERN.objs[n - INTERN_BASE])
            if d.eq(Val.vobj):
                c = self.st.cls_of.get(key(t.arg(0)))
                if c:
                    return T(t, c[0], c[1], sub=sub, meta=meta)
        if hint is None and self.st.thints:
            v = self.st.thints.get(t.get_id())
            if v is not None:
                return T(t, v.hint, v.exact, sub or v.sub, meta or v.meta)
        return T(t, hint, exact, sub, meta)

    def mk(self, t, hint=None, sub=None, meta=None, old=True):
        """A pre-existing (not allocated here) value read from unknown state; adds its well-formedness."""
        v = self.unterm(t, hint, sub=sub, meta=meta)
        if isinstance(v, T) and v.t is t or isinstance(v, T) and v.t.eq(t):
            if hint is not None and v.hint is None:
                v = T(v.t, hint, sub=sub, meta=meta)
            self.wf(v)
        return v

    def wf(self, v):
        t, hint = v.t, v.hint
        if z3.is_app(t) and t.decl().eq(Val.vobj) and is_fresh_id(t.arg(0)):
            return
        k = ('wf', key(t), hint)
        if k in self.st.fired:
            return
        self.st.fired[k] = True
        o = Val.o(t)
        if hint is str:
            f = Val.is_vstr(t)
        elif hint is bool:
            f = Val.is_vbool(t)
        elif hint is int:
            f = Val.is_vint(t)
        elif hint is type:
            f = z3.And(Val.is_vobj(t), z3.Or(o <= 0, z3.And(o >= INTERN_BASE, o < 10 * INTERN_BASE)))
        elif hint is None and self.has_fresh(t):
            f = z3.And(z3.Implies(Val.is_vobj(t), o < 10 * INTERN_BASE), z3.Not(Val.is_vunset(t)))
        elif hint is None:
            f = z3.And(z3.Implies(Val.is_vobj(t), z3.Or(o <= 0, z3.And(o >= INTERN_BASE, o < 10 * INTERN_BASE))),
                       z3.Not(Val.is_vunset(t)))
        elif self.has_fresh(t):
            f = z3.And(Val.is_vobj(t))
        else:
            f = z3.And(Val.is_vobj(t), o <= 0)
        g = self.reg.obj_inv.get(hint)
        if g is not None:
            f = z3.And(f, z3.Implies(o <= 0, g(self, t)))
        self.assume(f)

    def has_fresh(self, t):
        """May the term denote an object allocated during the run (an If over allocated ids)?"""
        seen, todo = set(), [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().eq(Val.vobj) and is_fresh_id(x.arg(0)):
                return True
            if z3.is_app(x) and loop_symbol(x.decl().name()):
                return True
            if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE,):
                todo.extend(x.children()[1:])
        return False

    def wrap(self, o):
        """Wrapper of a concrete Python object reached by name resolution."""
        if isinstance(o, V):
            return o
        if isinstance(o, (list, dict, set)) or type(o).__name__ in self.reg.symbolic_instances:
            return T(lit(o), hint=type(o), exact=True)
        if type(o) is tuple:
            return Tup([self.wrap(x) for x in o])
        return C(o)

    def as_int(self, v):
        if isinstance(v, I):
            return v.i
        if isinstance(v, C) and isinstance(v.o, int):
            return z3.IntVal(int(v.o))
        if isinstance(v, B):
            return z3.If(v.b, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, T):
            if v.hint is int or self.must(Val.is_vint(v.t)):
                return simp(Val.i(v.t))
        raise Unsupported(f'integer expected: {v}')

    def as_str_term(self, v):
        return self.term(v)

    def opaque_str(self, p='s'):
        t = Val.vstr(self.fresh_int(p))
        return T(t, str)

    # ------------------------------------------------------------------ truth, identity, equality

    def truth(self, v):
        """Python truth value as bool or z3 formula."""
        if isinstance(v, C):
            if v.o is self.reg.MISSING:
                return False
            return bool(v.o)
        if isinstance(v, B):
            return v.b
        if isinstance(v, I):
            return simp(v.i != 0)
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, (Fn, BM, Model, Token)):
            return True
        if isinstance(v, View):
            if v.kind in ('keys', 'values', 'items'):
                return self.truth(v.src)
            raise Unsupported('truth of iterator')
        if isinstance(v, Rng):
            return simp(v.hi > v.lo)
        if isinstance(v, T):
            v = self.narrow(v)
            if not isinstance(v, T):
                return self.truth(v)
            h = v.hint
            if h is str:
                return simp(v.t != lit(''))
            if h is bool:
                return simp(Val.b(v.t))
            if h is int:
                return simp(Val.i(v.t) != 0)
            if h is list:
                l = self.get_list(v)
                if any(isinstance(s, Ex) for s in l.segs):
                    return True
                return simp(z3.Or([s.count() > 0 for s in l.segs])) if l.segs else False
            if h is tuple:
                return simp(self.tuple_seq(v).n > 0)
            if h in (dict, set, frozenset, collections.abc.Mapping):
                return self.dict_nonempty(self.get_dict(v))
            if h is not None and h.__module__ != 'collections.abc' and (issubclass(h, BaseException) or h is type or (
                    getattr(h, '__bool__', None) is None and getattr(h, '__len__', None) is None)):
                return True
            f = simp(self.truth_term(v.t))
            if h is not None:
                # a falsy iterable is empty
                bag = z3.Function('inbag', Val, Val, z3.BoolSort())
                for _, k in self.tracked:
                    self.assume(z3.Implies(bag(v.t, k), f))
            return f
        raise Unsupported(f'truth of {v}')

    def truth_term(self, t):
        f = z3.Function('truthy', Val, z3.BoolSort())
        return z3.If(Val.is_vnone(t), False, z3.If(Val.is_vbool(t), Val.b(t), z3.If(
            Val.is_vint(t), Val.i(t) != 0, z3.If(Val.is_vstr(t), t != lit(''), f(t)))))

    def dict_nonempty(self, d):
        if d.kind == 'empty':
            return False
        if d.kind == 'store':
            return True
        memo = self.st.fired.get(('dne', id(d)))
        if memo is not None:
            return memo[0]
        p = self.fresh_bool('nonempty')
        self.st.fired[('dne', id(d))] = (p, d)
        for tag, k in self.tracked:
            if d.tag is None or tag is None or tag == d.tag:
                self.assume(z3.Implies(d.dom(self, k), p))
        for k in d.stored_keys():
            self.assume(z3.Implies(d.dom(self, k), p))
        w = self.fresh_val('w')
        wv = self.mk(w, d.khint)
        self.assume(z3.Implies(p, d.dom(self, w)))
        return p

    def is_(self, a, b):
        """a is b"""
        if isinstance(a, C) and isinstance(b, C):
            x, y = a.o, b.o
            if isinstance(x, (str, int)) and isinstance(y, (str, int)) and not isinstance(x, bool) and not isinstance(y, bool):
                return x == y and type(x) is type(y)
            return x is y
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Tup, Fn, BM, Model, View, Rng, Token)):
                if x is y:
                    return True
                if isinstance(y, T):
                    return simp(self.term(x) == y.t)
                return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, C) and isinstance(x.o, type) and isinstance(y, T) and self.kind(y) is type:
                if y.sub is not None and not issubclass(x.o, y.sub):
                    return False
                if z3.is_app(y.t) and y.t.decl().name() == 'typeof' and x.o is not object:
                    f = self.inst(T(y.t.arg(0)), x.o)
                    if f is False:
                        return False
                    if f is not True:
                        self.assume(z3.Implies(y.t == self.term(x), f))
        ta, tb = self.term(a), self.term(b)
        if ta.eq(tb):
            return True
        return simp(ta == tb)

    def eq_(self, a, b):
        """a == b"""
        if isinstance(a, C) and isinstance(b, C):
            return bool(a.o == b.o)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            return self.conj([self.eq_(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, (I, B)) and isinstance(b, (I, B, C)) or isinstance(b, (I, B)) and isinstance(a, C):
            try:
                return simp(self.as_int(a) == self.as_int(b))
            except Unsupported:
                return False
        if isinstance(a, (Fn, BM, Model)) or isinstance(b, (Fn, BM, Model)):
            return a is b
        ta, tb = self.term(a), self.term(b)
        ha, hb = self.kind(a), self.kind(b)
        if ha is str and hb is str:
            return True if ta.eq(tb) else simp(ta == tb)
        if ha in (int, bool) and hb in (int, bool):
            return simp(self.as_int(a) == self.as_int(b))
        if ha is type or hb is type:
            return True if ta.eq(tb) else simp(ta == tb)
        if (ha is not None and hb is not None and ha is not hb and {ha, hb} & {str, type(None)} and
                {ha, hb} <= {str, int, bool, type(None), list, dict, tuple, set}):
            return False
        for h in (ha, hb):
            if h is not None and isinstance(h, type) and h.__eq__ is object.__eq__ and h.__module__.startswith('oblate'):
                return True if ta.eq(tb) else simp(ta == tb)
        return simp(self.eq_term(ta, tb))

    def eq_term(self, ta, tb):
        if ta.get_id() > tb.get_id():
            ta, tb = tb, ta
        f = z3.Function('pyeq', Val, Val, z3.BoolSort())
        num = lambda t: z3.If(Val.is_vint(t), Val.i(t), z3.If(Val.b(t), 1, 0))
        isn = lambda t: z3.Or(Val.is_vint(t), Val.is_vbool(t))
        simple = lambda t: z3.Or(Val.is_vnone(t), Val.is_vstr(t))
        return z3.If(z3.And(isn(ta), isn(tb)), num(ta) == num(tb),
                     z3.If(z3.And(z3.Or(simple(ta), isn(ta)), z3.Or(simple(tb), isn(tb))), ta == tb, f(ta, tb)))

    def kind(self, v):
        if isinstance(v, C):
            return type if isinstance(v.o, type) else type(v.o)
        if isinstance(v, B):
            return bool
        if isinstance(v, I):
            return int
        if isinstance(v, Tup):
            return tuple
        if isinstance(v, T):
            return v.hint
        return None

    @staticmethod
    def conj(xs):
        if any(is_false(x) for x in xs):
            return False
        xs = [zbool(x) for x in xs if not is_true(x)]
        return True if not xs else xs[0] if len(xs) == 1 else z3.And(xs)

    @staticmethod
    def disj(xs):
        if any(is_true(x) for x in xs):
            return True
        xs = [zbool(x) for x in xs if not is_false(x)]
        return False if not xs else xs[0] if len(xs) == 1 else z3.Or(xs)

    @staticmethod
    def neg(x):
        return (not x) if isinstance(x, bool) else simp(z3.Not(x))

    # ------------------------------------------------------------------ classes

    def inst(self, v, cls):
        """isinstance(v, cls) for a concrete class cls, as bool or formula."""
        if isinstance(v, C):
            return isinstance(v.o, cls)
        if isinstance(v, B):
            return issubclass(bool, cls)
        if isinstance(v, I):
            return issubclass(int, cls)
        if isinstance(v, Tup):
            return issubclass(tuple, cls)
        if isinstance(v, (Fn, BM, Model)):
            return cls in (object, collections.abc.Callable)
        if not isinstance(v, T):
            return cls is object
        if cls is object:
            return True
        if v.hint is not None and v.hint is not type:
            if issubclass(v.hint, cls):
                return True
            if v.exact:
                return False
            if classes_disjoint(v.hint, cls):
                return False
        elif v.hint is type:
            return issubclass(type, cls) or (cls.__module__ == 'oblate.schema' and issubclass(cls, type) and self.inst_uf(v.t, cls))
        return self.inst_term(v.t, cls, v)

    def inst_uf(self, t, cls):
        f = z3.Function(f'inst:{cls.__module__}.{cls.__qualname__}', Val, z3.BoolSort())
        return f(t)

    def inst_term(self, t, cls, v=None):
        k = key(t)
        q = self.st.inst_q.setdefault(k, {})
        if cls not in q:
            u = self.inst_uf(t, cls)
            for c2 in [c for c in q if isinstance(c, type)]:
                u2 = self.inst_uf(t, c2)
                if issubclass(cls, c2):
                    self.assume(z3.Implies(u, u2))
                if issubclass(c2, cls):
                    self.assume(z3.Implies(u2, u))
                if classes_disjoint(cls, c2):
                    self.assume(z3.Not(z3.And(u, u2)))
            q[cls] = t
            f = self.reg.obj_inv.get(cls)
            if f is not None:
                # (none of them is a constant of the program)
                self.assume(z3.Implies(z3.And(Val.is_vobj(t), u), z3.And(oid(t) < INTERN_BASE, z3.Implies(oid(t) <= 0, f(self, t)))))
            if v is not None and v.hint is not None and v.hint not in q and isinstance(v.hint, type):
                self.assume(self.inst_uf(t, v.hint))
                if issubclass(cls, v.hint):
                    pass
        isub = issubclass
        u = z3.BoolVal(False) if cls in (bool, type(None)) else self.inst_uf(t, cls)        # (which have no subclasses)
        r = z3.If(Val.is_vnone(t), isub(type(None), cls), z3.If(Val.is_vbool(t), isub(bool, cls), z3.If(
            Val.is_vint(t), isub(int, cls), z3.If(Val.is_vstr(t), isub(str, cls), u))))
        return simp(r)

    NARROW = (dict, list, set, frozenset, tuple, str)

    def narrow(self, v):
        """Add what isinstance tests on this path entail about an unhinted value."""
        if not isinstance(v, T) or v.hint is not None:
            return v
        q = self.st.inst_q.get(key(v.t), {})
        best = None
        for cls in q:
            if cls in (object, collections.abc.Callable):
                continue
            if isinstance(cls, tuple):
                # issubclass(value, cls)
                memo = ('nar', key(v.t), cls)
                if memo in self.st.fired or self.must(z3.And(Val.is_vobj(v.t), z3.Function('isclass', Val, z3.BoolSort())(v.t), q[cls])):
                    self.st.fired[memo] = True
                    return T(v.t, type, False, cls[1], v.meta)
                continue
            memo = ('nar', key(v.t), cls)
            if memo in self.st.fired:
                ok = True
            else:
                ok = self.must(self.inst_term(v.t, cls))
                if ok:
                    self.st.fired[memo] = True
            if ok and (best is None or issubclass(cls, best) or best in (str, int)):
                best = cls
        if best is None:
            for cls, test in ((type(None), Val.is_vnone), (str, Val.is_vstr), (bool, Val.is_vbool), (int, Val.is_vint)):
                memo = ('nar', key(v.t), cls)
                if memo in self.st.fired:
                    best = cls
        if best in (int, str):
            # subclass objects stay opaque: only narrow to the primitive when it is one
            prim = Val.is_vint(v.t) if best is int else Val.is_vstr(v.t)
            if not self.must(prim):
                return v
        if best is type(None):
            return C(None)
        if best is None:
            return v
        return T(v.t, best, False, v.sub, v.meta)

    def class_of(self, v):
        """type(v)"""
        if isinstance(v, C):
            return C(type(v.o))
        if isinstance(v, (B, I, Tup)):
            return C({B: bool, I: int, Tup: tuple}[type(v)])
        if isinstance(v, T):
            if v.exact:
                return C(v.hint)
            if z3.is_app(v.t) and v.t.decl().eq(Val.vobj):
                c = self.st.cls_of.get(key(v.t.arg(0)))
                if c and c[1]:
                    return C(c[0])
            f = z3.Function('typeof', Val, Val)
            return self.mk(f(v.t), type, sub=v.hint or object)
        if isinstance(v, (Fn,)):
            return C(types.FunctionType)
        raise Unsupported(f'type of {v}')

    # ------------------------------------------------------------------ containers

    def alias(self, table, i, write):
        """Find the state entry of object id i in table, forking on aliasing with entries already there."""
        k = key(i)
        if k in table:
            return k
        own = self.st.owner.get(k)
        for k2, (i2, _) in list(table.items()):
            if ids_distinct(i, i2):
                continue
            own2 = self.st.owner.get(k2)
            if own and own2:
                if own[0] != own2[0]:
                    continue
                if own[1] is not None:
                    c = simp(own[1] == own2[1])
                else:
                    c = simp(i == i2)
            elif (own or own2) and (is_fresh_id(i) or is_fresh_id(i2)):
                continue            # owned containers of the pre-state are never freshly allocated
            elif own or own2:
                continue            # private containers of the library are not reachable as user data
            else:
                c = simp(i == i2)
            if self.branch(c):
                return k2
        return None

    def get_list(self, v):
        i = oid(v.t)
        k = self.alias(self.st.lists, i, False)
        if k is None:
            meta = v.meta or {}
            l = Lst([Slice(self.base_seq(i, meta.get('ehint'), meta.get('tag'), meta.get('elem')))])
            for a in l.seg_assumptions():
                self.assume(a)
            self.st.lists[key(i)] = (i, l)
            return l
        return self.st.lists[k][1]

    def version_of(self, i):
        """Loops whose iterations modify containers of their own leave the unknown allocated ones in a new version."""
        v = self.st.version
        return v if v and self.may(z3.And(i >= 1, i < INTERN_BASE)) else ''

    def base_seq(self, i, ehint=None, tag=None, elem=None):
        memo = self.seq_memo = getattr(self, 'seq_memo', {})
        ver = self.version_of(i)
        mk = (key(i), ehint, tag, ver)
        if mk not in memo:
            n = z3.Function('len' + ver, z3.IntSort(), z3.IntSort())(i)
            f = z3.Function('item' + ver, z3.IntSort(), z3.IntSort(), Val)

            def item(ex, j):
                v = ex.mk(f(i, j), ehint)
                if elem:
                    ex.fire(('elem', key(i), key(j)), lambda: elem(ex, v, j))
                return v
            memo[mk] = Seq(n, item, tag=tag, meta={'id': i})
        s = memo[mk]
        self.assume(s.n >= 0)
        return s

    def tuple_seq(self, v):
        """Unknown tuples are immutable sequences."""
        meta = v.meta or {}
        return self.base_seq(oid(v.t), meta.get('ehint'), meta.get('tag'), meta.get('elem'))

    def set_list(self, v, l):
        i = oid(v.t)
        k = self.alias(self.st.lists, i, True)
        if k is None:
            k = key(i)
        else:
            i = self.st.lists[k][0]
        self.confine('list', i)
        self.effect(i)
        self.st.lists[k] = (i, l)

    def get_dict(self, v):
        i = oid(v.t)
        k = self.alias(self.st.dicts, i, False)
        if k is None:
            d = self.base_dict(i, v.meta or {})
            self.st.dicts[key(i)] = (i, d)
            return d
        return self.st.dicts[k][1]

    def base_dict(self, i, meta):
        memo = self.dict_memo = getattr(self, 'dict_memo', {})
        ver = self.version_of(i)
        mk = (key(i), ver)
        if mk not in memo:
            df = z3.Function('dom' + ver, z3.IntSort(), Val, z3.BoolSort())
            vf = z3.Function('get' + ver, z3.IntSort(), Val, Val)
            memo[mk] = Dct('base', domf=lambda k: df(i, k), valf=lambda k: vf(i, k), tag=meta.get('tag'), hook=self.owned_hook(meta),
                           khint=meta.get('khint'), vhint=meta.get('vhint'))
        return memo[mk]

    def owned_hook(self, meta):
        h, o = meta.get('hook'), meta.get('owner')
        return h and (lambda ex, d, k: h(ex, d, k, o))

    def set_dict(self, v, d):
        i = oid(v.t)
        k = self.alias(self.st.dicts, i, True)
        if k is None:
            k = key(i)
        else:
            i = self.st.dicts[k][0]
        iv = self.opts.get('dict_inv', {}).get(d.tag)
        if iv is not None and not self.opts.get('dict_inv_assumed'):
            old = self.st.dicts[k][1] if k in self.st.dicts else self.base_dict(i, v.meta or {})
            for u in d.since(old) or ():
                if u.kind == 'store':
                    self.oblige(f'data invariant of the {d.tag} table', zbool(iv(self, u.k, self.term(u.v))), self.opts.get('dict_inv_prop'))
                elif u.kind not in ('del', 'popped'):
                    raise Unsupported('update of a table with a data invariant')
        self.confine('dict', i)
        self.effect(i)
        self.st.dicts[k] = (i, d)

    def dict_value(self, d, k):
        """The value stored under key term k (membership known)."""
        r = d.val(self, k)
        if isinstance(r, V):
            if not (isinstance(r, T) and r.hint is None and d.tag in self.opts.get('dict_inv', {})):
                return r
            r = r.t          # the class of the values is part of the data invariant, obliged at the store
        return self.mk_hint(r, d.vhint if d.vhint is not None else self.opts.get('dict_inv_hint', {}).get(d.tag))

    def mk_hint(self, t, h):
        if h is None or isinstance(h, type):
            return self.mk(t, h)
        return self.reg.apply_hint(self, t, h)

    # ------------------------------------------------------------------ attributes

    def mem(self, name):
        m = self.st.attrs.get(name)
        if m is None:
            memo = self.mem_memo = getattr(self, 'mem_memo', {})
            if name not in memo:
                f = z3.Function('a:' + name, z3.IntSort(), Val)
                memo[name] = Mem('base', f=lambda i, f=f: Val.vunset if is_fresh_id(i) else f(i))
            m = self.st.attrs[name] = memo[name]
        return m

    def resolve(self, t):
        """A conditional term whose condition is decided here."""
        while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            if self.must(t.arg(0)):
                t = t.arg(1)
            elif self.must(z3.Not(t.arg(0))):
                t = t.arg(2)
            else:
                break
        return t

    def read_attr(self, v, name, owner_cls=None):
        """Instance attribute as V, or None when it is unset."""
        i = oid(v.t)
        t = self.resolve(self.mem(name).select(i))
        if t.eq(Val.vunset):
            return None
        h = self.reg.attr_hint(owner_cls or v.hint, name)
        maybe = bool(h and h.get('maybe'))
        if has_unset(t) or maybe:
            if self.branch(simp(Val.is_vunset(t))):
                return None
        if h is None:
            return self.mk(t) if not is_fresh_id(i) else self.unterm_w(t)
        return self.reg.apply_hint(self, t, h, owner=(name, i))

    def unterm_w(self, t):
        v = self.unterm(t)
        if isinstance(v, T):
            self.wf(v)
        return v

    def write_attr(self, v, name, val):
        i = oid(v.t)
        t = self.term(val)
        if isinstance(val, T) and val.hint is dict and is_fresh_id(oid(val.t)):
            # a new table takes the description of the attribute
            h, d = self.reg.attr_hint(v.sub if v.hint is type else v.hint, name), self.get_dict(val)
            if h is not None and h.cls is dict and d.kind == 'empty' and d.tag is None and d.vhint is None:
                self.st.dicts[key(oid(val.t))] = (oid(val.t), Dct('empty', tag=h.get('tag'), khint=h.get('khint'), vhint=h.get('vhint')))
        # remember the hint of stored unknown values through the id table
        if isinstance(val, T) and val.hint is not None and z3.is_app(val.t) and val.t.decl().eq(Val.vobj):
            self.st.cls_of.setdefault(key(val.t.arg(0)), (val.hint, val.exact))
        elif isinstance(val, T) and val.hint is not None:
            self.st.thints.setdefault(key(val.t), val)
        guard = self.opts.get('attr_guard', {}).get(name)
        if guard is not None:
            # the data invariants mention this attribute
            self.oblige(f'{name} is not changed under a table', zbool(guard(self, i, self.mem(name).select(i), t)), self.opts.get('dict_inv_prop'))
        self.confine(name, i)
        self.effect(i)
        self.st.attrs[name] = Mem('store', prev=self.mem(name), idx=i, val=t)

    def effect(self, i):
        """A write that an enclosing generator, run at once here, would make later."""
        g = self.gen_start
        if g is not None and is_fresh_id(i):
            r = fresh_root(i)
            if r is not None and r[0] == g[0] and r[1] >= g[1]:
                return
        self.neff += 1

    def mark_start(self):
        """An operation starts: what is allocated from here on is its own."""
        self.op_bound = self.alloc_bound()
        self.op_start = fresh_root(self.op_bound)

    def since_start(self, i):
        r, g = fresh_root(i), self.op_start
        if r is None or g is None:
            return False
        if r[0] == g[0]:
            return r[1] >= g[1]
        return g[0] == ''           # (other roots come from loops; the solver decides for later starts)

    def confine(self, what, i):
        """Confinement of writes (C22): only objects of this operation are written."""
        if not self.opts.get('confine') or not self.depth or i is not None and is_fresh_id(i) and self.since_start(i):
            return
        allow = self.opts.get('confined')
        mine = [] if i is None else [z3.And(i >= self.op_bound, i < INTERN_BASE)]        # allocated by the operation
        if i is not None and allow is not None:
            mine.append(zbool(allow(self, what, i)))
        if not (mine and self.must(z3.Or(mine))):
            self.oblige(f'no shared object is written: {what}', z3.Or(mine) if mine else False, 'C22', self.line)

    def raise_(self, cls, *args):
        """Raise a builtin exception of the modelled code."""
        raise PyRaise(self.new_exc(cls, *args))

    def new_exc(self, cls, *args):
        e = self.new_obj(cls)
        self.write_attr(e, 'args', Tup(args))
        return e

    def find_static(self, cls, name):
        try:
            return inspect.getattr_static(cls, name)
        except AttributeError:
            return NOTFOUND

    def getattr(self, v, name, default=NotImplemented):
        r = self.getattr0(v, name)
        if r is None:
            if default is not NotImplemented:
                return default
            self.raise_(AttributeError, C(name))
        return r

    def getattr0(self, v, name):
        if isinstance(v, Super):
            return self.super_attr(v, name)
        if isinstance(v, C):
            o = v.o
            m = self.reg.attr_model(self, v, name)
            if m is not None:
                return m
            if isinstance(o, (list, dict, set, collections.deque)) and name in MUTATORS:
                self.confine(f'a {type(o).__name__} of the module or class', None)
            if isinstance(o, str) or isinstance(o, (bool, int)) and o is not None:
                return self.str_method(v, name) if isinstance(o, str) else None
            st = None
            if isinstance(o, type):
                for k in o.__mro__:
                    if name in k.__dict__:
                        st = k.__dict__[name]
                        break
                if name == '__name__':
                    return C(o.__name__)
                if o is dict and name == 'fromkeys':
                    return Model(self.reg.dict_fromkeys, 'dict.fromkeys')
                if isinstance(st, classmethod):
                    return BM(C(st.__func__), v, name)
                if isinstance(st, staticmethod):
                    return C(st.__func__)
                if isinstance(st, types.FunctionType):
                    return C(st)
            try:
                return self.wrap(getattr(o, name))
            except AttributeError:
                return None
        if isinstance(v, (Fn,)):
            if name in ('__name__', '__qualname__', '__doc__'):
                return C(v.name)
            return self.boxed_attr(v, name)
        if isinstance(v, (Tup, I, B, View, Rng, BM, Model)):
            m = self.reg.attr_model(self, v, name)
            if m is not None:
                return m
            if isinstance(v, BM) and name == '__func__':
                return v.fn
            raise Unsupported(f'attribute {name} of {v}')
        if not isinstance(v, T):
            raise Unsupported(f'attribute {name} of {v}')
        v = self.narrow(v)
        if not isinstance(v, T):
            return self.getattr0(v, name)
        if name == '__class__':
            return self.class_of(v)
        m = self.reg.attr_model(self, v, name)
        if m is not None:
            return m
        h = v.hint
        if h is str:
            return self.str_method(v, name)
        if h is type:
            return self.type_attr(v, name)
        if h is None:
            return self.reg.unknown_attr(self, v, name)
        if h in (list, dict, set, frozenset, tuple, collections.abc.Mapping):
            return self.reg.container_method(self, v, name)
        st = self.find_static(h, name)
        if isinstance(st, property):
            return self.call(C(st.fget), [v], {})
        if isinstance(st, types.FunctionType):
            return BM(C(st), v, name)
        if isinstance(st, classmethod):
            return BM(C(st.__func__), self.class_of(v), name)
        if isinstance(st, staticmethod):
            return C(st.__func__)
        if st is not NOTFOUND and not isinstance(st, (types.MemberDescriptorType, types.GetSetDescriptorType)):
            g = self.find_static(type(st), '__get__')
            if isinstance(g, types.FunctionType):
                return self.call(C(g), [C(st), v, self.class_of(v)], {})
            if name in self.reg.class_attrs:
                return self.type_attr(self.class_of(v), name)
            if isinstance(st, (types.WrapperDescriptorType, types.MethodDescriptorType, types.BuiltinFunctionType, types.ClassMethodDescriptorType)):
                return BM(C(st), v, name)
            i = oid(v.t)
            if isinstance(st, str) and name.isupper():
                return C(st)            # constants of the class (error codes): not overridden
            if v.exact or is_fresh_id(i):
                r = self.read_attr(v, name)
                return self.wrap(st) if r is None else r
            return self.read_attr(v, name)
        if name in self.reg.class_attrs:
            return self.type_attr(self.class_of(v), name)
        r = self.read_attr(v, name)
        return r

    def boxed_attr(self, v, name):
        """Attributes set on function objects."""
        t = self.mem(name).select(oid(self.term(v)))
        if has_unset(t) or True:
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1:
                return None
        return self.unterm_w(t)

    def type_attr(self, v, name):
        """Attribute of a class object."""
        if isinstance(v, C):
            if name in self.reg.class_attrs and name not in ('__config__',):
                return self.read_attr(T(lit(v.o), type), name, owner_cls=type)
            return self.getattr0(v, name)
        if name in ('__name__', '__qualname__', '__module__'):
            f = z3.Function('a:' + name, z3.IntSort(), Val)
            return self.mk(f(oid(v.t)), str)
        if name == '__class__':
            return C(type)
        if name in self.reg.class_attrs or (v.sub is not None and self.reg.attr_hint(v.sub, name)):
            return self.read_attr(v, name, owner_cls=v.sub)
        if v.sub is not None:
            st = self.find_static(v.sub, name)
            if isinstance(st, types.FunctionType):
                return C(st)
            if isinstance(st, classmethod):
                return BM(C(st.__func__), v, name)
            if isinstance(st, staticmethod):
                return C(st.__func__)
            if st is not NOTFOUND:
                return self.read_attr(v, name, owner_cls=v.sub)
        return self.reg.unknown_attr(self, v, name)

    def super_attr(self, v, name):
        self_cls = None
        s = v.self_
        if isinstance(s, T) and s.hint is type:
            self_cls, target = s.sub, s
        elif isinstance(s, C) and isinstance(s.o, type):
            self_cls, target = s.o, s
        elif isinstance(s, T):
            self_cls, target = s.hint, s
        else:
            raise Unsupported('super')
        mro = self_cls.__mro__ if self_cls and v.cls in self_cls.__mro__ else v.cls.__mro__
        start = mro.index(v.cls) + 1
        for k in mro[start:]:
            if name in k.__dict__:
                st = k.__dict__[name]
                if isinstance(st, types.FunctionType):
                    return BM(C(st), target, name)
                if isinstance(st, classmethod):
                    return BM(C(st.__func__), target, name)
                if isinstance(st, staticmethod):
                    return C(st.__func__)
                if name == '__new__':
                    return C(st)
                return BM(C(st), target, name)
        return None

    def setattr(self, v, name, val):
        if isinstance(v, T):
            v = self.narrow(v)
        if isinstance(v, T) and v.hint is not None and v.hint is not type:
            st = self.find_static(v.hint, name)
            if isinstance(st, property):
                if st.fset is None:
                    self.raise_(AttributeError, C(name))
                self.call(C(st.fset), [v, val], {})
                return
            if st is not NOTFOUND and not isinstance(st, (types.MemberDescriptorType, types.GetSetDescriptorType)):
                g = self.find_static(type(st), '__set__')
                if isinstance(g, types.FunctionType):
                    self.call(C(g), [C(st), v, val], {})
                    return
            self.write_attr(v, name, val)
            return
        if isinstance(v, T):
            if v.hint is type:
                self.reg.class_setattr(self, v, name, val)
            else:
                self.write_attr(v, name, val)
            return
        if isinstance(v, (Fn,)):
            self.confine(name, oid(self.term(v)) if v.frame is None else z3.IntVal(1))
            self.st.attrs[name] = Mem('store', prev=self.mem(name), idx=oid(self.term(v)), val=self.term(val))
            return
        if isinstance(v, C):
            t = lit(v.o)
            if isinstance(v.o, threading.local):            # (of the thread, like a context variable)
                self.neff += 1
                self.st.attrs[name] = Mem('store', prev=self.mem(name), idx=oid(t), val=self.term(val))
                return
            self.write_attr(T(t, type if isinstance(v.o, type) else None), name, val)
            return
        raise Unsupported(f'attribute assignment on {v}')

    def str_method(self, v, name):
        return self.reg.str_method(self, v, name)

    # ------------------------------------------------------------------ calls

    def call(self, f, args, kwargs):
        self.st.steps += 1
        if isinstance(f, BM):
            return self.call_bound(f, args, kwargs)
        if isinstance(f, Model):
            return f.f(self, args, kwargs)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs)
        if isinstance(f, C):
            return self.call_concrete(f.o, args, kwargs)
        if isinstance(f, T):
            self.neff += 1
            return self.reg.call_unknown(self, f, args, kwargs)
        raise Unsupported(f'call of {f}')

    def call_bound(self, f, args, kwargs):
        fn = f.fn
        if isinstance(fn, C) and isinstance(fn.o, types.FunctionType):
            v = self.reg.virtual(self, f, args, kwargs)
            if v is not None:
                self.neff += 1
                return v
        return self.call(fn, [f.self_] + list(args), kwargs)

    def call_concrete(self, o, args, kwargs):
        m = self.reg.models.get(id(o))
        if m is not None:
            return m(self, args, kwargs)
        if isinstance(o, types.FunctionType):
            path = o.__code__.co_filename
            if path == contextlib.__file__ and hasattr(o, '__wrapped__') and isinstance(o.__wrapped__, types.FunctionType):
                return GenCM(fn_from_real(o.__wrapped__), list(args), dict(kwargs))
            if self.reg.in_scope(path):
                return self.call_fn(fn_from_real(o), args, kwargs)
            raise Unsupported(f'call of external function {o.__module__}.{o.__qualname__}')
        if isinstance(o, types.MethodType):
            return self.call_bound(BM(C(o.__func__), self.wrap(o.__self__), o.__name__), args, kwargs)
        if isinstance(o, type):
            return self.instantiate(C(o), args, kwargs)
        raise Unsupported(f'call of {o!r}')

    def instantiate(self, c, args, kwargs):
        o = c.o
        if not self.reg.in_scope_class(o):
            if issubclass(o, BaseException):
                return self.new_exc(o, *args)
            raise Unsupported(f'instantiation of {o!r}')
        con = self.reg.contract_for(self, o)
        if con is not None:
            return con(self, args, kwargs)
        if not self.depth:
            self.mark_start()
        v = self.new_obj(o)
        init = self.find_static(o, '__init__')
        if isinstance(init, types.FunctionType):
            self.op_open = not self.depth
            try:
                self.call(BM(C(init), v, '__init__'), args, kwargs)
            finally:
                self.op_open = False
        elif issubclass(o, BaseException):
            self.write_attr(v, 'args', Tup(args))
        elif args or kwargs:
            raise Unsupported(f'arguments to {o!r}')
        return v

    def bind(self, f, args, kwargs):
        a = f.node.args
        env = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        if len(args) > len(pos) and not a.vararg:
            self.raise_(TypeError, C('too many arguments'))
        for n, v in zip(pos, args):
            env[n] = v
        if a.vararg:
            rest = args[len(pos):]
            if len(rest) == 1 and isinstance(rest[0], StarRest):
                env[a.vararg.arg] = rest[0].v
            elif any(isinstance(x, StarRest) for x in args):
                raise Unsupported('unknown * arguments')
            else:
                env[a.vararg.arg] = Tup(rest)
        elif any(isinstance(x, StarRest) for x in args):
            raise Unsupported('unknown * arguments')
        extra = {}
        kwo = [p.arg for p in a.kwonlyargs]
        ponly = {p.arg for p in a.posonlyargs}
        for n, v in kwargs.items():
            if n == '**':
                continue
            if n in env and n not in ponly:
                self.raise_(TypeError, C(f'multiple values for {n}'))
            if (n in pos and n not in ponly) or n in kwo:
                env[n] = v
            elif a.kwarg:
                extra[n] = v
            else:
                self.raise_(TypeError, C(f'unexpected keyword {n}'))
        star = kwargs.get('**')
        if a.kwarg:
            env[a.kwarg.arg] = KwRest(extra, star)
        elif star is not None:
            # unknown keyword arguments: any parameter not given explicitly may come from them
            raise Unsupported('unknown ** arguments')
        nd = len(f.defaults)
        for n, d in zip(pos[len(pos) - nd:], f.defaults):
            if n not in env:
                env[n] = self.wrap(d)
        for n, d in f.kwdefaults.items():
            if n not in env:
                env[n] = self.wrap(d)
        for n in pos + kwo:
            if n not in env:
                self.raise_(TypeError, C(f'missing argument {n}'))
        return env

    def frame_id(self, name):
        n = len(self.st.frames)
        while (name, n) in self.st.frames:
            n += 1
        return (name, n)

    def call_fn(self, f, args, kwargs):
        real = f.real
        if real is not None:
            con = self.reg.contract_for(self, real)
            if con is not None:
                env = self.bind(f, args, kwargs)
                r = con(self, env)
                if r is not NotImplemented:         # (a recursive function: the outermost call is the one verified)
                    self.used_contracts.add(real.__qualname__)
                    return r
            self.inlined.add(real.__qualname__)
        env = self.bind(f, args, kwargs)
        if self.depth > 40:
            raise Unsupported(f'unbounded recursion in {f.name} (needs a contract)')
        fid = self.frame_id(f.name)
        self.st.frames[fid] = env
        frame = Frame(fid, f)
        if not self.depth and not self.op_open:
            self.mark_start()
        self.depth += 1
        line = self.line
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, frame)
            gen = getattr(f.node, '_gen', None)
            if gen is None:
                gen = f.node._gen = any(has_yield(s) for s in f.node.body if not isinstance(s, ast.FunctionDef))
            if gen:
                before, outer = self.neff, self.gen_start
                self.gen_start = fresh_root(self.alloc_bound())
                out = self.new_list()
                env['<yield>'] = out
                try:
                    self.exec_block(f.node.body, frame)
                except ReturnSig:
                    pass
                finally:
                    self.gen_start = outer
                if self.neff != before:
                    raise Unsupported('a generator with side effects')      # it is run at once, not lazily
                return out
            try:
                self.exec_block(f.node.body, frame)
            except ReturnSig as r:
                return r.v
            return C(None)
        finally:
            self.depth -= 1
            self.line = line
            if not captures(f.node):
                self.st.frames.pop(fid, None)

    # ------------------------------------------------------------------ names

    def lookup(self, name, frame):
        f = frame
        while f is not None:
            env = self.st.frames[f.fid]
            if name in env:
                v = env[name]
                if v is UNBOUND:
                    if self.branch(self.fresh_bool('unbound')):
                        self.raise_(UnboundLocalError, C(name))
                    v = env[name] = self.mk(self.fresh_val(name))
                return v
            if name in f.fn.cells:
                return self.wrap(f.fn.cells[name])
            if f.is_local(name):
                self.raise_(UnboundLocalError, C(name))
            if f.fn.frame is None:
                break
            f = f.fn.frame
        g = (f or frame).fn.glob
        if name in g:
            return self.reg.global_value(self, g, name)
        if hasattr(_bi, name):
            return C(getattr(_bi, name))
        self.raise_(NameError, C(name))

    def set_local(self, name, v, frame):
        self.st.frames[frame.fid][name] = v

    # ------------------------------------------------------------------ statements

    def exec_block(self, stmts, frame):
        for s in stmts:
            self.exec(s, frame)

    def exec(self, s, frame):
        self.st.steps += 1
        if self.st.steps > self.MAXSTEPS:
            raise Unsupported('step limit')
        self.line = (frame.fn.name, getattr(s, 'lineno', 0))
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__} at line {s.lineno}')
        m(s, frame)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Return(self, s, fr):
        raise ReturnSig(self.eval(s.value, fr) if s.value else C(None))

    def x_Break(self, s, fr):
        raise BreakSig()

    def x_Continue(self, s, fr):
        raise ContinueSig()

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        cur = self.eval(ast.copy_location(_load(s.target), s), fr)
        val = self.eval(s.value, fr)
        r = self.reg.inplace(self, s.op, cur, val)
        if r is None:
            r = self.binop(s.op, cur, val)
        self.assign(s.target, r, fr)

    def x_If(self, s, fr):
        if self.branch(self.truth(self.eval(s.test, fr))):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def x_Assert(self, s, fr):
        if not self.branch(self.truth(self.eval(s.test, fr))):
            self.raise_(AssertionError, *([self.eval(s.msg, fr)] if s.msg else []))

    def x_Raise(self, s, fr):
        if s.exc is None:
            if not self.st.excs:
                self.raise_(RuntimeError, C('No active exception'))
            raise PyRaise(self.st.excs[-1])
        v = self.eval(s.exc, fr)
        if s.cause is not None:
            self.eval(s.cause, fr)
        if isinstance(v, C) and isinstance(v.o, type) or isinstance(v, T) and v.hint is type:
            v = self.call(v, [], {})
        raise PyRaise(v)

    def x_Try(self, s, fr):
        try:
            try:
                self.exec_block(s.body, fr)
            except PyRaise as r:
                self.handle(s, r, fr)
            else:
                self.exec_block(s.orelse, fr)
        except (PyRaise, ReturnSig, BreakSig, ContinueSig):
            if s.finalbody:
                saved = self.st.excs
                self.exec_block(s.finalbody, fr)
                self.st.excs = saved
            raise
        else:
            self.exec_block(s.finalbody, fr)

    def handle(self, s, r, fr):
        for h in s.handlers:
            if h.type is None:
                match = True
            else:
                match = self.isinstance_v(r.exc, self.eval(h.type, fr))
            if self.branch(match):
                self.st.excs = self.st.excs + (r.exc,)
                if h.name:
                    self.set_local(h.name, r.exc, fr)
                try:
                    self.exec_block(h.body, fr)
                finally:
                    if self.st.excs and self.st.excs[-1] is r.exc:
                        self.st.excs = self.st.excs[:-1]
                if h.name:
                    self.st.frames[fr.fid].pop(h.name, None)
                return
        raise r

    def x_FunctionDef(self, s, fr):
        f = Fn(s, fr.fn.glob, frame=fr, name=s.name, mangle=fr.fn.mangle,
               defaults=[self.eval(d, fr) for d in s.args.defaults],
               kwdefaults={a.arg: self.eval(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None})
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, fr), [v], {})
        self.set_local(s.name, v, fr)

    def x_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname:
                self.set_local(a.asname, C(m), fr)
            else:
                self.set_local(a.name.split('.')[0], C(importlib.import_module(a.name.split('.')[0])), fr)

    def x_ImportFrom(self, s, fr):
        import importlib
        m = importlib.import_module(('.' * s.level) + (s.module or ''), fr.fn.glob.get('__package__'))
        for a in s.names:
            self.set_local(a.asname or a.name, self.reg.global_value(self, vars(m), a.name), fr)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.frames[fr.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.reg.delitem(self, self.eval(t.value, fr), self.eval(t.slice, fr))
            else:
                raise Unsupported('del')

    def x_Global(self, s, fr):
        if any(isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in s.names for x in ast.walk(fr.fn.node)):
            self.confine('variable of the module', None)
        raise Unsupported('global')

    def x_Nonlocal(self, s, fr):
        raise Unsupported('nonlocal')

    def x_With(self, s, fr):
        self.with_items(list(s.items), lambda: self.exec_block(s.body, fr), fr)

    def with_items(self, items, body, fr):
        if not items:
            return body()
        it = items[0]
        cm = self.eval(it.context_expr, fr)

        def inner(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            self.with_items(items[1:], body, fr)
        if isinstance(cm, GenCM):
            return self.with_generator(cm, inner)
        if isinstance(cm, C) and type(cm.o).__module__ == '_thread':
            return inner(C(True))           # a lock: no effect in a sequential execution
        if isinstance(cm, C) and isinstance(cm.o, contextlib.nullcontext):
            return inner(self.wrap(cm.o.enter_result))
        if isinstance(cm, SuppressCM):
            try:
                return inner(C(None))
            except PyRaise as r:
                for c in cm.classes:
                    if self.branch(self.isinstance_v(r.exc, c)):
                        return
                raise
        if isinstance(cm, T):
            cm = self.narrow(cm)
        if not (isinstance(cm, T) and cm.hint is not None and self.reg.in_scope_class(cm.hint)):
            raise Unsupported(f'with {cm}')
        exit_ = self.getattr(cm, '__exit__')
        none = C(None)
        v = self.call(self.getattr(cm, '__enter__'), [], {})
        try:
            inner(v)
        except PyRaise as r:
            self.st.excs = self.st.excs + (r.exc,)
            try:
                sup = self.branch(self.truth(self.call(exit_, [self.class_of(r.exc), r.exc, none], {})))
            finally:
                if self.st.excs and self.st.excs[-1] is r.exc:
                    self.st.excs = self.st.excs[:-1]
            if not sup:
                raise
        except (ReturnSig, BreakSig, ContinueSig):
            self.call(exit_, [none, none, none], {})
            raise
        else:
            self.call(exit_, [none, none, none], {})

    def with_generator(self, cm, inner):
        """contextlib.contextmanager: the generator runs around the block, which takes the place of its yield."""
        f, sig, n = cm.fn, [], []
        env = self.bind(f, cm.args, cm.kwargs)
        fid = self.frame_id(f.name)

        def at_yield(v):
            if n:
                raise Unsupported('a context manager that yields twice')
            n.append(1)
            hook = env.pop('<with>')
            try:
                inner(v)
            except (ReturnSig, BreakSig, ContinueSig) as r:
                sig.append(r)
            finally:
                env2 = self.st.frames.get(fid)
                if env2 is not None:
                    env2['<with>'] = hook
        env['<with>'] = at_yield
        self.st.frames[fid] = env
        if f.real is not None:
            self.inlined.add(f.real.__qualname__)
        self.depth += 1
        line = self.line
        try:
            self.exec_block(f.node.body, Frame(fid, f))
        except ReturnSig:
            pass
        finally:
            self.depth -= 1
            self.line = line
            if not captures(f.node):
                self.st.frames.pop(fid, None)
        if not n:
            raise Unsupported('a context manager that does not yield')
        if sig:
            raise sig[0]

    def x_For(self, s, fr):
        it = self.eval(s.iter, fr)
        self.loop(it, lambda v: self.assign(s.target, v, fr), lambda: self.exec_block(s.body, fr),
                  (lambda: self.exec_block(s.orelse, fr)) if s.orelse else None, fr, id(s))

    def x_While(self, s, fr):
        from .loops import while_loop
        while_loop(self, s, fr)

    def loop(self, it, bind, body, orelse, fr, label):
        from .loops import for_loop
        for_loop(self, it, bind, body, orelse, fr, label)

    # ------------------------------------------------------------------ assignment

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.set_local(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), self.mangled(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            self.reg.setitem(self, self.eval(t.value, fr), self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                k = next(i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred))
                tail = len(t.elts) - k - 1
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, fr)
                mid = items[k:len(items) - tail]
                self.assign(t.elts[k].value, self.new_list([Ex(x) for x in mid]), fr)
                for e, x in zip(t.elts[k + 1:], items[len(items) - tail:]):
                    self.assign(e, x, fr)
            else:
                for e, x in zip(t.elts, items):
                    self.assign(e, x, fr)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, star=False):
        if isinstance(v, Tup):
            items = list(v.items)
        elif isinstance(v, C) and isinstance(v.o, (tuple, list)):
            items = [self.wrap(x) for x in v.o]
        elif isinstance(v, T) and v.hint is list and all(isinstance(s, Ex) for s in self.get_list(v).segs):
            items = [s.v for s in self.get_list(v).segs]
        else:
            raise Unsupported(f'unpacking of {v}')
        if not star and len(items) != n:
            self.raise_(ValueError, C('unpack'))
        return items

    # ------------------------------------------------------------------ expressions

    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__} at line {getattr(e, "lineno", 0)}')
        return m(e, fr)

    def e_Constant(self, e, fr):
        return C(e.value)

    def e_Name(self, e, fr):
        return self.lookup(self.mangled(e.id, fr), fr)

    def mangled(self, name, fr):
        if name.startswith('__') and not name.endswith('__'):
            f = fr
            while f is not None:
                if f.fn.mangle:
                    return f'_{f.fn.mangle}{name}'
                f = f.fn.frame
        return name

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), self.mangled(e.attr, fr))

    def e_Tuple(self, e, fr):
        return Tup(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                segs = self.reg.segments(self, v)
                for s in segs:
                    if not isinstance(s, Ex):
                        raise Unsupported('starred unknown sequence')
                    out.append(s.v)
            else:
                out.append(self.eval(x, fr))
        return out

    def e_List(self, e, fr):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs.extend(self.reg.segments(self, self.eval(x.value, fr)))
            else:
                segs.append(Ex(self.eval(x, fr)))
        return self.new_list(segs)

    def e_Set(self, e, fr):
        d = Dct('empty')
        for x in e.elts:
            d = Dct('store', prev=d, k=self.term(self.eval(x, fr)), v=C(None))
        return self.new_dict(d, set)

    def e_Dict(self, e, fr):
        d = Dct('empty')
        for k, x in zip(e.keys, e.values):
            if k is None:
                v = self.eval(x, fr)
                d = self.reg.dict_merge(self, d, v)
            else:
                kv = self.eval(k, fr)
                d = Dct('store', prev=d, k=self.term(kv), v=self.eval(x, fr))
        return self.new_dict(d)

    def e_IfExp(self, e, fr):
        if self.branch(self.truth(self.eval(e.test, fr))):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.branch(self.truth(v))
            if t != isand:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return C(not t) if isinstance(t, bool) else B(simp(z3.Not(t)))
        if isinstance(e.op, ast.USub):
            if isinstance(v, C):
                return C(-v.o)
            return I(simp(-self.as_int(v)))
        raise Unsupported('unary operator')

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_BinOp(self, e, fr):
        a, b = self.eval(e.left, fr), self.eval(e.right, fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        return self.reg.binop(self, op, a, b)

    def mkb(self, x):
        return C(x) if isinstance(x, bool) else self.unterm(Val.vbool(simp(x)))

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return self.mkb(c)
            if i == len(e.ops) - 1:
                return self.mkb(c)
            if not self.branch(c):
                return C(False)
            left = right

    def compare(self, op, a, b):
        n = type(op).__name__
        if n == 'Is':
            return self.is_(a, b)
        if n == 'IsNot':
            return self.neg(self.is_(a, b))
        if n == 'Eq':
            return self.reg.eq(self, a, b)
        if n == 'NotEq':
            return self.neg(self.reg.eq(self, a, b))
        if n == 'In':
            return self.reg.contains(self, b, a)
        if n == 'NotIn':
            return self.neg(self.reg.contains(self, b, a))
        if isinstance(a, C) and isinstance(b, C):
            return {'Lt': lambda: a.o < b.o, 'LtE': lambda: a.o <= b.o, 'Gt': lambda: a.o > b.o, 'GtE': lambda: a.o >= b.o}[n]()
        r = self.reg.set_compare(self, n, a, b)
        if r is not None:
            return r
        x, y = self.as_int(a), self.as_int(b)
        return simp({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[n])

    def e_Subscript(self, e, fr):
        v = self.eval(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            return self.reg.slice(self, v, e.slice, fr)
        return self.reg.getitem(self, v, self.eval(e.slice, fr))

    def e_JoinedStr(self, e, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.FormattedValue):
                v = self.eval(p.value, fr)
                parts.append((v, p.conversion))
            else:
                parts.append((C(p.value), -1))
        if all(isinstance(v, C) and isinstance(v.o, (str, int)) and c == -1 for v, c in parts):
            return C(''.join(str(v.o) for v, _ in parts))
        return self.reg.fstring(self, parts)

    def e_Lambda(self, e, fr):
        return Fn(e, fr.fn.glob, frame=fr, mangle=fr.fn.mangle, defaults=[self.eval(d, fr) for d in e.args.defaults])

    def e_Await(self, e, fr):
        raise Unsupported('await')

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value else C(None)
        f = fr
        if '<with>' in self.st.frames[f.fid]:
            self.st.frames[f.fid]['<with>'](v)
            return C(None)
        while '<yield>' not in self.st.frames[f.fid]:
            f = f.fn.frame
        out = self.st.frames[f.fid]['<yield>']
        l = self.get_list(out)
        self.set_list(out, Lst(l.segs + (Ex(v),)))
        return C(None)

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        out = self.st.frames[fr.fid]['<yield>']
        self.set_list(out, Lst(self.get_list(out).segs + tuple(self.reg.segments(self, v))))
        return C(None)

    def e_Call(self, e, fr):
        line = self.line
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            cls = self.lookup('__class__', fr)
            first = (fr.fn.node.args.posonlyargs + fr.fn.node.args.args)[0].arg
            return Super(cls.o, self.st.frames[fr.fid][first])
        f = self.eval(e.func, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                for s in self.reg.segments(self, v):
                    if not isinstance(s, Ex):
                        args.append(StarRest(v))
                        break
                    args.append(s.v)
            elif isinstance(a, ast.GeneratorExp):
                args.append(View('gen', a, fr))
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, fr)
                if isinstance(v, KwRest):
                    kwargs.update(v.known)
                    if v.rest is not None:
                        kwargs['**'] = v.rest
                else:
                    kk = self.reg.known_items(self, v)
                    if kk is not None:
                        kwargs.update(kk)
                    else:
                        kwargs['**'] = v
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        self.line = line
        r = self.call(f, args, kwargs)
        self.line = line
        return r

    # comprehensions: desugared to loops

    def comp(self, gens, fr, body):
        """Run body() for every element; comprehension scope is a new frame."""
        fid = self.frame_id('<comp>')
        self.st.frames[fid] = {}
        f2 = Frame(fid, Fn(ast.Lambda(args=_noargs(), body=None), fr.fn.glob, frame=fr, mangle=fr.fn.mangle, name='<comp>'))

        def go(i):
            if i == len(gens):
                body(f2)
                return
            g = gens[i]
            it = self.eval(g.iter, fr if i == 0 else f2)

            def b():
                for c in g.ifs:
                    if not self.branch(self.truth(self.eval(c, f2))):
                        raise ContinueSig()
                go(i + 1)
            self.loop(it, lambda v: self.assign(g.target, v, f2), b, None, f2, id(g))
        go(0)

    def e_ListComp(self, e, fr):
        out = self.new_list()

        def body(f2):
            v = self.eval(e.elt, f2)
            self.set_list(out, Lst(self.get_list(out).segs + (Ex(v),)))
        self.comp(e.generators, fr, body)
        return out

    def e_SetComp(self, e, fr):
        out = self.new_dict(cls=set)

        def body(f2):
            v = self.eval(e.elt, f2)
            self.set_dict(out, Dct('store', prev=self.get_dict(out), k=self.term(v), v=C(None)))
        self.comp(e.generators, fr, body)
        return out

    def e_DictComp(self, e, fr):
        out = self.new_dict()

        def body(f2):
            k = self.eval(e.key, f2)
            v = self.eval(e.value, f2)
            self.set_dict(out, Dct('store', prev=self.get_dict(out), k=self.term(k), v=v))
        self.comp(e.generators, fr, body)
        return out

    def e_GeneratorExp(self, e, fr):
        return View('gen', e, fr)

    def gen_any(self, view, want):
        """any()/all() over a generator: stops at the first element whose truth is want."""
        e, fr = view.src, view.extra
        res = [None]
        hold = self.new_obj(object)

        def body(f2):
            if self.branch(self.truth(self.eval(e.elt, f2))) == want:
                self.write_attr(hold, '<found>', C(True))
                raise FoundSig()
        self.write_attr(hold, '<found>', C(False))
        try:
            self.comp(e.generators, fr, body)
        except FoundSig:
            return want
        return not want

    def gen_first(self, view, default):
        """next() on a generator expression: its first element, or the default (None: StopIteration)."""
        if view.started:
            raise Unsupported('next() on a generator that has started')
        view.started = True
        if view.kind != 'gen':
            for s in self.reg.segments(self, view):
                if not isinstance(s, Ex):
                    raise Unsupported('next() on an unknown sequence')
                return s.v
        else:
            e, fr = view.src, view.extra

            def body(f2):
                raise FoundSig(self.eval(e.elt, f2))
            try:
                self.comp(e.generators, fr, body)
            except FoundSig as f:
                return f.args[0]
        if default is None:
            self.raise_(StopIteration)
        return default

    # ------------------------------------------------------------------ isinstance with class values

    def isinstance_v(self, v, c):
        if isinstance(c, Tup):
            return self.disj([self.isinstance_v(v, x) for x in c.items])
        if isinstance(c, C):
            if isinstance(c.o, tuple):
                return self.disj([self.isinstance_v(v, C(x)) for x in c.o])
            if isinstance(c.o, type):
                return self.inst(v, c.o)
        if isinstance(c, T):
            return self.reg.isinstance_unknown(self, v, c)
        raise Unsupported(f'isinstance against {c}')


class FoundSig(Exception):
    pass


class GenCM(V):
    """A call of a contextlib.contextmanager function."""
    __slots__ = ('fn', 'args', 'kwargs')

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class SuppressCM(V):
    """contextlib.suppress(classes)"""
    __slots__ = ('classes',)

    def __init__(self, classes):
        self.classes = classes


class StarRest(V):
    """* of a sequence of unknown length as the last positional arguments."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class KwRest(V):
    """The value of a **kwargs parameter: known entries plus an unknown mapping."""
    __slots__ = ('known', 'rest')

    def __init__(self, known, rest):
        self.known, self.rest = known, rest


MUTATORS = {'append', 'appendleft', 'add', 'update', 'setdefault', 'pop', 'popleft', 'popitem', 'extend', 'insert', 'remove', 'discard', 'clear',
            'sort', 'reverse', '__setitem__', '__delitem__'}


class Frame:
    __slots__ = ('fid', 'fn')

    def __init__(self, fid, fn):
        self.fid, self.fn = fid, fn

    def is_local(self, name):
        node = self.fn.node
        loc = getattr(node, '_locals', None)
        if loc is None:
            loc = set()
            if isinstance(node, ast.FunctionDef):
                todo = list(node.body)
                while todo:
                    n = todo.pop()
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        loc.add(n.name)
                        continue
                    if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        continue
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        loc.add(n.id)
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        loc.update((a.asname or a.name).split('.')[0] for a in n.names)
                    if isinstance(n, ast.ExceptHandler) and n.name:
                        loc.add(n.name)
                    todo.extend(ast.iter_child_nodes(n))
            node._locals = loc
        return name in loc


class _NotFound:
    pass


NOTFOUND = _NotFound()


def has_unset(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(Val.vunset):
                return True
            if x.decl().kind() == z3.Z3_OP_ITE:
                todo.extend(x.children()[1:])
    return False


def captures(node):
    c = getattr(node, '_captures', None)
    if c is None:
        c = node._captures = any(n is not node and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)) for n in ast.walk(node))
    return c


def _load(t):
    import copy
    t2 = copy.deepcopy(t)
    for n in ast.walk(t2):
        if hasattr(n, 'ctx'):
            n.ctx = ast.Load()
    return t2


def _noargs():
    return ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])
