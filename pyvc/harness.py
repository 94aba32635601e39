"""Runs the modes (verification scripts) and collects obligations."""
import time, traceback
import z3
from .vals import *
from .heap import *
from .engine import *
from . import containers as K


class H:
    """Helper handed to a mode."""

    def __init__(self, ex, reg, name):
        self.ex, self.reg, self.mode = ex, reg, name

    # --- symbols of the pre-state
    def val(self, name, hint=None, sub=None, meta=None):
        return self.ex.mk(z3.Const(name, Val), hint, sub=sub, meta=meta)

    def obj(self, name, cls, exact=False):
        v = self.ex.mk(z3.Const(name, Val), cls)
        return T(v.t, cls, exact)

    def str(self, name):
        return self.ex.mk(z3.Const(name, Val), str)

    def int(self, name):
        return I(z3.Int(name))

    def bool(self, name):
        return B(z3.Bool(name))

    def track(self, tag, v):
        t = self.ex.term(v)
        self.ex.tracked.append((tag, t))
        return t

    def attr(self, v, name):
        """Current value term of an attribute."""
        return self.ex.mem(name).select(oid(v.t))

    def attr_v(self, v, name):
        return self.ex.getattr(v, name)

    def dict(self, v):
        return self.ex.get_dict(v)

    # --- running the code
    def call(self, f, args=(), kwargs=None):
        """('ret', value) or ('exc', exception)"""
        ex = self.ex
        if not isinstance(f, V):
            f = C(f)
        try:
            return 'ret', ex.call(f, list(args), dict(kwargs or {}))
        except PyRaise as r:
            return 'exc', r.exc

    def method(self, v, name, args=(), kwargs=None):
        try:
            f = self.ex.getattr(v, name)
        except PyRaise as r:
            return 'exc', r.exc
        return self.call(f, args, kwargs)

    # --- obligations
    def oblige(self, name, f, prop=None, info=None):
        self.ex.oblige(name, f, prop or self.prop, info)

    def cover(self, name):
        self.ex.cover(name)

    def assume(self, f):
        self.ex.assume(f if not isinstance(f, bool) else z3.BoolVal(f))

    def split(self, *conds):
        """Case split over conditions, then keep the paths of this part (parts run in parallel processes)."""
        ex = self.ex
        for c in conds:
            ex.branch(zbool(c))
        n = ex.opts.get('parts', 1)
        k = ex.opts.setdefault('splits', {})
        i = k.setdefault(tuple(ex.trace[:ex.pos]), len(k))
        if i % n != ex.opts.get('part', 0):
            raise Infeasible()

    def fail(self, name, info=None, prop=None):
        self.oblige(name, False, prop, info)

    prop = None


def oblige(self, name, f, prop, info=None):
    if self.in_infer:
        self.infer_obliges = True
        return
    self.logged('oblige', lambda: oblige1(self, name, f, prop, info))


def oblige1(self, name, f, prop, info):
    f = zbool(f)
    r = {'name': name, 'prop': prop, 'line': self.line}
    f = simp(f)
    if z3.is_true(f):
        st = 'ok'
    else:
        c = self.check(z3.Not(f))
        st = 'ok' if c == z3.unsat else 'failed' if c == z3.sat else 'unknown'
        self.proofs = getattr(self, 'proofs', [])
        if st == 'ok' and self.opts.get('dump') is not None:
            self.opts['dump'].append((name, list(self.solver.assertions()), f))
    if st != 'ok':
        if self.imprecise:
            st = 'undecided'
        r['info'] = str(info) if info is not None else None
        r['trace'] = list(self.trace[:self.pos])
        try:
            if st == 'failed':
                m = self.solver.model()
                r['model'] = {str(d): str(m[d])[:120] for d in list(m.decls())[:60] if '@' not in str(d)}
        except z3.Z3Exception:
            pass
    r['status'] = st
    self.obligations.append(r)


def cover(self, name):
    if not self.in_infer and name not in self.covers and not self.replaying:
        if self.check() == z3.sat:
            self.covers[name] = True


Engine.oblige = oblige
Engine.cover = cover
Engine.imprecise = property(lambda self: bool(self.st.fired.get('imprecise')))


def run_mode(mode, make_registry, timeout_s=300, solver_ms=8000, debug=False, dump=None, part=0, parts=1):
    """Run one mode; returns a result dictionary."""
    t0 = time.time()
    res = {'mode': mode.name, 'prop': mode.prop, 'obligations': [], 'error': None, 'missing_covers': []}
    ex = None
    try:
        reg = make_registry()
        ex = Engine(reg, timeout_ms=solver_ms)
        ex.opts['dump'] = dump
        ex.opts.update(part=part, parts=parts)
        ex.deadline = t0 + timeout_s
        h = H(ex, reg, mode.name)
        h.prop = mode.prop

        def go():
            ex.tracked, ex.tracked_idx = [], []
            ex.opts['load_hook'] = ex.opts['fields_hook'] = None
            ex.opts['loop_inv'], ex.opts['dict_inv'], ex.opts['attr_guard'] = [], {}, {}
            ex.opts['dict_inv_assumed'] = False
            ex.opts['confine'], ex.opts['confined'] = 'C22' in mode.props, None
            mode.run(h)
            if ex.opts['confine']:
                ex.oblige('only objects of the operation are written', True, 'C22')
        ex.stats['paths'] = ex.explore(go)
    except Unsupported as e:
        res['error'] = f'unsupported: {e} (at {ex.line if ex else None})'
        if debug:
            traceback.print_exc()
    except RecursionError:
        res['error'] = 'unsupported: recursion limit'
    except PyRaise as e:
        res['error'] = f'internal: exception escaped the mode: {e.exc} (at {ex.line})'
        if debug:
            traceback.print_exc()
    except z3.Z3Exception as e:
        res['error'] = f'internal: solver: {e}'
        if debug:
            traceback.print_exc()
    except Exception as e:
        res['error'] = f'internal: {type(e).__name__}: {e} (at {ex.line if ex else None})'
        if debug:
            traceback.print_exc()
    if ex is not None:
        res['covers'] = sorted(ex.covers)
        res['missing_covers'] = [c for c in mode.covers if c not in ex.covers]
        agg = {}
        for o in ex.obligations:
            a = agg.setdefault((o['name'], o['prop']), {'name': o['name'], 'prop': o['prop'], 'n': 0, 'status': 'ok', 'fails': []})
            a['n'] += 1
            if o['status'] != 'ok':
                a['fails'].append(o)
                rank = ['ok', 'undecided', 'unknown', 'failed']
                if rank.index(o['status']) > rank.index(a['status']):
                    a['status'] = o['status']
        res['obligations'] = list(agg.values())
        res['stats'] = dict(ex.stats)
        res['contracts'] = sorted(ex.used_contracts)
        res['inlined'] = sorted(ex.inlined)
    res['wall_s'] = round(time.time() - t0, 2)
    return res


class Mode:
    def __init__(self, name, prop, run, covers=(), props=(), registry=None, parts=1, thorough=False):
        self.parts, self.thorough = parts, thorough
        self.name, self.prop, self.run, self.covers, self.registry = name, prop, run, tuple(covers), registry
        self.props = tuple(dict.fromkeys((prop,) + tuple(props)))
        self.key = f'{run.__module__}.{name}'


MODES = []


def mode(prop, covers=(), name=None, props=(), registry=None, parts=1, thorough=False):
    """Register a mode: a contract on real entry points.  props: other properties it has obligations of;
    thorough: run in the thorough tier only (a variant of another mode)."""
    def deco(f):
        MODES.append(Mode(name or f.__name__, prop, f, covers, props, registry, parts, thorough))
        return f
    return deco
