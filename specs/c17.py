"""C17: the built-in validators."""
from .common import *
from .core import F1, Z, standard_error
from pyvc.harness import mode
from pyvc import registry as R
from pyvc.engine import StarRest
import oblate.validate as V_

VAL = z3.Const('value', Val)


def run_on(h, k, v, value, ctx=None):
    """The validator called the way fields call it."""
    h.oblige('the constructor returns', k == 'ret', info=v)
    if k != 'ret':
        raise Infeasible()
    ctx = ctx or h.obj('context', LoadContext)
    return h.call(v, [h.ex.getattr(ctx, 'schema'), value, ctx])


def verdict(h, k, r, accepts, message=None):
    ex = h.ex
    if ex.branch(zbool(accepts)):
        h.cover('accepts')
        h.oblige('a value described by the validator is accepted', k == 'ret', info=r)
    else:
        h.cover('rejects')
        h.oblige('any other value is rejected with ValueError', k == 'exc' and is_exc(h, r, ValueError), info=(k, r))
        if message is not None and k == 'exc':
            args = ex.unterm(ex.mem('args').select(oid(ex.term(r))))
            h.oblige('with the message configured', isinstance(args, Tup) and len(args.items) == 1 and
                     zbool(ex.is_(args.items[0], message)), info=(args, message))


BOTH = ('accepts', 'rejects')


@mode('C17', covers=BOTH)
def range_two(h):
    lb, ub, v = h.int('lb'), h.int('ub'), h.int('v')
    k, o = h.call(V_.Range, [lb, ub])
    k, r = run_on(h, k, o, v)
    verdict(h, k, r, z3.And(lb.i <= v.i, v.i <= ub.i))


@mode('C17', covers=BOTH)
def range_one(h):
    ub, v = h.int('ub'), h.int('v')
    k, o = h.call(V_.Range, [ub])
    k, r = run_on(h, k, o, v)
    verdict(h, k, r, z3.And(0 <= v.i, v.i <= ub.i))


@mode('C17', covers=BOTH)
def range_bool(h):
    """Booleans are integers too."""
    lb, ub, v = h.int('lb'), h.int('ub'), h.bool('v')
    k, o = h.call(V_.Range, [lb, ub])
    k, r = run_on(h, k, o, v)
    i = z3.If(v.b, 1, 0)
    verdict(h, k, r, z3.And(lb.i <= i, i <= ub.i))


@mode('C17', covers=BOTH)
def range_from_standard(h):
    lo, hi, v = z3.Int('lo'), z3.Int('hi'), h.int('v')
    k, f = h.method(C(V_.Range), 'from_standard', [Rng(lo, hi)])
    k, r = run_on(h, k, f, v)
    verdict(h, k, r, z3.And(lo <= v.i, v.i < hi))


def length(given):
    def run(h):
        ex = h.ex
        kw = {n: h.int(n) for n in given}
        k, o = h.call(V_.Length, [], dict(kw))
        n = z3.Function('pylen', Val, z3.IntSort())(VAL)
        v = h.val('value', meta={'sized': True})
        h.assume(z3.And(Val.is_vobj(v.t), n >= 0))
        for c in (list, tuple, dict, set, frozenset, str):
            h.assume(z3.Not(zbool(ex.inst(T(v.t), c))))
        k, r = run_on(h, k, o, v)
        c = []
        if 'exact' in kw:
            c.append(n == kw['exact'].i)
        if 'min' in kw:
            c.append(n >= kw['min'].i)
        if 'max' in kw:
            c.append(n <= kw['max'].i)
        verdict(h, k, r, z3.And(c))
    mode('C17', covers=BOTH, name='length_' + '_'.join(given))(run)


def length_of(cls):
    """Containers and strings."""
    def run(h):
        ex = h.ex
        lo, hi = h.int('min'), h.int('max')
        k, o = h.call(V_.Length, [], {'min': lo, 'max': hi})
        v = h.obj('value', cls)
        n = ex.as_int(ex.call(C(len), [v], {}))
        k, r = run_on(h, k, o, v)
        verdict(h, k, r, z3.And(lo.i <= n, n <= hi.i))
    mode('C17', covers=BOTH, name='length_of_' + cls.__name__)(run)


for _g in (('min',), ('max',), ('min', 'max'), ('exact',)):
    length(_g)
for _c in (list, tuple, dict, set, str):
    length_of(_c)


def eq(ex, a, b):
    return z3.Or(zbool(ex.is_(a, b)), zbool(ex.reg.eq(ex, a, b)))


@mode('C17', covers=('rejects',))
def exclude_listed(h):
    """The value equals the listed value at an arbitrary position."""
    ex = h.ex
    vs = h.val('values', tuple)
    v = h.val('value')
    p = z3.Int('p')
    s = ex.tuple_seq(vs)
    h.assume(z3.And(0 <= p, p < s.n))
    ex.tracked_idx.append((None, p))
    h.assume(eq(ex, s.item(ex, p), v))
    k, o = h.call(V_.Exclude, [StarRest(vs)])
    k, r = run_on(h, k, o, v)
    verdict(h, k, r, False)


@mode('C17', covers=('accepts',))
def exclude_not_listed(h):
    """The value equals none of the listed values."""
    ex = h.ex
    v = h.val('value')
    vs = h.val('values', tuple, meta={'elem': lambda e, x, j: e.assume(z3.Not(eq(e, x, v)))})
    ex.tuple_seq(vs)
    k, o = h.call(V_.Exclude, [StarRest(vs)])
    k, r = run_on(h, k, o, v)
    verdict(h, k, r, True)


def regex(how, compiled):
    """how: the selected mode; the patterns are strings with flags or compiled patterns."""
    def run(h):
        ex = h.ex
        kw = {}
        if compiled:
            pat = h.obj('pattern', re.Pattern)
            h.assume(z3.Not(zbool(ex.inst(T(pat.t), str))))
            pattern = pat
        else:
            pat = h.str('pattern')
            flags = C(0)
            if ex.branch(z3.Bool('flags given')):
                flags = kw['flags'] = h.val('flags')
            pattern = ex.call(C(re.compile), [pat, flags], {})
        if how != 'match':
            kw[{'fullmatch': 'full_match', 'search': 'search'}[how]] = C(True)
        msg = h.str('message')
        given = ex.branch(z3.Bool('message given'))
        if given:
            kw['fail_message'] = msg
        v = h.str('value')
        k, o = h.call(V_.Regex, [pat], kw)
        k, r = run_on(h, k, o, v)
        m = z3.Function('re.' + how, Val, Val, Val)(ex.term(pattern), v.t)
        # the message: the template applied to the value and the pattern
        verdict(h, k, r, m != Val.vnone)
        if k == 'exc' and given:
            t = ex.st.fired.get('format')
            args = ex.unterm(ex.mem('args').select(oid(ex.term(r))))
            h.oblige('the message configured is formatted with the value and the pattern', t is not None and ex.is_(t[0], msg) and not t[1] and
                     set(t[2]) == {'value', 'pattern'} and ex.is_(t[2]['value'], v) and zbool(ex.is_(t[2]['pattern'], pattern)), info=t)
            h.oblige('and is the message of the error', t is not None and isinstance(args, Tup) and len(args.items) == 1 and ex.is_(args.items[0], t[3]), info=args)
    mode('C17', covers=BOTH, name=f'regex_{how}_{"compiled" if compiled else "string"}')(run)


import re
for _h in ('match', 'fullmatch', 'search'):
    for _c in (False, True):
        regex(_h, _c)


# ------------------------------------------------------------------------------------------- Or

VOUT = F1('validator.outcome', z3.IntSort())


class OrRun:
    def __init__(self, h, all_fail=False, idx=()):
        self.h, self.ex = h, h.ex
        ex = h.ex
        self.vs = h.val('validators', tuple)
        self.seq = ex.tuple_seq(self.vs)
        self.all_fail = all_fail
        self.value = h.val('value')
        self.ctx = h.obj('context', LoadContext)
        self.items = []
        for j in idx:
            h.assume(z3.And(0 <= j, j < self.seq.n))
            ex.tracked_idx.append((None, j))
            self.items.append(self.seq.item(ex, j).t)
        for g in ('accepted', 'c0', 'c1'):
            ex.st.ghost[g] = Z
        h.reg.callback = self.callback

    def callback(self, ex, f, args, kwargs):
        h, g = self.h, ex.st.ghost
        h.oblige('a validator gets the schema, the value and the context', len(args) == 3 and not kwargs and z3.And(*[
            zbool(ex.is_(a, b)) for a, b in zip(args, (ex.getattr(self.ctx, 'schema'), self.value, self.ctx))]), info=args)
        h.oblige('no validator is tried after one accepted', g['accepted'] == 0)
        t = ex.term(f)
        for n, it in enumerate(self.items):
            if t.eq(it):
                h.oblige('each validator is tried at most once', g[f'c{n}'] == 0)
                if n == 1:
                    h.oblige('the validators are tried in order', g['c0'] == 1)
                g[f'c{n}'] = simp(g[f'c{n}'] + 1)
        o = VOUT(t)
        if self.all_fail:
            ex.assume(o == 1)
        if ex.choose([o == 0, o == 1]) == 0:
            g['accepted'] = simp(g['accepted'] + 1)
            return h.val('result')
        if ex.choose([z3.BoolVal(True)] * 2):
            raise PyRaise(ex.new_obj(FieldError, exact=False))
        raise PyRaise(standard_error(ex))

    def run(self):
        k, o = self.h.call(V_.Or, [StarRest(self.vs)])
        return run_on(self.h, k, o, self.value, self.ctx)


@mode('C17', covers=('accepts',))
def or_one_accepts(h):
    """The validator at an arbitrary position accepts."""
    op = OrRun(h, idx=[z3.Int('p')])
    h.assume(VOUT(op.items[0]) == 0)
    k, r = op.run()
    verdict(h, k, r, True)
    h.oblige('exactly one validator accepted', h.ex.st.ghost['accepted'] == 1)


@mode('C17', covers=('rejects',))
def or_none_accepts(h):
    op = OrRun(h, all_fail=True)
    k, r = op.run()
    verdict(h, k, r, False)


@mode('C17', covers=('returns', 'raises'))
def or_in_order(h):
    p, q = z3.Ints('p q')
    op = OrRun(h, idx=[p, q])
    h.assume(p < q)
    h.assume(op.items[0] != op.items[1])
    k, r = op.run()
    h.cover('returns' if k == 'ret' else 'raises')
    if k == 'exc':
        h.oblige('every validator was tried before the value is rejected', z3.And(h.ex.st.ghost['c0'] == 1, h.ex.st.ghost['c1'] == 1))
