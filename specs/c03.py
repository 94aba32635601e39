"""C03: Field._run_validators, the contract that the operations of core.py rely on."""
from .core import *

VOUT = z3.Function('validator.outcome', Val, I_)     # 0 returns, 1 field error, 2 standard error, 3 something else


class Run:
    def __init__(self, h, israw):
        self.h, self.ex = h, h.ex
        ex = h.ex
        self.f = h.obj('field', Field)
        self.value = h.val('value')
        self.ctx = h.obj('context', LoadContext)
        self.schema = ex.getattr(self.ctx, 'schema')
        self.raw = h.val('raw')
        h.assume(zbool(ex.truth(self.raw)) == israw)
        self.lst = ex.getattr(self.f, '_raw_validators' if israw else '_validators')
        self.seq = ex.get_list(self.lst).segs[0].seq
        self.p = z3.Int('p')
        self.el = None
        self.foreign_ok, self.all_pass = True, False
        ex.st.ghost['calls'] = ex.st.ghost['bad'] = Z
        h.reg.callback = self.callback
        con(h.reg, FieldError, '_from_standard_error', self.from_standard_error)

    def track(self):
        self.h.assume(z3.And(0 <= self.p, self.p < self.seq.n))
        self.ex.tracked_idx.append((None, self.p))
        self.el = self.ex.term(self.seq.item(self.ex, self.p))

    def callback(self, ex, f, args, kwargs):
        h = self.h
        h.oblige('a validator gets the schema, the value and the context', len(args) == 3 and not kwargs and
                 z3.And(*[zbool(ex.is_(a, b)) for a, b in zip(args, (self.schema, self.value, self.ctx))]), info=args, prop='C03')
        t = ex.term(f)
        mine = self.el is not None and t.eq(self.el)
        if mine:
            ex.st.ghost['calls'] = simp(ex.st.ghost['calls'] + 1)
        o = VOUT(t)
        if self.all_pass:
            ex.assume(o == 0)
        i = ex.choose([o == 0, o == 1, o == 2] + ([o == 3] if self.foreign_ok and (mine or self.el is None) else []))
        if i == 0:
            return C(None)
        if i == 3:
            raise PyRaise(R.foreign(ex))
        e = ex.new_obj(FieldError, exact=False) if i == 1 else standard_error(ex)
        if mine:
            ex.st.fired['mine'] = e
        raise PyRaise(e)

    def from_standard_error(self, ex, env):
        """FieldError._from_standard_error: the field error made from a ValueError or AssertionError (see c21)."""
        h = self.h
        e = ex.new_obj(FieldError, exact=False)
        for n, v in (('schema', self.schema), ('field', self.f), ('value', self.value)):
            h.oblige(f'error conversion gets the {n}', ex.is_(env[n], v), info=env[n], prop='C21')
        m = ex.st.fired.get('mine')
        if m is not None and ex.must(zbool(ex.is_(env['err'], m))):
            ex.st.fired['converted'] = e
        return e

    def run(self):
        return self.h.method(self.f, '_run_validators', [self.value, self.ctx], {'raw': self.raw})


def for_each(f):
    for israw in (False, True):
        def run(h, israw=israw):
            f(h, Run(h, israw))
        mode('C03', covers=f.covers, name=f.__name__ + ('_raw' if israw else ''), props=('C21',) if f.__name__ != 'all_pass' else ())(run)
    return f


def covers(*c):
    def deco(f):
        f.covers = c
        return f
    return deco


@for_each
@covers('passes', 'field error', 'standard error', 'other exception')
def each_validator(h, op):
    """The validator at an arbitrary position of the list."""
    ex = h.ex
    op.track()
    k, r = op.run()
    o = VOUT(op.el)
    h.oblige('the validator runs exactly once', ex.st.ghost['calls'] == 1, info=ex.st.ghost['calls'])
    if ex.branch(o == 3):
        h.cover('other exception')
        h.oblige('what is no failure signal is not swallowed', k == 'exc')
        return
    h.oblige('failure signals do not escape', k == 'ret', info=r)
    if k != 'ret' or ex.kind(r) is not list:
        h.fail('a list of errors is returned', info=r)
        return
    segs = ex.get_list(r).segs
    has = lambda e: sum(1 for s in segs if isinstance(s, Ex) and ex.must(zbool(ex.is_(s.v, e))))
    mine, conv = ex.st.fired.get('mine'), ex.st.fired.get('converted')
    if ex.branch(o == 0):
        h.cover('passes')
    elif ex.branch(o == 1):
        h.cover('field error')
        if ex.branch(z3.Or(zbool(ex.inst(mine, ValueError)), zbool(ex.inst(mine, AssertionError)))):
            # both kinds of signal in one class: as it is or converted
            h.oblige('a failure of the validator is reported once', has(mine) + (has(conv) if conv is not None else 0) == 1, info=segs)
        else:
            h.oblige('a field error raised by the validator is reported once', has(mine) == 1, info=segs)
    else:
        h.cover('standard error')
        h.oblige('a standard error raised by the validator is converted and reported once', conv is not None and has(conv) == 1, info=segs)


@for_each
@covers('returns')
def all_pass(h, op):
    """No validator fails: no error, whatever the number of validators."""
    ex = h.ex
    op.all_pass = True
    k, r = op.run()
    h.cover('returns')
    h.oblige('no error is reported when every validator passes', k == 'ret' and ex.kind(r) is list and K.list_len(ex, r) == 0, info=r)


@for_each
@covers('returns')
def frame(h, op):
    """Running validators changes neither the field nor the ambient context."""
    ex = h.ex
    pre = snapshot(h)
    k, r = op.run()
    h.cover('returns')
    oblige_frame(h, pre, 'running validators changes nothing')
    h.oblige('the ambient context stays', not [n for n in set(ex.st.cvars) | set(pre.cvars) if ex.st.cvars.get(n) is not pre.cvars.get(n)
                                              and not ex.must(R.cvar_value(ex, oblate_cvar(n)).t == z3.Const('cv0!' + n, Val))], prop='C03')
