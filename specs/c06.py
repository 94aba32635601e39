"""C06: dump (with C07 for dumping, C20 and C21 for its errors)."""
from .core import *

DO = F1('dump.outcome', I_)              # of the field: 0 returns, 1 signals failure, 2 raises something else
DUMPED = F1('dump.result', Val)          # what value_dump returns


class Dump(Op):
    def __init__(self, h):
        super().__init__(h)
        r = h.reg
        r.virtuals['value_dump'] = self.value_dump
        r.virtuals['value_load'] = None
        self.ex.st.ghost['dumps'] = Z
        fd, _ = self.tables()
        self.fields = fd

    def is_context(self, c, field, value):
        ex = self.ex
        c = ex.narrow(c) if isinstance(c, T) else c
        if not (isinstance(c, T) and c.hint is DumpContext):
            return False
        i = oid(c.t)
        return z3.And(ex.mem('schema').select(i) == self.s.t, ex.mem('_field').select(i) == field,
                      ex.mem('value').select(i) == value)

    def track_field(self, name='name'):
        super().track_field(name)
        h, ex = self.h, self.ex
        # the fields of one class have distinct dump keys
        self.dkey = dump_key(self.phi)
        ex.tracked.append(('dkey', self.dkey))
        ex.opts['fields_hook'] = lambda ex, d, k: ex.assume(
            z3.Implies(z3.And(d.domf(k), k != self.name), dump_key(d.valf(k)) != self.dkey))
        self.held, self.val = self.vdom(self.name), self.vget(self.name)
        return self.phi

    def value_dump(self, ex, f, args, kwargs):
        h = self.h
        fld = ex.term(f.self_)
        v, c = args[0], args[1]
        t = ex.term(v)
        self.ambient('value_dump', fld, t)
        h.oblige('value_dump gets the context of the field', self.is_context(c, fld, t), prop='C07')
        if self.is_phi(f.self_):
            self.count('dumps')
            h.oblige('value_dump gets the held value', z3.And(self.held, t == self.val), prop='C06')
        elif not self.other(f.self_):
            h.fail('value_dump on a field that may or may not be the tracked one', prop='C06')
        o = DO(fld)
        i = ex.choose([o == 0, o == 1] + ([o == 2] if self.may_foreign(f.self_) else []))
        if i == 2:
            self.foreign()
        if i == 1:
            if ex.choose([z3.BoolVal(True)] * 2) == 0:
                raise PyRaise(self.new_error())
            raise PyRaise(standard_error(ex))
        return ex.mk(DUMPED(fld))

    def from_standard_error(self, ex, env):
        self.value = self.val if self.phi is not None else None
        return super().from_standard_error(ex, env)


def selection(h, op):
    """The include / exclude arguments: omitted or arbitrary iterables; returns (kwargs, selected(name), both given)."""
    ex = h.ex
    kw = {}
    sel = []
    for n in ('include', 'exclude'):
        if ex.branch(z3.Bool(n + ' given')):
            v = h.val(n, None, meta={'tag': 'name'})
            h.assume(v.t != MISS)
            h.assume(zbool(ex.inst(v, collections.abc.Iterable)))
            kw[n] = v
    return kw


@mode('C06', covers=('dumped', 'not set', 'not selected', 'bad field', 'included', 'excluded', 'all'), props=('C07', 'C20', 'C21'), parts=8)
def dump_field(h):
    """An arbitrary field of the class."""
    ex = h.ex
    op = Dump(h)
    op.track_field()
    kw = selection(h, op)
    if len(kw) == 2:
        raise Infeasible()
    sel = z3.BoolVal(True)
    for n, v in kw.items():
        m = zbool(K.contains(ex, v, ex.mk(op.name, str)))
        sel = m if n == 'include' else z3.Not(m)
    sel = ex.branch(sel)
    h.split(op.held, DO(op.phi) == 0, DO(op.phi) == 1)
    pre = snapshot(h)
    k, r = h.method(op.s, 'dump', [], kw)
    op.check_ambient(k, r)
    oblige_frame(h, pre, 'dump changes nothing')
    segs = op.validation_error(k, r)
    want = z3.And(op.held, z3.BoolVal(sel))
    d = DO(op.phi)
    if k == 'ret':
        h.cover('all' if not kw else 'included' if 'include' in kw else 'excluded')
        h.cover('dumped' if ex.must(want) else 'not set' if sel else 'not selected')
        out = ex.get_dict(r)
        has = zbool(out.dom(ex, op.dkey))
        h.oblige('dump fails when a selected value fails to serialize', z3.Implies(want, d == 0))
        h.oblige('the dump key of a field is there iff the field is selected and holds a value', has == want)
        h.oblige('the dump key maps to what the serialization returned', z3.Implies(want, ex.term(out.val(ex, op.dkey)) == DUMPED(op.phi)))
    elif segs is not None and ex.branch(z3.And(want, d == 1)):
        h.cover('bad field')
        at = op.errors_at(segs, op.kappa)
        op.oblige_found('the validation error has an error under the load key of each field that fails', bool(at), segs, 'C06')
        for e in at:
            h.oblige('errors record the schema', ex.mem('schema').select(oid(ex.term(e))) == op.s.t, prop='C07')
    if k == 'ret' or segs is not None:
        h.oblige('each selected value is serialized exactly once', op.ghost('dumps') == z3.If(want, 1, 0))
    elif k == 'exc':
        h.oblige('only user code raises', z3.Or(d == 2, FEFOR(op.phi)), info=r)


@mode('C06', covers=('returns',), parts=2)
def dump_nothing_else(h):
    """A key that is no dump key of a field holding a value is not in the result."""
    ex = h.ex
    op = Dump(h)
    kappa = ex.term(h.val('key'))
    ex.tracked.append(('dkey', kappa))
    ex.opts['fields_hook'] = lambda ex, d, k: ex.assume(z3.Implies(d.domf(k), dump_key(d.valf(k)) != kappa))
    kw = selection(h, op)
    h.split()
    k, r = h.method(op.s, 'dump', [], kw)
    if k == 'ret':
        h.cover('returns')
        h.oblige('nothing else is in the result', z3.Not(zbool(ex.get_dict(r).dom(ex, kappa))))
        h.oblige('dump returns a dictionary', ex.kind(r) is dict)


@mode('C06', covers=('returns',), props=('C07',), parts=2)
def dump_clean(h):
    """Every selected value serializes: dump returns."""
    ex = h.ex
    op = Dump(h)
    op.foreign_ok = False
    ex.opts['fields_hook'] = lambda ex, d, k: ex.assume(z3.Implies(d.domf(k), DO(d.valf(k)) == 0))
    kw = selection(h, op)
    if len(kw) == 2:
        raise Infeasible()
    h.split()
    k, r = h.method(op.s, 'dump', [], kw)
    op.check_ambient(k, r)
    h.oblige('dump succeeds when every selected value serializes', k == 'ret', info=r)
    if k == 'ret':
        h.cover('returns')


@mode('C06', covers=('raises',), props=('C07',))
def dump_both(h):
    ex = h.ex
    op = Dump(h)
    kw = selection(h, op)
    if len(kw) != 2:
        raise Infeasible()
    pre = snapshot(h)
    k, r = h.method(op.s, 'dump', [], kw)
    h.oblige('include and exclude together raise TypeError', k == 'exc' and is_exc(h, r, TypeError), info=r)
    oblige_frame(h, pre, 'dump changes nothing')
    op.check_ambient(k, r)
    h.cover('raises')


@mode('C07', covers=('exception', 'returns'), props=('C06',), parts=2)
def dump_ambient(h):
    """Any user code may raise anything, for any field."""
    ex = h.ex
    op = Dump(h)
    op.foreign_others = True
    kw = selection(h, op)
    h.split()
    pre = snapshot(h)
    k, r = h.method(op.s, 'dump', [], kw)
    op.check_ambient(k, r)
    oblige_frame(h, pre, 'dump changes nothing', prop='C06')
    h.cover('returns' if k == 'ret' else 'exception')
