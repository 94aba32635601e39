"""C16: subclassing.  Schema.__init_subclass__ on an arbitrary class body and arbitrary tables of the parent.

The tables of the class are described by data invariants (DI: every entry of the name table is a bound field of that name)
and a loop invariant (LI: every entry of the load key table is the current field of its name), which are what the other
specifications assume of a schema class (common.fields_hook, common.load_fields_hook)."""
from .common import *
from .core import con
from pyvc.harness import mode
from pyvc import registry as R

P = 'C16'
MEMBERS = z3.Const('members', Val)
CLS_ = z3.Const('cls', Val)


def is_field(ex, t):
    return zbool(ex.inst(T(t), Field))


def body_registry():
    r = base_registry()
    r.hints[(Schema, '__fields__')] = Hint('obj', dict, khint=str, vhint=Field, tag='name', maybe=True, hook=parent_fields)
    r.hints[(Schema, '__load_fields__')] = Hint('obj', dict, khint=str, vhint=Field, tag='key', maybe=True, hook=parent_load_fields)
    r.hints[(Field, '_schema')] = Hint('cls', sub=Schema, opt=MISSING)
    r.hints[(Field, '_name')] = Hint('obj', str, opt=MISSING)
    r.gattrs['__validator_field__'] = Hint('any', maybe=True)
    r.obj_inv[Field] = field_inv
    return r


def field_inv(ex, t):
    # a field is bound completely or not at all, and no field is bound to a class that does not exist yet
    n, s = uattr('_name', oid(t)), uattr('_schema', oid(t))
    return z3.And((n == MISS) == (s == MISS), z3.Or(n == MISS, Val.is_vstr(n)), z3.Or(s == MISS, Val.is_vobj(s)), s != CLS_)


def parent_fields(ex, d, k, owner):
    """The parent's class invariant; its fields are bound to the parent or one of its ancestors, and differ from all new objects."""
    fields_hook(ex, d, k, owner)
    phi = d.valf(k)
    s = uattr('_schema', oid(phi))
    ex.assume(z3.Implies(d.domf(k), z3.And(is_field(ex, phi), Val.is_vobj(s), s != MISS, s != CLS_, z3.Function('subclass', Val, Val, BoolS)(CLS_, s))))


def parent_load_fields(ex, d, k, owner):
    load_fields_hook(ex, d, k, owner)
    phi = d.valf(k)
    s = uattr('_schema', oid(phi))
    ex.assume(z3.Implies(d.domf(k), z3.And(is_field(ex, phi), Val.is_vobj(s), s != MISS, s != CLS_)))


def key_of(ex, phi, name):
    """The load key that the field has under a name."""
    k = uattr('_load_key', oid(phi))
    return z3.If(k == MISS, name, k)


def cur_key(ex, phi):
    i = oid(phi)
    k = ex.mem('_load_key').select(i)
    return z3.If(k == MISS, ex.mem('_name').select(i), k)


class Body:
    """A class body being turned into a schema class."""

    def __init__(self, h, parent=True):
        self.h, self.ex = h, h.ex
        ex = h.ex
        self.parent = parent
        self.cls = h.val('cls', type, sub=Schema)
        pf = uattr('__fields__', oid(CLS_))
        plf = uattr('__load_fields__', oid(CLS_))
        h.assume(z3.And(pf != Val.vunset, plf != Val.vunset) if parent else z3.And(pf == Val.vunset, plf == Val.vunset))    # set together
        if parent:
            h.assume(z3.And(Val.is_vobj(pf), Val.is_vobj(uattr('__load_fields__', oid(CLS_))), pf != uattr('__load_fields__', oid(CLS_))))
            # a namespace is not a table
            h.assume(z3.And(oid(MEMBERS) != oid(pf), oid(MEMBERS) != oid(uattr('__load_fields__', oid(CLS_)))))
        h.assume(CLS_ != MISS)
        self.lk = self.name = self.qn = self.qv = None
        self.unbound, self.check = True, False
        h.reg.vars_model = lambda e, c: self.members()
        h.reg.dyn_setattr = self.dyn_setattr
        con(h.reg, Field, 'add_validator', self.add_validator)
        ex.opts['dict_inv'] = {'name': self.di_name, 'key': self.di_key}
        ex.opts['dict_inv_prop'] = P
        ex.opts['attr_guard'] = {a: self.guard for a in FIELD_ATTRS if a != '*other*'}
        self.copied = None
        for g in ('registered', 'attr_set'):
            ex.st.ghost[g] = z3.IntVal(0)
        self.q = None
        self.target = None

    def members(self):
        return self.ex.mk(MEMBERS, dict, meta={'khint': str, 'tag': 'name', 'hook': self.member_hook})

    def member_hook(self, ex, d, k, owner=None):
        """The fields of the body are unbound (see bound_refused), and the current fields have distinct load keys."""
        v = d.valf(k)
        f = is_field(ex, v)
        wf_field(ex, v)
        ex.assume(z3.Implies(z3.And(d.domf(k), f), z3.And(Val.is_vobj(v), uattr('_name', oid(v)) == MISS if self.unbound else True)))
        if self.qn is not None:
            ex.assume(z3.Implies(z3.And(d.domf(k), k != self.qn), v != self.qv))
        if self.lk is not None:
            ex.assume(z3.Implies(z3.And(d.domf(k), f, k != self.name), key_of(ex, v, k) != self.lk))

    def mdom(self, k):
        return zbool(self.ex.get_dict(self.members()).dom(self.ex, k))

    def mval(self, k):
        return self.ex.term(self.ex.get_dict(self.members()).val(self.ex, k))

    def own(self, k):
        """The body defines a field under the name k."""
        return z3.And(self.mdom(k), is_field(self.ex, self.mval(k)))

    def table(self, n):
        ex = self.ex
        return ex.get_dict(ex.narrow(ex.getattr(self.cls, n)))

    def current(self, ex, n):
        """The table now, without forking."""
        t = ex.mem(n).select(oid(CLS_))
        return ex.get_dict(T(t, dict))

    # --- invariants
    def guard(self, ex, i, old, new):
        """Fields get a name and a class when they have none, and new fields before they are in a table."""
        return z3.Or(old == new, old == MISS, old == Val.vunset, z3.And(i >= 1, i < INTERN_BASE, ex.mem('_schema').select(i) != CLS_))

    def di_name(self, ex, k, v):
        i = oid(v)
        c = [is_field(ex, v), ex.mem('_name').select(i) == k, ex.mem('_schema').select(i) != MISS, Val.is_vobj(v)]
        if self.lk is not None:
            c.append(z3.Implies(z3.And(k != self.name, z3.Not(self.own(k))), cur_key(ex, v) != self.lk))
        s = ex.mem('_schema').select(i)
        c.append(z3.Or(s == CLS_, z3.And(i <= 0, z3.Function('subclass', Val, Val, BoolS)(CLS_, s))))
        if self.copied is not None:
            j = oid(self.copied)
            new = [i >= 1, i < INTERN_BASE] + [ex.mem(a).select(i) == uattr(a, j) for a in FIELD_ATTRS if a not in ('_name', '_schema', '_validators', '_raw_validators', '*other*')]
            new += [z3.And(ex.mem(a).select(i) != uattr(a, j), Val.is_vobj(ex.mem(a).select(i))) for a in ('_validators', '_raw_validators')]
            c.append(z3.Implies(z3.And(k == self.name, v != self.copied), z3.And(new)))
        return z3.And(c)

    def di_key(self, ex, k, v):
        i = oid(v)
        return z3.And(is_field(ex, v), Val.is_vobj(v), ex.mem('_name').select(i) != MISS, ex.mem('_schema').select(i) != MISS, cur_key(ex, v) == k)

    # --- what the class machinery calls
    def dyn_setattr(self, ex, obj, name, val):
        h = self.h
        h.oblige('attributes are set on the new class only', ex.is_(obj, self.cls), info=obj)
        n = ex.term(name)
        F = self.current(ex, '__fields__')
        if 'attr' in ex.st.ghost and ex.branch(n == self.name):
            ex.st.ghost['attr'] = ex.term(val)
        return C(None)

    def add_validator(self, ex, env):
        h = self.h
        f, v = env['self'], env['validator']
        i = oid(ex.term(f))
        s = uattr('_schema', i)
        inherited = z3.And(i <= 0, s != MISS, z3.Function('subclass', Val, Val, BoolS)(CLS_, s))
        if self.check:
            h.oblige('no validator is added to a field of a parent class', z3.Not(inherited), info=f)
        if self.q is not None:
            hit = ex.term(v) == self.qv
            if ex.branch(hit):
                ex.st.ghost['registered'] = simp(ex.st.ghost['registered'] + 1)
                h.oblige('the validator goes to the field it names', self.is_target(ex, ex.term(f)), info=f)
        return C(None)

    def run(self):
        h = self.h
        self.pre = snapshot(h)
        return h.method(self.cls, '__init_subclass__')


def finish(b, k, r):
    h = b.h
    if k == 'exc':
        h.cover('refused')
        raise Infeasible()
    h.cover('defined')


def track(b, own):
    """Track a name; own: the body has a field of this name."""
    h, ex = b.h, b.ex
    n = h.str('name')
    b.name = ex.term(n)
    if own is True:
        ex.tracked.append(('name', b.name))
        h.assume(b.own(b.name))
        b.phi = b.mval(b.name)
        b.lk = simp(key_of(ex, b.phi, b.name))
    else:
        h.assume(z3.Not(b.own(b.name)))
        F = b.table('__fields__') if b.parent else None
        if own == 'inherited':
            h.assume(F.dom(ex, b.name))
            b.phi = ex.term(F.val(ex, b.name))
            b.lk = simp(load_key(b.phi))
        elif F is not None:
            h.assume(z3.Not(F.dom(ex, b.name)))
    if b.lk is not None:
        if b.parent:
            # other inherited fields that stay current have another load key
            L0 = b.table('__load_fields__')
            f = ex.term(L0.val(ex, b.lk))
            nf = field_name(f)
            h.assume(z3.Implies(z3.And(L0.dom(ex, b.lk), nf != b.name), b.own(nf)))


def own_field(parent):
    def run(h):
        b = Body(h, parent)
        ex = b.ex
        track(b, True)

        def li(e):
            F, L = b.current(e, '__fields__'), b.current(e, '__load_fields__')
            return z3.Implies(z3.And(zbool(F.dom(e, b.name)), e.term(F.val(e, b.name)) == b.phi),
                              z3.And(zbool(L.dom(e, b.lk)), e.term(L.val(e, b.lk)) == b.phi))
        ex.opts['loop_inv'] = [li]
        conds = [uattr('_load_key', oid(b.phi)) == MISS]
        if parent:
            conds.append(b.table('__fields__').dom(ex, b.name))
        h.split(*conds)
        k, r = b.run()
        finish(b, k, r)
        F, L = b.table('__fields__'), b.table('__load_fields__')
        h.oblige('the own field is in the name table', z3.And(F.dom(ex, b.name), ex.term(F.val(ex, b.name)) == b.phi))
        h.oblige('and its load key leads to it', z3.And(L.dom(ex, b.lk), ex.term(L.val(ex, b.lk)) == b.phi))
        i = oid(b.phi)
        h.oblige('it is bound to the class under its name', z3.And(ex.mem('_name').select(i) == b.name, ex.mem('_schema').select(i) == CLS_))
        h.oblige('its options are unchanged', z3.And([ex.mem(a).select(i) == uattr(a, i) for a in FIELD_ATTRS if a not in ('_name', '_schema', '*other*')]))
    mode(P, covers=('defined', 'refused'), name='own_field' if parent else 'own_field_no_parent', registry=body_registry, parts=4 if parent else 2)(run)


own_field(True)
own_field(False)


@mode(P, covers=('defined', 'refused', 'the same', 'a copy'), registry=body_registry)
def inherited_field(h):
    b = Body(h)
    ex = b.ex
    track(b, 'inherited')
    b.copied = b.phi
    ex.st.ghost['attr'] = Val.vnone

    def li(e):
        F, L = b.current(e, '__fields__'), b.current(e, '__load_fields__')
        f = e.term(F.val(e, b.name))
        return z3.And(zbool(F.dom(e, b.name)), zbool(L.dom(e, b.lk)), e.term(L.val(e, b.lk)) == f, z3.Or(f == b.phi, e.st.ghost['attr'] == f))
    ex.opts['loop_inv'] = [li]
    k, r = b.run()
    finish(b, k, r)
    F, L = b.table('__fields__'), b.table('__load_fields__')
    h.oblige('the class has the field', F.dom(ex, b.name))
    f = ex.term(F.val(ex, b.name))
    h.oblige('and its load key leads to it', z3.And(L.dom(ex, b.lk), ex.term(L.val(ex, b.lk)) == f))
    i = oid(f)
    if ex.branch(f == b.phi):
        h.cover('the same')
        return
    h.cover('a copy')
    h.oblige('a copy is a new field', z3.And(i >= 1, i < INTERN_BASE))
    h.oblige('a copy is bound to the class under the name', z3.And(ex.mem('_name').select(i) == b.name, ex.mem('_schema').select(i) == CLS_))
    j = oid(b.phi)
    h.oblige('a copy has the options of the field', z3.And([ex.mem(a).select(i) == uattr(a, j) for a in FIELD_ATTRS if a not in (
        '_name', '_schema', '_validators', '_raw_validators', '*other*')]))
    h.oblige('a copy is an attribute of the class', ex.st.ghost['attr'] == f)
    for a in ('_validators', '_raw_validators'):
        h.oblige(f'a copy has its own {a}', z3.And(ex.mem(a).select(i) != uattr(a, j), Val.is_vobj(ex.mem(a).select(i))))


def no_field(parent):
    def run(h):
        b = Body(h, parent)
        ex = b.ex
        track(b, None)
        ex.opts['loop_inv'] = [lambda e: z3.Not(zbool(b.current(e, '__fields__').dom(e, b.name)))]
        k, r = b.run()
        finish(b, k, r)
        F = b.table('__fields__')
        h.oblige('no other name is a field', z3.Not(F.dom(ex, b.name)))
    mode(P, covers=('defined', 'refused'), name='no_field' if parent else 'no_field_no_parent', registry=body_registry)(run)


no_field(True)
no_field(False)


def load_keys(parent):
    def run(h):
        b = Body(h, parent)
        ex = b.ex
        kappa = ex.term(h.str('key'))
        ex.tracked.append(('key', kappa))

        def li(e):
            L, F = b.current(e, '__load_fields__'), b.current(e, '__fields__')
            f = e.term(L.val(e, kappa))
            n = e.mem('_name').select(oid(f))
            return z3.Implies(zbool(L.dom(e, kappa)), z3.And(F.dom(e, n), e.term(F.val(e, n)) == f, cur_key(e, f) == kappa))
        ex.opts['loop_inv'] = [li]
        k, r = b.run()
        finish(b, k, r)
        L, F = b.table('__load_fields__'), b.table('__fields__')
        f = ex.term(L.val(ex, kappa))
        h.oblige('every load key leads to the current field of its name', li(ex))
    mode(P, covers=('defined', 'refused'), name='load_keys' if parent else 'load_keys_no_parent', registry=body_registry)(run)


load_keys(True)
load_keys(False)


def validator(parent):
    def run(h):
        """A validator of the body is registered once, with this class's own version of the field it is for."""
        b = Body(h, parent)
        ex = b.ex
        n = ex.term(h.str('validator_name'))
        ex.tracked.append(('name', n))
        v = z3.Const('validator', Val)
        b.qv, b.qn = v, n
        h.assume(b.mval(n) == v)
        b.check, ex.opts['dict_inv_assumed'] = False, True      # obliged by the other modes
        h.assume(z3.And(b.mdom(n), z3.Not(is_field(ex, v)), Val.is_vobj(v)))
        # other members are other objects, and fields are no validators
        b.q = ex.mk(v)
        h.assume(z3.And(zbool(ex.truth(ex.call(C(callable), [b.q], {}))), zbool(ex.truth(ex.call(C(hasattr), [b.q, C('__validator_field__')], {})))))
        fld = ex.getattr(b.q, '__validator_field__')
        ft = ex.term(fld)
        s0 = uattr('_schema', oid(ft))

        def version(e, f, name):
            F = b.current(e, '__fields__')
            return z3.If(b.own(name), f == b.mval(name), z3.And(zbool(F.dom(e, name)), f == e.term(F.val(e, name)), e.mem('_schema').select(oid(f)) == CLS_))

        def is_target(e, f):
            if e.branch(zbool(e.inst(fld, str))):
                h.cover('by name')
                return version(e, f, ft)
            inherited = z3.And(Val.is_vobj(ft), s0 != MISS, s0 != CLS_, z3.Function('subclass', Val, Val, BoolS)(CLS_, s0))
            if e.branch(inherited):
                h.cover('inherited')
                return version(e, f, uattr('_name', oid(ft)))
            h.cover('direct')
            return f == ft
        b.is_target = is_target
        h.split(zbool(ex.inst(fld, str)), b.own(ft))
        k, r = b.run()
        finish(b, k, r)
        h.oblige('the validator is registered once', ex.st.ghost['registered'] == 1)
    mode(P, covers=('defined', 'refused', 'by name', 'direct') + (('inherited',) if parent else ()), name='validator' if parent else 'validator_no_parent', registry=body_registry, parts=3, thorough=not parent)(run)


validator(True)
validator(False)


@mode(P, covers=('bound', 'unbound'))
def bind(h):
    ex = h.ex
    f, name, cls = h.obj('field', Field), h.str('name'), h.val('cls', type, sub=Schema)
    i = oid(f.t)
    n, s = uattr('_name', i), uattr('_schema', i)
    h.reg.hints[(Field, '_schema')] = Hint('cls', sub=Schema, opt=MISSING)
    h.reg.hints[(Field, '_name')] = Hint('obj', str, opt=MISSING)
    h.assume((n == MISS) == (s == MISS))
    pre = snapshot(h)
    k, r = h.method(f, '_bind', [name, cls])
    if ex.branch(n != MISS):
        h.cover('bound')
        h.oblige('a bound field cannot be bound again', k == 'exc' and is_exc(h, r, RuntimeError), info=(k, r))
        oblige_frame(h, pre, 'and nothing changes')
    else:
        h.cover('unbound')
        h.oblige('an unbound field is bound', k == 'ret', info=r)
        h.oblige('to the name and the class given', z3.And(ex.mem('_name').select(i) == name.t, ex.mem('_schema').select(i) == cls.t))
        oblige_frame(h, pre, 'and nothing else changes', allow=(('attr', '_name'), ('attr', '_schema')))


def bound_refused(parent):
    def run(h):
        """The body has a field that is bound already."""
        b = Body(h, parent)
        ex = b.ex
        b.unbound = False
        n = ex.term(h.str('name'))
        ex.tracked.append(('name', n))
        h.assume(z3.And(b.own(n), uattr('_name', oid(b.mval(n))) != MISS))
        k, r = b.run()
        h.cover('refused' if k == 'exc' else 'x')
        h.oblige('a class with a field that is bound already is refused', k == 'exc')
    mode(P, covers=('refused',), name='bound_refused' if parent else 'bound_refused_no_parent', registry=body_registry)(run)


bound_refused(True)
bound_refused(False)


@mode(P, covers=('defined', 'refused'), registry=body_registry)
def parent_unchanged(h):
    """Whatever happens, only the new class and the fields of its body are modified."""
    b = Body(h)
    ex = b.ex
    b.unbound, b.check = False, True
    pre = snapshot(h)
    k, r = b.run()
    h.cover('defined' if k == 'ret' else 'refused')
    allow = (('attr', '_name'), ('attr', '_schema'))
    bad = [x for x in frame_ok(h, pre, allow) if not (x[0] == 'attr' and len(x) == 3 and ex.must(x[2] == oid(CLS_)))]
    h.oblige('no table and no other class is modified', not bad, info=bad)
    # a bound field: stays as it is
    f = h.obj('bound_field', Field)
    i = oid(f.t)
    h.assume(uattr('_name', i) != MISS)
    h.oblige('a bound field stays as it is', z3.And([ex.mem(a).select(i) == uattr(a, i) for a in FIELD_ATTRS if a != '*other*']))
