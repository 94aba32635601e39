"""Contracts of the operations on a schema: construction, update, assignment (C01-C05, C07).

The user's code is a family of callbacks with uninterpreted outcomes.  Each mode runs the real entry point from an
arbitrary state; obligations are attached to every callback call and to every exit."""
from .common import *
from pyvc.harness import mode
from pyvc import registry as R

F1 = lambda n, r=BoolS: z3.Function(n, Val, r)
VL = F1('load.outcome', I_)              # of the field: 0 returns, 1 signals failure, 2 raises something else
LOADED = F1('load.result', Val)          # what value_load returns
RAWFAIL, REGFAIL = F1('rawval.fail'), F1('val.fail')       # some raw / regular validator of the field signals failure
RAWFOR, REGFOR = F1('rawval.foreign'), F1('val.foreign')   # some validator raises something else
DEFRES = F1('default.result', Val)
FEFOR = F1('format_error.foreign')
CV = ('current_schema', 'current_field_key', 'current_context')
Z = z3.IntVal(0)


class Op:
    """One operation under study."""

    def __init__(self, h, s=None, eager=True):
        self.h, self.ex = h, h.ex
        ex = h.ex
        self.s = s if s is not None else h.obj('self', Schema)
        ex.solver.add(z3.Not(Val.is_vunset(self.s.t)))
        self.phi = self.kappa = None
        self.value = None                # the raw value supplied for the tracked field (term)
        self.eager = eager
        self.foreign_ok = True           # user code may raise what is no failure signal ...
        self.foreign_others = False      # ... also for fields that are not tracked (see the ambient modes)
        self.clean = False
        self.in_data = None
        r = h.reg
        r.virtuals['value_load'] = self.value_load
        r.virtuals['preprocess_data'] = self.preprocess
        r.virtuals['__schema_post_init__'] = self.post_init
        con(r, Field, '_run_validators', self.run_validators)
        con(r, Field, '_call_format_error', self.call_format_error)
        con(r, FieldError, '_from_standard_error', self.from_standard_error)
        con(r, oblate.configs._ConfigOption, '__get__', config_option)
        for n in ('load_key', 'dump_key'):
            p = getattr(Field, n, None)
            if isinstance(p, property):
                r.contracts[p.fget] = key_contract('_' + n)
        r.callback = self.callback
        r.class_call = self.class_call
        for g in ('loads', 'raw_runs', 'reg_runs', 'defaults', 'post_inits', 'preprocessed', 'required_err', 'none_err'):
            ex.st.ghost[g] = Z
        ex.opts['confined'] = self.confined
        # a symbol for each ambient variable of the caller
        self.amb0 = {n: z3.Const('cv0!' + n, Val) for n in CV}

    def confined(self, ex, what, i):
        """The shared state an operation may write (C22): its own schema, the values and the context of it."""
        me = oid(self.s.t)
        if what == 'dict':
            return i == oid(ex.mem('_field_values').select(me))
        if what == 'list':
            return False
        return z3.Or(i == me, i == oid(ex.mem('_context').select(me)))

    # --- state
    @property
    def cls(self):
        return schema_class(self.h, self.s)

    def tables(self):
        ex = self.ex
        cls = self.cls
        return ex.getattr(cls, '__fields__'), ex.getattr(cls, '__load_fields__')

    def values(self):
        return self.ex.get_dict(self.ex.getattr(self.s, '_field_values'))

    def vdom(self, name):
        return zbool(self.values().dom(self.ex, name))

    def vget(self, name):
        return self.ex.term(self.values().val(self.ex, name))

    def field_attr(self, n):
        """Option of the tracked field in the pre-state."""
        return uattr(n, oid(self.phi))

    def is_phi(self, f):
        t = self.ex.term(f)
        return self.phi is not None and (t.eq(self.phi) or self.ex.must(t == self.phi))

    def other(self, f):
        """The field is certainly not the tracked one."""
        return self.phi is None or self.ex.must(self.ex.term(f) != self.phi)

    def count(self, g):
        self.ex.st.ghost[g] = simp(self.ex.st.ghost[g] + 1)

    def ghost(self, g):
        return self.ex.st.ghost[g]

    def track_field(self, name='name'):
        """A field of the class (arbitrary), tracked by its name and load key."""
        h, ex = self.h, self.ex
        byname, byload = self.tables()
        n = h.str(name)
        self.name = ex.term(n)
        h.assume(dom(h, byname, self.name))
        self.phi = get(h, byname, self.name)
        ex.mk(self.phi, Field)
        k = ex.getattr(ex.mk(self.phi, Field), 'load_key')
        self.kappa = ex.term(k)
        h.assume(dom(h, byload, self.kappa))
        get(h, byload, self.kappa)
        ex.tracked += [('key', self.kappa), ('name', self.name)]
        for a, fail, frn in (('_raw_validators', RAWFAIL, RAWFOR), ('_validators', REGFAIL, REGFOR)):
            n = K.list_len(ex, ex.getattr(ex.mk(self.phi, Field), a))
            h.assume(z3.Implies(n == 0, z3.And(z3.Not(fail(self.phi)), z3.Not(frn(self.phi)))))
        return self.phi

    # --- ambient context
    def cv(self, n):
        v = R.cvar_value(self.ex, oblate_cvar(n))
        return self.ex.term(v)

    def ambient(self, where, field=None, value=None, context=None, key_=None):
        """Obligations of C07 at a call of user code."""
        h, ex = self.h, self.ex
        h.oblige(f'{where}: the current schema is the one processed', self.cv('current_schema') == self.s.t, prop='C07')
        if field is not None:
            h.oblige(f'{where}: the current key is the load key of the field', self.cv('current_field_key') == load_key(field), prop='C07')
        if value is not None:
            c = R.cvar_value(ex, oblate_cvar('current_context'))
            h.oblige(f'{where}: the current context is that of the field and value', self.is_context(c, field, value), prop='C07', info=c)

    def is_context(self, c, field, value):
        ex = self.ex
        c = ex.narrow(c) if isinstance(c, T) else c
        if not (isinstance(c, T) and c.hint is LoadContext):
            return False
        i = oid(c.t)
        return z3.And(ex.mem('schema').select(i) == self.s.t, ex.mem('_field').select(i) == field,
                      ex.mem('value').select(i) == value)

    def ambient_of_error(self, e, known=True):
        """The error was created now, under the current ambient context (assumed of user-made errors)."""
        ex = self.ex
        for a, n in (('schema', 'current_schema'), ('_key', 'current_field_key'), ('context', 'current_context')):
            ex.write_attr(e, a, ex.unterm(self.cv(n)))
        return e

    def new_error(self, cls=FieldError):
        ex = self.ex
        e = ex.new_obj(cls, exact=False)
        self.ambient_of_error(e)
        ex.write_attr(e, 'message', ex.mk(ex.fresh_val('message')))
        return e

    def may_foreign(self, f):
        return self.foreign_ok and (self.foreign_others or self.is_phi(f))

    def foreign(self):
        raise PyRaise(R.foreign(self.ex))

    # --- callbacks
    def value_load(self, ex, f, args, kwargs):
        h = self.h
        fld = ex.term(f.self_)
        v, c = args[0], args[1]
        t = ex.term(v)
        self.ambient('value_load', fld, t)
        h.oblige('value_load gets the context of the field', self.is_context(c, fld, t), prop='C07')
        if self.is_phi(f.self_):
            self.count('loads')
            h.oblige('value_load gets the supplied value', t == self.value, prop='C01')
            h.oblige('a None is not deserialized', t != Val.vnone, prop='C03')
        elif not self.other(f.self_):
            h.fail('value_load on a field that may or may not be the tracked one', prop='C01')
        o = VL(fld)
        i = ex.choose([o == 0, o == 1] + ([o == 2] if self.may_foreign(f.self_) else []))
        if i == 2:
            self.foreign()
        if i == 1:
            j = ex.choose([z3.BoolVal(True)] * 2)
            if j == 0:
                raise PyRaise(self.new_error())
            raise PyRaise(standard_error(ex))
        return ex.mk(LOADED(fld))

    def preprocess(self, ex, f, args, kwargs):
        self.count('preprocessed')
        self.ambient('preprocess_data')
        self.h.oblige('preprocess_data gets the data', ex.is_(args[0], self.data), prop='C01')
        if self.foreign_ok and ex.branch(z3.Bool('preprocess raises')):
            self.foreign()
        return self.pdata()

    def pdata(self):
        """The preprocessed data: an arbitrary value; keys and values of a mapping are arbitrary."""
        return self.ex.mk(z3.Const('pdata', Val), meta={'tag': 'key', 'hook': lambda *a: self.data_hook(*a)})

    def data_hook(self, ex, d, k, owner=None):
        pass

    def post_init(self, ex, f, args, kwargs):
        self.count('post_inits')
        self.ambient('__schema_post_init__')
        self.at_post_init()
        if self.foreign_ok and ex.branch(z3.Bool('post_init raises')):
            self.foreign()
        return C(None)

    def at_post_init(self):
        pass

    def callback(self, ex, f, args, kwargs):
        """Call of an unknown value: a default factory."""
        h = self.h
        fld = ex.term(args[1]) if len(args) == 2 else None
        if fld is None or not ex.must(z3.And(f.t == uattr('_default', oid(fld)))):
            raise Unsupported(f'call of {f}')
        self.ambient('default', fld)
        h.oblige('a default factory gets the schema context', ex.is_(args[0], ex.getattr(self.s, '_context')), prop='C01')
        if self.is_phi(args[1]):
            self.count('defaults')
        if self.may_foreign(args[1]) and ex.branch(F1('default.foreign')(fld)):
            self.foreign()
        return ex.mk(DEFRES(fld))

    def run_validators(self, ex, env):
        """Field._run_validators: returns a list with one error for each failing validator (see c03)."""
        h = self.h
        fv, value, ctx, raw = env['self'], env['value'], env['context'], env['raw']
        fld, t = ex.term(fv), ex.term(value)
        raw = ex.branch(zbool(ex.truth(raw)))
        w = 'raw validators' if raw else 'validators'
        h.oblige(f'{w} run on a load context of the field', self.vctx(ctx, fld), prop='C07', info=ctx)
        self.ambient(w, fld)
        cc = R.cvar_value(ex, oblate_cvar('current_context'))
        h.oblige(f'{w}: the current context is the one given to the validators', ex.is_(cc, ctx), prop='C07')
        lst = ex.getattr(fv, '_raw_validators' if raw else '_validators')
        n = K.list_len(ex, lst)
        fail, frn = (RAWFAIL(fld), RAWFOR(fld)) if raw else (REGFAIL(fld), REGFOR(fld))
        h.assume(z3.Implies(n == 0, z3.And(z3.Not(fail), z3.Not(frn))))
        tr = self.is_phi(fv)
        if tr:
            self.count('raw_runs' if raw else 'reg_runs')
            if raw:
                h.oblige('raw validators get the raw value', t == self.value, prop='C03')
            else:
                h.oblige('validators get the deserialized value', z3.And(t == LOADED(fld), self.value != Val.vnone, VL(fld) == 0), prop='C03')
        elif not self.other(fv):
            h.fail('validators of a field that may or may not be the tracked one', prop='C03')
        if self.may_foreign(fv) and ex.branch(frn):
            self.foreign()
        if not ex.branch(fail):
            return ex.new_list()

        def draw(e):
            err = self.new_error()
            return err
        n1, n2 = ex.fresh_int('n'), ex.fresh_int('n')
        h.assume(z3.And(n1 >= 0, n2 >= 0))
        one = self.new_error()
        if tr:
            ex.st.fired[('verr', raw)] = one
        segs = [Any_(n1, draw), Ex(one), Any_(n2, draw)]
        return ex.new_list(segs)

    def vctx(self, c, fld):
        ex = self.ex
        c = ex.narrow(c) if isinstance(c, T) else c
        if not (isinstance(c, T) and c.hint is LoadContext):
            return False
        i = oid(c.t)
        raw = z3.BoolVal(True) if not self.is_phi(ex.mk(fld, Field)) else ex.mem('value').select(i) == self.value
        return z3.And(ex.mem('schema').select(i) == self.s.t, ex.mem('_field').select(i) == fld, raw)

    def call_format_error(self, ex, env):
        h = self.h
        fv, code, sch, value = env['self'], env['error_code'], env['schema'], env['value']
        fld = ex.term(fv)
        self.ambient('format_error', fld)
        h.oblige('format_error gets the schema', ex.is_(sch, self.s), prop='C21')
        ct = ex.term(code)
        req, non = lit(Field.ERR_FIELD_REQUIRED), lit(Field.ERR_NONE_DISALLOWED)
        h.oblige('a known error code', z3.Or(ct == req, ct == non), prop='C21')
        h.oblige('the required error carries no value, the none error a None', ex.term(value) == z3.If(ct == req, MISS, Val.vnone), prop='C21')
        if self.is_phi(fv):
            h.oblige('the required error is for an absent field, the none error for a None',
                     z3.If(ct == req, z3.BoolVal(self.in_data is False), z3.And(z3.BoolVal(self.in_data is not False), self.value == Val.vnone))
                     if self.value is not None else ct == req, prop='C21')
            if ex.branch(ct == req):
                self.count('required_err')
            else:
                self.count('none_err')
        if self.may_foreign(fv) and ex.branch(FEFOR(fld)):
            self.foreign()
        return self.new_error()

    def from_standard_error(self, ex, env):
        h = self.h
        fld = ex.term(env['field'])
        self.ambient('error conversion', fld)
        h.oblige('error conversion gets the schema', ex.is_(env['schema'], self.s), prop='C21')
        if self.is_phi(env['field']):
            h.oblige('error conversion gets the offending value', ex.term(env['value']) == self.value, prop='C21', info=env['value'])
        if self.may_foreign(env['field']) and ex.branch(z3.And(FEFOR(fld), F1('no.message')(ex.term(env['err'])))):
            self.foreign()
        return self.new_error()

    def class_call(self, ex, f, args, kwargs):
        """The configured validation error class applied to a list of field errors."""
        h = self.h
        cur = ex.getattr(config(h), 'validation_error_cls')
        h.oblige('the error raised is of the configured class', ex.is_(f, cur), prop='C20')
        e = R.new_of_class(ex, T(f.t, type, sub=ValidationError))
        e = T(e.t, ValidationError)
        ex.st.cls_of[key(oid(e.t))] = (ValidationError, False)
        lst = args[0]
        segs = tuple(ex.get_list(lst).segs) if isinstance(lst, T) and lst.hint is list else None
        ex.st.fired[('verror', key(oid(e.t)))] = segs
        h.oblige('the validation error is created while the schema is current', self.cv('current_schema') == self.s.t, prop='C07')
        if segs is None:
            raise Unsupported('validation error of an unknown list')
        n = Lst(segs).length()
        h.oblige('a validation error has at least one field error', n >= 1, prop='C02')
        return e

    # --- exits
    def validation_error(self, k, r):
        """The errors of the validation error raised by the operation itself, or None."""
        if k != 'exc':
            return None
        return self.ex.st.fired.get(('verror', key(oid(r.t))))

    def errors_at(self, segs, key_):
        """The field errors known to be under a key."""
        ex = self.ex
        out = []
        for s in segs:
            if isinstance(s, Ex):
                i = oid(ex.term(s.v))
                if ex.must(ex.mem('_key').select(i) == key_):
                    out.append(s.v)
        return out

    def check_ambient(self, k, r):
        for n in CV:
            self.h.oblige(f'{n} is restored', self.cv(n) == self.amb0[n], prop='C07', info=(k, r))

    def problem(self, in_data):
        """Something is wrong at the tracked field."""
        ex = self.ex
        if not in_data:
            return ex.truth_term(self.field_attr('required'))
        v = self.value
        p = self.phi
        return z3.Or(z3.And(v == Val.vnone, z3.Not(ex.truth_term(self.field_attr('none')))), RAWFAIL(p),
                     z3.And(v != Val.vnone, z3.Or(VL(p) == 1, z3.And(VL(p) == 0, REGFAIL(p)))))

    def check_field_errors(self, k, r, in_data):
        """C02/C03 at the tracked field."""
        h, ex = self.h, self.ex
        bad = self.problem(in_data)
        segs = self.validation_error(k, r)
        if k == 'ret':
            h.oblige('the operation fails when something is wrong with a field', z3.Not(bad), prop='C02')
            if in_data:
                h.oblige('a failing validator vetoes the operation', z3.Not(z3.Or(RAWFAIL(self.phi), z3.And(
                    REGFAIL(self.phi), self.value != Val.vnone, VL(self.phi) == 0))), prop='C03')
        elif segs is not None and ex.branch(bad):
            h.cover('bad field')
            at = self.errors_at(segs, self.kappa)
            self.oblige_found('the validation error has an error under the key of each bad field', bool(at), segs, 'C02')
            for e in at:
                h.oblige('errors record the schema', ex.mem('schema').select(oid(ex.term(e))) == self.s.t, prop='C07')
        if in_data and (k == 'ret' or segs is not None):
            nraw = K.list_len(ex, ex.mk(self.field_attr('_raw_validators'), list, meta={'tag': 'raw'}))
            nreg = K.list_len(ex, ex.mk(self.field_attr('_validators'), list, meta={'tag': 'validators'}))
            g = self.ghost
            h.oblige('raw validators run exactly once', z3.Or(g('raw_runs') == 1, z3.And(nraw == 0, g('raw_runs') == 0)), prop='C03')
            loaded = z3.And(self.value != Val.vnone, VL(self.phi) == 0)
            h.oblige('validators run exactly once on a deserialized value',
                     z3.If(loaded, z3.Or(g('reg_runs') == 1, z3.And(nreg == 0, g('reg_runs') == 0)), g('reg_runs') == 0), prop='C03')
            h.oblige('a value is deserialized exactly once', g('loads') == z3.If(self.value != Val.vnone, 1, 0), prop='C01')
        if segs is not None:
            for raw in (True, False):
                one = ex.st.fired.get(('verr', raw))
                if one is not None:
                    h.cover('validator error')
                    self.oblige_found('each failing validator contributes its error', any(
                        isinstance(s, Ex) and ex.must(zbool(ex.is_(s.v, one))) for s in segs), segs, 'C03')

    def oblige_found(self, name, found, segs, prop):
        if not found and any(isinstance(s, Any_) and getattr(s, 'opaque', False) for s in segs):
            self.ex.st.fired['imprecise'] = True
        self.h.oblige(name, found, prop=prop, info=segs)


def con(r, owner, name, f):
    """Attach a contract to a real function (if it exists; it is inlined otherwise)."""
    import inspect
    st = inspect.getattr_static(owner, name, None)
    if isinstance(st, (classmethod, staticmethod)):
        st = st.__func__
    if st is not None:
        r.contracts[st] = f


def key_contract(attr):
    """Field.load_key and Field.dump_key of a bound field (see c19): the explicit key, else the name."""
    def f(ex, env):
        i = oid(ex.term(env['self']))
        k, n = ex.mem(attr).select(i), ex.mem('_name').select(i)
        ex.assume(z3.And(z3.Or(k == MISS, Val.is_vstr(k)), Val.is_vstr(n)))
        return ex.mk(z3.If(k == MISS, n, k), str)
    return f


def oblate_cvar(n):
    return getattr(oblate.utils, n)


CONFIG_CLS = z3.Function('config.validation_error_cls', Val, Val)


def config_option(ex, env):
    """Reading a global option (see c20): a subclass of ValidationError, or a bool."""
    o, inst = env['self'], env['instance']
    if not (isinstance(o, C) and isinstance(inst, T)):
        raise Unsupported('option of an unknown configuration')
    if o.o._name == 'validation_error_cls':
        return ex.mk(CONFIG_CLS(inst.t), type, sub=ValidationError)
    return B(z3.Function('config.' + o.o._name, Val, BoolS)(inst.t))


def config(h):
    return h.ex.reg.modattr[('oblate', 'config')](h.ex)


def standard_error(ex):
    """A ValueError or AssertionError that is not a FieldError."""
    e = ex.new_obj(Exception, exact=False)
    ex.assume(zbool(ex.disj([ex.inst(e, ValueError), ex.inst(e, AssertionError)])))
    ex.assume(z3.Not(zbool(ex.inst(e, FieldError))))
    return e


def kwargs_ignore(h, op):
    """The ignore_extra argument: omitted or arbitrary; returns (kwargs, effective truth)."""
    ex = h.ex
    cfg = ex.getattr(op.cls, '__config__')
    if ex.branch(z3.Bool('ignore_extra given')):
        v = h.val('ignore_extra')
        h.assume(v.t != MISS)
        return {'ignore_extra': v}, zbool(ex.truth(v))
    return {}, zbool(ex.truth(ex.getattr(cfg, 'ignore_extra')))


def final_value(op, in_data):
    """What the statement of C01 says the field holds after construction."""
    has, val = op.vdom(op.name), op.vget(op.name)
    if in_data:
        return z3.And(has, val == z3.If(op.value == Val.vnone, Val.vnone, LOADED(op.phi)))
    dflt = op.field_attr('_default')
    return z3.If(dflt == MISS, z3.Not(has), z3.And(has, val == z3.If(is_callable(dflt), DEFRES(op.phi), dflt)))


# =============================================================================== construction

def construct_setup(h, eager=False):
    op = Op(h, eager=eager)
    ex = h.ex
    op.data = h.val('data', meta={'tag': 'key', 'hook': lambda *a: op.data_hook(*a)})
    op.ismap = zbool(ex.inst(op.data, collections.abc.Mapping))
    pd = op.pdata()
    op.pismap = zbool(ex.inst(pd, collections.abc.Mapping))
    return op


import collections.abc


def pdict(op):
    """The preprocessed data as a dictionary."""
    ex = op.ex
    v = ex.mk(z3.Const('pdata', Val), collections.abc.Mapping, meta={'tag': 'key', 'hook': lambda *a: op.data_hook(*a)})
    return ex.get_dict(v)


PROPS = ('C01', 'C02', 'C03', 'C07', 'C20', 'C21')


@mode('C01', covers=('loaded', 'none', 'default factory', 'default value', 'unset', 'bad field', 'validator error'), props=PROPS, parts=8)
def construct_field(h):
    """An arbitrary field of the class: present with an arbitrary value, or absent."""
    ex = h.ex
    op = construct_setup(h)
    h.assume(op.ismap)
    h.assume(op.pismap)
    op.track_field()
    d = pdict(op)
    op.in_data = ex.branch(zbool(d.dom(ex, op.kappa)))
    op.value = ex.term(d.val(ex, op.kappa)) if op.in_data else None
    if op.in_data:
        h.assume(z3.Not(Val.is_vunset(op.value)))

    def at_post_init():
        h.oblige('all values are in place in the post-initialization hook', final_value(op, op.in_data), prop='C01')
        h.oblige('the schema is initialized in the post-initialization hook',
                 ex.truth(ex.getattr(ex.getattr(op.s, '_context'), '_initialized')), prop='C01')
        h.oblige('the hook runs only when nothing is wrong', z3.Not(op.problem(op.in_data)), prop='C02')
    op.at_post_init = at_post_init
    state, ign = h.val('state'), h.val('ignore_extra')      # omitted: see construct_clean and construct_unknown
    kw = {'state': state, 'ignore_extra': ign}
    h.split(*([op.value == Val.vnone, VL(op.phi) == 0, RAWFAIL(op.phi)] if op.in_data else
              [op.field_attr('_default') == MISS]))
    k, r = h.method(op.s, '__init__', [op.data], kw)
    op.check_ambient(k, r)
    op.check_field_errors(k, r, op.in_data)
    if k == 'ret':
        h.oblige('the field holds what the data and the defaults dictate', final_value(op, op.in_data), prop='C01')
        h.oblige('the hook runs exactly once', op.ghost('post_inits') == 1, prop='C01')
        h.oblige('the data is preprocessed exactly once', op.ghost('preprocessed') == 1, prop='C01')
        c = ex.getattr(op.s, '_context')
        h.oblige('the schema context is of the schema, with the state given', z3.And(
            ex.mem('schema').select(oid(c.t)) == op.s.t, ex.mem('state').select(oid(c.t)) == ex.term(state)), prop='C01')
        dflt = op.field_attr('_default')
        if op.in_data:
            h.cover('loaded' if ex.must(op.value != Val.vnone) else 'none')
        else:
            call = ex.branch(is_callable(dflt))
            h.cover('unset' if ex.must(dflt == MISS) else 'default factory' if call else 'default value')
            h.oblige('a default factory is called exactly once', op.ghost('defaults') == z3.If(z3.And(dflt != MISS, z3.BoolVal(bool(call))), 1, 0), prop='C01')


@mode('C02', covers=('unknown key reported', 'unknown key ignored'), props=('C07', 'C20'), parts=4)
def construct_unknown(h):
    """A key of the data that is no load key."""
    ex = h.ex
    op = construct_setup(h)
    h.assume(op.ismap)
    h.assume(op.pismap)
    k0 = h.val('key')
    op.kappa = ex.term(k0)
    h.assume(Val.is_vstr(op.kappa))
    ex.tracked.append(('key', op.kappa))
    _, byload = op.tables()
    h.assume(z3.Not(dom(h, byload, op.kappa)))
    h.assume(zbool(pdict(op).dom(ex, op.kappa)))
    kw, ign = kwargs_ignore(h, op)
    h.split(ign)
    k, r = h.method(op.s, '__init__', [op.data], kw)
    op.check_ambient(k, r)
    unknown_key(op, k, r, ign)


def unknown_key(op, k, r, ign):
    h, ex = op.h, op.ex
    segs = op.validation_error(k, r)
    if ex.branch(ign):
        h.cover('unknown key ignored')
        return
    h.oblige('an unknown key fails the operation', k == 'exc', prop='C02')
    if segs is not None:
        h.cover('unknown key reported')
        at = op.errors_at(segs, op.kappa)
        op.oblige_found('the validation error has an error under the unknown key', bool(at), segs, 'C02')
        for e in at:
            i = oid(ex.term(e))
            h.oblige('the error of an unknown key records the schema', ex.mem('schema').select(i) == op.s.t, prop='C07')


def clean_fields(op, ign, absent=True):
    """Nothing is wrong with any key of the data, nor any absent field."""
    h, ex = op.h, op.ex
    L = oid(uattr('__load_fields__', oid(op.cls.t)))
    tr = ex.truth_term

    def field_ok(k, v):
        phi = UGET(L, k)
        i = oid(phi)
        return z3.And(z3.Not(RAWFAIL(phi)), z3.If(v == Val.vnone, tr(uattr('none', i)), z3.And(VL(phi) == 0, z3.Not(REGFAIL(phi)))),
                      z3.BoolVal(True) if absent else z3.Not(tr(uattr('frozen', i))))

    def hook(ex, d, k, owner=None):
        ex.assume(z3.Implies(d.domf(k), z3.If(UDOM(L, k), field_ok(k, d.valf(k)), ign)))
        ex.assume(z3.Implies(UDOM(L, k), VL(UGET(L, k)) >= 0))
    op.data_hook = hook
    if absent:
        def lhook(ex, d, k):
            p = pdict(op)
            ex.assume(z3.Implies(z3.And(d.domf(k), z3.Not(zbool(p.dom(ex, k)))), z3.Not(tr(uattr('required', oid(d.valf(k)))))))
        ex.opts['load_hook'] = lhook


@mode('C02', covers=('returns',), props=('C01', 'C07'), parts=4)
def construct_clean(h):
    """Nothing is wrong: construction returns (state and ignore_extra omitted or given)."""
    ex = h.ex
    op = construct_setup(h)
    op.foreign_ok = False
    h.assume(op.ismap)
    h.assume(op.pismap)
    ign = z3.BoolVal(False)
    kw, ign = kwargs_ignore(h, op)
    clean_fields(op, ign)
    op.data = h.val('data', meta={'tag': 'key', 'hook': lambda *a: op.data_hook(*a)})
    op.at_post_init = lambda: None
    h.split()
    k, r = h.method(op.s, '__init__', [op.data], kw)
    h.oblige('construction succeeds when nothing is wrong', k == 'ret', info=r)
    op.check_ambient(k, r)
    if k == 'ret':
        h.cover('returns')
        h.oblige('__init__ returns nothing', ex.is_(r, C(None)), prop='C01')
        c = ex.getattr(op.s, '_context')
        h.oblige('the state is None when it is omitted', ex.is_(ex.getattr(c, 'state'), C(None)), prop='C01')
        h.oblige('the schema is initialized', ex.truth(ex.getattr(c, '_initialized')), prop='C01')


@mode('C01', covers=('returns',), parts=2)
def construct_nothing_else(h):
    """A name that is no field name: nothing is stored under it."""
    ex = h.ex
    op = construct_setup(h)
    op.foreign_ok = False
    h.assume(op.ismap)
    h.assume(op.pismap)
    byname, _ = op.tables()
    op.name = ex.term(h.str('name'))
    ex.tracked.append(('name', op.name))
    h.assume(z3.Not(dom(h, byname, op.name)))
    h.split()
    k, r = h.method(op.s, '__init__', [op.data], {'ignore_extra': h.val('ignore_extra')})
    if k == 'ret':
        h.cover('returns')
        h.oblige('nothing is stored that is not the value of a field', z3.Not(op.vdom(op.name)))


@mode('C02', covers=('data', 'preprocessed'), props=('C07',))
def construct_not_a_mapping(h):
    ex = h.ex
    op = construct_setup(h)
    op.foreign_ok = False
    h.assume(z3.Or(z3.Not(op.ismap), z3.Not(op.pismap)))
    k, r = h.method(op.s, '__init__', [op.data], {})
    h.oblige('data that is no mapping fails', k == 'exc')
    if k == 'exc':
        h.oblige('data that is no mapping raises TypeError', is_exc(h, r, TypeError))
    op.check_ambient(k, r)
    h.cover('data' if ex.must(z3.Not(op.ismap)) else 'preprocessed')


@mode('C07', covers=('exception', 'returns'), parts=4)
def construct_ambient(h):
    """Any user code may raise anything, for any field."""
    ex = h.ex
    op = construct_setup(h)
    op.foreign_others = True
    h.split()
    k, r = h.method(op.s, '__init__', [op.data], {'ignore_extra': h.val('ignore_extra')})
    op.check_ambient(k, r)
    h.cover('returns' if k == 'ret' else 'exception')


# ====================================================================================== update

def update_setup(h, tag='key'):
    op = Op(h)
    ex = h.ex
    op.data = ex.mk(z3.Const('data', Val), collections.abc.Mapping, meta={'tag': tag, 'hook': lambda *a: op.data_hook(*a)})
    c = ex.getattr(op.s, '_context')
    op.frozen = zbool(ex.truth(ex.getattr(ex.getattr(op.cls, '__config__'), 'frozen')))
    return op


def remember(op):
    op.has0, op.val0 = op.vdom(op.name), op.vget(op.name)


def unchanged(op):
    return z3.And(op.vdom(op.name) == op.has0, z3.Implies(op.has0, op.vget(op.name) == op.val0))


def after_update(op, k, r):
    """C04, C05 at the tracked field."""
    h, ex = op.h, op.ex
    h.oblige('no field changes when the operation raises', True if k == 'ret' else unchanged(op), prop='C04')
    ffrozen = ex.truth_term(op.field_attr('frozen'))
    h.oblige('a frozen schema never changes', z3.Implies(op.frozen, unchanged(op)), prop='C05')
    h.oblige('a frozen field never changes', z3.Implies(ffrozen, unchanged(op)), prop='C05')
    if k == 'ret':
        h.oblige('the operation never returns on a frozen schema', z3.Not(op.frozen), prop='C05')
        if op.in_data:
            h.oblige('the operation never returns for a frozen field', z3.Not(ffrozen), prop='C05')
            h.cover('stored')
            h.oblige('a supplied field holds what its deserialization returned',
                     z3.And(op.vdom(op.name), op.vget(op.name) == z3.If(op.value == Val.vnone, Val.vnone, LOADED(op.phi))), prop='C04')
        else:
            h.cover('other')
            h.oblige('a field that is not supplied is unchanged', unchanged(op), prop='C04')
    elif ex.must(op.frozen):
        h.cover('frozen schema')
        h.oblige('a frozen schema raises FrozenError', is_exc(h, r, FrozenError), prop='C05')
        h.oblige('no user code runs on a frozen schema', z3.And(op.ghost('loads') == 0, op.ghost('raw_runs') == 0), prop='C05')


@mode('C04', covers=('stored', 'other', 'bad field', 'validator error', 'frozen schema'), props=('C02', 'C03', 'C05', 'C07', 'C20', 'C21'), parts=8)
def update_field(h):
    """An arbitrary field, supplied or not."""
    ex = h.ex
    op = update_setup(h)
    op.track_field()
    remember(op)
    d = ex.get_dict(op.data)
    op.in_data = ex.branch(zbool(d.dom(ex, op.kappa)))
    op.value = ex.term(d.val(ex, op.kappa)) if op.in_data else None
    if op.in_data:
        h.assume(z3.Not(Val.is_vunset(op.value)))
        h.split(op.value == Val.vnone, VL(op.phi) == 0, RAWFAIL(op.phi))
    else:
        h.split()
    k, r = h.method(op.s, 'update', [op.data], {'ignore_extra': h.val('ignore_extra')})
    op.check_ambient(k, r)
    after_update(op, k, r)
    if op.in_data:
        op.check_field_errors(k, r, True)
    if k == 'ret':
        h.oblige('update returns None', ex.is_(r, C(None)), prop='C04')


@mode('C04', covers=('unknown key reported', 'unknown key ignored'), props=('C07',), parts=2)
def update_unknown(h):
    ex = h.ex
    op = update_setup(h)
    op.kappa = ex.term(h.str('key'))
    ex.tracked.append(('key', op.kappa))
    _, byload = op.tables()
    h.assume(z3.Not(dom(h, byload, op.kappa)))
    h.assume(zbool(ex.get_dict(op.data).dom(ex, op.kappa)))
    h.assume(z3.Not(op.frozen))
    kw, ign = kwargs_ignore(h, op)
    h.split(ign)
    k, r = h.method(op.s, 'update', [op.data], kw)
    op.check_ambient(k, r)
    if ex.branch(ign):
        h.cover('unknown key ignored')
        return
    h.oblige('an unknown key fails the update', k == 'exc')
    segs = op.validation_error(k, r)
    if segs is not None:
        h.cover('unknown key reported')
        at = op.errors_at(segs, op.kappa)
        op.oblige_found('a failed update has an error under the unknown key', bool(at), segs, 'C07')
        for e in at:
            h.oblige('the error of an unknown key records the schema', ex.mem('schema').select(oid(ex.term(e))) == op.s.t, prop='C07')


@mode('C04', covers=('returns',), parts=2)
def update_clean(h):
    """Nothing supplied is unknown (unless ignored), frozen or invalid: update returns."""
    ex = h.ex
    op = update_setup(h)
    op.foreign_ok = False
    h.assume(z3.Not(op.frozen))
    kw, ign = kwargs_ignore(h, op)
    clean_fields(op, ign, absent=False)
    h.split()
    k, r = h.method(op.s, 'update', [op.data], kw)
    h.oblige('update succeeds when nothing is wrong', k == 'ret', info=r)
    if k == 'ret':
        h.cover('returns')


@mode('C04', covers=('returns', 'exception'), props=('C05', 'C07'), parts=4)
def update_rollback(h):
    """Any user code may raise anything, for any field; any name."""
    ex = h.ex
    op = update_setup(h)
    op.foreign_others = True
    op.name = ex.term(h.str('name'))
    ex.tracked.append(('name', op.name))
    remember(op)
    byname, _ = op.tables()
    isfield = ex.branch(dom(h, byname, op.name))
    h.split(op.frozen)
    k, r = h.method(op.s, 'update', [op.data], {'ignore_extra': h.val('ignore_extra')})
    op.check_ambient(k, r)
    if k == 'exc':
        h.cover('exception')
        h.oblige('no field changes when update raises', unchanged(op), prop='C04')
    else:
        h.cover('returns')
    h.oblige('a frozen schema never changes', z3.Implies(op.frozen, unchanged(op)), prop='C05')
    if not isfield:                      # for fields: see update_field
        h.oblige('a name that is no field is never stored', unchanged(op), prop='C04')


# ====================================================================================== assignment

def assign_setup(h):
    op = Op(h)
    ex = h.ex
    op.track_field()
    c = ex.getattr(op.s, '_context')
    op.frozen = zbool(ex.truth(ex.getattr(ex.getattr(op.cls, '__config__'), 'frozen')))
    remember(op)
    return op


ASSIGN = ('C03', 'C05', 'C07', 'C20', 'C21', 'C02')


@mode('C04', covers=('stored', 'bad field', 'validator error', 'frozen schema', 'frozen field'), props=ASSIGN)
def assign_field(h):
    """schema.name = value, for the field assigned to."""
    ex = h.ex
    op = assign_setup(h)
    op.in_data = True
    op.value = ex.term(h.val('value'))
    ffrozen = ex.truth_term(op.field_attr('frozen'))
    k, r = h.method(ex.mk(op.phi, Field), '__set__', [op.s, h.val('value')])
    op.check_ambient(k, r)
    after_update(op, k, r)
    if not ex.branch(z3.Or(op.frozen, ffrozen)):
        op.check_field_errors(k, r, True)
        if k == 'exc':
            bad = z3.Or(op.problem(True), RAWFOR(op.phi), REGFOR(op.phi), VL(op.phi) == 2, FEFOR(op.phi))
            h.oblige('assignment succeeds when nothing is wrong', z3.Or(bad, z3.Not(z3.And(VL(op.phi) >= 0, VL(op.phi) <= 2))), prop='C04')
    else:
        h.cover('frozen field' if not ex.must(op.frozen) else 'frozen schema')
        h.oblige('an assignment to something frozen raises FrozenError', k == 'exc' and is_exc(h, r, FrozenError), prop='C05')
        h.oblige('no user code runs for something frozen', z3.And(op.ghost('loads') == 0, op.ghost('raw_runs') == 0), prop='C05')


@mode('C04', covers=('returns', 'exception'))
def assign_other(h):
    """Assignment to one field leaves every other name alone."""
    ex = h.ex
    op = assign_setup(h)
    op.value = ex.term(h.val('value'))
    op.in_data = True
    phi_name = op.name
    op.name = ex.term(h.str('other name'))
    h.assume(op.name != phi_name)
    ex.tracked.append(('name', op.name))
    remember(op)
    k, r = h.method(ex.mk(op.phi, Field), '__set__', [op.s, h.val('value')])
    h.cover('returns' if k == 'ret' else 'exception')
    h.oblige('every other field is unchanged', unchanged(op))
