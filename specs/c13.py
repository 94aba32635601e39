"""C13: nested schemas, over the contracts of the nested class (C01, C02), Schema.dump (C06) and _raw_std (C14)."""
from .fieldop import *
from pyvc.harness import mode
from pyvc import registry as R

OUT = z3.Int('nested.outcome')       # 0 returns, 1 raises the validation error, 2 raises something else


class Nested(FieldOp):
    def __init__(self, h, ctx):
        ex = h.ex
        self.cls = h.val('schema_cls', type, sub=Schema)
        args, kw = [self.cls], {}
        h.reg.hints[(fields.Object, 'schema_cls')] = R.CLS(Schema)
        h.reg.hints[(fields.Object, 'init_kwargs')] = R.OBJ(collections.abc.Mapping)
        self.kwargs = None
        if ex.branch(z3.Bool('init_kwargs given')):
            self.kwargs = kw['init_kwargs'] = h.val('init_kwargs', dict)
        k, f = h.call(fields.Object, args, kw)
        h.oblige('the constructor returns', k == 'ret', info=f)
        if k != 'ret':
            raise Infeasible()
        FieldOp.__init__(self, h, f, ctx)
        ambient_set(h)
        h.assume(z3.And(OUT >= 0, OUT <= 2))
        for g in ('builds', 'dumps'):
            ex.st.ghost[g] = Z
        h.reg.class_call = self.class_call
        h.reg.virtuals['dump'] = self.nested_dump
        con(h.reg, ValidationError, '_raw_std', self.raw_std)

    def outcome(self, ex, v):
        i = ex.choose([OUT == 0, OUT == 1, OUT == 2])
        if i == 0:
            return v
        if i == 1:
            e = ex.new_obj(ValidationError, exact=False)
            ex.st.fired['nested'] = e
            raise PyRaise(e)
        e = R.foreign(ex)
        ex.assume(z3.Not(zbool(ex.inst(e, ValidationError))))
        raise PyRaise(e)

    def class_call(self, ex, f, args, kwargs):
        if not ex.must(ex.term(f) == self.cls.t):
            return None
        h = self.h
        ex.st.ghost['builds'] = simp(ex.st.ghost['builds'] + 1)
        h.oblige('the nested schema is built from the value', len(args) == 1 and ex.is_(args[0], self.value), info=args)
        rest = kwargs.get('**')
        if self.kwargs is None:
            h.oblige('without keyword arguments', not kwargs or rest is not None and not ex.dict_nonempty(ex.get_dict(rest)), info=kwargs)
        else:
            h.oblige('with the keyword arguments configured', set(kwargs) == {'**'} and ex.is_(rest, self.kwargs), info=kwargs)
        v = ex.mk(z3.Const('nested', Val), Schema)
        ex.assume(zbool(ex.isinstance_v(v, self.cls)))
        return self.outcome(ex, v)

    def nested_dump(self, ex, f, args, kwargs):
        ex.st.ghost['dumps'] = simp(ex.st.ghost['dumps'] + 1)
        self.h.oblige('the nested schema that is dumped is the value, with all its fields',
                      ex.is_(f.self_, self.value) and not args and not kwargs, info=(f, args, kwargs))
        return self.outcome(ex, ex.mk(z3.Const('dumped', Val), dict))

    def raw_std(self, ex, env):
        """ValidationError._raw_std: a new dictionary of the errors by key (see c14)."""
        d = ex.new_dict()
        ex.st.fired['raw'] = (env['self'], env['include_message'], d)
        return d

    def oblige_nested_error(self, k, r, what):
        h, ex = self.h, self.ex
        h.cover('nested failure')
        h.oblige(f'a failure of the nested {what} is a field error', k == 'exc' and zbool(ex.inst(r, FieldError)), info=(k, r))
        raw, e = ex.st.fired.get('raw'), ex.st.fired.get('nested')
        h.oblige('made from the nested validation error', raw is not None and ex.is_(raw[0], e), info=raw)
        if k != 'exc' or raw is None:
            return
        i = oid(ex.term(r))
        h.oblige('its errors are kept as field errors', ex.is_(raw[1], C(False)), info=raw)
        h.oblige('its message maps each failing nested key to its errors', ex.mem('message').select(i) == ex.term(raw[2]))
        for a, v in (('schema', 'current_schema'), ('_key', 'current_field_key')):
            h.oblige(f'it belongs to the outer field ({a})', ex.mem(a).select(i) == z3.Const('cv0!' + v, Val), prop='C07')


@mode('C13', covers=('instance', 'built', 'nested failure', 'other type', 'other exception'), props=('C21', 'C07'))
def object_load(h):
    ex = h.ex
    op = Nested(h, LoadContext)
    v = op.value
    if ex.branch(zbool(ex.isinstance_v(v, op.cls))):
        h.cover('instance')
        k, r = op.load()
        op.oblige_ok(k, r, v, 'an instance of the schema class is returned as it is', 'C13')
        h.oblige('and no schema is built', ex.st.ghost['builds'] == 0)
        return
    if not ex.branch(zbool(ex.inst(v, collections.abc.Mapping))):
        h.cover('other type')
        k, r = op.load()
        op.oblige_error(k, r, ex.getattr(op.f, 'ERR_INVALID_DATATYPE'), 'C13')
        h.oblige('and no schema is built', ex.st.ghost['builds'] == 0)
        return
    k, r = op.load()
    h.oblige('the nested schema is built exactly once', ex.st.ghost['builds'] == 1)
    if ex.branch(OUT == 0):
        h.cover('built')
        op.oblige_ok(k, r, ex.mk(z3.Const('nested', Val)), 'the value is the new nested schema', 'C13')
    elif ex.branch(OUT == 1):
        op.oblige_nested_error(k, r, 'construction')
    else:
        h.cover('other exception')
        h.oblige('no value is returned when the nested class raises', k == 'exc')


@mode('C13', covers=('none', 'dumped', 'nested failure', 'other exception'), props=('C07',))
def object_dump(h):
    ex = h.ex
    op = Nested(h, DumpContext)
    if ex.branch(op.value.t == Val.vnone):
        op.value = C(None)
        h.cover('none')
        k, r = op.dump()
        h.oblige('None serializes to None', k == 'ret' and ex.is_(r, C(None)), info=(k, r))
        h.oblige('and nothing is dumped', ex.st.ghost['dumps'] == 0)
        return
    op.value = h.obj('value', Schema)
    k, r = op.dump()
    h.oblige('the nested schema is dumped exactly once', ex.st.ghost['dumps'] == 1)
    if ex.branch(OUT == 0):
        h.cover('dumped')
        h.oblige('the value is the dump of the nested schema', k == 'ret' and ex.term(r) == z3.Const('dumped', Val), info=(k, r))
    elif ex.branch(OUT == 1):
        op.oblige_nested_error(k, r, 'dump')
    else:
        h.cover('other exception')
        h.oblige('no value is returned when the nested dump raises', k == 'exc')
