"""Class invariants and value hints of the oblate classes (the ghost part of the specifications)."""
import z3
import oblate, oblate.schema, oblate.fields.base, oblate.contexts, oblate.exceptions, oblate.configs, oblate.validate, oblate.utils
from pyvc.vals import *
from pyvc.heap import *
from pyvc.engine import *
from pyvc.registry import *
from pyvc import containers as K

Schema = oblate.schema.Schema
Field = oblate.fields.base.Field
SchemaContext, LoadContext, DumpContext, ErrorContext = (oblate.contexts.SchemaContext, oblate.contexts.LoadContext,
                                                         oblate.contexts.DumpContext, oblate.contexts.ErrorContext)
BaseContext = oblate.contexts._BaseValueContext
FieldError, ValidationError, FieldNotSet, FrozenError = (oblate.exceptions.FieldError, oblate.exceptions.ValidationError,
                                                         oblate.exceptions.FieldNotSet, oblate.exceptions.FrozenError)
GlobalConfig, SchemaConfig = oblate.configs.GlobalConfig, oblate.configs.SchemaConfig
MISSING = oblate.utils.MISSING

FIELD_ATTRS = ('none', 'required', 'frozen', 'extras', '_default', '_name', '_schema', '_validators', '_raw_validators',
               '_load_key', '_dump_key', '*other*')


def base_registry():
    r = Registry()
    r.unset_term = MISS
    h = r.hints
    h[(Schema, '_field_values')] = DICT(khint=str, tag='name')
    h[(Schema, '_context')] = OBJ(SchemaContext)
    h[(Schema, '__fields__')] = DICT(khint=str, vhint=Field, tag='name', hook=fields_hook)
    h[(Schema, '__load_fields__')] = DICT(khint=str, vhint=Field, tag='key', hook=load_fields_hook)
    h[(Schema, '__config__')] = CLS(SchemaConfig)
    for a in ('ignore_extra', 'frozen', 'slotted', 'add_repr'):
        h[(SchemaConfig, a)] = ANY()
    for a in ('none', 'required', 'frozen', 'extras', '_default'):
        h[(Field, a)] = ANY()
    h[(Field, '_name')] = OBJ(str)
    h[(Field, '_load_key')] = Hint('obj', str, opt=MISSING)
    h[(Field, '_dump_key')] = Hint('obj', str, opt=MISSING)
    h[(Field, '_schema')] = CLS(Schema)
    h[(Field, '_validators')] = LIST(tag='validators')
    h[(Field, '_raw_validators')] = LIST(tag='raw')
    r.gattrs['__validator_is_raw__'] = Hint('any', maybe=True)
    r.gattrs['cvar:current_schema'] = OBJ(Schema)
    r.gattrs['__name__'] = OBJ(str)
    h[(SchemaContext, 'schema')] = OBJ(Schema)
    h[(SchemaContext, 'state')] = ANY()
    h[(SchemaContext, 'config')] = CLS(SchemaConfig)
    h[(SchemaContext, '_initialized')] = OBJ(bool)
    for c in (BaseContext, ErrorContext):
        h[(c, 'schema')] = OBJ(Schema)
        h[(c, '_field')] = OBJ(Field)
    h[(BaseContext, 'value')] = ANY()
    h[(ErrorContext, '_value')] = ANY()
    h[(FieldError, 'schema')] = OBJ(Schema)
    h[(FieldError, '_key')] = OBJ(str)
    for a in ('message', 'state', 'context'):
        h[(FieldError, a)] = ANY()
    r.copyattrs[Field] = FIELD_ATTRS
    r.copyattrs[Schema] = ('_field_values', '_context')
    r.copyattrs[SchemaContext] = SchemaContext.__slots__
    cfg = lambda ex: ex.mk(z3.Const('oblate.config', Val), GlobalConfig)
    r.modattr[('oblate', 'config')] = cfg
    return r


I_, BoolS = z3.IntSort(), z3.BoolSort()
UDOM = z3.Function('dom', I_, Val, BoolS)
UGET = z3.Function('get', I_, Val, Val)
MISS = lit(MISSING)


def uattr(name, i):
    """Attribute in the pre-state."""
    return z3.Function('a:' + name, I_, Val)(i)


def field_name(phi):
    return uattr('_name', oid(phi))


def load_key(phi):
    k = uattr('_load_key', oid(phi))
    return z3.If(k == MISS, field_name(phi), k)


def dump_key(phi):
    k = uattr('_dump_key', oid(phi))
    return z3.If(k == MISS, field_name(phi), k)


def wf_field(ex, phi):
    i = oid(phi)
    for a in ('_load_key', '_dump_key'):
        k = uattr(a, i)
        ex.assume(z3.Or(k == MISS, Val.is_vstr(k)))


def fields_hook(ex, d, k, owner):
    """Class invariant of Schema.__fields__: fields[k] is bound under the name k, and its load key leads to it."""
    if owner is None:
        return
    L = oid(uattr('__load_fields__', owner[1]))
    phi = d.valf(k)
    wf_field(ex, phi)
    ex.assume(z3.Implies(d.domf(k), z3.And(Val.is_vstr(k), Val.is_vobj(phi), field_name(phi) == k,
                                           UDOM(L, load_key(phi)), UGET(L, load_key(phi)) == phi)))
    if ex.opts.get('fields_hook') is not None:
        ex.opts['fields_hook'](ex, d, k)


def load_fields_hook(ex, d, k, owner):
    """Class invariant of Schema.__load_fields__: load_fields[k] is the current field of its name, and its load key is k."""
    if owner is None:
        return
    F = oid(uattr('__fields__', owner[1]))
    phi = d.valf(k)
    wf_field(ex, phi)
    n = field_name(phi)
    ex.assume(z3.Implies(d.domf(k), z3.And(Val.is_vstr(k), Val.is_vobj(phi), Val.is_vstr(n), load_key(phi) == k,
                                           UDOM(F, n), UGET(F, n) == phi)))
    if ex.opts.get('load_hook') is not None:
        ex.opts['load_hook'](ex, d, k)


# ------------------------------------------------------------------------------- ghost helpers

def snapshot(h):
    return h.ex.st.copy()


def frame_ok(h, pre, allow=()):
    """No object of the pre-state changed (attributes, dictionaries, lists), except (kind, name) in allow."""
    ex = h.ex
    bad = []
    for n, m in ex.st.attrs.items():
        m0 = pre.attrs.get(n) or ex.mem_memo[n]
        if m is m0 or ('attr', n) in allow:
            continue
        nodes = m.since(m0)
        if nodes is None:
            bad.append(('attr', n))
            continue
        for u in nodes:
            if u.kind == 'store':
                if is_fresh_id(u.idx) and not in_pre(u.idx, pre):
                    continue
                if ex.must(m.select(u.idx) == m0.select(u.idx)):
                    continue
                bad.append(('attr', n, u.idx))
            elif getattr(u.cond, 'all_', True):
                bad.append(('attr', n))
    for what, tab, tab0 in (('dict', ex.st.dicts, pre.dicts), ('list', ex.st.lists, pre.lists)):
        for k, (i, d) in tab.items():
            if k in tab0:
                d0 = tab0[k][1]
            elif is_fresh_id(i):
                continue
            else:
                d0 = ex.base_dict(i, {}) if what == 'dict' else None
            own = ex.st.owner.get(k)
            if d is d0 or own and (what, own[0]) in allow:
                continue
            if what == 'list':
                base = d0.segs if d0 is not None else (Slice(ex.base_seq(i)),)
                if d0 is None and len(d.segs) == 1 and isinstance(d.segs[0], Slice) and d.segs[0].whole():
                    continue
                if K.ropes_equal(ex, d.segs, base):
                    continue
            bad.append((what, own, i))
    return bad


def in_pre(i, pre):
    r = fresh_root(i)
    root0, off0 = pre.alloc
    rn = '' if z3.is_int_value(root0) else root0.decl().name()
    if r is None or r[0] != rn:
        return False
    return r[1] < off0 + (root0.as_long() if z3.is_int_value(root0) else 0)


def oblige_frame(h, pre, name, allow=(), prop=None):
    bad = frame_ok(h, pre, allow)
    h.oblige(name, not bad, info=bad, prop=prop)


def schema_class(h, v):
    f = z3.Function('typeof', Val, Val)
    return h.ex.mk(f(v.t), type, sub=Schema)


def class_fields(h, sch):
    """(name table, load key table) of the class of a schema"""
    c = schema_class(h, sch)
    return h.ex.getattr(c, '__fields__'), h.ex.getattr(c, '__load_fields__')


def dom(h, d, k):
    return zbool(h.ex.get_dict(d).dom(h.ex, k))


def get(h, d, k):
    return h.ex.term(h.ex.get_dict(d).val(h.ex, k))


def is_exc(h, e, cls):
    return zbool(h.ex.inst(e, cls))


def is_callable(t):
    return z3.And(Val.is_vobj(t), z3.Function('callable', Val, BoolS)(t))
