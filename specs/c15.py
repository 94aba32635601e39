"""C15: copies of schemas and fields, and their independence under later operations."""
import copy as _copy
from .core import *
from .c18 import lists


def fresh(h, pre, v):
    """The object was allocated since pre."""
    i = oid(h.ex.term(v))
    return is_fresh_id(i) and not in_pre(i, pre)


def shallow(h, pre, got, orig):
    """got is a shallow copy of orig (a value of the pre-state)."""
    ex = h.ex
    o = ex.narrow(orig) if isinstance(orig, T) else orig
    if isinstance(o, T) and o.hint is list:
        return isinstance(got, T) and ex.kind(got) is list and fresh(h, pre, got) and K.ropes_equal(ex, ex.get_list(got).segs, pre_list(ex, pre, o))
    if isinstance(o, T) and o.hint in (dict, set):
        return isinstance(got, T) and ex.kind(got) is o.hint and fresh(h, pre, got) and ex.get_dict(got) is ex.get_dict(o)
    if isinstance(o, T) and o.hint is None:
        return ex.term(got) == z3.Function('copyof', Val, Val)(o.t)
    return ex.is_(got, o)


def pre_list(ex, pre, o):
    k = key(oid(o.t))
    return pre.lists[k][1].segs if k in pre.lists else ex.get_list(o).segs


def copy_schema(h):
    """A schema, its copy and the state before."""
    ex = h.ex
    op = Op(h)
    verror = op.class_call

    def class_call(ex, f, args, kwargs):
        if f.sub is SchemaContext:           # the class of a context applied to arguments
            c = R.new_of_class(ex, f)
            c = T(c.t, SchemaContext)
            ex.st.cls_of[key(oid(c.t))] = (SchemaContext, False)
            ex.call(ex.getattr(c, '__init__'), args, kwargs)
            return c
        return verror(ex, f, args, kwargs)
    h.reg.class_call = class_call
    op.name = ex.term(h.str('name'))
    ex.tracked.append(('name', op.name))
    s = op.s
    ctx = ex.getattr(s, '_context')
    remember(op)
    return op, s, ctx


def holds(h, s, name):
    ex = h.ex
    d = ex.get_dict(ex.getattr(s, '_field_values'))
    return zbool(d.dom(ex, name)), ex.term(d.val(ex, name))


def same_values(h, s, op):
    d, v = holds(h, s, op.name)
    return z3.And(d == op.has0, z3.Implies(op.has0, v == op.val0))


@mode('C15', covers=('copied',))
def schema_copy(h):
    ex = h.ex
    op, s, ctx = copy_schema(h)
    state = ex.getattr(ctx, 'state')
    pre = snapshot(h)
    k, c = h.method(s, 'copy')
    h.oblige('copy returns', k == 'ret', info=c)
    if k != 'ret':
        return
    h.cover('copied')
    h.oblige('the copy is another instance', fresh(h, pre, c))
    h.oblige('of the same class', ex.term(ex.class_of(c)) == ex.term(ex.class_of(s)), info=ex.class_of(c))
    h.oblige('with its own field values', fresh(h, pre, ex.getattr(c, '_field_values')))
    h.oblige('which are those of the original', same_values(h, c, op))
    cc = ex.getattr(c, 'context')
    h.oblige('it has its own context', fresh(h, pre, cc))
    h.oblige('which points to the copy', ex.is_(ex.getattr(cc, 'schema'), c))
    h.oblige('and is initialized', zbool(ex.truth(ex.call(ex.getattr(cc, 'is_initialized'), [], {}))))
    h.oblige('with the configuration of the class', ex.is_(ex.getattr(cc, 'config'), ex.getattr(ex.class_of(c), '__config__')))
    h.oblige('and a shallow copy of the state', shallow(h, pre, ex.getattr(cc, 'state'), state), info=(ex.getattr(cc, 'state'), state))
    oblige_frame(h, pre, 'copying changes nothing')


def later(name, covers=('returns', 'exception')):
    def deco(f):
        for which in ('original', 'copy'):
            def run(h, which=which):
                ex = h.ex
                op, s, ctx = copy_schema(h)
                k, c = h.method(s, 'copy')
                if k != 'ret':
                    return
                op.s, other = (s, c) if which == 'original' else (c, s)
                octx = ex.getattr(other, '_context')
                ostate = ex.term(ex.getattr(octx, 'state'))
                op.foreign_others = True
                k = f(h, op)
                h.cover('returns' if k == 'ret' else 'exception')
                h.oblige(f'the other schema keeps its field values', same_values(h, other, op))
                h.oblige(f'and its context and state', z3.And(ex.term(ex.getattr(other, '_context')) == ex.term(octx),
                                                              ex.term(ex.getattr(octx, 'state')) == ostate))
            mode('C15', covers=covers, name=f'{name}_{which}', parts=4 if name != 'state' else 1)(run)
        return f
    return deco


@later('update')
def _(h, op):
    ex = h.ex
    op.data = ex.mk(z3.Const('data', Val), collections.abc.Mapping, meta={'tag': 'key', 'hook': lambda *a: op.data_hook(*a)})
    h.split()
    return h.method(op.s, 'update', [op.data], {'ignore_extra': h.val('ignore_extra')})[0]


@later('assign')
def _(h, op):
    ex = h.ex
    byname, byload = op.tables()
    n = ex.term(h.str('assigned'))
    h.assume(dom(h, byname, n))
    phi = get(h, byname, n)
    f = ex.mk(phi, Field)
    ex.tracked.append(('name', n))
    h.split()
    return h.method(f, '__set__', [op.s, h.val('value')])[0]


@later('state', covers=('returns',))
def _(h, op):
    h.ex.setattr(h.ex.getattr(op.s, 'context'), 'state', h.val('new state'))
    return 'ret'


OPTIONS = ('none', 'required', 'frozen', 'extras', '_default', '_load_key', '_dump_key', '*other*')


@mode('C15', covers=('copied',))
def field_copy(h):
    ex = h.ex
    f = h.obj('field', Field)
    reg0, raw0 = lists(h, f)
    pre = snapshot(h)
    k, c = h.method(f, 'copy')
    h.oblige('copy returns', k == 'ret', info=c)
    if k != 'ret':
        return
    h.cover('copied')
    h.oblige('the copy is another field', fresh(h, pre, c))
    h.oblige('of the same class', ex.term(ex.class_of(c)) == ex.term(ex.class_of(f)))
    for a in OPTIONS:
        h.oblige(f'with the same options ({a})', ex.mem(a).select(oid(ex.term(c))) == ex.mem(a).select(oid(f.t)))
    h.oblige('that is not bound', z3.Not(zbool(ex.truth(ex.call(ex.getattr(c, '_is_bound'), [], {})))))
    h.oblige('and can be bound', z3.And(*[ex.mem(a).select(oid(ex.term(c))) == MISS for a in ('_name', '_schema')]))
    reg, raw = lists(h, c)
    for n, l in (('_validators', (reg, reg0)), ('_raw_validators', (raw, raw0))):
        h.oblige(f'with the same validators in the same order ({n})', K.ropes_equal(ex, *l), info=l)
        h.oblige(f'in a list of its own ({n})', fresh(h, pre, ex.getattr(c, n)))
    oblige_frame(h, pre, 'copying changes nothing')


def edit(name, args, kw):
    for which in ('original', 'copy'):
        def run(h, which=which):
            ex = h.ex
            f = h.obj('field', Field)
            k, c = h.method(f, 'copy')
            if k != 'ret':
                return
            g, other = (f, c) if which == 'original' else (c, f)
            v = h.val('validator')
            h.assume(is_callable(v.t))
            reg0, raw0 = lists(h, other)
            k, _ = h.method(g, name, [v] if args else [], {'raw': h.val('raw')} if kw else {})
            h.cover('edited')
            reg, raw = lists(h, other)
            h.oblige('the validators of the other field stay', z3.And(zbool(K.ropes_equal(ex, reg, reg0)), zbool(K.ropes_equal(ex, raw, raw0))))
        mode('C15', covers=('edited',), name=f'{name}_{"raw_" if kw else ""}{which}')(run)


for _n, _a in (('add_validator', 1), ('remove_validator', 1), ('clear_validators', 0)):
    for _k in (0, 1):
        edit(_n, _a, _k)
