"""C08: type validation.  The recursive TypeValidator._process_value, for every form of type expression, over its own contract
for the parts of the expression (induction on the expression)."""
from .common import *
from .core import con, config_option
from .c12 import CONF
from pyvc.harness import mode
from pyvc import registry as R
import typing, types, collections.abc
from oblate.type_validation import TypeValidator

TP, VALUE = z3.Const('tp', Val), z3.Const('value', Val)
is_td = z3.Function('is_typeddict', Val, BoolS)
has_name = z3.Function('has:__name__', Val, BoolS)


def type_registry():
    r = base_registry()
    r.hints[(TypeValidator, 'types')] = Hint('dict', dict)
    con(r, TypeValidator, '_process_value', process_value)
    con(r, TypeValidator, '_warn_unsupported', lambda ex, env: C(None))      # see warn_unsupported
    con(r, oblate.configs._ConfigOption, '__get__', config_option)
    return r


def process_value(ex, env):
    """TypeValidator._process_value: (whether the value conforms, messages: at least one when it does not)."""
    op = ex.opts['type_op']
    v, tp = ex.term(env['value']), ex.term(env['tp'])
    if not op.entered(ex):
        ex.st.ghost['entered'] = z3.IntVal(1)
        return NotImplemented
    ok = CONF(tp, v)
    op.called(ex, tp, v)
    n = ex.fresh_int('n')
    ex.assume(z3.And(n >= 0, z3.Implies(z3.Not(ok), n >= 1)))
    return Tup((B(ok), ex.new_list((Any_(n, lambda e: e.opaque_str()),))))


def is_record(ex, i):
    """The record of the types that were reported as unsupported: shared on purpose, and no verdict depends on it."""
    if i is None or not hasattr(TypeValidator, '_warnings_issued'):
        return False
    return ex.must(i == oid(ex.term(C(TypeValidator._warnings_issued))))


class TypeOp:
    """One call of TypeValidator.validate.  origin, args: of the type expression (None: a class)."""

    def __init__(self, h, tp=None, origin=None, args=None, value=None, vmeta=None):
        self.h, self.ex = h, h.ex
        ex = h.ex
        ex.opts['type_op'] = self
        ex.opts['confined'] = lambda e, what, i: is_record(e, i)
        ex.st.ghost['entered'] = z3.IntVal(0)
        self.tp = tp or ex.mk(TP)
        self.value = h.val('value', value, meta=vmeta) if value is not None else h.val('value')
        if isinstance(self.value, C):
            raise Unsupported('value')
        if tp is None:
            h.assume(z3.And(Val.is_vobj(TP), TP != lit(Any_type), TP != lit(typing.Tuple), has_name(TP)))
            go, ga = h.reg.models[id(typing.get_origin)], h.reg.models[id(typing.get_args)]
            mine = lambda v: isinstance(v, T) and v.t.eq(self.tp.t)
            h.reg.models[id(typing.get_origin)] = lambda e, a, k: C(origin) if mine(a[0]) else go(e, a, k)
            h.reg.models[id(typing.get_args)] = lambda e, a, k: args if mine(a[0]) else ga(e, a, k)
            if origin is not None:
                h.assume(z3.Not(is_td(TP)))

    def entered(self, ex):
        return ex.must(ex.st.ghost['entered'] == 1)

    def called(self, ex, tp, v):
        pass

    def run(self):
        """-> (accepted?, messages) as (formula, list) ."""
        h, ex = self.h, self.ex
        ty = ex.new_dict(Dct('empty'))
        k_ = h.str('key')
        K.setitem(ex, ty, k_, self.tp)
        tv = ex.new_obj(TypeValidator)
        ex.write_attr(tv, 'types', ty)
        self.pre = snapshot(h)
        k, r = h.method(tv, 'validate', [k_, self.value])
        h.oblige('validation returns', k == 'ret' and isinstance(r, Tup) and len(r.items) == 2, info=r)
        if k != 'ret' or not isinstance(r, Tup) or len(r.items) != 2:
            raise Infeasible()
        ok, msgs = r.items
        self.ok, self.msgs = zbool(ex.truth(ok)), msgs
        self.is_list = ex.kind(msgs) is list
        h.oblige('messages come as a list', self.is_list, info=msgs)
        if self.is_list:
            h.oblige('a rejection comes with a message', z3.Or(self.ok, K.list_len(ex, msgs) >= 1), info=msgs)
        bad = [x for x in frame_ok(h, self.pre) if not is_record(ex, x[2] if len(x) > 2 else None)]
        h.oblige('validation changes nothing', not bad, info=bad)
        h.cover('accepted' if not ex.must(z3.Not(self.ok)) else 'x')
        if ex.may(z3.Not(self.ok)):
            h.cover('rejected')
        return self.ok

    def oblige(self, name, expected):
        """Accepted iff."""
        self.h.oblige(name, self.ok == expected, info=self.ok)


Any_type = typing.Any
BOTH = ('accepted', 'rejected')
N = lambda ex, name: h_named(ex, name)


def h_named(ex, name):
    v = ex.mk(z3.Const(name, Val))
    ex.assume(z3.And(Val.is_vobj(v.t), has_name(v.t)))
    return v


def tmode(covers=BOTH, name=None, **k):
    return mode('C08', covers=covers, name=name, registry=type_registry, **k)


# --- leaves

@tmode(covers=('accepted',))
def any_(h):
    op = TypeOp(h, tp=C(typing.Any))
    op.run()
    op.oblige('Any accepts everything', True)


@tmode()
def plain_class(h):
    ex = h.ex
    op = TypeOp(h)
    h.assume(z3.Not(is_td(TP)))
    op.tp = ex.mk(TP, type)
    ok = op.run()
    op.oblige('a class accepts exactly its instances', z3.Function('isinst', Val, Val, BoolS)(VALUE, TP))


@tmode(covers=('accepted',))
def unsupported(h):
    """A generic whose origin is none of the supported ones."""
    ex = h.ex
    org = ex.mk(z3.Const('origin', Val))
    import typing_extensions
    for o in (typing.Union, types.UnionType, typing_extensions.Required, typing_extensions.NotRequired, list, set, dict, tuple,
              collections.abc.Sequence, collections.abc.Mapping, typing.Literal):
        h.assume(org.t != lit(o))
    h.assume(Val.is_vobj(org.t))
    op = TypeOp(h, origin=list)
    h.reg.models[id(typing.get_origin)] = lambda e, a, k: org
    op.run()
    op.oblige('an unsupported generic accepts everything', True)


# --- arguments in an unknown number

def arg_tuple(h, elem=None):
    def el(e, x, j):
        e.assume(z3.And(Val.is_vobj(e.term(x)), has_name(e.term(x))))
        if elem:
            elem(e, x, j)
    a = h.val('args', tuple, meta={'tag': 'args', 'elem': el})
    return a, h.ex.tuple_seq(a)


def warn_registry():
    r = base_registry()
    con(r, oblate.configs._ConfigOption, '__get__', config_option)
    return r


@mode('C08', covers=('warned or not',), registry=warn_registry)
def warn_unsupported(h):
    """Reporting an unsupported type is no verdict: it returns, and changes nothing but the record of the types reported."""
    ex = h.ex
    tp = h.val('tp')
    h.assume(z3.And(Val.is_vobj(TP), has_name(TP)))
    ex.opts['confined'] = lambda e, what, i: is_record(e, i)
    pre = snapshot(h)
    if not hasattr(TypeValidator, '_warn_unsupported'):      # done elsewhere
        h.cover('warned or not')
        return
    k, r = h.call(ex.getattr(C(TypeValidator), '_warn_unsupported'), [tp])
    h.cover('warned or not')
    h.oblige('reporting an unsupported type returns', k == 'ret', info=(k, r))
    bad = [x for x in frame_ok(h, pre) if not is_record(ex, x[2] if len(x) > 2 else None)]
    h.oblige('reporting an unsupported type changes only its record', not bad, info=bad)


def at(h, seq, name='p', tag='args'):
    p = z3.Int(name)
    h.assume(z3.And(0 <= p, p < seq.n))
    h.ex.tracked_idx.append((tag, p))
    return p


for _n, _o in (('union', typing.Union), ('union_type', types.UnionType)):
    def _some(h, o=_o):
        ex = h.ex
        args, seq = arg_tuple(h)
        p = at(h, seq)
        op = TypeOp(h, origin=o, args=args)
        h.assume(CONF(ex.term(seq.item(ex, p)), VALUE))
        op.run()
        op.oblige('a union accepts what one of its members accepts', True)

    def _none(h, o=_o):
        ex = h.ex
        args, seq = arg_tuple(h, lambda e, x, j: e.assume(z3.Not(CONF(e.term(x), VALUE))))
        op = TypeOp(h, origin=o, args=args)
        op.run()
        op.oblige('a union rejects what none of its members accepts', False)
    tmode(name=_n + '_some', covers=('accepted',))(_some)
    tmode(name=_n + '_none', covers=('rejected',))(_none)


def equal(ex, a, b):
    return z3.Or(zbool(ex.is_(a, b)), zbool(ex.reg.eq(ex, a, b)))


@tmode(covers=('accepted',))
def literal_listed(h):
    ex = h.ex
    args = h.val('args', tuple, meta={'tag': 'args'})
    seq = ex.tuple_seq(args)
    p = at(h, seq)
    op = TypeOp(h, origin=typing.Literal, args=args)
    h.assume(equal(ex, seq.item(ex, p), op.value))
    op.run()
    op.oblige('a literal accepts what equals one of its values', True)


@tmode(covers=('rejected',))
def literal_not_listed(h):
    ex = h.ex
    box = []
    args = h.val('args', tuple, meta={'tag': 'args', 'elem': lambda e, x, j: e.assume(z3.Not(equal(e, x, box[0])))})
    box.append(h.val('value'))
    op = TypeOp(h, origin=typing.Literal, args=args)
    op.run()
    op.oblige('a literal rejects what equals none of its values', False)


import typing_extensions
for _n, _o in (('required', typing_extensions.Required), ('not_required', typing_extensions.NotRequired)):
    def _req(h, o=_o):
        a = h_named(h.ex, 'arg')
        op = TypeOp(h, origin=o, args=Tup([a]))
        op.run()
        op.oblige('a marker is looked through', CONF(a.t, VALUE))
    tmode(name=_n)(_req)


# --- containers with one argument

KIND = {'list': list, 'set': set, 'tuple': tuple, 'dict': dict, 'mapping': collections.abc.Mapping}
BARE = {'list': typing.List, 'set': typing.Set, 'tuple': typing.Tuple, 'dict': typing.Dict, 'mapping': typing.Mapping, 'sequence': typing.Sequence}
ORIGIN = {'list': list, 'set': set, 'tuple': tuple, 'dict': dict, 'mapping': collections.abc.Mapping, 'sequence': collections.abc.Sequence}


def not_kinds(h, v, *cs):
    for c in cs:
        h.assume(z3.Not(zbool(h.ex.inst(v, c))))


def expr_args(h, exp):
    """Arguments of the expression, and the type expression of the items."""
    a = h_named(h.ex, 'arg')
    if exp == 'tuple':
        return Tup([a, C(Ellipsis)]), a
    if exp in ('dict', 'mapping'):
        b = h_named(h.ex, 'varg')
        return Tup([a, b]), (a, b)
    return Tup([a]), a


def items_mode(exp, kind):
    """The expression exp[X] (one item type) on a container of this kind."""
    cls = KIND[kind]

    def one(h):
        ex = h.ex
        args, a = expr_args(h, exp)
        if kind == 'set':
            e = h.val('item')
            ex.tracked.append(('item', e.t))
            op = TypeOp(h, origin=ORIGIN[exp], args=args, value=set, vmeta={'tag': 'item'})
            h.assume(ex.get_dict(op.value).dom(ex, e.t))
        else:
            op = TypeOp(h, origin=ORIGIN[exp], args=args, value=cls, vmeta={'tag': 'items'})
            seq = ex.tuple_seq(op.value) if kind == 'tuple' else ex.get_list(op.value).segs[0].seq
            e = seq.item(ex, at(h, seq, tag='items'))
        h.assume(z3.Not(CONF(a.t, ex.term(e))))
        op.run()
        op.oblige('a container with an item that does not conform is rejected', False)

    def all_(h):
        ex = h.ex
        args, a = expr_args(h, exp)
        el = lambda e, x, j: e.assume(CONF(a.t, e.term(x)))
        meta = {'tag': 'items', 'elem': el}
        if kind == 'set':
            meta = {'tag': 'item', 'hook': lambda e, d, k, owner=None: e.assume(z3.Implies(d.domf(k), CONF(a.t, k)))}
        op = TypeOp(h, origin=ORIGIN[exp], args=args, value=cls, vmeta=meta)
        op.run()
        op.oblige('a container whose items all conform is accepted', True)
    tmode(name=f'{exp}_of_{kind}_one' if exp != kind else f'{exp}_one', covers=('rejected',))(one)
    tmode(name=f'{exp}_of_{kind}_all' if exp != kind else f'{exp}_all', covers=('accepted',))(all_)


for _e, _k in (('list', 'list'), ('set', 'set'), ('tuple', 'tuple'), ('sequence', 'list'), ('sequence', 'set'), ('sequence', 'tuple')):
    items_mode(_e, _k)


def mapping_mode(exp):
    cls = KIND[exp]

    def one(h):
        ex = h.ex
        args, (a, b) = expr_args(h, exp)
        e = h.val('item_key')
        ex.tracked.append(('item', e.t))
        op = TypeOp(h, origin=ORIGIN[exp], args=args, value=cls, vmeta={'tag': 'item'})
        d = ex.get_dict(op.value)
        h.assume(d.dom(ex, e.t))
        h.assume(z3.Not(z3.And(CONF(a.t, e.t), CONF(b.t, ex.term(d.val(ex, e.t))))))
        op.run()
        op.oblige('a mapping with a key or value that does not conform is rejected', False)

    def all_(h):
        args, (a, b) = expr_args(h, exp)
        hook = lambda e, d, k, owner=None: e.assume(z3.Implies(d.domf(k), z3.And(CONF(a.t, k), CONF(b.t, d.valf(k)))))
        op = TypeOp(h, origin=ORIGIN[exp], args=args, value=cls, vmeta={'tag': 'item', 'hook': hook})
        op.run()
        op.oblige('a mapping whose keys and values all conform is accepted', True)
    tmode(name=exp + '_one', covers=('rejected',))(one)
    tmode(name=exp + '_all', covers=('accepted',))(all_)


mapping_mode('dict')
mapping_mode('mapping')


# --- other values, and bare containers

def other_mode(exp):
    def other(h):
        """A value of another type."""
        args, _ = expr_args(h, exp)
        op = TypeOp(h, origin=ORIGIN[exp], args=args)
        not_kinds(h, op.value, *([list, set, tuple] if exp == 'sequence' else [KIND[exp]]))
        op.run()
        op.oblige('a value of another type is rejected', False)

    def bare(h):
        ex = h.ex
        op = TypeOp(h, tp=C(BARE[exp]))
        op.run()
        op.oblige('an unparametrized container accepts every such container and nothing else',
                  z3.Or([zbool(ex.inst(op.value, c)) for c in ([list, set, tuple] if exp == 'sequence' else [KIND[exp]])]))
    tmode(name=exp + '_other', covers=('rejected',))(other)
    tmode(name=exp + '_bare')(bare)


for _e in ORIGIN:
    other_mode(_e)


# --- tuples of fixed length

def fixed(h, elem=None):
    ex = h.ex
    args, aseq = arg_tuple(h)
    # not Tuple[X, ...]
    h.assume(z3.Not(z3.And(aseq.n == 2, ex.term(aseq.item(ex, z3.IntVal(1))) == lit(Ellipsis))))
    box = []

    def el(e, x, j):
        if elem:
            e.assume(z3.Implies(z3.And(0 <= j, j < aseq.n), CONF(e.term(aseq.item(e, j)), e.term(x))))
    op = TypeOp(h, origin=tuple, args=args, value=tuple, vmeta={'tag': 'items', 'elem': el})
    return op, aseq, ex.tuple_seq(op.value)


@tmode(covers=('rejected',))
def fixed_tuple_longer(h):
    op, aseq, vseq = fixed(h)
    h.assume(aseq.n < vseq.n)
    op.run()
    op.oblige('a tuple that is too long is rejected', False)


@tmode(covers=('rejected',))
def fixed_tuple_shorter(h):
    op, aseq, vseq = fixed(h)
    h.assume(aseq.n > vseq.n)
    h.ex.tracked_idx.append(('args', vseq.n))
    op.run()
    op.oblige('a tuple that is too short is rejected', False)


@tmode(covers=('rejected',))
def fixed_tuple_item(h):
    op, aseq, vseq = fixed(h)
    ex = h.ex
    h.assume(aseq.n == vseq.n)
    p = at(h, aseq)
    h.assume(z3.Not(CONF(ex.term(aseq.item(ex, p)), ex.term(vseq.item(ex, p)))))
    op.run()
    op.oblige('a tuple with an item that does not conform is rejected', False)


@tmode(covers=('accepted',))
def fixed_tuple_all(h):
    op, aseq, vseq = fixed(h, True)
    h.assume(aseq.n == vseq.n)
    op.run()
    op.oblige('a tuple of this length whose items conform is accepted', True)
