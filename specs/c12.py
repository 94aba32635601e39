"""C12: structure and typing fields, over the contract of TypeValidator.validate (see c08)."""
from .fieldop import *
from .common import BoolS
from pyvc.harness import mode
import typing
from oblate.type_validation import TypeValidator
from pyvc.engine import StarRest

CONF = z3.Function('conforms', Val, Val, BoolS)      # (type expression, value)


def validate_contract(ex, env):
    """TypeValidator.validate: (the value conforms to the type expression of the key, messages); see c08 and c10."""
    tv, key_, v = env['self'], env['key'], env['value']
    d = ex.get_dict(ex.getattr(tv, 'types'))
    kt = ex.term(key_)
    if not ex.branch(zbool(d.dom(ex, kt))):
        return Tup((C(False), ex.new_list((Ex(C('Invalid key')),))))
    ok = CONF(ex.term(d.val(ex, kt)), ex.term(v))
    n = ex.fresh_int('n')
    ex.assume(n >= 0)
    msgs = ex.new_list((Any_(n, lambda e: e.opaque_str()),))
    ex.assume(z3.Implies(z3.Not(ok), n >= 1))
    ex.st.fired['messages'] = msgs
    return Tup((B(ok), msgs))


def hinted(h):
    h.reg.hints[(TypeValidator, 'types')] = Hint('dict', dict)
    con(h.reg, TypeValidator, 'validate', validate_contract)


def subscript(ex, base, *args):
    return ex.reg.type_getitem(ex, C(base), Tup(args) if len(args) != 1 else args[0])


def struct_mode(P, container, make):
    """make(h) -> (args, type expression or None): the constructor arguments."""
    def run(h):
        ex = h.ex
        hinted(h)
        args, tp = make(h)
        k, f = h.call(P, args, {})
        h.oblige('the constructor returns', k == 'ret', info=f)
        if k != 'ret':
            return
        op = FieldOp(h, f)
        v = op.value
        inst = z3.BoolVal(True) if container is None else zbool(ex.inst(v, container))
        if not ex.branch(inst):
            h.cover('other type')
            k, r = op.load()
            op.oblige_error(k, r, ex.getattr(f, 'ERR_INVALID_DATATYPE'), 'C12')
            return
        ok = z3.BoolVal(True) if tp is None else CONF(ex.term(tp), v.t)
        pre = snapshot(h)
        k, r = op.load()
        if ex.branch(ok):
            h.cover('accepted')
            op.oblige_ok(k, r, v, 'a conforming value is returned unchanged', 'C12')
            bad = [b for b in frame_ok(h, pre) if not is_fresh_bad(b)]
            h.oblige('the value is not modified', not bad, info=bad)
        else:
            h.cover('rejected')
            msgs = ex.st.fired.get('messages')

            def meta(m):
                h.oblige('the metadata are a dictionary', ex.kind(m) is dict)
                if ex.kind(m) is dict and msgs is not None:
                    t = ex.get_dict(m)
                    key_ = lit('type_validation_fail_errors')
                    h.oblige('the metadata carry every type validation message',
                             z3.And(zbool(t.dom(ex, key_)), ex.term(t.val(ex, key_)) == ex.term(msgs)), prop='C12')
                    h.oblige('the metadata carry the messages', z3.And(zbool(t.dom(ex, key_)), ex.term(t.val(ex, key_)) == ex.term(msgs)), prop='C21')
            code = 'ERR_INVALID_VALUE' if hasattr(P, 'ERR_INVALID_VALUE') else 'ERR_TYPE_VALIDATION_FAILED'
            op.oblige_error(k, r, ex.getattr(f, code), 'C12', meta)
    return run


def is_fresh_bad(b):
    return len(b) == 3 and b[2] is not None and z3.is_expr(b[2]) and is_fresh_id(b[2])


def no_args(h):
    return [], None


def one(base):
    def make(h):
        a = h.val('type')
        h.assume(z3.And(a.t != lit(MISSING), z3.Not(Val.is_vunset(a.t))))
        return [a], subscript(h.ex, base, a) if base is not None else a
    return make


def two(h):
    a, b = h.val('key_type'), h.val('value_type')
    for x in (a, b):
        h.assume(z3.And(x.t != lit(MISSING), z3.Not(Val.is_vunset(x.t))))
    return [a, b], subscript(h.ex, typing.Dict, a, b)


def many(base):
    def make(h):
        v = h.val('values', tuple)
        n = h.ex.tuple_seq(v).n
        h.assume(n >= 2)
        return [StarRest(v)], h.ex.reg.type_getitem(h.ex, C(base), v)
    return make


for _n, _P, _c, _mk in (('dict_bare', fields.Dict, dict, no_args), ('dict_typed', fields.Dict, dict, two),
                        ('list_bare', fields.List, list, no_args), ('list_typed', fields.List, list, one(typing.List)),
                        ('set_bare', fields.Set, set, no_args), ('set_typed', fields.Set, set, one(typing.Set)),
                        ('typed_dict', fields.TypedDict, dict, one(None)), ('type_expr', fields.TypeExpr, None, one(None)),
                        ('any', fields.Any, None, no_args), ('literal', fields.Literal, None, many(typing.Literal)),
                        ('union', fields.Union, None, many(typing.Union))):
    _cov = ('accepted',) + (('other type',) if _c else ()) + (() if _mk is no_args else ('rejected',))
    mode('C12', covers=_cov, name=_n + '_load', props=('C21',))(struct_mode(_P, _c, _mk))


def dump_mode(P):
    def run(h):
        f = h.obj('field', P)
        op = FieldOp(h, f, DumpContext)
        pre = snapshot(h)
        k, r = op.dump()
        h.cover('dumped')
        h.oblige('a value serializes to itself', k == 'ret' and h.ex.is_(r, op.value), info=(k, r))
        oblige_frame(h, pre, 'the value is not modified')
    return run


for _P in (fields.Dict, fields.List, fields.Set, fields.TypedDict, fields.TypeExpr, fields.Any, fields.Literal, fields.Union):
    mode('C12', covers=('dumped',), name=_P.__name__.lower() + '_dump')(dump_mode(_P))
