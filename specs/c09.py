"""C09: TypedDict validation, over the contract of _process_value (c08) for the declared types."""
from .common import *
from .c08 import TypeOp, type_registry, CONF, TP, is_td, has_name
from pyvc.harness import mode
import typing, typing_extensions

HDOM = z3.Function('declares', Val, Val, BoolS)
HINT = {True: z3.Function('hint', Val, Val, Val), False: z3.Function('stripped hint', Val, Val, Val)}
ORIGIN = z3.Function('get_origin', Val, Val)
REQ, NOT_REQ = lit(typing_extensions.Required), lit(typing_extensions.NotRequired)


def registry():
    r = type_registry()
    r.gattrs['__required_keys__'] = Hint('dict', frozenset, tag='key', khint=str)

    def hints(ex, a, k):
        """get_type_hints(TypedDict): a new dictionary of the declared types, with the markers if include_extras."""
        extras = k.get('include_extras', C(False))
        if len(a) != 1 or set(k) - {'include_extras'} or not isinstance(extras, C):
            raise Unsupported('get_type_hints')
        f, tp = HINT[bool(extras.o)], ex.term(a[0])

        def hook(e, d, k_):
            e.assume(z3.Implies(HDOM(tp, k_), z3.And(Val.is_vstr(k_), Val.is_vobj(f(tp, k_)), has_name(f(tp, k_)))))
            also = e.opts.get('hints_hook')
            if also:
                also(e, k_)
        return ex.new_dict(Dct('base', domf=lambda k_: HDOM(tp, k_), valf=lambda k_: f(tp, k_), tag='key', khint=str, hook=hook))
    r.models[id(typing_extensions.get_type_hints)] = hints
    r.models[id(typing.get_type_hints)] = hints
    return r


class TypedDictOp(TypeOp):
    def __init__(self, h, value=dict, hook=None, hints_hook=None):
        super().__init__(h, origin=None, args=Tup([]), value=value, vmeta={'tag': 'key', 'hook': hook} if value else None)
        h.assume(is_td(TP))
        h.ex.opts['hints_hook'] = hints_hook
        self.rk = h.ex.getattr(self.tp, '__required_keys__')

    def has(self, k):
        return zbool(self.ex.get_dict(self.value).dom(self.ex, k))

    def conforms(self, k):
        d = self.ex.get_dict(self.value)
        return CONF(HINT[True](TP, k), self.ex.term(d.val(self.ex, k)))

    def required(self, k):
        o = ORIGIN(HINT[True](TP, k))
        return z3.Or(o == REQ, z3.And(zbool(self.ex.get_dict(self.rk).dom(self.ex, k)), o != NOT_REQ))

    def rejected_for(self, k):
        """The value is rejected, with an error about the key k."""
        h, ex = self.h, self.ex
        self.run()
        self.oblige('it is rejected', False)
        if self.is_list:
            about = [z3.Or([t == k for t in (s.v.meta or {}).get('made_of', [])] or [z3.BoolVal(False)])
                     for s in ex.get_list(self.msgs).segs if isinstance(s, Ex) and isinstance(s.v, T)]
            h.oblige('there is an error about the key', z3.Or(about or [z3.BoolVal(False)]), info=ex.get_list(self.msgs).segs)


def tmode(covers, **k):
    return mode('C09', covers=covers, registry=registry, **k)


@tmode(('rejected',))
def not_a_dictionary(h):
    op = TypedDictOp(h, value=None)
    h.assume(z3.Not(zbool(h.ex.inst(op.value, dict))))
    op.run()
    op.oblige('a value that is not a dictionary is rejected', False)


def tracked_key(h):
    k = h.val('key')
    h.ex.tracked.append(('key', k.t))
    return k.t


@tmode(('rejected',))
def unknown_key(h):
    k = tracked_key(h)
    op = TypedDictOp(h)
    h.assume(z3.And(op.has(k), z3.Not(HDOM(TP, k))))
    op.rejected_for(k)


@tmode(('rejected',))
def non_conforming_value(h):
    k = tracked_key(h)
    op = TypedDictOp(h)
    h.assume(z3.And(Val.is_vstr(k), op.has(k), HDOM(TP, k), z3.Not(op.conforms(k))))
    op.rejected_for(k)


@tmode(('rejected',))
def missing_required_key(h):
    k = tracked_key(h)
    op = TypedDictOp(h)
    h.assume(z3.And(Val.is_vstr(k), z3.Not(op.has(k)), HDOM(TP, k), op.required(k)))
    op.rejected_for(k)


@tmode(('accepted',))
def conforming(h):
    ex = h.ex
    box = []
    op = TypedDictOp(h, hook=lambda e, d, k, owner=None: e.assume(z3.Implies(d.domf(k), z3.And(HDOM(TP, k), box[0].conforms(k)))),
                     hints_hook=lambda e, k: e.assume(z3.Implies(z3.And(HDOM(TP, k), box[0].required(k)), box[0].has(k))))
    box.append(op)
    op.run()
    op.oblige('it is accepted', True)
