"""C10: validate_types, over the contract of _process_value (c08)."""
from .common import *
from .c08 import type_registry, CONF, has_name
from .core import con
from pyvc.harness import mode
import oblate
from oblate.type_validation import TypeValidator, TypeValidationError, validate_types


def process_value(ex, env):
    """TypeValidator._process_value: (whether the value conforms, messages: at least one when it does not)."""
    ok = CONF(ex.term(env['tp']), ex.term(env['value']))
    n = ex.fresh_int('n')
    ex.assume(z3.And(n >= 0, z3.Implies(z3.Not(ok), n >= 1)))
    return Tup((B(ok), ex.new_list((Any_(n, lambda e: e.opaque_str()),))))


def registry():
    r = type_registry()
    con(r, TypeValidator, '_process_value', process_value)
    return r


class ValidateOp:
    def __init__(self, h, hook=None):
        self.h, self.ex = h, h.ex
        ex = h.ex
        self.types = h.val('types', dict, meta={'tag': 'key', 'khint': str, 'hook': hook})
        self.values = h.val('values', dict, meta={'tag': 'key', 'khint': str, 'hook': hook})
        self.ignore_extra, self.ignore_missing = h.bool('ignore_extra'), h.bool('ignore_missing')

    def fault(self, k):
        ex = self.ex
        t, v = ex.get_dict(self.types), ex.get_dict(self.values)
        in_t, in_v = zbool(t.dom(ex, k)), zbool(v.dom(ex, k))
        return z3.Or(z3.And(in_v, z3.Not(in_t), z3.Not(zbool(ex.truth(self.ignore_extra)))),
                     z3.And(in_v, in_t, z3.Not(CONF(ex.term(t.val(ex, k)), ex.term(v.val(ex, k))))),
                     z3.And(in_t, z3.Not(in_v), z3.Not(zbool(ex.truth(self.ignore_missing)))))

    def run(self):
        h = self.h
        pre = snapshot(h)
        k, r = h.call(validate_types, [self.types, self.values], {'ignore_extra': self.ignore_extra, 'ignore_missing': self.ignore_missing})
        bad = [b for b in frame_ok(h, pre) if not (len(b) == 3 and b[2] is not None and z3.is_expr(b[2]) and is_fresh_id(b[2]))]
        h.oblige('neither mapping is modified', not bad, info=bad)
        ok = k == 'ret' or self.ex.kind(r) is TypeValidationError
        h.oblige('it returns or raises TypeValidationError', ok, info=r)
        if not ok:
            raise Infeasible()
        return k, r

    def errors(self, r):
        m = self.ex.getattr(r, 'errors')
        self.h.oblige('the errors are a mapping', self.ex.kind(m) is dict, info=m)
        if self.ex.kind(m) is not dict:
            raise Infeasible()
        return self.ex.get_dict(m)


@mode('C10', covers=('reported',), registry=registry)
def key_at_fault(h):
    ex = h.ex
    key = h.str('key')
    ex.tracked.append(('key', key.t))
    op = ValidateOp(h)
    h.assume(op.fault(key.t))
    k, r = op.run()
    h.oblige('a key at fault raises', k == 'exc', info=r)
    if k == 'exc':
        h.cover('reported')
        d = op.errors(r)
        here = zbool(d.dom(ex, key.t))
        h.oblige('a key at fault is reported', here)
        if ex.must(here):
            l = ex.dict_value(d, key.t)
            h.oblige('it is reported with a non-empty list', ex.kind(l) is list and K.list_len(ex, l) >= 1, info=l)


@mode('C10', covers=('passed', 'other key'), registry=registry)
def key_not_at_fault(h):
    ex = h.ex
    key = h.str('key')
    ex.tracked.append(('key', key.t))
    op = ValidateOp(h)
    h.assume(z3.Not(op.fault(key.t)))
    k, r = op.run()
    if k == 'exc':
        h.cover('other key')
        h.oblige('a key that is not at fault is not reported', z3.Not(zbool(op.errors(r).dom(ex, key.t))))
    else:
        h.cover('passed')
        h.oblige('it returns None', ex.is_(r, C(None)), info=r)


@mode('C10', covers=('passed',), registry=registry)
def no_key_at_fault(h):
    ex = h.ex
    box = []
    op = ValidateOp(h, hook=lambda e, d, k, owner=None: e.assume(z3.Not(box[0].fault(k))))
    box.append(op)
    k, r = op.run()
    h.oblige('no key at fault: it returns None', k == 'ret' and ex.is_(r, C(None)), info=r)
    h.cover('passed')
