"""C11: primitive fields."""
from .fieldop import *
from pyvc.harness import mode
from pyvc import registry as R

TYPES = {fields.String: str, fields.Integer: int, fields.Float: float, fields.Boolean: bool}


def build(h, P, **kw):
    """A field made by its constructor: strict omitted or arbitrary."""
    ex = h.ex
    strict = z3.BoolVal(True)
    if ex.branch(z3.Bool('strict given')):
        v = h.val('strict')
        kw['strict'] = v
        strict = zbool(ex.truth(v))
    k, f = h.call(P, [], kw)
    h.oblige('the constructor returns', k == 'ret')
    if k != 'ret':
        raise Infeasible()
    return f, ex.branch(strict)


def load_mode(P, tp):
    def run(h):
        ex = h.ex
        f, strict = build(h, P)
        op = FieldOp(h, f)
        v = op.value
        own = ex.branch(zbool(ex.inst(v, tp)))
        op.value = v = ex.narrow(v) if own else v
        k, r = op.load()
        if own:
            h.cover('own type')
            op.oblige_ok(k, r, v, 'a value of the type of the field is returned unchanged', 'C11')
        elif strict:
            h.cover('strict')
            op.oblige_error(k, r, C(P.ERR_INVALID_DATATYPE), 'C11')
        elif tp is str:
            h.cover('coerced')
            op.oblige_ok(k, r, ex.call(C(str), [v], {}), 'any other value is converted with str()', 'C11')
        elif tp is bool:
            text = ex.call(C(str), [v], {})
            t = zbool(K.contains(ex, C(P.TRUE_VALUES), text))
            n = zbool(K.contains(ex, C(P.FALSE_VALUES), text))
            boolean(h, op, k, r, t, n, P)
        else:
            try:
                c = ex.call(C(tp), [v], {})
            except PyRaise:
                h.cover('coercion fails')
                op.oblige_error(k, r, C(P.ERR_COERCION_FAILED), 'C11')
            else:
                h.cover('coerced')
                h.oblige(f'any other value is converted with {tp.__name__}()', k == 'ret' and z3.Or(ex.term(r) == ex.term(c)), info=(r, c))
                h.oblige('no error is formatted for an accepted value', ex.st.ghost['format'] == 0, prop='C21')
    return run


def boolean(h, op, k, r, t, n, P):
    ex = h.ex
    if ex.branch(t):
        h.cover('true')
        op.oblige_ok(k, r, C(True), 'True for a text in the true values', 'C11')
    elif ex.branch(n):
        h.cover('false')
        op.oblige_ok(k, r, C(False), 'False for a text in the false values', 'C11')
    else:
        h.cover('neither')
        op.oblige_error(k, r, C(P.ERR_COERCION_FAILED), 'C11')


def dump_mode(P):
    def run(h):
        f = h.obj('field', P)
        op = FieldOp(h, f, DumpContext)
        k, r = op.dump()
        h.cover('dumped')
        h.oblige('a value serializes to itself', k == 'ret' and h.ex.is_(r, op.value), info=(k, r))
    return run


for _P, _tp in TYPES.items():
    _n = _P.__name__.lower()
    _cov = {str: ('coerced',), int: ('coerced', 'coercion fails'), float: ('coerced', 'coercion fails'), bool: ('true', 'false', 'neither')}[_tp]
    mode('C11', covers=('own type', 'strict') + _cov, name=_n + '_load', props=('C21',))(load_mode(_P, _tp))
    mode('C11', covers=('dumped',), name=_n + '_dump')(dump_mode(_P))


@mode('C11', covers=('true', 'false', 'neither'), props=('C21',))
def boolean_own_values(h):
    """Configured true and false values (arbitrary containers)."""
    ex = h.ex
    tv, fv = h.val('true_values'), h.val('false_values')
    kw = {}
    if ex.branch(z3.Bool('true_values given')):
        kw['true_values'] = tv
        h.assume(tv.t != Val.vnone)
    if ex.branch(z3.Bool('false_values given')):
        kw['false_values'] = fv
        h.assume(fv.t != Val.vnone)
    k, f = h.call(fields.Boolean, [], dict(kw, strict=C(False)))
    h.oblige('the constructor returns', k == 'ret')
    op = FieldOp(h, f)
    h.assume(z3.Not(zbool(ex.inst(op.value, bool))))
    text = ex.call(C(str), [op.value], {})
    t = zbool(K.contains(ex, kw.get('true_values', C(fields.Boolean.TRUE_VALUES)), text))
    n = zbool(K.contains(ex, kw.get('false_values', C(fields.Boolean.FALSE_VALUES)), text))
    k, r = op.load()
    boolean(h, op, k, r, t, n, fields.Boolean)
