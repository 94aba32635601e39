"""C18: the validator registry of a field."""
from .common import *
from pyvc.harness import mode


def setup(h):
    f = h.obj('field', Field)
    v = h.val('validator')
    h.assume(z3.And(Val.is_vobj(v.t), z3.Function('callable', Val, z3.BoolSort())(v.t)))
    reg0 = h.ex.get_list(h.attr_v(f, '_validators')).segs
    raw0 = h.ex.get_list(h.attr_v(f, '_raw_validators')).segs
    return f, v, reg0, raw0


def lists(h, f):
    return h.ex.get_list(h.attr_v(f, '_validators')).segs, h.ex.get_list(h.attr_v(f, '_raw_validators')).segs


def effective_raw(h, v, raw):
    """The raw marking of the validator when it has one, the argument otherwise."""
    ex = h.ex
    has = z3.Function('has:__validator_is_raw__', Val, z3.BoolSort())(v.t)
    own = z3.Function('ga:__validator_is_raw__', Val, Val)(v.t)
    return z3.If(has, ex.truth_term(own), zbool(ex.truth(raw)))


def both(h, name, f, raw, exp_reg, exp_raw):
    reg, rw = lists(h, f)
    ex = h.ex
    h.oblige(name + ': regular list', K.ropes_equal(ex, reg, exp_reg), info=(reg, exp_reg))
    h.oblige(name + ': raw list', K.ropes_equal(ex, rw, exp_raw), info=(rw, exp_raw))


@mode('C18', covers=('raw', 'regular'))
def add_validator(h):
    f, v, reg0, raw0 = setup(h)
    raw = h.val('raw')
    k, r = h.method(f, 'add_validator', [v], {'raw': raw})
    h.oblige('add_validator returns', k == 'ret')
    if h.ex.branch(effective_raw(h, v, raw)):
        h.cover('raw')
        both(h, 'add raw', f, True, reg0, raw0 + (Ex(v),))
    else:
        h.cover('regular')
        both(h, 'add regular', f, False, reg0 + (Ex(v),), raw0)


@mode('C18', covers=('default',))
def add_validator_default(h):
    f, v, reg0, raw0 = setup(h)
    k, r = h.method(f, 'add_validator', [v])
    h.oblige('add_validator returns', k == 'ret')
    h.cover('default')
    if h.ex.branch(effective_raw(h, v, C(False))):
        both(h, 'add raw', f, True, reg0, raw0 + (Ex(v),))
    else:
        both(h, 'add regular', f, False, reg0 + (Ex(v),), raw0)


@mode('C18', covers=('removed', 'absent'))
def remove_validator(h):
    ex = h.ex
    f, v, reg0, raw0 = setup(h)
    raw = h.val('raw')
    # the first occurrence in the list meant, if any: index p (Skolem), no equal element before it
    p = z3.Int('p')
    ex.tracked_idx.append((None, p))
    israw = ex.branch(effective_raw(h, v, raw))
    seq = (raw0 if israw else reg0)[0].seq
    present = ex.branch(z3.Bool('present'))
    q = z3.Int('q')                      # arbitrary earlier index, instantiated below
    if present:
        h.assume(z3.And(0 <= p, p < seq.n))
        h.assume(zbool(ex.reg.eq(ex, seq.item(ex, p), v)))
    orig = K.list_find

    def find(e, lst, x):
        """list.remove/index find the first equal element: instantiated for the spec's own index p."""
        segs = list(e.get_list(lst).segs)
        if len(segs) == 1 and isinstance(segs[0], Slice) and segs[0].seq is seq and ex.must(zbool(e.is_(x, v))):
            if not present:
                return None
            return segs, 0, p
        return orig(e, lst, x)
    K.list_find = find
    try:
        k, r = h.method(f, 'remove_validator', [v], {'raw': raw})
    finally:
        K.list_find = orig
    h.oblige('remove_validator returns', k == 'ret')
    base = raw0 if israw else reg0
    if present:
        h.cover('removed')
        exp = (Slice(seq, z3.IntVal(0), p), Slice(seq, simp(p + 1), seq.n))
    else:
        h.cover('absent')
        exp = base
    both(h, 'remove', f, israw, reg0 if israw else exp, exp if israw else raw0)


@mode('C18', covers=('all', 'raw', 'regular'))
def clear_validators(h):
    ex = h.ex
    f, v, reg0, raw0 = setup(h)
    raw = h.val('raw')
    if ex.branch(z3.Bool('omitted')):
        k, r = h.method(f, 'clear_validators')
        sel = 'all'
    else:
        h.assume(raw.t != lit(MISSING))
        k, r = h.method(f, 'clear_validators', [], {'raw': raw})
        sel = 'raw' if ex.branch(zbool(ex.truth(raw))) else 'regular'
    h.cover(sel)
    h.oblige('clear_validators returns', k == 'ret')
    both(h, 'clear', f, None, reg0 if sel == 'raw' else (), raw0 if sel == 'regular' else ())


@mode('C18', covers=('all', 'raw', 'regular'))
def walk_validators(h):
    ex = h.ex
    f, v, reg0, raw0 = setup(h)
    raw = h.val('raw')
    ex.tracked_idx.append((None, z3.Int('w')))
    if ex.branch(z3.Bool('omitted')):
        k, r = h.method(f, 'walk_validators')
        exp, sel = reg0 + raw0, 'all'
    else:
        h.assume(raw.t != lit(MISSING))
        k, r = h.method(f, 'walk_validators', [], {'raw': raw})
        israw = ex.branch(zbool(ex.truth(raw)))
        exp, sel = (raw0, 'raw') if israw else (reg0, 'regular')
    h.cover(sel)
    h.oblige('walk_validators returns', k == 'ret')
    if k != 'ret':
        return
    out = ex.get_list(r).segs
    h.oblige('walk yields the selected validators in order', same_sequence(h, out, exp), info=(out, exp))
    both(h, 'walk changes nothing', f, None, reg0, raw0)


def same_sequence(h, got, exp):
    """got is exp, element by element (loops that copy element-wise give one summarised segment per part)."""
    return K.ropes_equal(h.ex, got, exp)


@mode('C18', covers=('both regular', 'both raw', 'mixed'))
def constructor_validators(h):
    """Two arbitrary positions i < j of the validators argument: their order is kept in the list they belong to,
    each is there once, and every other element of the lists is another validator of the argument."""
    ex = h.ex

    def elem(e, x, j):
        e.assume(z3.And(Val.is_vobj(x.t), z3.Function('callable', Val, z3.BoolSort())(x.t)))
    vs = h.val('validators', meta={'tag': 'vargs', 'elem': elem})
    h.assume(vs.t != lit(MISSING))
    h.assume(z3.Function('iterable', Val, z3.BoolSort())(vs.t))
    i, j = z3.Int('i'), z3.Int('j')
    n = z3.Function('itlen', Val, z3.IntSort())(vs.t)
    h.assume(z3.And(0 <= i, i < j, j < n))
    ex.tracked_idx += [('vargs', i), ('vargs', j)]
    k, f = h.call(Field, [], {'validators': vs})
    h.oblige('the constructor returns', k == 'ret')
    if k != 'ret':
        return
    reg, raw = lists(h, f)
    it = z3.Function('ititem', Val, z3.IntSort(), Val)
    vi, vj = T(it(vs.t, i)), T(it(vs.t, j))
    ri, rj = [ex.branch(effective_raw(h, x, C(False))) for x in (vi, vj)]
    h.cover('both raw' if ri and rj else 'both regular' if not ri and not rj else 'mixed')
    for nm, segs, mine in (('regular', reg, [v for v, r in ((vi, ri), (vj, rj)) if not r]),
                           ('raw', raw, [v for v, r in ((vi, ri), (vj, rj)) if r])):
        exs = [s.v for s in segs if isinstance(s, Ex)]
        h.oblige(f'constructor registers validators in order, once each ({nm})',
                 len(exs) == len(mine) and all(ex.must(zbool(ex.is_(a, b))) for a, b in zip(exs, mine)), info=(segs, mine))
        for s in segs:
            if isinstance(s, Any_) and ex.may(s.n > 0):
                x = s.draw(ex)
                w = ex.term(x)
                h.oblige(f'other registered validators are from the argument ({nm})',
                         any(f'{w}'.startswith('ititem') for _ in [0]) and ex.must(z3.And(w.arg(1) != i, w.arg(1) != j, w.arg(1) >= 0, w.arg(1) < n)), info=w)
                h.oblige(f'other registered validators are in their own list ({nm})',
                         zbool(effective_raw(h, T(w), C(False))) == z3.BoolVal(nm == 'raw'))
            elif isinstance(s, Slice):
                h.fail('unexpected elements')


@mode('C18', covers=('marked', 'by default'))
def field_decorator(h):
    """@validate.field: the function itself, marked with the field it is for and whether it is raw."""
    ex = h.ex
    if not hasattr(oblate.validate, 'field'):
        raise Unsupported('no decorator')
    f, func = h.val('field'), h.val('func')
    h.assume(z3.And(Val.is_vobj(f.t), Val.is_vobj(func.t), z3.Function('callable', Val, z3.BoolSort())(func.t)))
    kw = {}
    if ex.branch(z3.Bool('raw given')):
        kw['raw'] = h.bool('raw')
    k, d = h.call(oblate.validate.field, [f], kw)
    h.oblige('the decorator is made', k == 'ret', info=d)
    pre = snapshot(h)
    k, r = h.call(d, [func])
    h.oblige('the decorator returns the function', k == 'ret' and ex.is_(r, func), info=r)
    h.cover('marked' if kw else 'by default')
    i = oid(func.t)
    h.oblige('the function is marked with the field', ex.mem('__validator_field__').select(i) == f.t)
    h.oblige('the function is marked raw iff it is so declared', zbool(ex.truth(ex.getattr(func, '__validator_is_raw__'))) == zbool(
        ex.truth(kw['raw']) if kw else z3.BoolVal(False)))
    oblige_frame(h, pre, 'nothing else is marked', allow=(('attr', '__validator_field__'), ('attr', '__validator_is_raw__')))


@mode('C18', covers=('marked', 'by default'))
def validator_class(h):
    """A subclass of Validator is raw iff it is so declared."""
    ex = h.ex
    cls = h.val('cls', type, sub=oblate.validate.Validator)
    kw = {}
    if ex.branch(z3.Bool('raw given')):
        kw['raw'] = h.bool('raw')
    k, r = h.method(cls, '__init_subclass__', [], kw)
    h.oblige('the class is made', k == 'ret', info=r)
    h.cover('marked' if kw else 'by default')
    h.oblige('the class is marked raw iff it is so declared', zbool(ex.truth(ex.getattr(cls, '__validator_is_raw__'))) == zbool(
        ex.truth(kw['raw']) if kw else z3.BoolVal(False)))
