"""C14: validation errors."""
from .common import *
from .core import con
from pyvc.harness import mode
from pyvc import registry as R

ENS = z3.Function('raw form', Val, Val)      # ValidationError._ensure_string
VE = ValidationError


def enter_once(ex, what):
    n = what + ' entered'
    if ex.must(ex.st.ghost[n] == 0):
        ex.st.ghost[n] = z3.IntVal(1)
        return True
    return False


def nested_ensure(ex, env):
    """ValidationError._ensure_string: a value determined by the message."""
    if 'ensure entered' in ex.st.ghost and enter_once(ex, 'ensure'):
        return NotImplemented
    return ex.mk(ENS(ex.term(env['obj'])))


def registry():
    r = base_registry()
    r.hints[(VE, 'errors')] = LIST(tag='errors', ehint=FieldError)
    r.hints[(VE, 'schema')] = OBJ(Schema)
    con(r, VE, '_ensure_string', nested_ensure)
    return r


def emode(covers, **k):
    return mode('C14', covers=covers, registry=registry, **k)


# --- one message

class EnsureOp:
    def __init__(self, h, obj):
        self.h, self.ex = h, h.ex
        self.obj = obj
        self.ve = h.obj('error', VE)

    def run(self):
        h, ex = self.h, self.ex
        ex.st.ghost['ensure entered'] = z3.IntVal(0)
        pre = snapshot(h)
        k, r = h.method(self.ve, '_ensure_string', [self.obj])
        h.oblige('converting a message does not raise', k == 'ret', info=r)
        bad = frame_ok(h, pre)
        h.oblige('nothing is modified', not bad, info=bad)
        if k != 'ret':
            raise Infeasible()
        h.cover('converted')
        return r


@emode(('converted',))
def ensure_error(h):
    e = h.obj('nested', FieldError)
    r = EnsureOp(h, e).run()
    h.oblige('a nested error counts as its message', h.ex.is_(r, h.ex.mk(ENS(h.ex.term(h.ex.getattr(e, 'message'))))), info=r)


@emode(('converted',))
def ensure_dict(h):
    ex = h.ex
    d = h.val('message', dict, meta={'tag': 'item'})
    k = h.val('key')
    ex.tracked.append(('item', k.t))
    r = EnsureOp(h, d).run()
    h.oblige('a mapping becomes a new mapping', ex.kind(r) is dict and ex.is_(r, d) is not True and is_fresh_id(oid(ex.term(r))), info=r)
    if ex.kind(r) is dict:
        a, b = ex.get_dict(d), ex.get_dict(r)
        h.oblige('it has the same keys', zbool(a.dom(ex, k.t)) == zbool(b.dom(ex, k.t)))
        if ex.branch(zbool(a.dom(ex, k.t))):
            h.oblige('each with its converted value', ex.term(b.val(ex, k.t)) == ENS(ex.term(a.val(ex, k.t))), info=b.val(ex, k.t))


@emode(('converted',))
def ensure_list(h):
    ex = h.ex
    l = h.val('message', list, meta={'tag': 'items'})
    seq = ex.get_list(l).segs[0].seq
    p = z3.Int('p')
    h.assume(z3.And(0 <= p, p < seq.n))
    ex.tracked_idx.append(('items', p))
    r = EnsureOp(h, l).run()
    h.oblige('a list becomes a list', ex.kind(r) is list, info=r)
    if ex.kind(r) is list:
        h.oblige('of the same length', K.list_len(ex, r) == seq.n)
        x = K.getitem(ex, r, I(p))
        h.oblige('with the converted items at their places', ex.term(x) == ENS(ex.term(seq.item(ex, p))), info=x)


@emode(('converted',))
def ensure_other(h):
    ex = h.ex
    v = h.val('message')
    for c in (FieldError, dict, list):
        h.assume(z3.Not(zbool(ex.inst(v, c))))
    h.reg.models[id(str)] = lambda e, a, k: T(z3.Function('str of', Val, Val)(e.term(a[0])), str)
    h.assume(Val.is_vstr(z3.Function('str of', Val, Val)(v.t)))
    r = EnsureOp(h, v).run()
    h.oblige('everything else becomes its string', ex.is_(r, T(z3.Function('str of', Val, Val)(v.t), str)), info=r)


# --- the text

NESTED = z3.Function('field errors by key', Val, BoolS)      # a dictionary of lists of field errors


def text_registry():
    r = registry()
    con(r, VE, '_is_nested', is_nested)
    con(r, VE, '_make_message', make_message)
    con(r, VE, '_raw_std', lambda ex, env: by_key(ex))
    return r


def is_nested(ex, env):
    m = ex.term(env['message'])
    return B(NESTED(m))


def by_key(ex, v=None):
    """A dictionary whose values are lists of field errors."""
    lists = Hint('list', list, ehint=FieldError)
    if v is None:
        n = ex.fresh_int('errors')
        v = ex.new_dict(Dct('base', domf=lambda k: UDOM(n, k), valf=lambda k: UGET(n, k), tag='names', vhint=lists))
        return v
    return ex.mk(v.t, dict, meta={'tag': 'names', 'vhint': lists})


def make_message(ex, env):
    if enter_once(ex, 'text'):
        return NotImplemented
    m = env.get('field_errors', C(None))
    ex.oblige('nested texts are made of field errors by key', NESTED(ex.term(m)), 'C14')
    return ex.opaque_str()


def text_mode(nested):
    def run(h):
        ex = h.ex
        ve = h.obj('error', VE)
        ex.st.ghost['text entered'] = z3.IntVal(0)
        args = [by_key(ex, h.val('message')), h.int('level')] if nested else []
        if nested:
            h.assume(Val.is_vobj(args[0].t))
        pre = snapshot(h)
        k, r = h.method(ve, '_make_message', args)
        h.oblige('making the text does not raise', k == 'ret', info=r)
        bad = frame_ok(h, pre)
        h.oblige('nothing is modified', not bad, info=bad)
        if k == 'ret':
            h.cover('made')
            h.oblige('the text is a string', ex.kind(r) is str, info=r)
    return run


mode('C14', covers=('made',), name='text', registry=text_registry)(text_mode(False))
mode('C14', covers=('made',), name='text_nested', registry=text_registry)(text_mode(True))


@emode(('nested', 'not nested'))
def nested_errors(h):
    """What counts as nested field errors is a dictionary of lists of field errors."""
    ex = h.ex
    m = h.val('message')
    key_ = h.val('key')
    p = z3.Int('p')
    ex.tracked.append((None, key_.t))
    ex.tracked_idx.append((None, p))
    ve = h.obj('error', VE)
    k, r = h.method(ve, '_is_nested', [m])
    h.oblige('the test does not raise', k == 'ret', info=r)
    if k != 'ret':
        return
    if ex.branch(zbool(ex.truth(r))):
        h.cover('nested')
        h.oblige('nested field errors are a dictionary', ex.inst(m, dict))
        d = ex.get_dict(ex.narrow(m))
        h.assume(zbool(d.dom(ex, key_.t)))
        l = ex.dict_value(d, key_.t)
        h.oblige('of lists', ex.inst(l, list))
        l = ex.narrow(l)
        if ex.kind(l) is list:
            h.assume(z3.And(0 <= p, p < K.list_len(ex, l)))
            h.oblige('of field errors', ex.inst(K.getitem(ex, l, I(p)), FieldError))
    else:
        h.cover('not nested')


# --- the errors by key

OWN = z3.Function('key of the list', I_, Val)


def item_of(op_seq, ex, t, include):
    """The index of the error that the entry t was made of, syntactically (None: of none)."""
    if include:
        if not (z3.is_app(t) and t.decl().eq(ENS)):
            return None
        t = t.arg(0)
        if not (z3.is_app(t) and t.decl().name() == 'a:message'):
            return None
        t = z3.simplify(Val.vobj(t.arg(0)))
    # a member of the list of errors: item(list, j)
    for x in subterms(t):
        if z3.is_app(x) and x.decl().name() == 'item' and z3.simplify(x.arg(0) == op_seq.meta['id']).eq(z3.BoolVal(True)):
            return x.arg(1)
    return None


def subterms(t):
    yield t
    if z3.is_app(t):
        for c in t.children():
            yield from subterms(c)


class ByKeyOp:
    """raw(), or the errors by key that the text is made of."""

    def __init__(self, h, include, hook=None):
        self.h, self.ex, self.include = h, h.ex, include
        ex = h.ex
        self.key = h.str('key')
        self.ve = h.obj('error', VE)
        h.reg.hints[(VE, 'errors')] = Hint('list', list, tag='errors', ehint=FieldError, elem=hook and (lambda e, x, j: hook(self, e, x, j)))
        self.list = ex.getattr(self.ve, 'errors')
        self.seq = ex.get_list(self.list).segs[0].seq
        ex.tracked.append((None, self.key.t))
        ex.opts['dict_inv'] = {None: self.inv}
        ex.opts['dict_inv_hint'] = {None: list}
        ex.opts['dict_inv_prop'] = 'C14'

    def inv(self, ex, k, v):
        """Data invariant of the result: every key has a list of its own, made by this call."""
        i = oid(v)
        if is_fresh_id(i) and ('own', key(i)) not in ex.st.fired:
            ex.st.fired[('own', key(i))] = True
            ex.assume(OWN(i) == k)
        return z3.And(Val.is_vobj(v), i >= 1, i < INTERN_BASE, zbool(ex.inst(ex.unterm(v), list)), OWN(i) == k)

    def key_of(self, j):
        ex = self.ex
        return ex.term(ex.getattr(self.seq.item(ex, j), '_key'))

    def entry(self, j):
        ex = self.ex
        e = self.seq.item(ex, j)
        return ENS(ex.term(ex.getattr(e, 'message'))) if self.include else ex.term(e)

    def run(self):
        h, ex = self.h, self.ex
        pre = snapshot(h)
        k, r = h.method(self.ve, 'raw', []) if self.include else h.method(self.ve, '_raw_std', [], {'include_message': C(False)})
        h.oblige('it does not raise', k == 'ret', info=r)
        if k != 'ret':
            raise Infeasible()
        bad = frame_ok(h, pre)
        h.oblige('nothing is modified', not bad, info=bad)
        h.oblige('the result is a dictionary', ex.kind(r) is dict, info=r)
        if ex.kind(r) is not dict:
            raise Infeasible()
        ex.opts['dict_inv'] = {}
        return ex.get_dict(r)


def by_key_mode(include, same):
    def run(h):
        """The p-th error, and the first error with its key."""
        ex = h.ex
        p = z3.Int('p')
        f = p if same else z3.Int('f')

        def hook(op, e, x, j):
            # no error before the first one has the key
            e.assume(z3.Implies(z3.And(0 <= j, j < f), ex.term(ex.getattr(x, '_key')) != op.key.t))
        op = ByKeyOp(h, include, hook)
        h.assume(z3.And(0 <= f, p < op.seq.n))
        if not same:
            h.assume(f < p)
        for j in (f, p):
            h.assume(op.key_of(j) == op.key.t)
            ex.tracked_idx.append(('errors', j))
            if same:
                break
        d = op.run()
        here = zbool(d.dom(ex, op.key.t))
        h.oblige('the key of an error is there', here)
        if not ex.must(here):
            return
        h.cover('there')
        l = ex.dict_value(d, op.key.t)
        h.oblige('with a list', ex.kind(l) is list, info=l)
        if ex.kind(l) is not list:
            return
        want, n = op.entry(p), 0
        segs = ex.get_list(l).segs
        for s in segs:
            if isinstance(s, Ex):
                t = ex.term(s.v)
                if t.eq(want):
                    n += 1
                    continue
                h.oblige('of no other entry than those of errors with the key', (not same) and t.eq(op.entry(f)), info=t)
                continue
            if ex.choose([z3.BoolVal(True)] * 2) == 0:
                continue
            t = ex.term(s.draw(ex)) if not isinstance(s, Slice) else ex.fresh_val('el')
            j = item_of(op.seq, ex, t, include)
            h.oblige('of no other entry than those of errors with the key', j is not None and
                     z3.And(0 <= j, j < op.seq.n, op.key_of(j) == op.key.t, j != p) if j is not None else False, info=t)
        h.oblige('in which every error with the key has one entry', n == 1, info=segs)
    return run


@emode(('not there',))
def raw_no_such_key(h):
    absent(h, True)


@emode(('not there',))
def errors_no_such_key(h):
    absent(h, False)


def absent(h, include):
    op = ByKeyOp(h, include, lambda op, e, x, j: e.assume(e.term(e.getattr(x, '_key')) != op.key.t))
    d = op.run()
    h.cover('not there')
    h.oblige('a key that no error has is not there', z3.Not(zbool(d.dom(h.ex, op.key.t))))


for _i in (True, False):
    for _s in (True, False):
        mode('C14', covers=('there',), name=('raw' if _i else 'errors') + ('_first' if _s else '_later'), registry=registry)(by_key_mode(_i, _s))


# --- the errors of a validation error

IDX = z3.Function('index of the error', Val, I_)
COLLECTIONS = (list, tuple, set)
COPIED = ('_key', 'schema', 'context', 'state')


def collection(ex, m):
    return z3.Or([zbool(ex.inst(m, c)) for c in COLLECTIONS])


def build_registry():
    r = registry()
    con(r, VE, '_make_message', lambda ex, env: ex.opaque_str())
    return r


class BuildOp:
    """ValidationError(errors)."""

    def __init__(self, h, each=None):
        self.h, self.ex = h, h.ex
        ex = h.ex

        def elem(e, x, j):
            e.assume(IDX(e.term(x)) == j)       # distinct error objects
            # the list of errors is not itself the message of one of them
            m = uattr('message', oid(e.term(x)))
            e.assume(z3.Not(z3.And(Val.is_vobj(m), oid(m) == oid(e.term(self.list)))))
            if each:
                each(self, e, x)
        h.reg.hints[(FieldError, 'message')] = Hint('any', elem=lambda e, x, j, owner: self.item_hook(e, e.term(x), owner),
                                                    hook=lambda e, d, k, owner=None: self.item_hook(e, k, owner, d.domf(k)))
        self.item = None
        cv = z3.Const('cv0!current_schema', Val)
        h.assume(z3.And(Val.is_vobj(cv), oid(cv) <= 0))
        self.list = h.val('errors', list, meta={'tag': 'errors', 'ehint': FieldError, 'elem': elem})
        self.seq = ex.get_list(self.list).segs[0].seq
        ex.opts['list_filter'] = {'errors': lambda e, x: z3.Not(collection(e, e.getattr(x, 'message')))}

    def item_hook(self, e, x, owner, cond=True):
        if self.item and owner is not None:
            self.item(e, x, owner, cond)

    def run(self):
        h, ex = self.h, self.ex
        pre = snapshot(h)
        k, r = h.call(VE, [self.list])
        h.oblige('building the error does not raise', k == 'ret', info=r)
        if k != 'ret':
            raise Infeasible()
        bad = frame_ok(h, pre)
        h.oblige('neither the list nor an error is modified', not bad, info=bad)
        l = ex.getattr(r, 'errors')
        h.oblige('the errors are a new list', ex.kind(l) is list and is_fresh_id(oid(ex.term(l))), info=l)
        if ex.kind(l) is not list:
            raise Infeasible()
        h.oblige('the schema is the current one', ex.is_(ex.getattr(r, 'schema'), R.cvar_value(ex, oblate.utils.current_schema)))
        self.segs = ex.get_list(l).segs
        h.cover('built')
        return self.segs

    def count(self, p, e):
        """How often the p-th given error, e, is among the errors; None: unknown."""
        ex, n = self.ex, 0
        t = ex.term(e)
        for s in self.segs:
            if isinstance(s, Ex):
                if ex.must(ex.term(s.v) == t):
                    n += 1
                elif ex.may(ex.term(s.v) == t):
                    return None
            elif isinstance(s, (Slice, Filt)):
                at = z3.And(s.lo <= p, p < s.hi)
                if isinstance(s, Filt):
                    at = z3.And(at, s.keep(ex, p))
                if s.seq is not self.seq:
                    return None
                if ex.must(at):
                    n += 1
                elif ex.may(at):
                    return None
        return n

    def others(self, what):
        """A generic element of the segments that stand for several."""
        ex = self.ex
        for s in self.segs:
            if not isinstance(s, Ex) and ex.choose([z3.BoolVal(True)] * 2) == 1:
                if isinstance(s, Slice):
                    j = ex.fresh_int('j')
                    ex.assume(z3.And(s.lo <= j, j < s.hi))
                    yield s, s.seq.item(ex, j)
                else:
                    ex.assume(s.count() >= 1)
                    yield s, s.draw(ex)
                raise Infeasible()


def track(h, op):
    p = z3.Int('p')
    h.assume(z3.And(0 <= p, p < op.seq.n))
    h.ex.tracked_idx.append(('errors', p))
    return p, op.seq.item(h.ex, p)


@mode('C14', covers=('built',), name='plain_error', registry=build_registry)
def plain_error(h):
    """An error whose message is no collection is among the errors, once."""
    ex = h.ex
    op = BuildOp(h)
    p, e = track(h, op)
    h.assume(z3.Not(collection(ex, ex.getattr(e, 'message'))))
    op.run()
    n = op.count(p, e)
    h.oblige('an error whose message is no collection is there', n is not None and n >= 1, info=op.segs)
    h.oblige('once', n is not None and n <= 1, info=op.segs)
    for s, x in op.others('e'):
        if isinstance(s, Any_) and not isinstance(s, Filt):
            h.oblige('no other place has it', ex.term(x) != ex.term(e), info=x)


def collection_mode(cls):
    def run(h):
        ex = h.ex
        op = BuildOp(h)
        p, e = track(h, op)
        m = ex.getattr(e, 'message')
        h.assume(zbool(ex.inst(m, cls)))
        m = ex.narrow(m)
        if cls is set:
            x = h.val('item')
            ex.tracked.append((None, x.t))
            h.assume(zbool(ex.get_dict(m).dom(ex, x.t)))
        else:
            seq = ex.get_list(m).segs[0].seq if cls is list else ex.tuple_seq(m)
            q = z3.Int('q')
            h.assume(z3.And(0 <= q, q < seq.n))
            ex.tracked_idx.append((seq.uid, q))
            x = seq.item(ex, q)
        op.run()
        h.oblige('an error whose message is a collection is not there', op.count(p, e) == 0, info=op.segs)
        n = 0
        for s in op.segs:
            if not isinstance(s, Ex) or ex.term(s.v).eq(ex.term(e)) or not is_fresh_id(oid(ex.term(s.v))):
                continue
            if not ex.must(ex.term(ex.getattr(s.v, 'message')) == ex.term(x)):
                continue
            n += 1
            h.oblige('a message becomes an error', ex.inst(s.v, FieldError), info=s.v)
            for a in COPIED:
                h.oblige(f'with the same {a}', ex.is_(ex.getattr(s.v, a), ex.getattr(e, a)), info=ex.getattr(s.v, a))
        h.oblige('each message becomes an error', n >= 1, info=op.segs)
        h.oblige('only one', n <= 1, info=op.segs)
    return run


for _c in COLLECTIONS:
    mode('C14', covers=('built',), name='error_' + _c.__name__, registry=build_registry)(collection_mode(_c))


@mode('C14', covers=('built', 'given', 'made'), name='nothing_else', registry=build_registry)
def nothing_else(h):
    """Every error is a given one whose message is no collection, or made of a message of a given one: whatever holds of
    all these (GIVEN, MADE) holds of it."""
    ex = h.ex
    GIVEN, MADE = z3.Function('given', Val, BoolS), z3.Function('made', Val, Val, Val, Val, Val, BoolS)

    def each(op, e, x):
        e.assume(z3.Implies(z3.Not(collection(e, e.getattr(x, 'message'))), GIVEN(e.term(x))))
    op = BuildOp(h, each)

    def item(e, x, owner, cond):
        i = owner[1]
        e.assume(z3.Implies(cond, MADE(x, *[uattr(a, i) for a in COPIED])))
    op.item = item
    op.run()
    for s in op.segs:
        if isinstance(s, Ex):
            h.oblige('no tracked error', False, info=s)
    for s, x in op.others('x'):
        x = ex.narrow(x)
        t = ex.term(x)
        h.oblige('every element is a field error', ex.inst(x, FieldError), info=x)
        given = GIVEN(t)
        if ex.must(z3.And(Val.is_vobj(t), oid(t) <= 0)):
            h.cover('given')
            h.oblige('every error that was given has no collection as message', given, info=x)
        else:
            h.cover('made')
            h.oblige('every other error is made of a message of a given one', MADE(*[ex.term(ex.getattr(x, a)) for a in ('message',) + COPIED]), info=x)
