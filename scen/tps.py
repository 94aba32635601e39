"""Type expressions, validate_types, structure and typing fields against an independent conformance function."""
import typing as t, collections, collections.abc, types, sys
import typing_extensions as te
from typing import List, Dict, Set, Tuple, Sequence, Mapping, Union, Optional, Literal, Any, TypedDict
from typing_extensions import Required, NotRequired
import oblate
from oblate import Schema, fields, validate_types, TypeValidationError
from oblate.exceptions import FieldError, ValidationError
from base import *

oblate.config.warn_unsupported_types = False
T_ = t.TypeVar('T_')


class Gen(t.Generic[T_]):
    pass


class MyList(list):
    pass


class MyDict(dict):
    pass


class MyInt(int):
    pass


class MyTuple(tuple):
    pass


class MySet(set):
    pass


NT = collections.namedtuple('NT', 'x y')


class E(tuple):
    """An expression of the generator: (kind, args...) and its typing object."""


def ex(kind, tp, *args):
    e = E((kind,) + args)
    e.tp = tp
    return e


PLAIN = [int, str, bool, float, bytes, list, dict, set, tuple, type(None), object, Thing, collections.abc.Sized]
TDS = {}


def gen_type(rng, d, td=True):
    k = rng.choice(['plain'] * 4 + ['any', 'lit'] + (['union', 'opt', 'list', 'set', 'dict', 'map', 'tuple', 'vtuple', 'seq', 'bare', 'odd', 'td'] if d > 0 else ['bare', 'odd']))
    sub = lambda: gen_type(rng, d - 1, td)
    if k == 'plain':
        c = rng.choice(PLAIN)
        return ex('plain', c, c)
    if k == 'any':
        return ex('any', Any)
    if k == 'lit':
        vs = rng.sample([1, 0, 'a', 'b', None, True, b'x', 3], rng.choice([1, 1, 2, 3]))
        return ex('lit', Literal[tuple(vs)], *t.get_args(Literal[tuple(vs)]))
    if k in ('union', 'opt'):
        ms = [sub() for _ in range(rng.choice([2, 3]))] if k == 'union' else [sub(), ex('plain', type(None), type(None))]
        try:
            tp = Union[tuple(m.tp for m in ms)]
            if k == 'union' and rng.random() < .4:
                tp = ms[0].tp | ms[1].tp
                for m in ms[2:]:
                    tp = tp | m.tp
        except TypeError:
            tp = Union[tuple(m.tp for m in ms)]
        return ex('union', tp, *ms)
    if k == 'list':
        a = sub()
        return ex('list', List[a.tp] if rng.random() < .5 else list[a.tp], a)
    if k == 'set':
        a = sub()
        return ex('set', Set[a.tp] if rng.random() < .5 else set[a.tp], a)
    if k == 'dict':
        a, b = sub(), sub()
        return ex('dict', Dict[a.tp, b.tp] if rng.random() < .5 else dict[a.tp, b.tp], a, b)
    if k == 'map':
        a, b = sub(), sub()
        return ex('map', Mapping[a.tp, b.tp] if rng.random() < .5 else collections.abc.Mapping[a.tp, b.tp], a, b)
    if k == 'tuple':
        ms = [sub() for _ in range(rng.choice([1, 2, 2, 3]))]
        p = tuple(m.tp for m in ms)
        return ex('tuple', Tuple[p] if rng.random() < .5 else tuple[p], *ms)
    if k == 'vtuple':
        a = sub()
        return ex('vtuple', Tuple[a.tp, ...] if rng.random() < .5 else tuple[a.tp, ...], a)
    if k == 'seq':
        a = sub()
        return ex('seq', Sequence[a.tp] if rng.random() < .5 else collections.abc.Sequence[a.tp], a)
    if k == 'bare':
        n, tp = rng.choice([('list', List), ('set', Set), ('dict', Dict), ('map', Mapping), ('baretuple', Tuple), ('seq', Sequence)])
        return ex(n, tp)
    if k == 'td' and td:
        return gen_td(rng, d - 1)
    return ex('odd', rng.choice([t.Iterable[int], t.Callable[[int], str], t.Type[int], Gen[int], t.Deque[int], frozenset[int], t.Iterator[str], collections.deque[str]]))


def gen_td(rng, d, base=None):
    """A TypedDict class, perhaps inheriting: kind 'td', {key: (required, E)}."""
    keys = {}
    bases = (TypedDict,)
    mod = rng.choice([t.TypedDict, te.TypedDict])
    own = {}
    decl = {}
    total = rng.choice([True, True, False])
    parent = None
    if d > 0 and rng.random() < .4:
        parent = gen_td(rng, d - 1)
        decl.update(parent[1])
    for n in rng.sample(['a', 'b', 'c', 'd', 'e'], rng.choice([0, 1, 2, 3])):
        if parent and n in decl:
            continue
        e = gen_type(rng, d, td=d > 0)
        m = rng.choice(['', '', 'R', 'N'])
        own[n] = Required[e.tp] if m == 'R' else NotRequired[e.tp] if m == 'N' else e.tp
        decl[n] = (m == 'R' or m == '' and total, e)
    if parent is None:
        tp = mod('TD', own, total=total)
    else:
        tp = types.new_class('TD', (parent.tp,), {'total': total}, lambda ns: ns.update({'__annotations__': own, '__module__': __name__}))
    return ex('td', tp, decl)


def conf(v, e):
    k = e[0]
    if k == 'plain':
        return isinstance(v, e[1])
    if k in ('any', 'odd'):
        return True
    if k == 'lit':
        return any(v is x or v == x for x in e[1:])
    if k == 'union':
        return any(conf(v, m) for m in e[1:])
    if k == 'list':
        return isinstance(v, list) and (len(e) == 1 or all(conf(x, e[1]) for x in v))
    if k == 'set':
        return isinstance(v, set) and (len(e) == 1 or all(conf(x, e[1]) for x in v))
    if k in ('dict', 'map'):
        return isinstance(v, dict if k == 'dict' else collections.abc.Mapping) and (len(e) == 1 or all(conf(a, e[1]) and conf(b, e[2]) for a, b in v.items()))
    if k == 'tuple':
        return isinstance(v, tuple) and len(v) == len(e) - 1 and all(conf(x, m) for x, m in zip(v, e[1:]))
    if k == 'baretuple':
        return isinstance(v, tuple)
    if k == 'vtuple':
        return isinstance(v, tuple) and all(conf(x, e[1]) for x in v)
    if k == 'seq':
        return isinstance(v, (list, tuple, set)) and (len(e) == 1 or all(conf(x, e[1]) for x in v))
    if k == 'td':
        d = e[1]
        return isinstance(v, dict) and all(x in d and conf(y, d[x][1]) for x, y in v.items()) and all(x in v for x in d if d[x][0])
    raise AssertionError(k)


def hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


ANYV = [0, 1, True, False, None, '', 'a', 'b', 1.5, b'x', [], {}, set(), (), [1], ['a'], {'a': 1}, {1}, (1,), (1, 'a'), MyInt(3), Thing(1), int, 3, frozenset(), collections.UserDict(), range(2), collections.deque()]


def gen_value(rng, e, good=.93):
    """A value biased to conform."""
    if rng.random() > good:
        v = rng.choice(ANYV)
        return v
    k = e[0]
    n = rng.choice([0, 1, 1, 2, 3]) if rng.random() < .997 else 70
    g = lambda x: gen_value(rng, x, 1 if n == 70 else good)
    last = [rng.choice(ANYV)] if n == 70 and good < 1 else []
    if k == 'plain':
        c = e[1]
        return {int: lambda: rng.choice([0, 5, True, MyInt(2), rng.randrange(1000), rng.randrange(1000)]), str: lambda: rng.choice(['', 'a', 'q']), bool: lambda: rng.random() < .5, float: lambda: rng.choice([1.5, 0.0]),
                bytes: lambda: b'x', list: lambda: [1], dict: lambda: {'a': 1}, set: lambda: {1}, tuple: lambda: (1,), type(None): lambda: None,
                object: lambda: rng.choice(ANYV), Thing: lambda: Thing(2), collections.abc.Sized: lambda: rng.choice(['x', [1]])}[c]()
    if k in ('any', 'odd'):
        return rng.choice(ANYV)
    if k == 'lit':
        return rng.choice(e[1:])
    if k == 'union':
        return g(rng.choice(e[1:]))
    if k == 'list':
        return rng.choice([list, list, MyList])([g(e[1]) if len(e) > 1 else rng.choice(ANYV) for _ in range(n)] + last)
    if k == 'set':
        return rng.choice([set, set, MySet])([x for x in (g(e[1]) if len(e) > 1 else rng.choice(ANYV) for _ in range(n)) if hashable(x)])
    if k in ('dict', 'map'):
        d = {}
        for _ in range(n):
            a, b = (g(e[1]), g(e[2])) if len(e) > 1 else (rng.choice(ANYV), rng.choice(ANYV))
            if hashable(a):
                d[a] = b
        if last and d:
            d[list(d)[-1]] = last[0]
        return rng.choice([dict, MyDict, collections.OrderedDict] + ([types.MappingProxyType, collections.UserDict] if k == 'map' else []))(d)
    if k == 'tuple':
        v = [g(m) for m in e[1:]]
        j = rng.random()
        if j < .07:
            v.append(rng.choice(ANYV))
        elif j < .14 and v:
            v.pop()
        return NT(*v) if len(v) == 2 and rng.random() < .1 else rng.choice([tuple, tuple, MyTuple])(v)
    if k == 'baretuple':
        return tuple(rng.choice(ANYV) for _ in range(n))
    if k == 'vtuple':
        return rng.choice([tuple, tuple, MyTuple])(g(e[1]) for _ in range(n))
    if k == 'seq':
        xs = [g(e[1]) if len(e) > 1 else rng.choice(ANYV) for _ in range(n)]
        c = rng.choice([list, list, tuple, set, MyList, MyTuple, MySet])
        return c([x for x in xs if hashable(x)]) if issubclass(c, set) else c(xs)
    if k == 'td':
        d = {}
        for n, (req, m) in e[1].items():
            if req and rng.random() < .96 or not req and rng.random() < .5:
                d[n] = g(m)
        if rng.random() < .06:
            d['zz'] = 1
        return rng.choice([dict, dict, MyDict])(d)


def shape(e):
    return e[0] + ('(' + ','.join(shape(x) for x in e[1:] if isinstance(x, E)) + ')' if any(isinstance(x, E) for x in e[1:]) else '')


def check_type(ck, props, e, v):
    want = conf(v, e)
    try:
        r = validate_types({'root': e.tp}, {'root': v})
        ck(props, want, 'a value that does not conform is accepted', e.tp, v)
        ck(props + ' C10', r is None, 'validate_types returns something', r)
    except TypeValidationError as err:
        ck(props, not want, 'a conforming value is rejected', e.tp, v, err.errors)
        ck(props + ' C10', set(err.errors) == {'root'}, 'wrong keys of the type errors', err.errors)
        m = err.errors.get('root')
        ck(props + ' C10', isinstance(m, list) and len(m) > 0 and all(isinstance(x, str) for x in m), 'no error messages', m)
        return m
    return None


@scen('C08', 'random type expressions (depth up to 3) and values biased to conform; conformance decided by an independent function')
def type_expressions(rng, ck):
    e = gen_type(rng, rng.choice([0, 1, 2, 3]), td=False)
    for _ in range(4):
        v = gen_value(rng, e, rng.choice([.6, .93, 1]))
        check_type(ck, 'C08', e, v)
        ck.note(shape(e), type(v).__name__, conf(v, e))


class TStr(TypedDict):
    a: 'NotRequired[int]'
    b: 'Required[str]'
    c: 'List[int]'


class TStrN(TypedDict, total=False):
    a: 'Required[int]'
    b: 'List[str]'


class TInh(TStrN):
    d: int
    e: NotRequired[Literal['a']]


def static(tp, **d):
    return ex('td', tp, d)


def P(c):
    return ex('plain', c, c)


STATIC = [static(TStr, a=(False, P(int)), b=(True, P(str)), c=(True, ex('list', List[int], P(int)))),
          static(TStrN, a=(True, P(int)), b=(False, ex('list', List[str], P(str)))),
          static(TInh, a=(True, P(int)), b=(False, ex('list', List[str], P(str))), d=(True, P(int)), e=(False, ex('lit', Literal['a'], 'a')))]


@scen('C09', 'random TypedDict classes (total, Required, NotRequired, inheritance, nesting) and values; independent oracle')
def typed_dicts(rng, ck):
    e = rng.choice(STATIC) if rng.random() < .2 else gen_td(rng, rng.choice([0, 1, 2]))
    if rng.random() < .25:
        w = rng.choice(['list', 'union', 'opt'])
        inner = e
        e = ex('list', List[e.tp], e) if w == 'list' else ex('union', Union[e.tp, int], e, P(int)) if w == 'union' else ex('union', Optional[e.tp], e, P(type(None)))
    for _ in range(4):
        v = gen_value(rng, e, rng.choice([.5, .85, .95, 1]))
        m = check_type(ck, 'C09', e, v)
        ck.note(shape(e), type(v).__name__, conf(v, e))
        if e[0] == 'td' and isinstance(v, dict) and m is not None:
            d = e[1]
            for k in list(v) + list(d):
                bad = k not in d or k not in v and d[k][0] or k in v and not conf(v[k], d[k][1])
                named = [x for x in m if repr(k) in x]
                if bad:
                    ck('C09', named, 'no error for a key', k, m)
            n = len([1 for k in set(v) | set(d) if k not in d or k not in v and d[k][0] or k in v and not conf(v[k], d[k][1])])
            ck('C09', len(m) >= n, 'not an error for each faulty key', m)


@scen('C10', 'random type and value mappings with unknown, missing and non-conforming keys, all flag combinations')
def validate_mappings(rng, ck):
    names = ['a', 'b', 'c', 'd', 'e', 'f']
    tps = {n: gen_type(rng, rng.choice([0, 1, 2])) for n in names if rng.random() < .6}
    vals = {}
    for n in names:
        if rng.random() < .7:
            vals[n] = gen_value(rng, tps[n], .85) if n in tps else rng.choice(ANYV)
    items = list(vals.items())
    rng.shuffle(items)
    vals = dict(items)
    kw = {}
    for f in ('ignore_extra', 'ignore_missing'):
        if rng.random() < .5:
            kw[f] = rng.choice([True, False])
    bad = {n for n in vals if n not in tps and not kw.get('ignore_extra')} | {n for n in vals if n in tps and not conf(vals[n], tps[n])}
    if not kw.get('ignore_missing'):
        bad |= {n for n in tps if n not in vals}
    types_ = {n: e.tp for n, e in tps.items()}
    t0, v0 = dict(types_), dict(vals)
    a = types_ if rng.random() < .6 else types.MappingProxyType(types_)
    b = vals if rng.random() < .6 else collections.UserDict(vals)
    for _ in range(2):
        try:
            r = validate_types(a, b, **kw)
            ck('C10', r is None, 'validate_types returns something', r)
            ck('C10', not bad, 'faulty keys are accepted', bad)
        except TypeValidationError as err:
            ck('C10', set(err.errors) == bad, 'wrong keys of the type errors', set(err.errors), bad)
            ck('C10', all(isinstance(m, list) and m and all(isinstance(x, str) for x in m) for m in err.errors.values()), 'no messages', err.errors)
        ck('C10', same_map(types_, t0) and same_map(vals, v0) and same_map(dict(b), v0), 'validate_types modifies its arguments', types_, t0)
    ck.note(len(tps), len(vals), len(bad), sorted(kw.items()))


def same_map(a, b):
    return list(a) == list(b) and all(a[k] is b[k] for k in a)


def freeze(v, d=3):
    if d and isinstance(v, dict):
        return ('d', [(freeze(k, d - 1), freeze(x, d - 1)) for k, x in v.items()])
    if d and isinstance(v, (list, tuple)):
        return (type(v), [freeze(x, d - 1) for x in v])
    if isinstance(v, set):
        return (type(v), sorted(map(id, v)))
    return id(v)


class Spy:
    def format_error(self, code, ctx):
        self.seen.append((code, ctx.field is self, ctx.schema, ctx.get_value(), dict(ctx.metadata)))
        m = self.mode
        if m == 'none':
            return None
        if m == 'str':
            return 'custom'
        if m == 'fe':
            self.fe = FieldError('own')
            return self.fe
        return super().format_error(code, ctx)


def spy(cls):
    return type('Spy' + cls.__name__, (Spy, cls), {})


SPIES = {n: spy(getattr(fields, n)) for n in ('Dict', 'List', 'Set', 'TypedDict', 'Literal', 'Union', 'TypeExpr', 'Any', 'String', 'Integer', 'Float', 'Boolean')}


def load_one(f, v):
    """(schema, error)"""
    cls = type(Schema)('One', (Schema,), {'f': f})
    f.seen, f.mode = [], getattr(f, 'mode', 'default')
    try:
        return cls, cls({'f': v}), None
    except ValidationError as e:
        return cls, None, e


@scen('C12 C21', 'structure and typing fields over random type expressions; values biased to conform; independent oracle')
def struct_fields(rng, ck):
    k = rng.choice(['Dict', 'List', 'Set', 'TypedDict', 'Literal', 'Union', 'TypeExpr', 'Any'])
    d = rng.choice([0, 1, 2])
    C_ = SPIES[k]
    base = None
    if k == 'Dict':
        base = dict
        if rng.random() < .3:
            f, e = C_(), ex('dict', Dict)
        else:
            a, b = gen_type(rng, d), gen_type(rng, d)
            f, e = C_(a.tp, b.tp), ex('dict', Dict[a.tp, b.tp], a, b)
    elif k in ('List', 'Set'):
        base = list if k == 'List' else set
        if rng.random() < .3:
            f, e = C_(), ex(k.lower(), List if k == 'List' else Set)
        else:
            a = gen_type(rng, d)
            f, e = C_(a.tp), ex(k.lower(), (List if k == 'List' else Set)[a.tp], a)
    elif k == 'TypedDict':
        base = dict
        e = gen_td(rng, d)
        f = C_(e.tp)
    elif k == 'Literal':
        vs = rng.sample([1, 0, 'a', 'b', True, b'x', 3], rng.choice([1, 2, 3]))
        f, e = C_(*vs), ex('lit', Literal[tuple(vs)], *vs)
    elif k == 'Union':
        cs = rng.sample([int, str, float, bytes, list, dict, Thing], rng.choice([2, 3]))
        f, e = C_(*cs), ex('union', Union[tuple(cs)], *[P(c) for c in cs])
    elif k == 'TypeExpr':
        e = gen_type(rng, d)
        f = C_(e.tp)
    else:
        f, e = C_(), ex('any', Any)
    f.mode = rng.choice(['default', 'default', 'default', 'none', 'str', 'fe'])
    first = True
    for _ in range(3):
        v = gen_value(rng, e, rng.choice([.6, .93, 1]))
        if v is None:
            continue
        before = freeze(v)
        if first:
            cls, s, err = load_one(f, v)
            first = False
        else:
            f.seen = []
            try:
                s, err = cls({'f': v}), None
            except ValidationError as x:
                s, err = None, x
        ck('C12', freeze(v) == before, 'the value is modified', v)
        ok = conf(v, e)
        ck.note(k, shape(e), type(v).__name__, ok, f.mode)
        if ok:
            ck('C12', err is None, 'a conforming value is rejected', e.tp, v, err)
            if err is None:
                ck('C12', s.f is v, 'another object is returned', s.f, v)
                ck('C12', s.dump()['f'] is v, 'the value does not serialize to itself')
            continue
        ck('C12', err is not None, 'a value that does not conform is accepted', e.tp, v)
        if err is None:
            continue
        inv = base is not None and not isinstance(v, base)
        ck('C21', len(f.seen) == 1, 'format_error is not called exactly once', f.seen)
        code, isf, sch, val, meta = f.seen[0]
        names = {'Dict': 'dict', 'List': 'list', 'Set': 'set', 'TypedDict': 'typed_dict'}
        want = f'{names[k]}.invalid_datatype' if inv else f'{names[k]}.type_validation_failed' if base else \
            {'Literal': 'literal.invalid_value', 'Union': 'union.invalid_value', 'TypeExpr': 'type_expr.type_validation_failed'}[k]
        ck('C12 C21', code == want, 'wrong error code', code, want)
        ck('C21', isf and val is v and isinstance(sch, cls), 'wrong context of format_error', f.seen)
        if not inv:
            try:
                validate_types({'root': e.tp}, {'root': v})
                msgs = None
            except TypeValidationError as x:
                msgs = x.errors['root']
            ck('C12 C21', isinstance(meta.get('type_validation_fail_errors'), list) and meta.get('type_validation_fail_errors') == msgs, 'wrong metadata', meta, msgs)
            if f.mode in ('default', 'none'):
                ck('C12', sorted(x.message for x in err.errors) == sorted(msgs or []), 'not every type-validation message is reported', [x.message for x in err.errors], msgs)
        else:
            ck('C21', meta == {}, 'unexpected metadata', meta)
        if f.mode == 'str':
            ck('C21', [x.message for x in err.errors] == ['custom'], 'the message of format_error is not used')
        if f.mode == 'fe':
            ck('C21', err.errors == [f.fe], 'the error of format_error is not used')
        ck('C12', all(x.key == 'f' for x in err.errors) and err.errors, 'wrong key of an error')
