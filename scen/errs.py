"""ValidationError built from random field errors."""
import oblate
from oblate import Schema, fields
from oblate.exceptions import FieldError, ValidationError
from base import *


class S1(Schema):
    a = fields.Any(required=False)
    b = fields.Any(required=False, load_key='bb')


class FE2(FieldError):
    pass


class OddStr(str):
    pass


class MyL(list):
    pass


def message(rng, d=2, nested=None):
    k = rng.randrange(14)
    sub = lambda: message(rng, d - 1, nested)
    if k < 4 or d <= 0:
        return rng.choice(['m', '', 'long\nline', 0, 1, None, False, 2.5, b'x', OddStr('o'), Thing(1), Grumpy(), object, float('nan')])
    if k < 8:
        c = rng.choice([list, list, tuple, MyL])
        return c([sub() for _ in range(rng.choice([0, 1, 2, 3]))])
    if k == 8:
        return set(rng.sample(['p', 'q', 1, None, ('t', 1)], rng.choice([0, 1, 2, 3])))
    if k == 9:
        return {rng.choice(['x', 'y', 1, None]): sub() for _ in range(rng.choice([0, 1, 2]))}
    if k == 10:
        return {rng.choice(['x', 'y', 'bb', 'a']): [nested(rng, d - 1) for _ in range(rng.choice([0, 1, 2]))] for _ in range(rng.choice([0, 1, 2]))}
    if k == 11:
        return {'x': [nested(rng, d - 1), 'str'], 'y': 'z'} if rng.random() < .5 else {'x': [nested(rng, d - 1)] + rng.choice([['str'], [{}], []])}
    if k == 12:
        return {'x': [[sub()], {'q': [nested(rng, d - 1)]}]}
    return {'k': {'l': [sub()]}, 'n': nested(rng, d - 1)}


def raw_of(m):
    if isinstance(m, FieldError):
        return raw_of(m.message)
    if isinstance(m, dict):
        return {k: raw_of(v) for k, v in m.items()}
    if isinstance(m, list):
        return [raw_of(x) for x in m]
    return str(m)


@scen('C14', 'random lists of field errors (keys, message structures, subclasses, states, several schemas); independent oracle for errors and raw()')
def validation_errors(rng, ck):
    schemas = [S1({}), S1({'a': 1}), S1({})]
    keys = ['a', 'bb', 'b', 'zz', '', 'a', 'ü']

    def err(rng, d=2):
        s, k = rng.choice(schemas), rng.choice(keys)
        ctx = rng.choice([None, Thing('ctx')])
        t = current_schema.set(s), current_field_key.set(k), current_context.set(ctx)
        try:
            return rng.choice([FieldError, FieldError, FE2])(message(rng, d, err), **({} if rng.random() < .5 else {'state': rng.choice([Thing('st'), 0, '', None, []])}))
        finally:
            current_schema.reset(t[0]), current_field_key.reset(t[1]), current_context.reset(t[2])
    errors = [err(rng) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    if rng.random() < .15:
        errors.append(rng.choice(errors))
    given = list(errors)
    s = rng.choice(schemas)
    tok = current_schema.set(s)
    cls = rng.choice([ValidationError, ValidationError, type('VE', (ValidationError,), {})])
    amb = [v.get(UNSET) for v in CVS]
    try:
        ve = cls(errors)
    finally:
        ck('C14', all(a is v.get(UNSET) for a, v in zip(amb, CVS)), 'building a validation error changes the ambient context')
        current_schema.reset(tok)
    ck('C14', len(errors) == len(given) and all(a is b for a, b in zip(errors, given)), 'the given list is modified')
    exp = []
    for e in given:
        if isinstance(e.message, (list, tuple, set)):
            exp += [(e, m) for m in e.message]
        else:
            exp.append((e, None))
    ck.note(','.join(type(e.message).__name__ + str(len(e.message) if isinstance(e.message, (list, dict)) else '') for e in given))
    left = list(ve.errors)
    for e, m in exp:
        if not isinstance(e.message, (list, tuple, set)):
            hit = next((x for x in left if x is e), None)
            ck('C14', hit is not None, 'an error is lost', e)
        else:
            hit = next((x for x in left if x.message is m and not any(x is g for g in given) and x.key == e.key and x.schema is e.schema and x.context is e.context and x.state is e.state), None)
            ck('C14', hit is not None, 'a message is lost, or without its key, schema, context or state', m, left)
            ck('C14', isinstance(hit, FieldError), 'not a field error', hit)
        left = [x for x in left if x is not hit] if sum(1 for x in left if x is hit) == 1 else drop(left, hit)
    ck('C14', not left, 'an error too many', left)
    ck('C14', ve.schema is s, 'wrong schema of the validation error')
    want = {}
    for e, m in exp:
        want.setdefault(e.key, []).append(raw_of(e if not isinstance(e.message, (list, tuple, set)) else m))
    for got in (ve.raw(), ve._raw_std() if hasattr(ve, '_raw_std') else ve.raw()):
        ck('C14', isinstance(got, dict) and set(got) == set(want), 'raw() has other keys', got, want)
        for k in want:
            ck('C14', isinstance(got[k], list) and sorted(map(repr, got[k])) == sorted(map(repr, want[k])), 'raw() has other messages under a key', k, got[k], want[k])
    text = str(ve)
    ck('C14', isinstance(text, str) and text, 'no text')
    try:
        raise ve
    except ValidationError as x:
        ck('C14', x is ve and repr(x), 'no representation')


def drop(l, x):
    l = list(l)
    for i, y in enumerate(l):
        if y is x:
            del l[i]
            return l
    return l
