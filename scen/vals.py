"""Primitive fields, built-in validators, validator registry, global configuration."""
import re, math, collections
import oblate
from oblate import Schema, fields, validate, GlobalConfig
from oblate.exceptions import FieldError, ValidationError
from oblate.contexts import LoadContext
from base import *
from tps import SPIES, MyInt, load_one


class MyStr(str):
    pass


class MyFloat(float):
    pass


class Conv:
    def __init__(self, v):
        self.v = v

    def __int__(self):
        if isinstance(self.v, type):
            raise self.v('conv')
        return int(self.v)

    def __float__(self):
        if isinstance(self.v, type):
            raise self.v('conv')
        return float(self.v)

    def __str__(self):
        return 'true' if self.v == 1 else 'Conv'

    def __repr__(self):
        return 'Conv()'


PV = lambda: [0, 1, -3, True, False, 10 ** 30, MyInt(4), '', '1', ' 7 ', '1.5', 'true', 'Yes', 'TRUE', 'no', '0', 'NO', 'False', 'tRUE', 'x', MyStr('q'), MyStr('1'), 1.5, 0.0, -0.0,
              float('nan'), float('inf'), MyFloat(2.5), b'1', b'x', [], [1], (), {}, Thing(1), Conv(1), Conv(2.5), Conv(ValueError), Conv(KeyError), Conv(RuntimeError),
              Conv(OverflowError), Conv(AssertionError), Conv(TypeError), Conv(FieldErrorLike), complex(1, 2), int, object()]


class FieldErrorLike(Exception):
    pass


@scen('C11 C21', 'primitive fields, strict or not, over values of and around their types; independent oracle; deserialization called directly '
      'with a context that holds another value')
def primitives(rng, ck):
    k = rng.choice(['String', 'Integer', 'Float', 'Boolean'])
    tp = {'String': str, 'Integer': int, 'Float': float, 'Boolean': bool}[k]
    kw = {}
    strict = rng.choice([None, True, False, False, False])
    if strict is not None:
        kw['strict'] = strict
    strict = strict is not False
    tv, fv = fields.Boolean.TRUE_VALUES, fields.Boolean.FALSE_VALUES
    if k == 'Boolean':
        if rng.random() < .4:
            tv = kw['true_values'] = rng.choice([['x', '1'], (), ['0'], {'yes': 1}, 'q'])
        if rng.random() < .4:
            fv = kw['false_values'] = rng.choice([['x', 'no'], (), ['1'], ['Conv']])
    f = SPIES[k](**kw)
    f.mode = rng.choice(['default', 'default', 'none', 'str', 'fe'])
    f.seen = []
    cls = type(Schema)('One', (Schema,), {'f': f, 'g': fields.Any(required=False)})
    for _ in range(4):
        v = rng.choice(PV())
        f.seen = []
        want, fail = None, None
        if isinstance(v, tp):
            want = lambda r: r is v
        elif strict:
            fail = 'invalid_datatype'
        elif k == 'Boolean':
            s = str(v)
            if s in tv:
                want = lambda r: r is True
            elif s in fv:
                want = lambda r: r is False
            else:
                fail = 'coercion_failed'
        else:
            try:
                w = {'String': str, 'Integer': int, 'Float': float}[k](v)
                want = lambda r: type(r) is type(w) and (r == w or r != r and w != w)
            except Exception:
                fail = 'coercion_failed'
        direct = rng.random() < .5
        ck.note(k, strict, type(v).__name__, fail, direct, f.mode)
        if direct:
            s = cls({'f': {'String': 'a', 'Integer': 5, 'Float': 1.0, 'Boolean': True}[k]})
            ctx = LoadContext(field=f, value=rng.choice([7, 'other', None, 1.25, True]), schema=s)
            tok = current_schema.set(s), current_field_key.set('f'), current_context.set(ctx)
            try:
                r, err = f.value_load(v, ctx), None
            except FieldError as e:
                r, err = None, e
            errs = [err]
        else:
            try:
                s, err = cls({'f': v}), None
                r = s.f
            except ValidationError as e:
                r, err = None, e
                errs = e.errors
        if fail is None:
            ck('C11', err is None, 'a valid value is rejected', k, v, err)
            if err is None:
                ck('C11', want(r), 'wrong result', k, v, r)
                if not direct:
                    ck('C11', s.dump()['f'] is r, 'the value does not serialize to itself')
            continue
        ck('C11', err is not None, 'an invalid value is accepted', k, v, r)
        if err is None:
            continue
        ck('C11', len(errs) == 1 and isinstance(errs[0], FieldError), 'not exactly one field error', errs)
        ck('C21 C11', len(f.seen) == 1 and f.seen[0][0] == f'{k.lower()}.{fail}', 'wrong error code', f.seen, fail)
        ck('C21', f.seen[0][1] and f.seen[0][3] is v and f.seen[0][4] == {}, 'wrong context of format_error', f.seen, v)
        if f.mode == 'str':
            ck('C21', errs[0].message == 'custom', 'the message of format_error is not used')
        if f.mode == 'fe':
            ck('C21', errs[0] is f.fe, 'the error of format_error is not used')
        if f.mode in ('none', 'default'):
            ck('C21', isinstance(errs[0].message, str) and errs[0].message, 'no default message')


def accepts(ck, v, value, ctx=None, msg=None):
    try:
        v(None, value, ctx)
        return True
    except ValueError as e:
        if msg is not None:
            ck('C17', str(e) == msg, 'another message', str(e), msg)
        return False


class Ctx:
    schema = 'the schema'


@scen('C17', 'every built-in validator with random parameters and values at and around the bounds; independent oracle')
def validators(rng, ck):
    k = rng.choice(['range', 'std', 'length', 'regex', 'exclude', 'or'])
    ck.note(k)
    n = lambda: rng.choice([0, 1, 2, 3, -1, -4, 5, 10, 10 ** 20])
    if k == 'range':
        if rng.random() < .4:
            ub = n()
            lb = 0
            v = validate.Range(ub)
        else:
            lb, ub = n(), n()
            v = validate.Range(lb, ub)
        msg = f'Value must be equal to {lb}' if lb == ub else f'Value must be in range {lb} to {ub} inclusive'
        for x in {lb, ub, lb - 1, ub + 1, lb + 1, ub - 1, 0, (lb + ub) // 2, n()}:
            ck('C17', accepts(ck, v, x, Ctx, msg) == (lb <= x <= ub), 'Range decides wrongly', lb, ub, x)
            ck.note(lb <= x <= ub)
    elif k == 'std':
        a, b = n(), n()
        v = validate.Range.from_standard(range(a, b))
        for x in {a, b, a - 1, b + 1, b - 1, a + 1}:
            ck('C17', accepts(ck, v, x, Ctx) == (a <= x < b), 'Range.from_standard decides wrongly', a, b, x)
        ck('C17', type(v) is validate.Range, 'wrong class')
    elif k == 'length':
        m = lambda: rng.choice([0, 1, 2, 3, 5])
        c = rng.randrange(4)
        lo, hi = m(), m()
        kw = [{'min': lo}, {'max': hi}, {'exact': lo}, {'min': lo, 'max': hi}][c]
        v = validate.Length(**kw)
        for i in range(7):
            x = rng.choice([lambda: 'x' * i, lambda: [0] * i, lambda: {j: 0 for j in range(i)}, lambda: tuple(range(i))])()
            want = (lo <= i, i <= hi, i == lo, lo <= i <= hi)[c]
            ck('C17', accepts(ck, v, x, Ctx, v._msg if hasattr(v, '_msg') else None) == want, 'Length decides wrongly', kw, i)
    elif k == 'regex':
        pat = rng.choice(['a', 'a+', '^ab$', 'b*', 'a|b', '(?:x)', 'A', '', 'a$', '.'])
        flags = rng.choice([0, 0, re.I, re.M, re.S])
        mode = rng.choice(['match', 'fullmatch', 'search'])
        kw = {}
        if mode == 'fullmatch':
            kw['full_match'] = True
        if mode == 'search':
            kw['search'] = True
        msg = rng.choice([None, 'bad {value} for {pattern}', 'no', '{value!r}'])
        if msg is not None:
            kw['fail_message'] = msg
        comp = re.compile(pat, flags)
        if rng.random() < .4:
            v = validate.Regex(comp, **kw)
        else:
            v = validate.Regex(pat, flags, **kw)
        for x in ('', 'a', 'ab', 'aa', 'ba', 'b', 'xab', 'A', 'a\n', '\n', 'c', 'x\nab'):
            want = getattr(comp, mode)(x) is not None
            m = (msg or 'Value failed pattern validation').format(value=x, pattern=comp)
            ck('C17', accepts(ck, v, x, Ctx, m) == want, 'Regex decides wrongly', pat, flags, mode, x)
    elif k == 'exclude':
        pool = [0, 1, 'a', '', None, True, 1.0, [], [1], Thing(1), (), float('nan'), Grumpy()]
        vs = [rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 3]))]
        v = validate.Exclude(*vs)
        for x in pool + [5, 'b']:
            want = not any(x is y or x == y for y in vs)
            ck('C17', accepts(ck, v, x, Ctx, f'Value cannot be {vs[0]!r}' if len(vs) == 1 else f'Value cannot be one from: {", ".join(map(repr, vs))}') == want,
               'Exclude decides wrongly', vs, x)
    else:
        log = []

        def mk(i, o):
            def f(schema, value, ctx):
                log.append((i, schema, value, ctx))
                if o != 'ok':
                    if o is FieldError:
                        t = current_schema.set(None), current_field_key.set('k')
                        try:
                            raise FieldError('x')
                        finally:
                            current_schema.reset(t[0]), current_field_key.reset(t[1])
                    raise o('x')
                return rng.choice([None, False, True])
            return f
        outs = [rng.choice(['ok', ValueError, AssertionError, FieldError, ValueError, UnicodeError]) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
        foreign = rng.random() < .15 and outs
        if foreign:
            outs[rng.randrange(len(outs))] = rng.choice(FOREIGN)
        v = validate.Or(*[mk(i, o) for i, o in enumerate(outs)])
        bad = (ValueError, AssertionError, FieldError, UnicodeError)
        stop = next((i for i, o in enumerate(outs) if o == 'ok' or o not in bad), None)
        x = rng.choice([1, None, 'a', []])
        try:
            r = v(None, x, Ctx)
            ok = True
        except ValueError as e:
            ok = False
            ck('C17', str(e) == 'All validations failed for the given value', 'another message')
        except BaseException as e:
            ck('C17', stop is not None and outs[stop] != 'ok' and type(e) is outs[stop], 'another exception', e)
            ok = None
        ck('C17', ok == (None if stop is not None and outs[stop] != 'ok' else stop is not None), 'Or decides wrongly', outs)
        ck('C17', [l[0] for l in log] == list(range(len(outs) if stop is None else stop + 1)), 'Or does not try its validators in order until one accepts', outs, log)
        ck('C17', all(l[1] is Ctx.schema and l[2] is x and l[3] is Ctx for l in log), 'Or passes other arguments')


class CV:
    """callable with its own notion of equality"""

    def __init__(self, n, raw=None, eq=False):
        self.n, self.eq = n, eq
        if raw is not None:
            self.__validator_is_raw__ = raw

    def __call__(self, *a):
        pass

    def __eq__(self, o):
        return self is o or self.eq and isinstance(o, CV) and o.n == self.n
    __hash__ = object.__hash__

    def __repr__(self):
        return f'CV{self.n}'


class VR(validate.Validator, raw=True):
    def validate(self, v, c):
        pass


class VN(validate.Validator):
    def validate(self, v, c):
        pass


@scen('C18 C15', 'random sequences of add/remove/clear/walk and field copies, validators with own equality and raw markings; list model')
def registry(rng, ck):
    def mk():
        return rng.choice([lambda: CV(rng.randrange(3), None, rng.random() < .4), lambda: CV(rng.randrange(3), rng.choice([True, False]), rng.random() < .4), VR, VN,
                           lambda: (lambda s, v, c: None)])()
    pool = [mk() for _ in range(4)]
    israw = lambda v, raw: bool(getattr(v, '__validator_is_raw__', raw))
    init = [rng.choice(pool) for _ in range(rng.choice([0, 1, 3]))]
    f = fields.Any(validators=rng.choice([list, tuple, iter])(init)) if init or rng.random() < .5 else fields.Any()
    models = [(f, {True: [v for v in init if israw(v, False)], False: [v for v in init if not israw(v, False)]})]

    def eq(a, b):
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))

    def check(what):
        for g, m in models:
            p = 'C18' if g is cur[0] else 'C18 C15'
            ck(p, eq(list(g.walk_validators(raw=True)), m[True]), what + ': wrong raw validators', list(g.walk_validators(raw=True)), m[True])
            ck(p, eq(list(g.walk_validators(raw=False)), m[False]), what + ': wrong validators', list(g.walk_validators(raw=False)), m[False])
            ck(p, eq(list(g.walk_validators()), m[False] + m[True]), what + ': walk_validators yields others', list(g.walk_validators()))
    cur = models[0]
    check('constructor')
    for _ in range(rng.choice([2, 5, 8])):
        cur = g, m = rng.choice(models)
        k = rng.choice(['add', 'add', 'add', 'remove', 'remove', 'clear', 'copy'])
        kw = {} if rng.random() < .4 else {'raw': rng.choice([True, False])}
        ck.note(k, kw.get('raw'))
        if k == 'add':
            v = rng.choice(pool)
            ck('C18', g.add_validator(v, **kw) is None, 'add_validator returns something')
            m[israw(v, kw.get('raw', False))].append(v)
        elif k == 'remove':
            v = rng.choice(pool)
            g.remove_validator(v, **kw)
            l = m[israw(v, kw.get('raw', False))]
            for i, x in enumerate(l):
                if x is v or x == v:
                    del l[i]
                    break
        elif k == 'clear':
            g.clear_validators(**kw)
            for r in (True, False):
                if 'raw' not in kw or kw['raw'] == r:
                    m[r].clear()
        else:
            models.append((g.copy(), {True: list(m[True]), False: list(m[False])}))
        check(k)


class VE1(ValidationError):
    pass


@scen('C20', 'random sequences of option assignments on several GlobalConfig objects; model of the last accepted values')
def options(rng, ck):
    objs = []
    for _ in range(rng.choice([1, 2, 3])):
        kw, m = {}, {'validation_error_cls': ValidationError, 'warn_unsupported_types': True}
        if rng.random() < .4:
            kw['validation_error_cls'] = m['validation_error_cls'] = rng.choice([VE1, ValidationError])
        if rng.random() < .4:
            kw['warn_unsupported_types'] = m['warn_unsupported_types'] = rng.choice([True, False])
        objs.append((GlobalConfig(**kw), m))
    for _ in range(rng.choice([1, 4, 8])):
        g, m = rng.choice(objs)
        n = rng.choice(['validation_error_cls', 'warn_unsupported_types'])
        if n == 'validation_error_cls':
            v = rng.choice([VE1, ValidationError, Exception, oblate.FieldError, int, 'x', None, ValueError])
            ok = isinstance(v, type) and issubclass(v, ValidationError)
        else:
            v = rng.choice([True, False, 1, 0, None, 'True', []])
            ok = isinstance(v, bool)
        ck.note(n, ok)
        try:
            setattr(g, n, v)
            ck('C20', ok, 'a wrong option value is accepted', n, v)
            m[n] = v
        except TypeError:
            ck('C20', not ok, 'a right option value is rejected', n, v)
        for h, mm in objs:
            for k in mm:
                ck('C20', getattr(h, k) is mm[k], 'an option has another value', k, getattr(h, k), mm[k])
    for k, d in (('validation_error_cls', ValidationError), ('warn_unsupported_types', True)):
        ck('C20', getattr(GlobalConfig, k) is d, 'the class does not give the default', k)
