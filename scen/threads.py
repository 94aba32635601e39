"""Operations in several threads under a controlled schedule: the outcome must be that of the sequential run (C22)."""
import sys, threading, asyncio, contextvars, typing, typing_extensions
import oblate
from oblate import Schema, fields, validate
from oblate.exceptions import FieldError, ValidationError, FrozenError
from oblate.contexts import LoadContext
from base import *

YIELD = [lambda: None]


class Bad:
    """A raw value that makes the field fail in a way that names it."""

    def __init__(self, how, tag):
        self.how, self.tag = how, tag

    def go(self):
        YIELD[0]()
        if self.how == 'value':
            raise ValueError(f'v{self.tag}')
        if self.how == 'assert':
            raise AssertionError(f'a{self.tag}')
        if self.how == 'empty':
            raise ValueError()
        if self.how == 'list':
            raise FieldError([f'l{self.tag}', f'm{self.tag}'])
        if self.how == 'state':
            raise FieldError({'t': self.tag}, state=self.tag)
        raise FieldError(f'f{self.tag}')

    def __repr__(self):
        return f'Bad({self.how},{self.tag})'


HOW = ('value', 'assert', 'empty', 'list', 'state', 'field')


class Plain(fields.Field):
    def value_load(self, value, context):
        YIELD[0]()
        if isinstance(value, Bad) and value.tag % 3 == 0:
            value.go()
        YIELD[0]()
        return value

    def value_dump(self, value, context):
        YIELD[0]()
        if isinstance(value, Bad):
            value.go()
        return value

    def format_error(self, code, context):
        YIELD[0]()
        return f'{code}/{context.schema.who}' if hasattr(context.schema, 'who') else None


def check(schema, value, ctx):
    YIELD[0]()
    if isinstance(value, Bad) and value.tag % 3 == 1:
        value.go()
    YIELD[0]()


def small(schema, value, ctx):
    YIELD[0]()
    if isinstance(value, int) and value > 5:
        raise FieldError(f'{value} is large')


class TD(typing_extensions.TypedDict):
    a: int
    b: typing_extensions.NotRequired[str]


def make(rng):
    """Schema classes, shared between the threads."""
    class Inner(Schema):
        x = Plain(required=False, validators=[check])
        y = fields.Integer(required=False, validators=[small])

    class S(Schema):
        __slots__ = ('who',)
        p = Plain(required=False, validators=[check])
        q = Plain(required=rng.random() < .3, load_key='kq', none=rng.random() < .5, validators=[check])
        i = fields.Integer(required=False, strict=rng.random() < .5, validators=[validate.Range(0, 9), small])
        b = fields.Boolean(required=False, strict=rng.random() < .5)
        o = fields.Object(Inner, required=False)
        l = fields.List(int, required=False)
        t = fields.TypedDict(TD, required=False)
        u = fields.Union(int, typing.List[str], required=False)
        e = fields.TypeExpr(typing.Dict[str, typing.List[int]], required=False)
        f = Plain(required=False, frozen=True)
        s = fields.String(required=False, validators=[validate.Or(validate.Length(min=1, max=2), validate.Regex('z+'))])

        def __schema_post_init__(self):
            YIELD[0]()

    class T(S):
        p = fields.Float(required=False)
        z = Plain(required=False, validators=[check])
    return Inner, S, T


def value(rng, name, tag, Inner):
    bad = rng.random() < .5
    if name in 'pqfz' or name == 'kq':
        return Bad(rng.choice(HOW), rng.randrange(9) * 10 + tag) if bad else rng.choice([None, tag, f'w{tag}', []])
    if name == 'i':
        return rng.choice([1, 7, 99, 'no', f'n{tag}', None])
    if name == 'b':
        return rng.choice([True, 'true', f'n{tag}', 3])
    if name == 'o':
        return rng.choice([{}, {'y': 3}, {'y': 'no', f'un{tag}': 1}, {'x': Bad('value', 3 * tag)}, {'x': Bad('field', 9)}, 5, {'y': 8}])
    return {'l': lambda: rng.choice([[1], [1, 'x'], [tag, None], 5]), 't': lambda: rng.choice([{'a': 1}, {'a': 'x'}, {}, {'c': tag}, tag]),
            'u': lambda: rng.choice([1, ['a'], [1], {}, 2.5]), 'e': lambda: rng.choice([{}, {'a': [1]}, {'a': [tag, 'x']}, {1: []}, 3]),
            's': lambda: rng.choice(['a', 'zzz', 'abc', '', 4])}[name]()


def script(rng, tag, classes):
    """The operations of one worker: a list of (kind, argument)."""
    Inner, S, T = classes
    cls = rng.choice([S, S, T])
    names = ['p', 'kq', 'i', 'b', 'o', 'l', 't', 'u', 'e', 'f', 's'] + (['z'] if cls is T else [])

    def data(n):
        d = {k: value(rng, k, tag, Inner) for k in rng.sample(names, n)}
        if rng.random() < .3:
            d[f'unknown{tag}'] = 1
        return d
    ops = [('new', data(rng.randrange(1, 7)))]
    good = {'kq': tag, 'p': 1, 'i': 2}
    ops.append(('make', good))
    for _ in range(rng.randrange(1, 4)):
        k = rng.randrange(3)
        if k == 0:
            ops.append(('update', data(rng.randrange(1, 5))))
        elif k == 1:
            n = rng.choice(names)
            ops.append(('set', ('q' if n == 'kq' else n, value(rng, n, tag, Inner))))
        else:
            ops.append(('dump', None))
    return cls, ops


def describe(e, own, others):
    """What an error says, with the schema it is attributed to."""
    def who(s):
        if s is None:
            return None
        return 'own' if s is own else 'nested' if type(s).__name__ == 'Inner' else f'foreign {type(s).__name__}'
    c = e.context
    ctx = None
    if c is not None:
        ctx = (type(c).__name__, who(c.schema), c.field._name, repr(getattr(c, 'value', None)))
    return (repr(getattr(e, '_key', None)), repr(e.message), who(e.schema), ctx, repr(e.state))


def run(*args):
    for _ in steps(*args):
        pass


def steps(cls, ops, tag, result, others):
    own = None
    for kind, arg in ops:
        YIELD[0]()
        me = [None]
        try:
            if kind in ('new', 'make'):
                s = cls.__new__(cls)
                s.who = tag
                me[0] = s
                others[tag] = s
                s.__init__(dict(arg))
                own = s
                result.append(('ok', sorted((n, repr(type(v))) for n, v in s._field_values.items())))
            elif own is None:
                result.append('none')
            else:
                me[0] = own
                if kind == 'update':
                    own.update(arg)
                    result.append('updated')
                elif kind == 'set':
                    setattr(own, *arg)
                    result.append('set')
                else:
                    result.append(('dumped', repr(own.dump())))
        except ValidationError as e:
            result.append(('verror', [describe(x, me[0], [o for t, o in others.items() if t != tag]) for x in e.errors], repr(e.raw())))
        except FrozenError as e:
            result.append('frozen')
        yield


class Stop(Exception):
    pass


class Scheduler:
    """One thread runs at a time; control moves to another at random lines of the library and callbacks."""

    def __init__(self, rng, n, p):
        self.rng, self.p, self.alive = rng, p, list(range(n))
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.dead = False
        self.switches = 0
        self.local = threading.local()

    def give(self, j):
        self.switches += 1
        self.sem[j].release()

    def wait(self, me):
        if not self.sem[me].acquire(timeout=20):
            self.dead = True
        if self.dead:
            raise Stop()

    def point(self, p=None):
        me = getattr(self.local, 'me', None)
        if me is None or self.rng.random() >= (self.p if p is None else p):
            return
        j = self.rng.choice(self.alive)
        if j != me:
            self.give(j)
            self.wait(me)

    def line(self, frame, event, arg):
        if event == 'line':
            self.point()
        return self.line

    def trace(self, frame, event, arg):
        return self.line if '/oblate/' in frame.f_code.co_filename else None

    def body(self, me, f):
        self.local.me = me
        try:
            self.wait(me)
            sys.settrace(self.trace)
            f()
        except Stop:
            pass
        finally:
            sys.settrace(None)
            self.alive.remove(me)
            if self.alive:
                self.give(self.rng.choice(self.alive))


@scen('C22', 'two or three threads (or tasks) constructing, updating, assigning and dumping schemas of shared classes under a random, '
             'replayable schedule that switches at any line of the library; outcome compared with the sequential run')
def threads(rng, ck):
    classes = make(rng)
    n = rng.choice([2, 2, 3])
    scripts = [script(rng, t + 1, classes) for t in range(n)]
    want = []
    for t, (c, ops) in enumerate(scripts):
        r = []
        contextvars.Context().run(run, c, ops, t + 1, r, {})
        want.append(r)
    for r in want:
        for x in r:
            if x[0] == 'verror':
                for e in x[1]:
                    ck('C22', 'foreign' not in str(e[2]), 'an error is attributed to a foreign schema', x)
    ck.note('threads', n, *[x[0] if isinstance(x, tuple) else x for r in want for x in r])
    got = [[] for _ in range(n)]
    errs = []
    others = {}
    if rng.random() < .8:
        sch = Scheduler(rng, n, rng.choice([.02, .1, .3]))

        def work(t):
            def f():
                try:
                    run(*scripts[t], t + 1, got[t], others)
                except Stop:
                    raise
                except BaseException as e:
                    errs.append(f'{type(e).__name__}: {e}')
            sch.body(t, f)
        YIELD[0] = lambda: sch.point(.3)
        try:
            ts = [threading.Thread(target=contextvars.Context().run, args=(work, t), daemon=True) for t in range(n)]
            for t in ts:
                t.start()
            sch.give(rng.randrange(n))
            for t in ts:
                t.join(30)
        finally:
            YIELD[0] = lambda: None
        if sch.dead:
            return          # (a lock held across a switch: this schedule cannot be run)
    else:
        async def task(t):
            try:
                for _ in steps(*scripts[t], t + 1, got[t], others):
                    await asyncio.sleep(0)
            except BaseException as e:
                errs.append(f'{type(e).__name__}: {e}')

        async def main():
            await asyncio.gather(*[task(t) for t in range(n)])
        asyncio.run(main())
    ck('C22', not errs, 'an operation fails only when another one runs at the same time', errs)
    for t in range(n):
        ck('C22', got[t] == want[t], 'operations that run at the same time mix their errors', got[t], want[t])

