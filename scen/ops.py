"""Random schemas, random operations on them, every callback recorded; an oracle over the recorded events."""
import types, collections, copy as copymod
import oblate
from oblate import Schema, SchemaConfig, fields, validate
from oblate.exceptions import FieldError, ValidationError, FieldNotSet, FrozenError
from oblate.contexts import LoadContext, DumpContext
from base import *

MSGS = 'This field is required.', 'This field must not be None.', 'Validation failed for this field.'
REQ, NON, VAL = 'field.field_required', 'field.none_disallowed', 'field.validation_failed'


class Aux(Schema):
    x = fields.Integer(none=True, required=False, validators=[lambda s, v, c: None])
    y = fields.String(required=False)


class AuxOuter(Schema):
    o = fields.Object(Aux, required=False, none=True)


class MyVE(ValidationError):
    pass


class MyVE2(MyVE):
    def raw(self):
        return {'errors': self._raw_std()}


class Frame:
    def __init__(self, kind, spec):
        self.kind, self.spec, self.ev, self.foreign, self.schema, self.pdata = kind, spec, [], False, None, None


class World:
    def __init__(self, rng, ck):
        self.rng, self.ck = rng, ck
        self.p_bad = rng.choice([0, 0, .05, .15, .4])
        self.p_foreign = rng.choice([0, 0, 0, .03, .1])
        self.p_aux = rng.choice([0, 0, .1])
        self.frames = []
        self.n = 0
        self.quiet = False
        self.deep = rng.random() < .4

    def marker(self):
        self.n += 1
        return f'm{self.n}'

    @property
    def frame(self):
        return self.frames[-1]

    # ------------------------------------------------------------------------- callbacks
    def ambient(self, where, schema, key=None, ctx=None):
        ck = self.ck
        ck('C07', current_schema.get(UNSET) is schema, f'{where}: wrong current schema', current_schema.get(UNSET), schema)
        if key is not None:
            ck('C07', current_field_key.get(UNSET) == key, f'{where}: wrong current key', current_field_key.get(UNSET), key)
        if ctx is not None:
            ck('C07', current_context.get(UNSET) is ctx, f'{where}: wrong current context')
        f = self.frame
        if f.schema is None:
            f.schema = schema
        ck('C07 C01 C06', f.schema is schema, f'{where}: several schemas in one operation')

    def aux(self, where):
        """The callback uses other schemas."""
        rng = self.rng
        if rng.random() >= self.p_aux:
            return
        before = [v.get(UNSET) for v in CVS]
        k = rng.randrange(6)
        try:
            if k == 0:
                Aux({'x': 1})
            elif k == 1:
                Aux({'x': 'no', 'z': 1})
            elif k == 2:
                Aux({'x': 1}).update({'x': 'no'})
            elif k == 3:
                Aux({'x': 1}).x = rng.choice([None, 3, 'no'])
            elif k == 4:
                AuxOuter({'o': {'x': rng.choice([1, None, 'no'])}}).dump()
            else:
                Aux({'x': 1}).dump(include=['x'])
        except ValidationError:
            pass
        after = [v.get(UNSET) for v in CVS]
        self.ck('C07', all(a is b for a, b in zip(before, after)), f'an operation inside {where} changed the ambient context', before, after)

    def outcome(self, where, results=None, bad=True):
        """A recorded random outcome of user code: returns (kind, payload)."""
        rng = self.rng
        self.aux(where)
        if rng.random() < self.p_foreign:
            self.frame.foreign = True
            for f in self.frames:
                f.foreign = True
            e = rng.choice(FOREIGN)('user error')
            if rng.random() < .1:
                try:
                    Aux({'q': 1})
                except ValidationError as err:
                    e = err
            return 'foreign', e
        if bad and rng.random() < self.p_bad:
            k = rng.randrange(9)
            m = self.marker()
            if k == 0:
                return 'fail', FieldError(m)
            if k == 1:
                m2 = self.marker()
                return 'fail', FieldError(rng.choice([list, tuple, set])([m, m2]))
            if k == 2:
                return 'fail', ValueError(m)
            if k == 3:
                return 'fail', AssertionError(m)
            if k == 4:
                return 'fail', ValueError()
            if k == 5:
                return 'fail', AssertionError()
            if k == 6:
                return 'fail', UnicodeError(m)
            if k == 7:
                return 'fail', FieldError({'d': m}, state=m)
            return 'fail', FieldError(Thing(m), state=7)
        return 'ok', results(rng) if results else None

    def finish(self, entry):
        kind, p = entry['out']
        self.frame.ev.append(entry)
        if kind != 'ok':
            raise p
        return p


def result(rng):
    return rng.choice([Thing(0), Thing(1), 0, '', None, False, 'res', [], {}, 5, NotImplemented]) if rng.random() < .5 else Thing(rng.random())


class Mixin:
    """Recording field."""
    w = None
    fmt = None

    def format_error(self, code, ctx):
        w = self.w
        f = w.frame
        w.ambient('format_error', ctx.schema, self.load_key)
        ck = w.ck
        ck('C21', ctx.error_code == code and ctx.field is self, 'format_error: wrong code or field in the context', code, ctx.error_code)
        ck('C21', ctx.metadata == {} , 'format_error: unexpected metadata', ctx.metadata)
        try:
            v = ctx.get_value()
        except ValueError:
            v = MISSING
        e = {'k': 'fmt', 'field': self, 'code': code, 'value': v, 'schema': ctx.schema}
        f.ev.append(e)
        mode = self.fmt if self.fmt != 'mix' else w.rng.choice(['default', 'none', 'str', 'fe', 'fe'])
        if w.rng.random() < w.p_foreign / 2:
            for g in w.frames:
                g.foreign = True
            if w.rng.random() < .5:
                e['res'] = 'bad'
                return w.rng.choice([0, 5, ['x'], b'x', Thing(0)])
            raise RuntimeError('format_error')
        if mode == 'none':
            r = None
        elif mode == 'str':
            r = w.marker()
        elif mode == 'fe':
            r = FieldError(w.marker())
        else:
            r = super().format_error(code, ctx)
        e['res'] = r
        return r


class SF(Mixin, fields.Field):
    def value_load(self, value, ctx):
        w = self.w
        w.ambient('value_load', ctx.schema, self.load_key, ctx)
        w.ck('C07', ctx.field is self and ctx.value is value and type(ctx) is LoadContext, 'value_load: wrong context')
        return w.finish({'k': 'load', 'field': self, 'value': value, 'ctx': ctx, 'out': w.outcome('value_load', result)})

    def value_dump(self, value, ctx):
        w = self.w
        w.ambient('value_dump', ctx.schema, self.load_key, ctx)
        w.ck('C07', ctx.field is self and ctx.value is value and type(ctx) is DumpContext, 'value_dump: wrong context')
        return w.finish({'k': 'dump', 'field': self, 'value': value, 'ctx': ctx, 'out': w.outcome('value_dump', result)})


class OF(Mixin, fields.Object):
    spec = None

    def value_load(self, value, ctx):
        w, ck = self.w, self.w.ck
        w.ambient('value_load', ctx.schema, self.load_key, ctx)
        fr = Frame('construct', self.spec)
        w.frames.append(fr)
        e = {'k': 'load', 'field': self, 'value': value, 'ctx': ctx}
        before = [v.get(UNSET) for v in CVS]
        base = self.format_error
        try:
            r = super().value_load(value, ctx)
        except BaseException as x:
            r = x
            e['out'] = ('foreign' if fr.foreign else 'fail', x)
        else:
            e['out'] = ('ok', r)
        w.frames.pop()
        after = [v.get(UNSET) for v in CVS]
        ck('C07', all(a is b for a, b in zip(before, after)), 'a nested construction changed the ambient context', before, after)
        mapping = isinstance(value, collections.abc.Mapping)
        inst = isinstance(value, self.schema_cls)
        if inst:
            ck('C13', r is value and not fr.ev, 'an instance of the nested schema is not returned as it is')
        elif not mapping:
            if not fr.foreign:
                ck('C13', isinstance(r, FieldError), 'a nested value that is no mapping must fail with a field error', r)
            fm = [x for x in fr.ev if x['k'] == 'fmt']
            ck('C13 C21', fr.foreign or len(fm) == 1 and fm[0]['code'] == 'object.invalid_datatype' and fm[0]['field'] is self, 'wrong error code of a nested value', fm)
            ck('C21', fr.foreign or fm[0]['value'] is value, 'wrong value in the error context')
            w.frame.ev += [x for x in fr.ev if x['k'] == 'fmt']
        elif not fr.foreign:
            ignore = self.init_given.get('ignore_extra', self.spec.cfg.ignore_extra)
            n = len([x for x in fr.ev if x['k'] == 'pre'])
            ck('C13', n == 1, 'the nested schema is not built exactly once', n)
            bad = w.check_supplied(fr, fr.pdata, ignore, full=True, construct=True)
            if bad:
                ck('C13', type(r) is FieldError, 'a failing nested construction must fail with a field error', r)
                if type(r) is FieldError:
                    ck('C13', isinstance(r.message, dict) and set(r.message) == set(bad), 'the error of a nested schema does not name the failing nested keys', r.message, bad)
                    for k, es in r.message.items():
                        ck('C13 C07', es and all(isinstance(x, FieldError) and x.key == k and x.schema is fr.schema for x in es), 'wrong nested errors', k, es)
                    ck('C07', r.schema is ctx.schema and r.key == self.load_key and r.context is ctx, 'the error of a nested schema does not belong to the outer field')
            else:
                ck('C13', type(r) is self.schema_cls, 'a valid nested mapping does not give a nested schema', r)
                if isinstance(r, Schema):
                    w.check_constructed(fr, r, fr.pdata, 'C13')
                    ck('C13', r.context.state is self.init_given.get('state'), 'init_kwargs are not used')
                    w.track(r, self.spec)
        if e['out'][0] == 'foreign':
            w.frame.foreign = True
        w.frame.ev.append(e)
        if e['out'][0] != 'ok':
            raise r
        return r

    def value_dump(self, value, ctx):
        w, ck = self.w, self.w.ck
        w.ambient('value_dump', ctx.schema, self.load_key, ctx)
        fr = Frame('dump', self.spec)
        w.frames.append(fr)
        e = {'k': 'dump', 'field': self, 'value': value, 'ctx': ctx}
        if value is not None and not isinstance(value, Schema):
            for g in w.frames:      # a default that is no schema: anything may happen
                g.foreign = True
        try:
            r = super().value_dump(value, ctx)
        except BaseException as x:
            r = x
            e['out'] = ('foreign' if fr.foreign else 'fail', x)
        else:
            e['out'] = ('ok', r)
        w.frames.pop()
        if value is None:
            ck('C13', r is None, 'None of a nested field does not dump to None', r)
        elif not fr.foreign:
            names = [n for n in value_names(value)]
            bad = w.check_dump_events(fr, type(value), value, names)
            if bad:
                ck('C13', type(r) is FieldError, 'a failing nested dump must be a field error', r)
                if type(r) is FieldError:
                    ck('C13', isinstance(r.message, dict) and set(r.message) == set(bad), 'the error of a nested dump does not name the failing keys', r.message, bad)
                    ck('C07', r.schema is ctx.schema and r.key == self.load_key and r.context is ctx, 'the error of a nested dump does not belong to the outer field')
            else:
                w.check_dumped(fr, r, 'C13 C06')
        if e['out'][0] == 'foreign':
            w.frame.foreign = True
        w.frame.ev.append(e)
        if e['out'][0] != 'ok':
            raise r
        return r


SPEC = {}


def value_names(schema):
    return list(SPEC[type(schema)].fields)


class V:
    """A recording validator."""

    def __init__(self, w, raw=None):
        self.w = w
        if raw is not None:
            self.__validator_is_raw__ = raw

    def __call__(self, schema, value, ctx):
        w = self.w
        w.ambient('validator', schema, None, ctx)
        w.ck('C07', ctx.schema is schema, 'validator: wrong schema in the context')
        w.ck('C07', current_field_key.get(UNSET) == ctx.field.load_key, 'validator: wrong current key', current_field_key.get(UNSET), ctx.field.load_key)
        return w.finish({'k': 'val', 'v': self, 'field': ctx.field, 'value': value, 'ctx': ctx, 'schema': schema, 'out': w.outcome('validator', lambda r: r.choice([None, False, True, 'x', 0]))})


class Spec:
    """What a schema class should be."""

    def __init__(self):
        self.fields = {}      # name -> FS
        self.cfg = SchemaConfig
        self.cls = None

    def by_load(self):
        return {f.load_key: f for f in self.fields.values()}


class FS:
    def __init__(self, name, field, kw, raws, regs):
        self.name, self.field, self.kw, self.raws, self.regs = name, field, kw, raws, regs
        dk = kw.get('data_key', MISSING)
        lk, pk = kw.get('load_key', MISSING), kw.get('dump_key', MISSING)
        self.load_key = dk if dk is not MISSING else lk if lk is not MISSING else name
        self.dump_key = dk if dk is not MISSING else pk if pk is not MISSING else name
        self.default = kw.get('default', MISSING)
        self.required = bool(kw.get('required', True)) and self.default is MISSING
        self.none = kw.get('none', False)
        self.frozen = kw.get('frozen', False)

    def renew(self, field):
        f = FS(self.name, field, self.kw, list(self.raws), list(self.regs))
        return f


NAMES = ['a', 'b', 'c', 'd', 'e', 'copy_', 'x1']
KEYS = ['a', 'b', 'c', 'k', 'camelKey', '', 'x-y', 'd', 'e2', 'é']


def make_field(w, name, used_load, used_dump, depth):
    rng = w.rng
    kw = {}
    if rng.random() < .4:
        kw['none'] = rng.choice([True, True, False, 1, 0])
    if rng.random() < .4:
        kw['required'] = rng.choice([False, False, True, 0])
    if rng.random() < .2:
        kw['frozen'] = True
    if rng.random() < .25:
        if rng.random() < .5:
            kw['default'] = rng.choice([0, '', None, False, [], 'dflt', Thing(9), {}])
        else:
            def factory(ctx, field):
                s = ctx.schema
                w.ambient('default', s, field.load_key)
                w.ck('C01', ctx is s.context, 'a default factory does not get the context of the schema')
                return w.finish({'k': 'default', 'field': field, 'schema': s, 'out': w.outcome('default', result, bad=False)})
            kw['default'] = factory
    for key in ('load_key', 'dump_key', 'data_key'):
        if rng.random() < .2:
            kw[key] = rng.choice(KEYS)
    raws, regs = [], []
    lst = []
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
        raw = rng.random() < .4
        v = V(w, rng.choice([raw, True]) if raw else rng.choice([None, False]))
        (raws if raw else regs).append(v)
        lst.append(v)
    if lst:
        kw['validators'] = lst if rng.random() < .5 else tuple(lst)
    cls = SF
    args = ()
    if depth > 0 and rng.random() < .35:
        cls = OF
        sub = make_spec(w, depth - 1)
        args = (sub.cls,)
        ik = {}
        if rng.random() < .3:
            ik['state'] = rng.choice([None, 5, [1], 0, ''])
        if rng.random() < .3:
            ik['ignore_extra'] = rng.choice([True, False])
        if ik or rng.random() < .3:
            kw['init_kwargs'] = ik
    probe = FS(name, None, kw, raws, regs)
    if probe.load_key in used_load or probe.dump_key in used_dump:
        for k in ('load_key', 'dump_key', 'data_key'):
            kw.pop(k, None)
        probe = FS(name, None, kw, raws, regs)
        if probe.load_key in used_load or probe.dump_key in used_dump:
            return None
    field = cls(*args, **{k: v for k, v in kw.items()})
    field.w = w
    field.fmt = rng.choice(['default', 'default', 'none', 'str', 'fe', 'mix'])
    if cls is OF:
        field.spec, field.init_given = sub, dict(ik)
    return FS(name, field, kw, raws, regs)


def make_spec(w, depth, parent=None):
    rng, ck = w.rng, w.ck
    sp = Spec()
    attrs = {'__module__': __name__}
    inherited = dict(parent.fields) if parent else {}
    own = {}
    names = NAMES[:]
    rng.shuffle(names)
    for n in names[:rng.choice([0, 1, 2, 3, 4] if parent else [1, 1, 2, 3, 4])]:
        rest = {k: f for k, f in inherited.items() if k not in own and k != n}
        # keys of fields that stay; a later override may free a key, so look at the final set only
        used_l = {f.load_key for f in list(own.values()) + list(rest.values())}
        used_d = {f.dump_key for f in list(own.values()) + list(rest.values())}
        if rng.random() < .3 and inherited:
            # take over a key of an inherited field that is overridden afterwards in the same body
            pass
        f = make_field(w, n, used_l, used_d, depth)
        if f is not None:
            own[n] = f
    if parent and inherited and rng.random() < .25:
        # a new field takes the load key of an inherited field which is overridden in the same body, after it
        cand = [f for f in inherited.values() if f.load_key != f.name and f.name not in own]
        if cand:
            g = rng.choice(cand)
            new = [n for n in NAMES if n not in own and n not in inherited]
            if new and g.name not in [f.load_key for f in list(own.values()) + [x for x in inherited.values() if x is not g]] \
                    and g.load_key not in [f.load_key for f in own.values()]:
                f1 = SF(load_key=g.load_key, required=False)
                f2 = SF(required=False)
                d = {f.dump_key for f in list(own.values()) + list(inherited.values()) if f is not g}
                if new[0] not in d and g.name not in d:
                    for f in (f1, f2):
                        f.w = w
                    own[new[0]] = FS(new[0], f1, {'load_key': g.load_key, 'required': False}, [], [])
                    own[g.name] = FS(g.name, f2, {'required': False}, [], [])
    ck.note('spec', len(own), len(inherited))
    for n, f in own.items():
        attrs[n] = f.field
    sp.fields = {**inherited, **own}
    # decorated validators, by name or by object, for own and inherited fields
    deco = []
    for i in range(rng.choice([0, 0, 0, 1, 2])):
        if not sp.fields:
            break
        n = rng.choice(list(sp.fields))
        raw = rng.random() < .4
        fn = make_method(w)
        byobj = rng.random() < .4
        # by object: the field itself, or the inherited one that it overrides
        target = (inherited if n in inherited and rng.random() < .5 else sp.fields)[n].field if byobj else n
        attrs[f'v{i}'] = validate.field(target, raw=raw)(fn) if raw or rng.random() < .5 else validate.field(target)(fn)
        deco.append((n, fn, raw))
    cfg = parent.cfg if parent else SchemaConfig
    if rng.random() < .4:
        base = rng.choice([SchemaConfig, cfg])
        d = {}
        for k, vs in (('ignore_extra', [True, False, 1]), ('frozen', [True, False]), ('slotted', [True, False]), ('add_repr', [True, False])):
            if rng.random() < (.35 if k != 'frozen' else .15):
                d[k] = rng.choice(vs)
        cfg = type('Config', (base,), d)
        attrs[rng.choice(['Config', 'Cfg'])] = cfg
    sp.cfg = cfg
    explicit_slots = rng.random() < .15
    if explicit_slots:
        attrs['__slots__'] = ('extra_slot',)
    if parent is None:
        def preprocess_data(self, data):
            w.ambient('preprocess_data', self)
            w.aux('preprocess_data')
            fr = w.frame
            fr.ev.append({'k': 'pre', 'data': data, 'out': ('ok', None)})
            r = data
            if rng.random() < .2:
                r = dict(data)
                for k in list(r)[:1]:
                    if rng.random() < .5:
                        del r[k]
                if rng.random() < .5:
                    r['k'] = 'pre'
            elif rng.random() < .04 and not w.quiet:
                r = rng.choice([[], None, 'x', [('a', 1)]])
                for g in w.frames:
                    g.foreign = True
            fr.pdata = r
            return r

        def __schema_post_init__(self):
            w.ambient('__schema_post_init__', self)
            ck('C01', self.context.is_initialized() is True, 'the schema does not count as initialized in the post-init hook')
            w.finish({'k': 'post', 'values': snapshot(self), 'out': w.outcome('post_init', bad=False)})
        attrs['preprocess_data'] = preprocess_data
        attrs['__schema_post_init__'] = __schema_post_init__
    # members that are neither fields, validators nor configurations
    for _ in range(rng.choice([0, 0, 1, 2])):
        m = rng.choice([lambda: type('Meta', (), {'ignore_extra': not cfg.ignore_extra, 'frozen': not cfg.frozen, 'slotted': not cfg.slotted}),
                        lambda: SchemaConfig(), lambda: 5, lambda: lambda self: 5, lambda: property(lambda self: 5), lambda: [1],
                        lambda: type(Schema)('Inner', (Schema,), {})])
        attrs[rng.choice(['Config2', 'meta', 'ZZ', 'helper'])] = m()
    if rng.random() < .35:
        # the validators come first
        attrs = dict(sorted(attrs.items(), key=lambda x: not hasattr(x[1], '__validator_field__')))
    base = parent.cls if parent else Schema
    plain = type('Plain', (), {'__slots__': (), 'plain': lambda self: self})        # a base that is no schema
    bases = rng.choice([(base,)] * 4 + [(plain, base), (base, plain)])
    before = {n: describe(f.field) for n, f in inherited.items()}
    pattrs = {n: getattr(parent.cls, n) for n in inherited} if parent else {}
    cls = type(Schema)('S%d' % rng.randrange(100), bases, attrs)
    sp.cls = cls
    SPEC[cls] = sp
    # C16: the parent is as it was
    for n, f in inherited.items():
        ck('C16', getattr(parent.cls, n) is pattrs[n], 'defining a subclass replaced a field of the parent', n)
        ck('C16', describe(f.field) == before[n], 'defining a subclass changed a field of the parent', n, before[n], describe(f.field))
    # the fields of the class
    for n in list(sp.fields):
        real = getattr(cls, n)
        fs = sp.fields[n]
        mine = [(fn, raw) for m, fn, raw in deco if m == n]
        if n in own:
            ck('C16', real is fs.field, 'an own field is not the field of the class', n)
        elif not mine:
            ck('C16', real is fs.field, 'an inherited field is not the field of the parent', n)
        if mine:
            fs = fs.renew(real)
            for fn, raw in mine:
                (fs.raws if raw else fs.regs).append(fn)
            if n in inherited and n not in own:
                ck('C16', real is not inherited[n].field, 'a validator for an inherited field was added to the parent', n)
            sp.fields[n] = fs
        ck('C16 C18', same(list(real.walk_validators(raw=True)), fs.raws) and same(list(real.walk_validators(raw=False)), fs.regs),
           'wrong validators of a field', n, list(real.walk_validators()), fs.raws, fs.regs)
        ck('C19 C16', real.load_key == fs.load_key and real.dump_key == fs.dump_key, 'wrong keys of a field', n, real.load_key, real.dump_key)
        ck('C16', real.name == n, 'wrong name of a field', n, real.name)
        ck('C19', bool(real.required) == fs.required and real.has_default() == (fs.default is not MISSING), 'wrong options of a field', n)
        ck('C19', real.default is (fs.default if fs.default is not MISSING else None), 'wrong default', n)
    ck('C20', cls.__config__ is cfg, 'wrong configuration of a class', cls.__config__, cfg)
    ck('C20', ('__slots__' in vars(cls)) == bool(explicit_slots or cfg.slotted), 'wrong slots of a class')
    if explicit_slots:
        ck('C20', vars(cls)['__slots__'] == ('extra_slot',), 'own slots are replaced')
    # every load key leads to the current field, and no other key to any
    keys = {f.load_key: n for n, f in sp.fields.items()}
    tok = current_schema.set(object.__new__(cls))
    for k in {f.load_key for f in inherited.values()} | set(keys) | set(NAMES):
        t = current_field_key.set(k)
        try:
            real = oblate.FieldError('m').field
        finally:
            current_field_key.reset(t)
        ck('C16', real is (getattr(cls, keys[k]) if k in keys else None), 'a load key does not lead to the current field', k, real)
    current_schema.reset(tok)
    # bound only once
    if own and rng.random() < .2:
        f = rng.choice(list(own.values())).field
        d = describe(f)
        try:
            type(Schema)('Again', (Schema,), {'other': f})
            ck('C16', False, 'a field is bound twice')
        except RuntimeError:
            pass
        ck('C16', f.name and describe(f) == d, 'a failed binding changed the field')
    return sp


def make_method(w):
    def method(schema, value, ctx):
        w.ambient('validator', schema, ctx.field.load_key, ctx)
        return w.finish({'k': 'val', 'v': method, 'field': ctx.field, 'value': value, 'ctx': ctx, 'schema': schema, 'out': w.outcome('validator')})
    return method


def describe(f):
    return (f.name, id(f.schema), f.load_key, f.dump_key, f.none, f.required, f.frozen, id(f.default), tuple(map(id, f.walk_validators(raw=True))),
            tuple(map(id, f.walk_validators(raw=False))))


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


NOTSET = type('NOTSET', (), {'__repr__': lambda s: 'NOTSET'})()


def snapshot(schema):
    return {n: schema.get_value_for(n, NOTSET) for n in SPEC[type(schema)].fields}


def same_vals(a, b):
    return set(a) == set(b) and all(a[k] is b[k] for k in a)


class Custom(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


def wrap_mapping(rng, d):
    k = rng.randrange(8)
    return Custom(d) if k == 0 else types.MappingProxyType(d) if k == 1 else collections.OrderedDict(d) if k == 2 else d


def sub_instance(s):
    """An instance of a subclass of its class, with the same values."""
    sub = type('Sub', (type(s),), {'__slots__': ()})
    SPEC[sub] = SPEC[type(s)]
    r = object.__new__(sub)
    r._field_values, r._context = dict(s._field_values), s._context
    return r


def make_data(w, sp, complete=.85, extra=.12):
    rng = w.rng
    d = {}
    fs = list(sp.fields.values())
    rng.shuffle(fs)
    for f in fs:
        if rng.random() > complete:
            continue
        if isinstance(f.field, OF) and rng.random() < .8:
            if rng.random() < .15 and w.instances_of(f.field.schema_cls):
                v = rng.choice(w.instances_of(f.field.schema_cls))
                if rng.random() < .3:
                    v = sub_instance(v)
            else:
                v = wrap_mapping(rng, make_data(w, f.field.spec, complete, extra))
        else:
            v = some_value(rng)
        d[f.load_key] = v
    if rng.random() < extra:
        d[rng.choice(['zz', 'name', 'a', 'k', 'b', 'c', 'd', 'e', 'copy_'])] = some_value(rng)
    if rng.random() < .03:
        d[rng.choice([1, None, ('t',)])] = 1
    return d


def add(cls):
    for k, v in vars(cls).items():
        if not k.startswith('__'):
            setattr(World, k, v)


@add
class _:
    def instances_of(self, cls):
        return [s for s, sp, m in self.tracked if isinstance(s, cls)]

    def track(self, s, sp):
        if not any(t[0] is s for t in self.tracked):
            self.tracked.append((s, SPEC[type(s)], snapshot(s)))

    # ------------------------------------------------------------------------- oracle
    def check_supplied(self, fr, data, ignore, full, construct=False, only=None):
        """Checks of the events of the supplied fields; returns {bad key: markers}."""
        ck = self.ck
        bad = {}
        sp = fr.spec
        by = sp.by_load()
        fmts = [e for e in fr.ev if e['k'] == 'fmt' and e['code'] != 'object.invalid_datatype']
        want_fmts = []
        for key, value in data.items():
            f = by.get(key) if isinstance(key, str) else None
            if only is not None:
                f = only
            if f is None:
                if not ignore:
                    bad.setdefault(key, []).append(None)
                continue
            evs = [e for e in fr.ev if e['k'] in ('load', 'val') and e['field'] is f.field]
            loads = [e for e in evs if e['k'] == 'load']
            ck('C01 C04', len(loads) <= 1, 'a value is deserialized several times', key)
            for e in loads:
                ck('C01 C04', e['value'] is value, 'another value is deserialized', key, e['value'], value)
                ck('C03', value is not None, 'a None is deserialized', key)
            if full:
                ck('C01 C04', len(loads) == (value is not None), 'a value is not deserialized exactly once', key, len(loads))
            marks = bad.get(key, [])
            if value is None and not f.none:
                marks.append(None)
                want_fmts.append((f, NON, None))
            loaded = None
            for e in loads:
                if e['out'][0] == 'fail':
                    marks.append(e['out'][1])
                    if isinstance(e['out'][1], (ValueError, AssertionError)) and not str(e['out'][1]):
                        want_fmts.append((f, VAL, value))
                elif e['out'][0] == 'ok':
                    loaded = e
            for raw, vs in ((True, f.raws), (False, f.regs)):
                if not raw and not vs:
                    continue
                for v in vs:
                    calls = [e for e in evs if e['k'] == 'val' and e['v'] is v]
                    times = vs.count(v)
                    if raw:
                        ck('C03', len(calls) <= times, 'a raw validator runs more than once', key)
                        ck('C03', all(e['value'] is value for e in calls), 'a raw validator gets another value', key)
                        if full:
                            ck('C03', len(calls) == times, 'a raw validator does not run exactly once', key, len(calls))
                    else:
                        ck('C03', len(calls) <= (times if loaded else 0), 'a validator runs without a deserialized value, or twice', key)
                        ck('C03', all(e['value'] is loaded['out'][1] for e in calls), 'a validator gets another value', key)
                        if full:
                            ck('C03', len(calls) == (times if loaded else 0), 'a validator does not run exactly once', key, len(calls))
                    for e in calls:
                        ck('C07', e['ctx'].field is f.field and e['ctx'].schema is e['schema'] and e['ctx'].value is value, 'wrong context of a validator', key)
                        if e['out'][0] == 'fail':
                            marks.append(('v', e['out'][1]))
                            if isinstance(e['out'][1], (ValueError, AssertionError)) and not str(e['out'][1]):
                                want_fmts.append((f, VAL, e['value']))
            if marks:
                bad[key] = marks
        if construct:
            for f in sp.fields.values():
                if f.load_key not in data:
                    evs = [e for e in fr.ev if e['field'] is f.field and e['k'] in ('load', 'val')] if False else \
                          [e for e in fr.ev if e['k'] in ('load', 'val') and e['field'] is f.field]
                    ck('C01 C03', not evs, 'an absent field is processed', f.name)
                    if f.required:
                        bad.setdefault(f.load_key, []).append(None)
                        want_fmts.append((f, REQ, MISSING))
        if full:
            # format_error: exactly once per built-in failure
            left = list(fmts)
            for f, code, value in want_fmts:
                m = next((e for e in left if e['field'] is f.field and e['code'] == code and e['value'] is value), None)
                ck('C21', m is not None, 'format_error is not called for a failure', f.name, code, value, [(e['code'], e['value']) for e in left])
                if m is not None:
                    left = [e for e in left if e is not m]
            ck('C21', not left, 'format_error is called without a failure, or twice', [(e['code'], e['value']) for e in left])
        return bad

    def check_errors(self, fr, err, bad, schema, sfield=None):
        """The validation error names the bad keys."""
        ck = self.ck
        cls = oblate.config.validation_error_cls
        ck('C02 C04 C20 C06 C05', isinstance(err, ValidationError), 'an operation fails with something else than the validation error', err)
        ck('C20', type(err) is cls, 'the error raised is not of the configured class', type(err), cls)
        if not isinstance(err, ValidationError):
            return
        keys = {e.key for e in err.errors}
        for k in bad:
            ck('C02 C06 C07', k in keys, 'no error under a bad key', k, keys)
        ck('C02', keys <= set(bad), 'an error under a key with nothing wrong', keys, set(bad))
        for e in err.errors:
            ck('C07', e.schema is schema, 'an error records another schema', e.schema, schema)
        msgs = []
        for e in err.errors:
            msgs.append(e.message)
        for k, marks in bad.items():
            for m in marks:
                x = m[1] if isinstance(m, tuple) else m
                prop = 'C02 C03' if isinstance(m, tuple) else 'C02'
                if x is None:
                    continue
                if isinstance(x, FieldError):
                    if isinstance(x.message, (list, tuple, set)):
                        for y in x.message:
                            ck(prop, any(e.key == k and e.message == y for e in err.errors), 'a message is lost', k, y)
                    else:
                        ck(prop + ' C21', any(e is x for e in err.errors), 'a field error is lost', k, x)
                elif str(x):
                    ck(prop + ' C21', any(e.key == k and e.message == str(x) for e in err.errors), 'a failure is lost', k, x)
        for e in fr.ev:
            if e['k'] == 'fmt' and 'res' in e:
                r = e['res']
                k = e['field'].load_key
                if isinstance(r, FieldError):
                    ck('C21', any(x is r for x in err.errors), 'the error of format_error is not used', r)
                elif isinstance(r, str):
                    ck('C21', any(x.key == k and x.message == r for x in err.errors), 'the message of format_error is not used', r)
                elif r is None:
                    m = {REQ: MSGS[0], NON: MSGS[1], VAL: MSGS[2]}.get(e['code'])
                    ck('C21', m is None or any(x.key == k and x.message == m for x in err.errors), 'the default message is not used', e['code'])
            if e['k'] == 'val' and e['out'][0] == 'fail' or e['k'] in ('load', 'dump') and e['out'][0] == 'fail':
                x = e['out'][1]
                if isinstance(x, FieldError) and not isinstance(x.message, (list, tuple, set)) or not isinstance(x, FieldError) and str(x):
                    m = x if isinstance(x, FieldError) else None
                    hit = [y for y in err.errors if (y is m if m is not None else y.message == str(x) and y.key == e['field'].load_key)]
                    ck('C07', all(y.context is e['ctx'] for y in hit), 'an error records another context', hit)
        for e in err.errors:
            f = fr.spec.by_load().get(e.key) if isinstance(e.key, str) else None
            if f is not None:
                ck('C07 C16', e.field is f.field, 'an error leads to another field', e.key)

    def check_constructed(self, fr, s, data, prop):
        ck = self.ck
        exp = {}
        for f in fr.spec.fields.values():
            if f.load_key in data:
                v = data[f.load_key]
                if v is None:
                    exp[f.name] = None
                else:
                    exp[f.name] = next((e['out'][1] for e in fr.ev if e['k'] == 'load' and e['field'] is f.field), NOTSET)
            elif f.default is not MISSING:
                if callable(f.default):
                    ds = [e for e in fr.ev if e['k'] == 'default' and e['field'] is f.field]
                    ck(prop, len(ds) == 1, 'a default factory is not called exactly once', f.name, len(ds))
                    exp[f.name] = ds[0]['out'][1] if ds else NOTSET
                else:
                    exp[f.name] = f.default
            else:
                exp[f.name] = NOTSET
        got = snapshot(s)
        ck(prop, same_vals(exp, got), 'wrong values after construction', exp, got)
        post = [e for e in fr.ev if e['k'] == 'post']
        ck(prop, len(post) == 1, 'the post-init hook does not run exactly once', len(post))
        if post:
            ck(prop, same_vals(post[0]['values'], exp), 'values are not in place in the post-init hook', post[0]['values'], exp)
            ck(prop, fr.ev[-1] is post[0], 'user code runs after the post-init hook')
        pres = [e for e in fr.ev if e['k'] == 'pre']
        ck(prop, len(pres) == 1, 'preprocess_data does not run exactly once')
        ck(prop, s.context.schema is s and s.context.is_initialized(), 'wrong context of the schema')

    def check_dump_events(self, fr, cls, s, names):
        ck = self.ck
        sp = SPEC[cls]
        fr.spec = sp
        bad = {}
        vals = snapshot(s)
        for n, f in sp.fields.items():
            evs = [e for e in fr.ev if e['k'] == 'dump' and e['field'] is f.field]
            want = n in names and vals[n] is not NOTSET
            ck('C06', len(evs) == want, 'a field is not serialized exactly when it is selected and has a value', n, len(evs), want)
            for e in evs:
                ck('C06', e['value'] is vals[n], 'another value is serialized', n)
                if e['out'][0] == 'fail':
                    bad.setdefault(f.load_key, []).append(e['out'][1])
        return bad

    def check_dumped(self, fr, r, prop):
        want = {e['field'].dump_key: e['out'][1] for e in fr.ev if e['k'] == 'dump'}
        self.ck(prop, type(r) is dict and set(r) == set(want) and all(r[k] is want[k] for k in r), 'wrong result of dump', r, want)

    def check_all(self, but=(), prop='C04 C15 C05 C06'):
        for s, sp, m in self.tracked:
            if not any(s is x for x in but):
                now = snapshot(s)
                self.ck(prop, same_vals(now, m), 'the values of a schema changed', m, now)

    # ------------------------------------------------------------------------- operations
    def run(self, kind, sp, call):
        """Runs an operation; returns (frame, result or None, exception or None)."""
        fr = Frame(kind, sp)
        self.frames.append(fr)
        r = x = None
        try:
            r = call()
        except Viol:
            raise
        except BaseException as e:
            x = e
        finally:
            self.frames.pop()
        self.ck('C07', self.amb.ok(), f'{kind} changes the ambient context', self.amb.vals, self.amb.now(), x)
        self.ck.note(kind, type(x).__name__ if x is not None else 'ret', ','.join(e['k'] + ':' + (e['out'][0] if 'out' in e else '') for e in fr.ev)[:120])
        return fr, r, x

    def construct(self, sp):
        ck, rng = self.ck, self.rng
        data = make_data(self, sp)
        ign = rng.choice([MISSING] * 5 + [True, False, 1, 0, 'y'])
        kw = {}
        if ign is not MISSING:
            kw['ignore_extra'] = ign
        state = rng.choice([None, None, [1], {'a': 1}, 7])
        if state is not None:
            kw['state'] = state
        d = wrap_mapping(rng, data)
        if rng.random() < .03:
            d = rng.choice([None, [], 'x', [('a', 1)], 5])
        fr, s, x = self.run('construct', sp, lambda: sp.cls(d, **kw))
        if not isinstance(d, collections.abc.Mapping) or (fr.pdata is not None and not isinstance(fr.pdata, collections.abc.Mapping)) or \
                any(e['k'] == 'pre' for e in fr.ev) and not isinstance(fr.pdata, collections.abc.Mapping):
            ck('C02', type(x) is TypeError, 'data that is no mapping does not raise TypeError', x)
            return
        if fr.foreign:
            if x is None:
                ck('C01', not any(e.get('res') == 'bad' for e in fr.ev if e['k'] == 'fmt'), 'a wrong result of format_error is accepted')
            if any(e.get('res') == 'bad' for e in fr.ev if e['k'] == 'fmt') and not any(e.get('out', ('', 0))[0] == 'foreign' for e in fr.ev):
                ck('C21', type(x) is TypeError, 'a wrong result of format_error does not raise TypeError', x)
            return
        ignore = sp.cfg.ignore_extra if ign is MISSING else ign
        pres = [e for e in fr.ev if e['k'] == 'pre']
        ck('C01', len(pres) == 1 and pres[0]['data'] is d, 'preprocess_data does not get the data exactly once')
        bad = self.check_supplied(fr, fr.pdata, ignore, full=True, construct=True)
        if bad:
            ck('C02 C03 C20', x is not None, 'construction succeeds though something is wrong', bad)
            if x is not None:
                ck('C01', not any(e['k'] == 'post' for e in fr.ev), 'the post-init hook runs though construction fails')
                self.check_errors(fr, x, bad, fr.schema)
            return
        ck('C02 C01', x is None, 'construction fails though nothing is wrong', x)
        if x is None:
            self.check_constructed(fr, s, fr.pdata, 'C01')
            ck('C01', s.context.state is state, 'wrong state')
            ck('C01', fr.schema is s, 'another schema instance was processed')
            self.track(s, sp)

    def update(self, ent):
        s, sp, model = ent
        ck, rng = self.ck, self.rng
        data = make_data(self, sp, complete=.4, extra=.15)
        ign = rng.choice([MISSING] * 5 + [True, False, 1, 0, 'y'])
        kw = {} if ign is MISSING else {'ignore_extra': ign}
        fr, r, x = self.run('update', sp, lambda: s.update(wrap_mapping(rng, data), **kw))
        now = snapshot(s)
        by = sp.by_load()
        sup = {k: by[k] for k in data if isinstance(k, str) and k in by}
        for n, f in sp.fields.items():
            if f.frozen or sp.cfg.frozen:
                ck('C05', now[n] is model[n], 'a frozen field changed', n)
        frozen = sp.cfg.frozen
        if frozen:
            ck('C05', isinstance(x, FrozenError) and not fr.ev, 'an update of a frozen schema does not raise FrozenError', x)
        if any(f.frozen for f in sup.values()):
            ck('C05', x is not None, 'an update of a frozen field returns')
        if x is not None:
            ck('C04 C03', same_vals(now, model), 'a failed update changed the schema', model, now)
        if fr.foreign or frozen or isinstance(x, FrozenError):
            self.check_all()
            if isinstance(x, FrozenError) and not frozen:
                ck('C04 C05', any(f.frozen for f in sup.values()), 'FrozenError though nothing is frozen')
            return
        if any(f.frozen for f in sup.values()):
            return
        ignore = sp.cfg.ignore_extra if ign is MISSING else ign
        bad = self.check_supplied(fr, data, ignore, full=True)
        if bad:
            ck('C03 C04 C02 C20', x is not None, 'update succeeds though something is wrong', bad)
            if x is not None:
                self.check_errors(fr, x, bad, s)
        else:
            ck('C04 C05', x is None, 'update fails though nothing is wrong', x)
        if x is None:
            self.after_set(fr, s, data, by, model, now)
        self.check_all()

    def after_set(self, fr, s, data, by, model, now):
        exp = dict(model)
        for k, v in data.items():
            f = by.get(k) if isinstance(k, str) else None
            if f is not None:
                exp[f.name] = None if v is None else next((e['out'][1] for e in fr.ev if e['k'] == 'load' and e['field'] is f.field), NOTSET)
        self.ck('C04', same_vals(exp, now), 'wrong values after an update or assignment', exp, now)
        self.ck('C07', fr.schema is None or fr.schema is s, 'another schema was processed')
        model.update(now)

    def assign(self, ent):
        s, sp, model = ent
        ck, rng = self.ck, self.rng
        if not sp.fields:
            return
        f = rng.choice(list(sp.fields.values()))
        if isinstance(f.field, OF) and rng.random() < .8:
            v = wrap_mapping(rng, make_data(self, f.field.spec))
        else:
            v = some_value(rng)
        fr, r, x = self.run('assign', sp, lambda: setattr(s, f.name, v))
        now = snapshot(s)
        if f.frozen or sp.cfg.frozen:
            ck('C05', isinstance(x, FrozenError) and not fr.ev, 'an assignment to something frozen does not raise FrozenError', x)
            ck('C05', same_vals(now, model), 'an assignment to something frozen changed the schema')
            return
        if x is not None:
            ck('C04 C03', same_vals(now, model), 'a failed assignment changed the schema', model, now)
        if fr.foreign:
            self.check_all()
            return
        data = {f.load_key: v}
        bad = self.check_supplied(fr, data, False, full=True)
        if bad:
            ck('C03 C04 C02 C20', x is not None, 'assignment succeeds though something is wrong', bad)
            if x is not None:
                self.check_errors(fr, x, bad, s)
        else:
            ck('C04', x is None, 'assignment fails though nothing is wrong', x)
        if x is None:
            self.after_set(fr, s, data, sp.by_load(), model, now)
        self.check_all()

    def dump(self, ent):
        s, sp, model = ent
        ck, rng = self.ck, self.rng
        names = list(sp.fields)
        kw = {}
        sel = set(names)
        mode = rng.choice(['all', 'all', 'include', 'exclude', 'both'] if rng.random() < .5 else ['all', 'include', 'exclude'])
        pick = [n for n in names + ['nope', 'k'] if rng.random() < .5]
        if rng.random() < .3:
            pick = pick + pick
        mk = rng.choice([list, tuple, set])
        if mode == 'include':
            kw['include'] = mk(pick)
            sel = {n for n in names if n in pick}
        elif mode == 'exclude':
            kw['exclude'] = mk(pick)
            sel = {n for n in names if n not in pick}
        elif mode == 'both':
            kw['include'], kw['exclude'] = mk(pick), rng.choice([[], ['a'], None])
        fr, r, x = self.run('dump', sp, lambda: s.dump(**kw))
        self.check_all(prop='C06')
        if mode == 'both':
            ck('C06', type(x) is TypeError and not fr.ev, 'include and exclude together do not raise TypeError', x)
            return
        if fr.foreign:
            return
        bad = self.check_dump_events(fr, type(s), s, sel)
        if bad:
            ck('C06 C20', x is not None, 'dump succeeds though a serialization fails', bad)
            if x is not None:
                self.check_errors(fr, x, bad, s)
        else:
            ck('C06', x is None, 'dump fails though nothing is wrong', x)
            if x is None:
                self.check_dumped(fr, r, 'C06')

    def get(self, ent):
        s, sp, model = ent
        ck, rng = self.ck, self.rng
        by = sp.by_load()
        k = rng.choice(list(sp.fields) + list(by) + ['nope'])
        f = sp.fields.get(k) or by.get(k)
        dflt = rng.choice([MISSING, None, 0, '', Thing(1)])
        args = () if dflt is MISSING else (dflt,)
        try:
            r, x = s.get_value_for(k, *args), None
        except Exception as e:
            r, x = None, e
        if f is None:
            ck('C19', type(x) is RuntimeError, 'an unknown name does not raise RuntimeError', k, x)
        elif model[f.name] is not NOTSET:
            ck('C19', x is None and r is model[f.name], 'get_value_for returns another value', k, r, model[f.name])
        elif dflt is not MISSING:
            ck('C19', x is None and r is dflt, 'get_value_for does not return the default', k, r)
        else:
            ck('C19', isinstance(x, FieldNotSet), 'an unset field does not raise FieldNotSet', k, x)
        if sp.fields:
            n = rng.choice(list(sp.fields))
            try:
                r, x = getattr(s, n), None
            except Exception as e:
                r, x = None, e
            if model[n] is NOTSET:
                ck('C19', isinstance(x, FieldNotSet), 'an unset attribute does not raise FieldNotSet', n, x)
            else:
                ck('C19', x is None and r is model[n], 'an attribute returns another value', n, r)
        self.check_all(prop='C19')
        ck('C07', self.amb.ok(), 'reading changes the ambient context')

    def copy(self, ent):
        s, sp, model = ent
        ck, rng = self.ck, self.rng
        st = rng.choice([None, [1, [2]], {'a': []}, 5, Thing(3)])
        if rng.random() < .5:
            s.context.state = st
        st = s.context.state
        c = s.copy()
        ck('C15', c is not s and type(c) is type(s), 'the copy is no new instance of the class')
        ck('C15', same_vals(snapshot(c), model), 'the copy holds other values', snapshot(c), model)
        ck('C15', c.context is not s.context and c.context.schema is c and s.context.schema is s, 'wrong context of the copy')
        ck('C15', c.context.is_initialized() and c.context.config is sp.cfg, 'the context of the copy is not initialized')
        cs = c.context.state
        if isinstance(st, (list, dict)):
            ck('C15', cs == st and cs is not st, 'the state of the copy is no shallow copy', st, cs)
            inner = list(st.values()) if isinstance(st, dict) else st
            cinner = list(cs.values()) if isinstance(cs, dict) else cs
            ck('C15', same(list(inner), list(cinner)), 'the state of the copy is no shallow copy', st, cs)
        elif isinstance(st, Thing):
            ck('C15', type(cs) is Thing and cs is not st and cs.n == st.n, 'the state of the copy is no shallow copy')
        else:
            ck('C15', cs is st, 'the copy has another state', st, cs)
        if rng.random() < .5:
            c.context.state = 'other'
            ck('C15', s.context.state is st, 'changing the state of the copy changes the original')
            c.context.state = cs
        self.tracked.append((c, sp, snapshot(c)))
        ck.note('copy')

    def copy_field(self, sp):
        ck, rng = self.ck, self.rng
        if not sp.fields:
            return
        f = rng.choice(list(sp.fields.values()))
        d = describe(f.field)
        g = f.field.copy()
        ck('C15', g is not f.field and type(g) is type(f.field), 'the copy of a field is no new field of the class')
        try:
            g.name
            ck('C15', False, 'the copy of a field is bound')
        except RuntimeError:
            pass
        ck('C15', same(list(g.walk_validators(raw=True)), f.raws) and same(list(g.walk_validators(raw=False)), f.regs), 'the copy of a field has other validators')
        ck('C15', (g.none, g.required, g.frozen, id(g.default), id(g.extras)) ==
           (f.field.none, f.field.required, f.field.frozen, id(f.field.default), id(f.field.extras)), 'the copy of a field has other options')
        for i in range(3):
            h, o = rng.choice([(g, f.field), (f.field, g)])
            before = [list(x.walk_validators(raw=r)) for x in (g, f.field) for r in (True, False)]
            k = rng.randrange(3)
            ob = [list(o.walk_validators(raw=r)) for r in (True, False)]
            mine = [list(h.walk_validators(raw=r)) for r in (True, False)]
            if k == 0:
                h.add_validator(V(self), raw=rng.choice([True, False]))
            elif k == 1 and any(mine):
                v = rng.choice(mine[0] + mine[1])
                h.remove_validator(v, raw=v in mine[0])
            else:
                h.clear_validators()
            ck('C15', all(same(a, list(o.walk_validators(raw=r))) for a, r in zip(ob, (True, False))), 'changing the validators of a field changes those of its copy')
            f.raws, f.regs = list(f.field.walk_validators(raw=True)), list(f.field.walk_validators(raw=False))
        cls = type(Schema)('Bound', (Schema,), {'zz': g})
        ck('C15', g.name == 'zz' and g.load_key == (f.load_key if f.load_key != f.name or 'load_key' in f.kw or 'data_key' in f.kw else 'zz'), 'the copy of a field has another load key')
        d2 = describe(f.field)
        ck('C15', d[:8] == d2[:8], 'binding a copy changed the original', d, d2)


@scen('C01 C02 C03 C04 C05 C06 C07 C13 C15 C16 C19 C20 C21',
      'random schema classes (inheritance, keys, defaults, validators, nested schemas, configurations) with recording callbacks of random '
      'outcomes, then a random sequence of construct/update/assign/dump/get/copy')
def operations(rng, ck):
    w = World(rng, ck)
    w.tracked = []
    w.amb = Ambient(rng)
    old = oblate.config
    oldcls = old.validation_error_cls
    try:
        k = rng.random()
        if k < .2:
            oblate.config.validation_error_cls = rng.choice([MyVE, MyVE2])
        elif k < .3:
            oblate.config = oblate.GlobalConfig(validation_error_cls=rng.choice([MyVE, MyVE2, ValidationError]))
        specs = []
        sp = make_spec(w, rng.choice([0, 0, 1, 2]) if w.deep else rng.choice([0, 0, 1]))
        specs.append(sp)
        for _ in range(rng.choice([0, 0, 1, 2])):
            specs.append(make_spec(w, rng.choice([0, 0, 1]), parent=rng.choice(specs)))
        for _ in range(rng.choice([1, 3, 5, 8])):
            k = rng.random()
            if not w.tracked or k < .3:
                w.construct(rng.choice(specs))
            elif k < .33:
                w.copy_field(rng.choice(specs))
            else:
                rng.choice([w.update, w.update, w.assign, w.assign, w.dump, w.dump, w.get, w.copy])(rng.choice(w.tracked))
            if rng.random() < .1:
                oblate.config.validation_error_cls = rng.choice([MyVE, MyVE2, ValidationError])
            if len(w.tracked) > 8:
                w.tracked = w.tracked[-6:]
    finally:
        oblate.config = old
        old.validation_error_cls = oldcls
        w.amb.close()
        SPEC.clear()
