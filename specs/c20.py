"""C20: configuration classes of schemas and global options."""
from .common import *
from pyvc.harness import mode
from pyvc import registry as R
from oblate.schema import _SchemaMeta

ATTRS, BASE = z3.Const('attrs', Val), z3.Const('base', Val)
isclass = z3.Function('isclass', Val, BoolS)


def is_config(t):
    """A configuration class."""
    return z3.And(Val.is_vobj(t), isclass(t), z3.Function('sub:oblate.configs.SchemaConfig', Val, BoolS)(t))


class NewClass:
    """_SchemaMeta.__new__ on an arbitrary body.  own: the body has one configuration class, under the name n."""

    def __init__(self, h, own, base):
        self.h, self.ex, self.own = h, h.ex, own
        ex = h.ex
        n = self.n = ex.term(h.str('config_name'))
        ex.tracked.append(('name', n))
        meta = {'khint': str, 'tag': 'name', 'hook': self.hook}
        self.attrs = ex.mk(ATTRS, dict, meta=meta)
        d = ex.get_dict(self.attrs)
        self.d0 = d
        if own:
            h.assume(z3.And(zbool(d.dom(ex, n)), is_config(ex.term(d.val(ex, n)))))
        self.conf = ex.term(d.val(ex, n)) if own else lit(SchemaConfig)
        # the bases: any classes, at most one of which is a schema with a configuration
        other = lambda e: self.other(e)
        segs = [Any_(ex.fresh_int('n'), other)]
        ex.assume(segs[0].n >= 0)
        if base:
            b = ex.mk(BASE, type, sub=Schema)
            if not own:
                self.conf = ex.term(ex.getattr(b, '__config__'))
            segs.append(Ex(b))
            m = ex.fresh_int('n')
            ex.assume(m >= 0)
            segs.append(Any_(m, other))
        self.bases = ex.new_list(segs)
        self.got = None
        h.reg.models[id(type.__new__)] = self.type_new

    def hook(self, ex, d, k, owner=None):
        v = d.valf(k)
        if self.own:
            ex.assume(z3.Implies(z3.And(d.domf(k), k != self.n), z3.Not(is_config(v))))
        else:
            ex.assume(z3.Implies(d.domf(k), z3.Not(is_config(v))))

    def other(self, ex):
        c = ex.mk(ex.fresh_val('base'), type)
        ex.assume(z3.And(isclass(c.t), z3.Not(z3.Function('sub:oblate.schema.Schema', Val, BoolS)(c.t))))
        return c

    def type_new(self, ex, args, kwargs):
        self.got = args
        return ex.mk(ex.fresh_val('cls'), type, sub=Schema)


def new_class(own, base):
    def run(h):
        ex = h.ex
        b = NewClass(h, own, base)
        # an arbitrary other attribute
        a = ex.term(h.str('attribute'))
        ex.tracked.append(('name', a))
        d0 = b.d0
        had, val = zbool(d0.dom(ex, a)), ex.term(d0.val(ex, a))
        hads = zbool(d0.dom(ex, lit('__slots__')))
        pre = snapshot(h)
        k, r = h.call(_SchemaMeta.__new__, [C(_SchemaMeta), h.str('clsname'), b.bases, b.attrs])
        h.oblige('the class is created', k == 'ret' and b.got is not None, info=r)
        if k != 'ret' or b.got is None:
            return
        h.cover('created')
        h.oblige('with its name and bases', z3.And(zbool(ex.is_(b.got[1], T(z3.Const('clsname', Val)))), zbool(ex.is_(b.got[2], b.bases))))
        h.oblige('from the body', zbool(ex.is_(b.got[3], b.attrs)))
        d = ex.get_dict(b.got[3])
        h.oblige('it uses the configuration of the body, else of the base schema, else the default',
                 z3.And(zbool(d.dom(ex, lit('__config__'))), ex.term(d.val(ex, lit('__config__'))) == b.conf), info=d.val(ex, lit('__config__')))
        conf = ex.mk(b.conf, type, sub=SchemaConfig)
        slotted = zbool(ex.truth(ex.getattr(C(SchemaConfig) if not own and not base else conf, 'slotted')))
        s = lit('__slots__')
        now = zbool(d.dom(ex, s))
        if ex.branch(hads):
            h.cover('own slots')
            h.oblige('slots of its own are kept', z3.And(now, ex.term(d.val(ex, s)) == ex.term(d0.val(ex, s))))
        else:
            h.cover('no slots')
            h.oblige('it gets slots iff the configuration is slotted', now == slotted)
            if ex.branch(now):
                v = d.val(ex, s)
                h.oblige('which are empty', isinstance(v, Tup) and not v.items, info=v)
        h.oblige('every other attribute is as in the body', z3.Implies(z3.And(a != lit('__config__'), a != s),
                 z3.And(zbool(d.dom(ex, a)) == had, z3.Implies(had, ex.term(d.val(ex, a)) == val))))
    mode('C20', covers=('created', 'own slots', 'no slots'), name='new_class' + ('_own' if own else '') + ('_base' if base else ''))(run)


for own in (False, True):
    for base in (False, True):
        new_class(own, base)


# ---------------------------------------------------------------------------------------- global options

def config_registry():
    r = base_registry()
    r.hints[(GlobalConfig, '_values')] = Hint('obj', dict, khint=str, tag='option')
    return r


def options(ex, g):
    return [ex.term(ex.getattr(g, n)) for n in ('validation_error_cls', 'warn_unsupported_types')]


VCLS = lit(ValidationError)
is_verror = lambda t: z3.Or(t == VCLS, z3.And(isclass(t), Val.is_vobj(t), z3.Function('sub:oblate.exceptions.ValidationError', Val, BoolS)(t)))


def verror_is_class(h):
    h.assume(z3.And(isclass(VCLS), z3.Function('sub:oblate.exceptions.ValidationError', Val, BoolS)(VCLS)))


def an_option(name, other, accepted):
    def run(h):
        ex = h.ex
        g, g2 = h.obj('config', GlobalConfig), h.obj('other_config', GlobalConfig)
        h.assume(g.t != g2.t)
        h.assume(uattr('_values', oid(g.t)) != uattr('_values', oid(g2.t)))
        v = h.val('value')
        verror_is_class(h)
        ok = accepted(ex, v)
        before, before2 = options(ex, g), options(ex, g2)
        pre = snapshot(h)
        try:
            ex.setattr(g, name, v)
            exc = None
        except PyRaise as e:
            exc = e.exc
        after, after2 = options(ex, g), options(ex, g2)
        i = ('validation_error_cls', 'warn_unsupported_types').index(name)
        if exc is None:
            h.cover('accepted')
            h.oblige(f'{name}: only valid values are accepted', ok)
            h.oblige(f'{name}: the option returns the value assigned', after[i] == v.t)
        else:
            h.cover('refused')
            h.oblige(f'{name}: valid values are accepted', z3.Not(ok))
            h.oblige(f'{name}: an invalid value raises TypeError', is_exc(h, exc, TypeError), info=exc)
            h.oblige(f'{name}: and changes nothing', after[i] == before[i])
        h.oblige('the other option keeps its value', after[1 - i] == before[1 - i])
        h.oblige('other instances keep their values', z3.And([x == y for x, y in zip(before2, after2)]))
        bad = [x for x in frame_ok(h, pre) if not (x[0] == 'dict' and ex.must(x[2] == oid(uattr('_values', oid(g.t)))))]
        h.oblige('nothing else changes', not bad, info=bad)
    mode('C20', covers=('accepted', 'refused'), name='set_' + name, registry=config_registry)(run)


an_option('validation_error_cls', 1, lambda ex, v: is_verror(v.t))
an_option('warn_unsupported_types', 0, lambda ex, v: Val.is_vbool(v.t))


@mode('C20', covers=('created', 'refused', 'defaults'), registry=config_registry)
def new_config(h):
    ex = h.ex
    g2 = h.obj('other_config', GlobalConfig)
    before = options(ex, g2)
    kw = {}
    verror_is_class(h)
    e, w = lit(ValidationError), lit(True)
    if ex.branch(z3.Bool('error class given')):
        kw['validation_error_cls'] = h.val('error_cls')
        e = kw['validation_error_cls'].t
    if ex.branch(z3.Bool('flag given')):
        kw['warn_unsupported_types'] = h.val('flag')
        w = kw['warn_unsupported_types'].t
    pre = snapshot(h)
    k, g = h.call(GlobalConfig, [], kw)
    ok = z3.And(is_verror(e), Val.is_vbool(w))
    if k == 'ret':
        h.cover('created')
        if not kw:
            h.cover('defaults')
        h.oblige('only valid options are accepted', ok)
        h.oblige('the options have the values given, or the defaults', z3.And([x == y for x, y in zip(options(ex, g), (e, w))]), info=options(ex, g))
    else:
        h.cover('refused')
        h.oblige('valid options are accepted', z3.Not(ok))
        h.oblige('invalid options raise TypeError', is_exc(h, g, TypeError), info=g)
    h.oblige('other instances keep their values', z3.And([x == y for x, y in zip(options(ex, g2), before)]))
    oblige_frame(h, pre, 'creating a configuration changes nothing')


@mode('C20', covers=('unset',), registry=config_registry)
def unset_option(h):
    """An option that was never assigned has its default."""
    ex = h.ex
    g = ex.new_obj(GlobalConfig)
    ex.write_attr(g, '_values', ex.new_dict(Dct('empty')))
    h.cover('unset')
    h.oblige('an option returns its default', z3.And([x == y for x, y in zip(options(ex, g), (VCLS, lit(True)))]), info=options(ex, g))
