"""C19: options, keys and accessors."""
from .common import *
from pyvc.harness import mode

M = lit(MISSING)


def opt_str(h, name):
    """A str or MISSING."""
    t = z3.Const(name, Val)
    if h.ex.branch(z3.Bool(name + ' given')):
        return h.ex.mk(t, str), True
    return C(MISSING), False


@mode('C19', covers=('data_key', 'own keys', 'defaulted'))
def field_options(h):
    ex = h.ex
    dk, hd = opt_str(h, 'data_key')
    lk, hl = opt_str(h, 'load_key')
    mk, hm = opt_str(h, 'dump_key')
    kw = {}
    for n, v, g in (('data_key', dk, hd), ('load_key', lk, hl), ('dump_key', mk, hm)):
        if g:
            kw[n] = v
    req, dflt = h.val('required'), h.val('default')
    if ex.branch(z3.Bool('default given')):
        kw['default'] = dflt
        h.assume(dflt.t != M)
        hasd = True
    else:
        hasd = False
    if ex.branch(z3.Bool('required given')):
        kw['required'] = req
        rq = zbool(ex.truth(req))
    else:
        rq = z3.BoolVal(True)
    k, f = h.call(Field, [], kw)
    h.oblige('Field() returns', k == 'ret')
    if k != 'ret':
        return
    name, cls = h.str('name'), h.val('schema_cls', type, sub=Schema)
    k, r = h.method(f, '_bind', [name, cls])
    h.oblige('_bind returns on an unbound field', k == 'ret')
    k, r = h.method(f, 'load_key')if False else ('ret', ex.getattr(f, 'load_key'))
    exp = dk if hd else lk if hl else name
    h.oblige('load_key: data_key, else load_key, else the name', ex.is_(r, exp), info=r)
    r = ex.getattr(f, 'dump_key')
    exp = dk if hd else mk if hm else name
    h.oblige('dump_key: data_key, else dump_key, else the name', ex.is_(r, exp), info=r)
    h.cover('data_key' if hd else 'own keys' if hl and hm else 'defaulted' if not hl and not hm else 'x')
    r = ex.getattr(f, 'required')
    h.oblige('required iff asked for and there is no default (falsy ones count)', zbool(ex.truth(r)) == z3.And(rq, z3.BoolVal(not hasd)))
    k, r = h.method(f, 'has_default')
    h.oblige('has_default iff a default was given', k == 'ret' and zbool(ex.truth(r)) == z3.BoolVal(hasd))
    r = ex.getattr(f, 'default')
    h.oblige('default is the given object, else None', ex.is_(r, dflt if hasd else C(None)))
    for n in ('none', 'frozen'):
        h.oblige(f'{n} defaults to False', ex.is_(ex.getattr(f, n), C(False)))


@mode('C19', covers=('by name', 'by load key', 'default', 'not set', 'unknown'))
def get_value_for(h):
    ex = h.ex
    s = h.obj('schema', Schema)
    key_ = h.str('key')
    kt = ex.term(key_)
    byname, byload = class_fields(h, s)
    vals = ex.getattr(s, '_field_values')
    args = [key_]
    d = h.val('default')
    given = ex.branch(z3.Bool('default given'))
    if given:
        h.assume(d.t != M)
        args.append(d)
    pre = snapshot(h)
    k, r = h.method(s, 'get_value_for', args)
    oblige_frame(h, pre, 'reading changes nothing')
    n, l = dom(h, byname, kt), dom(h, byload, kt)
    if not ex.branch(z3.Or(n, l)):
        h.cover('unknown')
        h.oblige('an unknown name raises RuntimeError', k == 'exc' and is_exc(h, r, RuntimeError), info=r)
        return
    ft = z3.If(n, get(h, byname, kt), get(h, byload, kt))
    nt = ex.mem('_name').select(oid(ft))
    held = dom(h, vals, nt)
    if ex.branch(held):
        h.cover('by name' if ex.must(n) else 'by load key')
        h.oblige('the held value is returned', k == 'ret' and ex.term(r) == get(h, vals, nt), info=(k, r))
    elif given:
        h.cover('default')
        h.oblige('the default is returned for an unset field', k == 'ret' and ex.is_(r, d), info=(k, r))
    else:
        h.cover('not set')
        h.oblige('FieldNotSet is raised for an unset field', k == 'exc' and is_exc(h, r, FieldNotSet), info=(k, r))
        if k == 'exc':
            h.oblige('FieldNotSet names the schema and the field', z3.And(
                h.attr(r, 'schema') == s.t, h.attr(r, 'field') == ft))


@mode('C19', covers=('value', 'not set', 'class'))
def attribute_access(h):
    """Reading the attribute of a field that the class has under its name."""
    ex = h.ex
    s = h.obj('schema', Schema)
    f = h.obj('field', Field)
    cls = schema_class(h, s)
    byname, byload = class_fields(h, s)
    vals = ex.getattr(s, '_field_values')
    nt = ex.term(ex.getattr(f, '_name'))
    h.assume(z3.And(dom(h, byname, nt), get(h, byname, nt) == f.t))
    pre = snapshot(h)
    if ex.branch(z3.Bool('on the class')):
        h.cover('class')
        k, r = h.call(BM(C(Field.__get__), f), [C(None), cls])
        h.oblige('class access gives the field', k == 'ret' and ex.is_(r, f))
        return
    k, r = h.call(BM(C(Field.__get__), f), [s, cls])
    oblige_frame(h, pre, 'reading changes nothing')
    if ex.branch(dom(h, vals, nt)):
        h.cover('value')
        h.oblige('attribute access gives the held value', k == 'ret' and ex.term(r) == get(h, vals, nt), info=(k, r))
    else:
        h.cover('not set')
        h.oblige('attribute access raises FieldNotSet when unset', k == 'exc' and is_exc(h, r, FieldNotSet), info=(k, r))
