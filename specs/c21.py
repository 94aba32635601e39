"""C21: error codes and format_error."""
from .fieldop import *
from pyvc.harness import mode
from pyvc import registry as R

DEFMSG = z3.Function('default.message', Val, Val, Val)


@mode('C21', covers=('string', 'field error', 'default string', 'default field error', 'other'))
def call_format_error(h):
    ex = h.ex
    f = h.obj('field', Field)
    code = h.val('error_code')
    sch = h.obj('schema', Schema)
    kw, val, meta = {}, C(MISSING), None
    if ex.branch(z3.Bool('value given')):
        val = h.val('value')
        kw['value'] = val
    if ex.branch(z3.Bool('metadata given')):
        meta = h.val('metadata', dict)
        kw['metadata'] = meta
    ex.st.ghost['format'] = ex.st.ghost['default'] = Z
    ambient_set(h)
    out = z3.Const('format_error.result', Val)
    dout = z3.Const('default.result', Val)
    for t in (out, dout):
        h.assume(z3.Not(Val.is_vunset(t)))

    def check(w, ex, args):
        h.oblige(f'{w} gets the error code', ex.is_(args[0], code))
        c = ex.narrow(args[1]) if isinstance(args[1], T) else args[1]
        h.oblige(f'{w} gets an error context', isinstance(c, T) and c.hint is ErrorContext, info=c)
        a = lambda n: ex.getattr(c, n)
        h.oblige(f'the context of {w} carries the error code', ex.is_(a('error_code'), code))
        h.oblige(f'the context of {w} carries the schema', ex.is_(a('schema'), sch))
        h.oblige(f'the context of {w} carries the field', ex.is_(a('field'), f))
        k, r = h.method(c, 'get_value')
        if ex.branch(zbool(ex.is_(val, C(MISSING)))):
            h.oblige(f'the context of {w} has no value when there is none', k == 'exc' and is_exc(h, r, ValueError), info=(k, r))
        else:
            h.oblige(f'the context of {w} carries the offending value', k == 'ret' and ex.is_(r, val), info=(k, r))
        m = a('metadata')
        if meta is not None:
            h.oblige(f'the context of {w} carries the metadata', ex.is_(m, meta))
        else:
            h.oblige(f'the metadata in the context of {w} is empty when there is none', ex.kind(m) is dict and z3.Not(
                zbool(ex.get_dict(m).dom(ex, z3.Const('any key', Val)))))

    def format_error(ex, bm, args, kwargs):
        ex.st.ghost['format'] = simp(ex.st.ghost['format'] + 1)
        check('format_error', ex, args)
        return ex.mk(out)

    def default_message(ex, bm, args, kwargs):
        ex.st.ghost['default'] = simp(ex.st.ghost['default'] + 1)
        check('the default message', ex, args)
        h.assume(z3.Or(Val.is_vstr(dout), zbool(ex.inst(ex.mk(dout), FieldError))))
        return ex.mk(dout)
    h.reg.virtuals['format_error'] = format_error
    h.reg.virtuals['_get_default_error_message'] = default_message
    k, r = h.method(f, '_call_format_error', [code, sch], kw)
    h.oblige('format_error is called exactly once', ex.st.ghost['format'] == 1)
    none = ex.branch(out == Val.vnone)
    h.oblige('the default message is used iff format_error returns None', ex.st.ghost['default'] == (1 if none else 0))
    t = dout if none else out
    if ex.branch(zbool(ex.inst(ex.mk(t), str))):
        h.cover('default string' if none else 'string')
        h.oblige('a string becomes a field error', k == 'ret' and ex.inst(r, FieldError), info=(k, r))
        if k == 'ret':
            h.oblige('the string is the message of the field error', ex.is_(ex.getattr(r, 'message'), ex.mk(t)))
            for a, n in (('schema', 'current_schema'), ('key', 'current_field_key')):
                h.oblige('the field error records where it is created', ex.is_(ex.getattr(r, a), R.cvar_value(ex, getattr(oblate.utils, n))))
    elif ex.branch(zbool(ex.inst(ex.mk(t), FieldError))):
        h.cover('default field error' if none else 'field error')
        h.oblige('a field error is used as it is', k == 'ret' and ex.is_(r, ex.mk(t)), info=(k, r))
    else:
        h.cover('other')
        h.oblige('any other result of format_error raises TypeError', k == 'exc' and is_exc(h, r, TypeError), info=(k, r))


@mode('C21', covers=('no message', 'message'))
def standard_error(h):
    """FieldError._from_standard_error."""
    ex = h.ex
    f = h.obj('field', Field)
    sch = h.obj('schema', Schema)
    val = h.val('value')
    err = ex.new_obj(Exception, exact=False)
    arg = h.str('message')
    ambient_set(h)
    ex.write_attr(err, 'args', Tup((arg,)))
    op = FieldOp(h, f)
    k, r = h.method(C(FieldError), '_from_standard_error', [err], {'schema': sch, 'field': f, 'value': val})
    h.oblige('the conversion returns', k == 'ret', info=r)
    if k != 'ret':
        return
    if ex.branch(zbool(ex.truth(ex.mk(arg.t, str)))):
        h.cover('message')
        h.oblige('an error with a message becomes a field error', ex.inst(r, FieldError))
        h.oblige('the message is kept', ex.is_(ex.getattr(r, 'message'), ex.mk(arg.t, str)))
        h.oblige('format_error is not involved', ex.st.ghost['format'] == 0)
    else:
        h.cover('no message')
        op.value, op.schema = val, sch
        op.oblige_error('exc', r, C(Field.ERR_VALIDATION_FAILED), 'C21')


@mode('C21', covers=('given', 'default'))
def default_format_error(h):
    """format_error when it is not overridden: the default message."""
    ex = h.ex
    f = h.obj('field', Field)
    code, c = h.val('error_code'), h.obj('context', ErrorContext)
    out = z3.Const('default.result', Val)
    ex.st.ghost['default'] = Z

    def default_message(ex, bm, args, kwargs):
        ex.st.ghost['default'] = simp(ex.st.ghost['default'] + 1)
        h.oblige('the default message is of the error code', ex.is_(args[0], code))
        h.oblige('the default message is of the context', ex.is_(args[1], c))
        return ex.mk(out)
    h.reg.virtuals['_get_default_error_message'] = default_message
    k, r = h.method(f, 'format_error', [code, c])
    h.cover('default')
    h.oblige('format_error gives the default message, or None', k == 'ret' and z3.Or(ex.term(r) == Val.vnone, ex.term(r) == out), info=(k, r))
    h.cover('given')


CODES = {}
for _n in fields.__all__ if hasattr(fields, '__all__') else dir(fields):
    _c = getattr(fields, _n)
    if isinstance(_c, type) and issubclass(_c, Field):
        CODES[_c] = [a for a in dir(_c) if a.startswith('ERR_')]


def default_mode(P, codes):
    def run(h):
        """Every error code of the class has a default message: a string, or a field error of the metadata."""
        ex = h.ex
        f = h.obj('field', P)
        n = ex.choose([z3.BoolVal(True)] * len(codes))
        code = ex.getattr(f, codes[n])
        ambient_set(h)
        c = h.obj('context', ErrorContext)
        tv = codes[n] in ('ERR_TYPE_VALIDATION_FAILED',) or codes[n] == 'ERR_INVALID_VALUE'
        if tv:
            errs = h.val('messages', list)
            d = ex.new_dict(Dct('store', prev=Dct('empty'), k=lit('type_validation_fail_errors'), v=errs))
            ex.write_attr(c, 'metadata', d)
        others = [ex.getattr(f, x) for i, x in enumerate(codes) if i != n]
        k, r = h.method(f, '_get_default_error_message', [code, c])
        h.cover('message')
        if tv:
            h.oblige('a field error with the type validation messages', k == 'ret' and ex.inst(r, FieldError), info=(codes[n], k, r))
            if k == 'ret':
                h.oblige('the messages are those of the metadata', ex.is_(ex.getattr(r, 'message'), errs))
        else:
            h.oblige('the default message is a string', k == 'ret' and ex.kind(r) is str, info=(codes[n], k, r))
    return run


for _c, _codes in CODES.items():
    if _codes:
        mode('C21', covers=('message',), name='default_' + _c.__name__.lower())(default_mode(_c, _codes))
