"""A field deserializing or serializing one value: the context of a value_load / value_dump call."""
from .common import *
from .core import con, F1, Z, is_callable
import collections.abc
import oblate.fields as fields


class FieldOp:
    def __init__(self, h, f, ctx=LoadContext, contract=True):
        self.h, self.ex, self.f = h, h.ex, f
        ex = h.ex
        self.value = h.val('value')
        h.assume(z3.Not(Val.is_vunset(self.value.t)))
        self.ctx = h.obj('context', ctx)
        self.schema = ex.getattr(self.ctx, 'schema')
        self.calls = []
        ex.st.ghost['format'] = Z
        self.foreign_ok = False
        if contract:
            con(h.reg, Field, '_call_format_error', self.call_format_error)

    def call_format_error(self, ex, env):
        """Field._call_format_error: returns the field error of the code (see c21)."""
        ex.st.ghost['format'] = simp(ex.st.ghost['format'] + 1)
        self.calls.append(dict(env))
        ex.st.fired['format'] = dict(env)
        e = ex.new_obj(FieldError, exact=False)
        ex.st.fired['error'] = e
        return e

    def load(self):
        return self.h.method(self.f, 'value_load', [self.value, self.ctx])

    def dump(self):
        return self.h.method(self.f, 'value_dump', [self.value, self.ctx])

    def oblige_error(self, k, r, code, prop, metadata=None):
        """The call raised the field error of the code: format_error is reached exactly once, with full context."""
        h, ex = self.h, self.ex
        if k != 'exc':
            h.fail('fails with a field error', info=r, prop=prop)
            return
        e, env = ex.st.fired.get('error'), ex.st.fired.get('format')
        h.oblige('fails with the field error of the code', e is not None and ex.is_(r, e), info=r, prop=prop)
        h.oblige('format_error is called exactly once', ex.st.ghost['format'] == 1, prop='C21')
        if env is None:
            return
        h.oblige('of the failing field', ex.is_(env['self'], self.f), prop='C21')
        h.oblige('with the error code of the failure', ex.is_(env['error_code'], code), prop='C21', info=env['error_code'])
        h.oblige('and that is the code expected', ex.is_(env['error_code'], code), prop=prop, info=env['error_code'])
        h.oblige('with the schema of the context', ex.is_(env['schema'], self.schema), prop='C21')
        h.oblige('with the offending value', ex.is_(env['value'], self.value), prop='C21', info=env['value'])
        if metadata is None:
            h.oblige('without metadata', ex.is_(env['metadata'], C(MISSING)), prop='C21')
        else:
            metadata(env['metadata'])

    def oblige_ok(self, k, r, v, name, prop):
        h, ex = self.h, self.ex
        h.oblige(name, k == 'ret' and ex.is_(r, v), info=(k, r), prop=prop)
        h.oblige('no error is formatted for an accepted value', ex.st.ghost['format'] == 0, prop='C21')


def ambient_set(h, n=('current_schema', 'current_field_key')):
    """Field errors are created while a field of some schema is processed."""
    for v in n:
        h.assume(z3.Not(Val.is_vunset(z3.Const('cv0!' + v, Val))))
