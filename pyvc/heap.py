"""Persistent symbolic memory: attribute maps, dictionaries/sets and lists.

Everything is an immutable chain of updates; reading builds an If-term over the updates, the bottom
is an uninterpreted function.  No z3 arrays and no quantifiers are needed."""
import z3
from .vals import *

_I, _Bo = z3.IntSort(), z3.BoolSort()
_cnt = [0]


def is_fresh_id(i):
    """Ids of objects allocated during the run: numerals 1..INTERN_BASE-1, or alloc-symbol + offset."""
    if z3.is_int_value(i):
        return 1 <= i.as_long() < INTERN_BASE
    root = i
    while z3.is_app(root) and root.decl().kind() == z3.Z3_OP_ADD:
        nn = [c for c in root.children() if not z3.is_int_value(c)]
        if len(nn) != 1:
            return False
        root = nn[0]
    return z3.is_const(root) and root.decl().name().startswith('alloc!')


def is_lit_id(i):
    return z3.is_int_value(i) and i.as_long() >= INTERN_BASE


def fresh_root(i):
    """(root symbol name, offset) of a fresh id"""
    if z3.is_int_value(i):
        return ('', i.as_long())
    off, root = 0, i
    while z3.is_app(root) and root.decl().kind() == z3.Z3_OP_ADD:
        nn = [c for c in root.children() if not z3.is_int_value(c)]
        off += sum(c.as_long() for c in root.children() if z3.is_int_value(c))
        if len(nn) != 1:
            return None
        root = nn[0]
    return (root.decl().name(), off)


def ids_distinct(i, j):
    """Syntactically distinct object ids."""
    if z3.is_int_value(i) and z3.is_int_value(j):
        return i.as_long() != j.as_long()
    fi, fj = is_fresh_id(i), is_fresh_id(j)
    if fi and fj:
        a, b = fresh_root(i), fresh_root(j)
        return bool(a and b and a[0] == b[0] and a[1] != b[1])
    if fi and is_lit_id(j) or fj and is_lit_id(i):
        return True
    return False


def ite(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


# ----------------------------------------------------------------- attribute maps: id -> Val

class Mem:
    """kind: base(f) | store(prev, idx, val) | havoc(prev, cond(idx), f)"""
    __slots__ = ('kind', 'prev', 'idx', 'val', 'f', 'cond', 'depth')

    def __init__(self, kind, prev=None, idx=None, val=None, f=None, cond=None):
        self.kind, self.prev, self.idx, self.val, self.f, self.cond = kind, prev, idx, val, f, cond
        self.depth = prev.depth + 1 if prev is not None else 0

    def select(self, i):
        if self.kind == 'base':
            return self.f(i)
        if self.kind == 'store':
            if self.idx.eq(i):
                return self.val
            if ids_distinct(self.idx, i):
                return self.prev.select(i)
            return ite(simp(self.idx == i), self.val, self.prev.select(i))
        c = self.cond(i)
        if is_true(c):
            return self.f(i)
        if is_false(c):
            return self.prev.select(i)
        return ite(simp(c), self.f(i), self.prev.select(i))

    def since(self, old):
        """The update nodes between old (exclusive) and self, newest first; None if old is not below."""
        out, m = [], self
        while m is not old:
            if m is None:
                return None
            out.append(m)
            m = m.prev
        return out


# ----------------------------------------------------------------- dictionaries and sets

class Dct:
    """A dictionary or set.
    kind: empty | base | store(k,v) | del(k) | havoc(touched(k), dom, val) | setop(op, other) | popped(inD) | added
    tag: which enumeration/tracking family its keys belong to."""
    __slots__ = ('kind', 'prev', 'k', 'v', 'domf', 'valf', 'touched', 'other', 'tag', 'hook', 'flags', 'depth', 'khint', 'vhint')

    def __init__(self, kind, prev=None, k=None, v=None, domf=None, valf=None, touched=None, other=None,
                 tag=None, hook=None, flags=(), khint=None, vhint=None):
        self.kind, self.prev, self.k, self.v, self.domf, self.valf = kind, prev, k, v, domf, valf
        self.touched, self.other, self.hook, self.flags = touched, other, hook, frozenset(flags)
        self.tag = tag if tag is not None or prev is None else prev.tag
        self.khint = khint if khint is not None or prev is None else prev.khint
        self.vhint = vhint if vhint is not None or prev is None else prev.vhint
        self.depth = prev.depth + 1 if prev is not None else 0

    def since(self, old):
        out, m = [], self
        while m is not old:
            if m is None:
                return None
            out.append(m)
            m = m.prev
        return out

    def dom(self, ex, k):
        n = self.kind
        if n == 'empty':
            return z3.BoolVal(False)
        if n == 'base':
            d = self.domf(k)
            if self.hook is not None:
                ex.fire(('dct', id(self), key(k)), lambda: self.hook(ex, self, k))
            return d
        if n in ('store', 'del'):
            c = key_eq(self.k, k)
            r = z3.BoolVal(n == 'store')
            if is_true(c):
                return r
            if is_false(c):
                return self.prev.dom(ex, k)
            return ite(c, r, self.prev.dom(ex, k))
        if n == 'havoc':
            c = self.touched(k)
            if is_false(c):
                return self.prev.dom(ex, k)
            if self.hook is not None:
                ex.fire(('dct', id(self), key(k)), lambda: self.hook(ex, self, k))
            d, p = self.domf(k), self.prev.dom(ex, k)
            if 'shrink' in self.flags:
                d = z3.And(d, p)
            if 'grow' in self.flags:
                d = z3.Or(d, p)
            return ite(simp(c), d, p)
        if n == 'popped':
            return simp(z3.And(self.prev.dom(ex, k), z3.Not(self.touched(k))))
        if n == 'added':
            return simp(z3.Or(self.prev.dom(ex, k), self.touched(k)))
        if n == 'setop':
            op, other = self.other
            p, q = self.prev.dom(ex, k), other.dom(ex, k)
            return simp({'and': z3.And(p, q), 'diff': z3.And(p, z3.Not(q)), 'or': z3.Or(p, q),
                         'xor': z3.Xor(p, q)}[op])
        raise AssertionError(n)

    def val(self, ex, k):
        """A V (kept as is when the update is hit syntactically) or a Val term."""
        n = self.kind
        if n == 'empty':
            return Val.vunset
        if n == 'base':
            if self.hook is not None:
                ex.fire(('dct', id(self), key(k)), lambda: self.hook(ex, self, k))
            return self.valf(k)
        if n == 'store':
            c = key_eq(self.k, k)
            if is_true(c):
                return self.v
            if is_false(c):
                return self.prev.val(ex, k)
            return ite(c, ex.term(self.v), ex.term(self.prev.val(ex, k)))
        if n == 'del':
            return self.prev.val(ex, k)
        if n == 'havoc':
            if 'shrink' in self.flags:
                return self.prev.val(ex, k)         # only deletions happened
            c = self.touched(k)
            if is_false(c):
                return self.prev.val(ex, k)
            if self.hook is not None:
                ex.fire(('dct', id(self), key(k)), lambda: self.hook(ex, self, k))
            if is_true(c):
                return self.valf(k)
            return ite(simp(c), self.valf(k), ex.term(self.prev.val(ex, k)))
        if n in ('popped', 'setop'):
            if n == 'setop' and self.other[0] in ('or', 'xor') and self.valf is not None:
                return ite(self.other[1].dom(ex, k), ex.term(self.other[1].val(ex, k)), ex.term(self.prev.val(ex, k)))
            return self.prev.val(ex, k)
        if n == 'added':
            return ite(simp(self.touched(k)), self.valf(k), ex.term(self.prev.val(ex, k)))
        raise AssertionError(n)

    def stored_keys(self):
        out, m = [], self
        while m is not None:
            if m.kind == 'store':
                out.append(m.k)
            m = m.prev
        return out

    def bottom(self):
        m = self
        while m.prev is not None:
            m = m.prev
        return m


def key_eq(a, b):
    if a.eq(b):
        return True
    return simp(a == b)


# ----------------------------------------------------------------- lists and tuples of unknown length

class Seq:
    """A family of unknown elements: n elements, item(ex, j) -> V (index inside 0..n-1)."""
    __slots__ = ('n', 'item', 'tag', 'uid', 'meta')

    def __init__(self, n, item, tag=None, meta=None):
        self.n, self.item, self.tag, self.meta = n, item, tag, meta
        _cnt[0] += 1
        self.uid = _cnt[0]


class Ex:
    """Segment: exactly one element."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Slice:
    """Segment: elements lo..hi-1 of a Seq."""
    __slots__ = ('seq', 'lo', 'hi')

    def __init__(self, seq, lo=None, hi=None):
        self.seq = seq
        self.lo = z3.IntVal(0) if lo is None else lo
        self.hi = seq.n if hi is None else hi

    def count(self):
        return simp(self.hi - self.lo)

    def whole(self):
        return is_true(simp(self.lo == 0)) and self.hi.eq(self.seq.n)


class Any_:
    """Segment: any number of elements, each one drawn from draw(ex) (summary of a loop's appends)."""
    __slots__ = ('n', 'draw', 'uid', 'nonempty_if', 'dom', 'make', 'of', 'fun', 'opaque')

    def __init__(self, n, draw):
        self.n, self.draw = n, draw
        _cnt[0] += 1
        self.uid = _cnt[0]

    def count(self):
        return self.n


class Filt(Any_):
    """Segment: the elements j in lo..hi-1 of a Seq with keep(ex, j), in order."""
    __slots__ = ('seq', 'lo', 'hi', 'keep')

    def __init__(self, ex, seq, lo, hi, keep):
        n = ex.fresh_int('n')
        ex.assume(z3.And(n >= 0, z3.Implies(hi >= lo, n <= hi - lo)))
        super().__init__(n, self.one)
        self.seq, self.lo, self.hi, self.keep = seq, lo, hi, keep

    def one(self, ex):
        j = ex.fresh_int('j')
        ex.assume(z3.And(self.lo <= j, j < self.hi, self.n >= 1))
        ex.assume(self.keep(ex, j))
        return self.seq.item(ex, j)


class Lst:
    """A list value: a tuple of segments."""
    __slots__ = ('segs', 'ehint')

    def __init__(self, segs=(), ehint=None):
        self.segs, self.ehint = tuple(segs), ehint

    def length(self):
        ex = sum(1 for s in self.segs if isinstance(s, Ex))
        unk = [s.count() for s in self.segs if not isinstance(s, Ex)]
        return simp(z3.Sum([z3.IntVal(ex)] + unk)) if unk else z3.IntVal(ex)

    def seg_assumptions(self):
        return [s.count() >= 0 for s in self.segs if not isinstance(s, Ex)]

    def with_prefix(self, old):
        """Number of leading segments shared with old, or None if old is not a prefix."""
        if len(self.segs) >= len(old.segs) and all(a is b for a, b in zip(self.segs, old.segs)):
            return len(old.segs)
        return None
