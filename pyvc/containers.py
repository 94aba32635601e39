"""Models of the built-in containers: iteration, lists, tuples, dictionaries, sets."""
import ast, collections.abc
import z3
from .vals import *
from .heap import *
from .engine import Infeasible, PyRaise, KwRest, NOTFOUND

DICTLIKE = (dict, collections.abc.Mapping, set, frozenset)


def is_dictlike(h):
    return h in (dict, collections.abc.Mapping, set, frozenset)


def is_setlike(h):
    return h in (set, frozenset)


# ------------------------------------------------------------------------------- iteration

def explicit_items(ex, d):
    """Keys of a dictionary that was built from nothing, in insertion order, or None."""
    ops, m = [], d
    while m.kind in ('store', 'del'):
        ops.append(m)
        m = m.prev
    if m.kind != 'empty':
        return None
    keys = []
    for u in reversed(ops):
        hit = None
        for k in keys:
            c = key_eq(k, u.k)
            if is_true(c) or (not is_false(c) and ex.branch(c)):
                hit = k
                break
        if u.kind == 'store' and hit is None:
            keys.append(u.k)
        elif u.kind == 'del' and hit is not None:
            keys = [k for k in keys if k is not hit]
    return keys


def tracked_keys(ex, d):
    out = []
    for tag, k in ex.tracked:
        if tag is None or d.tag is None or tag == d.tag:
            out.append(k)
    return out


def dict_segments(ex, d, make):
    """Segments of an iteration over the keys of d; make(keyterm) -> element V."""
    ks = explicit_items(ex, d)
    if ks is not None:
        return [Ex(make(k)) for k in ks]
    tr = []
    for k in tracked_keys(ex, d):
        if any(is_true(key_eq(k, u)) for u in tr):
            continue
        if ex.branch(d.dom(ex, k)):
            if any((not is_false(key_eq(k, u))) and ex.branch(key_eq(k, u)) for u in tr):
                continue
            tr.append(k)
    alltr = tracked_keys(ex, d)

    def rest(pred):
        n = ex.fresh_int('n')
        ex.assume(n >= 0)

        def dom(e, x):
            c = [zbool(d.dom(e, x))] + [x != t for t in alltr]
            if pred is not None:
                c.append(pred(x))
            return simp(z3.And(c))

        def draw(e):
            x = e.fresh_val('k')
            v = e.mk_hint(x, d.khint)
            e.assume(dom(e, x))
            return make(x)
        s = Any_(n, draw)
        s.dom = dom
        s.make = make
        return s
    if not tr:
        return [rest(None)]
    if len(tr) == 1:
        p = ex.fresh_fun('first', Val, z3.BoolSort())
        return [rest(lambda x: p(x)), Ex(make(tr[0])), rest(lambda x: z3.Not(p(x)))]
    # several tracked keys: any order
    import itertools
    perms = list(itertools.permutations(tr))
    i = ex.choose([z3.BoolVal(True)] * len(perms))
    out = []
    pos = ex.fresh_fun('pos', Val, z3.IntSort())
    for j, k in enumerate(perms[i]):
        out.append(rest(lambda x, j=j: pos(x) == j))
        out.append(Ex(make(k)))
    nn = len(perms[i])
    out.append(rest(lambda x: z3.Or(pos(x) < 0, pos(x) >= nn)))
    return out


def split_slice(ex, s, base=None):
    """Split a slice of an unknown sequence at the tracked indices (a range, starting at base: at every tracked index)."""
    out, done = [s], set()
    for tag, j in ex.tracked_idx:
        if base is not None:
            j = simp(j - base)
            if key(j) in done:
                continue
            done.add(key(j))
        elif tag is not None and tag != s.seq.tag and tag != s.seq.uid:
            continue
        new = []
        for x in out:
            if isinstance(x, Slice) and ex.branch(z3.And(x.lo <= j, j < x.hi)):
                new += [Slice(x.seq, x.lo, j), Ex(x.seq.item(ex, j)), Slice(x.seq, simp(j + 1), x.hi)]
            else:
                new.append(x)
        out = new
    return out


def list_segments(ex, segs):
    out = []
    for s in segs:
        if isinstance(s, Slice):
            out += split_slice(ex, s)
        elif isinstance(s, Filt):
            out += split_filter(ex, s)
        else:
            out.append(s)
    return out


def split_filter(ex, s):
    out = [s]
    for tag, j in ex.tracked_idx:
        if tag is not None and tag != s.seq.tag and tag != s.seq.uid:
            continue
        new = []
        for x in out:
            if isinstance(x, Filt) and ex.branch(z3.And(x.lo <= j, j < x.hi)):
                new.append(Filt(ex, x.seq, x.lo, j, x.keep))
                if ex.branch(x.keep(ex, j)):
                    new.append(Ex(x.seq.item(ex, j)))
                new.append(Filt(ex, x.seq, simp(j + 1), x.hi, x.keep))
            else:
                new.append(x)
        out = new
    return out


def index_in(ex, seq, x):
    """The index of x in seq when it is one of its items, syntactically."""
    t = ex.term(x)
    if isinstance(x, T) and z3.is_app(t) and t.decl().name().startswith('item') and t.num_args() == 2 and seq.meta and \
            seq.meta.get('id') is not None and t.arg(0).eq(seq.meta['id']):
        return t.arg(1)
    return None


def map_segments(ex, segs, f):
    """Apply f(element, position term or None) lazily to all elements of segments."""
    out, pos = [], z3.IntVal(0)
    for s in segs:
        if isinstance(s, Ex):
            out.append(Ex(f(s.v, simp(pos))))
            pos = pos + 1
        elif isinstance(s, Slice):
            off = simp(pos - s.lo)
            seq = Seq(s.seq.n, lambda e, j, s=s, off=off: f(s.seq.item(e, j), simp(off + j)), tag=s.seq.tag)
            out.append(Slice(seq, s.lo, s.hi))
            pos = pos + s.count()
        else:
            def draw(e, s=s, pos=pos):
                v = s.draw(e)
                p = e.fresh_int('pos')
                e.assume(z3.And(p >= pos, p < pos + s.n))
                return f(v, p)
            a = Any_(s.n, draw)
            if hasattr(s, 'dom'):
                a.dom = s.dom
            out.append(a)
            pos = pos + s.n
    return out


def segments(ex, v):
    if isinstance(v, Tup):
        return [Ex(x) for x in v.items]
    if isinstance(v, C):
        if isinstance(v.o, (tuple, list)):
            return [Ex(ex.wrap(x)) for x in v.o]
        if isinstance(v.o, str):
            return [Ex(C(x)) for x in v.o]
        if v.o is None or isinstance(v.o, (int, float, bool)):
            ex.raise_(TypeError, C('not iterable'))
        if isinstance(v.o, (dict, set, frozenset)):
            return [Ex(ex.wrap(x)) for x in v.o]
    if isinstance(v, Rng):
        lo, hi = simp(v.lo), simp(v.hi)
        if z3.is_int_value(lo) and z3.is_int_value(hi) and hi.as_long() - lo.as_long() < 64:
            return [Ex(C(i)) for i in range(lo.as_long(), hi.as_long())]
        n = ex.fresh_int('n')
        ex.assume(n == z3.If(hi > lo, hi - lo, 0))
        return split_slice(ex, Slice(Seq(n, lambda e, j: e.unterm(Val.vint(simp(lo + j))))), lo)
    if isinstance(v, View):
        if v.started:
            raise Unsupported('a generator that has started')
        if v.kind == 'keys':
            return segments(ex, v.src)
        if v.kind in ('items', 'values'):
            d = ex.get_dict(v.src)

            def make(k, d=d, items=v.kind == 'items'):
                kv = ex.mk_hint(k, d.khint)
                val = ex.dict_value(d, k)
                return Tup([kv, val]) if items else val
            return dict_segments(ex, d, make)
        if v.kind == 'enumerate':
            base = segments(ex, v.src)
            start = v.extra
            return map_segments(ex, base, lambda el, p: Tup([ex.unterm(Val.vint(simp(p + start))), el]))
        if v.kind == 'reversed':
            return list(reversed([rev_seg(ex, s) for s in segments(ex, v.src)]))
        if v.kind == 'zip':
            r = zip_unknown(ex, v.src)
            return r if r is not None else zip_segments(ex, [segments(ex, s) for s in v.src])
        if v.kind == 'map':
            f = v.extra
            return map_segments(ex, segments(ex, v.src), lambda el, p: ex.call(f, [el], {}))
        if v.kind == 'gen':
            l = ex.e_ListComp(v.src, v.extra)
            return list(ex.get_list(l).segs)
        if v.kind == 'segs':
            return list(v.src)
    if isinstance(v, T):
        v = ex.narrow(v)
        if not isinstance(v, T):
            return segments(ex, v)
        if v.hint is list:
            return list_segments(ex, ex.get_list(v).segs)
        if v.hint is tuple:
            return split_slice(ex, Slice(ex.tuple_seq(v)))
        if is_dictlike(v.hint):
            d = ex.get_dict(v)
            return dict_segments(ex, d, lambda k, d=d: ex.mk_hint(k, d.khint))
        if v.hint is None:
            # one of several classes that the path has tested for
            for cls in (list, tuple, set, frozenset, dict):
                if cls in ex.st.inst_q.get(key(v.t), {}) and ex.branch(ex.inst_term(v.t, cls)):
                    return segments(ex, ex.narrow(v))
        if v.hint is None or v.hint is str or v.hint in (collections.abc.Iterable, collections.abc.Sequence, collections.abc.Collection):
            return unknown_iter(ex, v)
    raise Unsupported(f'iteration over {v}')


def unknown_iter(ex, v):
    """Iteration over a value of unknown type."""
    f = z3.Function('iterable', Val, z3.BoolSort())
    if v.hint is None and not ex.branch(f(v.t)):
        ex.raise_(TypeError, C('not iterable'))
    # membership view when keys are tracked (a set/sequence of keys)
    if ex.tracked and (v.meta or {}).get('bag'):
        df = z3.Function('inbag', Val, Val, z3.BoolSort())
        d = Dct('base', domf=lambda k: df(v.t, k), valf=lambda k: Val.vnone)
        return dict_segments(ex, d, lambda k: ex.mk(k))
    n = z3.Function('itlen', Val, z3.IntSort())(v.t)
    ex.assume(n >= 0)
    it = z3.Function('ititem', Val, z3.IntSort(), Val)
    eh = (v.meta or {}).get('ehint') or (str if v.hint is str else None)
    elem = (v.meta or {}).get('elem')

    def item(e, j):
        x = e.mk(it(v.t, j), eh)
        if elem is not None:
            e.fire(('elem', key(v.t), key(j)), lambda: elem(e, x, j))
        return x
    memo = ex.__dict__.setdefault('uiter_memo', {})
    if key(v.t) not in memo:
        memo[key(v.t)] = Seq(n, item, tag=(v.meta or {}).get('tag'))
    return split_slice(ex, Slice(memo[key(v.t)]))


def rev_seg(ex, s):
    if isinstance(s, Ex):
        return s
    if isinstance(s, Slice):
        lo, hi = s.lo, s.hi
        return Slice(Seq(s.count(), lambda e, j: s.seq.item(e, simp(hi - 1 - j))))
    return s


def zip_raw(ex, v):
    """The one unsplit slice an iterable consists of, or None."""
    if isinstance(v, T):
        v = ex.narrow(v)
    if not (isinstance(v, T) and v.hint in (list, tuple)):
        return None
    segs = ex.get_list(v).segs if v.hint is list else [Slice(ex.tuple_seq(v))]
    return segs[0] if len(segs) == 1 and isinstance(segs[0], Slice) else None


def zip_unknown(ex, srcs):
    """zip of sequences which are one slice each: pairs up to the shortest, split at the tracked indices."""
    parts = [zip_raw(ex, s) for s in srcs]
    if not parts or any(p is None for p in parts):
        return None
    n = ex.fresh_int('n')
    cs = [p.count() for p in parts]
    ex.assume(z3.And([n <= c for c in cs] + [z3.Or([n == c for c in cs])]))
    out = [Slice(Seq(n, lambda e, j: Tup([p.seq.item(e, simp(p.lo + j)) for p in parts])))]
    done = []
    for tag, j in ex.tracked_idx:
        for p in parts:
            at = simp(j - p.lo)
            if (tag is not None and tag != p.seq.tag and tag != p.seq.uid) or any(at.eq(d) for d in done):
                continue
            done.append(at)
            new = []
            for x in out:
                if isinstance(x, Slice) and ex.branch(z3.And(x.lo <= at, at < x.hi)):
                    new += [Slice(x.seq, x.lo, at), Ex(x.seq.item(ex, at)), Slice(x.seq, simp(at + 1), x.hi)]
                else:
                    new.append(x)
            out = new
    return out


def zip_segments(ex, parts):
    if all(all(isinstance(s, Ex) for s in p) for p in parts):
        return [Ex(Tup([s.v for s in t])) for t in zip(*parts)]
    if all(len(p) == 1 and isinstance(p[0], Slice) for p in parts):
        n = ex.fresh_int('n')
        cs = [p[0].count() for p in parts]
        ex.assume(z3.And([n <= c for c in cs] + [z3.Or([n == c for c in cs])]))
        return [Slice(Seq(n, lambda e, j: Tup([p[0].seq.item(e, simp(p[0].lo + j)) for p in parts])))]
    raise Unsupported('zip of unknown sequences')


# ------------------------------------------------------------------------------- lists

def norm_segs(ex, segs):
    """Drop empty slices, merge adjacent ones."""
    out = []
    for s in segs:
        if isinstance(s, Slice) and is_true(simp(s.lo >= s.hi)):
            continue
        if out and isinstance(s, Slice) and isinstance(out[-1], Slice) and out[-1].seq is s.seq and is_true(simp(out[-1].hi == s.lo)):
            out[-1] = Slice(s.seq, out[-1].lo, s.hi)
            continue
        out.append(s)
    return out


def list_len(ex, v):
    l = ex.get_list(v)
    for a in l.seg_assumptions():
        ex.assume(a)
    return l.length()


def index_list(ex, segs, j, write=False):
    """(position in segs, element) of index term j (0 <= j < len known); forks over segments."""
    pos = z3.IntVal(0)
    for n, s in enumerate(segs):
        c = z3.IntVal(1) if isinstance(s, Ex) else s.count()
        last = n == len(segs) - 1
        if last or ex.branch(simp(z3.And(j >= pos, j < pos + c))):
            if isinstance(s, Ex):
                return n, s.v, None
            if isinstance(s, Slice):
                at = simp(s.lo + j - pos)
                return n, s.seq.item(ex, at), at
            return n, s.draw(ex), None
        pos = simp(pos + c)
    raise Infeasible()


def norm_index(ex, i, n):
    i = simp(i)
    if ex.branch(simp(i < 0)):
        i = simp(i + n)
        if ex.branch(simp(i < 0)):
            ex.raise_(IndexError, C('index'))
    if not ex.branch(simp(i < n)):
        ex.raise_(IndexError, C('index'))
    return i


def getitem(ex, v, k):
    if isinstance(v, Tup) or isinstance(v, C) and isinstance(v.o, (tuple, list, str)):
        items = list(v.items) if isinstance(v, Tup) else [ex.wrap(x) for x in v.o]
        if isinstance(k, C) and isinstance(k.o, int):
            try:
                return items[k.o]
            except IndexError:
                ex.raise_(IndexError, C('index'))
        i = norm_index(ex, ex.as_int(k), z3.IntVal(len(items)))
        for n, x in enumerate(items):
            if n == len(items) - 1 or ex.branch(i == n):
                return x
        raise Infeasible()
    if isinstance(v, C):
        return ex.reg.type_getitem(ex, v, k)
    if isinstance(v, KwRest):
        raise Unsupported('** subscript')
    if isinstance(v, T):
        v = ex.narrow(v)
        if v.hint is list:
            n = list_len(ex, v)
            i = norm_index(ex, ex.as_int(k), n)
            l = ex.get_list(v)
            return index_list(ex, l.segs, i)[1]
        if v.hint is tuple:
            s = ex.tuple_seq(v)
            i = norm_index(ex, ex.as_int(k), s.n)
            return s.item(ex, i)
        if v.hint in (dict, collections.abc.Mapping):
            d = ex.get_dict(v)
            kt = hash_key(ex, k)
            if ex.branch(d.dom(ex, kt)):
                return ex.dict_value(d, kt)
            ex.raise_(KeyError, k)
        if v.hint is type:
            return ex.reg.type_getitem(ex, v, k)
    raise Unsupported(f'subscript of {v}')


def hash_key(ex, k):
    if isinstance(k, T) and k.hint in (list, dict, set):
        ex.raise_(TypeError, C('unhashable'))
    return ex.term(k)


def setitem(ex, v, k, val):
    if isinstance(v, C) and isinstance(v.o, (list, dict)):
        ex.confine(f'a {type(v.o).__name__} of the module or class', None)
    if isinstance(v, T):
        v = ex.narrow(v)
        if v.hint is dict:
            d = ex.get_dict(v)
            ex.set_dict(v, Dct('store', prev=d, k=hash_key(ex, k), v=val))
            return
        if v.hint is list:
            i = norm_index(ex, ex.as_int(k), list_len(ex, v))
            segs = list(ex.get_list(v).segs)
            n, old, at = index_list(ex, segs, i)
            if isinstance(segs[n], Ex):
                segs[n] = Ex(val)
            elif at is not None:
                s = segs[n]
                segs[n:n + 1] = [Slice(s.seq, s.lo, at), Ex(val), Slice(s.seq, simp(at + 1), s.hi)]
            else:
                raise Unsupported('item assignment')
            ex.set_list(v, Lst(norm_segs(ex, segs)))
            return
        if v.hint in (tuple, str):
            ex.raise_(TypeError, C('item assignment'))
    raise Unsupported(f'item assignment on {v}')


def delitem(ex, v, k):
    if isinstance(v, C) and isinstance(v.o, (list, dict)):
        ex.confine(f'a {type(v.o).__name__} of the module or class', None)
    if isinstance(v, T):
        v = ex.narrow(v)
        if v.hint is dict:
            dict_pop(ex, v, k)
            return
        if v.hint is list and isinstance(k, C) and k.o in (0, -1):
            list_pop(ex, v, k)
            return
        if v.hint is list and ex.kind(k) is int:
            i = norm_index(ex, ex.as_int(k), list_len(ex, v))
            segs = list(ex.get_list(v).segs)
            n, old, at = index_list(ex, segs, i)
            if isinstance(segs[n], Ex):
                del segs[n]
            elif at is not None:
                s = segs[n]
                segs[n:n + 1] = [Slice(s.seq, s.lo, at), Slice(s.seq, simp(at + 1), s.hi)]
            else:
                raise Unsupported('del item')
            ex.set_list(v, Lst(norm_segs(ex, segs)))
            return
    raise Unsupported('del item')


def cut(ex, segs, lo, hi):
    """The elements of a rope at positions lo..hi-1 (Python slice bounds)."""
    n = Lst(segs).length()
    for a in Lst(segs).seg_assumptions():
        ex.assume(a)

    def bound(x, default):
        if isinstance(x, C) and x.o is None:
            return default
        i = ex.as_int(x)
        return simp(z3.If(i < 0, z3.If(i + n < 0, 0, i + n), z3.If(i > n, n, i)))
    lo, hi = bound(lo, z3.IntVal(0)), bound(hi, n)
    out, pos = [], z3.IntVal(0)
    for s in segs:
        if isinstance(s, Ex):
            if ex.branch(simp(z3.And(lo <= pos, pos < hi))):
                out.append(s)
            pos = simp(pos + 1)
            continue
        end = simp(pos + s.count())
        if ex.branch(simp(z3.And(lo <= pos, end <= hi))):
            out.append(s)
        elif not ex.branch(simp(z3.Or(lo >= hi, end <= lo, hi <= pos))):
            a, b = simp(z3.If(lo > pos, lo - pos, 0)), simp(z3.If(hi < end, hi - pos, end - pos))
            if isinstance(s, Slice):
                out.append(Slice(s.seq, simp(s.lo + a), simp(s.lo + b)))
            else:
                m = ex.fresh_int('n')
                ex.assume(m == b - a)
                out.append(Any_(m, s.draw))
        pos = end
    return out


def slice_(ex, v, s, fr):
    lo = ex.eval(s.lower, fr) if s.lower else C(None)
    hi = ex.eval(s.upper, fr) if s.upper else C(None)
    st = ex.eval(s.step, fr) if s.step is not None else C(None)
    if not (isinstance(st, C) and st.o in (None, 1, -1)):
        raise Unsupported('slice step')
    if isinstance(v, T):
        v = ex.narrow(v)
    c = lambda x: x.o if isinstance(x, C) and (x.o is None or isinstance(x.o, int)) else NOTFOUND
    if c(lo) is not NOTFOUND and c(hi) is not NOTFOUND:
        if isinstance(v, Tup):
            return Tup(v.items[c(lo):c(hi):st.o])
        if isinstance(v, C) and isinstance(v.o, (str, tuple)):
            return ex.wrap(v.o[c(lo):c(hi):st.o])
    if isinstance(v, T) and v.hint is str:
        return ex.opaque_str()
    if isinstance(v, T) and v.hint in (list, tuple):
        segs = ex.get_list(v).segs if v.hint is list else (Slice(ex.tuple_seq(v)),)
        if st.o == -1:
            if c(lo) is not None or c(hi) is not None:
                raise Unsupported('slice step')
            segs = [rev_seg(ex, x) for x in reversed(list_segments(ex, segs))]
        else:
            segs = cut(ex, segs, lo, hi)
        if v.hint is tuple and all(isinstance(x, Ex) for x in segs):
            return Tup([x.v for x in segs])
        return ex.new_list(segs)      # behaves like the tuple for iteration
    raise Unsupported('slice')


def list_find(ex, v, x):
    """Fork over: not contained (None) or the first occurrence (segs, position, index-in-slice)."""
    segs = list_segments(ex, ex.get_list(v).segs) if False else list(ex.get_list(v).segs)
    for n, s in enumerate(segs):
        if isinstance(s, Ex):
            if ex.branch(ex.reg.eq(ex, s.v, x)):
                return segs, n, None
        elif isinstance(s, Slice):
            j = ex.fresh_int('j')
            it = s.seq.item(ex, j)
            e = zbool(ex.reg.eq(ex, it, x))
            first = [z3.And(s.lo <= j, j < s.hi), e]
            none = []
            known = index_in(ex, s.seq, x)
            for tag, i in ex.tracked_idx + ([(s.seq.uid, known)] if known is not None else []):
                if tag is None or tag == s.seq.tag or tag == s.seq.uid:
                    ei = zbool(ex.reg.eq(ex, s.seq.item(ex, i), x))
                    first.append(z3.Implies(z3.And(s.lo <= i, i < j), z3.Not(ei)))
                    none.append(z3.Implies(z3.And(s.lo <= i, i < s.hi), z3.Not(ei)))
            if ex.choose([z3.And(first), z3.And(none) if none else z3.BoolVal(True)]) == 0:
                return segs, n, j
        elif isinstance(s, Filt):
            j = ex.fresh_int('j')
            e = zbool(ex.reg.eq(ex, s.seq.item(ex, j), x))
            found = z3.And(s.lo <= j, j < s.hi, s.keep(ex, j), e)
            known = index_in(ex, s.seq, x)
            none = z3.BoolVal(True) if known is None else z3.Not(z3.And(s.lo <= known, known < s.hi, s.keep(ex, known)))
            if ex.choose([found, none]) == 0:
                raise Unsupported('first occurrence in a filtered list')
        else:
            raise Unsupported('search in a summarised list')
    return None


def list_remove(ex, v, x):
    r = list_find(ex, v, x)
    if r is None:
        ex.raise_(ValueError, C('list.remove(x): x not in list'))
    segs, n, j = r
    if j is None:
        del segs[n]
    else:
        s = segs[n]
        segs[n:n + 1] = [Slice(s.seq, s.lo, j), Slice(s.seq, simp(j + 1), s.hi)]
    ex.set_list(v, Lst(norm_segs(ex, segs)))
    return C(None)


def list_pop(ex, v, k=None):
    segs = list(ex.get_list(v).segs)
    i = -1 if k is None else k.o
    if segs and i in (0, -1) and isinstance(segs[i], Ex):
        x = segs[i].v
        del segs[i]
        ex.set_list(v, Lst(segs))
        return x
    if not segs:
        ex.raise_(IndexError, C('pop from empty list'))
    if len(segs) == 1 and isinstance(segs[0], Slice) and i in (0, -1):
        s = segs[0]
        if not ex.branch(simp(s.lo < s.hi)):
            ex.raise_(IndexError, C('pop from empty list'))
        at = s.lo if i == 0 else simp(s.hi - 1)
        ns = Slice(s.seq, simp(s.lo + 1), s.hi) if i == 0 else Slice(s.seq, s.lo, at)
        ex.set_list(v, Lst([ns]))
        return s.seq.item(ex, at)
    raise Unsupported('list.pop')


def list_method(ex, v, name):
    def m(f):
        return Model(lambda e, a, k: f(*a, **k), 'list.' + name)
    if name == 'append':
        return m(lambda x: (ex.set_list(v, Lst(ex.get_list(v).segs + (Ex(x),))), C(None))[1])
    if name == 'extend':
        def extend(x):
            segs = segments_nosplit(ex, x)
            ex.set_list(v, Lst(ex.get_list(v).segs + tuple(segs)))
            return C(None)
        return m(extend)
    if name == 'insert':
        def insert(i, x):
            if isinstance(i, C) and i.o == 0:
                ex.set_list(v, Lst((Ex(x),) + ex.get_list(v).segs))
                return C(None)
            raise Unsupported('list.insert')
        return m(insert)
    if name == 'copy':
        return m(lambda: ex.new_list(ex.get_list(v).segs))
    if name == 'clear':
        return m(lambda: (ex.set_list(v, Lst()), C(None))[1])
    if name == 'remove':
        return m(lambda x: list_remove(ex, v, x))
    if name == 'pop':
        return m(lambda k=None: list_pop(ex, v, k))
    if name == 'index':
        def index(x):
            r = list_find(ex, v, x)
            if r is None:
                ex.raise_(ValueError, C('not in list'))
            segs, n, j = r
            pos = Lst(segs[:n]).length()
            if j is not None:
                pos = simp(pos + j - segs[n].lo)
            return ex.unterm(Val.vint(pos))
        return m(index)
    if name == 'reverse':
        def reverse():
            ex.set_list(v, Lst([rev_seg(ex, s) for s in reversed(ex.get_list(v).segs)]))
            return C(None)
        return m(reverse)
    if name == '__len__':
        return m(lambda: ex.unterm(Val.vint(list_len(ex, v))))
    if name == '__contains__':
        return m(lambda x: ex.mkb(contains(ex, v, x)))
    if name == '__iter__':
        return m(lambda: v)
    return None


def segments_nosplit(ex, x):
    """Segments without splitting at tracked indices (for copying)."""
    if isinstance(x, T):
        x = ex.narrow(x)
        if x.hint is list:
            return ex.get_list(x).segs
        if x.hint is tuple:
            return (Slice(ex.tuple_seq(x)),)
    return segments(ex, x)


# ------------------------------------------------------------------------------- dictionaries and sets

def dict_pop(ex, v, k, *default):
    d = ex.get_dict(v)
    kt = hash_key(ex, k)
    if ex.branch(d.dom(ex, kt)):
        r = ex.dict_value(d, kt)
        ex.set_dict(v, Dct('del', prev=d, k=kt))
        return r
    if default:
        return default[0]
    ex.raise_(KeyError, k)


def overlay(ex, base, other):
    """base updated with the entries of the dictionary other (a Dct)."""
    ks = explicit_items(ex, other)
    if ks is not None:
        for k in ks:
            base = Dct('store', prev=base, k=k, v=other.val(ex, k))
        return base
    if base.kind == 'empty':
        return other
    r = Dct('setop', prev=base, other=('or', other))
    r.valf = True
    return r


def to_dct(ex, v):
    if isinstance(v, KwRest):
        if v.rest is not None:
            raise Unsupported('unknown **kwargs as dictionary')
        d = Dct('empty')
        for k, x in v.known.items():
            d = Dct('store', prev=d, k=lit(k), v=x)
        return d
    if isinstance(v, T):
        v = ex.narrow(v)
        if v.hint in (dict, collections.abc.Mapping):
            return ex.get_dict(v)
    raise Unsupported(f'dictionary expected: {v}')


def set_of(ex, v):
    """A Dct for set(v)."""
    if isinstance(v, View) and v.kind == 'keys':
        v = v.src
    if isinstance(v, T):
        v = ex.narrow(v)
        if is_dictlike(v.hint):
            return ex.get_dict(v)
        if v.hint is None or v.hint in (list, tuple, collections.abc.Iterable, collections.abc.Sequence, collections.abc.Collection):
            if v.hint is list and all(isinstance(s, Ex) for s in ex.get_list(v).segs):
                d = Dct('empty')
                for s in ex.get_list(v).segs:
                    d = Dct('store', prev=d, k=ex.term(s.v), v=C(None))
                return d
            # membership of an unknown iterable (its elements are hashable)
            df = z3.Function('inbag', Val, Val, z3.BoolSort())
            return Dct('base', domf=lambda k: df(v.t, k), valf=lambda k: Val.vnone)
    d = Dct('empty')
    for s in segments(ex, v):
        if not isinstance(s, Ex):
            if hasattr(s, 'dom') and d.kind == 'empty':
                raise Unsupported('set of view')
            raise Unsupported('set of unknown sequence')
        d = Dct('store', prev=d, k=hash_key(ex, s.v), v=C(None))
    return d


SETOPS = {'intersection': 'and', 'difference': 'diff', 'union': 'or', 'symmetric_difference': 'xor'}


def mk_setop(ex, op, a, b):
    return Dct('setop', prev=a, other=(op, b), khint=a.khint)


def dict_method(ex, v, name):
    setl = is_setlike(v.hint)

    def m(f):
        return Model(lambda e, a, k: f(*a, **k), 'dict.' + name)
    if setl:
        if name in SETOPS:
            def op(*others):
                d = ex.get_dict(v)
                for o in others:
                    d = mk_setop(ex, SETOPS[name], d, set_of(ex, o))
                return ex.new_dict(d, set)
            return m(op)
        if name in ('intersection_update', 'difference_update', 'update', 'symmetric_difference_update'):
            def opu(*others):
                d = ex.get_dict(v)
                for o in others:
                    d = mk_setop(ex, {'update': 'or'}.get(name) or SETOPS[name[:-7]], d, set_of(ex, o))
                ex.set_dict(v, d)
                return C(None)
            return m(opu)
        if name == 'add':
            return m(lambda x: (ex.set_dict(v, Dct('store', prev=ex.get_dict(v), k=hash_key(ex, x), v=C(None))), C(None))[1])
        if name == 'discard':
            return m(lambda x: (ex.set_dict(v, Dct('del', prev=ex.get_dict(v), k=hash_key(ex, x))), C(None))[1])
        if name == 'remove':
            return m(lambda x: (dict_pop(ex, v, x), C(None))[1])
        if name == 'issubset':
            return m(lambda o: ex.mkb(set_compare(ex, 'LtE', v, o)))
        if name == 'issuperset':
            return m(lambda o: ex.mkb(set_compare(ex, 'GtE', v, o)))
    else:
        if name in ('keys', 'values', 'items'):
            return m(lambda: View(name, v))
        if name == 'get':
            def get(k, default=C(None)):
                d = ex.get_dict(v)
                kt = hash_key(ex, k)
                return ex.dict_value(d, kt) if ex.branch(d.dom(ex, kt)) else default
            return m(get)
        if name == 'pop':
            return m(lambda k, *dflt: dict_pop(ex, v, k, *dflt))
        if name == 'setdefault':
            def setdefault(k, default=C(None)):
                d = ex.get_dict(v)
                kt = hash_key(ex, k)
                if ex.branch(d.dom(ex, kt)):
                    return ex.dict_value(d, kt)
                ex.set_dict(v, Dct('store', prev=d, k=kt, v=default))
                return default
            return m(setdefault)
        if name == 'update':
            def update(*a, **kw):
                d = ex.get_dict(v)
                for x in a:
                    d = overlay(ex, d, to_dct(ex, x))
                for k, x in kw.items():
                    d = Dct('store', prev=d, k=lit(k), v=x)
                ex.set_dict(v, d)
                return C(None)
            return m(update)
        if name == '__getitem__':
            return m(lambda k: getitem(ex, v, k))
        if name == '__setitem__':
            return m(lambda k, x: (setitem(ex, v, k, x), C(None))[1])
    if name == 'copy':
        return m(lambda: ex.new_dict(ex.get_dict(v), set if setl else dict))
    if name == 'clear':
        return m(lambda: (ex.set_dict(v, Dct('empty')), C(None))[1])
    if name == '__contains__':
        return m(lambda x: ex.mkb(contains(ex, v, x)))
    if name == '__len__':
        return m(lambda: ex.unterm(Val.vint(dict_len(ex, ex.get_dict(v)))))
    return None


def dict_len(ex, d):
    ks = explicit_items(ex, d)
    if ks is not None:
        return z3.IntVal(len(ks))
    memo = ex.st.fired.get(('dlen', id(d)))
    if memo:
        return memo[0]
    n = ex.fresh_int('len')
    ne = zbool(ex.dict_nonempty(d))
    ex.assume(z3.And(n >= 0, ne == (n > 0)))
    ex.st.fired[('dlen', id(d))] = (n, d)
    return n


def tuple_method(ex, v, name):
    if name in ('index', 'count'):
        return Model(lambda e, a, k: e.unterm(Val.vint(e.fresh_int('idx'))), name)
    if name == '__len__':
        return Model(lambda e, a, k: e.unterm(Val.vint(e.tuple_seq(v).n)), name)
    return None


def container_method(ex, v, name):
    if v.hint is list:
        r = list_method(ex, v, name)
    elif v.hint is tuple:
        r = tuple_method(ex, v, name)
    else:
        r = dict_method(ex, v, name)
    if r is None:
        if hasattr(v.hint, name):
            raise Unsupported(f'method {v.hint.__name__}.{name}')
        return None
    return r


def contains(ex, c, x):
    """x in c"""
    if isinstance(c, View) and c.kind == 'keys':
        c = c.src
    if isinstance(c, Tup):
        return ex.disj([ex.disj([ex.is_(x, y), ex.reg.eq(ex, x, y)]) for y in c.items])
    if isinstance(c, C):
        if isinstance(c.o, (tuple, list, set, frozenset)):
            return ex.disj([ex.disj([ex.is_(x, y), ex.reg.eq(ex, x, y)]) for y in map(ex.wrap, c.o)])
        if isinstance(c.o, str) and isinstance(x, C) and isinstance(x.o, str):
            return x.o in c.o
        if isinstance(c.o, str):
            return ex.fresh_bool('substr')
    if isinstance(c, Rng):
        k = ex.kind(x)
        if k in (int, bool):
            i = ex.as_int(x)
            return simp(z3.And(c.lo <= i, i < c.hi))
        return z3.Function('inrange', Val, z3.IntSort(), z3.IntSort(), z3.BoolSort())(ex.term(x), c.lo, c.hi)
    if isinstance(c, View) and c.kind == 'values':
        raise Unsupported('in values()')
    if isinstance(c, View):
        l = ex.new_list(segments_nosplit(ex, c))
        return contains(ex, l, x)
    if isinstance(c, T):
        c = ex.narrow(c)
        if is_dictlike(c.hint):
            return ex.get_dict(c).dom(ex, hash_key(ex, x))
        if c.hint is list:
            segs = ex.get_list(c).segs
            if all(isinstance(s, Ex) for s in segs):
                return ex.disj([ex.disj([ex.is_(x, s.v), ex.reg.eq(ex, x, s.v)]) for s in segs])
            if any(not isinstance(s, (Ex, Slice, Filt)) for s in segs):
                # a summarised part may or may not have it
                ex.st.fired['imprecise'] = True
                return ex.disj([ex.disj([ex.is_(x, s.v), ex.reg.eq(ex, x, s.v)]) for s in segs if isinstance(s, Ex)] +
                               [z3.And(ex.fresh_bool('member'), z3.Or([s.count() > 0 for s in segs if not isinstance(s, Ex)]))])
            return list_find(ex, c, x) is not None
        if c.hint is tuple:
            # a predicate, related to the elements at tracked indices
            f = z3.Function('intuple', Val, Val, z3.BoolSort())
            r = f(c.t, ex.term(x))
            s = ex.tuple_seq(c)
            for tag, j in ex.tracked_idx:
                if tag is None or tag == s.tag:
                    ex.assume(z3.Implies(z3.And(0 <= j, j < s.n, z3.Or(zbool(ex.is_(s.item(ex, j), x)), zbool(ex.reg.eq(ex, s.item(ex, j), x)))), r))
            w = ex.fresh_int('w')
            ex.assume(z3.Implies(r, z3.And(0 <= w, w < s.n, z3.Or(zbool(ex.is_(s.item(ex, w), x)), zbool(ex.reg.eq(ex, s.item(ex, w), x))))))
            return r
        if c.hint is str:
            return ex.fresh_bool('substr')
        r = z3.Function('inbag', Val, Val, z3.BoolSort())(c.t, ex.term(x))
        ex.assume(z3.Implies(r, ex.truth_term(c.t)))
        return r
    raise Unsupported(f'containment in {c}')


def set_compare(ex, op, a, b):
    """Comparison of sets (subset), or None when they are not sets."""
    def isset(v):
        return isinstance(v, View) and v.kind in ('keys',) or isinstance(v, T) and is_setlike(v.hint)
    if not (isset(a) and (isset(b) or isinstance(b, T))):
        return None
    if op in ('GtE', 'Gt'):
        return set_compare(ex, {'GtE': 'LtE', 'Gt': 'Lt'}[op], b, a)
    if op == 'Lt':
        raise Unsupported('strict subset')
    da, db = set_of(ex, a), set_of(ex, b)
    p = ex.fresh_bool('subset')
    for k in uniq_terms([k for _, k in ex.tracked] + da.stored_keys() + db.stored_keys()):
        ex.assume(z3.Implies(p, z3.Implies(da.dom(ex, k), db.dom(ex, k))))
    w = ex.fresh_val('w')
    ex.mk_hint(w, da.khint)
    ex.assume(z3.Implies(z3.Not(p), z3.And(da.dom(ex, w), z3.Not(db.dom(ex, w)))))
    return p


def uniq_terms(ts):
    out = []
    for t in ts:
        if not any(t.eq(u) for u in out):
            out.append(t)
    return out


# ------------------------------------------------------------------------------- comparing ropes

def ropes_equal(ex, a, b):
    """Provably the same elements in the same order (the same objects)."""
    a, b = norm_segs(ex, [s for s in a if not empty_seg(ex, s)]), norm_segs(ex, [s for s in b if not empty_seg(ex, s)])
    a, b = merge_exact(ex, a), merge_exact(ex, b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if type(x) is not type(y):
            return False
        if isinstance(x, Ex):
            if not ex.must(zbool(ex.is_(x.v, y.v))):
                return False
        elif isinstance(x, Slice):
            if x.seq is not y.seq or not ex.must(z3.And(x.lo == y.lo, x.hi == y.hi)):
                return False
        elif x is not y:
            return False
    return True


def empty_seg(ex, s):
    return not isinstance(s, Ex) and ex.must(s.count() <= 0)


def merge_exact(ex, segs):
    """Turn elements s[j] next to slices of s back into slices."""
    out = []
    for s in segs:
        if out and isinstance(out[-1], Slice) and isinstance(s, Slice) and s.seq is out[-1].seq and ex.must(s.lo == out[-1].hi):
            out[-1] = Slice(s.seq, out[-1].lo, s.hi)
        elif out and isinstance(out[-1], Slice) and isinstance(s, Ex) and isinstance(s.v, T) and \
                ex.term(out[-1].seq.item(ex, out[-1].hi)).eq(s.v.t):
            out[-1] = Slice(out[-1].seq, out[-1].lo, simp(out[-1].hi + 1))
        else:
            out.append(s)
    return out
