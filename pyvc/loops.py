"""Loops: the set of elements is split at the tracked elements; the remaining (arbitrarily many) iterations
are summarised by an inductive invariant that is inferred from the body and checked on every path of it."""
import ast, collections.abc
import z3
from .vals import *
from .heap import *
from .engine import (Infeasible, ReturnSig, BreakSig, ContinueSig, PyRaise, FoundSig, Frame)

EXITS = (PyRaise, ReturnSig, BreakSig, FoundSig)


def for_loop(ex, it, bind, body, orelse, fr, label):
    broke = False
    segs = ex.reg.segments(ex, it)
    for s in segs:
        if isinstance(s, Ex):
            bind(s.v)
            try:
                body()
            except ContinueSig:
                pass
            except BreakSig:
                broke = True
                break
        else:
            try:
                summarise(ex, s, bind, body, label)
            except BreakSig:
                broke = True
                break
    if not broke and orelse is not None:
        orelse()


def while_loop(ex, s, fr):
    """A while loop is a summarised loop whose generic iteration assumes the condition."""
    class W:
        n = None

        @staticmethod
        def draw(e):
            if not e.branch(e.truth(e.eval(s.test, fr))):
                raise Infeasible()
            return C(None)
    # concrete unrolling while the condition is decided
    n = 0
    while True:
        t = ex.truth(ex.eval(s.test, fr))
        if isinstance(t, bool) or is_true(simp(t)) or is_false(simp(t)):
            if not ex.branch(t):
                ex.exec_block(s.orelse, fr)
                return
            n += 1
            if n > 300:
                raise Unsupported('while loop')
            try:
                ex.exec_block(s.body, fr)
            except ContinueSig:
                pass
            except BreakSig:
                return
            continue
        break
    seg = Any_(ex.fresh_int('n'), W.draw)
    ex.st.fired['imprecise'] = True         # its iterations are not related to the tracked elements
    try:
        summarise(ex, seg, lambda v: None, lambda: ex.exec_block(s.body, fr), id(s))
    except BreakSig:
        return
    if ex.branch(ex.truth(ex.eval(s.test, fr))):
        raise Infeasible()
    ex.exec_block(s.orelse, fr)


def draw_element(ex, seg):
    if isinstance(seg, Slice):
        ex.priors = []
        j, ex.cut = ex.cut if ex.cut is not None else ex.fresh_int('j'), None
        ex.assume(z3.And(seg.lo <= j, j < seg.hi))
        ex.draw_sym = j
        return seg.seq.item(ex, j)
    ex.assume(seg.n > 0)
    priors, ex.priors = ex.priors, []
    v = seg.draw(ex)
    k = iter_key(ex, v) if getattr(seg, 'dom', None) is not None else None
    if k is not None:
        for p in priors:
            ex.assume(z3.Not(p(k)))
    ex.draw_sym = k if k is not None and z3.is_const(k) and k.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
    return v


# ------------------------------------------------------------------------------------------- inference

class Inv:
    """What an iteration may change (everything else is unchanged by every iteration)."""

    def __init__(self):
        self.locals = {}     # (fid, name) -> kind: 'val' | 'bool' | 'int' | 'new'
        self.cvars = set()
        self.ghosts = {}     # name -> 'any' | 'ge'
        self.attrs = {}      # name -> {'cells': [idx], 'all': bool, 'keep': [idx] proven untouched}
        self.dicts = {}      # key -> {'iter': bool (only at the iteration's key), 'frozen': [k], 'flags', 'final': 'in'|'out'|None}
        self.lists = {}      # key -> 'append' | 'any'
        self.alloc = False
        self.together = True   # attributes set for the first time are set together
        self.rel = []        # extra inductive facts: callables(state) -> formula, see relations()
        self.wild = False      # iterations modify containers that earlier ones allocated
        self.newlists = set()
        self.newdicts = set()

    def signature(self):
        return (tuple(sorted(map(repr, self.locals.items()))), tuple(sorted(map(repr, self.cvars))), tuple(sorted(self.ghosts.items())),
                tuple(sorted((k, v['all'], v['unset'], key(v['val']) if z3.is_expr(v.get('val')) else v.get('val'), tuple(key(i) for i in v['cells'])) for k, v in self.attrs.items())),
                tuple(sorted((k, v['iter'], tuple(key(x) for x in v['frozen']), tuple(sorted(v['flags'])), v['final'], v['all']) for k, v in self.dicts.items())),
                tuple(sorted(self.lists.items())), self.alloc, self.together, self.wild, len(self.rel))


_APPS = {}


def apps(t):
    """Uninterpreted symbols of a term: name -> an application of it."""
    k = key(t)
    r = _APPS.get(k)
    if r is None:
        r = {}
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r[t.decl().name()] = t
            for c in t.children():
                for n, x in apps(c).items():
                    r.setdefault(n, x)
        _APPS[k] = r
    return r


def symbols(t):
    """Names of the uninterpreted symbols of a term."""
    return apps(t).keys()


def invariant_term(t, ns):
    return not any(ns in n for n in symbols(t))


def summarise(ex, seg, bind, body, label):
    if isinstance(seg, Slice):
        if is_true(simp(seg.lo >= seg.hi)) or not ex.may(seg.lo < seg.hi):
            return
    elif seg.n is not None and not ex.may(seg.n > 0):
        return
    ex.st.loopno += 1
    ck = (ex.ctx, tuple(ex.trace[:ex.pos]), ex.st.loopno, label)
    if ck not in ex.loop_cache:
        saved = ex.log, ex.lpos
        ex.log = None                     # queries of the inference are not replayed
        try:
            ex.loop_cache[ck] = infer(ex, seg, bind, body, (label, ex.in_infer))
        finally:
            ex.log, ex.lpos = saved
    inv, exits, summ = ex.loop_cache[ck]       # exits: an iteration may leave the loop, or has obligations
    pre = ex.st.copy()
    # either some iteration leaves the loop ...
    if exits and ex.choose([z3.BoolVal(True), z3.BoolVal(True)]) == 1:
        havoc(ex, inv, pre, seg, mid=True)
        run_generic(ex, seg, bind, body)        # exits by exception; a normal end is not this alternative
        raise Infeasible()
    # ... or all of them complete
    havoc(ex, inv, pre, seg, mid=False, summ=summ)


def run_generic(ex, seg, bind, body):
    v = draw_element(ex, seg)
    bind(v)
    try:
        body()
    except ContinueSig:
        pass
    return v


def infer(ex, seg, bind, body, label=None):
    pre = ex.st.copy()
    inv = Inv()
    if label in ex.warm:
        inv = rebase(ex, ex.warm[label], pre)
    outer_ns = ex.ns
    obl0, ex.infer_obliges = ex.infer_obliges, False
    ex.in_infer += 1
    try:
        for rnd in range(12):
            ex.nsn += 1
            ns = f'@{ex.nsn}@'
            ends, exits = [], []

            def run():
                ex.ns = outer_ns + ns
                base = ex.st
                havoc(ex, inv, pre, seg, mid=True)
                start = ex.st.copy()
                nass = len(ex.solver.assertions())
                v = draw_element(ex, seg)
                sym = ex.draw_sym
                bind(v)
                try:
                    try:
                        body()
                    except ContinueSig:
                        pass
                except EXITS:
                    exits.append(1)
                    return
                d = analyse(ex, inv, pre, start, seg, v, ns, nass)
                d['sym'] = sym
                ends.append(d)
            saved_rec = ex.obligations
            ex.obligations = []
            try:
                ex.explore(run)
            finally:
                ex.ns = outer_ns
                ex.obligations = saved_rec
            new = weaken(ex, inv, pre, ends, ns)
            if new is None:
                break
            inv = new
        else:
            raise Unsupported('loop invariant inference did not converge')
    finally:
        ex.in_infer -= 1
        exits_ = ex.infer_obliges
        ex.infer_obliges = obl0 or exits_
    ex.warm[label] = (inv, pre)
    summ = summary(ex, inv, pre, ends, ns, seg)
    return inv, bool(exits) or exits_, summ


def rebase(ex, old, pre):
    """The invariant found for this loop on another path, as the first candidate here (it is checked like any other)."""
    inv0, pre0 = old
    ids = {}

    def same(a, b):
        if isinstance(a, V):
            a, b = (x.t if isinstance(x, T) else None for x in (a, b))
        if a is None or b is None or not all(z3.is_app(x) and x.decl().eq(Val.vobj) for x in (a, b)):
            return
        i, j = a.arg(0), b.arg(0)
        if is_fresh_id(i) and is_fresh_id(j):
            ids[key(i)] = j
    for fid, env in pre0.frames.items():
        for n, v in env.items():
            w = pre.frames.get(fid, {}).get(n)
            if w is not None:
                same(v, w)
    for _ in range(2):
        for n, m in pre0.attrs.items():
            m1 = pre.attrs.get(n)
            if m1 is None:
                continue
            for i, v in newest_stores(m):
                j = ids.get(key(i), None if is_fresh_id(i) else i)
                if j is None:
                    continue
                for i2, v2 in newest_stores(m1):
                    if i2.eq(j):
                        same(v, v2)
                        break
    move = lambda i: i if not is_fresh_id(i) else ids.get(key(i))
    inv = Inv()
    inv.locals = {k: v for k, v in inv0.locals.items() if k[0] in pre.frames}
    inv.together, inv.wild = inv0.together, inv0.wild
    inv.cvars, inv.ghosts, inv.alloc = set(inv0.cvars), {g: v for g, v in inv0.ghosts.items() if g in pre.ghost}, inv0.alloc
    for n, a in inv0.attrs.items():
        inv.attrs[n] = {'all': a['all'], 'unset': a['unset'], 'val': a.get('val'), 'cells': [j for j in map(move, a['cells']) if j is not None]}
    for k, a in inv0.dicts.items():
        j = move(a['id'])
        if j is None or ('@' in str(j)):
            continue
        d = pre.dicts.get(key(j), (j, ex.base_dict(j, {})))[1]
        frozen = uniq([t for tag, t in ex.tracked if tag is None or d.tag is None or tag == d.tag] + list(d.stored_keys()))
        inv.dicts[key(j)] = dict(a, id=j, frozen=[] if a['all'] else frozen)
    inv.list_ids = {}
    lk = {}
    for k, kind in inv0.lists.items():
        i = inv0.list_ids[k]
        j = move(i)
        if j is None or ('@' in str(j)):
            continue
        inv.lists[key(j)] = kind
        inv.list_ids[key(j)] = j
    cands = set()
    for c in getattr(inv0, 'cands', ()):
        if c[0] == 'user':
            if ex.must(rel_formula(ex, pre, c)):
                cands.add(c)
            continue
        b, k, r = c
        i = pre0.lists[k][0] if k in pre0.lists else None
        j = move(i) if i is not None else None
        if j is not None and key(j) in pre.lists and b[0] in pre.frames:
            c = (b, key(j), r)
            if ex.must(rel_formula(ex, pre, c)):
                cands.add(c)
    inv.cands = cands
    return inv


def analyse(ex, inv, pre, start, seg, v, ns, nass):
    """Differences between the end and the start of one iteration on the current path (solver state included)."""
    st = ex.st
    d = {'locals': {}, 'cvars': set(), 'ghosts': {}, 'attrs': {}, 'dicts': {}, 'lists': {}, 'alloc': False, 'rel': None}
    for fid, env in pre.frames.items():
        s0, s1 = start.frames.get(fid, {}), st.frames.get(fid)
        if s1 is None:
            continue
        for n in set(s0) | set(s1):
            a, b = s0.get(n), s1.get(n)
            if a is b:
                continue
            if a is not None and b is not None and same_v(ex, a, b):
                continue
            d['locals'][(fid, n)] = kind_of(ex, b)
    for n in set(st.cvars) | set(start.cvars):
        a, b = [x.cvars.get(n) or T(z3.Const('cv0!' + n, Val)) for x in (start, st)]
        if a is not b and not (a is not None and b is not None and same_v(ex, a, b)):
            d['cvars'].add(n)
    for n in set(st.ghost) | set(start.ghost):
        a, b = start.ghost.get(n), st.ghost.get(n)
        if a is not b and not (a is not None and a.eq(b)) and not ex.must(a == b):
            d['ghosts'][n] = 'any'
    bound0, unsets = alloc_of(start), []
    d['loose'] = set()       # attributes of objects that earlier iterations allocated are modified
    for n, m in st.attrs.items():
        m0 = start.attrs.get(n)
        if m0 is None:
            m0 = ex.mem_memo[n]
        if m is m0:
            continue
        cells, all_, unset, uval = [], False, False, None
        nodes = m.since(m0)
        if nodes is None:
            all_, nodes = True, []
        for u in nodes:
            if u.kind == 'store':
                i = u.idx
                if is_new_here(ex, i, ns, start):
                    continue
                if invariant_term(i, ns):
                    if same_after(ex, m, m0, i):
                        continue
                    cells.append(i)
                else:
                    if ex.must(z3.And(i >= bound0, i < INTERN_BASE)):
                        d['loose'].add(n)
                        continue
                    if ex.reg.unset_term is not None and ex.must(m0.select(i) == ex.reg.unset_term):
                        unset = True
                        unsets.append((n, i))
                        w = simp(m.select(i))
                        uval = w if invariant_term(w, ns) and (uval is None or (uval is not False and uval.eq(w))) else False
                        continue
                    all_ = True
            else:
                # inner summary: cells it names, or everything
                for i in getattr(u.cond, 'cells', ()):
                    if is_new_here(ex, i, ns, start):
                        continue
                    if invariant_term(i, ns):
                        cells.append(i)
                    elif not ex.must(z3.And(i >= bound0, i < INTERN_BASE)):
                        all_ = True
                    else:
                        d['loose'].add(n)
                if getattr(u.cond, 'all_', True):
                    all_ = True
        if all_:
            d['loose'].add(n)
        d['attrs'][n] = {'cells': cells, 'all': all_, 'unset': unset, 'val': uval}
    # attributes that are set for the first time: are they set together?
    d['together'] = True
    if unsets:
        u = ex.reg.unset_term
        for n in {n for n, _ in unsets}:
            m0, m1 = start.attrs.get(n, ex.mem_memo[n]), st.attrs[n]
            if not all(ex.must(z3.And(m0.select(i) == u, m1.select(i) != u)) for _, i in unsets):
                d['together'] = False
    for k, (i, l) in st.lists.items():
        if inv.lists.get(k) == 'filter':
            tail = filter_step(ex, start.lists[k][1], l, seg, d0cut(start, k))
            d['lists'][k] = (i, 'any') if tail is None else (i, 'filter', tail, l)
            continue
        if k not in start.lists:
            if is_new_here(ex, i, ns, start):
                continue
            l0 = base_of_list(ex, i, l)
            if l0 is None:
                d['lists'][k] = (i, 'any')
                continue
        else:
            l0 = start.lists[k][1]
        if l is l0 or l.segs == l0.segs:
            continue
        if not invariant_term(i, ns):
            wild(ex, d, 'list', i)
            continue
        p = l.with_prefix(l0)
        kind = 'append'
        if p is None:
            kind = 'filter' if k not in inv.lists and filter_of(ex, l0, seg) is not None else 'any'
        d['lists'][k] = (i, kind, l.segs[p:] if p is not None else (), l)
    for k, (i, dd) in st.dicts.items():
        if k not in start.dicts:
            if is_new_here(ex, i, ns, start):
                continue
            d0 = dd.bottom()
        else:
            d0 = start.dicts[k][1]
        if dd is d0:
            continue
        if not invariant_term(i, ns):
            wild(ex, d, 'dict', i)
            continue
        nodes = dd.since(d0)
        if nodes is None:
            d['dicts'][k] = {'id': i, 'all': True, 'writes': [], 'shrink': False, 'grow': False}
            continue
        writes, all_, shrink, grow = [], False, True, True
        for u in nodes:
            if u.kind == 'store':
                writes.append(u.k)
                shrink = False
            elif u.kind == 'del':
                writes.append(u.k)
                grow = False
            elif u.kind == 'popped':
                grow = False
                all_ = True
            else:
                all_, shrink, grow = True, shrink and 'shrink' in u.flags, grow and 'grow' in u.flags
        it = iter_key(ex, v)
        tracked = [t for tag, t in ex.tracked if tag is None or dd.tag is None or tag == dd.tag]
        cand = list(tracked) + [x for x in d0.stored_keys() if invariant_term(x, ns)]
        frozen = []
        for t in uniq(cand):
            if all_:
                c = [zbool(u.touched(t)) if u.touched is not None else z3.BoolVal(True) for u in nodes if u.kind not in ('store', 'del')]
                c += [w == t for w in writes]
            else:
                c = [w == t for w in writes]
            if ex.must(z3.Not(z3.Or(c))) or ex.must(z3.And(dd.dom(ex, t) == d0.dom(ex, t), z3.Implies(
                    d0.dom(ex, t), ex.term(dd.val(ex, t)) == ex.term(d0.val(ex, t))))):
                frozen.append(t)
        onlyiter = (not all_) and it is not None and all(w.eq(it) or ex.must(w == it) for w in writes)
        final = None
        if onlyiter:
            dm = simp(dd.dom(ex, it))
            final = 'in' if ex.must(dm) else 'out' if ex.must(z3.Not(dm)) else None
        d['dicts'][k] = {'id': i, 'all': False, 'writes': writes, 'shrink': shrink, 'grow': grow, 'frozen': frozen,
                         'iter': onlyiter, 'final': final, 'anyhavoc': all_}
    # paths that leave a dictionary alone still matter for 'final'
    d['iterdom'] = {}
    it = iter_key(ex, v)
    if it is not None:
        for k, (i, dd) in st.dicts.items():
            if k in pre.dicts or k in start.dicts:
                dm = dd.dom(ex, it)
                d['iterdom'][k] = 'in' if ex.must(dm) else 'out' if ex.must(z3.Not(dm)) else None
    d['alloc'] = not alloc_of(st).eq(bound0)
    d['rel'] = check_relations(ex, inv, pre, st)
    d['state'] = st
    d['bound0'] = bound0
    d['path'] = list(ex.solver.assertions())[nass:]
    return d


def filter_of(ex, l, seg):
    """Position of the slice of the list that the loop iterates over, if the specification says which elements such loops keep."""
    if not isinstance(seg, Slice) or seg.seq.tag not in ex.opts.get('list_filter', {}):
        return None
    for n, s in enumerate(l.segs):
        if isinstance(s, Slice) and s.seq is seg.seq and ex.must(z3.And(s.lo <= seg.lo, seg.hi <= s.hi)):
            return n
    return None


def filtered(ex, l, seg, cut):
    """The list after the iterations up to index cut."""
    n = filter_of(ex, l, seg)
    s, keep = l.segs[n], ex.opts['list_filter'][seg.seq.tag]
    f = Filt(ex, s.seq, seg.lo, cut, lambda e, j, q=s.seq: keep(e, q.item(e, j)))
    new = [Slice(s.seq, s.lo, seg.lo), f, Slice(s.seq, cut, s.hi)]
    return l.segs[:n] + tuple(x for x in new if not (isinstance(x, Slice) and is_true(simp(x.lo >= x.hi)))) + l.segs[n + 1:]


def d0cut(start, k):
    for s in start.lists[k][1].segs:
        if isinstance(s, Filt):
            cut = s.hi
    return cut


def filter_step(ex, l0, l, seg, cut):
    """The iteration at index cut keeps its element exactly if the filter does, and leaves the others: what it appends (None: no)."""
    n = [i for i, s in enumerate(l0.segs) if isinstance(s, Slice) and s.seq is seg.seq and ex.must(s.lo == cut)]
    if len(n) != 1 or any(a is not b for a, b in zip(l0.segs[:n[0]], l.segs)):
        return None
    n = n[0]
    s, keep = l0.segs[n], zbool(ex.opts['list_filter'][seg.seq.tag](ex, seg.seq.item(ex, cut)))
    if len(l.segs) >= len(l0.segs) and all(a is b for a, b in zip(l0.segs, l.segs)):
        return l.segs[len(l0.segs):] if ex.must(keep) else None
    at, m = simp(cut + 1), n
    while m < len(l.segs) and isinstance(l.segs[m], Slice) and l.segs[m].seq is seg.seq:
        x = l.segs[m]
        if not ex.must(x.lo >= x.hi):
            if not ex.must(x.lo == at):
                break
            at = x.hi
        m += 1
    rest = l0.segs[n + 1:]
    if not ex.must(at == s.hi) or len(l.segs) < m + len(rest) or any(a is not b for a, b in zip(rest, l.segs[m:])):
        return None
    return l.segs[m + len(rest):] if ex.must(z3.Not(keep)) else None


def wild(ex, d, kind, i):
    """An iteration modifies a container of its own (neither allocated in it nor named outside the loop)."""
    if not ex.must(z3.And(i >= 1, i < INTERN_BASE)):
        raise Unsupported(f'loop over containers: every iteration modifies a {kind} of its own')
    d['wild'] = True


def uniq(ts):
    out = []
    for t in ts:
        if not any(t.eq(u) for u in out):
            out.append(t)
    return out


def iter_key(ex, v):
    if isinstance(v, Tup) and v.items:
        v = v.items[0]
    if isinstance(v, (T, C, B, I)):
        return ex.term(v)
    return None


def base_of_list(ex, i, l):
    """The initial content of a pre-existing list first touched in the loop."""
    for s in l.segs[:1]:
        if isinstance(s, Slice) and s.whole() and s.seq.meta and s.seq.meta.get('id') is not None and s.seq.meta['id'].eq(i):
            return Lst([s])
    return None


def alloc_of(st):
    return simp(st.alloc[0] + st.alloc[1])


def is_new_here(ex, i, ns, start):
    """Object allocated during this iteration."""
    if is_fresh_id(i):
        r = fresh_root(i)
        if r is None:
            return False
        root0, off0 = start.alloc
        rn = '' if z3.is_int_value(root0) else root0.decl().name()
        if r[0] == rn:
            return r[1] >= off0 + (root0.as_long() if z3.is_int_value(root0) else 0)
        return ns in r[0]
    return False


def same_after(ex, m, m0, i):
    a, b = m.select(i), m0.select(i)
    return a.eq(b) or ex.must(a == b)


def same_v(ex, a, b):
    if a is b:
        return True
    if isinstance(a, C) and isinstance(b, C):
        return a.o is b.o or (type(a.o) is type(b.o) and isinstance(a.o, (int, str, bool)) and a.o == b.o)
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) == len(b.items) and all(same_v(ex, x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, (T, C, B, I)) and isinstance(b, (T, C, B, I)):
        ta, tb = ex.term(a), ex.term(b)
        return ta.eq(tb) or ex.must(ta == tb)
    return False


def kind_of(ex, v):
    k = ex.kind(v)
    if k in (bool, int):
        return k.__name__
    if isinstance(v, T):
        return ('val', v.hint, v.exact, v.sub)
    return ('val', None, False, None)


def join_kind(a, b):
    if a == b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple):
        h = a[1] if a[1] is b[1] else None
        return ('val', h, a[2] and b[2] and h is not None, a[3] if a[3] is b[3] else None)
    return ('val', None, False, None)


# ------------------------------------------------------------------------------- relational candidates

def bool_locals(pre, ex):
    out = []
    for fid, env in pre.frames.items():
        for n, v in env.items():
            if isinstance(v, C) and isinstance(v.o, bool) or isinstance(v, B):
                out.append((fid, n))
    return out


def empty_lists(pre):
    return [k for k, (i, l) in pre.lists.items() if not l.segs and is_fresh_id(i)]


REL = ('T_empty', 'F_nonempty', 'T_nonempty', 'F_empty')


def relations(ex, pre):
    return [('user', i, 0) for i in range(len(ex.opts.get('loop_inv', ())))] + [(b, k, r) for b in bool_locals(pre, ex) for k in empty_lists(pre) for r in REL]


def rel_formula(ex, st, rel):
    if rel[0] == 'user':
        saved, ex.st = ex.st, st.copy()
        try:
            return zbool(ex.opts['loop_inv'][rel[1]](ex))
        finally:
            ex.st = saved
    (fid, n), k, r = rel
    v = st.frames.get(fid, {}).get(n)
    if v is None or k not in st.lists:
        return z3.BoolVal(True)
    t = ex.truth(v) if isinstance(v, (C, B, T)) else None
    if t is None:
        return z3.BoolVal(False)
    t = zbool(t)
    l = st.lists[k][1]
    ne = z3.BoolVal(True) if any(isinstance(s, Ex) for s in l.segs) else z3.Or([s.count() > 0 for s in l.segs]) if l.segs else z3.BoolVal(False)
    return {'T_empty': z3.Implies(t, z3.Not(ne)), 'F_nonempty': z3.Implies(z3.Not(t), ne),
            'T_nonempty': z3.Implies(t, ne), 'F_empty': z3.Implies(z3.Not(t), z3.Not(ne))}[r]


def check_relations(ex, inv, pre, st):
    """Which candidate relations hold at the end of this iteration."""
    out = set()
    for r in getattr(inv, 'cands', ()):
        f = rel_formula(ex, st, r)
        if ex.must(f):
            out.add(r)
    return out


# ---------------------------------------------------------------------------------------------- havoc

def havoc(ex, inv, pre, seg, mid, summ=None):
    """Replace the state by an arbitrary one reachable by iterations with invariant inv from pre."""
    st = ex.st
    ex.priors = priors = []
    bound = alloc_of(pre)
    if inv.alloc:
        r = z3.Int(ex.fname('alloc'))
        ex.assume(z3.And(r >= bound, r < INTERN_BASE - 100000))
        st.alloc = (r, 0)
    if inv.wild:
        st.version = '~' + ex.fname('v')
    for (fid, n), k in inv.locals.items():
        if fid not in st.frames:
            continue
        env = st.frames[fid]
        if n not in pre.frames[fid]:
            from .vals import UNBOUND
            env[n] = UNBOUND
        elif k == 'bool':
            env[n] = B(ex.fresh_bool(n))
        elif k == 'int':
            env[n] = I(ex.fresh_int(n))
        else:
            t = ex.fresh_val('L:' + n)
            v = T(t, k[1], k[2], k[3])
            env[n] = v
            if k[1] is None:
                ex.assume(z3.Not(Val.is_vunset(t)))
            elif k[1] in (str,):
                ex.assume(Val.is_vstr(t))
            else:
                ex.assume(Val.is_vobj(t))
    for n in inv.cvars:
        st.cvars[n] = T(ex.fresh_val('cv'))
    for n in inv.ghosts:
        g = pre.ghost[n]
        st.ghost[n] = z3.Const(ex.fname('g'), g.sort())
    chg = ex.fresh_fun('chg', z3.IntSort(), z3.BoolSort())
    for n, a in inv.attrs.items():
        m0 = pre.attrs.get(n) or ex.mem_memo[n]
        f = ex.fresh_fun('h:' + n, z3.IntSort(), Val)
        m = m0
        if a['all']:
            cond = lambda i: z3.BoolVal(True)
            cond = Cond(lambda i: z3.BoolVal(True), (), True)
            m = Mem('havoc', prev=m, f=f, cond=cond)
        else:
            if a['unset']:
                # iterations write the attribute of objects that have none yet
                u, g = ex.reg.unset_term, ex.fresh_fun('h:' + n, z3.IntSort(), Val)
                if inv.together:
                    w = a.get('val')
                    if w is not None and w is not False and not ex.must(w == u):
                        g = lambda i, w=w: w
                    m = Mem('havoc', prev=m, f=lambda i, g=g: z3.If(g(i) == u, lit(True), g(i)),
                            cond=Cond(lambda i, m0=m0: simp(z3.And(m0.select(i) == u, chg(i))), (), True))
                else:
                    m = Mem('havoc', prev=m, f=g, cond=Cond(lambda i, m0=m0: simp(m0.select(i) == u), (), True))
            if inv.alloc:
                # objects allocated by earlier iterations
                m = Mem('havoc', prev=m, f=f, cond=Cond(lambda i, bound=bound: fresh_cond(i, bound), (), False))
            for i in a['cells']:
                m = Mem('store', prev=m, idx=i, val=hint_fresh(ex, n, f(i)))
        st.attrs[n] = m
    for k, a in inv.dicts.items():
        i, d0 = pre.dicts.get(k) or (a['id'], ex.base_dict(a['id'], {}))
        df = ex.fresh_fun('hd', Val, z3.BoolSort())
        vf = ex.fresh_fun('hv', Val, Val)
        flags = a['flags']
        frozen = list(a['frozen'])
        touched = (lambda x, frozen=frozen: simp(z3.And([x != t for t in frozen])) if frozen else z3.BoolVal(True))
        if a['all']:
            touched = lambda x: z3.BoolVal(True)
        elif a['iter'] and seg_dom(seg) is not None:
            # iterations change the dictionary at their own key only, and the keys iterated over are distinct
            dm, t0 = seg_dom(seg), touched
            if mid:
                prior = ex.fresh_fun('prior', Val, z3.BoolSort())
                priors.append(prior)
                touched = lambda x, t0=t0, prior=prior: simp(z3.And(t0(x), prior(x), zbool(dm(ex, x))))
            else:
                touched = lambda x, t0=t0: simp(z3.And(t0(x), zbool(dm(ex, x))))
        d = None
        if not mid and not a['all'] and a['iter'] and a['final'] and seg_dom(seg) is not None:
            dom = seg_dom(seg)
            if a['final'] == 'out':
                d = Dct('popped', prev=d0, touched=lambda x: zbool(dom(ex, x)))
            else:
                d = Dct('added', prev=d0, touched=lambda x: zbool(dom(ex, x)), valf=lambda x: vf(x))
        if d is None:
            d = Dct('havoc', prev=d0, domf=lambda x: df(x), valf=lambda x: vf(x), touched=touched, flags=flags)
            iv = ex.opts.get('dict_inv', {}).get(d.tag)
            if iv is not None:
                # a data invariant: obliged at every store (Engine.set_dict)
                d.hook = lambda e, m, x, iv=iv: e.assume(z3.Implies(zbool(m.dom(e, x)), zbool(iv(e, x, e.term(m.val(e, x))))))
        st.dicts[k] = (i, d)
    cut = ex.cut = None
    for k, kind in inv.lists.items():
        if k in pre.lists:
            i, l0 = pre.lists[k]
        else:
            i = inv.list_ids[k]
            l0 = Lst([Slice(ex.base_seq(i))])
        n = ex.fresh_int('n')
        ex.assume(n >= 0)
        if kind == 'filter':
            if mid and cut is None:
                cut = ex.cut = ex.fresh_int('j')
                ex.assume(z3.And(seg.lo <= cut, cut < seg.hi))
            l0 = Lst(filtered(ex, l0, seg, cut if mid else seg.hi))
            kind = 'append'
            st.lists[k] = (i, l0)
            if not mid and summ is not None and summ['appends'].get(k) == (0, 0):
                continue
        if kind == 'append' and not mid and summ is not None and k in summ['maps']:
            st.lists[k] = (i, Lst(l0.segs + (summ['maps'][k],)))
        elif kind == 'append':
            if summ is not None and k in summ['lists']:
                draw = summ['lists'][k]
            else:
                draw = lambda e: e.mk(e.fresh_val('el'))
            a = Any_(n, draw)
            st.lists[k] = (i, Lst(l0.segs + (a,)))
            if not mid and seg_count(seg) is not None and summ is not None and summ['appends'].get(k) is not None:
                lo, hi = summ['appends'][k]
                c = seg_count(seg)
                ex.assume(n >= lo * c)
                if hi is not None:
                    ex.assume(n <= hi * c)
        else:
            st.lists[k] = (i, Lst([Any_(n, lambda e: e.mk(e.fresh_val('el')))]))
    for r in getattr(inv, 'cands', ()):
        ex.assume(rel_formula(ex, st, r))
    if summ is not None:
        ex.st.notes = ex.st.notes + (('loop', summ, {n: st.attrs[n] for n in inv.attrs}),)
        summ_exit_attrs(ex, summ)
        summ['entry_bound'], summ['exit_bound'] = bound, ex.alloc_bound()
    # containers that the iterations allocated privately are unknown afterwards: nothing to do


def hint_fresh(ex, name, t):
    return t


class Cond:
    def __init__(self, f, cells, all_):
        self.f, self.cells, self.all_ = f, cells, all_

    def __call__(self, i):
        return self.f(i)


def fresh_cond(i, bound):
    if is_lit_id(i):
        return z3.BoolVal(False)
    if z3.is_int_value(i) and i.as_long() <= 0:
        return z3.BoolVal(False)
    return simp(z3.And(i >= bound, i < INTERN_BASE))


def seg_dom(seg):
    return getattr(seg, 'dom', None)


def seg_count(seg):
    if isinstance(seg, Slice):
        return seg.count()
    return seg.n


def summ_exit_attrs(ex, summ):
    summ['exit_attrs'] = dict(ex.st.attrs)


# --------------------------------------------------------------------------------------------- weaken

def weaken(ex, inv, pre, ends, ns):
    new = Inv()
    new.locals = dict(inv.locals)
    new.cvars = set(inv.cvars)
    new.ghosts = dict(inv.ghosts)
    new.attrs = {k: dict(v, cells=list(v['cells'])) for k, v in inv.attrs.items()}
    new.dicts = {k: dict(v) for k, v in inv.dicts.items()}
    new.lists = dict(inv.lists)
    new.list_ids = dict(getattr(inv, 'list_ids', {}))
    new.alloc, new.together, new.wild = inv.alloc, inv.together, inv.wild
    first = not hasattr(inv, 'cands')
    cands = set(relations(ex, pre)) if first else set(inv.cands)
    if first:
        # keep the candidates that hold initially
        cands = {r for r in cands if ex.must(rel_formula(ex, pre, r))}
    for d in ends:
        for k, kd in d['locals'].items():
            p = pre.frames.get(k[0], {}).get(k[1])
            kd2 = kd
            if p is not None:
                kd2 = join_kind(kind_of(ex, p), kd)
            new.locals[k] = join_kind(new.locals[k], kd2) if k in new.locals else kd2
        new.cvars |= d['cvars']
        new.ghosts.update(d['ghosts'])
        for n, a in d['attrs'].items():
            b = new.attrs.setdefault(n, {'cells': [], 'all': False, 'unset': False, 'val': None})
            b['all'] |= a['all']
            b['unset'] |= a['unset']
            if a['val'] is not None and b['val'] is not False:
                # the value set is the same in all iterations (rebased values may mention objects of another path: False)
                b['val'] = a['val'] if a['val'] is False or b['val'] is None or a['val'].eq(b['val']) else False
            for i in a['cells']:
                if not any(i.eq(j) for j in b['cells']):
                    b['cells'].append(i)
        for k, x in d['lists'].items():
            new.list_ids[k] = x[0]
            new.lists[k] = x[1] if new.lists.get(k) in (None, x[1]) else 'filter' if {new.lists[k], x[1]} == {'filter', 'append'} else 'any'
        for k, a in d['dicts'].items():
            b = new.dicts.get(k)
            if b is None:
                b = new.dicts[k] = {'id': a['id'], 'all': False, 'iter': True, 'frozen': None, 'flags': frozenset(('shrink', 'grow')), 'final': 'x'}
            if a['all']:
                b.update(all=True, iter=False, frozen=[], flags=frozenset(), final=None)
                continue
            b['frozen'] = a['frozen'] if b['frozen'] is None else [t for t in b['frozen'] if any(t.eq(u) for u in a['frozen'])]
            b['iter'] = b['iter'] and a['iter']
            fl = set(b['flags'])
            if not a['shrink']:
                fl.discard('shrink')
            if not a['grow']:
                fl.discard('grow')
            b['flags'] = frozenset(fl)
        new.alloc |= d['alloc']
        new.together &= d['together']
        new.wild |= d.get('wild', False)
    for k, b in new.dicts.items():
        if b['frozen'] is None:
            b['frozen'] = []
        fin = set()
        for d in ends:
            fin.add(d['iterdom'].get(k))
        b['final'] = fin.pop() if len(fin) == 1 and b['iter'] else None
    if not first:
        for d in ends:
            cands &= d['rel']
    new.cands = cands
    if first:
        # a second round must validate the candidates even if nothing else changed
        return new
    if new.signature() == inv.signature() and cands == set(inv.cands):
        return None
    return new


# -------------------------------------------------------------------------------- summaries of appends

def summary(ex, inv, pre, ends, ns, seg):
    lists, appends, maps = {}, {}, {}
    out = {'lists': lists, 'appends': appends, 'maps': maps, 'ns': ns, 'exit_attrs': None,
           'loose': set().union(*[d['loose'] for d in ends]) | {n for n, a in inv.attrs.items() if a['all']},
           'unsets': {n for n, a in inv.attrs.items() if a['unset']}}
    for k, kind in inv.lists.items():
        if kind not in ('append', 'filter'):
            continue
        templates, lo, hi = [], None, 0
        for d in ends:
            x = d['lists'].get(k)
            segs = x[2] if x else ()
            c = 0
            unk = False
            for s in segs:
                if isinstance(s, Ex):
                    c += 1
                    templates.append(('one', s.v, d))
                else:
                    unk = True
                    templates.append(('seg', s, d))
            lo = c if lo is None else min(lo, c)
            hi = None if unk or hi is None else max(hi, c)
        lists[k] = make_draw(templates, out)
        appends[k] = (lo or 0, hi)
        mp = mapped(ex, templates, ends, lo, hi, ns, seg)
        if mp is not None and kind == 'append':
            maps[k] = mp
    return out


def mapped(ex, templates, ends, lo, hi, ns, seg):
    """Every iteration appends exactly one element, a function of the iterated one alone: the segment it makes."""
    if lo != 1 or hi != 1 or not templates or any(t[0] != 'one' for t in templates):
        return None
    syms = {key(d['sym']) if d.get('sym') is not None else None for _, _, d in templates}
    v0, d0 = templates[0][1], templates[0][2]
    if None in syms:
        return None
    pairs = [(v, d['sym']) for _, v, d in templates]
    ph = z3.Const('ph!', d0['sym'].sort())
    vals = []
    for v, s in pairs:
        w = subst_v(v, s, ph)
        if w is None or any(ns in n for n in vsyms(ex, w)):
            return None
        vals.append(w)
    if any(not (vsame(ex, w, vals[0])) for w in vals[1:]):
        return None
    w = vals[0]
    if isinstance(seg, Slice):
        if isinstance(w, T) and w.t.eq(ex.term(seg.seq.item(ex, ph))):
            return seg
        seq = Seq(seg.seq.n, lambda e, j: subst_v(w, ph, j), tag=seg.seq.tag)
        return Slice(seq, seg.lo, seg.hi)

    def draw(e):
        x = iter_key(e, seg.draw(e))
        return subst_v(w, ph, x)
    a = Any_(seg.n, draw)
    a.of, a.fun = seg, (lambda x: subst_v(w, ph, x))
    return a


def subst_v(v, a, b):
    if isinstance(v, T):
        t = z3.substitute(v.t, (a, b))
        return v if t.eq(v.t) else T(z3.simplify(t), v.hint, v.exact, v.sub, v.meta)
    if isinstance(v, Tup):
        xs = [subst_v(x, a, b) for x in v.items]
        return None if any(x is None for x in xs) else Tup(xs)
    if isinstance(v, B):
        return B(z3.simplify(z3.substitute(zbool(v.b), (a, b))))
    if isinstance(v, I):
        return I(z3.simplify(z3.substitute(v.i, (a, b))))
    if isinstance(v, C):
        return v
    return None


def vsyms(ex, v):
    if isinstance(v, Tup):
        return [n for x in v.items for n in vsyms(ex, x)]
    return symbols(ex.term(v))


def vsame(ex, a, b):
    if isinstance(a, Tup):
        return isinstance(b, Tup) and len(a.items) == len(b.items) and all(vsame(ex, x, y) for x, y in zip(a.items, b.items))
    return not isinstance(b, Tup) and ex.term(a).eq(ex.term(b))


def make_draw(templates, summ):
    def draw(ex):
        if not templates:
            raise Infeasible()
        n = ex.choose([z3.BoolVal(True)] * len(templates)) if len(templates) > 1 else 0
        kind, v, d = templates[n]
        ren = Renamer(ex, summ['ns'])
        for f in d['path']:
            ex.assume(ren.t(f))
        if kind == 'seg':
            if isinstance(v, Slice):
                j = ex.fresh_int('j')
                ex.assume(z3.And(ren.t(v.lo) <= j, j < ren.t(v.hi)))
                sid = v.seq.meta.get('id') if v.seq.meta else None
                if sid is None:
                    return ex.mk(ex.fresh_val('el'))
                if invariant_term(sid, summ['ns']):
                    return v.seq.item(ex, j)
                return ex.base_seq(ren.t(sid)).item(ex, j)
            # what the inner summary assumes and asks is about the symbols of this iteration: renamed, too
            fired = dict(ex.st.fired)
            ex.renamers.append(ren)
            try:
                el = v.draw(ex)
            finally:
                ex.renamers.pop()
            ex.st.fired = fired
            r = ren.v(el)
            t = el.t if isinstance(el, T) else None
            if t is not None and z3.is_app(t) and t.decl().eq(Val.vobj) and is_fresh_id(t.arg(0)) and not z3.is_int_value(t.arg(0)):
                for name, m in d['state'].attrs.items():
                    link(ex, summ, ren, name, m, t.arg(0), d)
            return r
        r = ren.v(v)
        # attributes of the objects that this iteration allocated, as they were at its end
        for name, m in d['state'].attrs.items():
            for idx, _ in newest_stores(m):
                if is_fresh_id(idx) and any(summ['ns'] in s for s in symbols(idx)):
                    link(ex, summ, ren, name, m, idx, d)
        # containers allocated by the iteration keep no known content
        return r
    return draw


def link(ex, summ, ren, name, m, idx, d):
    """An attribute of an object that the drawn iteration allocated is what it was at the end of the iteration, unless
    iterations modify objects of earlier ones."""
    me = (summ['exit_attrs'] or {}).get(name)
    if me is None or name in summ['loose']:
        return
    i2 = ren.t(idx)
    if summ.get('exit_bound') is not None:
        ex.assume(z3.And(i2 >= summ['entry_bound'], i2 < summ['exit_bound']))
    val = simp(ren.t(m.select(idx)))
    if name in summ['unsets'] and ex.reg.unset_term is not None and not ex.must(val != ex.reg.unset_term):
        return
    ex.assume(me.select(i2) == val)
    c = d['state'].cls_of.get(key(idx))
    if c:
        ex.st.cls_of[key(i2)] = c
        ren.fresh_ids.append(i2)
    ex.st.fired[('known', key(i2), name)] = True


def newest_stores(m):
    seen = []
    while m is not None:
        if m.kind == 'store':
            if not any(m.idx.eq(i) for i in seen):
                seen.append(m.idx)
                yield (m.idx, m.val)
        m = m.prev


class Renamer:
    """Fresh copies of the symbols of one generic iteration."""

    def __init__(self, ex, ns):
        self.ex, self.ns, self.map, self.funs, self.fresh_ids = ex, ns, {}, {}, []

    def t(self, t):
        cs, fs = [], []
        for n, x in apps(t).items():
            if self.ns not in n:
                continue
            d = x.decl()
            if x.num_args() == 0:
                if n not in self.map:
                    base = n.split('!')[0]
                    self.map[n] = (x, z3.Const(self.ex.fname(base), x.sort()))
                    if base == 'alloc':
                        b = self.map[n][1]
                        self.ex.assume(z3.And(b >= 1, b < INTERN_BASE - 100000))
                cs.append(self.map[n])
            else:
                if n not in self.funs:
                    f2 = z3.Function(self.ex.fname(n.split('!')[0]), *([d.domain(i) for i in range(d.arity())] + [d.range()]))
                    self.funs[n] = (d, f2(*[z3.Var(i, d.domain(i)) for i in range(d.arity())]))
                fs.append(self.funs[n])
        if fs:
            t = z3.substitute_funs(t, *fs)
        if cs:
            t = z3.substitute(t, *cs)
        return t

    def v(self, v):
        if isinstance(v, T):
            t2 = self.t(v.t)
            if t2.eq(v.t):
                return v
            if z3.is_app(t2) and t2.decl().eq(Val.vobj) and is_fresh_id(t2.arg(0)) and v.hint is not None:
                self.ex.st.cls_of[key(t2.arg(0))] = (v.hint, v.exact)
            return T(t2, v.hint, v.exact, v.sub, v.meta)
        if isinstance(v, Tup):
            return Tup([self.v(x) for x in v.items])
        if isinstance(v, B):
            return B(self.t(zbool(v.b)))
        if isinstance(v, I):
            return I(self.t(v.i))
        return v
