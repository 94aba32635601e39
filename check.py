#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] : decide one property of /repo's current source.

1. extracts the real functions of /repo/oblate (AST of the imported modules' files, on every run), generates the
   obligations of every mode (a contract on real entry points) of the property, and discharges them with z3;
2. runs the concrete scenarios of the property against the real code (a cross-check, and the search for the failing
   input of a failed obligation).
"""
import sys, os, json, time, subprocess, argparse, multiprocessing, importlib, traceback, hashlib
sys.dont_write_bytecode = True
if __debug__ and os.environ.get('VERIF_DEBUG') is None:
    os.execv(sys.executable, [sys.executable, '-O', os.path.abspath(__file__)] + sys.argv[1:])   # z3's python API is faster without asserts
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [REPO, HERE]
sys.setrecursionlimit(20000)
PY = '/opt/venv/bin/python'

TRUSTED = [
    'pyvc: the VC generator in /verif/pyvc (Python semantics of the subset used, heap model, loop summaries)',
    'z3 (QF queries; second back end re-checks in the thorough tier)',
    'models of builtins and of the stdlib calls that the code makes (dict/list/set/tuple methods, isinstance, ContextVar, '
    'copy.copy, typing.get_origin/get_args as uninterpreted functions, re.match/search/fullmatch as uninterpreted)',
    'extraction: functions are read from the source files under /repo/oblate; dropped: annotations, docstrings, '
    'typing overloads, the text of error messages (opaque strings)',
]
ASSUMPTIONS = [
    'user callbacks (validators, preprocess_data, value_load/value_dump of user fields, format_error, hooks) do not touch '
    'library-private state, may raise anything, and leave the context variables as they found them',
    'internal containers (_field_values, __fields__, validator lists) are not aliased by user code',
    'str() and repr() of user values do not raise where the library formats them',
    'integers are mathematical; partial correctness (termination is not shown)',
    'load_key, dump_key and the accessors of Field are not overridden by user classes',
]


def load_modes(prop):
    """All modes whose obligations include the property."""
    from pyvc import harness
    import specs
    for n in specs.MODULES:
        importlib.import_module('specs.' + n)
    return [m for m in harness.MODES if prop in m.props]


def one(args):
    name, tier, budget, dump, part = args
    sys.setrecursionlimit(20000)
    from pyvc import harness
    from specs.common import base_registry
    m = next(m for m in harness.MODES if m.key == name)
    d = [] if dump else None
    r = harness.run_mode(m, m.registry or base_registry, timeout_s=budget, solver_ms=8000 if tier == 'quick' else 30000, dump=d, part=part,
                         parts=m.parts)
    if d:
        r['second'] = recheck(d)
    return r


def merge(m, rs):
    """The result of a mode from those of its parts."""
    out = dict(rs[0])
    agg, covers = {}, set()
    for r in rs:
        covers |= set(r.get('covers', ()))
        for o in r['obligations']:
            b = agg.get((o['name'], o['prop']))
            if b is None:
                agg[(o['name'], o['prop'])] = o
                continue
            b['n'] += o['n']
            b['fails'] += o['fails']
            rank = ['ok', 'undecided', 'unknown', 'failed']
            b['status'] = max(b['status'], o['status'], key=rank.index)
    out['obligations'] = list(agg.values())
    out['error'] = next((r['error'] for r in rs if r['error']), None)
    out['missing_covers'] = [c for c in m.covers if c not in covers]
    for k in ('contracts', 'inlined'):
        out[k] = sorted({x for r in rs for x in r.get(k, ())})
    st = {}
    for r in rs:
        for k, v in (r.get('stats') or {}).items():
            st[k] = st.get(k, 0) + v
    out['stats'] = st
    out['wall_s'] = max(r['wall_s'] for r in rs)
    sec = [r['second'] for r in rs if r.get('second')]
    if sec:
        out['second'] = {k: sum((x[k] for x in sec), [] if k == 'disagree' else 0) for k in sec[0]}
    return out


def recheck(dump):
    """Discharge the obligations again with other solvers (old z3 and cvc5), from SMT-LIB text."""
    import z3, tempfile
    n = {'z3-4.8': 0, 'cvc5': 0, 'given': 0, 'disagree': []}
    t0 = time.time()
    for name, hyps, f in dump:
        if time.time() - t0 > 120:
            break
        s = z3.Solver()
        s.add(*hyps)
        s.add(z3.Not(f))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        n['given'] += 1
        for nm, cmd in (('cvc5', ['cvc5', '--lang=smt2', '--tlimit=5000', '-']), ('z3-4.8', ['z3', '-in', '-T:5'])):
            try:
                o = subprocess.run(cmd, input=txt, capture_output=True, text=True, timeout=20).stdout.strip().split('\n')
            except subprocess.TimeoutExpired:
                continue
            if 'unsat' in o:
                n[nm] += 1
            elif 'sat' in o:
                n['disagree'].append((nm, name))
    return n


def search(prop, seed, seconds, procs, tier):
    """Start the concrete scenarios; returns the processes."""
    env = dict(os.environ, PYTHONPATH=REPO + ':' + os.path.join(HERE, 'scen'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(seed))
    return [subprocess.Popen([PY, os.path.join(HERE, 'scen', 'run.py'), prop, '--seed', str(seed), '--part', str(p), '--parts', str(procs),
                              '--seconds', str(seconds)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=HERE)
            for p in range(procs)]


def collect(ps):
    out = {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'violation': None, 'rule': '', 'errors': []}
    for p in ps:
        o, e = p.communicate()
        try:
            r = json.loads(o.strip().split('\n')[-1])
        except Exception:
            out['errors'].append((o[-500:], e[-1500:]))
            continue
        out['evaluations'] += r['evaluations']
        out['distinct_nontrivial'] += r['distinct_nontrivial']
        out['samples'] = (out['samples'] + r['samples'])[:3]
        out['rule'] = r['rule']
        if r.get('violation') and not out['violation']:
            out['violation'] = r['violation']
    return out


def known(prop):
    res = []
    p = os.path.join(HERE, 'known_findings.txt')
    for l in open(p):
        l = l.strip()
        if l.startswith('known:') and f'property={prop} ' in l + ' ':
            res.append(l)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    ap.add_argument('--no-search', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    quick = a.tier == 'quick'
    prop = a.prop
    has_scen = os.path.exists(os.path.join(HERE, 'scen', 'run.py'))
    results, failures, err = [], [], None
    import_error = None
    try:
        modes = [m for m in load_modes(prop) if not (quick and m.thorough)]
    except Exception as e:
        modes, import_error = [], f'{type(e).__name__}: {e}'
        traceback.print_exc()
    ncpu = min(8, os.cpu_count() or 1)
    budget = 420 if quick else 600
    ps = [] if a.no_search or not has_scen else search(prop, seed, 12 if quick else 120, 2, a.tier)
    if modes:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(ncpu, sum(m.parts for m in modes)), maxtasksperchild=1) as pool:
            jobs = [(m, [pool.apply_async(one, ((m.key, a.tier, budget, not quick, i),)) for i in range(m.parts)])
                    for m in sorted(modes, key=lambda m: -m.parts)]
            end = t0 + (560 if quick else 3000)
            for m, js in jobs:
                rs = []
                for j in js:
                    bad = {'mode': m.name, 'obligations': [], 'error': None, 'missing_covers': list(m.covers), 'covers': [], 'wall_s': 0}
                    try:
                        rs.append(j.get(timeout=max(1, end - time.time())))
                    except multiprocessing.TimeoutError:
                        rs.append(dict(bad, error='unsupported: budget of the check'))
                    except Exception as e:
                        rs.append(dict(bad, error=f'internal: {e}'))
                results.append(merge(m, rs))
    cross = collect(ps) if ps else None
    # ---- verdict
    total = disch = 0
    failed, undecided, names = [], [], []
    second = {'z3-4.8': 0, 'cvc5': 0, 'given': 0, 'disagree': []}
    per_mode = []
    for r in results:
        k = 0
        for o in r['obligations']:
            if o['prop'] != prop:
                continue
            total += o['n']
            k += o['n']
            bad = len(o['fails'])
            disch += o['n'] - bad
            if o['status'] == 'failed':
                failed.append((r['mode'], o))
            elif o['status'] != 'ok':
                undecided.append((r['mode'], o['name'] + ': ' + o['status']))
            names.append(f"{r['mode']}: {o['name']} x{o['n']}")
        if r['error']:
            undecided.append((r['mode'], r['error']))
        elif r['missing_covers'] and not failed:
            undecided.append((r['mode'], 'vacuous: ' + ', '.join(r['missing_covers'])))
        elif k == 0:
            undecided.append((r['mode'], 'no obligation was generated'))
        if r.get('second'):
            for q in ('z3-4.8', 'cvc5', 'given'):
                second[q] += r['second'][q]
            second['disagree'] += r['second']['disagree']
        per_mode.append({'mode': r['mode'], 'paths': r.get('stats', {}).get('paths'), 'solver_calls': r.get('stats', {}).get('checks'),
                         'wall_s': r['wall_s'], 'obligations': k, 'error': r['error']})
    if import_error:
        undecided.append(('import', import_error))
    viol = None
    nofind = False
    if cross and cross['violation']:
        viol = cross['violation']
    elif (failed or undecided) and has_scen and not a.no_search:
        more = collect(search(prop, seed + 1000003, 45 if quick else 240, ncpu, a.tier))
        cross = cross or more
        for q in ('evaluations', 'distinct_nontrivial'):
            cross[q] += more[q] if cross is not more else 0
        cross['errors'] += more['errors'] if cross is not more else []
        viol = more['violation']
    if viol is None and failed:
        nofind = True
    rep = None
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if viol is not None or nofind:
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        rep = os.path.join(HERE, 'evidence', 'replay', f'{prop}.json')
        json.dump({'property': prop, 'failing_input': viol,
                   'replay_cmd': f"PYTHONPATH=/repo:/verif/scen PYTHONHASHSEED={seed} {PY} /verif/scen/run.py {prop} --replay '{viol['case']}'" if viol else None,
                   'failed_obligations': [{'mode': m, 'obligation': o['name'], 'verifier': o['fails'][:3]} for m, o in failed],
                   'undecided': undecided}, open(rep, 'w'), indent=1, default=str)
    level = 'proof' if modes and not undecided and not failed else 'other'
    fns = sorted({f for r in results for f in r.get('inlined', [])})
    cons = sorted({f for r in results for f in r.get('contracts', [])})
    cov = {
        'obligations': total, 'discharged': disch,
        'checker_cmd': f'python3-vt /verif/check.py {prop} --tier {a.tier}',
        'trusted_base': TRUSTED,
        'functions_under_contract': [f'{r["mode"]}' for r in results],
        'functions_verified_from_source': fns,
        'assumed_contracts': cons,
        'modes': per_mode,
        'obligation_names': names,
        'back_end': 'z3 %s (python API)' % __import__('z3').get_version_string(),
        'solver_wall_s': round(sum(r.get('stats', {}).get('solver_s', 0) or 0 for r in results), 2),
        'undecided': [f'{m}: {w}' for m, w in undecided],
    }
    if not quick:
        cov['second_back_ends'] = second
    if cross:
        cov['bounded_cross_check'] = {'evaluations': cross['evaluations'], 'distinct_nontrivial': cross['distinct_nontrivial'],
                                      'rule': cross['rule'], 'samples': cross['samples'], 'errors': cross['errors'],
                                      'note': 'concrete executions of the real code; not counted as proved'}
        cov['evaluations'] = cross['evaluations']
    if level == 'other':
        cov['explanation'] = 'some obligations are not discharged on this tree (see undecided / violations); the concrete search ' \
                             'stood in for them (bounded)'
    json.dump({'property': prop, 'tier': a.tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
               'assumptions': ASSUMPTIONS + EXTRA.get(prop, []), 'violations': 1 if rep else 0},
              open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w'), indent=1, default=str)
    if a.v:
        for r in results:
            print(r['mode'], r['error'], r['missing_covers'], r['wall_s'])
    for m, o in failed:
        print(f'failed obligation: {m}: {o["name"]} (line {o["fails"][0].get("line")})')
    for m, w in undecided:
        print(f'undecided: {m}: {w}')
    if cross and cross['errors']:
        print('search errors:', cross['errors'][:2])
    for l in known(prop):
        print('KNOWN-FINDING: ' + l[len('known:'):].strip())
    print(f'{prop}: {disch}/{total} obligations discharged in {len(results)} modes, '
          f'{cross["evaluations"] if cross else 0} concrete cases, {time.time() - t0:.1f} s')
    if rep:
        if viol:
            print('failing input:', viol['what'])
        print(f'VIOLATION property={prop} replay={rep}' + (' no-failing-input-found' if nofind else ''))
        return 1
    return 0


KEYS = 'the current fields of one class have distinct load keys'
CREATED = 'user code creates the field errors that it raises while it is raising them'
EXTRA = {
    'C01': [KEYS],
    'C02': [KEYS, CREATED, 'format_error returns a string, a FieldError or None (what else it may do is C21)', 'the data of update is a Mapping'],
    'C03': [CREATED, 'an exception that is both a FieldError and a ValueError/AssertionError may be reported either way'],
    'C04': [KEYS, 'the data of update is a Mapping'],
    'C05': [KEYS, 'the data of update is a Mapping'],
    'C06': ['the fields of one class have distinct dump keys', 'membership in include and exclude agrees with iterating them'],
    'C07': [CREATED, 'the data of update is a Mapping'],
    'C08': ['typing.get_origin and get_args are what the typing module defines', 'induction on the type expression: the recursive call is '
            'assumed for strictly smaller expressions', 'types have a __name__, warnings.warn does not raise'],
    'C09': ['__required_keys__ and get_type_hints are what the typing module defines', 'induction on the type expression'],
    'C10': ['the verdict of _process_value is C08/C09'],
    'C11': ['the error code constants are not overridden'],
    'C12': ['the verdict of TypeValidator.validate is C08 to C10'],
    'C14': ['field errors keep identity equality, and the errors given are distinct objects', 'the message of an error is not the list of errors '
            'itself', 'induction on nested messages'],
    'C16': ['the name and the class of a field, and the two tables of a class, are set together', 'no field is bound to a class that does not '
            'exist yet', KEYS],
    'C17': ['from_standard is given ranges of step 1', 'formatting the configured message does not raise'],
    'C20': ['a class body has at most one config class, and at most one base is a schema'],
    'C21': ['the error code constants are not overridden'],
    'C22': ['ContextVar and threading.local are per thread/task as Python documents', 'the operations are on different schemas', 'user code '
            'guards its own state', 'rely/guarantee argument on paper: each operation writes only what it owns (proved at every write)'],
}

if __name__ == '__main__':
    sys.exit(main())
