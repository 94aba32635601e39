"""run.py PROP --seed S --part p --parts n --seconds t | --replay CASE : concrete scenarios of a property."""
import sys, json, time, random, argparse, traceback, importlib
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')


def load():
    import base
    errs = []
    for m in ('ops', 'tps', 'vals', 'errs', 'threads'):
        try:
            importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
    return base


def run_case(base, prop, case):
    """Returns (signature, violation text or None)."""
    rng = random.Random(case)
    fns = base.SCEN[prop]
    f, rule = fns[rng.randrange(len(fns))]
    ck = base.Ck(prop)
    try:
        f(rng, ck)
    except base.Viol as e:
        return ck.sig, f'{f.__name__}: {e}'
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        if any('/oblate/' in t.filename for t in tb):
            return ck.sig, f'{f.__name__}: unexpected {type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].lineno}'
        raise
    return ck.sig, None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--part', type=int, default=0)
    ap.add_argument('--parts', type=int, default=1)
    ap.add_argument('--seconds', type=float, default=10)
    ap.add_argument('--max', type=int, default=10 ** 9)
    ap.add_argument('--replay')
    a = ap.parse_args()
    import contextvars
    out = {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'rule': '', 'violation': None, 'errors': []}
    try:
        base = load()
    except Exception as e:
        out['violation'] = {'case': 'import', 'what': f'importing the package fails: {type(e).__name__}: {e}'}
        tb = traceback.extract_tb(e.__traceback__)
        if not any('/oblate/' in t.filename for t in tb):
            raise
        print(json.dumps(out))
        return
    if a.prop not in base.SCEN:
        print(json.dumps(dict(out, rule='no scenario')))
        return
    out['rule'] = '; '.join(sorted({r for _, r in base.SCEN[a.prop]})) + '; distinct: by the sequence of event kinds of the scenario'
    if a.replay:
        if a.replay == 'import':
            print('the import succeeds')
            return
        sig, v = contextvars.Context().run(run_case, base, a.prop, a.replay)
        print('signature:', sig[:40])
        print('violation:', v)
        sys.exit(1 if v else 0)
    t0 = time.time()
    seen = set()
    i = a.part
    while time.time() - t0 < a.seconds and out['evaluations'] < a.max:
        case = f'{a.seed}:{i}'
        i += a.parts
        try:
            sig, v = contextvars.Context().run(run_case, base, a.prop, case)
        except RecursionError:
            continue
        except Exception as e:
            out['errors'].append(f'{case}: {traceback.format_exc()[-800:]}')
            if len(out['errors']) > 3:
                break
            continue
        out['evaluations'] += 1
        if sig:
            k = '|'.join(sig)
            if k not in seen:
                seen.add(k)
                if len(out['samples']) < 3:
                    out['samples'].append(f'{case}: {k[:300]}')
        if v:
            out['violation'] = {'case': case, 'what': v}
            break
    out['distinct_nontrivial'] = len(seen)
    print(json.dumps(out, default=str))


if __name__ == '__main__':
    main()
