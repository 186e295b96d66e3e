"""Infrastructure of the executable (bounded) specifications: workers, budgets, shrinking.

An oracle module defines
    gen(rng)            -> case   (a dict of json values)
    check(case)         -> None or a text that says how the property is violated on the real code
    fixed()             -> iterable of cases that are always tried (optional)
    nontrivial(case)    -> bool (optional)
    known(case, msg)    -> None or the id of a known finding (optional)
    SHRINK              -> names of the fields of the case that may be shrunk (str or list)
The cases run the real code of /repo; nothing of it is replaced, except where a module says so.
"""
import copy
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'
warnings.simplefilter('ignore')


def setup_path():
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if SITE not in sys.path:
        sys.path.append(SITE)
    sys.dont_write_bytecode = True


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def timed_check(mod, case, seconds=5.0):
    """-> (status, message); status in ok, bad, timeout"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        msg = mod.check(case)
    except Timeout:
        return 'timeout', None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ('bad', msg) if msg else ('ok', None)


def _worker(modname, seed, index, n, budget, q):
    setup_path()
    devnull = os.open(os.devnull, os.O_WRONLY)
    mod = importlib.import_module(modname)
    rng = random.Random(f'{modname}/{seed}/{index}')
    t0 = time.time()
    done = trivial = timeouts = 0
    samples = []
    known = {}
    hashes = set()
    bad = None
    err = None
    try:
        for i in range(n):
            if time.time() - t0 > budget:
                break
            case = mod.gen(rng)
            status, msg = timed_check(mod, case)
            done += 1
            if status == 'timeout':
                timeouts += 1
                continue
            if getattr(mod, 'nontrivial', lambda c: True)(case):
                hashes.add(hash(json.dumps(case, sort_keys=True)))
                if len(samples) < 2 and i > 20:
                    samples.append(case)
            else:
                trivial += 1
            if status == 'bad':
                k = mod.known(case, msg) if hasattr(mod, 'known') else None
                if k:
                    known.setdefault(k, (case, msg))
                    continue
                bad = (case, msg)
                break
    except BaseException:
        err = traceback.format_exc()
    q.put(dict(done=done, distinct=len(hashes), trivial=trivial, timeouts=timeouts, samples=samples,
               known=known, bad=bad, err=err, index=index))


def shrink(mod, case, budget=20.0):
    """greedy reduction of the fields of a failing case"""
    t0 = time.time()
    fields = getattr(mod, 'SHRINK', ())

    def fails(c):
        try:
            st, msg = timed_check(mod, c)
        except Exception:
            return None
        if st != 'bad':
            return None
        if hasattr(mod, 'known') and mod.known(c, msg):
            return None
        return msg
    msg = fails(case)
    if msg is None:
        return case, None
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        for f in fields:
            v = case.get(f)
            if not isinstance(v, (str, list)) or not v:
                continue
            size = max(1, len(v) // 2)
            while size >= 1 and time.time() - t0 < budget:
                i = 0
                while i < len(case[f]) and time.time() - t0 < budget:
                    c = copy.deepcopy(case)
                    c[f] = c[f][:i] + c[f][i + size:]
                    m = fails(c)
                    if m is not None:
                        case, msg, changed = c, m, True
                    else:
                        i += size
                size //= 2
    return case, msg


def run(modname, seed, n, budget, procs=8):
    """-> dict(done, distinct, ..., bad=(case, msg) or None, known, errors)"""
    setup_path()
    t0 = time.time()
    mod = importlib.import_module(modname)
    res = dict(done=0, distinct=0, trivial=0, timeouts=0, samples=[], known={}, bad=None, errors=[], fixed=0)
    if hasattr(mod, 'fixed'):
        for case in mod.fixed():
            res['fixed'] += 1
            res['done'] += 1
            status, msg = timed_check(mod, case, 20)
            if status == 'bad':
                k = mod.known(case, msg) if hasattr(mod, 'known') else None
                if k:
                    res['known'].setdefault(k, (case, msg))
                    continue
                res['bad'] = (case, msg)
                break
    if res['bad'] is None and n > 0:
        ctx = multiprocessing.get_context('fork')
        q = ctx.Queue()
        ps = [ctx.Process(target=_worker, args=(modname, seed, i, (n + procs - 1) // procs, budget, q)) for i in range(procs)]
        for p in ps:
            p.start()
        bads = []
        got = 0
        while got < procs:
            try:
                r = q.get(timeout=1.0)
            except Exception:
                if not any(p.is_alive() for p in ps):
                    try:
                        r = q.get(timeout=1.0)
                    except Exception:
                        res['errors'].append('a worker process died')
                        break
                else:
                    continue
            got += 1
            for k in ('done', 'distinct', 'trivial', 'timeouts'):
                res[k] += r[k]
            res['samples'] += r['samples']
            for k, v in r['known'].items():
                res['known'].setdefault(k, v)
            if r['bad']:
                bads.append((r['index'], r['bad']))
            if r['err']:
                res['errors'].append(r['err'])
        for p in ps:
            p.join(5)
            if p.is_alive():
                p.kill()
        if bads:
            res['bad'] = min(bads)[1]
    if res['bad'] is not None:
        case, msg = res['bad']
        c2, m2 = shrink(mod, case)
        res['bad'] = (c2, m2 or msg)
    res['wall'] = time.time() - t0
    res['samples'] = res['samples'][:4]
    return res


def call(func, *args, **kw):
    """-> ('ok', value) or ('exc', exception)"""
    try:
        return 'ok', func(*args, **kw)
    except Timeout:
        raise
    except RecursionError:
        raise
    except Exception as e:
        return 'exc', e


if __name__ == '__main__':
    name = sys.argv[1]
    r = run('oracle.' + name, int(os.environ.get('VERIF_SEED', '1')), int(sys.argv[2]), float(sys.argv[3]))
    bad = r.pop('bad')
    print({k: v for k, v in r.items() if k not in ('samples', 'errors')})
    print(json.dumps(r['samples'], ensure_ascii=False)[:1500])
    for e in r['errors'][:1]:
        print(e)
    if bad:
        print('BAD', json.dumps(bad[0], ensure_ascii=False))
        print(bad[1])
