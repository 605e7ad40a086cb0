"""Bounded stand-in: seeded generated inputs run through the real kalepy, judged by independent oracles.

A test is a class with `gen(rng, k)` -> case (a dict of plain values and arrays) and `check(case)`, which raises Fail.
Every case can be written to JSON and replayed.
"""
import importlib
import json
import os
import sys
import time
import traceback
import warnings
import zlib
import hashlib

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
warnings.simplefilter("ignore")
import logging
logging.disable(logging.CRITICAL)
import numpy as np


class Fail(Exception):
    pass


class Skip(Exception):
    """the (internal) function does not exist or has another signature: nothing to decide here"""


TESTS = []


def test(quick=100, thorough=None):
    def deco(cls):
        cls.quick, cls.thorough = quick, thorough or quick * 12
        cls.module = cls.__module__.split('.')[-1]
        TESTS.append(cls)
        return cls
    return deco


def internal(dotted):
    """an internal function under test; Skip if it is gone"""
    mod, name = dotted.rsplit('.', 1)
    parts = mod.split('.')
    for n in range(len(parts), 0, -1):
        try:
            m = importlib.import_module('kalepy.' + '.'.join(parts[:n]))
            for p in parts[n:]:
                m = getattr(m, p)
            return getattr(m, name)
        except ImportError:
            continue
        except AttributeError:
            raise Skip(dotted)
    raise Skip(dotted)


# ------------------------------------------------------------------ assertions
def ok(cond, msg):
    if not bool(cond):
        raise Fail(msg)


def close(a, b, msg, rtol=1e-9, atol=0.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Fail("%s: shape %s, expected %s" % (msg, a.shape, b.shape))
    with np.errstate(all='ignore'):
        good = (np.abs(a - b) <= atol + rtol * np.abs(b)) | (a == b)
    if not np.all(good):
        i = tuple(int(x) for x in np.argwhere(~good)[0]) if a.ndim else ()
        raise Fail("%s: got %r, expected %r at index %s" % (msg, float(a[i]), float(b[i]), i))


def raises(f, msg):
    try:
        r = f()
    except Exception:
        return
    raise Fail("%s: accepted, returned %.200r" % (msg, r))


def accepts(f, msg):
    try:
        return f()
    except Exception as e:
        raise Fail("%s: refused with %r" % (msg, e))


# ------------------------------------------------------------------ cases <-> JSON
def enc(v):
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return {"__list__": [enc(x) for x in v]}
        return {"__nd__": [v.dtype.str, list(v.shape), v.ravel().tolist()]}
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.floating):
        return float(v)
    if isinstance(v, tuple):
        return {"__tuple__": [enc(x) for x in v]}
    if isinstance(v, list):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        return {k: enc(x) for k, x in v.items()}
    return v


def dec(v):
    if isinstance(v, dict):
        if "__nd__" in v:
            d, s, x = v["__nd__"]
            return np.array(x, dtype=d).reshape(s)
        if "__tuple__" in v:
            return tuple(dec(x) for x in v["__tuple__"])
        if "__list__" in v:
            return [dec(x) for x in v["__list__"]]
        return {k: dec(x) for k, x in v.items()}
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


def run_case(cls, case):
    """-> None | 'skip: ..' | failure text"""
    st = np.random.get_state()
    np.random.seed(case.get('seed', 12345) % (2 ** 32))
    try:
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cls.check(dec(enc(case)))
        return None
    except Skip as e:
        return 'skip: %s' % e
    except Fail as e:
        return 'FAIL ' + str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1]
        where = [f for f in tb if '/kalepy/' in f.filename]
        if isinstance(e, TypeError) and not where and ('argument' in str(e)):
            return 'skip: signature %s' % e
        if not where:
            if isinstance(e, (AttributeError, ImportError, NameError)):
                return 'error: ' + traceback.format_exc()[-800:]
            return 'FAIL the result cannot be judged: %s: %s' % (type(e).__name__, traceback.format_exc()[-300:])
        return 'FAIL unexpected %s: %s (%s:%d)' % (type(e).__name__, str(e)[:200], where[-1].filename, where[-1].lineno)
    finally:
        np.random.set_state(st)


def make_case(cls, seed, k):
    rng = np.random.default_rng([seed, zlib.crc32(cls.__name__.encode()), k])
    c = cls.gen(rng, k)
    if c is not None:
        c.setdefault('seed', int(rng.integers(2 ** 31)))
    return c


def work(a):
    ti, seed, lo, hi, tmax = a
    cls = TESTS[ti]
    t0 = time.time()
    out = dict(test=cls.__name__, n=0, hashes=[], fails=[], skips=0, errors=[], sample=None)
    for k in range(lo, hi):
        if time.time() - t0 > tmax:
            out['cut'] = True
            break
        try:
            c = make_case(cls, seed, k)
        except Skip:
            out['skips'] += 1
            continue
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if '/kalepy/' in f.filename]
            out['errors'].append(traceback.format_exc()[-600:])
            continue
        if c is None:
            continue
        r = run_case(cls, c)
        out['n'] += 1
        j = json.dumps(enc({x: y for x, y in c.items() if x != 'seed'}), sort_keys=True, default=str)
        out['hashes'].append(hashlib.md5(j.encode()).hexdigest())
        if out['sample'] is None:
            out['sample'] = j[:400]
        if r is None:
            continue
        if r.startswith('skip'):
            out['skips'] += 1
        elif r.startswith('error'):
            out['errors'].append(r)
        else:
            out['fails'].append((k, r, enc(c)))
            if len(out['fails']) >= 2:
                break
    return out


def load(prop):
    TESTS.clear()
    importlib.import_module(prop)
    TESTS[:] = [t for t in TESTS if t.module == prop]


def main(prop, tier, seed, out_path, tmax=60.0, procs=6):
    import multiprocessing as mp
    t0 = time.time()
    res = dict(prop=prop, evaluations=0, distinct=0, tests={}, fails=[], errors=[], samples=[], skips=0)
    try:
        load(prop)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        res['errors'].append(traceback.format_exc()[-1500:])
        if any('/kalepy/' in f.filename for f in tb):
            res['fails'].append(dict(test='import', why='kalepy cannot be imported: %r' % e, case={}))
        json.dump(res, open(out_path, 'w'))
        return
    jobs = []
    for i, cls in enumerate(TESTS):
        n = cls.quick if tier == 'quick' else cls.thorough
        parts = min(procs, max(1, n // 8))
        step = -(-n // parts)
        for lo in range(0, n, step):
            jobs.append((i, seed, lo, min(n, lo + step), tmax))
    hashes = set()
    ctx = mp.get_context('fork')
    with ctx.Pool(procs) as pool:
        for o in pool.imap_unordered(work, jobs, chunksize=1):
            t = res['tests'].setdefault(o['test'], dict(cases=0, skips=0, cut=0))
            t['cases'] += o['n']
            t['skips'] += o['skips']
            t['cut'] += int(bool(o.get('cut')))
            res['skips'] += o['skips']
            res['evaluations'] += o['n']
            hashes |= set((o['test'], h) for h in o['hashes'])
            res['errors'] += o['errors'][:2]
            for k, why, c in o['fails']:
                res['fails'].append(dict(test=o['test'], k=k, why=why, case=c))
            if o['sample'] and len(res['samples']) < 4:
                res['samples'].append(dict(test=o['test'], case=o['sample']))
    res['distinct'] = len(hashes)
    res['fails'].sort(key=lambda f: (f['test'], f.get('k', 0)))
    res['wall_s'] = round(time.time() - t0, 2)
    json.dump(res, open(out_path, 'w'))


if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    import harness          # the module instance that the tests import
    if sys.argv[1] == 'replay':
        f = json.load(open(sys.argv[2]))
        if 'test' not in f:
            print('no failing input was found; the failed obligations are:')
            print(json.dumps(f.get('failed_obligations'), indent=1))
            sys.exit(0)
        if f['case'].get('test') == 'contract':
            sys.path.insert(0, os.path.dirname(here))
            from pydv import conc_e
            st, bad = conc_e.replay(f['property'], f['case'])
            print(st, 'FAIL ' + json.dumps(bad, default=str)[:2000] if bad else 'contract holds on this input')
            sys.exit(1 if bad else 0)
        harness.load(f['property'])
        cls = [t for t in harness.TESTS if t.__name__ == f['test']][0]
        r = harness.run_case(cls, harness.dec(f['case']))
        print(r or 'property holds on this input')
        sys.exit(1 if r and r.startswith('FAIL') else 0)
    harness.main(sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4], float(sys.argv[5]) if len(sys.argv) > 5 else 60.0)
