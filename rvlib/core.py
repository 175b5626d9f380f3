"""Runner and monitors: workloads (cases) are executed against the real code, while monitors record
the events seen at its public boundary and judge them with oracles.

A case is a JSON-able dict with a 'kind'; props/pXX.py has
    RULE            how cases are made and what makes one non-trivial
    MIN             {event: minimum count} - fewer is *inconclusive*, not held
    cases(tier, seed) -> [case, ...]
    run(case, mon)  executes a case, reporting to the monitor
"""
import argparse
import collections
import concurrent.futures as cf
import contextlib
import importlib
import io
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RV_REPO', '/repo')
CASE_TIMEOUT = {'quick': 150, 'thorough': 400}
TOTAL_BUDGET = {'quick': 600, 'thorough': 6000}
MAX_VIOL_CASES = 6


class CaseTimeout(BaseException):
    pass


class Abort(Exception):
    """Stop a case after its first violation made the rest meaningless."""


class HarnessError(Exception):
    """The harness could not build its own workload."""


def jsonable(x, depth=0):
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth+1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth+1) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist()) if x.size <= 60 else 'array%s' % (x.shape,)
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if x is None or isinstance(x, (str, int)):
        return x
    return repr(x)[:200]


class Mon(object):
    """Events, oracle evaluations and verdicts of one case."""

    def __init__(self, prop, case):
        self.prop, self.case = prop, case
        self.events = collections.Counter()
        self.oracles = collections.Counter()
        self.sigs = set()
        self.violations = []
        self.notes = {}
        self._tmp = None

    # -- observations
    def ev(self, name, n=1):
        self.events[name] += n

    def sig(self, *parts):
        self.sigs.add('|'.join(str(p) for p in parts))

    def note(self, **kw):
        self.notes.update(jsonable(kw))

    # -- oracles
    def check(self, key, ok, msg='', **detail):
        self.oracles[key] += 1
        if not bool(ok):
            if sum(v['key'] == key for v in self.violations) < 3:
                self.violations.append({'key': key, 'msg': msg, 'detail': jsonable(detail)})
            return False
        return True

    def close(self, key, got, want, rtol=1e-7, atol=0., scale=None, msg='', **detail):
        """|got - want| <= rtol*scale + atol, scale: max |want| by default. NaNs must coincide."""
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            return self.check(key, False, msg + ' shape %s, expected %s' % (got.shape, want.shape), **detail)
        if got.size == 0:
            return self.check(key, True)
        fin = np.isfinite(want)
        if not np.array_equal(np.isfinite(got), fin):
            return self.check(key, False, msg + ' finite entries differ',
                              n_got=int(np.isfinite(got).sum()), n_want=int(fin.sum()), **detail)
        if not fin.all():
            g, w = got[~fin], want[~fin]
            if not np.array_equal(g, w, equal_nan=True):
                return self.check(key, False, msg + ' non-finite entries differ', **detail)
        if not fin.any():
            return self.check(key, True)
        if scale is None:
            scale = np.max(np.abs(want[fin]))
        err = np.abs(np.where(fin, got, 0.) - np.where(fin, want, 0.))
        tol = rtol*scale + atol
        ok = bool(np.all(err <= tol))
        if not ok:
            k = np.unravel_index(int(np.argmax(err - tol)), err.shape)
            detail.update(max_err=float(err[k]), tol=float(np.broadcast_to(tol, err.shape)[k]), at=list(map(int, k)),
                          got=float(got[k]), want=float(want[k]))
        return self.check(key, ok, msg, **detail)

    def same(self, key, got, want, msg='', **detail):
        """Bitwise equal arrays / equal values (NaN == NaN)."""
        try:
            a, b = np.asarray(got), np.asarray(want)
            ok = a.shape == b.shape and (np.array_equal(a, b, equal_nan=True) if a.dtype.kind in 'fc' and b.dtype.kind in 'fc'
                                         else np.array_equal(a, b))
        except Exception:
            ok = got == want
        if not ok:
            detail.update(got=got, want=want)
        return self.check(key, ok, msg, **detail)

    def raises(self, key, exc, fn, msg=''):
        try:
            fn()
        except exc:
            return self.check(key, True)
        except Exception as e:
            return self.check(key, False, msg + ' raised %r instead of %s' % (e, exc))
        return self.check(key, False, msg + ' did not raise')

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='rv_%s_' % self.prop)
        return self._tmp

    def close_tmp(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)


# ---------------------------------------------------------------------------------------------
# Hooks on the public API

@contextlib.contextmanager
def observe(obj, name, before=None, after=None):
    """Wrap obj.name: before(args, kwargs) -> token; after(token, args, kwargs, result)."""
    orig = obj.__dict__[name] if isinstance(obj, type) and name in obj.__dict__ else getattr(obj, name)

    def wrapper(*a, **k):
        tok = before(a, k) if before is not None else None
        res = orig(*a, **k)
        if after is not None:
            after(tok, a, k, res)
        return res
    wrapper.__name__ = name
    setattr(obj, name, wrapper)
    try:
        yield
    finally:
        setattr(obj, name, orig)


@contextlib.contextmanager
def quiet():
    """misfit prints a lot."""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def load_repo():
    if REPO not in sys.path[:2]:
        sys.path.insert(0, REPO)
    import misfit
    if not os.path.abspath(misfit.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise HarnessError('misfit imported from %s, not %s' % (misfit.__file__, REPO))
    return misfit


def in_repo(tb):
    """Does the traceback pass through the code under test?"""
    root = os.path.abspath(REPO) + os.sep + 'misfit' + os.sep
    return any(os.path.abspath(f.filename).startswith(root) for f in traceback.extract_tb(tb))


# ---------------------------------------------------------------------------------------------

_MOD = None
_TIER = 'quick'


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(prop, case, tier):
    mon = Mon(prop, case)
    status, err = 'ok', None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT[tier])
    t0 = time.time()
    np.random.seed(case.get('seed', 0) % (2**32))
    try:
        with np.errstate(all='ignore'), quiet():
            _MOD.run(case, mon)
    except CaseTimeout:
        status, err = 'timeout', 'case exceeded %d s' % CASE_TIMEOUT[tier]
    except Abort:
        pass
    except (MemoryError, KeyboardInterrupt):
        status, err = 'error', traceback.format_exc()
    except Exception as e:
        if in_repo(e.__traceback__):
            root = os.path.abspath(REPO)
            fr = [f for f in traceback.extract_tb(e.__traceback__) if os.path.abspath(f.filename).startswith(root)]
            mon.check('raised', False, 'in-domain use raised %s: %s (in %s, called from %s)' % (
                type(e).__name__, str(e)[:300], fr[-1].name, fr[0].name), traceback=traceback.format_exc()[-1500:])
        else:
            status, err = 'error', traceback.format_exc()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        mon.close_tmp()
        try:
            import matplotlib.pyplot as plt
            plt.close('all')
        except Exception:
            pass
    return {'status': status, 'err': err, 'events': dict(mon.events), 'oracles': dict(mon.oracles),
            'sigs': sorted(mon.sigs), 'violations': mon.violations, 'notes': mon.notes, 't': time.time()-t0}


def _job(args):
    prop, i, case, tier = args
    return i, run_case(prop, case, tier)


def load_known(prop):
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            data = json.load(f)
    except IOError:
        return []
    return [k for k in data.get('findings', []) if k['property'] == prop]


def match_known(known, v, case):
    for k in known:
        if k['key'] == v['key'] and (not k.get('kind') or k['kind'] == case.get('kind')) \
                and re.search(k.get('match', ''), v['msg']):
            return k
    return None


def main(argv):
    global _MOD, _TIER
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('RV_JOBS') or min(8, os.cpu_count() or 1)))
    ap.add_argument('--only', help='only this kind of case (development)')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args(argv)
    prop = a.prop
    t0 = time.time()
    try:
        with quiet():
            load_repo()
    except HarnessError as e:
        print('ERROR', e)
        return 2
    except Exception:
        traceback.print_exc()
        print('ERROR: misfit can not be imported')
        return 2
    _MOD = importlib.import_module('props.' + prop.lower())
    tier, seed = a.tier, a.seed
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        tier, seed = rp.get('tier', tier), rp.get('seed', seed)
        cases = [rp['case']]
    else:
        cases = _MOD.cases(tier, seed)
        if a.only:
            cases = [c for c in cases if c['kind'] == a.only]
    if hasattr(_MOD, 'warmup'):
        with quiet(), np.errstate(all='ignore'):
            try:
                _MOD.warmup()
            except Exception:
                pass      # the cases will show it
    res = {}
    broken = None
    stopped = False
    if a.jobs > 1 and len(cases) > 1:
        ctx = mp.get_context('fork')
        ex = cf.ProcessPoolExecutor(min(a.jobs, len(cases)), mp_context=ctx)
        try:
            pend = {ex.submit(_job, (prop, i, c, tier)) for i, c in enumerate(cases)}
            while pend:
                done, pend = cf.wait(pend, timeout=5, return_when=cf.FIRST_COMPLETED)
                for d in done:
                    i, r = d.result()
                    res[i] = r
                if sum(bool(r['violations']) for r in res.values()) >= MAX_VIOL_CASES \
                        or time.time()-t0 > TOTAL_BUDGET[tier]:
                    stopped = True
                    for p in pend:
                        p.cancel()
                    break
        except cf.process.BrokenProcessPool as e:
            broken = 'a worker process died: %s' % e
        finally:
            procs = list((ex._processes or {}).values())
            ex.shutdown(wait=False, cancel_futures=True)
            if stopped or broken:
                for p in procs:
                    p.kill()
    else:
        for i, c in enumerate(cases):
            res[i] = run_case(prop, c, tier)
            if sum(bool(r['violations']) for r in res.values()) >= MAX_VIOL_CASES:
                break

    events, oracles, sigs = collections.Counter(), collections.Counter(), set()
    errors, viol, kinds, slow = [], [], collections.Counter(), []
    known = load_known(prop)
    known_hit = {}
    for i in sorted(res):
        r, c = res[i], cases[i]
        events.update(r['events'])
        oracles.update(r['oracles'])
        sigs.update(r['sigs'])
        kinds[c['kind']] += 1
        slow.append((r['t'], i))
        if r['status'] != 'ok':
            errors.append((i, r['status'], r['err']))
        for v in r['violations']:
            k = match_known(known, v, c)
            if k is not None:
                known_hit.setdefault(k['id'], k)
            else:
                viol.append((i, v))
    wall = time.time()-t0
    samples = []
    seen = set()
    for i in sorted(res):
        if cases[i]['kind'] not in seen and len(samples) < 8:
            seen.add(cases[i]['kind'])
            samples.append({'case': jsonable(cases[i]), 'events': res[i]['events'], 'notes': res[i]['notes']})
    evid = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
            'coverage': {'evaluations': len(res), 'distinct_nontrivial': len(sigs), 'rule': _MOD.RULE,
                         'samples': samples, 'events_observed': dict(sorted(events.items())),
                         'oracle_evaluations': dict(sorted(oracles.items())),
                         'oracle_evaluations_total': int(sum(oracles.values())),
                         'cases_by_kind': dict(kinds), 'cases_planned': len(cases),
                         'slowest_case_s': round(max(slow)[0], 2) if slow else 0.,
                         'errors': [[i, s, (e or '')[-400:]] for i, s, e in errors[:5]],
                         'known_findings_seen': sorted(known_hit)},
            'assumptions': list(getattr(_MOD, 'ASSUMPTIONS', [])), 'wall_s': round(wall, 2), 'violations': len(viol)}
    if not a.replay and not a.only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evid, f, indent=1)
    print('%s %s seed=%d: %d/%d cases, %d oracle evaluations, %d distinct, %.1f s (slowest case %.1f s)' % (
        prop, tier, seed, len(res), len(cases), sum(oracles.values()), len(sigs), wall, evid['coverage']['slowest_case_s']))
    print('  events: ' + ', '.join('%s=%d' % kv for kv in sorted(events.items())))
    if a.verbose:
        for k, n in sorted(oracles.items()):
            print('   oracle %-40s %d' % (k, n))
        for t, i in sorted(slow)[::-1][:5]:
            print('   slow %.1f s: %s' % (t, json.dumps(jsonable(cases[i]))[:200]))
    for k in known_hit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if viol:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        shown = set()
        for i, v in viol:
            if (v['key'], cases[i]['kind']) in shown:
                continue
            shown.add((v['key'], cases[i]['kind']))
            path = os.path.join(HERE, 'replays', '%s_%s_%d_%d.json' % (prop, tier, seed, i))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'tier': tier, 'seed': seed, 'case': jsonable(cases[i]) if not a.replay else cases[i],
                           'violation': v}, f, indent=1)
            print('  %s [%s] %s %s' % (v['key'], cases[i]['kind'], v['msg'],
                                       json.dumps({k: x for k, x in v['detail'].items() if a.verbose or k != 'traceback'})[:1600]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            if len(shown) >= 8:
                break
        return 1
    if broken:
        print('ERROR', broken)
        return 2
    if errors:
        for i, s, e in errors[:3]:
            print('ERROR case %d (%s): %s\n%s' % (i, s, json.dumps(jsonable(cases[i]))[:300], e))
        return 2
    if a.replay or a.only:
        return 0
    missing = {k: n for k, n in _MOD.MIN.items() if events.get(k, 0) < n}
    if missing or len(res) == 0:
        print('INCONCLUSIVE: too few events observed: ' + ', '.join('%s %d < %d' % (k, events.get(k, 0), n)
                                                                   for k, n in missing.items()))
        return 2
    return 0
