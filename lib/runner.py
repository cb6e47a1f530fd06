"""Runs the cases of one check on all cores, collects what the monitors observed, writes the evidence."""

import collections
import hashlib
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from typing import Any, Callable, Dict, List, Optional

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Watchdog(BaseException):
    pass


class Inconclusive(Exception):
    pass


class CaseFailed(Exception):
    pass


class Ctx:
    """Handed to every case: scratch directory, counters, verdicts."""

    def __init__(self, prop: str, tier: str, seed: int):
        self.prop, self.tier, self.base_seed = prop, tier, seed
        self.counters: collections.Counter = collections.Counter()
        self.features: collections.Counter = collections.Counter()
        self.distinct: set = set()
        self.samples: List[Any] = []
        self.violations: List[Dict[str, Any]] = []
        self.known: List[str] = []
        self.inconclusive: List[str] = []
        self.dir = ''
        self.case: Any = None
        self._n = 0

    def count(self, name: str, n: int = 1) -> None:
        self.counters[name] += n

    def nontrivial(self, *key) -> None:
        self.distinct.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def sample(self, obj: Any, limit: int = 3) -> None:
        if len(self.samples) < limit:
            self.samples.append(obj)

    def fail(self, msg: str, **detail) -> None:
        """Record a violation and give up on this case."""
        self.violations.append({'case': self.case, 'message': msg, 'detail': {k: repr(v)[:3000] for k, v in detail.items()}})
        raise CaseFailed(msg)

    def check(self, cond: bool, msg: str, **detail) -> None:
        self.counters['monitor_evaluations'] += 1
        if not cond:
            self.fail(msg, **detail)

    def equal(self, exp, got, msg: str, **detail) -> None:
        self.counters['monitor_evaluations'] += 1
        if exp != got:
            from truth import dict_diff

            self.fail(msg, differences=dict_diff(exp, got)[:5], **detail)

    def sub(self, name: Optional[str] = None) -> str:
        self._n += 1
        d = os.path.join(self.dir, name or f'd{self._n}')
        os.makedirs(d, exist_ok=True)
        return d


def _alarm(_s, _f):
    raise Watchdog()


def run_cases(ctx: Ctx, fn: Callable, cases: List[Any], deadline: float, watchdog: int) -> None:
    signal.signal(signal.SIGALRM, _alarm)
    for case in cases:
        if time.time() > deadline:
            ctx.count('cases_skipped_deadline')
            continue
        if len(ctx.violations) >= 3:
            break
        ctx.case = case
        ctx.dir = tempfile.mkdtemp(prefix=f'{ctx.prop}-')
        signal.alarm(watchdog)
        try:
            fn(ctx, case)
            ctx.count('cases')
        except CaseFailed:
            pass
        except Watchdog:
            ctx.inconclusive.append(f'watchdog ({watchdog} s) fired in case {case}')
        except Inconclusive as e:
            ctx.inconclusive.append(f'case {case}: {e}')
        except MemoryError:
            ctx.inconclusive.append(f'out of memory in case {case}')
        except Exception:
            # The monitor could not make sense of what the tool did or printed.
            ctx.violations.append({'case': case, 'message': 'the observed behaviour cannot be interpreted', 'detail': {'traceback': traceback.format_exc()[-3000:]}})
        finally:
            signal.alarm(0)
            shutil.rmtree(ctx.dir, ignore_errors=True)


def _worker(args) -> Dict[str, Any]:
    prop, tier, seed, fn, cases, deadline, watchdog = args
    ctx = Ctx(prop, tier, seed)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    run_cases(ctx, fn, cases, deadline, watchdog)
    return {'counters': dict(ctx.counters), 'features': dict(ctx.features), 'distinct': list(ctx.distinct), 'samples': ctx.samples,
            'violations': ctx.violations, 'inconclusive': ctx.inconclusive, 'known': ctx.known}


def known_findings(prop: str) -> List[str]:
    res = []
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                line = line.strip()
                if line.startswith(f'known: property={prop} '):
                    res.append(line.split(' ', 2)[2])
    except OSError:
        pass
    return res


def main(prop: str, mod, tier: str, seed: int, replay: Optional[str] = None) -> int:
    # Everything that is written goes below one directory, which is gone at the end whatever happens.
    old = tempfile.tempdir
    scratch = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    tempfile.tempdir = scratch
    try:
        return _main(prop, mod, tier, seed, replay)
    finally:
        tempfile.tempdir = old
        shutil.rmtree(scratch, ignore_errors=True)


def _main(prop: str, mod, tier: str, seed: int, replay: Optional[str] = None) -> int:
    t0 = time.time()
    import driver

    driver.load()
    fn = mod.case
    cases = mod.cases(tier, seed)
    if replay:
        with open(replay) as f:
            rep = json.load(f)
        case = rep['case']
        case = tuple(case) if isinstance(case, list) else case
        ctx = Ctx(prop, tier, seed)
        run_cases(ctx, fn, [case], time.time() + 600, 300)
        for v in ctx.violations:
            print(json.dumps(v, indent=1))
        print('violations:', len(ctx.violations), 'inconclusive:', ctx.inconclusive)
        return 1 if ctx.violations else 0

    budget = getattr(mod, 'BUDGET', {}).get(tier, 500 if tier == 'quick' else 3000)
    deadline = t0 + budget
    watchdog = getattr(mod, 'WATCHDOG', 120)
    nproc = min(8, os.cpu_count() or 8, max(1, len(cases)))
    # Interleave, so every worker gets all kinds of cases; small chunks so a violation ends the run early.
    nchunks = max(nproc, min(len(cases), nproc * 8))
    chunks = [cases[k::nchunks] for k in range(nchunks)]
    jobs = [(prop, tier, seed, fn, c, deadline, watchdog) for c in chunks if c]
    tot = {'counters': collections.Counter(), 'features': collections.Counter(), 'distinct': set(), 'samples': [], 'violations': [],
           'inconclusive': [], 'known': set()}
    mp = multiprocessing.get_context('fork')
    with mp.Pool(nproc, maxtasksperchild=None) as pool:
        for r in pool.imap_unordered(_worker, jobs):
            tot['counters'].update(r['counters'])
            tot['features'].update(r['features'])
            tot['distinct'].update(r['distinct'])
            if len(tot['samples']) < 6:
                tot['samples'] += r['samples'][:2]
            tot['violations'] += r['violations']
            tot['inconclusive'] += r['inconclusive']
            tot['known'].update(r['known'])
            if len(tot['violations']) >= 3:
                pool.terminate()
                pool.join()
                break

    violations = tot['violations']
    listed = known_findings(prop)
    for k in sorted(tot['known']):
        if k in listed:
            print(f'KNOWN-FINDING: property={prop} {k}')
        else:
            violations.append({'case': ('known', k), 'message': f'not listed in known_findings.txt: {k}', 'detail': {}})

    rc = 0
    if violations:
        rc = 1
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for n, v in enumerate(violations[:5]):
            path = os.path.join(rdir, f'{prop}-{tier}-{seed}-{n}.json')
            with open(path, 'w') as f:
                json.dump({'property': prop, 'tier': tier, 'seed': seed, **v,
                           'how': f'cd /verif && {sys.executable} check.py {prop} --replay {path}'}, f, indent=1)
            print(f'VIOLATION property={prop} replay={path}')
            print(f'  {v["message"]}')
            for k, d in list(v['detail'].items())[:4]:
                print(f'    {k}: {d[-1200:]}')

    required = getattr(mod, 'REQUIRED', {})
    missing = [k for k, n in required.items() if tot['counters'].get(k, 0) + tot['features'].get(k, 0) < n]
    if rc == 0 and (tot['inconclusive'] or missing or not tot['counters'].get('cases')):
        rc = 2
        for m in tot['inconclusive'][:5]:
            print(f'INCONCLUSIVE property={prop} {m}')
        for m in missing:
            print(f'INCONCLUSIVE property={prop} monitor "{m}" reached {tot["counters"].get(m, 0) + tot["features"].get(m, 0)} times, at least {required[m]} expected')

    ev = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': tot['counters'].get('cases', 0) + len(violations),
            'distinct_nontrivial': len(tot['distinct']),
            'rule': mod.RULE,
            'samples': tot['samples'][:6],
            'observed': {k: v for k, v in sorted(tot['counters'].items()) if k != 'cases'},
            'features': dict(sorted(tot['features'].items())),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    print(f'{prop} {tier} seed={seed}: {ev["coverage"]["evaluations"]} executions groups, {ev["coverage"]["distinct_nontrivial"]} distinct, '
          f'{tot["counters"].get("monitor_evaluations", 0)} monitor evaluations, {len(violations)} violations, {ev["wall_s"]} s, exit {rc}')
    return rc
