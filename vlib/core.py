"""Common harness: seeds, budgets, worker pool, verdicts, evidence, known findings.

A check is a function run(chk) in /verif/checks/<id>.py.  It drives the code in /repo, feeds what it
observes to its monitors, and reports through this object:

    chk.event(monitor, n)          the monitor judged n observations
    chk.case(key, sample)          one generated case, `key` identifies it for distinctness
    chk.violation(mech, msg, ...)  a monitor refuted the property
    chk.note / chk.skip            something could not be judged (never a verdict)

Verdicts are three-valued: exit 1 with VIOLATION lines, exit 0 (held on what was observed), or exit 2
(inconclusive: a deciding monitor observed less than its declared minimum).
"""

import contextlib
import json
import os
import re
import signal
import sys
import time
import traceback
from collections import Counter
from pathlib import Path

import numpy as np

VERIF = Path(__file__).resolve().parent.parent
REPO = Path('/repo')


class CaseTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


class time_limit:
    """Watchdog around one case; firing is inconclusive, never a violation."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class EvalTimeout(Exception):
    """One evaluation inside a case took too long; the case goes on."""


class eval_limit:
    """Watchdog around one evaluation, nested inside time_limit."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self.left, _ = signal.getitimer(signal.ITIMER_REAL)
        self.t0 = time.time()
        self.old = signal.getsignal(signal.SIGALRM)
        if self.left and self.left <= self.seconds:
            return

        def fire(signum, frame):
            raise EvalTimeout()

        signal.signal(signal.SIGALRM, fire)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.signal(signal.SIGALRM, self.old)
        if self.left:
            signal.setitimer(signal.ITIMER_REAL, max(0.01, self.left - (time.time() - self.t0)))
        else:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return False


def jsonable(x, depth=0):
    if depth > 8:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, np.ndarray):
        if x.dtype == object or x.dtype.kind in 'US':
            return [jsonable(v, depth + 1) for v in x.tolist()] if x.ndim else str(x)
        if np.iscomplexobj(x):
            x = x.real
        return x.tolist()
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if x is None or isinstance(x, (int, float, str)):
        return x
    return repr(x)[:300]


class Rec:
    """What one case observed; workers return these, the parent merges them."""

    def __init__(self):
        self.events = Counter()
        self.cases = {}
        self.ncases = 0
        self.violations = []
        self.skips = Counter()
        self.stats = Counter()
        self.sets = {}

    def event(self, monitor, n=1):
        self.events[monitor] += n

    def case(self, key, sample=None):
        self.ncases += 1
        self.cases.setdefault(str(key), sample if len(self.cases) < 4 else None)

    def violation(self, mech, msg, **replay):
        self.violations.append((mech, msg, jsonable(replay)))

    def skip(self, why, n=1):
        self.skips[why] += n

    def stat(self, name, n=1):
        self.stats[name] += n

    def seen(self, name, item):
        self.sets.setdefault(name, set()).add(item)

    def merge(self, o):
        self.events.update(o.events)
        self.ncases += o.ncases
        for k, v in o.cases.items():
            self.cases.setdefault(k, v)
        self.violations.extend(o.violations)
        self.skips.update(o.skips)
        self.stats.update(o.stats)
        for k, v in o.sets.items():
            self.sets.setdefault(k, set()).update(v)


class Check(Rec):
    def __init__(self, pid, tier=None, seed=None):
        super().__init__()
        self.pid = pid
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.minimum = {}
        self.rule = ''
        self.assumptions = []
        self.level = 'exploration'
        self.extra = {}
        self.errors = []

    @property
    def quick(self):
        return self.tier != 'thorough'

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def rng(self, *keys):
        import zlib

        return np.random.default_rng([self.seed, *[zlib.crc32(str(k).encode()) for k in keys]])

    def elapsed(self):
        return time.time() - self.t0

    def require(self, monitor, n):
        """The deciding monitor has to judge at least n observations, or the run is inconclusive."""
        self.minimum[monitor] = n

    def pmap(self, fn, items, timeout=120, procs=8):
        """Run fn(rec, item) for every item in forked workers and merge what they observed."""
        items = list(items)
        if not items:
            return []
        nproc = max(1, min(procs, len(items)))
        import multiprocessing as mp
        from concurrent.futures import ProcessPoolExecutor, as_completed
        from concurrent.futures.process import BrokenProcessPool

        global _FN, _ITEMS
        _FN, _ITEMS = fn, items
        results = [None] * len(items)
        with ProcessPoolExecutor(nproc, mp_context=mp.get_context('fork')) as ex:
            futs = {ex.submit(_worker, i, timeout): i for i in range(len(items))}
            for f in as_completed(futs):
                i = futs[f]
                try:
                    rec, ret, err = f.result()
                except BrokenProcessPool:
                    self.skip('worker died')
                    continue
                except Exception as e:
                    self.skip('worker failed: ' + type(e).__name__)
                    self.errors.append(repr(e)[:300])
                    continue
                self.merge(rec)
                results[i] = ret
                if err:
                    self.skip('case error: ' + err[0])
                    self.errors.append(err[1])
        return results

    # ------------------------------------------------------------------ verdict
    def finish(self):
        known = load_known(self.pid)
        hits, bad = {}, {}
        for mech, msg, replay in self.violations:
            k = [e for e in known if re.fullmatch(e['pattern'], mech)]
            if k:
                hits.setdefault(k[0]['pattern'], (k[0], msg))
            else:
                bad.setdefault(mech, []).append((msg, replay))
        short = {m: (self.events.get(m, 0), n) for m, n in self.minimum.items() if self.events.get(m, 0) < n}
        ev = {
            'property': self.pid,
            'tier': 'thorough' if self.tier == 'thorough' else 'quick',
            'seed': self.seed,
            'level': self.level,
            'coverage': {
                'evaluations': int(self.ncases),
                'distinct_nontrivial': len(self.cases),
                'rule': self.rule,
                'samples': [jsonable({'case': k, 'detail': v}) for k, v in self.cases.items() if v is not None][:6]
                or [k for k in list(self.cases)[:4]],
                'monitor_observations': dict(self.events),
                'monitor_minimum_for_a_verdict': self.minimum,
                'not_judged': dict(self.skips),
                'statistics': dict(self.stats),
                **{k: (sorted(map(str, v))[:400] if len(v) <= 400 else len(v)) for k, v in self.sets.items()},
                **jsonable(self.extra),
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(bad),
        }
        if self.errors:
            ev['coverage']['case_errors'] = self.errors[:5]
        evdir = VERIF / 'evidence'
        evdir.mkdir(exist_ok=True)
        (evdir / f'{self.pid}.json').write_text(json.dumps(ev, indent=1))
        for mech, (k, msg) in hits.items():
            print(f'KNOWN-FINDING: property={self.pid} {k["what"]}')
        print(
            f'{self.pid} {self.tier} seed={self.seed}: cases={self.ncases} distinct={len(self.cases)} '
            f'observations={dict(self.events)} skips={dict(self.skips)} wall={ev["wall_s"]}s'
        )
        if bad:
            rd = evdir / 'replay'
            rd.mkdir(exist_ok=True)
            for i, (mech, lst) in enumerate(bad.items()):
                if i >= int(os.environ.get('VERIF_MAXSHOW', '12')):
                    print(f'... and {len(bad) - i} more mechanisms')
                    break
                path = rd / f'{self.pid}-{i}.json'
                path.write_text(
                    json.dumps(
                        jsonable(
                            {
                                'property': self.pid,
                                'mechanism': mech,
                                'message': lst[0][0],
                                'count': len(lst),
                                'seed': self.seed,
                                'tier': self.tier,
                                'rerun': f'VERIF_SEED={self.seed} VERIF_TIER={self.tier} /verif/check {self.pid}',
                                'witness': lst[0][1],
                            }
                        ),
                        indent=1,
                    )
                )
                print(f'VIOLATION property={self.pid} replay={path}')
                print(f'  [{mech}] {lst[0][0]} (x{len(lst)})'[:1500])
            return 1
        if short:
            print(f'INCONCLUSIVE property={self.pid}: monitors observed too little: {short}')
            for e in self.errors[:3]:
                print(e)
            return 2
        return 0


_FN = None
_ITEMS = None


def _worker(i, timeout):
    rec = Rec()
    ret = None
    err = None
    try:
        with time_limit(timeout), open(os.devnull, 'w') as null, contextlib.redirect_stdout(null), \
                contextlib.redirect_stderr(null):
            ret = _FN(rec, _ITEMS[i])
    except CaseTimeout:
        err = ('timeout', f'timeout on item {i}: {repr(_ITEMS[i])[:200]}')
    except Exception as e:
        err = (type(e).__name__, f'{repr(_ITEMS[i])[:200]}: {traceback.format_exc()[-1500:]}')
    return rec, ret, err


def load_known(pid):
    f = VERIF / 'known_findings.json'
    if not f.exists():
        return []
    return [e for e in json.loads(f.read_text())['known'] if e['property'] == pid]


def main(pid):
    import importlib
    import tempfile

    chk = Check(pid)
    scratch = tempfile.mkdtemp(prefix=f'verif_{pid}_')
    os.chdir(scratch)
    rc = 3
    try:
        mod = importlib.import_module(f'checks.{pid.lower()}')
        mod.run(chk)
        rc = chk.finish()
    except Exception:
        traceback.print_exc()
        print(f'ERROR property={pid}: the check itself failed')
        rc = 3
    finally:
        os.chdir('/')
        import shutil

        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    return rc
