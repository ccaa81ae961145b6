"""The same call in the package under test and in the reference: one outcome, or the property is judged broken."""

import math
import warnings
from enum import Enum
from pathlib import PurePath

import numpy as np

from vlib import prob as vp
from vlib.core import CaseTimeout, EvalTimeout, eval_limit

PKGS = ('aviary_ref', 'aviary')


def norm(x, depth=0):
    """Plain data that two packages can agree on."""
    if depth > 12:
        return '...'
    if isinstance(x, Enum):
        return ('enum', type(x).__name__, x.name)
    if isinstance(x, PurePath):
        return ('path', str(x).replace('aviary_ref', 'aviary'))
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, np.ndarray):
        return ('array', x.shape, [norm(v, depth + 1) for v in x.ravel().tolist()] if x.dtype != object else [norm(v, depth + 1) for v in x.ravel()])
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, type):
        return ('type', x.__name__)
    if isinstance(x, dict):
        return ('dict', {str(norm(k, depth + 1)): norm(v, depth + 1) for k, v in x.items()})
    if isinstance(x, tuple):
        return ('tuple', [norm(v, depth + 1) for v in x])
    if isinstance(x, (list, set, frozenset)):
        y = list(x) if isinstance(x, list) else sorted(x, key=repr)
        return ('list', [norm(v, depth + 1) for v in y])
    if isinstance(x, str):
        return x.replace('aviary_ref', 'aviary')
    if x is None:
        return None
    if hasattr(x, 'items') and hasattr(x, 'get_item'):
        return ('values', [(k, norm(v, depth + 1)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))])
    return ('object', type(x).__name__)


def same(a, b, rtol=1e-9, atol=1e-12):
    if isinstance(a, (bool, str)) or a is None or isinstance(b, (bool, str)) or b is None:
        return type(a) is type(b) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b or abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(sorted(a)) == list(sorted(b)) and all(same(v, b[k], rtol, atol) for k, v in a.items())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(v, w, rtol, atol) for v, w in zip(a, b))
    return a == b


def where(a, b, path='', rtol=1e-9, atol=1e-12):
    """First place two normalised values differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return f'{path}.{k}: only in ' + ('the release' if k in a else 'this tree')
            if not same(a[k], b[k], rtol, atol):
                return where(a[k], b[k], f'{path}.{k}', rtol, atol)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (v, w) in enumerate(zip(a, b)):
            if not same(v, w, rtol, atol):
                return where(v, w, f'{path}[{i}]', rtol, atol)
    return f'{path}: {str(a)[:200]} expected, {str(b)[:200]} found'


class Outcome:
    def __init__(self, ok, value):
        self.ok, self.value = ok, value


def call(fn, pkg, limit=40):
    try:
        with eval_limit(limit), vp.quiet():
            return Outcome(True, norm(fn(pkg)))
    except CaseTimeout:
        raise
    except EvalTimeout:
        return Outcome(None, 'took too long')
    except SystemExit as e:
        return Outcome(False, e)
    except Exception as e:
        return Outcome(False, e)


def judge(rec, mech, fn, replay=None, monitor='agreement with the release', limit=40, rtol=1e-9, atol=1e-12, describe=''):
    """fn(pkg) in both; returns (ref, cand) outcomes (None if it could not be judged)."""
    r = call(fn, 'aviary_ref', limit)
    if r.ok is None:
        rec.skip('the reference took too long')
        return None
    c = call(fn, 'aviary', limit)
    if c.ok is None:
        rec.skip('took too long')
        return None
    rec.event(monitor)
    if r.ok != c.ok:
        if r.ok:
            rec.violation(f'{mech}: fails', f'{describe} raises {c.value!r:.500}', case=replay)
        else:
            rec.violation(f'{mech}: has to be rejected', f'{describe}: the release raises {r.value!r:.400}, this tree returns {str(c.value)[:300]}', case=replay)
    elif r.ok and not same(r.value, c.value, rtol, atol):
        rec.violation(f'{mech}: differs', f'{describe} {where(r.value, c.value, "", rtol, atol)}', case=replay)
    return r, c
