"""
Core of the property-based testing framework: sub-checks, recording, helpers.

A property is a module ``kv.props.cNN`` that registers sub-checks with
:func:`sub`.  A sub-check is a Hypothesis strategy of JSON-able cases plus a
function ``check(case, rec)`` that drives the code of /repo with the case and
compares it with an explicit oracle.  It raises :class:`Fail` (via `must` /
`close` / `raises`) on a disagreement.
"""
import json
import math

import numpy as np

SUBS = {}


class Fail(AssertionError):
    """the code under test disagrees with the oracle"""


class Sub(object):
    def __init__(self, prop, name, strategy, fn, quick, thorough, rule):
        self.prop = prop
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.rule = rule


def sub(prop, name, strategy, quick, thorough, rule):
    """register a sub-check; `rule` says what makes a case non-trivial"""
    def deco(fn):
        SUBS.setdefault(prop, []).append(
            Sub(prop, name, strategy, fn, quick, thorough, rule))
        return fn
    return deco


class Rec(object):
    """what one executed case reports back"""

    def __init__(self):
        self.nontrivial = False
        self.labels = []

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def label(self, name, cond=True):
        if cond:
            self.labels.append(name)


# -- assertions --------------------------------------------------------------

def short(x, n=400):
    try:
        s = repr(x)
    except Exception:  # pragma: no cover
        s = '<unprintable>'
    s = ' '.join(s.split())
    return s if len(s) <= n else s[:n] + '...'


def must(cond, msg, *args):
    if not cond:
        raise Fail(msg + ''.join(' | ' + short(a) for a in args))


def eq(a, b, msg):
    """exact equality of array-likes (shape and elements) or scalars"""
    a_, b_ = np.asarray(a), np.asarray(b)
    if a_.shape != b_.shape:
        raise Fail('%s: shape %s, expected %s | got %s | expected %s' % (
            msg, a_.shape, b_.shape, short(a), short(b)))
    if a_.size and not np.array_equal(a_, b_):
        raise Fail('%s: differs | got %s | expected %s' % (
            msg, short(a), short(b)))


def close(a, b, msg, rtol=1e-9, atol=1e-12):
    """numerical equality (NaN never equals anything)"""
    a_ = np.asarray(a, dtype=float)
    b_ = np.asarray(b, dtype=float)
    if a_.shape != b_.shape:
        raise Fail('%s: shape %s, expected %s | got %s | expected %s' % (
            msg, a_.shape, b_.shape, short(a), short(b)))
    if a_.size == 0:
        return
    with np.errstate(all='ignore'):
        ok = (a_ == b_) | (np.abs(a_ - b_) <= atol + rtol * np.abs(b_))
    if not np.all(ok):
        raise Fail('%s: differs | got %s | expected %s' % (
            msg, short(a), short(b)))


def raises(exc, fn, msg):
    """fn() must raise one of `exc`"""
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        raise Fail('%s: expected %s, got %s' % (msg, exc, short(e)))
    raise Fail('%s: expected %s, returned %s' % (msg, exc, short(r)))


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def is_int_like(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, bool)


def finite(x):
    return bool(np.all(np.isfinite(np.asarray(x, dtype=float))))


def isclose(a, b, rtol=1e-9, atol=1e-12):
    return math.isclose(a, b, rel_tol=rtol, abs_tol=atol)
