"""Shared by the checks of metrics: inputs and exact definitions."""
from contextlib import contextmanager
from fractions import Fraction
import io
import json
import math
import sys

from hypothesis import strategies as st
import numpy as np

from .core import must

FORMS = ['list', 'float', 'float32', 'int', 'int32', 'tuple', 'readonly',
         'strided']


@st.composite
def vectors(draw, n, pools=('grid', 'half', 'wide', 'tiny', 'offset')):
    """n numbers as JSON-able floats"""
    pool = draw(st.sampled_from(list(pools)))
    if pool == 'grid':
        e = st.integers(-3, 6).map(float)
    elif pool == 'half':
        e = st.integers(-20, 20).map(lambda i: i / 4.0)
    elif pool == 'wide':
        e = st.floats(-1e6, 1e6, allow_nan=False, width=32).map(
            # squares of squares must not underflow in single precision
            lambda x: x if abs(x) > 1e-3 else 0.0)
    elif pool == 'tiny':
        e = st.integers(-99, 99).map(lambda i: i * 1e-7)
    elif pool == 'huge':
        e = st.integers(-8, 8).map(lambda i: i * 1e40)
    elif pool == 'micro':
        e = st.integers(-8, 8).map(lambda i: i * 1e-25)
    elif pool == 'far':
        e = st.integers(-8, 8).map(lambda i: -2.0 ** 20 + i / 64.0)
    else:
        e = st.integers(-8, 8).map(lambda i: 4096.0 + i / 8.0)
    return draw(st.lists(e, min_size=n, max_size=n))


def give(v, form):
    """the values as an argument of the given form"""
    if form in ('int', 'int32') and any(x != int(x) for x in v):
        form = 'float'
    if form == 'list':
        return list(v)
    if form == 'tuple':
        return tuple(v)
    if form == 'readonly':
        a = np.array(v, dtype=float)
        a.setflags(write=False)
        return a
    if form == 'strided':
        a = np.full(2 * len(v), np.nan)
        a[::2] = v
        return a[::2]
    return np.array(v, dtype={'float': float, 'int': int}.get(form, form))


def values_of(a):
    """the exact values of an argument"""
    return [Fraction(float(x)) for x in np.asarray(a).ravel().tolist()]


def small(a):
    d = np.asarray(a).dtype
    return d.itemsize <= 4


def mean(v):
    return sum(v, Fraction(0)) / len(v)


def stdev(v):
    m = mean(v)
    return math.sqrt(sum((x - m) ** 2 for x in v) / len(v))


def near(got, want, scale, eps, what):
    got, want = float(got), float(want)
    must(abs(got - want) <= eps * (scale + 1e-30) + 1e-9 * abs(want) * (
        eps > 0), what, got, want)


@contextmanager
def captured():
    """standard output and error as text"""
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield sys.stdout, sys.stderr
    finally:
        sys.stdout, sys.stderr = out, err


def describe(stats, v, what, eps):
    scale = float(max(abs(x) for x in v))
    near(stats['mean'], mean(v), scale, eps, 'mean of %s scores' % what)
    near(stats['stdev'], stdev(v), scale, eps,
         'standard deviation of %s scores' % what)


def report(fn, t, p, disp):
    """run a report; (stats, printed text) after checks of its output"""
    with captured() as (out, err):
        if disp is None:
            stats = fn(t, p)
        else:
            stats = fn(t, p, disp=disp)
    text = err.getvalue()
    must(out.getvalue() == '', 'nothing on standard output', out.getvalue())
    if disp is False:
        must(text == '', 'nothing is printed if not asked', text)
    else:
        shown = json.loads(text)
        must(shown == json.loads(json.dumps(stats)),
             'the printed report is the returned one', shown, stats)
    return stats
