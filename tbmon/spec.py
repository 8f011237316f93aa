"""JSON case specifications -> real objects (and model shadows).

Everything a workload does is described by JSON, so that any execution can be
replayed from a file.
"""
import collections
import datetime
import decimal
import fractions
import functools
import json
import operator

import numpy as np
import pandas as pd

from . import model as M
from .calmath import Freq


# ------------------------------------------------------------------ labels

class Tag(object):
    """A user's label object: hashable, with a truth value of its own."""

    def __init__(self, name, truth):
        self.name, self.truth = name, truth

    def __bool__(self):
        return self.truth

    def __eq__(self, other):
        return isinstance(other, Tag) and (self.name, self.truth) == \
            (other.name, other.truth)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash((self.name, self.truth))

    def __repr__(self):
        return 'Tag(%r, %r)' % (self.name, self.truth)


def dec_label(x):
    if isinstance(x, dict):
        (kind, v), = x.items()
        if kind == 'nan':
            return float('nan')
        if kind == 'tag':
            return Tag(*v)
        if kind == 'ts':
            return pd.Timestamp(v)
        if kind == 'dt':
            return datetime.datetime(*v)
        if kind == 'date':
            return datetime.date(*v)
        if kind == 'td':
            return pd.Timedelta(v, unit='s')
        if kind == 'pytd':
            return datetime.timedelta(seconds=v)
        if kind == 'per':
            return pd.Period(v)
        if kind == 'ivl':
            return pd.Interval(*v)
        if kind == 'tup':
            return tuple(dec_label(y) for y in v)
        if kind == 'lst':
            return [dec_label(y) for y in v]
        if kind == 'set':
            return set(v)
        if kind == 'dic':
            return dict(v)
        if kind == 'dec':
            return decimal.Decimal(v)
        if kind == 'frac':
            return fractions.Fraction(*v)
        if kind == 'big':
            return int(v)
        if kind == 'cplx':
            return complex(*v)
        if kind == 'bytes':
            return v.encode()
        if kind == 'NaT':
            return pd.NaT
        if kind == 'npf':
            return np.float32(v)
        if kind == 'npb':
            return np.bool_(v)
        raise ValueError(x)
    return x


class OnlyIter(object):
    """Iterable which supports nothing but iteration."""

    def __init__(self, items):
        self._items = list(items)

    def __iter__(self):
        return iter(self._items)


NARROW = {'npbool': bool, 'npu8': 'uint8', 'npi16': 'int16'}


def container(items, kind):
    if kind == 'tuple':
        return tuple(items)
    if kind == 'np':
        a = np.empty(len(items), dtype=object)
        for i, v in enumerate(items):
            a[i] = v
        return a
    if kind == 'npint':
        return np.array(items)
    if kind in NARROW:
        return np.array(items, dtype=NARROW[kind])
    if kind == 'series':
        return pd.Series(items, dtype=object)
    if kind == 'iter':
        return OnlyIter(items)
    if kind == 'gen':
        return (v for v in items)
    if kind == 'set':
        return set(items)
    if kind == 'keys':
        return dict.fromkeys(items).keys()
    if kind == 'part':
        # as one gets by filtering a longer series
        return pd.Series([None, None] + items, dtype=object)[2:]
    if kind == 'deque':
        return collections.deque(items)
    if kind == 'range' and items == list(range(len(items))):
        return range(len(items))
    if kind == 'dict':
        return dict.fromkeys(items)
    return list(items)


# ---------------------------------------------------------- points in time

class HasTimestamp(object):
    def __init__(self, t):
        self.t = t

    def to_timestamp(self):
        return self.t


def dec_pit(p):
    """{'t': ns, 'as': kind} -> an object of the user's world."""
    how = p.get('as', 'ts')
    if how == 'null':
        return [None, pd.NaT, float('nan'), np.datetime64('NaT'),
                pd.NA][p.get('t', 0) % 5]
    t = pd.Timestamp(p['t'])
    if how == 'ts':
        return t
    if how == 'str':
        s = '%04d-%02d-%02d %02d:%02d:%02d' % (t.year, t.month, t.day, t.hour,
                                               t.minute, t.second)
        ns = p['t'] % 10 ** 9
        return s + ('.%09d' % ns if ns else '')
    if how == 'txt' and p['t'] % (60 * 10 ** 9) == 0:
        s = t.strftime('%d %b ') + '%04d' % t.year
        if p['t'] % (86400 * 10 ** 9):
            s += t.strftime(' %H:%M')
        return s
    if how == 'dt' and p['t'] % 1000 == 0:
        return t.to_pydatetime()
    if how == 'date' and p['t'] % (86400 * 10 ** 9) == 0:
        return datetime.date(t.year, t.month, t.day)
    if how == 'np':
        return np.datetime64(p['t'], 'ns')
    if how == 'obj':
        return HasTimestamp(t)
    if how == 'int':
        return int(p['t'])
    if how == 'npint':
        return np.int64(p['t'])
    if how.startswith('per:'):
        f = Freq(how[4:])
        if f.mult > 1 and f.base in 'DHT':
            q = pd.Period(t, freq=how[4:])
            if q.start_time.value == p['t']:
                return q
        if f.mult == 1 and f.start(f.ord(p['t'])) == p['t']:
            return pd.Period(t, freq=how[4:])
    return t


# --------------------------------------------------------------- selectors

def _num(x):
    return x if isinstance(x, (int, float)) else 0


class Memo(dict):
    """A selector which remembers verdicts; false as long as it is empty."""

    def __call__(self, label):
        return self.get(None, _num(label) % 2 == 0)


class Rule(object):
    def __init__(self, low):
        self.low = low

    def verdict(self, label):
        return _num(label) > self.low

    def __len__(self):
        return 0

    __call__ = verdict


SELECTORS = {
    'memo': Memo(), 'rule': Rule(0), 'method': Rule(1).verdict,
    'partial': functools.partial(operator.ne, 1), 'type': bool,
    'truth': lambda x: bool(x),
    'identity': lambda x: x,
    'gt2': lambda x: _num(x) > 2,
    'eq1': lambda x: x == 1,
    'is_str': lambda x: isinstance(x, str),
    'not': lambda x: not x,
    'always': lambda x: True,
    'never': lambda x: False,
    'in_ab': lambda x: x in ('a', 'b', 1, 3),
    'np_gt1': lambda x: np.bool_(_num(x) > 1),
    'int_or_none': lambda x: 1 if _num(x) > 1 else None,
    'float_or_none': lambda x: 2.5 if _num(x) % 2 else None,
    'text_or_empty': lambda x: 'yes' if isinstance(x, str) and x else '',
    'zero_or_int': lambda x: int(_num(x)) % 3 if x == x else 0,
    'odd': lambda x: _num(x) % 2 == 1,
}


def truth(fn, label):
    return bool(fn(label))


# ------------------------------------------------------- custom `how` rules

def _mid(pi, normalize_by=None, frac=2, **kw):
    """The start of each period plus 1/frac of its length (to a second)."""
    res = []
    for p in pi:
        a, b = p.start_time.value, p.end_time.value + 1
        res.append((a + (b - a) // frac) // 10 ** 9 * 10 ** 9)
    return pd.DatetimeIndex(res)


def _mid_point(ps, pe, frac=2, **kw):
    return (ps + (pe + 1 - ps) // frac) // 10 ** 9 * 10 ** 9


_mid.model_point = _mid_point


def _last_second(pi, normalize_by=None, **kw):
    return pd.DatetimeIndex([p.end_time.value + 1 - 10 ** 9 for p in pi])


_last_second.model_point = lambda ps, pe, **kw: pe + 1 - 10 ** 9


def _alternate(pi, normalize_by=None, shift_days=0, **kw):
    """Only periods starting on an odd day number since the epoch."""
    day = 86400 * 10 ** 9
    return pd.DatetimeIndex([p.start_time.value + shift_days * day for p in pi
                             if (p.start_time.value // day) % 2])


def _alternate_point(ps, pe, shift_days=0, **kw):
    day = 86400 * 10 ** 9
    return ps + shift_days * day if (ps // day) % 2 else None


_alternate.model_point = _alternate_point

HOWS = {'mid': _mid, 'last_second': _last_second, 'alternate': _alternate}


def dec_how(h):
    return HOWS[h[1:]] if h.startswith('@') else h


# ------------------------------------------------------------------- digest

def canon(x):
    return json.dumps(x, sort_keys=True, separators=(',', ':'))
