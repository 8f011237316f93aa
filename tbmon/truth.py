"""What each query may answer, computed from the list of workshifts alone."""
import decimal
import fractions
from fractions import Fraction

import numpy as np
import pandas as pd

from .calmath import Freq
from .model import Unjudged, is_null

CLOSED = ('00', '01', '10', '11')
OOB, PARTIAL, VOID = ('OutOfBoundsError', 'PartialOutOfBoundsError',
                      'VoidIntervalError')
_NONE = object()


class Expect(object):
    def __init__(self, value=_NONE, kinds=(), cls=''):
        self.value_allowed = value is not _NONE
        self.value = value if self.value_allowed else None
        self.kinds = set(kinds)
        self.cls = cls or ('value' if self.value_allowed else
                           '|'.join(sorted(self.kinds)))


def select(duty, duties, lo, hi):
    if duty == 'any':
        return list(range(lo, hi + 1))
    if duty == 'on':
        return [k for k in range(lo, hi + 1) if duties[k]]
    if duty == 'off':
        return [k for k in range(lo, hi + 1) if not duties[k]]
    raise Unjudged('duty %r' % (duty,))


def members(i, j, duty, duties):
    return select(duty, duties, i, j)


def roll(i, steps, duty, duties, direction):
    if duty == 'same':
        duty = 'on' if duties[i] else 'off'
    elif duty == 'alt':
        duty = 'off' if duties[i] else 'on'
    idx = select(duty, duties, 0, len(duties) - 1)
    if direction > 0:
        z = [k for k, x in enumerate(idx) if x >= i]
        zero = z[0] if z else None
    else:
        z = [k for k, x in enumerate(idx) if x <= i]
        zero = z[-1] if z else None
    if zero is None:
        return Expect(kinds={OOB}, cls='no zero step')
    pos = zero + direction * steps
    if not 0 <= pos < len(idx):
        return Expect(kinds={OOB}, cls='no destination')
    return Expect(idx[pos])


def strip(i, j, closed):
    if closed[0] == '0':
        i += 1
    if closed[1] == '0':
        j -= 1
    return i, j


def ivl_points(tl, a, b, closed):
    if closed not in CLOSED:
        return Expect(kinds={'ValueError'}, cls='closed')
    la = 0 if a is None else tl.locate(a)
    lb = tl.n - 1 if b is None else tl.locate(b)
    rev = a is not None and b is not None and a > b
    oa, ob = la in ('L', 'R'), lb in ('L', 'R')
    if oa and ob:
        if la == lb:
            return Expect(kinds={OOB} | ({VOID} if rev else set()),
                          cls='outside')
        if rev:
            return Expect(kinds={VOID, PARTIAL, OOB}, cls='reversed-around')
        return Expect(kinds={PARTIAL}, cls='around')
    if oa or ob:
        backward = la == 'R' or lb == 'L'
        if backward:
            return Expect(kinds={VOID, PARTIAL, OOB}, cls='reversed-out')
        return Expect(kinds={PARTIAL}, cls='left' if oa else 'right')
    if la > lb:
        return Expect(kinds={VOID}, cls='reversed')
    i, j = strip(la, lb, closed)
    if i > j:
        return Expect(kinds={VOID}, cls='emptied')
    return Expect((i, j), cls='ok1' if i == j else 'ok')


def ivl_length(tl, t, n, closed):
    if closed not in CLOSED:
        return Expect(kinds={'ValueError'}, cls='closed')
    if n == 0:
        return Expect(kinds={VOID}, cls='zero')
    p = tl.locate(t)
    if p in ('L', 'R'):
        return Expect(kinds={OOB}, cls='t outside')
    a, b = (p, p + n - 1) if n > 0 else (p + n + 1, p)
    i, j = strip(a, b, closed)
    if a < 0 or b >= tl.n:
        return Expect(kinds={PARTIAL} | ({VOID} if i > j else set()),
                      cls='leaves left' if a < 0 else 'leaves right')
    if i > j:
        return Expect(kinds={VOID}, cls='emptied')
    return Expect((i, j), cls='ok1' if i == j else 'ok')


def ivl_period(tl, ps, pe, clip, closed):
    if closed not in CLOSED:
        return Expect(kinds={'ValueError'}, cls='closed')
    lo, hi = tl.starts[0], tl.ends[-1]
    if pe < lo or ps > hi:
        return Expect(kinds={OOB}, cls='outside')
    m = [k for k in range(tl.n) if ps <= tl.refs[k] <= pe]
    left, right = ps < lo, pe > hi
    ext = ('L' if left else '') + ('R' if right else '')
    if (left or right) and not clip:
        return Expect(kinds={PARTIAL} | (set() if m else {OOB}),
                      cls='extends ' + ext)
    if not m:
        return Expect(kinds={VOID} if not ext else {VOID, OOB, PARTIAL},
                      cls='no member ' + ext)
    i, j = m[0], m[-1]
    if closed[0] == '0' and not left:
        i += 1
    if closed[1] == '0' and not right:
        j -= 1
    if i > j:
        return Expect(kinds={VOID}, cls='emptied ' + ext)
    return Expect((i, j), cls='ok ' + ext)


NUMBER = (int, float, decimal.Decimal, fractions.Fraction, np.integer,
          np.floating)


def worktime(labels, durations, source):
    """Sum of work times, or TypeError; None if not settled."""
    if source == 'duration':
        return Expect(sum(durations))
    if not labels:
        return Expect(0)
    labels = [x.item() if isinstance(x, (np.integer, np.bool_)) else x
              for x in labels]
    num = [isinstance(x, NUMBER) and not is_null(x) for x in labels]
    if all(num):
        try:
            return Expect(sum(labels))
        except TypeError:           # numbers which cannot be mixed
            return None
    if all(n or isinstance(x, str) for n, x in zip(num, labels)):
        return Expect(kinds={'TypeError'})
    return None


SUPPORTED = ('S', 'T', 'min', 'H', 'D', 'W', 'M', 'Q', 'A', 'Y')
UNACC = 'UnacceptablePeriodError'


def count_periods(tl, i, j, freq, duty, duties):
    if freq not in SUPPORTED:
        return Expect(kinds={UNACC}, cls='unsupported')
    m = select(duty, duties, i, j)
    if not m:
        return Expect(Fraction(0), cls='no duty')
    f = Freq(freq)
    per = [f.ord(r) for r in tl.refs]
    p0, p1 = per[m[0]], per[m[-1]]
    lo, hi = tl.starts[0], tl.ends[-1]
    kinds = set()
    if f.start(p0) < lo or f.start(p0 + 1) - 1 > hi or \
            f.start(p1) < lo or f.start(p1 + 1) - 1 > hi:
        kinds |= {OOB, PARTIAL}
    populated = set(per)
    q0, q1 = f.ord(tl.starts[i]), f.ord(tl.ends[j])
    if q1 - q0 > 20000:
        raise Unjudged('too many periods')
    amid = any(p not in populated for p in range(p0 + 1, p1))
    edge = any(p not in populated and f.start(p) >= lo and
               f.start(p + 1) - 1 <= hi
               for p in list(range(q0, p0)) + list(range(p1 + 1, q1 + 1)))
    if amid:
        return Expect(kinds=kinds | {UNACC}, cls='empty period amid')
    if kinds:
        return Expect(kinds=kinds | ({UNACC} if edge else set()),
                      cls='beyond')
    total = {}
    for k in select(duty, duties, 0, tl.n - 1):
        total[per[k]] = total.get(per[k], 0) + 1
    value = sum((Fraction(1, total[per[k]]) for k in m), Fraction(0))
    e = Expect(value, kinds={UNACC} if edge else (),
               cls='edge' if edge else 'one period' if p0 == p1 else
               'two periods' if p1 == p0 + 1 else 'many periods')
    return e


# ------------------------------------------------------------ printed forms

def per_text(tb, ns):
    return str(pd.Period(pd.Timestamp(ns), freq=tb.freq))


def tb_text(tb):
    if tb.frame is None:
        raise Unjudged('frame')
    return "Timeboard of '%s': %s -> %s" % (
        tb.freq, per_text(tb, tb.frame.starts[0]),
        per_text(tb, tb.frame.starts[-2]))


def ws_compact(tb, i):
    d = tb.tl.durations[i]
    return "%s'%s' at %s" % ('' if d == 1 else '%dx' % d, tb.freq,
                             per_text(tb, tb.tl.starts[i]))


def _sch(tb, sch):
    return '' if sch.name == tb.default.name else ', ' + sch.name


def ws_text(tb, i, sch):
    return 'Workshift(%d%s) of %s' % (i, _sch(tb, sch), ws_compact(tb, i))


def ivl_text(tb, i, j, sch):
    return 'Interval((%d, %d)%s): %s -> %s [%d]' % (
        i, j, _sch(tb, sch), ws_compact(tb, i), ws_compact(tb, j), j - i + 1)
