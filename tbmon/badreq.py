"""Requests which must be refused (C27).

Each entry makes a request which is invalid and, mostly, a sibling of the same
shape which is valid.  The monitor demands the documented type of error for
the former, a result for the latter, and that neither changes anything in the
timeboards and schedules existing before.
"""
import numpy as np
import pandas as pd

from . import truth as T

TYPE, VALUE, KEY = {'TypeError'}, {'ValueError'}, {'KeyError'}
OOB, VOID = {'OutOfBoundsError'}, {'VoidIntervalError'}
PERIOD = {'UnacceptablePeriodError'}
NOT_SCHEDULE = [None, 'on_duty', 5, [], lambda x: True]


class Env(object):
    """What a request may refer to."""

    def __init__(self, s, tb, x):
        self.s, self.lib, self.tb, self.x = s, s.lib, tb, x
        self.T = tb.real
        self.n = tb.tl.n
        self.k = x % self.n
        self.t0 = pd.Timestamp(tb.tl.starts[self.k])
        self.last = pd.Timestamp(tb.tl.starts[self.n - 1])

    def ws(self, i=None):
        return self.lib.Workshift(self.T, self.k if i is None else i)

    def ivl(self):
        return self.lib.Interval(self.T, (0, self.n - 1))

    def make(self, **kw):
        a = dict(base_unit_freq='D', start='01 Jan 2017', end='20 Jan 2017',
                 layout=[1, 0, 2])
        a.update(kw)
        return self.lib.Timeboard(**a)

    def choose(self, items):
        return items[self.x // 7 % len(items)]


def org_marks(e):
    O = e.lib.Organizer
    both = e.choose([dict(marker='W', marks=['05 Jan 2017']),
                     dict(marker=e.lib.Marker('W'), marks=[]),
                     dict(marker='D', marks=())])
    none = e.choose([{}, dict(marker=None), dict(marks=None),
                     dict(marker=None, marks=None)])
    bad = both if e.x % 2 else none
    ok = e.choose([dict(marker='W'), dict(marks=['05 Jan 2017']),
                   dict(marks=[])])
    return (lambda: O(structure=[[1]], **bad), VALUE,
            lambda: O(structure=[[1]], **ok))


def org_structure(e):
    O = e.lib.Organizer
    bad = e.choose([5, None, 'week', 2.5, 'x', object()])
    return (lambda: O(marker='W', structure=bad), TYPE,
            lambda: O(marker='W', structure=e.choose(
                [[5], [None], ['week'], (1, [2, 3]), []])))


def layout(e):
    bad = e.choose([5, None, 'work', 1.5, e.lib.Marker('W'), 'a'])
    return (lambda: e.make(layout=bad), TYPE,
            lambda: e.make(layout=e.choose([[5], [None], ['work'], (1, 2), [],
                                            e.lib.Organizer(
                                                marker='W',
                                                structure=[[1, 0]])])))


def amendments(e):
    bad = e.choose([[1, 2], 'abc', 5, ('05 Jan 2017', 3), ['05 Jan 2017']])
    return (lambda: e.make(amendments=bad), TYPE,
            lambda: e.make(amendments=e.choose(
                [{}, None, {'05 Jan 2017': 3}, pd.Series({'05 Jan 2017': 3})])))


def worktime_source(e):
    bad = e.choose(['foo', None, '', 'label', 5, 'Duration'])
    return (lambda: e.make(worktime_source=bad), VALUE,
            lambda: e.make(worktime_source=e.choose(['duration', 'labels'])))


def freq(e):
    bad = e.choose(['foo', 'BM', 'MS', 'SM', 'D-MON', '', '0D', '-1D', 'BMS',
                    'QS', 'W-FOO'])
    return (lambda: e.make(base_unit_freq=bad), VALUE,
            lambda: e.make(base_unit_freq=e.choose(['D', '2D', 'W', 'H', 'M',
                                                    'W-FRI', 'Q', 'A'])))


def reversed_tb(e):
    return (lambda: e.make(start='05 Feb 2017', end='04 Feb 2017'), VOID,
            lambda: e.make(start='05 Feb 2017', end='05 Feb 2017'))


def closed(e):
    bad = e.choose(['2', None, '', 11, '111', '21', '1', 'both'])
    g = e.T.get_interval
    a, b = pd.Timestamp(e.tb.tl.starts[0]), e.last
    how = e.x % 4
    good = '11'
    if how == 0:
        return (lambda: g((a, b), closed=bad), VALUE,
                lambda: g((a, b), closed=good))
    if how == 1:
        return (lambda: g(a, length=e.n, closed=bad), VALUE,
                lambda: g(a, length=e.n, closed=good))
    if how == 2:
        return (lambda: g(e.t0, period='D', closed=bad), VALUE, None)
    return lambda: g(closed=bad), VALUE, lambda: g(closed=good)


def length_and_period(e):
    g = e.T if e.x % 2 else e.T.get_interval
    return (lambda: g(e.t0, length=e.choose([1, 2, -1]),
                      period=e.choose(['W', 'D', 'M'])), TYPE,
            lambda: g(e.t0, length=1))


def length_type(e):
    bad = e.choose([3.0, '3', 1.5, [1], '1'])
    return (lambda: e.T.get_interval(e.t0, length=bad), TYPE,
            lambda: e.T.get_interval(e.t0, length=e.choose([1, -1])))


def pair_with(e):
    a, b = pd.Timestamp(e.tb.tl.starts[0]), e.last
    kw = e.choose([dict(length=1), dict(period='D'), dict(length=-2),
                   dict(period='M')])
    return (lambda: e.T.get_interval((a, b), **kw), TYPE,
            lambda: e.T.get_interval((a, b)))


def reference(e):
    bad = e.choose([str(e.t0), 5, (), (e.t0,), e.t0])
    return (lambda: e.T.get_interval(bad), TYPE,
            lambda: e.T.get_interval((e.t0, e.t0)))


def schedule_in(e):
    bad = e.choose(['on_duty', 5, [], 'x', lambda x: True, e.T])
    how = e.x % 7
    L, s = e.lib, e.tb.default.real
    if how == 0:
        return (lambda: e.T.get_workshift(e.t0, schedule=bad), TYPE,
                lambda: e.T.get_workshift(e.t0, schedule=s))
    if how == 1:
        return (lambda: e.T.get_interval((e.t0, e.last), schedule=bad), TYPE,
                lambda: e.T.get_interval((e.t0, e.last), schedule=s))
    if how == 2:
        return (lambda: L.Workshift(e.T, e.k, schedule=bad), TYPE,
                lambda: L.Workshift(e.T, e.k, schedule=s))
    if how == 3:
        return (lambda: L.Interval(e.T, (0, e.k), schedule=bad), TYPE,
                lambda: L.Interval(e.T, (0, e.k), schedule=s))
    v = e.ivl()
    if how == 4:
        return (lambda: v.overlap(v, schedule=bad), TYPE,
                lambda: v.overlap(v, schedule=s))
    if how == 5:
        return (lambda: e.T.get_interval(e.t0, length=1, schedule=bad), TYPE,
                lambda: e.T.get_interval(e.t0, length=1, schedule=s))
    return (lambda: v.what_portion_of(v, schedule=bad), TYPE,
            lambda: v.what_portion_of(v, schedule=s))


def ws_position(e):
    W = e.lib.Workshift
    if e.x % 2:
        bad = e.choose(['3', 3.5, '0', 'x'])
        return lambda: W(e.T, bad), TYPE, lambda: W(e.T, e.k)
    return (lambda: W(e.T, e.n + e.choose([0, 1, 5, 1000])), OOB,
            lambda: W(e.T, e.n - 1))


def ivl_bounds(e):
    I = e.lib.Interval
    how = e.x % 4
    if how == 0:
        return (lambda: I(e.T, e.choose([5, None, 1.5])), TYPE,
                lambda: I(e.T, (0, 0)))
    if how == 1:
        bad = e.choose([(0.5, 1), ('0', '1'), (None, 0), (0, None), (0, '0')])
        return lambda: I(e.T, bad), TYPE, lambda: I(e.T, (0, e.k))
    if how == 2:
        bad = e.choose([(0, e.n), (e.n, e.n + 3), (e.k, e.n + 100)])
        return lambda: I(e.T, bad), OOB, lambda: I(e.T, (e.k, e.n - 1))
    if e.n < 2:
        return None
    i = 1 + e.x % (e.n - 1)
    return (lambda: I(e.T, (i, i - 1)), VOID, lambda: I(e.T, (i, i)))


def reversed_points(e):
    if e.n < 2:
        return None
    i = 1 + e.x % (e.n - 1)
    a = pd.Timestamp(e.tb.tl.starts[i])
    b = pd.Timestamp(e.tb.tl.ends[i - 1])
    return (lambda: e.T.get_interval((a, b)), VOID,
            lambda: e.T.get_interval((b, a)))


def outside(e):
    a = pd.Timestamp(e.tb.tl.starts[0] - e.choose([1, 10 ** 9, 10 ** 15]))
    b = pd.Timestamp(e.tb.tl.ends[e.n - 1] + e.choose([1, 10 ** 9, 10 ** 15]))
    f, l = e.t0, e.last
    bad, kinds, ok = e.choose([
        (lambda: e.T(a), OOB, lambda: e.T(f)),
        (lambda: e.T.get_workshift(b), OOB, lambda: e.T.get_workshift(l)),
        (lambda: e.T.get_interval((a, l)), {'PartialOutOfBoundsError'},
         lambda: e.T.get_interval((f, l))),
        (lambda: e.T.get_interval((f, b)), {'PartialOutOfBoundsError'},
         lambda: e.T.get_interval((f, l))),
        (lambda: e.T.get_interval(f, length=e.n - e.k + 1),
         {'PartialOutOfBoundsError'},
         lambda: e.T.get_interval(f, length=e.n - e.k)),
        (lambda: e.T.get_interval(f, length=-e.k - 2),
         {'PartialOutOfBoundsError'},
         lambda: e.T.get_interval(f, length=-e.k - 1)),
        (lambda: e.T.get_interval(b, length=-1), OOB, None),
    ])
    return bad, kinds, ok


def duty_ivl(e):
    bad = e.choose(['foo', None, '', 1, 'ON', 'same', 'alt', 'all', True])
    v = e.ivl()
    m = e.choose([
        lambda d: v.count(duty=d), lambda d: v.nth(0, duty=d),
        lambda d: v.first(duty=d), lambda d: v.last(duty=d),
        lambda d: list(v.workshifts(duty=d)),
        lambda d: v.total_duration(duty=d), lambda d: v.worktime(duty=d),
        lambda d: v.what_portion_of(v, duty=d),
        lambda d: v.count_periods('D', duty=d)])
    return lambda: m(bad), VALUE, lambda: e.ivl().count(
        duty=e.choose(['on', 'off', 'any']))


def duty_ws(e):
    w = e.ws()
    how = e.x % 3
    bad = e.choose(['foo', None, '', 1, 'ON', 'all', True])
    if how == 0:
        return lambda: w.rollforward(duty=bad), VALUE, lambda: w.rollforward(
            duty='any')
    if how == 1:
        return lambda: w.rollback(duty=bad), VALUE, lambda: w.rollback(
            duty='same')
    bad = e.choose(['foo', None, '', 'same', 'alt', 'ON'])
    return lambda: w.worktime(duty=bad), VALUE, None


def count_periods(e):
    bad = e.choose(['foo', 'BM', 'B', 'x'])
    return (lambda: e.ivl().count_periods(bad), PERIOD, None)


def operand(e):
    w, v = e.ws(), e.ivl()
    bad = e.choose([1.5, '1', w, None])
    how = e.x % 2
    if how == 0:
        return lambda: w + bad, TYPE, None
    return lambda: w - bad, TYPE, None


def schedule_taken(e):
    names = sorted(e.T.schedules)
    name = names[e.x % len(names)]
    return lambda: e.T.add_schedule(name, lambda x: True), KEY, None


def bad_selector(e):
    bad = e.choose([5, 'x', None, [1]])
    return lambda: e.T.add_schedule('brand new %d' % e.x, bad), None, None


def marker_period(e):
    bad = e.choose(['foo', 'B', 'BM', 'SM'])
    O = e.lib.Organizer
    kinds = PERIOD if bad in ('foo', 'B') else VALUE
    return (lambda: e.make(layout=O(marker=bad, structure=[[1, 0]])), kinds,
            lambda: e.make(layout=O(marker='W', structure=[[1, 0]])))


def marker_how(e):
    M = e.lib.Marker
    bad = e.choose(['foo', 'from_end_of_each', ''])
    return (lambda: M('M', at=[{'days': 1}], how=bad), KEY,
            lambda: M('M', at=[{'days': 1}], how='from_start_of_each'))


ALL = {f.__name__: f for f in (
    org_marks, org_structure, layout, amendments, worktime_source, freq,
    reversed_tb, closed, length_and_period, length_type, pair_with, reference,
    schedule_in, ws_position, ivl_bounds, reversed_points, outside, duty_ivl,
    duty_ws, count_periods, operand, schedule_taken, bad_selector,
    marker_period, marker_how)}


def run(s, op):
    tb = s.get(s.tb, op['tb'])
    try:
        req = ALL[op['what']](Env(s, tb, op['x']))
    except Exception as e:
        s.unjudged('request %s could not be prepared' % op['what'])
        return None
    if req is None:
        return None
    bad, kinds, good = req
    s.tag = 'bad'
    out = s.call(bad)
    what = op['what']
    if kinds is None:
        s.verdict('C27', not out.ok, '%s: accepted, gave %s' % (
            what, s.show(out.value)), what)
    elif out.ok:
        s.verdict('C27', False, '%s: %s expected, but the result is %s' % (
            what, sorted(kinds), s.show(out.value)), what)
    else:
        from .session import kinds_of
        k = kinds_of(out.value)
        s.verdict('C27', any(x in kinds for x in k),
                  '%s: %s expected, got %s: %s' % (
                      what, sorted(kinds), k[0], str(out.value)[:200]), what)
    if good is not None:
        o2 = s.call(good)
        s.verdict('C27', o2.ok, '%s: a valid request was refused: %s %s' % (
            what, type(o2.value).__name__, s.show(o2.value)), what + ' valid',
            sig='valid')
    s.stats.states['C27'].add('%s/%d/%s' % (what, op['x'] % 60, tb.freq))
    for other in s.tb.values():
        s.same_as_before(other, 'by a refused request (%s)' % what, 'C27')
        names = {k: v for k, v in other.real.schedules.items()}
        ok = set(names) == set(other.schedules) and all(
            names[k] is other.schedules[k].real for k in names) and \
            other.real.default_schedule is other.default.real
        s.verdict('C27', ok, 'schedules changed by a refused request (%s): %s'
                  % (what, sorted(names)), 'schedules', sig='schedules')
    sh = tb.default
    w = s.call(s.lib.Workshift, tb.real, op['x'] % tb.tl.n)
    if w.ok:
        d = s.call(w.value.is_on_duty)
        s.verdict('C27', d.ok and bool(d.value) == sh.duties[
            op['x'] % tb.tl.n], 'duty of workshift %d is %s' % (
                op['x'] % tb.tl.n, s.show(d.value)), 'duty', sig='duty')
    return out
