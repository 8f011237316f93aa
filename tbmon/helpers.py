"""Oracles and monitors for the functions computing holidays (C25)."""
import datetime

import pandas as pd

from . import model as M
from . import truth as T
from .calmath import (DAY, weekday, nth_weekday, easter_western,
                      easter_orthodox, civil_from_days as cfd)
from .spec import dec_label, dec_pit
from .session import snapshot


def funcs():
    from timeboard.calendars import calendarbase as C
    return C


def dict_diff(got, exp):
    """exp: {day number: label}"""
    if not isinstance(got, dict):
        return 'not a dict: %r' % (got,)
    g = {}
    for k, v in got.items():
        if not isinstance(k, pd.Timestamp):
            return 'key %r is not a timestamp' % (k,)
        if k.value % DAY:
            return 'key %s is not a day' % k
        g[k.value // DAY] = v
    if len(g) != len(got):
        return 'keys are repeated: %r' % sorted(got)
    miss, extra = sorted(set(exp) - set(g)), sorted(set(g) - set(exp))
    if miss or extra:
        return 'missing dates %s, unexpected dates %s' % (
            ['%d-%02d-%02d' % cfd(d) for d in miss][:5],
            ['%d-%02d-%02d' % cfd(d) for d in extra][:5])
    for d in exp:
        if not M.same_label(g[d], exp[d]):
            return '%s: label %r instead of %r' % (
                '%d-%02d-%02d' % cfd(d), g[d], exp[d])
    return None


def nth(s, op):
    s.tag = 'nth'
    C = funcs()
    dates = [tuple(d) for d in op['dates']]
    kw = {}
    if 'label' in op:
        kw['label'] = dec_label(op['label'])
    if 'errors' in op:
        kw['errors'] = op['errors']
    out = s.call(C.nth_weekday_of_month, op['year'], dates, **kw)
    label = kw.get('label', 0)
    exp, missing = {}, False
    for d in dates:
        day = nth_weekday(op['year'], d[0], d[1], d[2])
        if day is None:
            missing = True
        else:
            exp[day + (d[3] if len(d) > 3 else 0)] = label
    e = T.Expect(kinds={'OutOfBoundsError'}) if missing and \
        op.get('errors') == 'raise' else T.Expect(exp)
    s.judge('C25', out, e, dict_diff, trivial=not dates)
    s.stats.states['C25'].add('nth/%s/%s/%s' % (
        missing, op.get('errors'), '+'.join(sorted(
            {str(d[2]) for d in dates}))))
    return text(out)


def easter(s, op):
    s.tag = 'easter'
    C = funcs()
    kw = {}
    if 'type' in op:
        kw['easter_type'] = op['type']
    if 'label' in op:
        kw['label'] = dec_label(op['label'])
    shifts = list(op['shifts'])
    if op.get('c') == 'tuple':
        shifts = tuple(shifts)
    out = s.call(C.from_easter, op['year'], shifts, **kw)
    f = easter_orthodox if op.get('type') == 'orthodox' else easter_western
    e0 = f(op['year'])
    exp = {e0 + k: kw.get('label', 0) for k in shifts}
    s.judge('C25', out, T.Expect(exp), dict_diff, trivial=not shifts)
    s.stats.states['C25'].add('easter/%s/%s' % (op.get('type'), cfd(e0)[1:]))
    return text(out)


def extend(s, op):
    s.tag = 'extend'
    C = funcs()
    items = {}
    for p, v in op['days']:
        items[dec_pit(p)] = dec_label(v)
    if len({M.ts(k) for k in items}) != len(items):
        raise M.Unjudged('a day given twice')
    snap = snapshot(items)
    kw = {}
    for k in ('how', 'weekend'):
        if k in op:
            kw[k] = list(op[k]) if isinstance(op[k], list) else op[k]
    if 'label' in op:
        kw['label'] = dec_label(op['label'])
    out = s.call(C.extend_weekends, items, **kw)
    s.cur = op
    s.verdict(['C20', 'C25'], snapshot(items) == snap,
              'the given dictionary was modified', 'intact')
    how = op.get('how', 'nearest')
    wend = op.get('weekend', [5, 6])
    exp = {M.ts(k) // DAY: v for k, v in items.items()}
    n, L, chained = 0, len(wend), 0
    for day in sorted(exp):
        wd = weekday(day)
        if wd not in wend:
            continue
        n += 1
        loc = wend.index(wd)
        back, fwd = loc + 1, L - loc
        if how == 'previous' or (how == 'nearest' and back < fwd):
            new, step = day - back, -1
        else:
            new, step = day + fwd, 1
        while new in exp:
            new += step
            chained += 1
        if weekday(new) in wend:
            raise M.Unjudged('chain of holidays reaches the next weekend')
        label = kw.get('label')
        exp[new] = exp[day] if label is None else label
    s.judge('C25', out, T.Expect(exp), dict_diff, trivial=not n)
    s.stats.states['C25'].add('extend/%s/%d/%d/%d' % (how, L, min(n, 4),
                                                     min(chained, 4)))
    return text(out)


def text(out):
    from .session import Out
    if out.ok and isinstance(out.value, dict):
        return Out(True, sorted((str(k), repr(v))
                                for k, v in out.value.items()))
    return out


def run(s, op):
    return {'h_nth': nth, 'h_easter': easter, 'h_ext': extend}[op['op']](s, op)
