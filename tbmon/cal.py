"""Day-exact oracles and monitors for the preconfigured calendars (C21-C24)."""
import importlib

import numpy as np
import pandas as pd

from . import model as M
from . import ru_golden
from .calmath import (DAY, days_from_civil as dfc, civil_from_days as cfd,
                      weekday, nth_weekday, easter_western, Freq)
from .spec import dec_label, dec_pit, canon

RANGE = {'US': (2000, 2020), 'UK': (2000, 2020), 'RU': (2005, 2021)}

US_NAMES = ['new_year', 'mlk', 'presidents', 'memorial', 'independence',
            'labor', 'columbus', 'veterans', 'thanksgiving', 'black_friday',
            'christmas', 'xmas_additional_day', 'one_off']
UK_NAMES = ['new_year', 'new_year2', 'st_patricks', 'good_friday',
            'easter_monday', 'early_may', 'spring', 'summer', 'orangemens',
            'st_andrews', 'christmas', 'boxing', 'royal']

ANY = object()          # a day the documentation does not settle


# ------------------------------------------------------------------ oracles

def us_days_off(lw, dno):
    """{day number: why} of all weekdays off within 2000-2020."""
    off = {}
    fixed = {'new_year': (1, 1), 'independence': (7, 4), 'veterans': (11, 11),
             'christmas': (12, 25)}
    for y in range(1999, 2022):
        for name, (m, d) in fixed.items():
            if name in dno:
                continue
            day = dfc(y, m, d)
            off[day] = name
            if lw and weekday(day) == 5:
                off[day - 1] = name + ' observed'
            if lw and weekday(day) == 6:
                off[day + 1] = name + ' observed'
        rules = {'mlk': (1, 1, 3), 'presidents': (2, 1, 3),
                 'memorial': (5, 1, -1), 'labor': (9, 1, 1),
                 'columbus': (10, 1, 2), 'thanksgiving': (11, 4, 4)}
        for name, (m, wd, n) in rules.items():
            if name not in dno:
                off[nth_weekday(y, m, wd, n)] = name
        if 'black_friday' not in dno:
            off[nth_weekday(y, 11, 4, 4) + 1] = 'black_friday'
    if 'xmas_additional_day' not in dno:
        off[dfc(2014, 12, 26)] = 'xmas_additional_day'
        off[dfc(2018, 12, 24)] = 'xmas_additional_day'
    if 'one_off' not in dno:
        off[dfc(2018, 12, 5)] = 'one_off'
    return off


UK_FIXED = {'new_year': (1, 1), 'new_year2': (1, 2), 'st_patricks': (3, 17),
            'orangemens': (7, 12), 'st_andrews': (11, 30),
            'christmas': (12, 25), 'boxing': (12, 26)}
UK_ABSENT = {
    'england': {'new_year2', 'st_patricks', 'orangemens', 'st_andrews'},
    'scotland': {'st_patricks', 'orangemens', 'easter_monday'},
    'northern_ireland': {'new_year2', 'st_andrews'},
}


def uk_days_off(country, lw, dno):
    off = {}
    observed = set(UK_NAMES) - UK_ABSENT[country] - set(dno)
    days = []
    for y in range(1999, 2022):
        for name, (m, d) in UK_FIXED.items():
            if name not in observed:
                continue
            if name == 'st_andrews' and y < 2007:
                continue
            days.append((dfc(y, m, d), name))
    days.sort()
    for day, name in days:
        off[day] = name
    if lw:
        for day, name in days:
            if weekday(day) >= 5:
                sub = day + 1
                while weekday(sub) >= 5 or sub in off:
                    sub += 1
                off[sub] = name + ' substitute'
    moved = {'early_may': {2020: dfc(2020, 5, 8)},
             'spring': {2002: None, 2012: None}}
    for y in range(2000, 2021):
        rules = {'early_may': (5, 1, 1), 'spring': (5, 1, -1),
                 'summer': (8, 1, 1 if country == 'scotland' else -1)}
        for name, (m, wd, n) in rules.items():
            if name in observed:
                day = nth_weekday(y, m, wd, n)
                if y in moved.get(name, ()):
                    day = moved[name][y]
                if day is not None:
                    off[day] = name
        e = easter_western(y)
        if 'good_friday' in observed:
            off[e - 2] = 'good_friday'
        if 'easter_monday' in observed:
            off[e + 1] = 'easter_monday'
    jubilee = [dfc(2002, 6, 3), dfc(2002, 6, 4), dfc(2012, 6, 4),
               dfc(2012, 6, 5)]
    if 'royal' in observed:
        for day in jubilee:
            off[day] = 'royal'
        off[dfc(2011, 4, 29)] = 'royal'
    if ('royal' in observed) != ('spring' in observed):
        # whether the spring holiday moves if one of the two is not observed
        for day in jubilee + [dfc(2002, 5, 27), dfc(2012, 5, 28)]:
            off[day] = ANY
    return off


_cache = {}


def day_oracle(mod, opts):
    """-> function: day number -> expected hours, or ANY"""
    key = canon([mod, opts])
    if key in _cache:
        return _cache[key]
    dno = frozenset(opts.get('dno') or ())
    lw = opts.get('lw', True)
    if mod == 'RU':
        base = {}
        for y, text in ru_golden.HOURS.items():
            d0 = dfc(y, 1, 1)
            for k, c in enumerate(text):
                h = int(c)
                if h == 7 and opts.get('eves', True) is False:
                    h = 8
                base[d0 + k] = h
            if opts.get('dec31', True) is False:
                base[dfc(y, 12, 31)] = 0
        fn = base.get
    else:
        off = us_days_off(lw, dno) if mod == 'US' else \
            uk_days_off(opts.get('country', 'england'), lw, dno)

        def fn(day):
            if weekday(day) >= 5:
                return 0
            if day in off:
                return ANY if off[day] is ANY else 0
            return 8
    if len(_cache) > 200:
        _cache.clear()
    _cache[key] = fn
    return fn


# What the code is known to get wrong: day -> (expected, got)
KNOWN_DAYS = {
    'US': {dfc(2014, 12, 26): (0, 8), dfc(2018, 12, 26): (8, 0)},
}
KNOWN_KEY = 'us-26-dec-2014-and-2018'


def split_known(mod, diffs):
    """[(day, expected, got)] -> (known, the others)"""
    k = KNOWN_DAYS.get(mod, {})
    known = [x for x in diffs if k.get(x[0]) == (x[1], x[2])]
    return known, [x for x in diffs if x not in known]


def text_of(diffs):
    return '%d days differ: %s' % (len(diffs), ', '.join(
        '%04d-%02d-%02d expected %r got %r' % (cfd(d) + (e, g))
        for d, e, g in diffs[:5]))


# ----------------------------------------------------------------- the event

def flag(op, v):
    """A flag in the dress the case asks for."""
    return {'int': int, 'np': np.bool_}.get(op.get('flag'), bool)(v)


def build_kwargs(s, op):
    kw, opts = {}, {}
    if op.get('start') is not None:
        kw['custom_start'] = dec_pit(op['start'])
    if op.get('end') is not None:
        kw['custom_end'] = dec_pit(op['end'])
    if op.get('dno') is not None:
        c = {'set': set, 'frozenset': frozenset}[op.get('dno_as', 'set')]
        kw['do_not_observe'] = c(op['dno'])
        s.own(kw['do_not_observe'])
        opts['dno'] = sorted(op['dno'])
    for k, name in (('lw', 'long_weekends'), ('country', 'country'),
                    ('eves', 'short_eves'), ('dec31', 'work_on_dec31')):
        if k in op:
            kw[name] = op[k] if k == 'country' else flag(op, op[k])
            opts[k] = op[k]
    if op.get('custom') is not None:
        kw['custom_amendments'] = {dec_pit(p): dec_label(v)
                                   for p, v in op['custom']}
        s.own(kw['custom_amendments'])
    if 'dna' in op:
        kw['do_not_amend'] = flag(op, op['dna'])
    if 'oca' in op:
        kw['only_custom_amendments'] = flag(op, op['oca'])
    return kw, opts


def labels_of(s, real, exact=False):
    """{day: label} or None, and the walk of a daily timeboard.

    Walking 20 years by workshifts is slow.  The dataframe is read instead and
    compared with the workshifts at a sample of positions; anything unexpected
    makes the whole calendar be walked.
    """
    w = None if exact else quick_walk(s, real)
    if w is None:
        w = s.walk(real, 20000)
    for a, b, d in zip(w.starts, w.ends, w.durations):
        if a % DAY or b != a + DAY - 1 or d != 1:
            return None, w
    return {a // DAY: l for a, l in zip(w.starts, w.labels)}, w


def quick_walk(s, real):
    try:
        df = real.to_dataframe()
        n = len(df)
        if n < 400:
            return None
        starts = [int(x) for x in df['start'].values.astype('int64')]
        ends = [int(x) for x in df['end'].values.astype('int64')]
        w = M.Timeline(starts, ends, [int(x) for x in df['duration']],
                       list(df['label']), 'start')
        for i in sorted({0, n - 1} | set(range(3, n, 37))):
            x = s.lib.Workshift(real, i)
            if (x.start_time.value, x.end_time.value, int(x.duration)) != \
                    (starts[i], ends[i], w.durations[i]) or \
                    not M.same_label(x.label, w.labels[i]):
                return None
        try:
            s.lib.Workshift(real, n)
            return None
        except s.lib.OutOfBoundsError:
            return w
    except Exception:
        return None


_full = {}


def full_calendar(s, mod, cls, opts, kw, exact=False):
    key = canon([mod, opts])
    if key not in _full:
        k2 = {k: v for k, v in kw.items() if k in (
            'do_not_observe', 'long_weekends', 'country', 'short_eves',
            'work_on_dec31')}
        out = s.call(cls, **k2)
        if len(_full) > 60:
            _full.clear()
        _full[key] = labels_of(s, out.value, exact)[0] if out.ok else None
    return _full[key]


def run(s, op):
    """Judged by the dataframe first; any doubt is settled by the walk."""
    n = len(s.violations)
    out = run_once(s, op, False)
    if any(v.key is None for v in s.violations[n:]):
        del s.violations[n:]
        _full.clear()
        s.cur = op
        out = run_once(s, op, True)
    return out


def run_once(s, op, exact):
    mod = op['mod']
    cls = importlib.import_module('timeboard.calendars.' + mod).Weekly8x5
    s.tag = 'cal'
    kw, opts = build_kwargs(s, op)
    y0, y1 = RANGE[mod]
    lo, hi = dfc(y0, 1, 1) * DAY, dfc(y1 + 1, 1, 1) * DAY - 10 ** 9
    a = M.ts(kw['custom_start']) if 'custom_start' in kw else lo
    b = M.ts(kw['custom_end']) if 'custom_end' in kw else hi
    out = s.call(cls, **kw)
    d = s.check_containers()
    s.verdict('C20', d is None, d, 'options intact')
    inside = [lo <= t <= hi for t in (a, b)]
    border = any(hi < t <= hi + 10 ** 9 for t in (a, b))
    if border:
        s.unjudged('the last second of the calendar')
        return out
    if not all(inside):
        s.judge(['C24', 'C27'], out, _exp({'OutOfBoundsError'}))
        return out
    if a // DAY > b // DAY:
        s.judge(['C24', 'C27'], out, _exp({'VoidIntervalError'}))
        return out
    if a > b:
        s.unjudged('start after end within a day')
        return out
    if not out.ok:
        s.verdict(['C24', own_prop(mod), 'C27'], False, 'the calendar was not '
                  'built: %s' % s.show(out.value), 'exc')
        return out
    labels, walk = labels_of(s, out.value, exact)
    days = list(range(a // DAY, b // DAY + 1))
    ok = labels is not None and sorted(labels) == days
    s.verdict('C24', ok, 'the calendar covers %d days from %s, expected %s .. '
              '%s' % (walk.n, pd.Timestamp(walk.starts[0]) if walk.n else None,
                      cfd(days[0]), cfd(days[-1])), 'extent')
    if not ok:
        return out
    custom = {}
    for p, v in op.get('custom') or ():
        day = M.ts(dec_pit(p)) // DAY
        custom[day] = dec_label(v)
    dna, oca = op.get('dna', False), op.get('oca', False)
    # the days custom amendments refer to
    bad = []
    if not dna:
        for day, v in custom.items():
            if day in labels and not M.same_label(labels[day], v):
                bad.append((day, v, labels[day]))
        s.verdict('C24', not bad, 'custom amendments: ' + text_of(bad),
                  'custom', not custom)
    skip = set() if dna else set(custom)
    if dna or oca:
        bad = [(day, e, labels[day]) for day in days if day not in skip
               for e in [0 if weekday(day) >= 5 else 8]
               if not M.same_label(labels[day], e)]
        s.verdict('C24', not bad, 'bare weekly layout: ' + text_of(bad),
                  'bare')
    else:
        fn = day_oracle(mod, opts)
        bad, n = [], 0
        for day in days:
            if day in skip:
                continue
            e = fn(day)
            if e is ANY:
                continue
            n += 1
            if not M.same_label(labels[day], e):
                bad.append((day, e, labels[day]))
        known, rest = split_known(mod, bad)
        p = own_prop(mod)
        if known:
            s.verdict(p, False, text_of(known), 'known', key=KNOWN_KEY)
        s.verdict(p, not rest, text_of(rest), 'days of %d years' % (
            (days[-1] - days[0]) // 366 + 1))
        s.stats.states[p].update('%s/%s/%s' % (cfd(days[0])[0] + k, canon(opts),
                                               bool(custom))
                                 for k in range(cfd(days[-1])[0] -
                                                cfd(days[0])[0] + 1))
        if s.want in (None, 'C24') and (op.get('start') or op.get('end')
                                        or custom):
            full = full_calendar(s, mod, cls, opts, kw, exact)
            if full is not None:
                bad = [(day, full.get(day), labels[day]) for day in days
                       if day not in skip and
                       not M.same_label(labels[day], full.get(day))]
                k = {d: (g, e) for d, (e, g) in
                     KNOWN_DAYS.get(mod, {}).items()}
                known = [x for x in bad if k.get(x[0]) == (x[1], x[2])]
                rest = [x for x in bad if x not in known]
                if known:
                    s.verdict('C24', False, 'differs from the full calendar: '
                              + text_of(known), 'known', key=KNOWN_KEY)
                s.verdict('C24', not rest, 'differs from the full calendar: '
                          + text_of(rest), 'as full')
    s.stats.states['C24'].add('%s/%s/%s/%s/%s' % (
        mod, dna, oca, bool(custom), canon(opts)[:60]))
    if s.want in (None, 'C20'):
        again = s.call(cls, **kw)
        same = again.ok and labels_of(s, again.value, exact)[0] == labels
        s.verdict('C20', same, 'the calendar built again differs', 'again')
    if op.get('inspect') and s.want in (None, 'C20', 'C24'):
        inspect(s, mod, cls, kw, labels, dna or oca)
    p = out.value
    s.verdict('C24', s.call(lambda: p.get_interval().worktime(duty='any')).ok
              if all(isinstance(v, (int, float)) for v in custom.values())
              else True, 'worktime of the calendar is not available', 'usable')
    return out


def inspect(s, mod, cls, kw, labels, bare):
    """The parameters and the amendments a calendar gives for inspection are
    those it is built from; they belong to the caller afterwards."""
    am = s.call(cls.amendments, **{k: v for k, v in kw.items() if k not in (
        'do_not_amend', 'only_custom_amendments')})
    pr = s.call(cls.parameters)
    if not am.ok or not pr.ok:
        s.verdict('C24', False, 'the calendar does not show what it is built '
                  'from: %s' % s.show((pr if am.ok else am).value), 'inspect')
        return
    d = s.check_containers()
    s.verdict('C20', d is None, d, 'options intact')
    am, pr = am.value, pr.value
    y0, y1 = RANGE[mod]
    ok = pd.Timestamp(pr['start']).date() == pd.Timestamp(y0, 1, 1).date() and \
        pd.Timestamp(pr['end']).date() == pd.Timestamp(y1, 12, 31).date()
    s.verdict('C24', ok, 'parameters() show the range %s .. %s' % (
        pr['start'], pr['end']), 'inspect')
    pr['start'] = kw.get('custom_start', pr['start'])
    pr['end'] = kw.get('custom_end', pr['end'])
    if not bare:
        out = s.call(s.lib.Timeboard, amendments=am, **pr)
        got = labels_of(s, out.value)[0] if out.ok else None
        s.verdict('C24', got == labels, 'a timeboard built of parameters() and '
                  'amendments() differs from the calendar', 'inspect')
    am.clear()
    am[pd.Timestamp(y0, 3, 1)] = am[pd.Timestamp(y1, 3, 1)] = 77
    pr['layout'] = [55]
    pr['base_unit_freq'] = 'W'
    out = s.call(cls, **kw)
    got = labels_of(s, out.value)[0] if out.ok else None
    s.verdict(['C20', 'C24'], got == labels, 'the calendar is not the same after '
              'the dictionaries it had given for inspection were changed',
              'inspect')


def own_prop(mod):
    return {'US': 'C21', 'UK': 'C22', 'RU': 'C23'}[mod]


def _exp(kinds):
    from . import truth as T
    return T.Expect(kinds=kinds)


# ---------------------------------------------------------- user's calendars

def run_user(s, op):
    """A calendar class derived from CalendarBase by the user."""
    from timeboard.calendars.calendarbase import CalendarBase
    s.tag = 'usercal'
    freq = op['freq']
    own = [(dec_pit(p), dec_label(v)) for p, v in op['own']]
    seen = []
    pattern = [dec_label(v) for v in op['pattern']]

    class Mine(CalendarBase):
        @classmethod
        def parameters(cls):
            return {'base_unit_freq': freq, 'start': dec_pit(op['pstart']),
                    'end': dec_pit(op['pend']), 'layout': list(pattern),
                    'worktime_source': 'duration'}

    class Amended(Mine):
        @classmethod
        def amendments(cls, custom_start=None, custom_end=None,
                       custom_amendments=None, weight=None):
            seen.append((custom_start, custom_end, weight))
            r = {k: (v if weight is None else weight) for k, v in own}
            if custom_amendments is not None:
                r.update(custom_amendments)
            return r
    cls = Amended if op.get('amended') else Mine
    kw = {}
    if op.get('start') is not None:
        kw['custom_start'] = dec_pit(op['start'])
    if op.get('end') is not None:
        kw['custom_end'] = dec_pit(op['end'])
    if op.get('custom') is not None:
        kw['custom_amendments'] = {dec_pit(p): dec_label(v)
                                   for p, v in op['custom']}
        s.own(kw['custom_amendments'])
    for k, name in (('dna', 'do_not_amend'), ('oca', 'only_custom_amendments')):
        if k in op:
            kw[name] = flag(op, op[k])
    weight = None
    if op.get('amended') and 'weight' in op:
        weight = kw['weight'] = op['weight']
    out = s.call(cls, **kw)
    d = s.check_containers()
    s.verdict('C20', d is None, d, 'options intact')
    pa, pb = M.ts(dec_pit(op['pstart'])), M.ts(dec_pit(op['pend']))
    a = M.ts(kw['custom_start']) if 'custom_start' in kw else pa
    b = M.ts(kw['custom_end']) if 'custom_end' in kw else pb
    if not (pa <= a <= pb and pa <= b <= pb):
        s.judge(['C24', 'C27'], out, _exp({'OutOfBoundsError'}))
        return out
    try:
        fr = M.Frame(freq, a, b)
    except M.Refuse as e:
        s.judge(['C24', 'C27'], out, _exp(e.kinds))
        return out
    exp = [pattern[i % len(pattern)] for i in range(fr.n)]
    am = []
    if op.get('dna'):
        pass
    elif op.get('oca'):
        am = list(kw.get('custom_amendments', {}).items())
    else:
        d = {}
        if op.get('amended'):
            d = {k: (v if weight is None else weight) for k, v in own}
        d.update(kw.get('custom_amendments', {}))
        am = list(d.items())
    tl = M.Timeline([fr.starts[u] for u in range(fr.n)],
                    [fr.starts[u + 1] - 1 for u in range(fr.n)],
                    [1] * fr.n, exp, 'start')
    try:
        M.apply_amendments(tl, dict(am))
    except M.Refuse as e:
        s.judge('C24', out, _exp(e.kinds))
        return out
    if not out.ok:
        s.verdict(['C24', 'C27'], False, 'the calendar was not built: %s' %
                  s.show(out.value), 'exc')
        return out
    walk = s.walk(out.value, 50000)
    d = tl.diff(walk)
    s.verdict('C24', d is None, "user's calendar: %s" % d,
              'user %s%s%s' % (bool(op.get('amended')), bool(op.get('dna')),
                               bool(op.get('oca'))), fr.n < 2)
    if seen and not op.get('dna') and not op.get('oca'):
        ok = all(w == weight for _, _, w in seen)
        for got, want in ((seen[-1][0], kw.get('custom_start')),
                          (seen[-1][1], kw.get('custom_end'))):
            if want is not None:
                ok = ok and got is not None and M.ts(got) == M.ts(want)
        s.verdict('C24', ok, 'amendments() received %r' % (seen[-1],),
                  'arguments')
    if op.get('dna') or op.get('oca'):
        s.verdict('C24', True, None, 'no own amendments')
    s.stats.states['C24'].add('user/%s/%s/%s/%s' % (
        freq, op.get('amended'), op.get('dna'), op.get('oca')))
    return out
