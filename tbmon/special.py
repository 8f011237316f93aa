"""Workloads of C21-C28."""
import random

from . import cal
from .calmath import (DAY, NS, days_from_civil as dfc, weekday, Freq, refines,
                      month_len)
from . import gen
from .gen import pick, Gen

H = 3600 * NS


# ---------------------------------------------------------------- calendars

def day_pit(rng, t):
    return {'t': t, 'as': rng.choice(['ts', 'str', 'txt', 'dt', 'date'])}


def random_day(rng, y0, y1):
    y = rng.randint(y0, y1)
    m = rng.randint(1, 12)
    return dfc(y, m, rng.randint(1, month_len(y, m)))


def interesting_day(rng, mod):
    y0, y1 = cal.RANGE[mod]
    y = rng.randint(y0, y1)
    m, d = rng.choice([(1, 1), (1, 2), (1, 3), (12, 24), (12, 25), (12, 26),
                       (12, 27), (12, 28), (12, 31), (7, 3), (7, 4), (7, 5),
                       (11, 10), (11, 11), (11, 12), (3, 17), (5, 8), (5, 9),
                       (2, 22), (2, 23), (11, 4), (11, 30), (2, 28), (3, 8)])
    return dfc(y, m, d)


def bounds(rng, mod, op, years=None):
    """Sets custom bounds of the op (valid ones)."""
    y0, y1 = cal.RANGE[mod]
    lo, hi = dfc(y0, 1, 1), dfc(y1, 12, 31)
    k = rng.random()
    if k < 0.12:
        a, b = None, None
    else:
        if rng.random() < 0.5:
            y = rng.randint(y0, y1)
            z = min(y1, y + (years or rng.choice([0, 0, 0, 1, 1, 2, 3, 5])))
            a, b = dfc(y, 1, 1), dfc(z, 12, 31)
        else:
            a = interesting_day(rng, mod) if rng.random() < 0.5 else \
                random_day(rng, y0, y1)
            b = min(hi, a + rng.choice([0, 1, 3, 10, 40, 100, 366, 800, 1500]))
        if k < 0.2:
            a = None if b - lo < 3000 else a
        elif k < 0.28:
            b = None if hi - a < 3000 else b
    ta = None if a is None else a * DAY
    tb = None if b is None else b * DAY
    if ta is not None and rng.random() < 0.2 and a != b:
        ta += rng.randrange(0, 86400) * NS
    if tb is not None and rng.random() < 0.4:
        e = rng.choice([DAY - NS, DAY - 1, 12 * H, rng.randrange(86400) * NS])
        if b * DAY + e <= (hi + 1) * DAY - NS and (
                ta is None or b * DAY + e >= ta):
            tb = b * DAY + e
    if ta is not None:
        op['start'] = day_pit(rng, ta)
    if tb is not None:
        op['end'] = day_pit(rng, tb)
    return (a if a is not None else lo, b if b is not None else hi)


def options(rng, mod, op, p=0.6):
    if mod in ('US', 'UK'):
        names = cal.US_NAMES if mod == 'US' else cal.UK_NAMES
        if rng.random() < p:
            k = pick(rng, [(0, 1), (1, 5), (2, 3), (3, 2), (6, 1),
                           (len(names), 0.5)])
            op['dno'] = sorted(rng.sample(names, k))
            if rng.random() < 0.3:
                op['dno_as'] = 'frozenset'
        if rng.random() < 0.4:
            op['lw'] = rng.random() < 0.3
        if mod == 'UK' and rng.random() < 0.8:
            op['country'] = rng.choice(['england', 'scotland',
                                        'northern_ireland'])
    else:
        if rng.random() < 0.5:
            op['eves'] = rng.random() < 0.3
        if rng.random() < 0.5:
            op['dec31'] = rng.random() < 0.3
    if rng.random() < 0.15:
        op['flag'] = rng.choice(['int', 'np'])


def custom(rng, mod, op, a, b, nmax=6):
    days = set()
    for _ in range(rng.randint(0, nmax)):
        k = rng.random()
        d = rng.randint(a, b) if k < 0.6 else interesting_day(rng, mod) \
            if k < 0.9 else rng.choice([a - 1, b + 1, a, b])
        days.add(d)
    am = []
    for d in sorted(days):
        t = d * DAY
        if rng.random() < 0.3:
            t += rng.randrange(86400) * NS
        at = day_pit(rng, t)
        if rng.random() < 0.15:
            f, w = rng.choice([('H', H), ('S', NS), ('D', DAY), ('T', 60 * NS)])
            at = {'t': t - t % w, 'as': 'per:' + f}
        elif rng.random() < 0.1:
            at = {'t': t, 'as': rng.choice(['obj', 'np', 'int'])}
        am.append([at, rng.choice([0, 8, 4, 7, 6.5, 10, 0, 8])])
    op['custom'] = am


def cal_case(rng, prop):
    mod = {'C21': 'US', 'C22': 'UK', 'C23': 'RU'}[prop]
    ops = []
    for _ in range(rng.randint(1, 3)):
        op = {'op': 'cal', 'mod': mod}
        options(rng, mod, op)
        a, b = bounds(rng, mod, op)
        if rng.random() < 0.1:
            custom(rng, mod, op, a, b, 3)
        ops.append(op)
    return {'kind': 'session', 'ops': ops}


def amend_case(rng):
    """C24"""
    ops = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.35:
            ops.append(user_op(rng))
            continue
        mod = rng.choice(['US', 'UK', 'RU'])
        op = {'op': 'cal', 'mod': mod}
        if rng.random() < 0.5:
            op2 = {}
            options(rng, mod, op2, 0.3)
            if 'dno' in op2:
                op2['dno'] = op2['dno'][:1]
            op.update(op2)
        a, b = bounds(rng, mod, op)
        if rng.random() < 0.55:
            custom(rng, mod, op, a, b)
        if rng.random() < 0.3:
            op['inspect'] = 1
        if rng.random() < 0.25:
            op['dna'] = rng.random() < 0.8
        if rng.random() < 0.3:
            op['oca'] = rng.random() < 0.8
        if rng.random() < 0.2:
            y0, y1 = cal.RANGE[mod]
            lo, hi = dfc(y0, 1, 1) * DAY, dfc(y1 + 1, 1, 1) * DAY
            t = rng.choice([lo - 1, lo - NS, lo - DAY, hi, hi + DAY,
                            hi + rng.randint(1, 3000) * DAY,
                            lo - rng.randint(1, 3000) * DAY, hi, lo - DAY])
            op[rng.choice(['start', 'end'])] = \
                {'t': t, 'as': 'ts'} if t % NS else day_pit(rng, t)
        elif rng.random() < 0.06 and op.get('start') and op.get('end'):
            op['start'], op['end'] = op['end'], op['start']
        ops.append(op)
    return {'kind': 'session', 'ops': ops}


def calendar_purity_case(rng):
    """C20: calendars built with other options do not affect each other."""
    mod = rng.choice(['US', 'UK', 'RU'])
    ops = []
    for _ in range(rng.randint(2, 4)):
        if rng.random() < 0.4:
            ops.append(user_op(rng))
            continue
        op = {'op': 'cal', 'mod': mod}
        options(rng, mod, op)
        a, b = bounds(rng, mod, op, 2)
        if rng.random() < 0.5:
            custom(rng, mod, op, a, b)
        if rng.random() < 0.15:
            op['dna'] = True
        if rng.random() < 0.15:
            op['oca'] = True
        if rng.random() < 0.25:
            op['inspect'] = 1
        ops.append(op)
    ops += [dict(op) for op in rng.sample(ops, min(2, len(ops)))]
    return {'kind': 'session', 'ops': ops}


def user_op(rng):
    g = Gen(rng, n=rng.choice([1, 3, 10, 30, 60]))
    freq = rng.choice(['D', 'D', 'D', 'H', 'W', 'M', 'W-WED', '8H', '12H'])
    s, e = g.extent(freq)
    op = {'op': 'usercal', 'freq': freq, 'pstart': g.tb_pit(s),
          'pend': g.tb_pit(e)}
    op['pattern'] = rng.choice([[1], [1, 0], [1, 2, 3], ['a', 'b', '']])
    from .spec import dec_pit
    ps, pe = gen.M.ts(dec_pit(op['pstart'])), gen.M.ts(dec_pit(op['pend']))
    if pe < ps:
        op['pend'] = dict(op['pend'], **{'as': 'ts'})
        op['pstart'] = dict(op['pstart'], **{'as': 'ts'})
        ps, pe = s, e

    def point(a, b):
        return a + (rng.randrange(b - a + 1) // NS) * NS
    lo, hi = ps, pe
    if rng.random() < 0.5:
        lo = point(ps, pe)
        op['start'] = {'t': lo, 'as': rng.choice(['ts', 'str', 'dt'])}
    if rng.random() < 0.5:
        hi = point(lo, pe)
        op['end'] = {'t': hi, 'as': rng.choice(['ts', 'str', 'dt'])}
    if rng.random() < 0.12:
        k = rng.choice(['start', 'end'])
        t = rng.choice([ps - 1, ps - NS, pe + 1, pe + NS, pe + 400 * DAY,
                        ps - 400 * DAY])
        op[k] = {'t': t, 'as': 'ts'}
    op['own'] = []
    op['amended'] = rng.random() < 0.6
    try:
        fr = gen.M.Frame(freq, lo, hi)
    except Exception:
        return op

    def some(k):
        us = sorted({rng.randrange(fr.n) for _ in range(k)})
        res = []
        for u in us:
            t = fr.starts[u]
            if rng.random() < 0.3:
                t = rng.randrange(t, fr.starts[u + 1]) // NS * NS
                t = max(t, fr.starts[u])
            res.append([{'t': t, 'as': rng.choice(['ts', 'ts', 'str'])},
                        rng.choice([0, 5, 'x', 2])])
        return res
    if op['amended']:
        op['own'] = some(rng.randint(0, 4))
        if rng.random() < 0.4:
            op['weight'] = rng.choice([7, 'w', 0])
    if rng.random() < 0.6:
        c = some(rng.randint(0, 4))
        if op['own'] and rng.random() < 0.5:
            # override one of the calendar's own amendments, same key
            k = dict(rng.choice(op['own'])[0])
            u = fr.unit(k['t'])
            c = [x for x in c if fr.unit(x[0]['t']) != u] + [[k, 99]]
        op['custom'] = c
    if rng.random() < 0.25:
        op['dna'] = rng.random() < 0.8
    if rng.random() < 0.3:
        op['oca'] = rng.random() < 0.8
    return op


# ------------------------------------------------------------------ helpers

def year(rng):
    k = rng.random()
    if k < 0.6:
        return rng.randint(1990, 2030)
    if k < 0.8:
        return rng.randint(1900, 2100)
    return rng.randint(1700, 2250)


LABELS = [0, 1, 'h', None, 2.5, '', {'tag': ['t', False]}, 8]


def helper_case(rng):
    ops = []
    for _ in range(rng.randint(2, 5)):
        k = rng.random()
        if k < 0.4:
            ds = []
            for _ in range(pick(rng, [(0, 0.5), (1, 4), (2, 3), (4, 2)])):
                d = [rng.randint(1, 12), rng.randint(1, 7),
                     rng.choice([1, 2, 3, 4, 5, -1, -2, -3, -4, -5, 5, -5])]
                if rng.random() < 0.4:
                    d.append(rng.choice([0, 1, -1, 3, -4, 7, 30, -31, 40]))
                ds.append(d)
            op = {'op': 'h_nth', 'year': year(rng), 'dates': ds}
            if rng.random() < 0.5:
                op['errors'] = rng.choice(['raise', 'ignore'])
        elif k < 0.6:
            op = {'op': 'h_easter', 'year': year(rng),
                  'shifts': [rng.choice([0, -2, 1, 39, 49, 50, 60, -46, -7,
                                         rng.randint(-90, 200)])
                             for _ in range(rng.randint(0, 4))]}
            if rng.random() < 0.6:
                op['type'] = rng.choice(['western', 'orthodox'])
            if rng.random() < 0.2:
                op['c'] = 'tuple'
        else:
            op = ext_op(rng)
        if rng.random() < 0.4:
            op['label'] = rng.choice(LABELS)
        ops.append(op)
    return {'kind': 'session', 'ops': ops}


def ext_op(rng):
    op = {'op': 'h_ext'}
    if rng.random() < 0.75:
        op['how'] = rng.choice(['previous', 'next', 'nearest'])
    if rng.random() < 0.6:
        ln = rng.choice([1, 1, 2, 2, 3, 3, 4, 5])
        d0 = rng.randrange(7)
        op['weekend'] = [(d0 + i) % 7 for i in range(ln)]
    wend = op.get('weekend', [5, 6])
    y = year(rng)
    base = dfc(y, rng.randint(1, 12), rng.randint(1, 28))
    days = set()
    for _ in range(rng.randint(0, 3)):
        d = base + rng.randint(0, 40)
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            days.add(d)
            d += rng.choice([1, 1, 1, 2])
    if rng.random() < 0.5:      # crowd about a weekend
        d = base
        while weekday(d) != wend[0]:
            d += 1
        for k in range(-2, len(wend) + 3):
            if rng.random() < 0.5:
                days.add(d + k)
    days = sorted(days)
    rng.shuffle(days)
    kind = rng.choice(['ts', 'str', 'date', 'dt', 'txt', None])
    op['days'] = [[{'t': d * DAY, 'as': kind or rng.choice(
        ['ts', 'str', 'date', 'txt'])}, rng.choice(LABELS)] for d in days]
    return op


# ------------------------------------------------- periods as partitions

MONTHS = ['JAN', 'FEB', 'MAR', 'APR', 'MAY', 'JUN', 'JUL', 'AUG', 'SEP', 'OCT',
          'NOV', 'DEC']
DAYS = ['MON', 'TUE', 'WED', 'THU', 'FRI', 'SAT', 'SUN']


def any_freq(rng, aliases=True):
    b = pick(rng, [('S', 1), ('T', 1.5), ('H', 2), ('D', 4), ('W', 4),
                   ('M', 3), ('Q', 3), ('A', 3)])
    m = pick(rng, [(1, 6), (2, 1.2), (3, 1), (4, 0.6), (6, 0.6), (12, 0.5),
                   (7, 0.3), (5, 0.3)])
    if b == 'W' and rng.random() < 0.5:
        b += '-' + rng.choice(DAYS)
    elif b in 'QA' and rng.random() < 0.5:
        b += '-' + rng.choice(MONTHS)
    elif aliases and b in 'TA' and m == 1 and rng.random() < 0.1:
        b = {'T': 'min', 'A': 'Y'}[b]
    return (str(m) if m > 1 else '') + b


def align_case(rng):
    ops = []
    while len(ops) < 4:
        base, each = any_freq(rng), any_freq(rng)
        if rng.random() < 0.35:     # relatives are more interesting
            f = Freq(base)
            a = '-' + f.anchor if f.anchor and rng.random() < 0.5 else ''
            each = (rng.choice(['', '2', '3', '6', str(f.mult * 2),
                                str(f.mult * 3)])) + \
                {'S': 'S', 'T': 'T', 'H': 'H', 'D': 'D', 'W': 'W', 'M': 'M',
                 'Q': 'Q', 'A': 'A'}[f.base] + a
            if each.startswith('1'):
                each = each[1:] if not each[1:2].isdigit() else each
        if Freq(each).approx() > 20000 * Freq(base).approx():
            continue
        g = Gen(rng, n=rng.choice([1, 2, 3, 7, 15, 40, 70]))
        s, e = g.extent(base)
        k = len(ops)
        org = {'op': 'org', 'as': 'o%d' % k, 'marker': each, 'structure': [
            {'k': 'lab', 'v': 'a'}, {'k': 'lab', 'v': 'b'}]}
        tb = {'op': 'tb', 'as': 'tb%d' % k, 'freq': base, 'start': g.tb_pit(s),
              'end': g.tb_pit(e), 'layout': {'k': 'org', 'n': 'o%d' % k},
              'align': each}
        if rng.random() < 0.3:
            each2 = any_freq(rng)
            if Freq(each2).approx() <= 20000 * Freq(base).approx():
                ops.append({'op': 'org', 'as': 'i%d' % k, 'marker': each2,
                            'structure': [{'k': 'lab', 'v': 1},
                                          {'k': 'pat', 'v': [2, 3]}]})
                org['structure'].append({'k': 'org', 'n': 'i%d' % k})
        if rng.random() < 0.15:
            at = [{'days': rng.randint(0, 40)}]
            ops.append({'op': 'marker', 'as': 'm%d' % k, 'each': each,
                        'at': at})
            org['marker'] = {'n': 'm%d' % k}
            del tb['align']
        if rng.random() < 0.2:
            tb['ref'] = 'end'
        ops += [org, tb]
    return {'kind': 'session', 'ops': ops}


# -------------------------------------------------------- invalid requests

def bad_case(rng):
    from . import badreq
    g = Gen(rng, plain=0.4, at_prob=0.2, w_lab=4, sel=0.5, bad_each=0.0,
            reversed=0.0, dup=0.0, amend=0.2, w_rp=0.2,
            n=rng.choice([1, 2, 3, 6, 12, 25, 40]))
    for _ in range(rng.choice([1, 1, 2])):
        g.timeboard()
    for _ in range(rng.choice([0, 1, 2])):
        g.q_add_schedule()
    names = sorted(badreq.ALL)
    q = gen.QUERY['C11'] + gen.QUERY['C12'] + gen.QUERY['C13'] + \
        gen.QUERY['C09'] + gen.QUERY['C14'] + gen.QUERY['C18']
    for _ in range(rng.randint(6, 14)):
        if rng.random() < 0.75:
            g.put({'op': 'bad', 'tb': g.any_tb(), 'what': rng.choice(names),
                   'x': rng.randint(0, 5000)})
        else:
            # valid and invalid requests of random shapes
            getattr(g, 'q_' + pick(rng, q))()
    return {'kind': 'session', 'ops': g.ops}


# --------------------------------------------------------------------- repr

TEXTUAL = ('ts', 'str', 'dt', 'date', 'txt')


def textual(x):
    """Only such data whose repr is executable."""
    if isinstance(x, dict):
        x = {k: textual(v) for k, v in x.items()}
        for k in ('c', 'sc', 'mc'):
            if k in x and x[k] not in ('list', 'tuple'):
                x[k] = 'list'
        if 't' in x and 'as' in x and x['as'] not in TEXTUAL:
            x['as'] = 'ts'
        if x.get('op') == 'marker' and str(x.get('how', '')).startswith('@'):
            x['how'] = 'from_start_of_each'
            x['at'] = [{'days': 1}, {'hours': 5}][:len(x.get('at', [])) or 1]
        if x.get('op') == 'tb':
            for k in ('amend', 'amend_as', 'deflabel', 'sel'):
                x.pop(k, None)
        return x
    if isinstance(x, list):
        return [textual(v) for v in x]
    return x


def repr_case(rng):
    g = Gen(rng, plain=0.15, at_prob=0.4, w_lab=4, w_org=5, sel=0.0,
            bad_each=0.0, reversed=0.0, amend=0.0, w_rp=3, rp_structure=0.15,
            rp_layout=0.3, n=rng.choice([3, 8, 15, 30, 45]))
    for _ in range(rng.choice([1, 1, 2])):
        g.timeboard()
    ops = g.ops
    tbs = [o for o in ops if o['op'] == 'tb']
    probes = []
    for tb in tbs:
        probes.append({k: tb[k] for k in ('freq', 'start', 'end')})
    if rng.random() < 0.6:
        f = rng.choice([tbs[0]['freq'], 'D', 'H'])
        a, b = g.extent(f, rng.choice([10, 40]))
        probes.append({'freq': f, 'start': {'t': a, 'as': 'ts'},
                       'end': {'t': b, 'as': 'ts'}})
    # no layout of a great number of steps of the finest marker
    each = [Freq(o['each']).approx() for o in ops if o['op'] == 'marker']
    each += [Freq(o['marker']).approx() for o in ops if o['op'] == 'org' and
             isinstance(o.get('marker'), str)]
    if each:
        probes = [p for p in probes if max(
            Freq(p['freq']).approx(), p['end']['t'] - p['start']['t']) <=
            20000 * min(each) and max(each) <=
            20000 * Freq(p['freq']).approx()]
        if not probes:
            return repr_case(rng)
    rng.shuffle(probes)
    if rng.random() < 0.4:      # keep the patterns unused
        ops = [o for o in ops if o['op'] != 'tb' or rng.random() < 0.3]
    objs = [[{'tb': 'tb', 'org': 'org', 'marker': 'marker'}[o['op']], o['as']]
            for o in ops if o['op'] in ('tb', 'org', 'marker')]
    # organizers used by nobody share some of the elements
    orgs = [o for o in ops if o['op'] == 'org']
    if orgs and rng.random() < 0.5:
        a = rng.choice(orgs)['as']
        el = [{'k': 'org', 'n': a}, {'k': 'org', 'n': a}]
        for o in ops:
            if o['op'] == 'rp' and rng.random() < 0.5:
                el.insert(rng.randint(0, len(el)), {'k': 'rp', 'n': o['as']})
        ops = ops + [{'op': 'org', 'as': 'top', 'structure': el,
                      'marks': [dict(g.pit(g.frames[tbs[0]['as']], 0.9),
                                     **{'as': 'ts'}) for _ in range(3)]}]
        objs.append(['org', 'top'])
    ops = ops + [{'op': 'repr', 'objs': objs[-6:], 'probes': probes}]
    return {'kind': 'session', 'ops': textual(ops)}


# ---------------------------------------------------------------- dispatch

def gen_case(rng, prop):
    if prop in ('C21', 'C22', 'C23'):
        return cal_case(rng, prop)
    if prop == 'C24':
        return amend_case(rng)
    if prop == 'C25':
        return helper_case(rng)
    if prop == 'C26':
        return align_case(rng)
    if prop == 'C27':
        return bad_case(rng)
    if prop == 'C28':
        return repr_case(rng)
    raise ValueError(prop)


# ------------------------------------------- cases executed on every run

def fixed_cases(prop, tier):
    if prop in gen.LAYOUT or prop in gen.QUERY:
        return [gen.big_case(random.Random('big/%s/%d' % (prop, k)), prop)
                for k in range(12 if tier == 'quick' else 150)]
    if prop == 'C21':
        ops = [{'op': 'cal', 'mod': 'US', 'lw': lw, 'dno': [d]}
               for lw in (True, False) for d in cal.US_NAMES]
        ops += [{'op': 'cal', 'mod': 'US', 'lw': lw} for lw in (True, False)]
        ops += [{'op': 'cal', 'mod': 'US', 'dno': list(cal.US_NAMES)}]
        return [{'kind': 'session', 'ops': [op]} for op in ops]
    if prop == 'C22':
        ops = []
        for c in ('england', 'scotland', 'northern_ireland'):
            ops += [{'op': 'cal', 'mod': 'UK', 'country': c, 'lw': lw}
                    for lw in (True, False)]
            ops += [{'op': 'cal', 'mod': 'UK', 'country': c, 'dno': [d]}
                    for d in cal.UK_NAMES]
            if tier == 'thorough':
                ops += [{'op': 'cal', 'mod': 'UK', 'country': c, 'dno': [d],
                         'lw': False} for d in cal.UK_NAMES]
        return [{'kind': 'session', 'ops': [op]} for op in ops]
    if prop == 'C23':
        return [{'kind': 'session', 'ops': [{'op': 'cal', 'mod': 'RU',
                                             'eves': e, 'dec31': d}]}
                for e in (True, False) for d in (True, False)]
    if prop == 'C24':
        cases = []
        for mod in ('US', 'UK', 'RU'):
            y0, y1 = cal.RANGE[mod]
            for y in range(y0, y1 + 1):
                for a, b in (((1, 1), (12, 31)), ((7, 1), (12, 31)),
                             ((1, 1), (1, 1)), ((12, 31), (12, 31))):
                    ops = [{'op': 'cal', 'mod': mod,
                            'start': {'t': dfc(y, *a) * DAY, 'as': 'str'},
                            'end': {'t': dfc(y, *b) * DAY, 'as': 'date'}}]
                    cases.append({'kind': 'session', 'ops': ops})
        return cases
    if prop == 'C25':
        cases = []
        for y in range(1680, 2261):
            ops = [{'op': 'h_easter', 'year': y, 'shifts': [-2, 0, 1, 39],
                    'type': t} for t in ('western', 'orthodox')]
            ops.append({'op': 'h_nth', 'year': y, 'label': 3, 'dates': [
                [m, wd, n] for m in range(1, 13) for wd in range(1, 8)
                for n in (1, -1)]})
            ops += [{'op': 'h_nth', 'year': y, 'label': 3, 'dates': [
                [m, wd, n] for m in range(1, 13) for wd in range(1, 8)]}
                for n in (2, 3, 4, 5, -2, -3, -4, -5)
                if tier == 'thorough' or n % 8 == y % 8]
            cases.append({'kind': 'session', 'ops': ops})
        return cases
    if prop == 'C26':
        fs = [m + f for m in ('', '2', '3', '4') for f in (
            'S', 'T', 'H', 'D', 'W', 'W-SUN', 'W-MON', 'W-THU', 'M', 'Q',
            'Q-DEC', 'Q-NOV', 'Q-MAR', 'A', 'A-DEC', 'A-MAR', 'A-NOV')]
        cases = []
        for base in fs:
            for each in fs:
                if base[:1].isdigit() and each[:1].isdigit() and \
                        tier == 'quick':
                    continue
                c = pair_case(base, each)
                if c is not None:
                    cases.append(c)
        return cases
    return []


def pair_case(base, each):
    """An organizer marked by `each` over three units of `base`."""
    if Freq(each).approx() > 20000 * Freq(base).approx() or \
            Freq(base).approx() > 20000 * Freq(each).approx():
        return None
    t = dfc(2001, 5, 14) * DAY
    e = t + 3 * Freq(base).approx()
    return {'kind': 'session', 'ops': [
        {'op': 'org', 'as': 'o', 'marker': each,
         'structure': [{'k': 'pat', 'v': [1, 2, 3, 4, 5]}]},
        {'op': 'tb', 'as': 'tb', 'freq': base, 'start': {'t': t, 'as': 'ts'},
         'end': {'t': e, 'as': 'ts'}, 'layout': {'k': 'org', 'n': 'o'},
         'align': each}]}


RULES = {
    'C20': 'Each history is asked of the same objects three times.',
    'C21': 'Every run includes the calendars without one of the holidays.',
    'C22': 'Every run includes all countries without one of the holidays.',
    'C24': 'Every run includes every year, half-year and border day.',
    'C25': 'Every run includes all years from 1680 to 2260.',
    'C26': 'Every run includes a grid of pairs of frequencies.',
}
for _p in list(gen.LAYOUT) + list(gen.QUERY):
    RULES[_p] = ('Every run includes timeboards of 32767 to 90000 base units, '
                 'whose workshifts are sampled.')
