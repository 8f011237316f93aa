"""Random and hostile workloads (JSON cases), deterministic for a given rng."""
from . import model as M
from .calmath import Freq, refines, NS, DAY, days_from_civil

FREQS = ([('D', 44), ('H', 12), ('W', 4), ('W-WED', 2), ('W-SAT', 2), ('M', 7),
          ('Q', 2), ('Q-FEB', 1), ('A', 2), ('A-MAR', 1), ('T', 4),
          ('min', 1), ('S', 3), ('2D', 2), ('3D', 1), ('7D', 1), ('12H', 2),
          ('8H', 2), ('2W', 1), ('3M', 1), ('2M', 1), ('30T', 2), ('2A', 1),
          ('2Q', 1), ('15S', 1)])
EACHES = ['T', '5T', '30T', 'H', '4H', '8H', '12H', '24H', 'D', '2D',
          '4D', '6D', '7D', '14D', 'W', 'W-MON', 'W-WED', 'W-FRI', 'W-SAT',
          '2W', '4W', 'M', '2M', '3M', '6M', 'Q', 'Q-JAN', 'Q-FEB', 'Q-MAR',
          '2Q', 'A', 'A-JAN', 'A-MAR', 'A-JUN', 'A-NOV', '2A', '30S',
          '60T', 'S', '60S']
QPERIODS = ['T', 'H', '6H', 'D', '2D', '5D', 'W', 'W-TUE', 'W-SAT', 'M', '2M',
            'Q', 'Q-FEB', 'A', 'A-MAR', '30T', '2W', 'S', '10T']
CPFREQS = ['S', 'T', 'min', 'H', 'D', 'W', 'M', 'Q', 'A', 'Y']
SELS = ['truth', 'identity', 'gt2', 'eq1', 'is_str', 'not', 'always', 'never',
        'in_ab', 'np_gt1', 'int_or_none', 'float_or_none', 'text_or_empty',
        'zero_or_int', 'odd', 'memo', 'rule', 'method', 'partial', 'type']
CLOSED = ['11', '01', '10', '00']
DUTIES = ['on', 'off', 'any']


def pick(rng, weighted):
    tot = sum(w for _, w in weighted)
    x = rng.random() * tot
    for v, w in weighted:
        x -= w
        if x < 0:
            return v
    return weighted[-1][0]

ODD_LABELS = [
    {'tup': []}, {'tup': [1]}, {'tup': [1, 2]}, {'tup': ['a', 'b']},
    {'tup': [0, {'tup': [1]}]}, {'lst': []}, {'lst': [1, 2]}, {'lst': [[]]},
    {'set': [1]}, {'set': []}, {'dic': {}}, {'dic': {'a': 1}},
    {'dec': '0.1'}, {'dec': '0'}, {'frac': [1, 3]}, {'big': '9' * 25},
    {'cplx': [0, 1]}, {'npf': 0.5},
    {'npb': True}, {'npb': False}, True, False, 1, 0, 1.0, '1', '', None]


# numbers beyond the usual ones; those of a line may be added up
NUMBERS = [
    [{'big': str(2 ** 62)}, {'big': str(2 ** 63 - 1)}, 1, 0],
    [{'big': '9' * 25}, {'big': '-' + '9' * 25}, 7],
    [{'dec': '0.1'}, {'dec': '7.25'}, {'dec': '0'}, 8],
    [{'frac': [1, 3]}, {'frac': [15, 2]}, 8, 0],
    [True, False, 8], [1e300, 1.0, 0.0], [float('inf'), 8, 0],
    [{'npf': 0.5}, {'npf': 7.5}, 8, 0],
    [1e-12, 0.1, 0.2, 0.3], [-8, -7.5, 8]]


class Gen(object):
    def __init__(self, rng, **opt):
        self.rng = rng
        self.opt = opt
        self.ops = []
        self.k = 0
        self.frames = {}        # tb name -> Frame
        self.tbspec = {}
        self.rps, self.mks, self.orgs = [], {}, []
        self.wss, self.ivls, self.schs = {}, {}, {}     # name -> tb
        self.org_ok = {}

    def name(self, p):
        self.k += 1
        return '%s%d' % (p, self.k)

    def add(self, **op):
        self.ops.append(op)
        return op.get('as')

    def chance(self, p):
        return self.rng.random() < p

    # ---------------------------------------------------------------- time
    def era(self):
        r = self.rng
        x = r.random()
        if x < 0.70:
            y = r.randint(1995, 2030)
        elif x < 0.85:
            y = r.choice([1999, 2000, 2001, 2004, 2012, 2016, 2020, 2024])
        elif x < 0.95:
            y = r.randint(1902, 2090)
        else:
            y = r.choice([1705, 1799, 1800, 1899, 1900, 2100, 2199, 2230,
                          1970, 1970])
        m = r.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12, 12])
        d = r.choice([1, 1, 2, 15, 27, 28, 28]) if self.chance(0.6) else \
            r.randint(1, 28)
        t = days_from_civil(y, m, d) * DAY
        if self.chance(0.3):
            t += r.randint(0, 6) * DAY
        if y == 1970 and self.chance(0.7):
            t = -r.choice([0, 0, 1, 2, 5, 9, 20]) * DAY
        return t

    def extent(self, freq, n=None):
        """start, end (ns) of about n base units; bounds often inside units."""
        r = self.rng
        f = Freq(freq)
        if n is None:
            n = self.opt.get('n') or pick(r, [
                (r.randint(1, 4), 15), (r.randint(5, 20), 30),
                (r.randint(21, 60), 40), (r.randint(61, 120), 13),
                (r.randint(121, 400), 4)])
        t = self.era()
        if f.approx() > 20 * DAY and n > 60:
            n = 60
        if f.approx() > 300 * DAY and n > 25:
            n = 25
        if f.base in 'STH':
            t += r.randint(0, 86399) * NS if self.chance(0.6) else 0
        while f.start(f.ord(t) + (n + 1) * f.mult) > 9 * 10 ** 18:
            t -= 20000 * DAY
        o = f.ord(t)
        s0, s1 = f.start(o), f.start(o + 1)
        e0, e1 = f.start(o + (n - 1) * f.mult), f.start(o + (n - 1) * f.mult +
                                                        f.mult)
        start = pick(r, [(s0, 6), (s1 - 1, 1), (r.randrange(s0, s1), 3)])
        end = pick(r, [(e0, 4), (e1 - 1, 2), (r.randrange(e0, e1), 3),
                       (e1 - NS, 1)])
        # keep to whole seconds: pd.period_range on strings
        start -= start % NS
        if end != e1 - 1:
            end -= end % NS
        return start, max(end, start)

    def tb_pit(self, t):
        if t % NS:
            return {'t': t, 'as': 'ts'}
        return {'t': t, 'as': self.rng.choice(['ts', 'str', 'dt', 'txt',
                                               'str', 'date'])}

    def pit(self, fr, inside=0.8):
        """A point in time relative to a frame."""
        r = self.rng
        x = r.random()
        if x < inside:
            u = r.choice([0, fr.n - 1]) if self.chance(0.15) else \
                r.randrange(fr.n)
            a, b = fr.starts[u], fr.starts[u + 1]
            t = pick(r, [(a, 5), (b - 1, 3), (r.randrange(a, b), 3),
                         ((r.randrange(a, b) // NS) * NS, 2), (a + 1, 1)])
            t = min(max(t, a), b - 1)
            if fr.start <= 0 <= fr.end and self.chance(0.15):
                t = 0
        elif x < inside + (1 - inside) * 0.6:
            t = r.choice([fr.start - 1, fr.end + 1, fr.start - NS,
                          fr.end + NS, fr.end + 1 - NS])
        else:
            span = fr.end - fr.start + 1
            t = r.choice([fr.start - r.randint(1, 3 * span),
                          fr.end + r.randint(1, 3 * span)])
        t = max(min(t, 9 * 10 ** 18), -9 * 10 ** 18)
        return self.enc(t)

    def enc(self, t):
        r = self.rng
        how = pick(r, [('ts', 5), ('str', 4), ('txt', 1), ('dt', 2),
                       ('date', 1), ('np', 1), ('obj', 2), ('per', 1),
                       ('int', 0.4), ('npint', 0.2)])
        if t == 0 and self.chance(0.4):
            how = 'int'
        if how == 'per':
            f = r.choice(['D', 'H', 'M', 'W', 'S', '2D', '3D', '12H', '30T'])
            if f[0].isdigit():
                # begins where asked to
                return {'t': t - t % {'D': DAY, 'H': 3600 * NS,
                                      'T': 60 * NS}[f[-1]], 'as': 'per:' + f}
            how = 'per:' + f
            t2 = Freq(f).start(Freq(f).ord(t))
            if t2 != t:
                how = 'ts'
        return {'t': t, 'as': how}

    # -------------------------------------------------------------- labels
    def labels(self, k=None, numeric=None):
        r = self.rng
        if numeric is None:
            numeric = self.opt.get('numeric', False)
        if k is None:
            k = pick(r, [(0, 3), (1, 10), (2, 25), (3, 25), (4, 12), (5, 10),
                         (7, 10), (8, 3), (13, 3),
                         (r.randint(14, 70), 2.5), (r.randint(65, 150), 1)])
        kind = 'num' if numeric else pick(r, [
            ('01', 25), ('num', 25), ('seq', 20), ('str', 12), ('mix', 12),
            ('tag', 3), ('bool', 3), ('dates', 4), ('odd', 4)])
        if kind == 'dates':
            return self.date_labels(k)
        if kind == 'odd':
            return [r.choice(ODD_LABELS) for _ in range(k)]
        if kind == '01':
            return [r.choice([0, 1]) for _ in range(k)]
        if kind == 'num' and numeric and self.chance(0.25):
            pool = r.choice(NUMBERS if self.chance(0.5) else
                            [[0, 1, 2, 8], [True, False], [8, 12, 0, 4]])
            return [r.choice(pool) for _ in range(k)]
        if kind == 'num':
            return [r.choice([0, 1, 2, 3, 4, 8, 0.5, 2.5, -1, 12])
                    for _ in range(k)]
        if kind == 'seq':
            return [i + 1 for i in range(k)]
        if kind == 'str':
            return [r.choice(['a', 'b', 'c', 'day', '', 'x'])
                    for _ in range(k)]
        if kind == 'bool':
            return [r.choice([True, False]) for _ in range(k)]
        if kind == 'tag':
            return [{'tag': [r.choice('pqr'), r.choice([True, False])]}
                    for _ in range(k)]
        return [r.choice([0, 1, 'a', '', None, 2.5, {'nan': 1}, True, -1,
                          'b']) for _ in range(k)]

    def date_labels(self, k):
        """Labels which pandas is eager to convert."""
        r = self.rng
        d = '2017-0%d-%02d' % (r.randint(1, 9), r.randint(1, 28))
        pool = r.choice([
            [{'ts': d}, d, None], [{'ts': d}, {'ts': '2018-01-01'}],
            [{'ts': d}, {'dt': [2017, 1, 2, 3]}, {'nan': 1}, {'NaT': 1}],
            [{'td': 3600}, {'pytd': 60}, None], [{'td': 0}, '1 day'],
            [{'per': d}, {'per': '2018-01-01'}, None],
            [{'ivl': [0, 1]}, {'ivl': [1, 3]}, None],
            [d, '2018-05-05', '12:00'], [{'date': [2017, 5, 6]}, {'ts': d}],
            [{'dt': [1500, 1, 1]}, None, {'ts': d}]])
        return [r.choice(pool) for _ in range(k)]

    def label(self):
        return self.labels(1)[0]

    def pattern(self, k=None):
        r = self.rng
        v = self.labels(k)
        c = pick(r, [('list', 70), ('tuple', 15), ('np', 4), ('iter', 4),
                     ('series', 3), ('npint', 6)])
        if c == 'npint':
            if v and all(type(x) is bool for x in v):
                c = 'npbool'
            elif not v or not all(type(x) is int for x in v):
                c = 'list'
            elif min(v) >= 0 and max(v) < 256 and self.chance(0.5):
                c = r.choice(['npu8', 'npi16'])
                if max(v) < 15 and self.chance(0.5):
                    v = [x * 17 for x in v]
        return {'k': 'pat', 'v': v, 'c': c}

    # -------------------------------------------------------------- layout
    def new_rp(self, k=None):
        n = self.name('rp')
        v = self.labels(k)
        if not v and not self.chance(0.3):
            v = [1, 2, 3]
        self.add(op='rp', **{'as': n, 'labels': v,
                             'c': self.rng.choice(['list', 'list', 'tuple'])})
        self.rps.append(n)
        return n

    def rp_name(self):
        if self.rps and self.chance(0.7):
            return self.rng.choice(self.rps)
        return self.new_rp()

    def eaches(self, freq):
        # idle runs through a period of millions of units take ages
        w = Freq(freq).approx()
        lim = 100000 if self.opt.get('big') else 20000
        return [e for e in EACHES if refines(freq, e) and
                Freq(e).approx() <= lim * w]

    def each(self, freq, span):
        """A period which partitions `freq`, not too long for the span."""
        r = self.rng
        if self.chance(self.opt.get('bad_each', 0.02)):
            return r.choice([e for e in EACHES if Freq(e).approx() <=
                             20000 * Freq(freq).approx()])
        c = self.eaches(freq)
        good = [e for e in c if Freq(e).approx() <= max(span, 1) * 1.5]
        if self.opt.get('big'):
            return self.one_of_few(c)
        if good and self.chance(0.85):
            c = good
        if not c:
            return None
        # prefer a moderate number of periods
        return r.choice(c)

    def one_of_few(self, c):
        """A period which occurs not too often in a big frame."""
        w = self.big_span
        few = [e for e in c if w <= 300 * Freq(e).approx() <= 900 * w]
        return self.rng.choice(few) if few else None

    def at_spec(self, freq, span):
        """-> (each, at, how) or None"""
        r = self.rng
        c = [e for e in self.eaches(freq) if Freq(e).mult == 1 and
             not e[0].isdigit()]
        if not c:
            return None
        good = [e for e in c if Freq(e).approx() <= max(span, 1) * 1.2]
        each = r.choice(good or c)
        if self.opt.get('easter'):
            each = r.choice([e for e in c if Freq(e).base in 'AQM'] or c)
        if self.opt.get('big'):
            each = self.one_of_few(c)
            if each is None:
                return None
        f = Freq(each)
        hows = ['from_start_of_each'] * 6
        self.fine = Freq(freq).base in 'STH'
        if f.base in 'MQA':
            hows += ['nth_weekday_of_month'] * 5
        if f.base in 'W' and self.chance(0.3):
            hows += ['nth_weekday_of_month']
        if f.base in 'AQMW':
            hows += (['from_easter_western', 'from_easter_orthodox'] *
                     (3 if f.base == 'A' else 1))
        hows += ['@mid', '@last_second', '@alternate'][:
                                                       3 if self.chance(0.3)
                                                       else 0]
        how = self.opt.get('how') or r.choice(hows)
        if self.opt.get('easter') and Freq(each).base in 'AQM':
            how = r.choice(['from_easter_western', 'from_easter_orthodox'])
        at = []
        for _ in range(pick(r, [(1, 5), (2, 4), (3, 2),
                                (r.randint(4, 9), 0.5)])):
            at.append(self.at_item(how, f))
        return each, at, how

    def at_item(self, how, f):
        r = self.rng
        if how == 'from_start_of_each':
            b = f.base
            if self.chance(0.04):
                return {'days': -r.randint(1, 3)}
            if b in 'HDWMQA' and self.chance(0.12):
                return self.mixed_offset(b)
            if b == 'T':
                return {'seconds': r.randint(0, 70)}
            if b == 'H':
                return r.choice([{'minutes': r.randint(0, 70)},
                                 {'seconds': r.randint(0, 3600)}])
            if b == 'D':
                return r.choice([{'hours': r.randint(0, 26)},
                                 {'hours': r.randint(0, 23),
                                  'minutes': r.choice([0, 15, 30])},
                                 {'minutes': r.randint(0, 1500)}])
            if b == 'W':
                return r.choice([{'days': r.randint(0, 7)},
                                 {'days': r.randint(0, 6)},
                                 {'days': r.randint(0, 6),
                                  'hours': r.choice([0, 8, 12, 23])},
                                 {'hours': r.randint(0, 170)}])
            if b == 'M':
                return r.choice([{'days': r.randint(0, 32)},
                                 {'days': r.randint(0, 27)},
                                 {'weeks': r.randint(0, 4)},
                                 {'weeks': r.randint(0, 3),
                                  'days': r.randint(0, 6)},
                                 {'days': r.randint(0, 27),
                                  'hours': r.randint(0, 23)}])
            if b == 'Q':
                return r.choice([{'months': r.randint(0, 3)},
                                 {'months': r.randint(0, 2),
                                  'days': r.randint(0, 31)},
                                 {'days': r.randint(0, 92)},
                                 {'weeks': r.randint(0, 13)}])
            return r.choice([{'months': r.randint(0, 12)},
                             {'months': r.randint(0, 11),
                              'days': r.randint(0, 31)},
                             {'days': r.randint(0, 366)},
                             {'weeks': r.randint(0, 52)},
                             {'years': 0, 'months': r.randint(0, 11)}])
        if how == 'nth_weekday_of_month':
            d = {'month': 1 if f.base in 'MW' and self.chance(0.8) else
                 r.randint(1, 3) if f.base in 'QMW' else r.randint(1, 12),
                 'week': r.choice([1, 1, 2, 3, 4, 5, -1, -1, -2, -3, -4, -5]),
                 'weekday': r.randint(1, 7)}
            if self.chance(0.35):
                d['shift'] = r.choice([-10, -7, -3, -1, 0, 1, 1, 2, 5, 8])
            return d
        if how.startswith('from_easter'):
            if self.fine and self.chance(0.6):
                return {'days': r.randint(-2, 40),
                        'hours': r.randint(-30, 30)}
            return r.choice([{'days': r.randint(-60, 60)}, {'days': 0},
                             {'days': r.randint(-3, 50)},
                             {'weeks': r.randint(-8, 8)},
                             {'days': 1, 'hours': r.choice([0, 9])},
                             {'months': r.randint(-3, 3),
                              'days': r.randint(-35, 35)},
                             {'weeks': r.randint(-3, 3),
                              'days': r.randint(-20, 20)},
                             {'months': r.randint(0, 3)}])
        if how == '@mid':
            return {'frac': r.choice([2, 3, 4, 7])}
        return {}

    def mixed_offset(self, b):
        """An offset with components of both signs."""
        r = self.rng
        if b in 'HD':
            return r.choice([{'hours': r.randint(0, 2),
                              'minutes': -r.randint(0, 90)},
                             {'days': r.choice([-1, 1]),
                              'hours': r.randint(-30, 30)}])
        if b == 'W':
            return {'weeks': r.choice([-1, 1]), 'days': r.randint(-9, 9)}
        d = {'months': r.choice([1, 1, -1, 2, -2]), 'days': 0}
        d['days'] = -30 * d['months'] + r.randint(-3, 3)
        if b in 'QA' and self.chance(0.5):
            d['days'] += 30 * r.randint(0, 3)
        if b == 'A' and self.chance(0.3):
            d = {'years': 1, 'days': -r.randint(1, 367)}
        return d

    def marker(self, freq, span, at_prob):
        """Marker spec: text of a period or a reference to a Marker."""
        if self.chance(at_prob):
            s = self.at_spec(freq, span)
            if s:
                n = self.name('mk')
                op = {'op': 'marker', 'as': n, 'each': s[0], 'at': s[1]}
                if s[2] != 'from_start_of_each' or self.chance(0.5):
                    op['how'] = s[2]
                if self.chance(0.1):
                    op['c'] = 'tuple'
                self.ops.append(op)
                return {'n': n}
        e = self.each(freq, span)
        if e is None:
            return None
        if self.chance(0.5):
            return e
        n = self.name('mk')
        self.ops.append({'op': 'marker', 'as': n, 'each': e})
        return {'n': n}

    def marks(self, fr):
        r = self.rng
        k = pick(r, [(0, 1), (1, 3), (2, 4), (3, 4), (5, 3), (9, 1)])
        if self.chance(0.05):
            k = r.randint(20, 120)
        m = [self.pit(fr, 0.85) for _ in range(k)]
        if m and self.chance(0.3):
            m.append(dict(r.choice(m), **{'as': 'ts'}))
        if len(m) == 1 and self.chance(0.3):
            return m[0]
        return m

    def organizer(self, freq, fr, depth=1, span=None):
        """Builds an organizer; returns its name or None."""
        r, o = self.rng, self.opt
        span = span or (fr.end - fr.start + 1)
        op = {'op': 'org'}
        mode = pick(r, [('marker', o.get('w_marker', 6)),
                        ('marks', o.get('w_marks', 1))])
        sub = span
        if mode == 'marker':
            mk = self.marker(freq, span, o.get('at_prob', 0.3))
            if mk is None:
                mode = 'marks'
            else:
                op['marker'] = mk
                each = mk if isinstance(mk, str) else [
                    x for x in self.ops if x.get('as') == mk['n']][0]['each']
                sub = min(span, Freq(each).approx())
        if mode == 'marks':
            op['marks'] = self.marks(fr)
            sub = span // 3 + 1
        elems = []
        if self.chance(o.get('rp_structure', 0.05)):
            op['structure'] = {'k': 'rp', 'n': self.rp_name()}
        else:
            k = pick(r, [(0, 1), (1, 8), (2, 9), (3, 5), (4, 2), (7, 1),
                         (r.randint(8, 30), 0.4)])
            for _ in range(k):
                x = pick(r, [('pat', o.get('w_pat', 6)),
                             ('lab', o.get('w_lab', 3)),
                             ('org', (o.get('w_org', 3) if depth < 3 else 0) /
                              (1 if k < 8 else 5.0)),
                             ('rp', o.get('w_rp', 1))])
                if x == 'pat':
                    elems.append(self.pattern())
                elif x == 'lab':
                    elems.append({'k': 'lab', 'v': self.label()})
                elif x == 'rp':
                    elems.append({'k': 'rp', 'n': self.rp_name()})
                else:
                    if self.org_ok.get(freq) and self.chance(0.2):
                        n = r.choice(self.org_ok[freq])
                    else:
                        n = self.organizer(freq, fr, depth + 1, sub)
                    if n:
                        elems.append({'k': 'org', 'n': n})
            op['structure'] = elems
            if self.chance(0.1):
                op['sc'] = r.choice(['tuple', 'np', 'iter'])
        n = self.name('o')
        op['as'] = n
        self.ops.append(op)
        self.org_ok.setdefault(freq, []).append(n)
        return n

    def layout(self, freq, fr):
        r, o = self.rng, self.opt
        if self.chance(o.get('plain', 0.3)):
            if self.chance(o.get('rp_layout', 0.06)):
                return {'k': 'rp', 'n': self.rp_name()}
            p = self.pattern()
            if o.get('big') is None and self.chance(0.07):
                # things which are not sequences, or may be gone through once
                c = r.choice(['gen', 'gen', 'deque', 'range', 'dict', 'set',
                              'keys', 'part'])
                if self.chance(0.3):
                    p['v'] = p['v'][:1]
                if c == 'range':
                    p['v'] = list(range(r.choice([1, 2, 3, 7, 11])))
                if c not in ('dict', 'set', 'keys') or all(isinstance(x, (str, int, float))
                                      for x in p['v']):
                    p['c'] = c
            return p
        n = self.organizer(freq, fr)
        return {'k': 'org', 'n': n}

    # ---------------------------------------------------------- timeboards
    def timeboard(self, freq=None, n=None, like=None):
        r, o = self.rng, self.opt
        freq = freq or o.get('freq') or pick(r, FREQS)
        start, end = self.extent(freq, n)
        op = {'op': 'tb', 'freq': freq, 'start': self.tb_pit(start),
              'end': self.tb_pit(end)}
        if self.chance(o.get('reversed', 0.01)):
            op['start'], op['end'] = op['end'], op['start']
        fr = M.Frame(freq, start, end)
        self.big_span = fr.end - fr.start + 1
        op['layout'] = self.layout(freq, fr)
        if self.chance(o.get('amend', 0.25)):
            self.amend(op, fr)
        if self.chance(o.get('sel', 0.4)):
            op['sel'] = r.choice(SELS)
        if self.chance(0.15):
            op['name'] = r.choice(['work', 'my schedule', 7])
        if self.chance(0.5):
            op['ref'] = r.choice(['start', 'end', 'end'])
        if self.chance(o.get('deflabel', 0.15)):
            op['deflabel'] = r.choice([0, 1, 'zz', 5, 'day'])
            if self.chance(0.15):
                op['deflabel'] = self.label()
        if self.chance(o.get('wts', 0.15)):
            op['wts'] = r.choice(['labels', 'duration', 'labels'])
        name = self.name('tb')
        op['as'] = name
        self.ops.append(op)
        self.frames[name] = fr
        self.tbspec[name] = op
        self.schs[name + '.default'] = name
        return name

    def sibling(self, like):
        """One more timeboard on the very same layout objects: shifted by some
        base units, mostly of the same size."""
        r = self.rng
        old, ofr = self.tbspec[like], self.frames[like]
        f = Freq(old['freq'])
        if not ofr.n:
            return None
        o0 = f.ord(ofr.starts[0])
        k = r.choice([-1, 1]) * r.choice([0, 1, 1, 2, 3, 5, 7, 10, 24, 30, 31,
                                          52, 100, r.randint(1, 400)])
        n = ofr.n
        if self.chance(0.3):
            n = max(1, n + r.choice([-3, -2, -1, 1, 2, 5]))
        s = f.start(o0 + k * f.mult)
        e = f.start(o0 + (k + n - 1) * f.mult)
        if not -6 * 10 ** 18 < s <= e < 9 * 10 ** 18:
            return None
        op = dict(old, start=self.tb_pit(s), end=self.tb_pit(e))
        fr = M.Frame(old['freq'], s, e)
        op.pop('amend', None)
        op.pop('amend_as', None)
        if self.chance(self.opt.get('amend', 0.25)):
            self.amend(op, fr)
        if self.chance(0.1):
            op['ref'] = r.choice(['start', 'end'])
        name = op['as'] = self.name('tb')
        self.ops.append(op)
        self.frames[name] = fr
        self.tbspec[name] = op
        self.schs[name + '.default'] = name
        return name

    def amend(self, op, fr):
        r = self.rng
        k = pick(r, [(0, 1), (1, 4), (2, 4), (3, 3), (6, 2), (12, 1)])
        am, seen = [], set()
        dup = self.chance(self.opt.get('dup', 0.12))
        for _ in range(k):
            p = self.pit(fr, 0.85)
            u = fr.unit(p['t'])
            if u is not None and u in seen and not dup:
                continue
            seen.add(u)
            am.append([p, self.label()])
        # distinct keys for a dictionary
        keys, out = set(), []
        for p, v in am:
            if p['t'] in keys:
                continue
            keys.add(p['t'])
            out.append([p, v])
        if dup and out and fr.n:
            p = r.choice(out)[0]
            u = fr.unit(p['t'])
            if u is not None:
                a, b = fr.starts[u], fr.starts[u + 1]
                t = r.randrange(a, b)
                if t not in keys:
                    out.insert(r.randint(0, len(out)),
                               [{'t': t, 'as': 'ts'}, self.label()])
        op['amend'] = out
        if self.chance(0.15):
            op['amend_as'] = r.choice(['od', 'items'])

    # -------------------------------------------------------------- queries
    def sch_of(self, tb, p=0.4):
        if not self.chance(p):
            return None
        c = [s for s, t in self.schs.items() if t == tb]
        return self.rng.choice(c) if c else None

    def dress(self, op):
        """Now and then integers are numpy ones."""
        if self.chance(0.12):
            op['np'] = self.rng.choice(['int64', 'int64', 'int32', 'intp'])
        return op

    def put(self, op, sch=None, **kw):
        if sch is not None:
            op['sch'] = sch
        if op['op'] in ('ws_at', 'roll', 'ivl_direct', 'df'):
            self.dress(op)
        for k, v in kw.items():
            op[k] = v
        self.ops.append(op)
        return op

    def any_tb(self):
        return self.rng.choice(list(self.frames))

    def q_add_schedule(self):
        tb = self.any_tb()
        n = self.name('s')
        name = self.rng.choice(['s1', 's2', 's3', 'on_duty', 'late', 's1',
                                's2', 's3', 7, '7', 0, 'x y', 'on_duty ',
                                'On_Duty', 'my schedule', 'duration_'])
        self.put({'op': 'add_schedule', 'tb': tb, 'name': name,
                  'sel': self.rng.choice(SELS), 'as': n})
        self.schs[n] = tb

    def q_drop_schedule(self):
        c = [s for s in self.schs if not s.endswith('.default')]
        if not c:
            return self.q_add_schedule()
        s = self.rng.choice(c)
        self.put({'op': 'drop_schedule', 'tb': self.schs[s], 'sch': s})

    def q_readd(self):
        """A dropped name is given to another schedule."""
        r = self.rng
        ops = [o for o in self.ops if o['op'] == 'add_schedule' and
               o['as'] in self.schs]
        if not ops:
            return self.q_add_schedule()
        old = r.choice(ops[-3:])
        about = [o for o in self.ops if o.get('sch') == old['as'] and
                 o['op'] in ASKING]
        if not about:
            tb = old['tb']
            v = self.an_ivl(tb)
            if self.ivls[v] != tb:
                return
            for k in ('count', 'nth', 'workshifts', 'total', 'worktime'):
                if self.chance(0.5):
                    about.append(self.put(dict(
                        {'op': k, 'ivl': v, 'duty': r.choice(['on', 'off'])},
                        **({'n': r.choice([0, -1, 1])} if k == 'nth'
                           else {})), old['as']))
        self.put({'op': 'drop_schedule', 'tb': old['tb'], 'sch': old['as']})
        n = self.name('s')
        self.put(dict(old, sel=r.choice(SELS), **{'as': n}))
        self.schs[n] = old['tb']
        for o in about[-6:]:
            o = dict(o, sch=n)
            if 'as' in o:
                o['as'] = o['as'] + "'"
            self.ops.append(o)

    def q_get_ws(self):
        r = self.rng
        tb = self.any_tb()
        op = {'op': 'get_ws', 'tb': tb,
              'at': self.pit(self.frames[tb], 0.8)}
        if self.chance(0.02):
            op['at'] = {'as': 'null', 't': r.randint(0, 2)}
        op['via'] = r.choice(['get', 'call'])
        s = None
        if self.chance(0.3):
            s = self.sch_of(tb, 1)
            op['via'] = 'get'
            if self.chance(0.5):
                op['pos_arg'] = 1
        n = self.name('w')
        op['as'] = n
        self.put(op, s)
        self.wss[n] = tb

    def q_ws_at(self):
        r = self.rng
        tb = self.any_tb()
        fr = self.frames[tb]
        pos = pick(r, [(r.randrange(fr.n), 8), ({'end': -1}, 1),
                       ({'end': 0}, 1), ({'end': r.randint(0, 5)}, 1),
                       (0, 1)])
        n = self.name('w')
        self.put({'op': 'ws_at', 'tb': tb, 'pos': pos, 'as': n},
                 self.sch_of(tb, 0.3))
        self.wss[n] = tb

    def a_ws(self):
        if not self.wss or self.chance(0.25):
            self.rng.choice([self.q_get_ws, self.q_ws_at])()
        return self.rng.choice(list(self.wss)[-8:])

    def q_to_ts(self):
        self.put({'op': 'to_ts', 'ws': self.a_ws()})

    def q_duty(self):
        w = self.a_ws()
        self.put({'op': 'duty', 'ws': w}, self.sch_of(self.wss[w]))

    def q_sch_attrs(self):
        self.put({'op': 'sch_attrs', 'i': self.rng.randrange(400)},
                 self.rng.choice(list(self.schs)))

    def q_roll(self):
        r = self.rng
        w = self.a_ws()
        op = {'op': 'roll', 'ws': w,
              'how': pick(r, [('f', 4), ('b', 4), ('+', 1), ('-', 1)])}
        if op['how'] in '+-' or self.chance(0.85):
            op['n'] = pick(r, [(0, 3), (1, 4), (-1, 3), (2, 3), (-2, 2),
                               (r.randint(-6, 6), 4),
                               (r.randint(-60, 60), 2)])
        s = None
        if op['how'] in 'fb':
            if self.chance(0.8):
                op['duty'] = r.choice(['on', 'off', 'any', 'same', 'alt',
                                       'on', 'off'])
            if self.chance(0.3):
                op['kw'] = 1
            s = self.sch_of(self.wss[w], 0.35)
        n = self.name('w')
        op['as'] = n
        self.put(op, s)
        self.wss[n] = self.wss[w]

    def q_ws_worktime(self):
        w = self.a_ws()
        op = {'op': 'ws_worktime', 'ws': w}
        if self.chance(0.75):
            op['duty'] = self.rng.choice(DUTIES)
        self.put(op, self.sch_of(self.wss[w], 0.3))

    def q_ivl_points(self):
        r = self.rng
        tb = self.any_tb()
        fr = self.frames[tb]
        op = {'op': 'ivl_points', 'tb': tb}
        if self.chance(0.1):
            op['whole'] = r.choice(['none', 'call'])
        else:
            a, b = self.pit(fr, 0.9), self.pit(fr, 0.9)
            if a['t'] > b['t'] and self.chance(0.85):
                a, b = b, a
            if self.chance(0.15):
                b = self.near(fr, a)
            op['a'] = None if self.chance(0.1) else a
            op['b'] = None if self.chance(0.1) else b
            if op['a'] is None and self.chance(0.3):
                op['a'] = {'as': 'null', 't': r.randint(0, 4)}
        if self.chance(0.5):
            op['closed'] = r.choice(CLOSED)
        op['via'] = r.choice(['get', 'call'])
        n = self.name('i')
        op['as'] = n
        self.put(op, self.sch_of(tb, 0.3))
        self.ivls[n] = tb

    def near(self, fr, a):
        u = fr.unit(a['t'])
        if u is None:
            return self.pit(fr, 0.9)
        u = min(fr.n - 1, u + self.rng.choice([0, 0, 1, 1, 2]))
        return self.enc(self.rng.randrange(fr.starts[u], fr.starts[u + 1]))

    def q_ivl_length(self):
        r = self.rng
        tb = self.any_tb()
        fr = self.frames[tb]
        op = {'op': 'ivl_length', 'tb': tb, 'at': self.pit(fr, 0.92),
              'n': pick(r, [(1, 3), (-1, 3), (2, 3), (-2, 3),
                            (r.randint(-12, 12), 8), (0, 0.7),
                            (r.choice([-1, 1]) * (2 ** r.choice(
                                [15, 16, 31, 32, 53, 63, 64, 70]) +
                                r.randint(-2, 4)), 0.7),
                            (r.randint(-fr.n - 2, fr.n + 2), 3)])}
        if self.chance(0.5):
            op['closed'] = r.choice(CLOSED)
        op['via'] = r.choice(['get', 'call'])
        n = self.name('i')
        op['as'] = n
        self.put(op, self.sch_of(tb, 0.3))
        self.ivls[n] = tb

    def q_ivl_period(self):
        r = self.rng
        tb = self.any_tb()
        fr = self.frames[tb]
        f = fr.freq
        span = fr.end - fr.start + 1
        c = [p for p in QPERIODS if f.approx() / 12 <= Freq(p).approx() <=
             span * 4]
        op = {'op': 'ivl_period', 'tb': tb,
              'period': r.choice(c or QPERIODS)}
        at = self.pit(fr, 0.9)
        if self.chance(0.25):
            # near the bounds, where periods are clipped
            w = Freq(op['period']).approx()
            t = r.choice([fr.start, fr.end]) + r.randint(-w, w)
            at = self.enc(t)
        if at['as'].startswith('per:'):
            at['as'] = 'ts'
        op['at'] = at
        if self.chance(0.3):
            op['form'] = 'period'
        op['via'] = r.choice(['get', 'call'])
        if self.chance(0.5):
            op['closed'] = r.choice(CLOSED)
        if self.chance(0.5):
            op['clip'] = r.choice([True, False])
            if self.chance(0.1):
                op['flag'] = r.choice(['int', 'np'])
        n = self.name('i')
        op['as'] = n
        self.put(op, self.sch_of(tb, 0.3))
        self.ivls[n] = tb

    def q_ivl_direct(self):
        r = self.rng
        tb = self.any_tb()
        n = self.frames[tb].n
        a, b = r.randrange(n), r.randrange(n)
        if a > b and self.chance(0.9):
            a, b = b, a
        if self.chance(0.25):
            b = {'end': pick(r, [(-1, 5), (-2, 2), (0, 1)])}
        w = [x for x in self.wss if self.wss[x] == tb]
        if w and self.chance(0.2):
            a = {'ws': r.choice(w)}
        if w and self.chance(0.2):
            b = {'ws': r.choice(w)}
        op = {'op': 'ivl_direct', 'tb': tb, 'a': a, 'b': b}
        if self.chance(0.2):
            op['c'] = 'list'
        m = self.name('i')
        op['as'] = m
        self.put(op, self.sch_of(tb, 0.3))
        self.ivls[m] = tb

    def new_ivl(self):
        pick(self.rng, [(self.q_ivl_points, 4), (self.q_ivl_length, 2),
                        (self.q_ivl_period, 2), (self.q_ivl_direct, 3),
                        (self.q_overlap if self.ivls else self.q_ivl_points,
                         1)])()

    def an_ivl(self, tb=None):
        c = [x for x in self.ivls if tb is None or self.ivls[x] == tb]
        if len(c) < 2 or self.chance(0.2):
            for _ in range(3):
                self.new_ivl()
            c = [x for x in self.ivls if tb is None or self.ivls[x] == tb]
        if not c:
            self.q_ivl_points()
            return self.an_ivl(tb) if len(self.ivls) < 40 else \
                list(self.ivls)[0]
        return self.rng.choice(c[-10:])

    def q_duty_args(self, op, tb, p=0.8):
        if self.chance(p):
            op['duty'] = self.rng.choice(DUTIES)
        s = self.sch_of(tb, 0.35)
        if s:
            op['sch'] = s
        return op

    def q_count(self):
        v = self.an_ivl()
        self.ops.append(self.q_duty_args({'op': 'count', 'ivl': v},
                                         self.ivls[v]))

    def q_nth(self):
        r = self.rng
        v = self.an_ivl()
        op = {'op': 'nth', 'ivl': v, 'n': pick(r, [
            (0, 3), (-1, 3), (1, 3), (-2, 2), (r.randint(-10, 10), 4)])}
        x = r.random()
        if x < 0.2:
            op['how'] = 'first'
        elif x < 0.4:
            op['how'] = 'last'
        n = self.name('w')
        op['as'] = n
        self.ops.append(self.q_duty_args(self.dress(op), self.ivls[v]))
        self.wss[n] = self.ivls[v]

    def q_workshifts(self):
        v = self.an_ivl()
        self.ops.append(self.q_duty_args({'op': 'workshifts', 'ivl': v},
                                         self.ivls[v]))

    def q_iterate(self):
        r = self.rng
        v = self.an_ivl()
        plan = [['a', 'new']]
        live = ['a']
        for _ in range(r.randint(2, 9)):
            x = r.random()
            if x < 0.2 and len(live) < 4:
                n = 'abcd'[len(live)]
                live.append(n)
                plan.append([n, 'new'])
            elif x < 0.27:
                plan.append(['-', 'len'])
            elif x < 0.34:
                plan.append(['-', 'list'])
            elif x < 0.36:
                plan.append(['-', 'self'])
            elif x < 0.38:
                plan.append([r.choice(live), 'new'])
            else:
                plan.append([r.choice(live), r.choice([1, 1, 2, 3, 8, 500])])
        self.put({'op': 'iterate', 'ivl': v, 'plan': plan})

    def q_nested(self):
        self.put({'op': 'nested', 'ivl': self.an_ivl()})

    def q_abandon(self):
        self.put({'op': 'abandon', 'ivl': self.an_ivl(),
                  'steps': self.rng.choice([0, 1, 2, 5])})

    def q_overlap(self):
        r = self.rng
        x = self.an_ivl()
        y = self.an_ivl(self.ivls[x])
        n = self.name('i')
        op = {'op': 'overlap', 'x': x, 'y': y, 'as': n}
        if self.chance(0.3):
            op['how'] = '*'
            self.put(op)
        else:
            self.put(op, self.sch_of(self.ivls[x], 0.4))
        self.ivls[n] = self.ivls[x]

    def q_total(self):
        v = self.an_ivl()
        self.ops.append(self.q_duty_args({'op': 'total', 'ivl': v},
                                         self.ivls[v]))

    def q_worktime(self):
        v = self.an_ivl()
        self.ops.append(self.q_duty_args({'op': 'worktime', 'ivl': v},
                                         self.ivls[v]))

    def q_portion(self):
        x = self.an_ivl()
        y = self.an_ivl(self.ivls[x])
        op = {'op': 'portion', 'x': x, 'y': y}
        if self.chance(0.2):
            op['how'] = '/'
            self.put(op)
        else:
            self.ops.append(self.q_duty_args(op, self.ivls[x]))

    def q_count_periods(self):
        r = self.rng
        v = self.an_ivl()
        fr = self.frames[self.ivls[v]]
        span = fr.end - fr.start + 1
        c = [f for f in CPFREQS if span / Freq(f).approx() <= 800 and
             Freq(f).approx() <= 3 * span and
             Freq(f).approx() >= fr.freq.approx() / 3]
        if self.chance(0.05):
            f = r.choice(['W-MON', '2D', 'B', 'Q-FEB', 'foo', 'MS'])
        else:
            f = r.choice(c or ['W' if span < 900 * DAY else 'A'])
        self.ops.append(self.q_duty_args(
            {'op': 'count_periods', 'ivl': v, 'freq': f}, self.ivls[v]))

    def q_df(self):
        r = self.rng
        if self.chance(0.4):
            self.put({'op': 'df', 'ivl': self.an_ivl()})
            return
        op = {'op': 'df', 'tb': self.any_tb()}
        if self.chance(0.5):
            op['first'] = round(r.random() * 0.999, 3)
        if self.chance(0.5):
            op['last'] = round(r.random() * 1.05, 3)
        self.put(op)

    def q_text(self):
        x = self.rng.random()
        if x < 0.3:
            self.put({'op': 'text', 'what': 'tb', 'tb': self.any_tb()})
        elif x < 0.6:
            self.put({'op': 'text', 'what': 'ws', 'ws': self.a_ws()})
        else:
            self.put({'op': 'text', 'what': 'ivl', 'ivl': self.an_ivl()})


ASKING = ('duty', 'roll', 'ws_worktime', 'count', 'nth', 'workshifts', 'total',
          'worktime', 'portion', 'count_periods')

# ----------------------------------------------------------------- profiles

ALLQ = [('get_ws', 3), ('ws_at', 2), ('to_ts', 1), ('duty', 3), ('roll', 6),
        ('ws_worktime', 2), ('ivl_points', 4), ('ivl_length', 3),
        ('ivl_period', 4), ('ivl_direct', 2), ('count', 3), ('nth', 4),
        ('workshifts', 3), ('iterate', 2), ('nested', 1), ('overlap', 3),
        ('total', 2), ('worktime', 2), ('portion', 3), ('count_periods', 4),
        ('df', 1), ('text', 1), ('add_schedule', 2), ('drop_schedule', 0.5)]

QUERY = {
    'C08': [('duty', 6), ('sch_attrs', 2), ('add_schedule', 4), ('readd', 2), ('drop_schedule', 1.5),
            ('count', 4), ('roll', 2), ('nth', 2), ('overlap', 1),
            ('ws_at', 2), ('get_ws', 2), ('df', 0.5), ('text', 0.3)],
    'C09': [('get_ws', 14), ('ws_at', 5), ('to_ts', 5), ('roll', 1)],
    'C10': [('roll', 24), ('add_schedule', 1), ('readd', 0.7), ('get_ws', 2), ('ws_at', 2)],
    'C11': [('ivl_points', 20), ('add_schedule', 0.5)],
    'C12': [('ivl_length', 20), ('add_schedule', 0.5)],
    'C13': [('ivl_period', 20), ('add_schedule', 0.5)],
    'C14': [('count', 4), ('nth', 7), ('workshifts', 4), ('iterate', 4),
            ('nested', 1), ('ivl_direct', 3), ('add_schedule', 0.7),
            ('abandon', 0.7), ('overlap', 0.5), ('readd', 0.7)],
    'C15': [('overlap', 12), ('count', 3), ('nth', 3), ('workshifts', 2),
            ('iterate', 1.5), ('total', 2), ('worktime', 2), ('portion', 2),
            ('count_periods', 1.5), ('add_schedule', 0.5), ('text', 0.5),
            ('readd', 0.3)],
    'C16': [('total', 6), ('worktime', 8), ('ws_worktime', 6),
            ('add_schedule', 0.7), ('overlap', 1), ('readd', 0.5)],
    'C17': [('portion', 14), ('overlap', 1), ('add_schedule', 0.7),
            ('readd', 0.5)],
    'C18': [('count_periods', 14), ('overlap', 0.7), ('add_schedule', 0.7),
            ('readd', 0.5)],
    'C19': [('df', 6), ('text', 6), ('add_schedule', 2),
            ('drop_schedule', 0.4), ('overlap', 0.5)],
}

LAYOUT = {
    'C01': dict(plain=0.25, at_prob=0.35, w_marks=2, w_lab=5, amend=0.1,
                reversed=0.06),
    'C02': dict(plain=1.0, rp_layout=0.15, amend=0.05, deflabel=0.3),
    'C03': dict(plain=0.0, at_prob=0.03, w_marks=0.15, w_rp=0.15, amend=0.0,
                rp_structure=0.01, w_org=4, deflabel=0.25),
    'C04': dict(plain=0.0, at_prob=1.0, w_marks=0.1, w_rp=0.2, amend=0.0,
                rp_structure=0.01, w_org=1.5, w_lab=4),
    'C05': dict(plain=0.0, at_prob=0.05, w_marks=12, w_rp=0.2, amend=0.0,
                w_org=1.5, rp_structure=0.02),
    'C06': dict(plain=0.12, rp_layout=0.9, at_prob=0.2, w_rp=6, w_pat=2,
                rp_structure=0.3, amend=0.0, w_org=2.5, bad_each=0.0,
                reversed=0.0),
    'C07': dict(plain=0.25, amend=1.0, w_lab=6, w_marks=2, dup=0.2,
                w_rp=0.3),
}


def layout_case(rng, prop, **opt):
    g = Gen(rng, **dict(LAYOUT[prop], **opt))
    k = rng.randint(2, 4) if prop == 'C06' else rng.randint(1, 2)
    if opt.get('big'):
        k = 1
    for _ in range(k):
        name = g.timeboard()
        while not opt.get('big') and name and g.chance(0.22):
            name = g.sibling(name)
        if prop == 'C06':
            if g.rps and g.chance(0.6):
                g.put({'op': 'rpnext', 'rp': rng.choice(g.rps)})
            if g.chance(0.5):
                for _ in range(rng.randint(1, 4)):
                    rng.choice([g.q_count, g.q_roll, g.q_iterate, g.q_df,
                                g.q_text])()
    if prop == 'C06':
        for rp in g.rps:
            for _ in range(2):
                g.put({'op': 'rpnext', 'rp': rp})
    return {'kind': 'session', 'ops': g.ops}


def query_case(rng, prop, **more):
    opt = dict(plain=0.35, at_prob=0.25, w_lab=4, sel=0.5, bad_each=0.0,
               reversed=0.0, dup=0.0, amend=0.2, w_rp=0.4)
    if prop == 'C16':
        opt.update(wts=0.7, numeric=rng.random() < 0.75)
    if prop in ('C17', 'C15', 'C10', 'C14', 'C18'):
        opt.update(n=rng.choice([1, 2, 3, 5, 8, 13, 20, 30, 45, 60, 90] * 2 +
                                [130, 200, 270, 400, 800]))
        if rng.random() < 0.015:
            opt.update(n=rng.randint(1001, 1600),
                       freq=rng.choice(['D', 'H', 'T', '12H']))
    elif rng.random() < (0.12 if prop == 'C16' else 0.03):
        # hundreds of workshifts, of several base units each
        opt.update(n=rng.randint(200, 1000), w_lab=9, plain=0.1)
    if prop == 'C18' and rng.random() < 0.7:
        opt['freq'] = rng.choice(['D', 'D', 'H', '8H', 'W', 'M', '2D', '12H'])
        if opt['freq'] in ('D', 'H', '8H', '12H') and rng.random() < 0.6:
            opt['n'] = rng.randint(30, 150) if rng.random() < 0.85 else \
                rng.randint(300, 1200)
    opt.update(more)
    g = Gen(rng, **opt)
    g.timeboard()
    if rng.random() < 0.25 and not more:
        g.timeboard()
    elif rng.random() < 0.1 and not more:
        g.sibling(list(g.frames)[0])
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        g.q_add_schedule()
    w = QUERY[prop]
    for _ in range(rng.randint(10, 25 if not more else 14)):
        getattr(g, 'q_' + pick(rng, w))()
    return {'kind': 'session', 'ops': g.ops}


BIG = [('T', 4), ('H', 2), ('30S', 1), ('15S', 1), ('S', 2), ('30T', 1),
       ('D', 1)]


def big_case(rng, prop):
    """A timeboard of so many base units that their number, or the duration of
    a workshift, does not fit into two bytes."""
    freq = pick(rng, BIG)
    n = rng.choice([32767, 32768, 32769, 33000, 40000, 65535, 65536, 65537,
                    70000, 90000]) if freq != 'D' else 40000
    opt = dict(big=1, freq=freq, n=n)
    if rng.random() < 0.6:
        opt.update(w_lab=12)
    if prop in LAYOUT:
        return layout_case(rng, prop, **opt)
    opt.update(plain=0.2)
    return query_case(rng, prop, **opt)


def purity_case(rng):
    """For C20: a mixed history of queries; the runner repeats it."""
    g = Gen(rng, plain=0.3, at_prob=0.3, sel=0.5, bad_each=0.0, reversed=0.0,
            dup=0.0, amend=0.4, w_rp=0.0, rp_structure=0.0, rp_layout=0.0,
            n=rng.choice([2, 5, 12, 25, 40, 60, 2, 5, 12, 25, 40, 60, 150, 300]),
            wts=0.2)
    g.timeboard()
    if rng.random() < 0.5:
        g.timeboard()
    for _ in range(rng.randint(0, 2)):
        g.q_add_schedule()
    n0 = len(g.ops)
    for _ in range(rng.randint(8, 18)):
        getattr(g, 'q_' + pick(rng, [q for q in ALLQ if 'schedule' not in q[0]]
                               + [('abandon', 3)]))()
    return {'kind': 'purity', 'ops': g.ops, 'setup': n0,
            'seed': rng.randint(0, 10 ** 9)}


def rp_query_case(rng):
    g = Gen(rng, **LAYOUT['C06'])
    g.timeboard()
    return {'kind': 'session', 'ops': g.ops}


def gen_case(rng, prop):
    if prop == 'C04' and rng.random() < 0.06:
        # hours around Easter
        freq = rng.choice(['H', 'H', '12H', '8H', '6H', '2H'])
        return layout_case(rng, prop, easter=1, freq=freq,
                           n=24 * rng.randint(20, 150) // int(freq[:-1] or 1))
    if prop in ('C01', 'C03', 'C05', 'C07') and rng.random() < 0.04:
        # long boards, with workshifts of hundreds of base units
        return layout_case(rng, prop, n=rng.randint(367, 1500), w_lab=8,
                           w_marks=12, plain=0.1,
                           freq=rng.choice(['D', 'D', 'H', 'W', 'T', '12H']))
    if prop in LAYOUT:
        return layout_case(rng, prop)
    if prop in QUERY:
        return query_case(rng, prop)
    from . import special
    if prop == 'C20':
        if rng.random() < 0.12:
            return special.calendar_purity_case(rng)
        return purity_case(rng)
    return special.gen_case(rng, prop)
