"""Independent calendar arithmetic: integers only, no pandas, no datetime.

Times are nanoseconds since 1970-01-01 (as pandas.Timestamp.value).
"""
import re

NS = 10 ** 9
DAY = 86400 * NS
WD = {'MON': 0, 'TUE': 1, 'WED': 2, 'THU': 3, 'FRI': 4, 'SAT': 5, 'SUN': 6}
MON = {m: i + 1 for i, m in enumerate(
    ['JAN', 'FEB', 'MAR', 'APR', 'MAY', 'JUN', 'JUL', 'AUG', 'SEP', 'OCT',
     'NOV', 'DEC'])}


def days_from_civil(y, m, d):
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def civil_from_days(z):
    z += 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + (3 if mp < 10 else -9)
    return y + (m <= 2), m, d


def day_ns(y, m, d):
    return days_from_civil(y, m, d) * DAY


def is_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def month_len(y, m):
    return [31, 29 if is_leap(y) else 28, 31, 30, 31, 30,
            31, 31, 30, 31, 30, 31][m - 1]


def weekday(day):
    """Monday is 0; `day` is a day number since epoch."""
    return (day + 3) % 7


def easter_western(y):
    # Anonymous Gregorian computus (Meeus/Jones/Butcher)
    a = y % 19
    b, c = divmod(y, 100)
    d, e = divmod(b, 4)
    f = (b + 8) // 25
    g = (b - f + 1) // 3
    h = (19 * a + b - d - g + 15) % 30
    i, k = divmod(c, 4)
    l = (32 + 2 * e + 2 * i - h - k) % 7
    m = (a + 11 * h + 22 * l) // 451
    month, day = divmod(h + l - 7 * m + 114, 31)
    return days_from_civil(y, month, day + 1)


def easter_orthodox(y):
    # Meeus Julian algorithm, converted to the Gregorian calendar
    a = y % 4
    b = y % 7
    c = y % 19
    d = (19 * c + 15) % 30
    e = (2 * a + 4 * b - d + 34) % 7
    month, day = divmod(d + e + 114, 31)
    day += 1
    # julian day number -> days since epoch
    # difference of calendars for y: after 28 Feb of centuries
    diff = y // 100 - y // 400 - 2
    return days_from_civil(y, month, day) + diff


def nth_weekday(y, m, wd, n):
    """Day number of n-th weekday (Monday=1) of the month or None."""
    first = days_from_civil(y, m, 1)
    ln = month_len(y, m)
    days = [first + i for i in range(ln) if weekday(first + i) == wd - 1]
    if n > 0:
        return days[n - 1] if n <= len(days) else None
    return days[n] if -n <= len(days) else None


def add_months(y, m, n):
    t = y * 12 + (m - 1) + n
    return t // 12, t % 12 + 1


def shift_calendar(t, years=0, months=0, weeks=0, days=0, hours=0, minutes=0,
                   seconds=0):
    """Add years+months (clipping to the month's end), then fixed amounts."""
    day, rest = divmod(t, DAY)
    y, m, d = civil_from_days(day)
    y, m = add_months(y, m, years * 12 + months)
    d = min(d, month_len(y, m))
    return (days_from_civil(y, m, d) * DAY + rest +
            (weeks * 7 + days) * DAY + (hours * 3600 + minutes * 60 + seconds)
            * NS)


class BadFreq(ValueError):
    pass


class Freq(object):
    """A calendar frequency: `ord` numbers periods, `start` gives their start."""
    _rx = re.compile(r'^(\d*)(S|T|min|H|D|W|M|Q|A|Y)(?:-([A-Z]{3}))?$')
    FIXED = {'S': NS, 'T': 60 * NS, 'H': 3600 * NS, 'D': DAY}

    def __init__(self, text):
        mt = self._rx.match(text)
        if not mt:
            raise BadFreq(text)
        self.text = text
        self.mult = int(mt.group(1) or 1)
        base = {'min': 'T', 'Y': 'A'}.get(mt.group(2), mt.group(2))
        anchor = mt.group(3)
        if anchor is not None:
            if base == 'W' and anchor not in WD or \
               base in 'QA' and anchor not in MON or base not in 'WQA':
                raise BadFreq(text)
        if self.mult < 1:
            raise BadFreq(text)
        self.base = base
        if base == 'W':
            anchor = anchor or 'SUN'
            startwd = (WD[anchor] + 1) % 7
            self.off = (startwd - 3) % 7
        elif base == 'Q':
            anchor = anchor or 'DEC'
            self.off = MON[anchor] % 12 % 3
        elif base == 'A':
            anchor = anchor or 'DEC'
            self.off = MON[anchor] % 12
        self.anchor = anchor

    def ord(self, t):
        b = self.base
        if b in self.FIXED:
            return t // self.FIXED[b]
        day = t // DAY
        if b == 'W':
            return (day - self.off) // 7
        y, m, _ = civil_from_days(day)
        idx = y * 12 + m - 1
        if b == 'M':
            return idx
        if b == 'Q':
            return (idx - self.off) // 3
        return (idx - self.off) // 12

    def start(self, o):
        b = self.base
        if b in self.FIXED:
            return o * self.FIXED[b]
        if b == 'W':
            return (o * 7 + self.off) * DAY
        if b == 'M':
            idx = o
        elif b == 'Q':
            idx = o * 3 + self.off
        else:
            idx = o * 12 + self.off
        y, m = divmod(idx, 12)
        return days_from_civil(y, m + 1, 1) * DAY

    def period(self, t):
        """[start, end] of the (possibly multiplied) period anchored at t."""
        o = self.ord(t)
        return self.start(o), self.start(o + self.mult) - 1

    def approx(self):
        """Typical length in ns."""
        return {'S': NS, 'T': 60 * NS, 'H': 3600 * NS, 'D': DAY,
                'W': 7 * DAY, 'M': 30 * DAY, 'Q': 91 * DAY,
                'A': 365 * DAY}[self.base] * self.mult


def refines(base, each):
    """Does every period of `base` lie within a single period of `each`, for
    any extent? True / False / None (not settled by the property)."""
    b, e = Freq(base), Freq(each)
    if 'min' in base + each or 'Y' in base + each:
        return None         # whether aliases are recognized is not settled
    if b.base == e.base:
        if ('-' in base) != ('-' in each) and b.anchor == e.anchor:
            return None     # neither is the identity of 'W' and 'W-SUN'
        same = b.anchor == e.anchor
        if not same:
            if b.base == 'Q' and b.off == e.off:
                return None
            return False
        if b.mult == e.mult:
            # the code refuses M by M while it accepts D by D
            return None if b.base in 'MQA' and b.mult == 1 else True
        return e.mult % b.mult == 0
    if b.mult != 1:
        # depends on the alignment of the extent
        return False
    chain = ['S', 'T', 'H', 'D']
    if b.base in chain:
        if e.base in chain:
            return chain.index(b.base) < chain.index(e.base)
        return True
    if b.base == 'W':
        return False
    if b.base == 'M':
        return e.base in 'QA'
    if b.base == 'Q':
        if e.base == 'A':
            return True if (e.off - b.off) % 3 == 0 else False
        return False
    return False
