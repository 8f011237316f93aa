"""Reference model of timeboard layouts (pure Python over integers)."""
import bisect
import math
import pandas as pd

from .calmath import (Freq, BadFreq, DAY, refines, shift_calendar,
                      easter_western, easter_orthodox, nth_weekday,
                      civil_from_days, add_months)

UNDEF = 'undef'          # left dangle is not defined


class Unjudged(Exception):
    """The model does not cover this input; nothing is claimed about it."""


class Refuse(Exception):
    """The model expects the operation to be refused with one of `kinds`."""

    def __init__(self, *kinds):
        Exception.__init__(self, kinds)
        self.kinds = kinds


def is_null(x):
    if x is None or x is pd.NaT or x is pd.NA:
        return True
    try:
        return bool(x != x)
    except Exception:
        return False


def same_label(a, b):
    if is_null(a) and is_null(b):
        return True
    if isinstance(a, str) != isinstance(b, str):
        return False
    try:
        return bool(a == b)
    except Exception:
        return a is b


def ts(x):
    """Timestamp-like -> ns."""
    if hasattr(x, 'to_timestamp'):
        x = x.to_timestamp()
    t = x if isinstance(x, pd.Timestamp) else pd.Timestamp(x)
    if t is pd.NaT:
        raise Unjudged('null point in time')
    if t.tzinfo is not None:
        raise Unjudged('tz')
    return t.value


class Frame(object):
    def __init__(self, freq, start, end):
        try:
            self.freq = Freq(freq)
        except (BadFreq, TypeError):
            raise Unjudged('freq %r' % (freq,))
        f = self.freq
        o0, o1 = f.ord(start), f.ord(end)
        if o1 < o0:
            raise Refuse('VoidIntervalError')
        self.n = (o1 - o0) // f.mult + 1
        if self.n > 200000:
            raise Unjudged('huge frame')
        if f.base in f.FIXED:
            step = f.FIXED[f.base] * f.mult
            s0 = f.start(o0)
            self.starts = [s0 + i * step for i in range(self.n + 1)]
        else:
            self.starts = [f.start(o0 + i * f.mult) for i in range(self.n + 1)]
        self.start, self.end = self.starts[0], self.starts[-1] - 1

    def unit(self, t):
        """Index of the unit containing t, or None."""
        if t < self.start or t > self.end:
            return None
        return bisect.bisect_right(self.starts, t) - 1


# ---------------------------------------------------------------- markers

def at_points(marker, freq_each, lo, hi, base_freq):
    """All marks of `at` in the `each` periods touching [lo, hi]; list of
    (point, period ordinal)."""
    f = freq_each
    if f.mult != 1:
        raise Unjudged('multiplied period with at')
    res = []
    o = f.ord(lo)
    while True:
        ps, pe = f.start(o), f.start(o + 1) - 1
        if ps > hi:
            break
        for kw in marker.at:
            found = one_point(marker.how, f, ps, pe, dict(kw))
            for p in found if isinstance(found, list) else [found]:
                if p is not None and ps <= p <= pe:
                    res.append((p, o))
        o += 1
    return res


OFFKEYS = {'years', 'months', 'weeks', 'days', 'hours', 'minutes', 'seconds'}


def one_point(how, f, ps, pe, kw):
    if how == 'from_start_of_each':
        if not set(kw) <= OFFKEYS:
            raise Unjudged('offset keys')
        return shift_calendar(ps, **kw)
    if how in ('from_easter_western', 'from_easter_orthodox'):
        if not set(kw) <= OFFKEYS:
            raise Unjudged('offset keys')
        fn = easter_western if how.endswith('western') else easter_orthodox
        y = civil_from_days(ps // DAY)[0]
        y2 = civil_from_days(pe // DAY)[0]
        easters = [fn(yy) * DAY for yy in range(y, y2 + 1)]
        return [shift_calendar(e, **kw) for e in easters if ps <= e <= pe]
    if how == 'nth_weekday_of_month':
        kw = dict(kw)
        shift = kw.pop('shift', None) or 0
        month, week, wd = kw.pop('month'), kw.pop('week'), kw.pop('weekday')
        y, m, _ = civil_from_days(ps // DAY)
        y, m = add_months(y, m, month - 1)
        d = nth_weekday(y, m, wd, week)
        if d is None:
            return None
        return (d + shift) * DAY
    if callable(how) and hasattr(how, 'model_point'):
        return how.model_point(ps, pe, **kw)
    raise Unjudged('how')


def cut_by_marker(frame, marker, first, last):
    """-> (cuts, skip, ambiguous)."""
    ok = refines(frame.freq.text, marker.each)
    if ok is None:
        raise Unjudged('partitioning not settled')
    if not ok:
        raise Refuse('UnacceptablePeriodError')
    f = Freq(marker.each)
    s, e = frame.starts[first], frame.starts[last + 1] - 1
    if not marker.at:
        o = f.ord(s)
        cuts = []
        left = f.start(o)
        oo = o + f.mult
        while f.start(oo) <= e:
            u = frame.unit(f.start(oo))
            if first < u <= last:
                cuts.append(u)
            oo += f.mult
        return cuts, units_between(frame, left, s), False
    # make sure the latest mark preceding the span is known if it exists in
    # the current or the previous period; look further back as well
    o = f.ord(s)
    back = 60
    pts = at_points(marker, f, max(f.start(o - back), -9 * 10 ** 18), e, None)
    cuts = sorted({frame.unit(p) for p, _ in pts if s <= p <= e} - {None})
    cuts = [u for u in cuts if first < u <= last]
    # offsets are snapped to base units, so that a mark inside the first unit of
    # the span coincides with its start; other marks keep their position, and
    # whether a mark inside the first unit restarts the pattern is not settled
    if not marker.how.startswith('from_') if isinstance(marker.how, str) \
            else True:
        if any(s < p < frame.starts[first + 1] for p, _ in pts):
            raise Unjudged('loose mark inside the first base unit')
    before = [(p, po) for p, po in pts if p < frame.starts[first + 1]]
    if not before:
        return cuts, UNDEF, False
    p, _ = max(before)
    recent = [q for q, po in before if po >= o - 1]
    return cuts, units_between(frame, min(p, s), s), not recent


def units_between(frame, left, s):
    """Number of base units from the one containing `left` up to `s`."""
    f = frame.freq
    d = f.ord(s) - f.ord(left)
    if d % f.mult:
        raise Unjudged('misaligned dangle of multiplied units')
    return d // f.mult


# ----------------------------------------------------------------- layout

class MarkerShadow(object):
    def __init__(self, each, at, how):
        self.each, self.at, self.how = each, at, how


class OrgShadow(object):
    def __init__(self, marker, marks, structure):
        self.marker, self.marks, self.structure = marker, marks, structure


class RPShadow(object):
    def __init__(self, labels):
        self.labels = list(labels)
        self.pos = 0
        self.tainted = False

    def next(self):
        if self.tainted:
            raise Unjudged('tainted pattern')
        if not self.labels:
            raise StopIteration
        v = self.labels[self.pos % len(self.labels)]
        self.pos += 1
        return v


class LayoutResult(object):
    pass


def is_pattern(x):
    try:
        iter(x)
    except TypeError:
        return False
    return not isinstance(x, (str, bytes))


def evaluate_layout(frame, layout, reg, default_label):
    """`reg` resolves real objects to shadows: reg.org(x), reg.marker(x),
    reg.rp(x) return None if x is not such an object."""
    labels = [default_label] * frame.n
    starts = [True] * frame.n
    res = LayoutResult()
    res.oob_allowed = False
    res.kinds = set()
    res.depth = 0
    res.skips = []

    def apply_pattern(pat, first, last, skip, amb):
        if skip is UNDEF:
            raise Refuse('OutOfBoundsError')
        if amb:
            res.oob_allowed = True
        if skip:
            res.skips.append(skip)
        rp = reg.rp(pat)
        n = last - first + 1
        if rp is not None:
            res.kinds.add('rp')
            if not rp.labels:
                return
            for _ in range(skip):
                rp.next()
            for i in range(n):
                labels[first + i] = rp.next()
            return
        if hasattr(pat, '__next__'):
            raise Unjudged('one-shot iterator as a pattern')
        pat = list(pat)
        res.kinds.add('pattern' if pat else 'empty-pattern')
        if not pat:
            return
        k = len(pat)
        for i in range(n):
            labels[first + i] = pat[(skip + i) % k]

    def organize(org, first, last, depth):
        res.depth = max(res.depth, depth)
        if org.marks is not None:
            marks = org.marks
            if not is_pattern(marks):
                marks = [marks]
            cuts = {frame.unit(ts(m)) for m in marks} - {None}
            cuts = sorted(u for u in cuts if first < u <= last)
            skip, amb = 0, False
            res.kinds.add('marks')
        else:
            mk = org.marker
            sh = reg.marker(mk)
            if sh is None:
                if not isinstance(mk, str):
                    raise Unjudged('marker')
                sh = MarkerShadow(mk, None, None)
            cuts, skip, amb = cut_by_marker(frame, sh, first, last)
            res.kinds.add('at:%s' % (sh.how if isinstance(sh.how, str)
                                     else 'custom') if sh.at else 'period')
        bounds = [first] + cuts
        ends = [c - 1 for c in cuts] + [last]
        st = org.structure
        rp = reg.rp(st)
        if rp is not None:
            res.kinds.add('rp-structure')
            if not rp.labels:
                return

            def draw(i):
                return rp.next()
        else:
            if hasattr(st, '__next__'):
                raise Unjudged('one-shot iterator as a structure')
            st = list(st)
            if not st:
                res.kinds.add('empty-structure')
                return

            def draw(i):
                return st[i % len(st)]
        for i, (a, b) in enumerate(zip(bounds, ends)):
            el = draw(i)
            sk, am = (skip, amb) if i == 0 else (0, False)
            sub = reg.org(el)
            if sub is not None:
                organize(sub, a, b, depth + 1)
            elif is_pattern(el):
                apply_pattern(el, a, b, sk, am)
            else:
                res.kinds.add('compound')
                labels[a] = el
                for u in range(a + 1, b + 1):
                    starts[u] = False

    org = reg.org(layout)
    if org is not None:
        organize(org, 0, frame.n - 1, 1)
    else:
        rp = reg.rp(layout)
        if rp is None and hasattr(layout, '__next__'):
            raise Unjudged('generator layout')
        res.kinds.add('plain')
        apply_pattern(layout, 0, frame.n - 1, 0, False)
    firsts = [u for u in range(frame.n) if starts[u]]
    res.firsts = firsts
    res.labels = [labels[u] for u in firsts]
    return res


class Timeline(object):
    """Workshifts as arrays; the ground truth for queries."""

    def __init__(self, starts, ends, durations, labels, ref):
        self.starts, self.ends = starts, ends
        self.durations, self.labels = durations, labels
        self.ref = ref              # 'start' | 'end'
        self.n = len(starts)
        self.refs = ends if ref == 'end' else starts

    def locate(self, t):
        """index | 'L' | 'R'"""
        if t < self.starts[0]:
            return 'L'
        if t > self.ends[-1]:
            return 'R'
        return bisect.bisect_right(self.starts, t) - 1

    def is_tiling(self):
        return (all(s <= e for s, e in zip(self.starts, self.ends)) and
                all(self.ends[i] + 1 == self.starts[i + 1]
                    for i in range(self.n - 1)))

    def diff(self, other, what=('starts', 'ends', 'durations', 'labels')):
        if self.n != other.n:
            return 'workshift count %d vs %d' % (self.n, other.n)
        for w in what:
            a, b = getattr(self, w), getattr(other, w)
            for i in range(self.n):
                ok = same_label(a[i], b[i]) if w == 'labels' else a[i] == b[i]
                if not ok:
                    return 'workshift %d: %s %r vs %r' % (i, w[:-1], a[i], b[i])
        return None


def timeline_of(frame, layout_result, ref):
    fs = layout_result.firsts
    nxt = fs[1:] + [frame.n]
    return Timeline([frame.starts[u] for u in fs],
                    [frame.starts[v] - 1 for v in nxt],
                    [v - u for u, v in zip(fs, nxt)],
                    list(layout_result.labels), ref)


def apply_amendments(tl, amendments):
    located = {}
    for k, v in amendments.items():
        if is_null(k):
            raise Unjudged('null amendment key')
        i = tl.locate(ts(k))
        if i in ('L', 'R'):
            continue
        if i in located:
            raise Refuse('KeyError')
        located[i] = v
    for i, v in located.items():
        tl.labels[i] = v
    return located
