"""Executes a case against the real library and judges every event.

A Session owns the objects built so far.  Every operation of a case is one
event: the call is recorded at the client boundary (arguments, returned value
or exception) and an online monitor compares it with what the reference model
allows.  A verdict is attributed to the property the operation belongs to.
"""
import collections
import hashlib
from fractions import Fraction

import numpy as np
import pandas as pd

from . import model as M
from . import truth as T
from .calmath import Freq, BadFreq
from .spec import (dec_label, dec_pit, dec_how, container, SELECTORS, canon)


class Skip(Exception):
    """The operation refers to an object which could not be made."""


class Violation(object):
    def __init__(self, prop, op, message, key=None):
        self.prop, self.op, self.message = prop, op, message
        self.key = key          # identifies a known finding

    def as_dict(self):
        return {'property': self.prop, 'op': self.op, 'message': self.message}


Out = collections.namedtuple('Out', 'ok value')       # value or exception


def kind_of(exc):
    return type(exc).__name__


def kinds_of(exc):
    return [c.__name__ for c in type(exc).__mro__]


class Stats(object):
    def __init__(self):
        self.judged = collections.Counter()     # property -> events judged
        self.nontrivial = collections.defaultdict(set)
        self.outcomes = collections.Counter()   # (property, op, outcome class)
        self.unjudged = collections.Counter()
        self.calls = 0
        self.samples = {}
        self.states = collections.defaultdict(set)

    def merge(self, d):
        for k, v in d['judged'].items():
            self.judged[k] += v
        for k, v in d['nontrivial'].items():
            self.nontrivial[k].update(v)
        for k, v in d['states'].items():
            self.states[k].update(v)
        for k, v in d['outcomes'].items():
            self.outcomes[k] += v
        for k, v in d['unjudged'].items():
            self.unjudged[k] += v
        for k, v in d['samples'].items():
            self.samples.setdefault(k, [])
            if len(self.samples[k]) < 6:
                self.samples[k] += v[:2]
        self.calls += d['calls']

    def dump(self):
        return {'judged': dict(self.judged),
                'nontrivial': {k: list(v) for k, v in self.nontrivial.items()},
                'states': {k: list(v) for k, v in self.states.items()},
                'outcomes': dict(self.outcomes),
                'unjudged': dict(self.unjudged),
                'samples': self.samples, 'calls': self.calls}


def h64(text):
    return int.from_bytes(hashlib.blake2b(text.encode(), digest_size=6)
                          .digest(), 'big')


class TB(object):
    """Shadow of a timeboard."""

    def __init__(self):
        self.schedules = {}     # name -> (real schedule, selector)
        self.duty_cache = {}

    def duties(self, schname, selector):
        key = schname
        if key not in self.duty_cache:
            self.duty_cache[key] = [bool(selector(l)) for l in self.tl.labels]
        return self.duty_cache[key]


class Sch(object):
    """Shadow of a schedule: survives being dropped from its timeboard."""

    def __init__(self, tb, name, real, selector):
        self.tb, self.name, self.real, self.selector = tb, name, real, selector
        self._duties = None

    @property
    def duties(self):
        if self._duties is None:
            self._duties = [bool(self.selector(l)) for l in self.tb.tl.labels]
        return self._duties


class WS(object):
    def __init__(self, tb, i, sch, real):
        self.tb, self.i, self.sch, self.real = tb, i, sch, real


class IVL(object):
    """Shadow of an interval; void if i is None."""

    def __init__(self, tb, i, j, sch, real):
        self.tb, self.i, self.j, self.sch, self.real = tb, i, j, sch, real

    @property
    def void(self):
        return self.i is None

    def members(self, duty, sch):
        if self.i is None:
            return []
        return T.members(self.i, self.j, duty, sch.duties)


class Session(object):
    def __init__(self, tbmod, stats=None, want=None):
        self.lib = tbmod
        self.stats = stats or Stats()
        self.want = want            # judge only this property, if given
        self.violations = []
        self.rp, self.mk, self.org = {}, {}, {}     # name -> real
        self._sh = {}               # id(real) -> shadow of a layout object
        self._keep = []
        self.tb, self.ws, self.ivl, self.sch = {}, {}, {}, {}
        self.containers = []        # (object, snapshot) of the caller's data
        self.results = []           # normalized outcomes in order
        self.cur = None
        self.history = []           # operations executed so far
        self.tag = ''

    # ------------------------------------------------------------ registry
    class _Reg(object):
        pass

    def reg(self):
        r = Session._Reg()
        sh = self._sh

        def get(cls):
            return lambda x: (sh.get(id(x)) if isinstance(sh.get(id(x)), cls)
                              else None)
        r.org, r.marker, r.rp = (get(M.OrgShadow), get(M.MarkerShadow),
                                 get(M.RPShadow))
        return r

    def register(self, real, shadow):
        self._keep.append(real)
        self._sh[id(real)] = shadow

    # ------------------------------------------------------------- verdicts
    def call(self, fn, *a, **kw):
        self.stats.calls += 1
        try:
            return Out(True, fn(*a, **kw))
        except Exception as e:
            return Out(False, e)

    def verdict(self, props, ok, message, outcome='', trivial=False,
                sig=None, key=None):
        if isinstance(props, str):
            props = [props]
        if self.want is not None:
            props = [p for p in props if p == self.want]
        for p in props:
            self.stats.judged[p] += 1
            op = self.cur['op'] if self.cur else '?'
            self.stats.outcomes['%s %s %s' % (p, op, outcome)] += 1
            if not trivial:
                self.stats.nontrivial[p].add(
                    h64(self.tag + canon(self.cur) + (sig or '')))
            s = self.stats.samples.setdefault(p, [])
            if len(s) < 2 and not trivial and sum(
                    self.stats.judged.values()) % 7 == 0:
                s.append({'op': self.cur, 'on': self.tag[:600],
                          'outcome': outcome})
            if not ok:
                self.violations.append(Violation(p, self.cur, message, key))
        return ok

    def unjudged(self, why):
        self.stats.unjudged[str(why)[:60]] += 1

    def judge(self, props, out, exp, compare=None, trivial=False, key=None):
        """Compare an outcome with a T.Expect."""
        if exp is None:
            return None
        if out.ok:
            if not exp.value_allowed:
                return self.verdict(
                    props, False, 'expected one of %s, got %s' %
                    (sorted(exp.kinds), self.show(out.value)), 'value',
                    trivial, key=key)
            msg = compare(out.value, exp.value) if compare else (
                None if out.value == exp.value else
                'expected %r, got %r' % (exp.value, out.value))
            return self.verdict(props, msg is None, msg, 'value', trivial,
                                key=key)
        k = kinds_of(out.value)
        if not any(x in exp.kinds for x in k):
            if exp.value_allowed and 'C27' not in props and key is None:
                props = ([props] if isinstance(props, str) else
                         list(props)) + ['C27']     # a valid request refused
            return self.verdict(
                props, False, 'expected %s, got %s: %s' % (
                    ('a value (%s)' % self.show(exp.value))
                    if exp.value_allowed else sorted(exp.kinds),
                    k[0], str(out.value)[:300]), k[0], trivial, key=key)
        return self.verdict(props, True, None, k[0], trivial)

    def show(self, x):
        try:
            return repr(x)[:300]
        except Exception as e:
            return '<unprintable %s>' % type(e).__name__

    # ------------------------------------------------------------- results
    def norm(self, out):
        """A comparable form of an outcome."""
        if not out.ok:
            return ['exc', kind_of(out.value)]
        return self.norm_value(out.value)

    def norm_value(self, v):
        lib = self.lib
        if isinstance(v, lib.Workshift):
            return ['ws', str(v.start_time), str(v.end_time), str(v.duration),
                    repr(v.label), v.schedule.name]
        if isinstance(v, lib.Interval):
            return ['ivl', str(v.start_time), str(v.end_time), str(v.length),
                    v.schedule.name]
        if isinstance(v, lib.Timeboard):
            return ['tb', str(v.start_time), str(v.end_time)]
        if isinstance(v, pd.DataFrame):
            return ['df', [str(c) for c in v.columns],
                    [[str(i)] + [str(x) for x in row] for i, row in
                     zip(v.index, v.values.tolist())]]
        if isinstance(v, (list, tuple)):
            return ['list'] + [self.norm_value(x) for x in v]
        if isinstance(v, (bool, np.bool_)):
            return bool(v)
        if isinstance(v, (int, np.integer)):
            return ['num', float(v)]
        if isinstance(v, (float, np.floating)):
            return ['num', repr(float(v))] if v != v else ['num', float(v)]
        if isinstance(v, pd.Timestamp):
            return ['ts', v.value]
        return repr(v) if not isinstance(v, str) else v

    def ws_diff(self, w, tb, i, sch):
        """Does workshift `w` show the i-th workshift of tb?"""
        lib, tl = self.lib, tb.tl
        if not isinstance(w, lib.Workshift):
            return 'not a workshift: %s' % self.show(w)
        if w.start_time.value != tl.starts[i] or \
                w.end_time.value != tl.ends[i]:
            return 'expected workshift %d (%s .. %s), got %s .. %s' % (
                i, pd.Timestamp(tl.starts[i]), pd.Timestamp(tl.ends[i]),
                w.start_time, w.end_time)
        if not M.same_label(w.label, tl.labels[i]):
            return 'workshift %d: label %r expected, got %r' % (
                i, tl.labels[i], w.label)
        if w.duration != tl.durations[i]:
            return 'workshift %d: duration %r expected, got %r' % (
                i, tl.durations[i], w.duration)
        if sch is not None and w.schedule is not sch.real:
            return 'workshift %d carries schedule %r instead of %r' % (
                i, w.schedule.name, sch.name)
        return None

    def ivl_diff(self, v, tb, i, j, sch):
        lib, tl = self.lib, tb.tl
        if not isinstance(v, lib.Interval):
            return 'not an interval: %s' % self.show(v)
        if i is None:
            if v.length != 0 or len(v) != 0:
                return 'expected a void interval, got length %r' % v.length
            if v.start_time is not pd.NaT or v.end_time is not pd.NaT:
                return 'void interval has bounds %s, %s' % (v.start_time,
                                                            v.end_time)
        else:
            if v.start_time is pd.NaT or \
                    v.start_time.value != tl.starts[i] or \
                    v.end_time.value != tl.ends[j] or v.length != j - i + 1:
                return ('expected interval of workshifts %d..%d (%s .. %s), '
                        'got %s .. %s [%s]' % (
                            i, j, pd.Timestamp(tl.starts[i]),
                            pd.Timestamp(tl.ends[j]), v.start_time, v.end_time,
                            v.length))
        if sch is not None and v.schedule is not sch.real:
            return 'interval carries schedule %r instead of %r' % (
                v.schedule.name, sch.name)
        return None

    # -------------------------------------------------------------- objects
    def get(self, table, name):
        if name not in table:
            raise Skip(name)
        return table[name]

    def sched(self, name):
        """-> (real or None, shadow or None)"""
        if name is None:
            return None, None
        s = self.get(self.sch, name)
        return s.real, s

    def element(self, e):
        k = e.get('k')
        if k == 'lab':
            return dec_label(e['v'])
        if k == 'pat':
            c = e.get('c', 'list')
            # a generator is made of the list when it is handed over
            v = container([dec_label(x) for x in e['v']],
                          'list' if c == 'gen' else c)
            self.own(v)
            return v
        if k == 'rp':
            return self.get(self.rp, e['n'])
        if k == 'org':
            return self.get(self.org, e['n'])
        raise ValueError(e)

    def own(self, obj):
        """Remember a container of the caller to check it stays intact."""
        if isinstance(obj, (list, dict, set)):
            self.containers.append((obj, snapshot(obj)))

    def check_containers(self):
        for obj, snap in self.containers:
            if snapshot(obj) != snap:
                return 'caller\'s %s became %s (was %s)' % (
                    type(obj).__name__, snapshot(obj)[:200], snap[:200])
        return None

    # ------------------------------------------------------------ execution
    def run(self, case):
        for op in case['ops']:
            self.step(op)
        return self

    def step(self, op):
        self.cur = op
        self.history.append(op)
        fn = getattr(self, 'op_' + op['op'])
        try:
            out = fn(op)
        except Skip:
            self.results.append(['skip'])
            return None
        except M.Unjudged as e:
            self.unjudged(e)
            self.results.append(['unjudged'])
            return None
        if isinstance(out, Out):
            try:
                self.results.append(self.norm(out))
            except Exception as e:
                self.results.append(['unprintable', kind_of(e)])
        else:
            self.results.append(['-'])
        return out

    # --- layout objects
    def op_rp(self, op):
        labels = container([dec_label(x) for x in op['labels']],
                           op.get('c', 'list'))
        self.own(labels)
        real = self.lib.RememberingPattern(labels)
        self.rp[op['as']] = real
        self.register(real, M.RPShadow([dec_label(x) for x in op['labels']]))

    def op_marker(self, op):
        at = op.get('at')
        kw = {}
        if at is not None:
            at = container([dict(a) for a in at], op.get('c', 'list'))
            self.own(at)
            kw['at'] = at
            if 'how' in op:
                kw['how'] = dec_how(op['how'])
        real = self.lib.Marker(op['each'], **kw)
        self.mk[op['as']] = real
        self.register(real, M.MarkerShadow(
            op['each'], at, kw.get('how', 'from_start_of_each')))

    def op_org(self, op):
        kw = {}
        marker = marks = None
        if 'marker' in op:
            m = op['marker']
            marker = self.get(self.mk, m['n']) if isinstance(m, dict) else m
            kw['marker'] = marker
        else:
            m = op['marks']
            if isinstance(m, dict):
                marks = dec_pit(m)
            else:
                marks = container([dec_pit(x) for x in m],
                                  op.get('mc', 'list'))
                self.own(marks)
            kw['marks'] = marks
        st = op['structure']
        if isinstance(st, dict):
            st = self.element(st)
        else:
            st = container([self.element(e) for e in st],
                           op.get('sc', 'list'))
            self.own(st)
        kw['structure'] = st
        real = self.lib.Organizer(**kw)
        self.org[op['as']] = real
        self.register(real, M.OrgShadow(marker, marks, st))

    def op_rpnext(self, op):
        """Draw from a RememberingPattern directly."""
        rp = self.get(self.rp, op['rp'])
        sh = self._sh[id(rp)]
        if not sh.labels:
            raise Skip()
        out = self.call(next, rp)
        if sh.tainted:
            raise M.Unjudged('tainted pattern')
        e = sh.next()
        self.verdict('C06', out.ok and M.same_label(out.value, e),
                     'next() of the pattern gave %s instead of %r' % (
                         self.show(out.value), e), 'draw')
        n = self.call(lambda: rp.length)
        self.verdict('C06', n.ok and n.value == len(sh.labels),
                     'length of the pattern is %s instead of %d' % (
                         self.show(n.value), len(sh.labels)), 'length')
        return out

    # --- timeboards
    def tb_kwargs(self, op):
        kw = {}
        kw['base_unit_freq'] = op['freq']
        kw['start'] = dec_pit(op['start'])
        kw['end'] = dec_pit(op['end'])
        kw['layout'] = self.element(op['layout'])
        if op.get('amend') is not None:
            pairs = [(dec_pit(p), dec_label(v)) for p, v in op['amend']]
            if op.get('amend_as') == 'items':
                kw['amendments'] = HasItems(pairs)
            else:
                kw['amendments'] = collections.OrderedDict(pairs) \
                    if op.get('amend_as') == 'od' else dict(pairs)
                self.own(kw['amendments'])
        if op.get('sel') is not None:
            kw['default_selector'] = SELECTORS[op['sel']]
        if 'name' in op:
            kw['default_name'] = op['name']
        if 'ref' in op:
            kw['workshift_ref'] = op['ref']
        if 'deflabel' in op:
            kw['default_label'] = dec_label(op['deflabel'])
        if 'wts' in op:
            kw['worktime_source'] = op['wts']
        return kw

    def walk(self, real, cap):
        """Observed workshifts through the public constructor."""
        W = self.lib.Workshift
        OOB = self.lib.OutOfBoundsError
        starts, ends, durs, labels = [], [], [], []
        i = 0
        while True:
            try:
                w = W(real, i)
            except OOB:
                break
            starts.append(w.start_time.value)
            ends.append(w.end_time.value)
            durs.append(int(w.duration))
            labels.append(w.label)
            i += 1
            if i > cap:
                raise RuntimeError('workshifts never end')
        return M.Timeline(starts, ends, durs, labels, None)

    def sampled_walk(self, real, expected):
        """Observes the number of workshifts and some of them; the others are
        taken for granted."""
        n = expected.n
        if n <= 6000:
            return self.walk(real, n + 5)
        W = self.lib.Workshift
        look = set(range(200)) | set(range(n - 200, n)) | \
            set(range(n % 23, n, max(23, n // 1500)))
        for k in (15, 16):
            look |= {i for i in range(2 ** k - 4, 2 ** k + 4) if i < n}
        long = sorted(range(n), key=lambda i: -expected.durations[i])[:100]
        look |= set(long)
        starts, ends = list(expected.starts), list(expected.ends)
        durs, labels = list(expected.durations), list(expected.labels)
        m = n
        for i in sorted(look):
            try:
                w = W(real, i)
            except self.lib.OutOfBoundsError:
                m = i
                break
            starts[i], ends[i] = w.start_time.value, w.end_time.value
            durs[i], labels[i] = int(w.duration), w.label
        if m == n:
            try:
                w = W(real, n)
            except self.lib.OutOfBoundsError:
                pass
            else:
                starts.append(w.start_time.value)
                ends.append(w.end_time.value)
                durs.append(int(w.duration))
                labels.append(w.label)
                m = n + 1
        return M.Timeline(starts[:m], ends[:m], durs[:m], labels[:m], None)

    def op_tb(self, op):
        kw = self.tb_kwargs(op)
        self.tag = 'tb:' + canon(op) + self.layout_text(op)
        ref = op.get('ref', 'start')
        reg = self.reg()
        rps = [s for s in self._sh.values() if isinstance(s, M.RPShadow)]
        before_pos = [(s, s.pos) for s in rps]
        expected, frame, res, amended = None, None, None, None
        refuse, unj = None, None
        base_props = {'C01'}
        try:
            frame = M.Frame(op['freq'], M.ts(kw['start']), M.ts(kw['end']))
        except M.Refuse as e:
            refuse = (e.kinds, ['C01', 'C27'])
        except M.Unjudged as e:
            unj = e
        if frame is not None:
            try:
                res = M.evaluate_layout(frame, kw['layout'], reg,
                                        kw.get('default_label'))
                expected = M.timeline_of(frame, res, ref)
            except M.Refuse as e:
                p = ['C26', 'C27'] if 'UnacceptablePeriodError' in e.kinds \
                    else ['C04']
                refuse = (e.kinds, p)
            except M.Unjudged as e:
                unj = e
                for s in rps:       # drawn partly by the model
                    s.tainted = True
            if expected is not None and op.get('amend') is not None:
                base = M.Timeline(expected.starts, expected.ends,
                                  expected.durations, list(expected.labels),
                                  ref)
                try:
                    amended = M.apply_amendments(expected, kw['amendments'])
                    expected.base = base
                except M.Refuse as e:
                    refuse = (e.kinds, ['C07'])
        given = kw
        if op['layout'].get('c') == 'gen':
            given = dict(kw, layout=iter(list(kw['layout'])))
        out = self.call(self.lib.Timeboard, **given)
        if op.get('align') is not None:
            self.stats.states['C26'].add('%s by %s: %s' % (
                op['freq'], op['align'], 'accepted' if out.ok else
                kinds_of(out.value)[0]))
        kinds = set(res.kinds) if res is not None else set()
        lp = layout_props(kinds)
        if not out.ok:
            for s in rps:       # drawn partly, no one knows how far
                if refuse is None or refuse[1] != ['C01', 'C27']:
                    s.tainted = True
            if unj is not None:
                raise M.Unjudged(unj)
            k = kinds_of(out.value)
            if refuse is not None and res is not None and res.oob_allowed \
                    and 'OutOfBoundsError' in k:
                self.unjudged('mark before the timeboard unknown to the code')
            elif refuse is not None:
                self.verdict(refuse[1], any(x in refuse[0] for x in k),
                             'expected %s, got %s: %s' % (
                                 refuse[0], k[0], str(out.value)[:200]), k[0])
            elif res.oob_allowed and 'OutOfBoundsError' in k:
                self.unjudged('mark before the timeboard unknown to the code')
            else:
                props = sorted(lp | {'C27'} | ({'C26'} if
                               'UnacceptablePeriodError' in k else set()) |
                               ({'C07'} if op.get('amend') else set()) |
                               ({'C01'} if 'VoidIntervalError' in k else
                                set()))
                self.verdict(props, False, 'the timeboard could not be built: '
                             '%s: %s' % (k[0], str(out.value)[:300]), k[0])
            return out
        # --- built
        real = out.value
        sh = TB()
        sh.name, sh.real, sh.op, sh.ref = op['as'], real, op, ref
        sh.wts = op.get('wts', 'duration')
        sh.freq = op['freq']
        cap = 400000
        big = frame is not None and frame.n > 20000
        if big and (expected is None or refuse is not None):
            raise M.Unjudged('huge timeboard')
        try:
            walk = self.sampled_walk(real, expected) if big else \
                self.walk(real, cap)
        except Exception as e:
            self.verdict(['C01', 'C09'], False, 'workshifts cannot be listed: '
                         '%s %s' % (kind_of(e), e), kind_of(e))
            return out
        walk.ref = ref
        walk.refs = walk.ends if ref == 'end' else walk.starts
        if refuse is not None:
            self.verdict(refuse[1], False, 'expected %s, but a timeboard was '
                         'built' % (refuse[0],), 'value')
        if frame is not None:
            msg = tiling_diff(walk, frame, real)
            self.verdict('C01', msg is None, msg, 'tiled', frame.n < 2)
            self.stats.states['C01'].add('%s/n%d/ws%d' % (
                op['freq'], frame.n, walk.n))
        if expected is not None and refuse is None:
            triv = frame.n < 2
            st = ('cuts', 'starts', 'ends', 'durations')
            plain = getattr(expected, 'base', expected)
            if amended is None:
                d = plain.diff(walk)
                self.verdict(sorted(lp), d is None, 'layout: %s' % d, 'layout',
                             triv)
            else:
                # labels of amended workshifts are the amendments' affair
                d = plain.diff(walk, ('starts', 'ends', 'durations'))
                if d is None:
                    for i in range(plain.n):
                        if i not in amended and not M.same_label(
                                plain.labels[i], walk.labels[i]):
                            d = 'workshift %d: label %r expected, got %r' % (
                                i, plain.labels[i], walk.labels[i])
                            break
                self.verdict(sorted(lp), d is None, 'layout: %s' % d, 'layout',
                             triv)
                self.judge_amended(op, kw, plain, expected, walk, amended,
                                   kinds)
            for p in lp:
                self.stats.states[p].add('%s/%s/%s' % (
                    op['freq'], '+'.join(sorted(kinds)), res.depth))
            if any(k == 'period' or k.startswith('at:') for k in kinds):
                d = plain.diff(walk, ('starts', 'ends', 'durations'))
                self.verdict('C26', d is None, 'accepted partitioning: %s' % d,
                             'accepted', triv)
        elif unj is not None:
            self.unjudged(unj)
        if op.get('align') is not None:
            self.judge_alignment(op, walk)
        sh.walked = tl = walk
        if not walk.is_tiling() and expected is not None:
            tl = expected
        if walk.n == 0:
            return out
        sh.tl = tl
        sh.frame = frame
        self.tb[op['as']] = sh
        sel = SELECTORS[op['sel']] if op.get('sel') else SELECTORS['truth']
        name = str(op['name']) if op.get('name') is not None else 'on_duty'
        d = real.default_schedule
        self.verdict('C08', d.name == name and
                     real.schedules.get(name) is d, 'default schedule is %r '
                     'instead of %r' % (d.name, name), 'default')
        sh.default = Sch(sh, name, d, sel)
        sh.schedules[name] = sh.default
        self.sch[op['as'] + '.default'] = sh.default
        return out

    def judge_alignment(self, op, walk):
        """No workshift of an accepted partitioning contains a boundary."""
        f = Freq(op['align'])
        if f.mult != 1:
            return
        bad = None
        for a, b in zip(walk.starts, walk.ends):
            if f.ord(a) != f.ord(b):
                bad = 'workshift %s .. %s lies in two periods of %r' % (
                    pd.Timestamp(a), pd.Timestamp(b), op['align'])
                break
        self.verdict('C26', bad is None, bad, 'aligned', walk.n < 2,
                     sig='align')

    def judge_amended(self, op, kw, plain, expected, walk, amended, kinds):
        if not ({'rp', 'rp-structure'} & kinds):
            # differential: the same timeboard without amendments
            kw2 = dict(kw)
            kw2['amendments'] = {}
            twin = self.call(self.lib.Timeboard, **kw2)
            if not twin.ok:
                return
            base = self.walk(twin.value, 400000) if plain.n < 6000 else \
                self.sampled_walk(twin.value, plain)
        else:
            base = plain
        exp = M.Timeline(base.starts, base.ends, base.durations,
                         list(base.labels), expected.ref)
        try:
            M.apply_amendments(exp, kw['amendments'])
        except M.Refuse:
            return
        d = exp.diff(walk)
        self.verdict('C07', d is None, 'amendments: %s' % d,
                     'amended %d' % min(len(amended), 3),
                     not op['amend'])
        self.stats.states['C07'].add('%s/%d of %d/%s' % (
            op['freq'], len(amended), len(op['amend']),
            '+'.join(sorted(kinds))))

    def layout_text(self, op):
        return ''

    # --- schedules
    def op_add_schedule(self, op):
        tb = self.get(self.tb, op['tb'])
        name, sel = op['name'], SELECTORS[op['sel']]
        taken = str(name) in tb.schedules
        out = self.call(tb.real.add_schedule, name, sel)
        if taken:
            self.judge(['C08', 'C27'], out, T.Expect(kinds={'KeyError'}))
            return out
        ok = (out.ok and out.value.name == str(name) and
              tb.real.schedules.get(str(name)) is out.value)
        self.verdict('C08', ok, 'schedule %r was not added properly: %s' % (
            name, self.show(out.value)), 'added')
        if out.ok:
            s = Sch(tb, str(name), out.value, sel)
            tb.schedules[str(name)] = s
            self.sch[op['as']] = s
            self.check_names(tb)
        return out

    def op_drop_schedule(self, op):
        tb = self.get(self.tb, op['tb'])
        s = self.get(self.sch, op['sch'])
        if tb.schedules.get(s.name) is not s or s is tb.default:
            raise Skip()
        out = self.call(tb.real.drop_schedule, s.real)
        del tb.schedules[s.name]
        self.verdict('C08', out.ok and out.value is None, 'drop failed: %s' %
                     self.show(out.value), 'dropped')
        self.check_names(tb)
        return out

    def check_names(self, tb):
        real = {k: v for k, v in tb.real.schedules.items()}
        ok = set(real) == set(tb.schedules) and all(
            real[k] is tb.schedules[k].real for k in real)
        self.verdict('C08', ok, 'schedules are %s instead of %s' % (
            sorted(real), sorted(tb.schedules)), 'names', sig='names')

    # --- locating
    def op_get_ws(self, op):
        tb = self.get(self.tb, op['tb'])
        pit = dec_pit(op['at'])
        real_s, s = self.sched(op.get('sch'))
        via = op.get('via', 'get')
        if via == 'call' and s is None:
            out = self.call(tb.real, pit)
        elif s is None:
            out = self.call(tb.real.get_workshift, pit)
        elif op.get('pos_arg'):
            out = self.call(tb.real.get_workshift, pit, real_s)
        else:
            out = self.call(tb.real.get_workshift, pit, schedule=real_s)
        use = s or tb.default
        if op['at'].get('as') == 'null':
            if via == 'call':
                raise M.Unjudged('call with a null')
            self.judge('C09', out, T.Expect(kinds={'OutOfBoundsError'}))
            return out
        i = tb.tl.locate(M.ts(pit))
        if i in ('L', 'R'):
            exp = T.Expect(kinds={'OutOfBoundsError'})
        else:
            exp = T.Expect(i)
        good = self.judge('C09', out, exp,
                          lambda w, i: self.ws_diff(w, tb, i, None),
                          trivial=tb.tl.n < 2)
        if out.ok and good is not False and exp.value_allowed:
            self.verdict('C08', out.value.schedule is use.real,
                         'workshift carries schedule %r instead of %r' % (
                             out.value.schedule.name, use.name), 'carried')
            self.state_of_pit(tb, M.ts(pit), i)
            self.put_ws(op, tb, i, use, out.value)
        return out

    def state_of_pit(self, tb, t, i):
        tl = tb.tl
        k = 'first-ns' if t == tl.starts[i] else \
            'last-ns' if t == tl.ends[i] else 'inside'
        self.stats.states['C09'].add('%s/%s/%s/dur%d' % (
            tb.freq, k, 'edge' if i in (0, tl.n - 1) else 'mid',
            min(tl.durations[i], 3)))

    def put_ws(self, op, tb, i, sch, real):
        if 'as' in op:
            self.ws[op['as']] = WS(tb, i, sch, real)

    def put_ivl(self, op, tb, i, j, sch, real):
        if 'as' in op:
            self.ivl[op['as']] = IVL(tb, i, j, sch, real)

    @staticmethod
    def num(op, n):
        """The integer argument in the dress the case asks for."""
        t = op.get('np')
        return n if t is None or n is None else getattr(np, t)(n)

    def op_ws_at(self, op):
        """Workshift(tb, position)."""
        tb = self.get(self.tb, op['tb'])
        real_s, s = self.sched(op.get('sch'))
        pos = op['pos']
        if isinstance(pos, dict):       # relative to the end
            pos = tb.tl.n + pos['end']
        W = self.lib.Workshift
        arg = self.num(op, pos)
        out = self.call(W, tb.real, arg) if s is None else \
            self.call(W, tb.real, arg, schedule=real_s)
        use = s or tb.default
        if 0 <= pos < tb.tl.n:
            exp = T.Expect(pos)
        else:
            exp = T.Expect(kinds={'OutOfBoundsError'})
        good = self.judge('C09', out, exp,
                          lambda w, i: self.ws_diff(w, tb, i, None),
                          trivial=tb.tl.n < 2,
                          key='workshift-at-negative-position'
                          if -tb.tl.n <= pos < 0 else None)
        if out.ok and good is not False and exp.value_allowed:
            self.verdict('C08', out.value.schedule is use.real,
                         'workshift carries schedule %r instead of %r' % (
                             out.value.schedule.name, use.name), 'carried')
            self.put_ws(op, tb, pos, use, out.value)
        return out

    def op_to_ts(self, op):
        w = self.get(self.ws, op['ws'])
        out = self.call(w.real.to_timestamp)
        e = w.tb.tl.refs[w.i]
        self.verdict('C09', out.ok and isinstance(out.value, pd.Timestamp) and
                     out.value.value == e, 'to_timestamp() is %s, not %s (%s)'
                     % (self.show(out.value), pd.Timestamp(e), w.tb.ref),
                     'ref ' + w.tb.ref)
        # a workshift is Timestamp-like itself
        out2 = self.call(w.tb.real.get_workshift, w.real)
        self.judge('C09', out2, T.Expect(w.i),
                   lambda x, i: self.ws_diff(x, w.tb, i, None))
        return out

    # --- duty
    def op_duty(self, op):
        w = self.get(self.ws, op['ws'])
        real_s, s = self.sched(op.get('sch'))
        use = s or w.sch
        kw = {} if s is None else {'schedule': real_s}
        a = self.call(w.real.is_on_duty, **kw)
        b = self.call(w.real.is_off_duty, **kw)
        e = use.duties[w.i]
        ok = a.ok and b.ok and bool(a.value) == e and bool(b.value) == (not e)
        self.verdict('C08', ok, 'label %r under %r: on %s, off %s, expected '
                     'on %s' % (w.tb.tl.labels[w.i], use.name,
                                self.show(a.value), self.show(b.value), e),
                     'on' if e else 'off', w.tb.tl.n < 2)
        self.stats.states['C08'].add('%s/%s/%d schedules/%s' % (
            type(w.tb.tl.labels[w.i]).__name__, e, len(w.tb.schedules),
            'own' if s is None else 'other'))
        return a

    def op_sch_attrs(self, op):
        """Documented attributes of a schedule and of its timeboard."""
        s = self.get(self.sch, op['sch'])
        real = s.real
        out = self.call(lambda: (
            real.name, [int(x) for x in real.index],
            [int(x) for x in real.on_duty_index],
            [int(x) for x in real.off_duty_index]))
        d = s.duties
        n = len(d)
        e = (s.name, list(range(n)), [i for i in range(n) if d[i]],
             [i for i in range(n) if not d[i]])
        what = ''
        if out.ok:
            what = ', '.join(
                '%s: %r instead of %r' % (k, a, b) for k, a, b in zip(
                    ('name', 'index', 'on_duty_index', 'off_duty_index'),
                    out.value, e) if a != b)
        self.verdict('C08', out.ok and out.value == e, 'schedule %s: %s' % (
            s.name, what[:600] or self.show(out.value)), 'attributes', n < 2)
        tb = s.tb
        if s is tb.default and n:
            i = op.get('i', 0) % n
            v = tb.tl.labels[i]
            o = self.call(lambda: bool(tb.real.default_selector(v)))
            self.verdict('C08', o.ok and o.value == d[i], 'default_selector '
                         'says %s of %r, the schedule %s' % (
                             self.show(o.value), v, d[i]), 'selector', n < 2)
        o = self.call(lambda: (tb.real.base_unit_freq,
                               tb.real.worktime_source,
                               tb.real.default_schedule is tb.default.real))
        self.verdict('C08', o.ok and o.value == (tb.freq, tb.wts, True),
                     'attributes of the timeboard are %s' %
                     self.show(o.value), 'timeboard')
        return out

    # --- stepping
    def op_roll(self, op):
        w = self.get(self.ws, op['ws'])
        real_s, s = self.sched(op.get('sch'))
        use = s or w.sch
        how, n = op['how'], op.get('n')
        kw = {}
        if 'duty' in op:
            kw['duty'] = op['duty']
        if s is not None:
            kw['schedule'] = real_s
        duty = op.get('duty', 'on')
        if how in ('+', '-'):
            if s is not None or 'duty' in op:
                kw = {}
            duty, use = 'on', w.sch
            arg = self.num(op, n)
            out = self.call(lambda: w.real + arg) if how == '+' else \
                self.call(lambda: w.real - arg)
        else:
            f = w.real.rollforward if how == 'f' else w.real.rollback
            if n is None:
                out = self.call(f, **kw)
            elif op.get('kw'):
                out = self.call(f, steps=self.num(op, n), **kw)
            else:
                out = self.call(f, self.num(op, n), **kw)
        steps = n or 0
        exp = T.roll(w.i, steps, duty, use.duties,
                     1 if how in ('f', '+') else -1)
        good = self.judge('C10', out, exp,
                          lambda x, i: self.ws_diff(x, w.tb, i, use),
                          trivial=w.tb.tl.n < 2)
        if exp.value_allowed:
            self.stats.states['C10'].add('%s/%s/%s/%s' % (
                how, duty, max(-3, min(3, steps)),
                'self' if w.i == exp.value else 'moved'))
        if out.ok and good:
            self.verdict('C08', out.value.schedule is use.real,
                         'schedule of the result is %r instead of %r' % (
                             out.value.schedule.name, use.name), 'carried')
            self.put_ws(op, w.tb, exp.value, use, out.value)
        return out

    # --- intervals
    def op_ivl_points(self, op):
        tb = self.get(self.tb, op['tb'])
        real_s, s = self.sched(op.get('sch'))
        use = s or tb.default
        kw = {}
        if 'closed' in op:
            kw['closed'] = op['closed']
        if s is not None:
            kw['schedule'] = real_s
        f = tb.real if op.get('via') == 'call' else tb.real.get_interval
        if op.get('whole'):
            a = b = None
            if op['whole'] == 'none':
                out = self.call(tb.real.get_interval, None, **kw)
            else:
                out = self.call(f, **kw)
        else:
            pa, pb = op['a'], op['b']
            a = None if pa is None else dec_pit(pa)
            b = None if pb is None else dec_pit(pb)
            ref = (a, b) if op.get('c') != 'list' else [a, b]
            out = self.call(f, ref, **kw)
        if 'C27' == self.want and op.get('closed', '11') not in T.CLOSED:
            self.judge('C27', out, T.Expect(kinds={'ValueError'}))
            return out
        a_ = None if a is None or M.is_null(a) else M.ts(a)
        b_ = None if b is None or M.is_null(b) else M.ts(b)
        exp = T.ivl_points(tb.tl, a_, b_, op.get('closed', '11'))
        good = self.judge(['C11', 'C27'] if exp.kinds else 'C11', out, exp,
                          lambda v, ij: self.ivl_diff(v, tb, ij[0], ij[1],
                                                      use),
                          trivial=tb.tl.n < 2)
        self.stats.states['C11'].add(exp.cls + '/' + op.get('closed', '11'))
        self.after_ivl(op, tb, out, good, exp, use)
        return out

    def after_ivl(self, op, tb, out, good, exp, use):
        if out.ok and good and exp.value_allowed:
            self.put_ivl(op, tb, exp.value[0], exp.value[1], use, out.value)
        elif out.ok and good is None and exp.value_allowed:
            pass

    def op_ivl_length(self, op):
        tb = self.get(self.tb, op['tb'])
        real_s, s = self.sched(op.get('sch'))
        use = s or tb.default
        kw = {}
        if 'closed' in op:
            kw['closed'] = op['closed']
        if s is not None:
            kw['schedule'] = real_s
        f = tb.real if op.get('via') == 'call' else tb.real.get_interval
        t = dec_pit(op['at'])
        n = op['n']
        out = self.call(f, t, length=n, **kw)
        exp = T.ivl_length(tb.tl, M.ts(t), n, op.get('closed', '11'))
        good = self.judge(['C12', 'C27'] if exp.kinds else 'C12', out, exp,
                          lambda v, ij: self.ivl_diff(v, tb, ij[0], ij[1],
                                                      use),
                          trivial=tb.tl.n < 2)
        self.stats.states['C12'].add('%s/%s/%s' % (
            exp.cls, op.get('closed', '11'), max(-4, min(4, n))))
        self.after_ivl(op, tb, out, good, exp, use)
        return out

    def op_ivl_period(self, op):
        tb = self.get(self.tb, op['tb'])
        real_s, s = self.sched(op.get('sch'))
        use = s or tb.default
        kw = {}
        if 'closed' in op:
            kw['closed'] = op['closed']
        if 'clip' in op:
            kw['clip_period'] = {'int': int, 'np': np.bool_}.get(
                op.get('flag'), bool)(op['clip'])
        if s is not None:
            kw['schedule'] = real_s
        t, freq = op['at'], op['period']
        f = Freq(freq)
        if op.get('form') == 'period':
            p = pd.Period(pd.Timestamp(t['t']), freq=freq)
            out = self.call(tb.real.get_interval, p, **kw)
            ns = t['t']
        else:
            fn = tb.real if op.get('via') == 'call' else tb.real.get_interval
            x = dec_pit(t)
            out = self.call(fn, x, period=freq, **kw)
            ns = M.ts(x)
        ps, pe = f.period(ns)
        exp = T.ivl_period(tb.tl, ps, pe, op.get('clip', True),
                           op.get('closed', '11'))
        good = self.judge(['C13', 'C27'] if exp.kinds else 'C13', out, exp,
                          lambda v, ij: self.ivl_diff(v, tb, ij[0], ij[1],
                                                      use),
                          trivial=tb.tl.n < 2)
        self.stats.states['C13'].add('%s/%s/%s/%s' % (
            exp.cls, op.get('closed', '11'), op.get('clip', True), tb.ref))
        self.after_ivl(op, tb, out, good, exp, use)
        return out

    def op_ivl_direct(self, op):
        """Interval(tb, (i, j)) with positions or workshifts."""
        tb = self.get(self.tb, op['tb'])
        real_s, s = self.sched(op.get('sch'))
        use = s or tb.default
        n = tb.tl.n

        def bound(b):
            if isinstance(b, dict) and 'ws' in b:
                w = self.get(self.ws, b['ws'])
                if w.tb is not tb:
                    raise Skip()
                return w.real, w.i
            if isinstance(b, dict):
                b = n + b['end']
            return self.num(op, b), b
        ra, a = bound(op['a'])
        rb, b = bound(op['b'])
        box = [ra, rb] if op.get('c') == 'list' else (ra, rb)
        out = self.call(self.lib.Interval, tb.real, box) if s is None else \
            self.call(self.lib.Interval, tb.real, box, real_s)
        if not (0 <= a < n and 0 <= b < n):
            kinds = {'OutOfBoundsError'}
            if a > b:
                kinds.add('VoidIntervalError')
            exp = T.Expect(kinds=kinds, cls='oob')
        elif a > b:
            exp = T.Expect(kinds={'VoidIntervalError'}, cls='reversed')
        else:
            exp = T.Expect((a, b), cls='ok')
        good = self.judge(['C14', 'C27'] if exp.kinds else 'C14', out, exp,
                          lambda v, ij: self.ivl_diff(v, tb, ij[0], ij[1],
                                                      use),
                          trivial=n < 2)
        self.after_ivl(op, tb, out, good, exp, use)
        return out

    # --- queries on intervals
    def iv(self, op, key='ivl'):
        return self.get(self.ivl, op[key])

    def q_args(self, op):
        real_s, s = self.sched(op.get('sch'))
        kw = {}
        if 'duty' in op:
            kw['duty'] = op['duty']
        if s is not None:
            kw['schedule'] = real_s
        return kw, s, op.get('duty', 'on')

    def op_count(self, op):
        v = self.iv(op)
        kw, s, duty = self.q_args(op)
        use = s or v.sch
        out = self.call(v.real.count, **kw)
        e = len(v.members(duty, use))
        prop = 'C15' if v.void else 'C14'
        self.verdict(prop, out.ok and num_eq(out.value, e),
                     'count(%s) is %s, expected %d' % (
                         kw, self.show(out.value), e), 'count',
                     not v.void and v.j == v.i)
        if not v.void and duty != 'any':
            self.verdict('C08', out.ok and num_eq(out.value, e),
                         'count(%s) is %s, expected %d' % (
                             kw, self.show(out.value), e), 'counted')
        self.stats.states['C14'].add('count/%s/%s' % (
            duty, 'none' if e == 0 else 'all' if not v.void and
            e == v.j - v.i + 1 else 'some'))
        return out

    def op_nth(self, op):
        v = self.iv(op)
        kw, s, duty = self.q_args(op)
        use = s or v.sch
        m = v.members(duty, use)
        how = op.get('how', 'nth')
        if how == 'nth':
            n = op['n']
            out = self.call(v.real.nth, self.num(op, n), **kw)
        elif how == 'first':
            n, out = 0, self.call(v.real.first, **kw)
        else:
            n, out = -1, self.call(v.real.last, **kw)
        if -len(m) <= n < len(m):
            exp = T.Expect(m[n])
        else:
            exp = T.Expect(kinds={'OutOfBoundsError'})
        prop = 'C15' if v.void else 'C14'
        good = self.judge(prop, out, exp,
                          lambda x, i: self.ws_diff(x, v.tb, i, use))
        if not v.void:
            self.stats.states['C14'].add('%s/%s/%s/%d' % (
                how, duty, 'hit' if exp.value_allowed else 'miss',
                max(-3, min(3, n))))
        if out.ok and good:
            self.verdict('C08', out.value.schedule is use.real,
                         'schedule of the result is %r instead of %r' % (
                             out.value.schedule.name, use.name), 'carried')
            self.put_ws(op, v.tb, exp.value, use, out.value)
        return out

    def list_diff(self, got, v, m, use):
        if len(got) != len(m):
            return '%d workshifts yielded, expected %d' % (len(got), len(m))
        for x, i in zip(got, m):
            d = self.ws_diff(x, v.tb, i, use)
            if d:
                return d
        return None

    def op_workshifts(self, op):
        v = self.iv(op)
        kw, s, duty = self.q_args(op)
        use = s or v.sch
        m = v.members(duty, use)
        if len(m) > 6000:
            raise Skip()
        out = self.call(lambda: list(v.real.workshifts(**kw)))
        d = self.list_diff(out.value, v, m, use) if out.ok else \
            self.show(out.value)
        self.verdict('C15' if v.void else 'C14', d is None,
                     'workshifts(%s): %s' % (kw, d), 'listed',
                     not v.void and v.i == v.j)
        return out

    def op_iterate(self, op):
        """Interleaved iterations; `plan` is a list of [iterator, steps]."""
        v = self.iv(op)
        m = v.members('any', v.sch)
        if len(m) > 6000:
            raise Skip()
        use = v.sch
        prop = 'C15' if v.void else 'C14'
        its, pos = {}, {}
        log = []

        def go():
            for name, what in op['plan']:
                if what == 'new':
                    its[name], pos[name] = iter(v.real), 0
                elif what == 'len':
                    if len(v.real) != len(m) or v.real.length != len(m):
                        return 'len() is %d, length is %r, expected %d' % (
                            len(v.real), v.real.length, len(m))
                elif what == 'list':
                    d = self.list_diff(list(v.real), v, m, use)
                    if d:
                        return 'list(): ' + d
                elif what == 'self':
                    # the interval itself as an iterator
                    if not hasattr(type(v.real), '__next__'):
                        continue
                    iter(v.real)
                    its.clear()         # those may share the progress
                    for i in m[:3]:
                        d = self.ws_diff(next(v.real), v.tb, i, use)
                        if d:
                            return 'next(): ' + d
                    if len(m) < 3:
                        try:
                            next(v.real)
                            return 'next() after the last workshift'
                        except StopIteration:
                            pass
                elif name in its:
                    for _ in range(what):
                        try:
                            x = next(its[name])
                        except StopIteration:
                            if pos[name] < len(m):
                                return 'iteration %s stopped after %d of %d' \
                                    % (name, pos[name], len(m))
                            break
                        if pos[name] >= len(m):
                            return 'iteration %s yields more than %d' % (
                                name, len(m))
                        d = self.ws_diff(x, v.tb, m[pos[name]], use)
                        if d:
                            return 'iteration %s, step %d: %s' % (
                                name, pos[name], d)
                        pos[name] += 1
                        log.append(str(x.start_time))
            return None
        out = self.call(go)
        bad = out.value if out.ok else self.show(out.value)
        self.verdict(prop, out.ok and out.value is None, bad, 'iterated',
                     len(m) < 2 and not v.void)
        self.stats.states['C14'].add('iter/%d/%d' % (len(its),
                                                      min(len(log), 20)))
        return Out(out.ok, [out.value, log] if out.ok else out.value)

    def op_nested(self, op):
        """for x in ivl: for y in ivl: ..."""
        v = self.iv(op)
        m = v.members('any', v.sch)[:12]
        if v.void or v.j - v.i + 1 > 12:
            raise Skip()

        def go():
            return [(x, y) for x in v.real for y in v.real]
        out = self.call(go)
        d = None
        if not out.ok:
            d = self.show(out.value)
        elif len(out.value) != len(m) ** 2:
            d = 'nested iteration made %d pairs, expected %d' % (
                len(out.value), len(m) ** 2)
        else:
            for (x, y), (i, j) in zip(out.value,
                                      [(i, j) for i in m for j in m]):
                d = self.ws_diff(x, v.tb, i, v.sch) or \
                    self.ws_diff(y, v.tb, j, v.sch)
                if d:
                    break
        self.verdict('C14', d is None, 'nested: %s' % d, 'nested', len(m) < 2)
        return Out(True, None)

    def op_overlap(self, op):
        x, y = self.iv(op, 'x'), self.iv(op, 'y')
        if x.tb is not y.tb:
            raise Skip()
        real_s, s = self.sched(op.get('sch'))
        use = s or x.sch
        if op.get('how') == '*' and s is None:
            out = self.call(lambda: x.real * y.real)
        elif s is None:
            out = self.call(x.real.overlap, y.real)
        else:
            out = self.call(x.real.overlap, y.real, schedule=real_s)
        if x.void or y.void:
            e = (None, None)
        else:
            e = (max(x.i, y.i), min(x.j, y.j))
            if e[0] > e[1]:
                e = (None, None)
        d = self.ivl_diff(out.value, x.tb, e[0], e[1], use) if out.ok else \
            self.show(out.value)
        self.verdict('C15', d is None, 'overlap: %s' % d,
                     'void' if e[0] is None else 'common')
        if d is None:
            self.verdict('C08', True, None, 'carried')
            self.put_ivl(op, x.tb, e[0], e[1], use, out.value)
            if not x.void and not y.void:
                self.stats.states['C15'].add(allen(x, y))
            else:
                self.stats.states['C15'].add('void operand')
        return out

    def op_total(self, op):
        v = self.iv(op)
        kw, s, duty = self.q_args(op)
        use = s or v.sch
        m = v.members(duty, use)
        out = self.call(v.real.total_duration, **kw)
        e = sum(v.tb.tl.durations[i] for i in m)
        self.verdict('C15' if v.void else 'C16',
                     out.ok and num_eq(out.value, e),
                     'total_duration(%s) is %s, expected %d' % (
                         kw, self.show(out.value), e), 'duration',
                     not v.void and v.i == v.j)
        self.stats.states['C16'].add('total/%s/%d' % (duty, min(len(m), 5)))
        return out

    def op_worktime(self, op):
        v = self.iv(op)
        kw, s, duty = self.q_args(op)
        use = s or v.sch
        m = v.members(duty, use)
        out = self.call(v.real.worktime, **kw)
        if v.void:
            self.verdict('C15', out.ok and num_eq(out.value, 0),
                         'worktime of a void interval is %s' %
                         self.show(out.value), 'worktime')
            return out
        exp = T.worktime([v.tb.tl.labels[i] for i in m],
                         [v.tb.tl.durations[i] for i in m], v.tb.wts)
        if exp is None:
            raise M.Unjudged('labels which are neither numbers nor strings')
        self.judge(['C16', 'C27'] if exp.kinds else 'C16', out, exp,
                   num_diff, trivial=v.i == v.j)
        self.stats.states['C16'].add('worktime/%s/%s/%d' % (
            v.tb.wts, duty, min(len(m), 5)))
        return out

    def op_ws_worktime(self, op):
        w = self.get(self.ws, op['ws'])
        kw, s, duty = self.q_args(op)
        use = s or w.sch
        out = self.call(w.real.worktime, **kw)
        on = use.duties[w.i]
        has = duty == 'any' or (duty == 'on') == on
        if not has:
            exp = T.Expect(0)
        else:
            exp = T.worktime([w.tb.tl.labels[w.i]], [w.tb.tl.durations[w.i]],
                             w.tb.wts)
            if exp is None:
                raise M.Unjudged('label is neither a number nor a string')
        self.judge(['C16', 'C27'] if exp.kinds else 'C16', out, exp, num_diff)
        self.stats.states['C16'].add('ws/%s/%s/%s' % (w.tb.wts, duty, has))
        return out

    def op_portion(self, op):
        x, y = self.iv(op, 'x'), self.iv(op, 'y')
        if x.tb is not y.tb:
            raise Skip()
        kw, s, duty = self.q_args(op)
        use = s or x.sch
        if op.get('how') == '/':
            use, duty = x.sch, 'on'
            out = self.call(lambda: x.real / y.real)
        else:
            out = self.call(x.real.what_portion_of, y.real, **kw)
        mx, my = set(x.members(duty, use)), set(y.members(duty, use))
        e = Fraction(len(mx & my), len(my)) if mx & my else Fraction(0)
        prop = 'C15' if x.void or y.void else 'C17'
        ok = out.ok and frac_eq(out.value, e)
        self.verdict(prop, ok, 'what_portion_of is %s, expected %s' % (
            self.show(out.value), e), 'ratio',
            not (x.void or y.void) and e in (0, 1) and len(my) < 2)
        self.stats.states['C17'].add('%s/%s' % (duty, e))
        return out

    def op_count_periods(self, op):
        v = self.iv(op)
        kw, s, duty = self.q_args(op)
        use = s or v.sch
        out = self.call(v.real.count_periods, op['freq'], **kw)
        if v.void:
            self.verdict('C15', out.ok and num_eq(out.value, 0),
                         'count_periods of a void interval is %s' %
                         self.show(out.value), 'periods')
            return out
        exp = T.count_periods(v.tb.tl, v.i, v.j, op['freq'], duty, use.duties)
        self.judge(['C18'] + (['C27'] if exp.kinds else []), out, exp,
                   lambda a, b: None if frac_eq(a, b) else
                   'count_periods(%r, %s) is %s, expected %s' % (
                       op['freq'], duty, self.show(a), b))
        self.stats.states['C18'].add('%s/%s/%s/%s' % (
            exp.cls, duty, v.tb.ref, min(v.j - v.i, 9)))
        return out

    # --- frames and text
    def op_df(self, op):
        if 'ivl' in op:
            v = self.iv(op)
            if v.void:
                raise Skip()
            tb, a, b = v.tb, v.i, v.j
            out = self.call(v.real.to_dataframe)
        else:
            tb = self.get(self.tb, op['tb'])
            n = tb.tl.n
            kw = {}
            a, b = 0, n - 1
            if op.get('first') is not None:
                a = int(op['first'] * n)
                kw['first_ws'] = self.num(op, a)
            if op.get('last') is not None:
                b = min(n - 1, int(op['last'] * n))
                kw['last_ws'] = self.num(op, b)
            if a > b:
                raise Skip()
            out = self.call(tb.real.to_dataframe, **kw)
        d = self.df_diff(out.value, tb, a, b) if out.ok else \
            self.show(out.value)
        self.verdict('C19', d is None, 'dataframe: %s' % d, 'df', tb.tl.n < 2)
        self.stats.states['C19'].add('df/%s/%s/%d' % (
            'head' if a == 0 else 'mid', 'tail' if b == tb.tl.n - 1 else
            'mid', len(tb.schedules)))
        return out

    def df_diff(self, df, tb, a, b):
        tl = tb.tl
        if not isinstance(df, pd.DataFrame):
            return 'not a dataframe'
        if len(df) != b - a + 1:
            return '%d rows instead of %d' % (len(df), b - a + 1)
        if df.index.name != 'loc' or list(df.index) != list(range(a, b + 1)):
            return 'positions are %s' % list(df.index)[:10]
        cols = ['ws_ref', 'start', 'duration', 'end', 'label'] + \
            list(tb.schedules)
        if sorted(map(str, df.columns)) != sorted(cols):
            return 'columns are %s, expected %s' % (list(df.columns), cols)
        for c, arr in (('ws_ref', tl.refs), ('start', tl.starts),
                       ('end', tl.ends)):
            got = [pd.Timestamp(x).value for x in df[c]]
            for k, g in enumerate(got):
                if g != arr[a + k]:
                    return 'row %d: %s is %s instead of %s' % (
                        a + k, c, pd.Timestamp(g), pd.Timestamp(arr[a + k]))
        for k, (g, l) in enumerate(zip(df['duration'], df['label'])):
            if g != tl.durations[a + k]:
                return 'row %d: duration %r' % (a + k, g)
            if not M.same_label(l, tl.labels[a + k]):
                return 'row %d: label %r instead of %r' % (a + k, l,
                                                           tl.labels[a + k])
        for name, s in tb.schedules.items():
            for k, g in enumerate(df[name]):
                if bool(g) != s.duties[a + k]:
                    return 'row %d: %s is %r' % (a + k, name, g)
        return None

    def op_text(self, op):
        what = op['what']
        if what == 'tb':
            tb = self.get(self.tb, op['tb'])
            out = self.call(lambda: (str(tb.real), tb.real.compact_str))
            head = T.tb_text(tb)
            df = self.call(tb.real.to_dataframe)
            exp = head
        elif what == 'ws':
            w = self.get(self.ws, op['ws'])
            tb = w.tb
            out = self.call(lambda: (str(w.real), repr(w.real)))
            exp = T.ws_text(tb, w.i, w.sch)
            df = self.call(tb.real.to_dataframe, w.i, w.i)
        else:
            v = self.iv(op)
            tb = v.tb
            if v.void:
                out = self.call(lambda: (str(v.real), repr(v.real)))
                ok = out.ok and all('void [0]' in t and (
                    v.sch.name == tb.default.name or v.sch.name in t)
                    for t in out.value)
                self.verdict(['C15', 'C19'], ok, 'void interval is shown as '
                             '%s' % self.show(out.value), 'void')
                return out
            out = self.call(lambda: (str(v.real), repr(v.real)))
            exp = T.ivl_text(tb, v.i, v.j, v.sch)
            df = self.call(tb.real.to_dataframe, v.i, v.j)
        if not out.ok or not df.ok:
            self.verdict('C19', False, 'printing failed: %s' %
                         self.show(out.value), 'text')
            return out
        full, short = out.value
        bad = None
        if short != exp:
            bad = '%r, expected %r' % (short, exp)
        elif full != exp + '\n\n' + repr(df.value) and \
                full != exp + '\n\n' + str(df.value):
            bad = 'str() is %r' % full[:200]
        self.verdict('C19', bad is None, 'printed form: %s' % bad, 'text')
        self.stats.states['C19'].add('text/%s' % what)
        return Out(True, short)

    # --- requests which must be refused
    def op_bad(self, op):
        from . import badreq
        return badreq.run(self, op)

    # --- calendars and their helpers
    def op_cal(self, op):
        from . import cal
        return cal.run(self, op)

    def op_usercal(self, op):
        from . import cal
        return cal.run_user(self, op)

    def op_h_nth(self, op):
        from . import helpers
        return helpers.run(self, op)

    op_h_easter = op_h_ext = op_h_nth

    # --- repr
    def op_repr(self, op):
        from . import reprs
        return reprs.run(self, op)

    # --- the caller's data
    def op_check_data(self, op):
        d = self.check_containers()
        self.verdict('C20', d is None, d, 'data intact',
                     not self.containers)
        return Out(True, None)

    def op_mutate(self, op):
        """Spoil everything the caller owns, then look at the timeboards."""
        d = self.check_containers()
        self.verdict('C20', d is None, d, 'data intact', not self.containers)
        for obj, _ in self.containers:
            if isinstance(obj, list):
                if op.get('how') == 'clear':
                    del obj[:]
                else:
                    obj.reverse()
                    obj.append('spoiled')
            elif isinstance(obj, dict):
                obj.clear()
                if op.get('how') != 'clear':
                    obj['01 Jan 2001'] = 'spoiled'
            elif isinstance(obj, set):
                obj.clear()
        self.containers = []
        for tb in self.tb.values():
            self.same_as_before(tb, 'after the caller changed his data')
        return Out(True, None)

    def same_as_before(self, tb, when, props='C20'):
        try:
            walk = self.sampled_walk(tb.real, tb.walked)
            d = tb.walked.diff(walk)
        except Exception as e:
            d = self.show(e)
        self.verdict(props, d is None, 'timeboard changed %s: %s' % (when, d),
                     'unchanged', tb.tl.n < 2, sig=tb.name)

    def op_rewalk(self, op):
        for tb in self.tb.values():
            self.same_as_before(tb, 'in the course of queries')
        return Out(True, None)

    def op_abandon(self, op):
        """Leave half-consumed generators behind."""
        v = self.iv(op)

        def go():
            g1, g2 = iter(v.real), v.real.workshifts(duty='any')
            for _ in range(op.get('steps', 1)):
                next(g1, None)
                next(g2, None)
            self._keep += [g1, g2]
        self.call(go)
        return Out(True, None)


# ------------------------------------------------------------------- helpers

def snapshot(obj):
    """Identity-based text of a container: what it holds, in order."""
    if isinstance(obj, dict):
        return '{%s}' % ', '.join('%s: %s' % (snapshot(k), snapshot(v))
                                  for k, v in obj.items())
    if isinstance(obj, (list, tuple)):
        return '[%s]' % ', '.join(snapshot(v) for v in obj)
    if isinstance(obj, (set, frozenset)):
        return '(%s)' % ', '.join(sorted(snapshot(v) for v in obj))
    if isinstance(obj, (str, int, float, type(None), pd.Timestamp)):
        return repr(obj)
    return '%s@%x' % (type(obj).__name__, id(obj))


class HasItems(object):
    """Something dictionary-like."""

    def __init__(self, pairs):
        self._pairs = list(pairs)

    def items(self):
        return list(self._pairs)


def num_eq(a, b):
    try:
        return not isinstance(a, str) and (
            a == b or
            abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(b))))
    except Exception:
        return False


def num_diff(a, b):
    return None if num_eq(a, b) else 'expected %r, got %r' % (b, a)


def frac_eq(a, e):
    try:
        return abs(float(a) - float(e)) <= 1e-9 * max(1.0, abs(float(e)))
    except Exception:
        return False


def allen(x, y):
    def c(a, b):
        return '<' if a < b else '=' if a == b else '>'
    return c(x.i, y.i) + c(x.j, y.j) + c(x.j, y.i) + c(y.j, x.i)


def layout_props(kinds):
    r = set()
    for k in kinds:
        if k == 'period':
            r.add('C03')
        elif k.startswith('at:'):
            r.add('C04')
        elif k == 'marks':
            r.add('C05')
        elif k in ('rp', 'rp-structure'):
            r.add('C06')
        elif k == 'plain':
            r.add('C02')
    return r or {'C02'}


def tiling_diff(walk, frame, real):
    if walk.n == 0:
        return 'no workshifts'
    if real.start_time.value != frame.start:
        return 'start_time %s, expected %s' % (real.start_time,
                                               pd.Timestamp(frame.start))
    if real.end_time.value != frame.end:
        return 'end_time %s, expected %s' % (real.end_time,
                                             pd.Timestamp(frame.end))
    if walk.starts[0] != frame.start:
        return 'the first workshift starts at %s' % pd.Timestamp(
            walk.starts[0])
    if walk.ends[-1] != frame.end:
        return 'the last workshift ends at %s' % pd.Timestamp(walk.ends[-1])
    u = 0
    for i in range(walk.n):
        if u >= frame.n or walk.starts[i] != frame.starts[u]:
            return 'workshift %d starts at %s' % (
                i, pd.Timestamp(walk.starts[i]))
        d = walk.durations[i]
        if d < 1 or u + d > frame.n:
            return 'workshift %d has duration %r' % (i, d)
        u += d
        if walk.ends[i] != frame.starts[u] - 1:
            return 'workshift %d of %d units from %s ends at %s' % (
                i, d, pd.Timestamp(walk.starts[i]),
                pd.Timestamp(walk.ends[i]))
    if u != frame.n:
        return 'durations sum up to %d base units of %d' % (u, frame.n)
    return None
