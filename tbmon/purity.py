"""Monitor of C20: the same question must always get the same answer.

A purity case is a set of constructions and a list of queries.  The queries are
asked, asked again in other orders and subsets, of the same and of twin
objects, between half-consumed generators, after returned dataframes have been
spoiled and after the caller has destroyed all the containers he passed in.
Every answer is compared with the first one given.
"""
import random

from .gen import ASKING
from .session import Session, Skip
from .spec import SELECTORS

CHANGES = ('add_schedule', 'drop_schedule')
LISTING = ('df', 'text')          # show the schedules which the timeboard has
BLANK = (['skip'], ['unjudged'], ['-'])


class Purity(object):
    def __init__(self, lib, stats, want):
        self.lib, self.stats, self.want = lib, stats, want

    def session(self, ops):
        s = Session(self.lib, self.stats, self.want)
        for op in ops:
            s.step(op)
        return s

    def ask(self, s, op):
        s.step(op)
        return s.results[-1]

    def compare(self, s, op, first, again, how):
        if first in BLANK or again in BLANK:
            return
        s.cur = op
        s.tag = self.tag
        s.verdict('C20', first == again, 'the answer %s is %s, but it was %s' %
                  (how, str(again)[:300], str(first)[:300]), how,
                  sig=how)
        self.stats.states['C20'].add('%s/%s' % (op['op'], how))

    def run(self, case):
        rng = random.Random(case['seed'])
        n0 = case['setup']
        setup, queries = case['ops'][:n0], case['ops'][n0:]
        queries = [q for q in queries if q['op'] not in CHANGES]
        s = self.session(setup)
        self.tag = s.tag
        first = [self.ask(s, q) for q in queries]
        s.cur = {'op': 'rewalk'}
        s.op_rewalk({})
        order = list(range(len(queries)))
        # again, in other orders, of the same objects
        for how in ('asked again in reverse order',
                    'asked again in random order'):
            order.reverse()
            if 'random' in how:
                rng.shuffle(order)
            for k in order:
                self.compare(s, queries[k], first[k], self.ask(s, queries[k]),
                             how)
        # a twin built from equal arguments, other questions asked before
        t = self.session(setup)
        for name, tb in s.tb.items():
            if name in t.tb:
                s.cur = tb.op
                d = tb.walked.diff(t.tb[name].walked)
                s.verdict('C20', d is None, 'a timeboard built from equal '
                          'arguments differs: %s' % d, 'equal twin')
        for k in range(len(queries)):
            if rng.random() < 0.6:
                self.compare(t, queries[k], first[k], self.ask(t, queries[k]),
                             'of a twin with another history')
        # timeboards rebuilt with the same organizers
        again = {}
        for op in setup:
            if op['op'] == 'tb' and op['as'] in s.tb:
                op2 = dict(op, **{'as': op['as'] + '~'})
                s.step(op2)
                if op2['as'] in s.tb:
                    s.cur = op
                    d = s.tb[op['as']].walked.diff(s.tb[op2['as']].walked)
                    s.verdict('C20', d is None, 'a timeboard built again with '
                              'the same organizers differs: %s' % d,
                              'rebuilt')
                    again[op['as']] = op2['as']
        # spoiled dataframes
        for name in sorted(s.tb):
            out = s.call(s.tb[name].real.to_dataframe)
            if out.ok:
                try:
                    for c in list(out.value.columns):
                        out.value[c] = 'spoiled'
                    out.value.drop(out.value.index, inplace=True)
                except Exception:
                    pass
        s.cur = {'op': 'mutate', 'how': case.get('how', 'spoil')}
        s.op_mutate(s.cur)
        for k in range(len(queries)):
            if rng.random() < 0.5:
                self.compare(s, queries[k], first[k], self.ask(s, queries[k]),
                             'asked after the data had been changed')
        # more schedules are added
        for name in sorted(s.tb):
            s.step({'op': 'add_schedule', 'tb': name, 'name': 'more',
                    'sel': rng.choice(sorted(SELECTORS)), 'as': name + '+'})
        for k in range(len(queries)):
            if queries[k]['op'] not in LISTING and rng.random() < 0.3:
                self.compare(s, queries[k], first[k], self.ask(s, queries[k]),
                             'asked after a schedule had been added')
        # schedules are dropped: the objects which use them keep them
        gone = [op for op in setup if op['op'] == 'add_schedule' and
                op['as'] in s.sch and rng.random() < 0.4]
        for op in gone:
            s.step({'op': 'drop_schedule', 'tb': op['tb'], 'sch': op['as']})
        for k in range(len(queries)) if gone else ():
            if queries[k]['op'] not in LISTING and rng.random() < 0.5:
                self.compare(s, queries[k], first[k], self.ask(s, queries[k]),
                             'asked after a schedule had been dropped')
        # names of dropped schedules are given to other ones
        self.rename(s, setup, queries, rng)
        s.cur = {'op': 'rewalk'}
        s.op_rewalk({})
        return s.violations + t.violations


    def rename(self, s, setup, queries, rng):
        """The answers about a schedule depend on nothing but its selector,
        whatever was known by its name before."""
        other, tail = [], []
        for op in setup:
            if op['op'] == 'add_schedule' and op['as'] in s.sch and \
                    rng.random() < 0.7:
                op2 = dict(op, sel=rng.choice(sorted(SELECTORS)))
                tail += [{'op': 'drop_schedule', 'tb': op['tb'],
                          'sch': op['as']}, op2]
                op = op2
            other.append(op)
        if not tail:
            return
        # the objects of the first session stay: only questions about them are
        # asked again
        fresh = self.session(other)
        want = {}
        for k, q in enumerate(queries):
            r = self.ask(fresh, q)
            if 'sch' in q and q['op'] in ASKING and \
                    self.places(s, q) == self.places(fresh, q):
                want[k] = r
        plain = {k: {a: b for a, b in queries[k].items() if a != 'as'}
                 for k in want}
        for k in want:
            self.ask(s, plain[k])
        for op in tail:
            s.step(op)
        for k in want:
            self.compare(s, queries[k], want[k], self.ask(s, plain[k]),
                         'of an object which knew another schedule of the '
                         'same name')

    @staticmethod
    def places(s, q):
        res = []
        for key, table in (('ivl', s.ivl), ('x', s.ivl), ('y', s.ivl),
                           ('ws', s.ws)):
            if key in q:
                o = table.get(q[key])
                res.append(o and (o.i, getattr(o, 'j', None)))
        return res


def run(case, lib, stats, want):
    return Purity(lib, stats, want).run(case)
