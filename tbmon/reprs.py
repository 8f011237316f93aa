"""Monitor of C28: the text of repr() re-creates an equal object."""
import ast
import datetime
import decimal
import fractions

import numpy
import pandas as pd

from . import model as M
from .spec import Tag, dec_pit

LAYOUT_OPS = ('rp', 'marker', 'org')


def namespace(lib):
    return {'Organizer': lib.Organizer, 'Marker': lib.Marker,
            'RememberingPattern': lib.RememberingPattern,
            'Timeboard': lib.Timeboard, 'Timestamp': pd.Timestamp,
            'nan': float('nan'), 'datetime': datetime, 'numpy': numpy,
            'Tag': Tag, 'array': numpy.array,
            'Timedelta': pd.Timedelta, 'Period': pd.Period, 'NaT': pd.NaT,
            'Interval': pd.Interval, 'Decimal': decimal.Decimal,
            'Fraction': fractions.Fraction}


def evaluate(text, ns):
    tree = ast.parse(text)
    if not tree.body or not isinstance(tree.body[-1], ast.Expr):
        raise ValueError('no expression at the end of %r' % text[-200:])
    last = tree.body.pop()
    exec(compile(tree, '<repr>', 'exec'), ns)
    return eval(compile(ast.Expression(last.value), '<repr>', 'eval'), ns)


def twin(s, upto, only=None, stats=None):
    """A session with freshly made equal objects."""
    from .session import Session
    t = Session(s.lib, None, '-')
    for op in upto:
        if only is None or op['op'] in only:
            t.step(op)
    return t


def build(s, freq, start, end, layout):
    """-> a timeline, or the name of an exception"""
    out = s.call(s.lib.Timeboard, freq, start, end, layout)
    if not out.ok:
        return type(out.value).__name__
    return s.walk(out.value, 100000)


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        if a == b:
            return None
        return '%s instead of %s' % tuple(
            x if isinstance(x, str) else 'a timeboard' for x in (a, b))
    return b.diff(a)


def sharing(s, a, b):
    """Do organizers and patterns of a and b share objects alike?"""
    lib = s.lib
    fwd, back, seen = {}, {}, set()

    def pair(x, y, path):
        for cls in (lib.Organizer, lib.RememberingPattern):
            if isinstance(x, cls) != isinstance(y, cls):
                return '%s: %s became %s' % (path, type(x).__name__,
                                             type(y).__name__)
        if not isinstance(x, (lib.Organizer, lib.RememberingPattern)):
            return None
        if fwd.setdefault(id(x), id(y)) != id(y):
            return '%s: a shared %s was split' % (path, type(x).__name__)
        if back.setdefault(id(y), id(x)) != id(x):
            return '%s: separate %ss were merged' % (path, type(x).__name__)
        if id(x) in seen or isinstance(x, lib.RememberingPattern):
            return None
        seen.add(id(x))
        sx, sy = x.structure, y.structure
        if isinstance(sx, lib.RememberingPattern) or \
                isinstance(sy, lib.RememberingPattern):
            return pair(sx, sy, path + '.structure')
        if len(sx) != len(sy):
            return '%s: %d elements became %d' % (path, len(sx), len(sy))
        for k, (p, q) in enumerate(zip(sx, sy)):
            d = pair(p, q, '%s[%d]' % (path, k))
            if d:
                return d
        return None
    return pair(a, b, 'organizer')


def probe_args(p):
    return p['freq'], dec_pit(p['start']), dec_pit(p['end'])


def wrap(lib, kind, obj):
    if kind == 'marker':
        return [lib.Organizer(marker=obj, structure=['a', 'b']),
                lib.Organizer(marker=obj, structure=[[1, 2, 3]])]
    return [obj]


def run(s, op):
    lib = s.lib
    before = s.history[:-1]
    s.tag = 'repr'
    for kind, name in op['objs']:
        table = {'marker': s.mk, 'org': s.org, 'tb': s.tb}[kind]
        if name not in table:
            continue
        real = table[name].real if kind == 'tb' else table[name]
        fresh = twin(s, before, LAYOUT_OPS)
        out = s.call(repr, real)
        text = out.value if out.ok else ''
        again = s.call(repr, real)
        if not out.ok or not isinstance(text, str) or again.value != text:
            s.verdict('C28', False, 'repr gives %s, then %s' % (
                s.show(out.value), s.show(again.value)), 'text')
            continue
        made = s.call(evaluate, text, namespace(lib))
        sig = kind + name + text_key(text)
        if not made.ok:
            s.verdict('C28', False, '%s: the text cannot be executed: %s '
                      '(%s)' % (kind, s.show(made.value), text[:600]), 'text')
            continue
        new = made.value
        if type(new) is not type(real):
            s.verdict('C28', False, 'a %s was re-created as %s' % (
                kind, type(new).__name__), 'text')
            continue
        if kind == 'tb':
            tb_op = dict(table[name].op)
            kw = {k: v for k, v in tb_op.items() if k in
                  ('op', 'as', 'freq', 'start', 'end', 'layout')}
            fresh.step(kw)
            ref = fresh.tb.get(name)
            if ref is None:
                continue
            d = same(s.walk(new, 100000), ref.walked)
            s.verdict('C28', d is None, 'the re-created timeboard differs: '
                      '%s\n%s' % (d, text[:600]), 'timeboard',
                      ref.walked.n < 2, sig=sig)
            s.verdict('C28', new.base_unit_freq == real.base_unit_freq and
                      new.start_time == real.start_time and
                      new.end_time == real.end_time, 'extent differs: %s' %
                      text[-300:], 'extent', sig=sig)
            s.stats.states['C28'].add('tb/%s/%d' % (tb_op['freq'],
                                                    text.count('\n')))
            continue
        if kind == 'org':
            d = s.call(sharing, s, real, new)
            s.verdict('C28', d.ok and d.value is None, '%s\n%s' % (
                d.value, text[:900]), 'sharing', text.count('\n') == 0,
                sig=sig)
        mine, theirs = wrap(lib, kind, new), wrap(
            lib, kind, (fresh.mk if kind == 'marker' else fresh.org)[name])
        for p in op['probes']:
            f, a, b = probe_args(p)
            for x, y in zip(mine, theirs):
                got, exp = build(s, f, a, b, x), build(s, f, a, b, y)
                d = same(got, exp)
                s.verdict('C28', d is None, 'the re-created %s lays out '
                          '%s %s .. %s differently: %s\n%s' % (
                              kind, f, a, b, d, text[:900]),
                          'laid out' if not isinstance(exp, str) else exp,
                          isinstance(exp, str) or exp.n < 2,
                          sig=sig + str(p))
                s.stats.states['C28'].add('%s/%s/%s/%s' % (
                    kind, text.count('Organizer('),
                    text.count('RememberingPattern('), f))
                if isinstance(exp, str):
                    break
    # repr has no effect on what is built afterwards
    rest = twin(s, before)
    for tb in s.tb.values():
        s.same_as_before(tb, 'by repr', 'C28')
    for kind, name in op['objs']:
        if kind != 'org' or name not in s.org or name not in rest.org:
            continue
        for p in op['probes']:
            f, a, b = probe_args(p)
            got = build(s, f, a, b, s.org[name])
            exp = build(s, f, a, b, rest.org[name])
            d = same(got, exp)
            s.verdict('C28', d is None, 'after repr the organizer lays out %s '
                      '%s .. %s differently: %s' % (f, a, b, d), 'afterwards',
                      isinstance(exp, str), sig='after' + name + str(p))
            if isinstance(exp, str):
                break
    return None


def text_key(text):
    """The text without object ids."""
    import re
    return re.sub(r'_(\d{5,})', '_', text)
