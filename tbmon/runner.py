"""Runs the workload of one property under its monitors.

  main.py Cxx [--tier quick|thorough] [--replay FILE] [--seed N] [--cases N]
"""
import argparse
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TBMON_REPO', '/repo')   # other trees: development only
CASE_CPU_LIMIT = 60         # seconds of CPU for one case

# property -> (cases of the quick tier, cases of the thorough tier)
PLAN = {
    'C01': (4300, 120400),
    'C02': (6500, 182000),
    'C03': (3900, 109200),
    'C04': (4000, 112000),
    'C05': (7000, 196000),
    'C06': (1800, 50400),
    'C07': (2900, 81200),
    'C08': (2900, 81200),
    'C09': (3500, 98000),
    'C10': (4500, 126000),
    'C11': (2800, 78400),
    'C12': (3700, 103600),
    'C13': (2500, 70000),
    'C14': (2800, 78400),
    'C15': (2800, 78400),
    'C16': (3500, 98000),
    'C17': (4000, 112000),
    'C18': (1800, 50400),
    'C19': (700, 19600),
    'C20': (650, 18200),
    'C21': (450, 12600),
    'C22': (600, 16800),
    'C23': (450, 12600),
    'C24': (900, 25200),
    'C25': (20000, 900000),
    'C26': (14000, 392000),
    'C27': (2400, 67200),
    'C28': (450, 12600),
}
WALL_CAP = {'quick': 240.0, 'thorough': 660.0}


class Hang(BaseException):
    pass


def load_lib():
    sys.path.insert(0, REPO)
    import timeboard
    where = os.path.realpath(timeboard.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('timeboard is imported from %s' % where)
    return timeboard


LAYOUT_PROPS = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C26', 'C28')


def concerns(prop, op):
    """Would a call of this operation which never comes back break prop?"""
    name = (op or {}).get('op')
    if name in ('tb', 'org', 'marker', 'rp', 'rpnext'):
        return prop in LAYOUT_PROPS or (prop == 'C20')
    if name == 'repr':
        return prop == 'C28'
    if prop in ('C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C26', 'C28'):
        return False
    return True


def on_alarm(sig, frame):
    raise Hang()


def execute(case, lib, stats, want):
    """-> (violations, inconclusive reasons)"""
    from . import session, purity
    notes = []
    s = None
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        try:
            if case['kind'] == 'purity':
                return purity.run(case, lib, stats, want), notes
            s = session.Session(lib, stats, want)
            s.run(case)
            return s.violations, notes
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Hang:
        op = s.cur if s is not None else {'op': 'purity'}
        msg = 'the call did not return in %d s of CPU time' % CASE_CPU_LIMIT
        vs = list(s.violations) if s is not None else []
        if concerns(want, op):
            vs.append(session.Violation(want, op, msg))
        else:
            notes.append('%s: %s' % (op, msg))
        return vs, notes
    except Exception as e:
        op = s.cur if s is not None else {'op': 'purity'}
        text = traceback.format_exc()
        msg = 'what was observed makes no sense to the monitor: %s: %s' % (
            type(e).__name__, e)
        vs = list(s.violations) if s is not None else []
        if concerns(want, op):
            vs.append(session.Violation(want, op, msg + '\n' + text[-1200:]))
        else:
            notes.append('%s: %s' % (op, msg))
        return vs, notes


# ------------------------------------------------------------------ workers

def worker_init():
    signal.signal(signal.SIGPROF, on_alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass


_executed = []      # numbers of the cases this process has executed


def case_no(prop, seed, tier, i):
    from . import gen
    if i < 0:
        return fixed_cases(prop, tier)[i]
    return gen.gen_case(random.Random('%s/%s/%d' % (seed, prop, i)), prop)


def work(args):
    prop, seed, tier, lo, hi, deadline = args
    from . import session
    lib = load_lib()
    stats = session.Stats()
    bad, notes, done = [], [], 0
    for i in range(lo, hi):
        if time.time() > deadline:
            break
        case = case_no(prop, seed, tier, i)
        vs, nn = execute(case, lib, stats, prop)
        done += 1
        notes += nn[:3]
        if vs:
            bad.append((i, case, [(v.op, v.message, v.key) for v in vs
                                  if v.prop == prop], _executed[:]))
        _executed.append(i)
        if vs:
            if sum(1 for b in bad if any(k is None for _, _, k in b[2])) >= 2:
                break
    return done, bad, notes[:20], stats.dump()


# ---------------------------------------------------------- known findings

def known_findings():
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        return {(k['property'], k['key']): k
                for k in json.load(f)['findings']}


def probes(prop):
    """Fixed cases which show the known findings, run before the others."""
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k['probe'] for k in json.load(f)['findings']
                if k['property'] == prop and 'probe' in k]


_fixed = {}


def fixed_cases(prop, tier):
    """Cases of every run: the probes and those chosen for the property."""
    if (prop, tier) not in _fixed:
        from . import special
        _fixed[prop, tier] = probes(prop) + special.fixed_cases(prop, tier)
    return _fixed[prop, tier]


# ----------------------------------------------------------------- shrinking

def shrink(case, lib, prop, known, budget=40.0):
    from . import session

    def fails(c):
        vs, _ = execute(c, lib, session.Stats(), prop)
        return [v for v in vs if v.prop == prop and
                (prop, v.key) not in known]
    t0 = time.time()
    best = fails(case)
    if not best:
        return case, best
    fixed = case.get('setup', 0) if case['kind'] == 'purity' else 0
    if case['kind'] != 'purity':
        # nothing after the first violating operation is needed
        ops = case['ops']
        for k, op in enumerate(ops):
            if op is best[0].op:
                c = dict(case, ops=ops[:k + 1])
                f = fails(c)
                if f:
                    case, best = c, f
                break
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        k = len(case['ops']) - 1
        while k >= fixed and time.time() - t0 < budget:
            c = dict(case, ops=case['ops'][:k] + case['ops'][k + 1:])
            f = fails(c)
            if f:
                case, best, changed = c, f, True
            k -= 1
    return case, best


def in_child(fn, *args):
    """fn(*args) in a process of its own: its traces must not reach us."""
    from concurrent.futures import ProcessPoolExecutor
    try:
        with ProcessPoolExecutor(
                1, mp_context=multiprocessing.get_context('fork'),
                initializer=worker_init) as ex:
            return ex.submit(fn, *args).result()
    except Exception:
        return None


def shrink_job(case, prop):
    small, left = shrink(case, load_lib(), prop, known_findings())
    return small, [(v.op, v.message, v.key) for v in left]


def after_job(before, case, prop):
    """What is wrong with the case executed after the others."""
    from . import session
    lib, known = load_lib(), known_findings()
    for c in before:
        execute(c, lib, session.Stats(), prop)
    vs, _ = execute(case, lib, session.Stats(), prop)
    return [(v.op, v.message, v.key) for v in vs
            if v.prop == prop and (prop, v.key) not in known]


def reproduce(case, history, prop, seed, tier, budget=120.0):
    """-> (cases to be executed before, the smallest failing case found, its
    violations); nothing if the violation does not come back."""
    t0 = last = time.time()
    if in_child(after_job, [], case, prop):
        r = in_child(shrink_job, case, prop)
        if r and r[1]:
            vs = in_child(after_job, [], r[0], prop)
            if vs:
                return [], r[0], vs
        return [], case, in_child(after_job, [], case, prop)
    # something is left behind by the cases executed earlier
    k = 1
    while time.time() - t0 < budget:
        before = [case_no(prop, seed, tier, j) for j in history[-k:]]
        vs = in_child(after_job, before, case, prop)
        if vs:
            for c in reversed(before):
                if time.time() - t0 > budget or len(before) == 1:
                    break
                one = in_child(after_job, [c], case, prop)
                if one:
                    return [c], case, one
            return before, case, vs
        took, last = time.time() - last, time.time()
        if k >= len(history) or last + 3 * took > t0 + budget:
            break
        k *= 2
    return [], case, []


# ---------------------------------------------------------------------- main

def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True, default=str)
        f.write('\n')
    os.replace(tmp, path)


def replay(prop, path, lib):
    from . import session
    with open(path) as f:
        data = json.load(f)
    worker_init()
    stats = session.Stats()
    for c in data.get('before') or ():
        execute(c, lib, session.Stats(), prop)
    vs, notes = execute(data['case'], lib, stats, prop)
    known = known_findings()
    bad = False
    for v in vs:
        if v.prop != prop:
            continue
        k = known.get((prop, v.key))
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        else:
            bad = True
            print('  %s\n  %s' % (json.dumps(v.op, default=str), v.message))
    if bad:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('replay of %s: no violation' % path)
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick',
                    choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    prop = a.prop
    if prop not in PLAN:
        print('unknown property %s' % prop)
        return 2
    t0 = time.time()
    lib = load_lib()
    if a.replay:
        return replay(prop, a.replay, lib)
    from . import session, special
    n = a.cases or PLAN[prop][a.tier == 'thorough']
    deadline = t0 + WALL_CAP[a.tier]
    known = known_findings()
    stats = session.Stats()
    bad, notes, done, lost = [], [], 0, 0

    fixed = fixed_cases(prop, a.tier)
    chunk = max(1, min(50, n // (a.jobs * 6) or 1))
    small = max(1, min(10, len(fixed) // (a.jobs * 6) or 1))
    jobs = [(prop, a.seed, a.tier, lo, min(0, lo + small), deadline)
            for lo in range(-len(fixed), 0, small)]
    jobs += [(prop, a.seed, a.tier, lo, min(n, lo + chunk), deadline)
             for lo in range(0, n, chunk)]
    from concurrent.futures import ProcessPoolExecutor, as_completed
    from concurrent.futures.process import BrokenProcessPool
    ctx = multiprocessing.get_context('fork')
    fresh = []
    try:
        with ProcessPoolExecutor(a.jobs, mp_context=ctx,
                                 initializer=worker_init) as ex:
            fs = [ex.submit(work, j) for j in jobs]
            for f in as_completed(fs):
                if f.cancelled():
                    continue
                d, b, nn, st = f.result()
                done += d
                bad += b
                notes += nn
                stats.merge(st)
                fresh += [x for x in b if any((prop, k) not in known
                                              for _, _, k in x[2])]
                if len(fresh) >= 3:
                    for g in fs:
                        g.cancel()
                    break
            ex.shutdown(wait=True, cancel_futures=True)
    except BrokenProcessPool:
        lost = 1
        notes.append('a worker process died')

    status = 0
    seen = {}
    for i, case, vs, _ in bad:
        for op, msg, key in vs:
            if (prop, key) in known:
                seen.setdefault(key, msg)
    for key in sorted(seen):
        print('KNOWN-FINDING: property=%s %s' % (prop,
                                                 known[(prop, key)]['what']))
    reports = []
    fresh.sort(key=lambda b: b[0])
    for i, case, vs, history in fresh[:1]:
        before, small, left = [], case, []
        if not any('did not return in' in v[1] for v in vs):
            before, small, left = reproduce(case, history, prop, a.seed,
                                            a.tier)
        vs = left or vs
        path = os.path.join(HERE, 'evidence', 'replay', '%s-%s-%d.json' % (
            prop, a.seed, i))
        op, msg, key = [v for v in vs if (prop, v[2]) not in known][0]
        write_json(path, {'property': prop, 'seed': a.seed, 'case_no': i,
                          'message': msg, 'op': op, 'before': before,
                          'case': small})
        print('violating event: %s' % json.dumps(op, default=str)[:1500])
        print('%s' % msg[:2000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        reports.append({'message': msg[:2000], 'replay': path,
                        'reproduced': bool(left),
                        'cases_needed_before': len(before)})
        status = 1

    judged = stats.judged[prop]
    nontriv = len(stats.nontrivial[prop])
    if status == 0 and (judged == 0 or nontriv == 0 or
                        (lost and done < len(fixed) + n // 2)):
        status = 2
        print('INCONCLUSIVE property=%s: %d events judged %s' % (
            prop, judged, notes[:3]))
    samples = [dict(x, **{'on': str(x.get('on', ''))[:400]})
               for x in stats.samples.get(prop, [])[:5]]
    outcomes = {k[len(prop) + 1:]: v for k, v in stats.outcomes.items()
                if k.startswith(prop + ' ')}
    states = sorted(stats.states.get(prop, ()))
    ev = {
        'property': prop, 'tier': a.tier, 'seed': a.seed,
        'level': 'exploration',
        'wall_s': round(time.time() - t0, 2),
        'coverage': {
            'evaluations': judged,
            'distinct_nontrivial': nontriv,
            'rule': RULE + ' ' + special.RULES.get(prop, ''),
            'samples': samples or [{'op': None}],
            'cases_executed': done,
            'cases_planned': len(fixed) + n,
            'library_calls_observed': stats.calls,
            'events_by_operation_and_outcome': dict(sorted(
                outcomes.items(), key=lambda kv: -kv[1])[:60]),
            'distinct_abstract_states': len(states),
            'abstract_states_sample': states[::max(1, len(states) // 40)][:60],
            'events_left_unjudged': dict(sorted(
                stats.unjudged.items(), key=lambda kv: -kv[1])[:12]),
            'not_understood': notes[:10],
        },
        'violations': len(reports),
        'violation_reports': reports,
        'known_findings_seen': sorted(seen),
        'assumptions': ASSUMPTIONS,
    }
    write_json(os.path.join(HERE, 'evidence', prop + '.json'), ev)
    print('%s %s: %d cases, %d events judged (%d distinct non-trivial), '
          '%d states, %.1f s' % (prop, a.tier, done, judged, nontriv,
                                 len(states), time.time() - t0))
    return status


RULE = ('A case is a generated history of operations executed by the real '
        'library; an evaluation is one event (call) of such a history judged '
        'by the monitor of this property. It counts as distinct and '
        'non-trivial if the operation with its arguments and the timeboard '
        'it was executed on have not been met before, and the timeboard or '
        'interval has more than one unit.')
ASSUMPTIONS = [
    'pandas 1.5.3, numpy and dateutil behave as documented',
    'the reference model in /verif/tbmon interprets the documentation right',
    'extents stay within the range of nanosecond timestamps',
]

if __name__ == '__main__':
    sys.exit(main())
