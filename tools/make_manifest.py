"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = ('online monitor comparing every call of random histories with an '
         'executable reference model')
T = {
    'C01': 'trace checker: walked workshifts must tile the extent; '
           'construction outcomes compared with a reference model',
    'C02': MODEL, 'C03': MODEL, 'C04': MODEL, 'C05': MODEL,
    'C06': 'offline checker of the recorded label sequence of each shared '
           'RememberingPattern against its cyclic order',
    'C07': MODEL + ' and with a twin built without amendments',
    'C08': MODEL + '; cross-schedule isolation re-walks',
    'C09': MODEL, 'C10': MODEL, 'C11': MODEL, 'C12': MODEL, 'C13': MODEL,
    'C14': MODEL + '; interleaved half-consumed iterators', 'C15': MODEL,
    'C16': MODEL, 'C17': MODEL, 'C18': MODEL, 'C19': MODEL,
    'C20': 'history checker: every query repeated in other orders, on twins, '
           'after spoiling the data, must answer the same; snapshots of the '
           "caller's containers",
    'C21': 'runtime comparison of every day with a rule-based day oracle',
    'C22': 'runtime comparison of every day with a rule-based day oracle',
    'C23': 'runtime comparison of every day with self-verified golden data',
    'C24': 'differential monitor: calendars with bounds/options against the '
           'full calendar, the weekly layout and the day oracles',
    'C25': MODEL + ' (all years 1680-2260 on each run)',
    'C26': 'acceptance monitor over pairs of frequencies with an independent '
           'refinement decision, plus alignment trace checker',
    'C27': 'outcome monitor: type of exception of invalid requests on random '
           'timeboards',
    'C28': 'round-trip monitor: executed repr compared by walking layouts',
}
NOTE = ('Held on the executions observed: random histories of bounded size '
        '(extents up to some thousands of base units) from seeded generators; '
        'nothing is claimed of inputs outside of the generated classes.')
checks = [{'property': p, 'quick_cmd': './check %s --tier quick' % p,
           'thorough_cmd': './check %s --tier thorough' % p,
           'evidence_file': 'evidence/%s.json' % p,
           'technique': 'runtime monitoring: ' + T[p],
           'level': 'exploration', 'level_note': NOTE} for p in sorted(T)]
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1,
               'setup_cmd': "/opt/venv/bin/python -B -c 'import pandas, numpy, "
                            "dateutil'",
               'checks': checks, 'not_applicable': []}, f, indent=1)
    f.write('\n')
