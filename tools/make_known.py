"""Writes /verif/known_findings.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tbmon.calmath import DAY, days_from_civil as dfc


def day(y, m, d):
    return {'t': dfc(y, m, d) * DAY, 'as': 'ts'}


FINDINGS = [
    {'property': 'C09', 'key': 'workshift-at-negative-position',
     'what': 'Workshift(timeboard, location) with a negative integer location '
             'not less than -len(timeline) makes a workshift counted from the '
             'end of the timeboard (with wrong neighbours) instead of raising '
             'OutOfBoundsError; an existing test asserts that such locations '
             'are accepted',
     'where': 'timeboard/workshift.py, Workshift.__init__',
     'probe': {'kind': 'session', 'ops': [
         {'op': 'tb', 'as': 'tb', 'freq': 'D', 'start': day(2017, 10, 2),
          'end': day(2017, 10, 8), 'layout': {'k': 'pat', 'v': [1, 0]}},
         {'op': 'ws_at', 'tb': 'tb', 'pos': -1}]}},
    {'property': 'C21', 'key': 'us-26-dec-2014-and-2018',
     'what': 'the additional Christmas day off of 26 Dec 2014 is set on '
             '26 Dec 2018 instead: US.Weekly8x5 has 8 hours on 2014-12-26 and '
             '0 hours on 2018-12-26 (existing tests assert this)',
     'where': 'timeboard/calendars/US.py, amendments[26 Dec 2018]',
     'probe': {'kind': 'session', 'ops': [{'op': 'cal', 'mod': 'US'}]}},
    {'property': 'C24', 'key': 'us-26-dec-2014-and-2018',
     'what': 'whether 26 Dec 2018 is a day off in US.Weekly8x5 depends on '
             'whether the calendar contains 2014 (the same misplaced day off)',
     'where': 'timeboard/calendars/US.py',
     'probe': {'kind': 'session', 'ops': [
         {'op': 'cal', 'mod': 'US', 'start': day(2015, 1, 1),
          'end': day(2020, 12, 31)}]}},
]

FIXED = [
    'C05 a6b32f2 a mark lying inside the last base unit of the frame was lost',
    'C14 ce8af03 nested or simultaneous loops over an interval shared one '
    'generator',
    'C13 bc3f3bf get_interval(clip_period=True) with `closed` leaving nothing '
    'did not raise VoidIntervalError',
    "C04 2f2dbdc Marker(each='M'|'Q'|'W', how='from_easter_...') raised "
    'ValueError',
    "C02 55b0bf6 a RememberingPattern or a generator given as timeboard's "
    'layout was refused',
    'C18 e98e479 count_periods raised PartialOutOfBoundsError because of outer '
    "periods having no workshifts of the interval",
    'C24 8aa6696 custom amendments did not override fixed holidays if '
    'long_weekends=False',
    'C21 1f957da a US calendar ending on 31 Dec did not observe the New Year '
    'following it',
    'C22 99dc86c UK early May bank holiday of 2020 was on 4 May',
    'C04 7b0bdec nth_weekday_of_month marks moved out of their period by a '
    'shift were kept, periods shorter than a month raised ValueError',
    'C09 5c41f3d NaT was located in the last workshift',
    "C08 8ec83af a selector's None verdict counted as on duty if other "
    'verdicts were not None',
    'C15 0710e1c overlap of intervals made of located workshifts (numpy '
    'integer positions) raised TypeError',
    "C22 b53153d St Andrew's Day was a bank holiday in Scotland before 2007",
    "C24 a348922 a user's calendar with string bounds raised TypeError when "
    'compared with custom bounds',
    'C04 e59d458 from_start_of_each points before the start of their period were '
    'kept as marks, points inside of it were dropped, if the offset combined '
    'components of different signs',
    'C04 a785344 no Easter was found in annual periods ending in January or '
    'February, Easters of April were missed in those ending in March',
    'C02 69771ef pandas converted labels: date-like strings among timestamps '
    'became timestamps, None among timestamps, timedeltas or periods - NaT',
    'C02 b89dddb an iterable default_label raised ValueError or was spread '
    'over workshifts',
    'C08 bb2179e an empty string (None) returned by a selector counted as on '
    'duty if other verdicts were timestamps',
    'C16 6c5ee9f labels which are integers of a narrow numpy type or numpy '
    'booleans were not summed up to the work time (overflow, True)',
    'C02 c4ead54 a one-element layout which cannot be indexed by 0 (set, dictionary '
    'view, filtered series) raised TypeError or KeyError',
    'C24 8646912 custom amendments keyed by periods shorter than a day raised '
    'KeyError for days amended by the calendar itself',
]

with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
    json.dump({'findings': FINDINGS,
               'fixed': ['fixed: property=%s %s %s' % tuple(x.split(' ', 2))
                         for x in FIXED]}, f, indent=1, sort_keys=True)
    f.write('\n')
