From a6b32f23cc646217357f170e91820b412a7c6b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:53 +0000
Subject: [PATCH 01/23] fix: do not lose marks located inside the last base
 unit of the frame

Only the marks found within the first second of the last base unit were
honored; a mark may be located anywhere within a base unit.
---
 timeboard/core.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index 921404e..43293ab 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -246,15 +246,14 @@ class _Frame(pd.PeriodIndex):
 
     def get_loc_vectorized(self, timestamps, not_in_range=0, span_first=None,
                            span_last=None):
-        start_times = self.start_times.append(
-            pd.DatetimeIndex([self.start_times[-1] + SMALLEST_TIMEDELTA]))
         if span_first is None:
             span_first = 0
         if span_last is None:
             span_last = len(self)-1
-        arr = np.searchsorted(start_times,
-                              np.array(timestamps, dtype='datetime64[ns]'),
-                              side='right')-1
+        timestamps = np.array(timestamps, dtype='datetime64[ns]')
+        # a point in the future of the frame does not belong to any base unit
+        timestamps = timestamps[timestamps <= self.end_time.to_datetime64()]
+        arr = np.searchsorted(self.start_times, timestamps, side='right')-1
         # result = np.where((arr>span_first) & (arr<=span_last),
         #                   arr, [not_in_range])
         result = arr[nonzero((arr > span_first) & (arr <= span_last))[0]]
-- 
2.43.0


From ce8af037b116d23d6f5fd908c101f32cf18911be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:53 +0000
Subject: [PATCH 02/23] fix: make iterations over the same interval independent

Nested or simultaneous loops over an interval shared one generator, so
starting the inner loop truncated the outer one.
---
 timeboard/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/interval.py b/timeboard/interval.py
index 2198828..5e23619 100644
--- a/timeboard/interval.py
+++ b/timeboard/interval.py
@@ -321,7 +321,7 @@ class Interval(_BaseInterval):
 
     def __iter__(self):
         self._ws_generator_activated = self.workshifts(duty='any')
-        return self
+        return self._ws_generator_activated
 
     def __len__(self):
         return self.length
-- 
2.43.0


From bc3f3bffedd7e11495e03a8c29b2b44d47e21585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:53 +0000
Subject: [PATCH 03/23] fix: raise VoidIntervalError if 'closed' empties a
 clipped period

The workshift positions were not compared when an end of the period had been
clipped, so stripping the other end led to OutOfBoundsError.
---
 timeboard/timeboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index 4d79e69..e4b8281 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -792,7 +792,7 @@ class Timeboard(object):
         
         Compare locations even if one ore both are outside the timeboard,
         """
-        if locs[0].where == LOC_WITHIN and locs[1].where == LOC_WITHIN:
+        if locs[0].position is not None and locs[1].position is not None:
             return locs[0].position <= locs[1].position
         else:
             return locs[0].where <= locs[1].where
-- 
2.43.0


From 2f2dbdc8fca59b393db3b67340c51d3e94afe996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:14 +0000
Subject: [PATCH 04/23] fix: from_easter works if some of the periods do not
 contain Easter

Easter dates were filtered while the bounds of periods were not, so any
Marker(each='M'|'Q'|'W', how='from_easter_...') raised ValueError.
---
 timeboard/when.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/timeboard/when.py b/timeboard/when.py
index 80c03bd..1ce162e 100644
--- a/timeboard/when.py
+++ b/timeboard/when.py
@@ -202,8 +202,11 @@ def from_easter(pi, easter_type='western', normalize_by=None, shift=None,
     pi_end_times = pi.to_timestamp(how='end', freq='S')
 
     easter_dates = pd.DatetimeIndex([easter(y, _easter_type) for y in pi.year])
-    easter_dates = easter_dates[(easter_dates >= pi_start_times) &
-                                (easter_dates <= pi_end_times)]
+    in_period = ((easter_dates >= pi_start_times) &
+                 (easter_dates <= pi_end_times))
+    easter_dates = easter_dates[in_period]
+    pi_start_times = pi_start_times[in_period]
+    pi_end_times = pi_end_times[in_period]
 
     result = easter_dates + offset
     if normalize_by is not None:
-- 
2.43.0


From 55b0bf6cc3154c04b4f2a9f7ea153ab380e480bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:14 +0000
Subject: [PATCH 05/23] fix: accept a RememberingPattern or a generator as
 timeboard's layout

Any Iterable is a documented value of layout but the check for a wrapped
Organizer required len().
---
 timeboard/timeboard.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index e4b8281..578ac6b 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -1,6 +1,6 @@
 from __future__ import division
 from .core import (_Frame, _Timeline, _Schedule,
-                   Organizer, get_period, get_timestamp)
+                   Organizer, RememberingPattern, get_period, get_timestamp)
 from .utils import is_iterable, is_null
 from .workshift import Workshift
 from .interval import Interval
@@ -173,7 +173,8 @@ class Timeboard(object):
         if isinstance(layout, Organizer):
             org = layout
         elif is_iterable(layout):
-            if len(layout) == 1 and isinstance(layout[0], Organizer):
+            if (hasattr(layout, '__len__') and len(layout) == 1 and
+                    isinstance(layout[0], Organizer)):
                 warnings.warn("Received 'layout' as an Organizer wrapped in "
                               "a list. Probably you do not want a list here.",
                               SyntaxWarning)
@@ -213,7 +214,7 @@ class Timeboard(object):
         self._schedules = {self._default_name: self._default_schedule}
 
         # prepare the text for `__repr__`
-        if is_iterable(layout):
+        if is_iterable(layout) and not isinstance(layout, RememberingPattern):
             org_repr = ""
             org_arg = "{!r}".format(org)
         else:
-- 
2.43.0


From e98e479e10b4f5071ad089d0ee4a2c274c7c0ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:14 +0000
Subject: [PATCH 06/23] fix: count_periods ignores outer periods without
 interval's workshifts

A calendar period at the edge of the interval which extends beyond the
timeboard but does not contain the first or the last workshift (subject to
duty) of the interval raised PartialOutOfBoundsError.
---
 timeboard/interval.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/timeboard/interval.py b/timeboard/interval.py
index 5e23619..01635ed 100644
--- a/timeboard/interval.py
+++ b/timeboard/interval.py
@@ -1,5 +1,6 @@
 from __future__ import division
 from .exceptions import (OutOfBoundsError,
+                         PartialOutOfBoundsError,
                          VoidIntervalError,
                          UnacceptablePeriodError)
 from .workshift import Workshift
@@ -671,7 +672,10 @@ class Interval(_BaseInterval):
                                 clip_period=False,
                                 schedule=schedule
                              )
-            except OutOfBoundsError:
+            except (OutOfBoundsError, PartialOutOfBoundsError):
+                if (p.start_time <= ivl_duty_start_ts <= p.end_time or
+                        p.start_time <= ivl_duty_end_ts <= p.end_time):
+                    raise
                 period_intervals.append(None)
                 period_duty_count.append(None)
             except VoidIntervalError:
-- 
2.43.0


From 8aa66960efc966482b5ceed594eb8da41ecdaeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:14 +0000
Subject: [PATCH 07/23] fix: custom amendments override fixed holidays if
 long_weekends=False

The dates of fixed holidays were left as strings, so a custom amendment for
the same day duplicated the reference and KeyError was raised.
---
 timeboard/calendars/UK.py | 2 +-
 timeboard/calendars/US.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeboard/calendars/UK.py b/timeboard/calendars/UK.py
index 8488fd0..8013139 100644
--- a/timeboard/calendars/UK.py
+++ b/timeboard/calendars/UK.py
@@ -44,7 +44,7 @@ def bank_holidays(start_year, end_year, country='england', do_not_observe=None,
     days = [day for holiday, day in bank_holidays_fixed.items()
             if holiday not in do_not_observe]
 
-    amendments = {"{} {}".format(day, year): label
+    amendments = {get_timestamp("{} {}".format(day, year)): label
                   for day, year in product(days, years)}
     if long_weekends:
         amendments = extend_weekends(amendments, how='next')
diff --git a/timeboard/calendars/US.py b/timeboard/calendars/US.py
index 399bd1a..78194a7 100644
--- a/timeboard/calendars/US.py
+++ b/timeboard/calendars/US.py
@@ -30,7 +30,7 @@ def fed_holidays(start_year, end_year, do_not_observe=None, long_weekends=True,
     days = [day for holiday, day in fed_holidays_fixed.items()
             if holiday not in do_not_observe]
 
-    amendments = {"{} {}".format(day, year): label
+    amendments = {get_timestamp("{} {}".format(day, year)): label
                   for day, year in product(days, years)}
     if long_weekends:
         amendments = extend_weekends(amendments, how='nearest')
-- 
2.43.0


From 1f957da25132806dd9ef441ad3575df95766d1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:14 +0000
Subject: [PATCH 08/23] fix: US calendar ending on 31 Dec observes the New Year
 following it

31 Dec 2004 and 31 Dec 2010 are days off as the observance of the New Year
but became working days if the calendar was requested to end in that year.
---
 timeboard/calendars/US.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timeboard/calendars/US.py b/timeboard/calendars/US.py
index 78194a7..58d3361 100644
--- a/timeboard/calendars/US.py
+++ b/timeboard/calendars/US.py
@@ -32,6 +32,9 @@ def fed_holidays(start_year, end_year, do_not_observe=None, long_weekends=True,
 
     amendments = {get_timestamp("{} {}".format(day, year)): label
                   for day, year in product(days, years)}
+    if 'new_year' not in do_not_observe:
+        # it may be observed on the last day of the preceding year
+        amendments[get_timestamp('01 Jan {}'.format(end_year + 1))] = label
     if long_weekends:
         amendments = extend_weekends(amendments, how='nearest')
 
-- 
2.43.0


From 99dc86ce8d1cce635833b11e7075325b7197b6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:14 +0000
Subject: [PATCH 09/23] fix: UK early May bank holiday of 2020 was moved to 8
 May

---
 timeboard/calendars/UK.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeboard/calendars/UK.py b/timeboard/calendars/UK.py
index 8013139..da5d610 100644
--- a/timeboard/calendars/UK.py
+++ b/timeboard/calendars/UK.py
@@ -69,6 +69,10 @@ def bank_holidays(start_year, end_year, country='england', do_not_observe=None,
         if 'royal' not in do_not_observe:
             amendments[get_timestamp('03 Jun 2002')] = label
             amendments[get_timestamp('04 Jun 2002')] = label
+    if 2020 in years and 'early_may' not in do_not_observe:
+        # moved to the 75th anniversary of VE Day
+        del amendments[get_timestamp('04 May 2020')]
+        amendments[get_timestamp('08 May 2020')] = label
     if 2011 in years and 'royal' not in do_not_observe:
         amendments[get_timestamp('29 Apr 2011')] = label
     if 2012 in years:
-- 
2.43.0


From 7b0bdecbfbb8262f4e6961affdd0e4120b2d8aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:16 +0000
Subject: [PATCH 10/23] fix: nth_weekday_of_month marks belong to the period
 they are sought in

Marks moved by 'shift' out of the 'each' period were not ignored, contrary
to the docs of Marker, and periods shorter than a month raised ValueError.
---
 timeboard/when.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/timeboard/when.py b/timeboard/when.py
index 1ce162e..c6450e1 100644
--- a/timeboard/when.py
+++ b/timeboard/when.py
@@ -118,19 +118,12 @@ def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
     if shift is None:
         shift = 0
 
-    dti = pi.asfreq(freq='M', how='START').drop_duplicates().to_timestamp(
-        how='start')
+    dti = pi.asfreq(freq='M', how='START').to_timestamp(how='start')
     m_start_times = dti + pd.tseries.offsets.MonthBegin(month - 1,
                                                         normalize=True)
     m_end_times = dti + pd.tseries.offsets.MonthEnd(month, normalize=True)
 
     # timer1 = timeit.default_timer()
-    # make sure we are inside put periods pi - this check makes sense when
-    # pi.freq is based on 'M'
-    pi_end_times = pi.to_timestamp(how='end')
-    m_start_times = m_start_times[m_start_times <= pi_end_times]
-    m_end_times = m_end_times[m_end_times <= pi_end_times]
-
     # timer2 = timeit.default_timer()
     if week > 0:
         off_by_one_bug_flag = m_start_times.weekday == weekday - 1
@@ -142,7 +135,7 @@ def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
             [m_start_times[i] + week_offsets[i]
              for i in range(len(m_start_times))])
 
-        dtw = dtw[dtw <= m_end_times]
+        exists = dtw <= m_end_times
 
     else:
         off_by_one_bug_flag = m_end_times.weekday == weekday - 1
@@ -153,14 +146,18 @@ def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
         dtw = pd.DatetimeIndex(
             [m_end_times[i] + week_offsets[i]
              for i in range(len(m_end_times))])
-        dtw = dtw[dtw >= m_start_times]
+        exists = dtw >= m_start_times
 
     # timer3 = timeit.default_timer()
     # timers1.append(timer1 - timer0)
     # timers2.append(timer2 - timer1)
     # timers3.append(timer3 - timer2)
 
-    return dtw + pd.DateOffset(days=shift)
+    result = dtw + pd.DateOffset(days=shift)
+    # make sure we are inside input periods pi
+    inside = ((result >= pi.to_timestamp(how='start')) &
+              (result <= pi.to_timestamp(how='end')))
+    return result[exists & inside].drop_duplicates()
 
 
 def from_easter(pi, easter_type='western', normalize_by=None, shift=None,
-- 
2.43.0


From 5c41f3d3d051d13a4181761f4de6292e396c5d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:44 +0000
Subject: [PATCH 11/23] fix: a null point in time is out of bounds of any
 timeboard

NaT was silently located in the last workshift of the timeboard.
---
 timeboard/core.py      | 2 +-
 timeboard/timeboard.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index 43293ab..4520a38 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -235,7 +235,7 @@ class _Frame(pd.PeriodIndex):
         return self._start_times
 
     def get_loc(self, timestamp, not_in_range=None, *kwargs):
-        if timestamp > self.end_time or timestamp < self.start_time:
+        if not self.start_time <= timestamp <= self.end_time:
             if not_in_range is None:
                 raise KeyError("Timestamp {} is out of bounds")
             else:
diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index 578ac6b..bec657f 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -410,7 +410,9 @@ class Timeboard(object):
                                    " for PiT {}".format(loc, point_in_time))
             return _Location(loc, LOC_WITHIN)
         except OutOfBoundsError:
-            if pit_ts < self.start_time:
+            if is_null(pit_ts):
+                raise
+            elif pit_ts < self.start_time:
                 return _Location(None, OOB_LEFT)
             elif pit_ts > self.end_time:
                 return _Location(None, OOB_RIGHT)
-- 
2.43.0


From 8ec83afac401be10b5d363423414750e16ee61d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 12/23] fix: a selector's None verdict means off duty whatever
 the other verdicts

---
 timeboard/core.py      | 5 ++++-
 timeboard/timeboard.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index 4520a38..40329fb 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -1180,7 +1180,10 @@ class _Schedule(object):
         self._name = str(name)
         self._selector = selector
 
-        on_duty_bool_index = np.array(self._timeline.labels.apply(self._selector), dtype=bool)
+        # `convert_dtype=False` prevents None from turning into truthy NaN
+        on_duty_bool_index = np.array(
+            self._timeline.labels.apply(self._selector, convert_dtype=False),
+            dtype=bool)
         self._on_duty_index = nonzero(on_duty_bool_index)[0]
         self._off_duty_index = nonzero(~on_duty_bool_index)[0]
 
diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index bec657f..178dfaf 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -365,7 +365,7 @@ class Timeboard(object):
             # TODO: refactor to use already computed duty indexes from _Schedule
             df[activity] = list(self._timeline.labels.iloc[
                                 first_ws:last_ws + 1].apply(
-                schedule._selector))
+                schedule._selector, convert_dtype=False).astype(bool))
         return df
 
     def _locate(self, point_in_time, by_ref=None):
-- 
2.43.0


From 0710e1c8bfad8234172acdc8d0f2d12b553feaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 13/23] fix: overlap intervals whose bounds came from located
 workshifts

Workshifts found by nth(), rollforward() etc. have numpy integers as their
positions. An interval built of such workshifts failed to overlap with
TypeError as numpy integers were not recognized as integers.
---
 timeboard/interval.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeboard/interval.py b/timeboard/interval.py
index 01635ed..ab4c128 100644
--- a/timeboard/interval.py
+++ b/timeboard/interval.py
@@ -5,6 +5,7 @@ from .exceptions import (OutOfBoundsError,
                          UnacceptablePeriodError)
 from .workshift import Workshift
 from .core import _Frame, _Schedule,  VOID_TIME
+from numbers import Integral
 
 
 class _BaseInterval(object):
@@ -14,7 +15,7 @@ class _BaseInterval(object):
         def handle_bound(bound):
             if isinstance(bound, Workshift):
                 loc = bound._loc
-            elif isinstance(bound, int):
+            elif isinstance(bound, Integral):  # incl. numpy integers
                 loc = bound
             else:
                 raise TypeError('Interval bound = {}: expected integer or '
-- 
2.43.0


From b53153d9ba44b48275150d705559493296ac0aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 14/23] fix: St Andrew's Day is not a bank holiday in Scotland
 before 2007

---
 timeboard/calendars/UK.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/timeboard/calendars/UK.py b/timeboard/calendars/UK.py
index da5d610..921534f 100644
--- a/timeboard/calendars/UK.py
+++ b/timeboard/calendars/UK.py
@@ -16,6 +16,9 @@ def bank_holidays(start_year, end_year, country='england', do_not_observe=None,
                            'christmas': '25 Dec',
                            'boxing': '26 Dec'}
 
+    # St Andrew's Day Bank Holiday (Scotland) Act 2007
+    bank_holidays_since = {'30 Nov': 2007}
+
     bank_holidays_floating = {
         'early_may': (5, 1, 1),
         'spring': (5, 1, -1),
@@ -45,7 +48,8 @@ def bank_holidays(start_year, end_year, country='england', do_not_observe=None,
             if holiday not in do_not_observe]
 
     amendments = {get_timestamp("{} {}".format(day, year)): label
-                  for day, year in product(days, years)}
+                  for day, year in product(days, years)
+                  if year >= bank_holidays_since.get(day, start_year)}
     if long_weekends:
         amendments = extend_weekends(amendments, how='next')
 
-- 
2.43.0


From a34892295af63bdc882da431bef6c2d41101bc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:02 +0000
Subject: [PATCH 15/23] fix: calendar bounds given as strings are comparable to
 custom bounds

---
 timeboard/calendars/calendarbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/timeboard/calendars/calendarbase.py b/timeboard/calendars/calendarbase.py
index 200cdf1..08f6755 100644
--- a/timeboard/calendars/calendarbase.py
+++ b/timeboard/calendars/calendarbase.py
@@ -303,7 +303,9 @@ class CalendarBase(object):
 
     @classmethod
     def _check_time(cls, t):
-        if not cls.parameters()['start'] <= t <= cls.parameters()['end']:
+        start = get_timestamp(cls.parameters()['start'])
+        end = get_timestamp(cls.parameters()['end'])
+        if not start <= t <= end:
             raise OutOfBoundsError("Point in time '{}' is outside calendar {}"
                                    .format(t, cls))
 
-- 
2.43.0


From e59d4581d57e53fde38e2aba3e82b89dcba469d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 16/23] fix: ignore 'from_start_of_each' points which precede
 their period

An offset combining components of different signs, i.e. months=1 and days=-30,
may lead to either side of the start of the period depending on the length of
the month. Points found before the period were kept as marks, and points inside
of it were dropped if the offset happened to be negative in January 2004.
---
 timeboard/when.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/timeboard/when.py b/timeboard/when.py
index c6450e1..ace30e6 100644
--- a/timeboard/when.py
+++ b/timeboard/when.py
@@ -29,11 +29,6 @@ def from_start_of_each(pi, normalize_by=None, **kwargs):
     
     """
     offset = pd.DateOffset(**kwargs)
-    testtime = pd.Timestamp('01 Jan 2004')  # longest month of longest year
-    if testtime + offset < testtime:
-        # with negative offset all results will fall out of their periods
-        return pd.DatetimeIndex([])
-
     start_times = pi.to_timestamp(how='start', freq='S')
     end_times = pi.to_timestamp(how='end', freq='S')
 
@@ -47,16 +42,9 @@ def from_start_of_each(pi, normalize_by=None, **kwargs):
     if normalize_by is not None:
         result = pd.PeriodIndex(result,
                                 freq=normalize_by).to_timestamp(how='start')
-    result = result[result <= end_times]
-    # Generally we should also filter result with [result >= start_times]
-    # since normalize_by frequency can be anything, incl. having period larger
-    # than pi frequency (i.e. pi freq='D', normalize_by='M'). In this case.
-    # despite of positive (future-directed) offset, normalization can throw a
-    # point in result in the past beyond start_times.
-    # However this does not make sense (at least, in the context of this
-    # package), and this function is always called from within this package
-    # with  normalize_by=_Frame.base_unit_freq.
-    # Therefore, we'd rather save time on filtering.
+    # An offset combining positive and negative components may lead to either
+    # side of the period depending on the lengths of the months involved
+    result = result[(result >= start_times) & (result <= end_times)]
     return result
 
 
-- 
2.43.0


From a785344f752d0d1216f81ca2ceb6dbee0bf2898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 17/23] fix: find Easter in periods which span two calendar
 years

Easter was looked up in the calendar year in which the period ends, so annual
periods such as 'A-JAN' had no Easter at all, and 'A-MAR' ones missed the
Easters of April. Points led out of the period by an offset combining
components of different signs are filtered on both sides of Easter.
---
 timeboard/when.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/timeboard/when.py b/timeboard/when.py
index ace30e6..0794f27 100644
--- a/timeboard/when.py
+++ b/timeboard/when.py
@@ -180,13 +180,17 @@ def from_easter(pi, easter_type='western', normalize_by=None, shift=None,
     if shift is not None:
         kwargs['days']=shift
     offset = pd.DateOffset(**kwargs)
-    testtime = pd.Timestamp('01 Jan 2004')
-    shift_to_future = testtime + offset >= testtime
 
     pi_start_times = pi.to_timestamp(how='start', freq='S')
     pi_end_times = pi.to_timestamp(how='end', freq='S')
 
-    easter_dates = pd.DatetimeIndex([easter(y, _easter_type) for y in pi.year])
+    # a period may begin in one calendar year and end in the next one
+    crossing = pi_end_times.year > pi_start_times.year
+    years = pi_start_times.year.append(pi_end_times.year[crossing])
+    pi_start_times = pi_start_times.append(pi_start_times[crossing])
+    pi_end_times = pi_end_times.append(pi_end_times[crossing])
+
+    easter_dates = pd.DatetimeIndex([easter(y, _easter_type) for y in years])
     in_period = ((easter_dates >= pi_start_times) &
                  (easter_dates <= pi_end_times))
     easter_dates = easter_dates[in_period]
@@ -197,13 +201,10 @@ def from_easter(pi, easter_type='western', normalize_by=None, shift=None,
     if normalize_by is not None:
         result = pd.PeriodIndex(result,
                                 freq=normalize_by).to_timestamp(how='start')
-    if shift_to_future:
-        result = result[result <= pi_end_times]
-    else:
-        result = result[result >= pi_start_times]
-    # See comment about filtering for the other end of periods in
-    # from_start_of_each function
-    return result
+    # An offset combining positive and negative components may lead to either
+    # side of Easter depending on the lengths of the months involved
+    result = result[(result >= pi_start_times) & (result <= pi_end_times)]
+    return result.sort_values()
 
 
 def from_easter_orthodox(pi, normalize_by=None, **kwargs):
-- 
2.43.0


From 69771efd54328e76a7d32c2bb55ab81c2dc35b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:10 +0000
Subject: [PATCH 18/23] fix: keep workshift labels as they are given

pandas converted a collection of labels consisting of timestamps and date-like
strings, or of timestamps, timedeltas, periods or intervals and nulls, to one
of its dtypes. A string label became a timestamp, None became NaT (which is
truthy), and an amendment with a date-like string was converted, too.
---
 timeboard/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index 40329fb..8a849e3 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -640,7 +640,8 @@ class _Timeline(object):
             wsband_index = nonzero(self._ws_compound_mask)[0]
             self._wsband = pd.Series(
                 index = wsband_index,
-                data = self._ws_labels[wsband_index])
+                data = self._ws_labels[wsband_index],
+                dtype = object)
             self._frameband = pd.Series(
                 index=frame,
                 data=_masked_counter(self._ws_compound_mask))
@@ -1116,7 +1117,8 @@ class _Timeline(object):
                 'start': start_times,
                 'end': end_times,
                 'duration': durations,
-                'label': np.array(self.labels.iloc[first_ws:last_ws+1]),
+                'label': pd.Series(np.array(
+                    self.labels.iloc[first_ws:last_ws+1]), dtype=object),
                 }
         return pd.DataFrame(data=data,
                             columns=['loc', 'ws_ref', 'start',
-- 
2.43.0


From b89dddba1cc5b096ce4aee46b80f8339a55ce786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 19/23] fix: do not spread an iterable default_label over
 workshifts

A tuple given as the default label was treated as a collection of labels: it
raised ValueError or, if its length was that of the timeboard, was distributed
among workshifts.
---
 timeboard/timeboard.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index 178dfaf..64c5650 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -200,6 +200,9 @@ class Timeboard(object):
 
         # create the frame and the timeline
         self._frame = _Frame(base_unit_freq=base_unit_freq, start=start, end=end)
+        if is_iterable(default_label):
+            # a label such as a tuple is not to be spread over workshifts
+            default_label = [default_label] * len(self._frame)
         self._timeline = _Timeline(frame=self._frame, organizer=org,
                                    workshift_ref=workshift_ref,
                                    data=default_label)
-- 
2.43.0


From bb2179e12471b641e37177709bb39c7e31ed087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 20/23] fix: take selector's verdicts on labels as they are

A selector may return anything having a truth value, i.e. the label itself.
pandas converted a collection of such verdicts to a common dtype, so that, for
example, empty strings among timestamps became NaT and counted as on duty.
Selectors which are not functions are still refused.
---
 timeboard/core.py      | 8 ++++++--
 timeboard/timeboard.py | 5 ++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index 8a849e3..5c702ac 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -1178,13 +1178,17 @@ class _Schedule(object):
     """
 
     def __init__(self, timeline, name, selector):
+        if not callable(selector):
+            raise ValueError("Expected a function as selector, received {!r}"
+                             .format(selector))
         self._timeline = timeline
         self._name = str(name)
         self._selector = selector
 
-        # `convert_dtype=False` prevents None from turning into truthy NaN
+        # pandas would convert verdicts which are not booleans: None becomes
+        # truthy NaN, an empty string found among timestamps becomes NaT
         on_duty_bool_index = np.array(
-            self._timeline.labels.apply(self._selector, convert_dtype=False),
+            [bool(self._selector(label)) for label in self._timeline.labels],
             dtype=bool)
         self._on_duty_index = nonzero(on_duty_bool_index)[0]
         self._off_duty_index = nonzero(~on_duty_bool_index)[0]
diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index 64c5650..693f7cf 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -366,9 +366,8 @@ class Timeboard(object):
         df = self._timeline.to_dataframe(first_ws, last_ws)
         for activity, schedule in self._schedules.items():
             # TODO: refactor to use already computed duty indexes from _Schedule
-            df[activity] = list(self._timeline.labels.iloc[
-                                first_ws:last_ws + 1].apply(
-                schedule._selector, convert_dtype=False).astype(bool))
+            df[activity] = [bool(schedule._selector(label)) for label in
+                            self._timeline.labels.iloc[first_ws:last_ws + 1]]
         return df
 
     def _locate(self, point_in_time, by_ref=None):
-- 
2.43.0


From 6c5ee9ff7c8e5db9b0a567c2411d598539ee2247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:53 +0000
Subject: [PATCH 21/23] fix: worktime of numpy booleans and of integers of a
 narrow numpy type

The sum of labels such as np.int8(100) or np.True_ overflowed at the size
of the type or was not a sum at all.
---
 timeboard/interval.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/timeboard/interval.py b/timeboard/interval.py
index ab4c128..3fe4ea3 100644
--- a/timeboard/interval.py
+++ b/timeboard/interval.py
@@ -6,6 +6,8 @@ from .exceptions import (OutOfBoundsError,
 from .workshift import Workshift
 from .core import _Frame, _Schedule,  VOID_TIME
 from numbers import Integral
+import numpy as np
+import pandas as pd
 
 
 class _BaseInterval(object):
@@ -881,8 +883,12 @@ class Interval(_BaseInterval):
         if duty_idx_bounds[0] is None or duty_idx_bounds[1] is None:
             return 0
         else:
-            return self._tb._timeline[duty_idx[duty_idx_bounds[0]:
-                                               duty_idx_bounds[1]+1]].sum()
+            labels = self._tb._timeline[duty_idx[duty_idx_bounds[0]:
+                                                 duty_idx_bounds[1]+1]]
+            # numpy integers would overflow at the size of their type and
+            # numpy booleans would not add up at all
+            return pd.Series([x.item() if isinstance(x, (np.integer, np.bool_))
+                              else x for x in labels], dtype=object).sum()
 
     def total_duration(self, duty='on', schedule=None):
         """Return the total duration of workshifts with the specified duty.
-- 
2.43.0


From c4ead54e2fdd19c3f65321aff6f1e5c25740a5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 22/23] fix: accept one-element layouts which cannot be indexed
 by 0

A set, a view of a dictionary, or a series indexed from another number is
an iterable, too. Of just one element, it raised TypeError or KeyError.
---
 timeboard/timeboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index 693f7cf..defedbb 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -174,7 +174,7 @@ class Timeboard(object):
             org = layout
         elif is_iterable(layout):
             if (hasattr(layout, '__len__') and len(layout) == 1 and
-                    isinstance(layout[0], Organizer)):
+                    isinstance(next(iter(layout)), Organizer)):
                 warnings.warn("Received 'layout' as an Organizer wrapped in "
                               "a list. Probably you do not want a list here.",
                               SyntaxWarning)
-- 
2.43.0


From 86469128571fab8e43908f0eb9b7b62f2dc238ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 23/23] fix: custom_amendments keyed by periods shorter than a
 day

Such a key was kept at its own start time, so that it collided with the
calendar's own amendment of the same day: KeyError was raised instead of
overriding the latter.
---
 timeboard/calendars/RU.py | 2 +-
 timeboard/calendars/UK.py | 2 +-
 timeboard/calendars/US.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/timeboard/calendars/RU.py b/timeboard/calendars/RU.py
index 67bd256..e756aaa 100644
--- a/timeboard/calendars/RU.py
+++ b/timeboard/calendars/RU.py
@@ -181,7 +181,7 @@ class Weekly8x5(CalendarBase):
         if custom_amendments is not None:
             freq = cls.parameters()['base_unit_freq']
             result.update(
-                {get_period(k, freq=freq).start_time: v
+                {get_period(k, freq=freq, freq_override=True).start_time: v
                  for k, v in custom_amendments.items()}
             )
 
diff --git a/timeboard/calendars/UK.py b/timeboard/calendars/UK.py
index 921534f..2a71f94 100644
--- a/timeboard/calendars/UK.py
+++ b/timeboard/calendars/UK.py
@@ -203,7 +203,7 @@ class Weekly8x5(CalendarBase):
         if custom_amendments is not None:
             freq = cls.parameters()['base_unit_freq']
             result.update(
-                {get_period(k, freq=freq).start_time: v
+                {get_period(k, freq=freq, freq_override=True).start_time: v
                  for k, v in custom_amendments.items()}
             )
 
diff --git a/timeboard/calendars/US.py b/timeboard/calendars/US.py
index 58d3361..17af0e6 100644
--- a/timeboard/calendars/US.py
+++ b/timeboard/calendars/US.py
@@ -163,7 +163,7 @@ class Weekly8x5(CalendarBase):
         if custom_amendments is not None:
             freq = cls.parameters()['base_unit_freq']
             result.update(
-                {get_period(k, freq=freq).start_time: v
+                {get_period(k, freq=freq, freq_override=True).start_time: v
                  for k, v in custom_amendments.items()}
             )
 
-- 
2.43.0

