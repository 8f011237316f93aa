#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that the wording is
edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": state or [],
                          "observe_at": observe,
                          "hook_needed": None}})

CORE = "timeboard/core.py"; TB = "timeboard/timeboard.py"
WS = "timeboard/workshift.py"; IV = "timeboard/interval.py"; WHEN = "timeboard/when.py"
CB = "timeboard/calendars/calendarbase.py"

prop("C01", "Workshifts tile the timeboard's extent exactly",
 "The workshifts of a timeboard, taken in order, cover every instant from the timeboard's start_time to its end_time exactly once: each workshift starts when the previous one has ended, consists of `duration` (at least one) whole consecutive base units, and the first/last bound is the bound of the base unit containing the requested start/end. "
 "Base units are the calendar periods of base_unit_freq counted from the one containing `start` (for a multiplied frequency, in steps of the multiplier). "
 "A timeboard whose end precedes its start is refused with VoidIntervalError.",
 ["inputs", "configurations"],
 "for every supported base unit frequency (with and without multiplier/anchor), every start/end anywhere inside a base unit, every layout and every workshift of the resulting timeboard",
 "tests look at a few D/H/W frames of about a dozen units with fixed bounds and a handful of layouts; the tiling must hold for any frequency, alignment, era, size and layout",
 [CORE, TB], [("_Frame", CORE), ("_Timeline.__organize / _wsband / _frameband", CORE), ("get_ws_start_time/end_time/duration", CORE)],
 ["Timeboard()", "Timeboard.start_time/end_time", "Workshift.start_time/end_time/duration"])

prop("C02", "A plain pattern labels base units cyclically from the start",
 "With an iterable layout every base unit is its own workshift and the n-th workshift is labelled with the (n mod k)-th element of the k-element pattern, whatever the type of labels. "
 "With an empty pattern every workshift keeps default_label, or a null label if none was given. "
 "Any iterable is accepted, including a RememberingPattern, which continues from where it stopped.",
 ["inputs", "configurations"],
 "for every pattern (length 0..longer than the frame, any label types), any frame, and any kind of iterable",
 "tests use two or three short numeric lists over 10-12 units",
 [TB, CORE], [("Timeboard.__init__ layout wrapping", TB), ("_skiperator / __apply_pattern", CORE)],
 ["Timeboard(layout=iterable)", "Workshift.label"])

prop("C03", "Organizer lays a structure over calendar periods with correct dangles",
 "An Organizer with a marker cuts the timeboard at the base units where calendar periods begin, maps the elements of `structure` onto consecutive spans in cycles, and handles each element by kind: a pattern labels base units cyclically restarting on each span, a single label turns the whole span into one compound workshift, a nested Organizer repeats the procedure inside the span, and an empty structure or pattern leaves default labels. "
 "If the first span begins in the middle of its calendar period, patterns are first run idly through the missing part, so that the labels are the same as if the period were complete. "
 "The rule holds recursively, at any depth of nesting, with dangles computed relative to each sub-span.",
 ["inputs", "configurations"],
 "for every base frequency and marker frequency admissible together (anchored weeks/quarters/years and multiplied frequencies included), every structure built of patterns, labels and organizers, and every alignment of the timeboard against the periods",
 "tests try W over D and a few nestings on one or two fixed fortnights; the arithmetic of dangles and cycles depends on the alignment of any period with any frame",
 [CORE], [("_Frame.partition_with_marker", CORE), ("_Timeline.__organize", CORE), ("__apply_pattern", CORE)],
 ["Timeboard(layout=Organizer)", "Workshift.start_time/duration/label"])

prop("C04", "Marker 'at' points are placed where the calendar rules say",
 "A Marker with `at` cuts a timeboard exactly on the base units containing the computed points - offsets from the start of each period, the n-th weekday of the m-th month (with shift), offsets from Western or Orthodox Easter, or points returned by a user-supplied function - and a point that falls outside the period it was sought in is ignored. "
 "The first span's pattern is run idly from the latest mark preceding the timeboard. "
 "If no such mark is known, a pattern cannot be applied to the first span and OutOfBoundsError is raised, while a single label can.",
 ["inputs", "configurations"],
 "for every `each` frequency, every `how`, every combination and order of at-entries, every base unit and every position of the frame, across years, leap years and both Easters",
 "tests fix a few years and dates per rule; calendars are irregular and an error shows only for specific months, weekdays, years or alignments",
 [WHEN, CORE], [("from_start_of_each / nth_weekday_of_month / from_easter", WHEN), ("_Frame.partition_with_marker", CORE)],
 ["Marker()", "Timeboard(layout=Organizer(marker=Marker(at=...)))"])

prop("C05", "Explicit marks cut exactly at the base units they fall in",
 "An Organizer with `marks` starts a new span at every base unit, other than the first one of its span, that contains at least one of the given points in time, and nowhere else. "
 "The order and duplication of marks, the position of a mark inside its base unit and marks outside the timeboard do not matter. "
 "Patterns restart on every span without idle runs.",
 ["inputs"],
 "for every list of marks (unsorted, duplicate, out of range, on unit boundaries and one nanosecond off them), every frame and every structure",
 "tests use sorted day-aligned marks in the middle of a frame",
 [CORE], [("partition_at_marks / _locate_subspans / get_loc_vectorized", CORE)],
 ["Organizer(marks=...)", "Workshift.start_time/duration/label"])

prop("C06", "RememberingPattern never breaks its sequence",
 "The labels handed out by a RememberingPattern, over all spans, organizers and timeboards that use it and in the order of use, follow its cycle without a break: each use continues where the previous one stopped, nothing is repeated or lost. "
 "This is so both when it is an element of a structure (one label per base unit) and when it is the entire structure (one element per span). "
 "Different RememberingPattern objects do not influence each other, and querying timeboards does not advance any of them.",
 ["histories", "inputs"],
 "for every history of constructing and querying timeboards that share one or more RememberingPatterns, interleaved with ordinary patterns and direct next() calls",
 "tests apply one pattern within one timeboard; continuity is a property of the whole history of uses",
 [CORE], [("RememberingPattern.__next__", CORE), ("_skiperator", CORE), ("zip(span_seq, structure_iterator)", CORE)],
 ["RememberingPattern()", "Timeboard()", "Workshift.label"],
 [{"name": "label generator", "meaning": "position in the cycle", "where": CORE}])

prop("C07", "Amendments override exactly the workshifts they refer to",
 "After the layout is applied, the label of each workshift containing an amendment key becomes the amendment's value, and no other label, workshift boundary or duration changes. "
 "Keys outside the timeboard are ignored. "
 "Two keys referring to the same workshift raise KeyError regardless of their values or order.",
 ["inputs"],
 "for every layout (compound workshifts included) and every dictionary of amendments with keys of any Timestamp-like type anywhere in a workshift, at its boundaries, or outside the timeboard",
 "tests amend two or three days of one timeboard with day-aligned keys",
 [CORE, TB], [("_Timeline.amend", CORE), ("get_ws_position", CORE)],
 ["Timeboard(amendments=...)", "Workshift.label"])

prop("C08", "Duty status is the selector's verdict, and schedules are isolated",
 "A workshift is on duty under a schedule if and only if the truth value of the schedule's selector applied to the workshift's label is true, and off duty otherwise; the default selector is truthiness of the label. "
 "The schedule given to a call takes precedence over the one attached to the workshift or interval, which takes precedence over the timeboard's default one, and results carry the schedule that was used. "
 "The positions listed in a schedule's index, on_duty_index and off_duty_index agree with it. "
 "Adding or dropping a schedule changes nothing under other schedules, and a taken name is refused with KeyError.",
 ["inputs", "histories"],
 "for every set of labels and selectors, every sequence of adding/dropping schedules, and every method that takes a schedule",
 "tests use one or two selectors on one timeboard; precedence has to hold for every method, position and history",
 [CORE, TB, WS, IV], [("_Schedule", CORE), ("Timeboard.add_schedule/drop_schedule", TB), ("`if schedule is None` defaults", WS)],
 ["Workshift.is_on_duty/is_off_duty", "Timeboard.add_schedule/drop_schedule/schedules", "Workshift.schedule", "Interval.schedule"])

prop("C09", "A point in time locates the workshift that contains it",
 "For any point in time within the timeboard, get_workshift (and calling the timeboard with that point) returns the workshift whose start_time and end_time enclose it, for any Timestamp-like argument. "
 "Points outside raise OutOfBoundsError, as does constructing a workshift with a position outside the timeboard. "
 "Constructing by position and locating by any instant of that workshift give the same workshift, whose to_timestamp() is its start or end time according to workshift_ref.",
 ["inputs", "configurations"],
 "for every timeboard (uniform and compound workshifts) and every instant, in particular boundaries of workshifts and of the timeboard to the nanosecond",
 "tests probe mid-day points of a dozen days; a lookup error shows only at specific boundaries and layouts",
 [TB, CORE, WS], [("Timeboard._locate", TB), ("_Frame.get_loc / _Timeline.get_ws_position", CORE)],
 ["Timeboard.get_workshift", "Timeboard()", "Workshift()", "Workshift.to_timestamp"])

prop("C10", "rollforward, rollback, + and - step exactly by duty",
 "rollforward(n, duty) returns the workshift n places after the zero step in the sequence of workshifts of that duty, where the zero step is the workshift itself if it qualifies or else the nearest qualifying one in the future; rollback is its mirror image toward the past, and n may be negative. "
 "ws + n and ws - n are rollforward(n) and rollback(n) with duty 'on'. "
 "If the zero step or the destination does not exist within the timeboard OutOfBoundsError is raised.",
 ["inputs"],
 "for every timeboard, starting workshift, number of steps of either sign, all five duties and every schedule",
 "tests roll a few steps over one alternating pattern; off-by-one and sign errors hide in other densities, edges, and schedules",
 [WS], [("Workshift.rollforward/rollback/_get_duty_index", WS)],
 ["Workshift.rollforward", "Workshift.rollback", "Workshift.__add__/__sub__"])

prop("C11", "An interval from two points in time has exactly those bounds",
 "get_interval with a pair of points returns the interval from the workshift containing the first to the workshift containing the second, null meaning the respective end of the timeboard, and with no reference the whole timeboard; `closed` strips exactly the ends it marks with 0. "
 "Reversed bounds or an interval emptied by `closed` raise VoidIntervalError. "
 "A bound outside the timeboard raises PartialOutOfBoundsError, or OutOfBoundsError if the interval lies completely outside.",
 ["inputs"],
 "for every timeboard, every pair of points of any Timestamp-like type in any relation to the timeboard, and all four values of closed",
 "tests fix a few pairs of days on one timeboard",
 [TB, IV], [("_get_interval_locs_from_reference / _strip_interval_locs / _locations_in_order", TB)],
 ["Timeboard.get_interval", "Timeboard()", "Interval()"])

prop("C12", "An interval by length has exactly that many workshifts",
 "get_interval(t, length=n) returns n consecutive workshifts beginning with the one containing t, or |n| workshifts ending with it if n is negative, less the ends stripped by `closed`. "
 "Zero length, or a length exhausted by `closed`, raises VoidIntervalError. "
 "An interval that would leave the timeboard is refused with PartialOutOfBoundsError (OutOfBoundsError if t itself is outside) and never shortened.",
 ["inputs"],
 "for every timeboard, point, length of either sign and value of closed",
 "tests try a few lengths on one timeboard",
 [TB], [("_get_interval_locs_by_length", TB)], ["Timeboard.get_interval(length=)"])

prop("C13", "An interval by calendar period contains the period's workshifts",
 "get_interval with a period (a point and a frequency, or a Period object) returns exactly the workshifts whose reference time - start or end by workshift_ref - lies in that calendar period, less the ends stripped by `closed`. "
 "A period extending beyond the timeboard is clipped if clip_period is true, `closed` being ignored at the clipped ends, and refused with an out-of-bounds error otherwise; a period completely outside is always refused with OutOfBoundsError. "
 "A period inside the timeboard that contains no reference time raises VoidIntervalError.",
 ["inputs", "configurations"],
 "for every timeboard (with workshifts shorter and longer than the period, aligned or straddling), every period frequency and position, both values of workshift_ref and of clip_period, all values of closed",
 "tests take whole weeks and months of daily timeboards plus one compound timeboard",
 [TB, CORE], [("_get_interval_locs_by_period", TB), ("get_ws_pos_by_ref_after/before", CORE)],
 ["Timeboard.get_interval(period=)", "Timeboard.get_interval(Period)"])

prop("C14", "count, nth, first, last, workshifts and iteration agree",
 "For every duty and schedule, workshifts() yields in order exactly the workshifts of the interval having that duty, count() is their number, nth(n) is the n-th of them (from the end if n is negative) or OutOfBoundsError if there is none, and first/last are its ends; len() and length count all workshifts. "
 "on and off partition any. "
 "Iterating over the interval yields all its workshifts in order, independently in each of any number of simultaneous or nested iterations.",
 ["inputs", "histories"],
 "for every interval of every timeboard, duty, schedule and n, and any interleaving of iterations",
 "tests check one or two intervals with one pattern and never iterate an interval twice at a time",
 [IV], [("Interval._get_duty_idx/_find_my_bounds_in_idx/workshifts/nth/count/__iter__", IV)],
 ["Interval.workshifts/nth/first/last/count/length/__len__/__iter__"])

prop("C15", "overlap is set intersection and void intervals behave as empty",
 "The overlap (also `*`) of two intervals contains exactly the workshifts belonging to both and carries the requested schedule, or the first operand's one. "
 "If there are none, the result is a void interval: length and counts are 0, iteration yields nothing, start_time and end_time are null, worktime, total_duration, count_periods and what_portion_of give 0, nth/first/last raise OutOfBoundsError, and its overlap with anything is void. "
 "Overlapping is commutative and associative as far as the contents is concerned and idempotent.",
 ["inputs"],
 "for every pair and triple of intervals in any mutual position, including single workshifts, adjacency and containment",
 "tests check four fixed configurations",
 [IV], [("Interval.overlap", IV), ("_VoidInterval", IV)], ["Interval.overlap", "Interval.__mul__"])

prop("C16", "Work time and total duration are additive over workshifts",
 "total_duration(duty) is the sum of durations of the interval's workshifts of that duty, and worktime(duty) is the sum of their work times: durations, or labels if worktime_source is 'labels'. "
 "A workshift's worktime is its duration or label if it has the requested duty and 0 otherwise. "
 "Hence on plus off equals any, and the values of adjacent intervals add up to that of their union.",
 ["inputs", "configurations"],
 "for every interval, duty, schedule, worktime_source and numeric labelling, over simple and compound workshifts",
 "tests sum one short interval",
 [IV, WS, CORE], [("Interval.worktime/total_duration/_sum_labels", IV), ("get_durations_for_ws_array", CORE), ("Workshift.worktime", WS)],
 ["Interval.worktime/total_duration", "Workshift.worktime"])

prop("C17", "what_portion_of is the exact ratio of common workshifts",
 "x.what_portion_of(y, duty) (also x / y) equals the number of workshifts of that duty common to x and y divided by the number of such workshifts in y, and is 0 if there are none in common. "
 "It lies between 0 and 1, and equals 1 exactly if x covers all of y's workshifts of that duty. "
 "Duty is judged by the given schedule, else by the one of x, never by that of y.",
 ["inputs"], "for every pair of intervals, duty and schedule",
 "tests compute a few fixed portions",
 [IV], [("Interval.what_portion_of", IV)], ["Interval.what_portion_of", "Interval.__truediv__"])

prop("C18", "count_periods sums exact fractions of calendar periods",
 "count_periods(freq, duty) equals the sum, over calendar periods, of the number of the interval's workshifts of that duty belonging to the period (by reference time) divided by the number of all timeboard's workshifts of that duty belonging to it, and is 0.0 if the interval has no such workshifts. "
 "If the period of the first or the last of these workshifts extends beyond the timeboard an out-of-bounds error is raised rather than a guess. "
 "Unsupported frequencies, or periods containing no workshift at all amid the counted ones, raise UnacceptablePeriodError.",
 ["inputs", "configurations"],
 "for every interval of every timeboard, every supported frequency, duty, schedule and workshift_ref",
 "tests count a few months/days on two timeboards",
 [IV], [("Interval.count_periods", IV)], ["Interval.count_periods"])

prop("C19", "Dataframes and printed forms agree with the objects they show",
 "to_dataframe of a timeboard, or of an interval, has one row per workshift in order with its position, reference time, start, end, duration and label as reported by the workshift itself, and one column per schedule with the workshift's duty status under it. "
 "Partial dataframes (first_ws, last_ws) equal the corresponding rows of the full one. "
 "The printed forms of timeboards, workshifts and intervals name their true bounds, positions, sizes and non-default schedule.",
 ["inputs", "histories"],
 "for every timeboard, every sub-range, every set of schedules at the time of the call and both values of workshift_ref",
 "tests check the shape of one dataframe",
 [TB, CORE, IV, WS], [("Timeboard.to_dataframe / _Timeline.to_dataframe", TB), ("compact_str", IV)],
 ["Timeboard.to_dataframe", "Interval.to_dataframe", "str()/repr()"])

prop("C20", "Queries are pure and construction leaves the caller's data alone",
 "Any query gives the same result whenever it is asked, regardless of what has been asked before, of other timeboards, or of generators left half-consumed. "
 "Building a timeboard or a calendar does not modify the caller's layout, marks, amendments, at-lists or option sets, and modifying them afterwards does not alter the timeboard. "
 "Two timeboards built from equal arguments (without a RememberingPattern) are equal workshift by workshift, even if they share one Organizer.",
 ["histories", "inputs"],
 "for every history of queries, schedule additions/removals and constructions interleaved with it",
 "tests ask each question once on a fresh object",
 [TB, CORE, IV, WS, CB, "timeboard/calendars/US.py", "timeboard/calendars/UK.py"],
 [("no caching in queries; cycle()/copies in construction", CORE), ("set(do_not_observe), dict comprehensions", "timeboard/calendars/UK.py")],
 ["all public queries", "arguments of Timeboard(), Organizer(), Marker(), calendars"])

prop("C21", "US calendar: day-exact federal business days 2000-2020",
 "Every day of the US Weekly8x5 calendar has 0 hours if it is a Saturday, a Sunday, a federal holiday or Black Friday of its year, or the weekday on which a holiday falling on Saturday (the Friday before) or on Sunday (the Monday after) is observed; all other days have 8 hours. "
 "Switching off long_weekends or putting a holiday into do_not_observe changes exactly the days due to it. "
 "Irregular closings (26 Dec 2014, 24 Dec 2018, 5 Dec 2018) are days off unless excluded.",
 ["configurations", "inputs"],
 "for every day of the calendar's range, every subset of do_not_observe and both values of long_weekends, for the full range and for any shorter one",
 "tests look at the holidays of one or two years",
 ["timeboard/calendars/US.py", CB], [("fed_holidays", "timeboard/calendars/US.py"), ("extend_weekends/nth_weekday_of_month", CB)],
 ["US.Weekly8x5()", "Workshift.label/is_on_duty"])

prop("C22", "UK calendars: day-exact bank holidays 2000-2020 for each country",
 "Every day of the UK Weekly8x5 calendar for England, Scotland or Northern Ireland has 0 hours if it is a Saturday, a Sunday, a bank holiday of that country, or the weekday substituting for a fixed-date holiday that falls on a weekend (the next weekday that is not a fixed-date holiday or its substitute already); all other days have 8 hours. "
 "The moved and additional holidays (jubilees of 2002 and 2012, the royal wedding of 2011, VE Day of 2020) are honoured. "
 "Switching off long_weekends or putting a holiday into do_not_observe changes exactly the days due to it.",
 ["configurations", "inputs"],
 "for every day of the range, every country, every subset of do_not_observe and both values of long_weekends",
 "tests look at one year per country",
 ["timeboard/calendars/UK.py", CB], [("bank_holidays", "timeboard/calendars/UK.py"), ("from_easter/extend_weekends", CB)],
 ["UK.Weekly8x5()", "Workshift.label/is_on_duty"])

prop("C23", "Russian calendar: every day as in the official production calendar",
 "Every day of the RU Weekly8x5 calendar from 2005 through 2021 has the working hours of the official production calendar: 8 on working days (including the moved ones), 7 on the shortened pre-holiday days, 0 on weekends, holidays and days off moved to weekdays. "
 "short_eves=False makes exactly the 7-hour days 8-hour ones. "
 "work_on_dec31=False makes every 31 December, and nothing else, a day off.",
 ["configurations", "inputs"],
 "for every day of the range, both values of each option, for the full range and for any shorter one",
 "tests check yearly totals of some years and a few dates; errors that cancel out in totals or hit other years are missed",
 ["timeboard/calendars/RU.py"], [("holidays / changes", "timeboard/calendars/RU.py")],
 ["RU.Weekly8x5()", "Workshift.label"])

prop("C24", "Preconfigured calendars honour range and amendment options",
 "A calendar with custom bounds covers exactly the days from custom_start to custom_end and agrees, day by day, with the full calendar; bounds outside the supported range raise OutOfBoundsError. "
 "custom_amendments override the calendar's own ones for the days they refer to and nothing else; only_custom_amendments leaves only them, and do_not_amend leaves the bare weekly layout, taking precedence over the former. "
 "The same holds for user calendars derived from CalendarBase. "
 "The dictionaries shown by parameters() and amendments() are those the calendar is built from, and belong to the caller: changing them affects no calendar built before or later.",
 ["configurations", "inputs"],
 "for every preconfigured and derived calendar, every range, every dictionary of custom amendments (keys of any type, anywhere in the day) and all combinations of flags",
 "tests try one range and one dictionary per country",
 [CB, "timeboard/calendars/US.py", "timeboard/calendars/UK.py", "timeboard/calendars/RU.py"],
 [("CalendarBase.__new__/_get_bounds", CB), ("Weekly8x5.amendments", "timeboard/calendars/US.py")],
 ["RU/US/UK.Weekly8x5()", "CalendarBase subclasses"])

prop("C25", "Holiday helper functions compute correct dates for every year",
 "The helpers for building amendments return, for every year, exactly the requested dates with the requested label: the n-th (or n-th from the end) weekday of a month plus a shift, or nothing (OutOfBoundsError with errors='raise') if there is no such day; and the given distances from Western or Orthodox Easter. "
 "extend_weekends keeps every given day and adds, for each one falling on a weekend day in chronological order, the first free day beyond the weekend in the required direction (previous, next, nearest with ties forward), for any weekend of consecutive weekdays. "
 "The labels of added days are the given label or that of the holiday.",
 ["inputs"],
 "for every year, month, weekday, n, shift, set of holidays, direction and definition of weekend",
 "tests check a few dates; correctness depends on the calendar of each year and on collisions of holidays",
 [CB], [("nth_weekday_of_month / extend_weekends / from_easter", CB)],
 ["timeboard.calendars.calendarbase functions"])

prop("C26", "Only unambiguous partitioning periods are accepted",
 "Partitioning a timeboard by a calendar period is accepted if every base unit is bound to lie within a single such period for any extent of the timeboard, as with seconds in minutes, hours in days, days in weeks, months, quarters or years, months in quarters or years, and for proper multiples of the same frequency. "
 "A period for which a base unit may straddle a boundary (such as weeks by months, a longer unit by a shorter one, or a multiple by a non-multiple) is refused with UnacceptablePeriodError. "
 "Whenever a marker is accepted no workshift of the span structure contains an interior boundary of the period.",
 ["configurations"],
 "for every ordered pair of base unit frequency and marker frequency out of S, T, H, D, W (any anchor), M, Q and A, with and without multipliers",
 "tests check about twenty pairs",
 [CORE], [("_check_groupby_freq", CORE)], ["Timeboard(layout=Organizer(marker=...))"])

prop("C27", "Invalid requests are refused with the documented errors",
 "Invalid arguments raise the documented type of error and never produce an object: both or neither of marker and marks, a non-iterable structure or layout, non-mapping amendments, unknown worktime_source, `closed` or duty, length given together with period, non-integer length, schedules of a wrong type, reversed or out-of-range bounds of an interval, or an unsupported base frequency. "
 "A refused operation leaves every existing timeboard and schedule as it was. "
 "Valid requests of the same shape are not refused.",
 ["inputs", "histories"],
 "for every kind of invalid argument combined with any otherwise valid configuration, at any point of a history",
 "tests check some of the errors on one object and never look at the state after a refusal",
 [TB, CORE, IV, WS], [("argument checks", TB)], ["all public constructors and methods"])

prop("C28", "repr of layouts and timeboards re-creates an equal layout",
 "Executing the text of repr() of a Marker, an Organizer (with any nesting and sharing) or a timeboard without amendments yields an object that lays out any timeboard in the same way as the original. "
 "An organizer or RememberingPattern shared by several parents remains shared in the re-created object. "
 "Taking repr has no effect on the layouts built afterwards.",
 ["inputs"],
 "for every marker, nested organizer and pattern whose labels have evaluable representations",
 "tests compare a few fixed strings",
 [CORE, TB], [("Organizer._repr_builder / Marker.__repr__", CORE), ("Timeboard._repr", TB)],
 ["repr()"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
