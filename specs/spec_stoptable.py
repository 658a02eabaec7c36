"""The stop times of trips as kept in the stop_times table (trip.py, stop.py).

The table of a schedule is the ghost field `_db_rows`, a row per INSERT in
order of insertion, with the columns of StopTime._SQL_FIELD_NAMES.
"""
from speclib import contract, lemma, scenario, classdecl, implies
import transitfeed
from transitfeed import problems as problems_module
from spec_util import format_seconds
from spec_stoptime import stoptime_secs, stoptime_row, stoptime_sql

GHOST = ['transitfeed.trip.Trip.GetStopTimes',
         'transitfeed.trip.Trip.GetCountStopTimes']
KNOWN = 'all(r[3] in self._schedule.stops for r in self._schedule._db_rows)'
HAS = 'self._schedule is not None'
NUMBERED = ['hasattr(stoptime, "stop_sequence")']


def rows_of(schedule, trip_id):
    return [r for r in schedule._db_rows
            if r[0] is not None and trip_id is not None and r[0] == trip_id]


def in_sequence(schedule, trip_id):
    return sorted(rows_of(schedule, trip_id), key=lambda r: r[4])


def as_stop_time(schedule, row, problems):
    return transitfeed.StopTime(
        problems, schedule.stops[row[3]], arrival_secs=row[1],
        departure_secs=row[2], stop_headsign=row[5], pickup_type=row[6],
        drop_off_type=row[7], shape_dist_traveled=row[8],
        stop_sequence=row[4], timepoint=row[9])


@contract('transitfeed.trip.Trip.GetCountStopTimes', prop='C28,C16',
          args='self: Trip', requires=[HAS])
def count_rows(self):
    return len(rows_of(self._schedule, self.trip_id))


@contract('transitfeed.trip.Trip.ClearStopTimes', prop='C28',
          args='self: Trip', requires=[HAS])
def clear_rows(self):
    """Only the rows of this trip go, the others keep their order."""
    s = self._schedule
    s._db_rows = [r for r in s._db_rows if not (
        r[0] is not None and self.trip_id is not None and
        r[0] == self.trip_id)]


@contract('transitfeed.trip.Trip.GetStopTimes', prop='C28',
          args='self: Trip, problems: Opt[Reporter]',
          requires=[HAS, KNOWN])
def stop_times(self, problems=None):
    """One StopTime per row of the trip, in stop_sequence order."""
    if problems is None:
        problems = problems_module.default_problem_reporter
    out = []
    for row in in_sequence(self._schedule, self.trip_id):
        out.append(as_stop_time(self._schedule, row, problems))
    return out


@contract('transitfeed.trip.Trip.GetTimeStops', prop='C28',
          args='self: Trip', requires=[HAS, KNOWN], inline=GHOST)
def time_stops(self):
    return [(st.arrival_secs, st.departure_secs, st.stop)
            for st in stop_times(self)]


@contract('transitfeed.trip.Trip.GetPattern', prop='C28',
          args='self: Trip', requires=[HAS, KNOWN], inline=GHOST)
def pattern(self):
    return tuple([st.stop for st in stop_times(self)])


def first_given(a, b):
    return a if a is not None else b


@contract('transitfeed.trip.Trip.GetStartTime', prop='C28,C15',
          args='self: Trip, problems: Reporter', requires=[HAS],
          modular='event', ret='Opt[Int]', raises='TypeError',
          reads=['self.trip_id', 'self._schedule', 'Schedule._db_rows'])
def start_time(self, problems):
    """The effective time of the first stop time."""
    rows = in_sequence(self._schedule, self.trip_id)
    if len(rows) == 0:
        raise TypeError
    t = first_given(rows[0][1], rows[0][2])
    if t is None:
        problems.InvalidValue('departure_time', '')
    return t


@contract('transitfeed.trip.Trip.GetEndTime', prop='C28,C15',
          args='self: Trip, problems: Reporter', requires=[HAS],
          modular='event', ret='Opt[Int]', raises='TypeError',
          reads=['self.trip_id', 'self._schedule', 'Schedule._db_rows'])
def end_time(self, problems):
    """The departure, or arrival, of the last stop time."""
    s = self._schedule
    rows = sorted(rows_of(s, self.trip_id), key=lambda r: r[4], reverse=True)
    if len(rows) == 0:
        raise TypeError
    t = first_given(rows[0][2], rows[0][1])
    if t is None:
        problems.InvalidValue('arrival_time', '')
    return t


def insert_row(trip, st, schedule):
    schedule._db_rows.append(stoptime_sql(st, trip.trip_id))


@contract('transitfeed.trip.Trip._AddStopTimeObjectUnordered', prop='C28',
          args='self: Trip, stoptime: StopTime, schedule: Schedule',
          requires=NUMBERED)
def add_unordered(self, stoptime, schedule):
    insert_row(self, stoptime, schedule)


@contract('transitfeed.trip.Trip.ReplaceStopTimeObject', prop='C28',
          args='self: Trip, stoptime: StopTime, schedule: Opt[Schedule]',
          requires=[HAS] + NUMBERED)
def replace_row(self, stoptime, schedule):
    if schedule is None:
        schedule = self._schedule
    stop_id = stoptime.stop_id
    number = stoptime.stop_sequence
    rest = [r for r in schedule._db_rows if not (
        r[0] is not None and self.trip_id is not None and
        r[0] == self.trip_id and
        r[4] is not None and r[4] == number and
        r[3] is not None and stop_id is not None and r[3] == stop_id)]
    before = len(schedule._db_rows)
    schedule._db_rows = rest
    if len(rest) == before:
        raise problems_module.Error
    insert_row(self, stoptime, schedule)


def highest(schedule, trip_id, column):
    best = None
    for r in schedule._db_rows:
        if r[0] is not None and trip_id is not None and r[0] == trip_id:
            if r[column] is not None and (best is None or r[column] > best):
                best = r[column]
    return best


@contract('transitfeed.trip.Trip.AddStopTimeObject', prop='C28',
          args='self: Trip, stoptime: StopTime, schedule: Opt[Schedule], '
               'problems: Opt[Reporter]',
          requires=[HAS, 'stoptime.GetTimeSecs() is None or '
                    'stoptime.GetTimeSecs() >= 0', 'all((r[1] is None or '
                    'r[1] >= 0) and (r[2] is None or r[2] >= 0) for r in '
                    'self._schedule._db_rows)', 'schedule is None'],
          cases=1000, budget=300)
def append_row(self, stoptime, schedule, problems):
    """Becomes the last stop time of the trip."""
    schedule = self._schedule
    if problems is None:
        problems = schedule.problem_reporter
    now = stoptime_secs(stoptime)
    number = highest(schedule, self.trip_id, 4)
    arrival = highest(schedule, self.trip_id, 1)
    departure = highest(schedule, self.trip_id, 2)
    if number is None:
        stoptime.stop_sequence = 1
        if now is None:
            problems.OtherProblem('no time')
    else:
        stoptime.stop_sequence = number + 1
        before = max(arrival, departure)
        if now is not None and before is not None and now < before:
            problems.OtherProblem('out of order')
    insert_row(self, stoptime, schedule)


@contract('transitfeed.trip.Trip.GetStopTimesTuples', prop='C28,C19',
          args='self: Trip',
          requires=['all(hasattr(st, "stop_sequence") for st in '
                    'self._stoptimes)'])
def stop_time_tuples(self):
    """A row of stop_times.txt per stop time."""
    rows = []
    for st in self._stoptimes:
        rows.append(stoptime_row(st, self.trip_id))
    out = []
    for row in rows:
        out.append(row)
    return out


@contract('transitfeed.stop.Stop._GetTripSequence', prop='C28',
          args='self: Stop, schedule: Opt[Schedule]',
          requires=['self._schedule is not None', 'schedule is None',
                    '"stop_id" in vars(self)', 'all(r[0] in '
                    'self._schedule.trips for r in self._schedule._db_rows)'],
          invariants=['all(r[0] in schedule.trips for r in sel)'])
def trip_sequence(self, schedule):
    schedule = self._schedule
    sel = []
    for r in schedule._db_rows:
        if r[3] is not None and self.stop_id is not None and \
                r[3] == self.stop_id:
            sel.append(r)
    return [(schedule.trips[r[0]], r[4]) for r in sel]


@contract('transitfeed.trip.Trip.ValidateNoDuplicateStopSequences',
          prop='C28', args='self: Trip, problems: Reporter', requires=[HAS],
          modular='event', reads=['self.trip_id', 'self._schedule',
                                  'Schedule._db_rows'], budget=200)
def duplicate_sequences(self, problems):
    """Each sequence number that several stop times of the trip share."""
    numbers = [r[4] for r in self._schedule._db_rows
               if r[0] is not None and self.trip_id is not None and
               r[0] == self.trip_id and r[4] is not None]
    twice = []
    numbers = sorted(numbers)
    n = 0
    for i in range(len(numbers)):
        n += 1
        if i + 1 == len(numbers) or numbers[i + 1] != numbers[i]:
            if n > 1:
                twice.append((n, numbers[i]))
            n = 0
    for n, v in twice:
        problems.InvalidValue('stop_sequence', v)
