"""Frequencies (frequency.py and the frequency part of trip.py)."""
from speclib import contract, lemma, scenario, classdecl, implies
from transitfeed import util
from transitfeed import errors
from spec_util import is_empty, time_to_seconds, format_seconds


@contract('transitfeed.frequency.Frequency.ValidateExactTimes', prop='C08',
          args='self: Frequency, problems: Reporter', modular='event',
          reads=['self.exact_times'], writes=['self.exact_times'])
def exact_times_check(self, problems):
    v = self.exact_times
    if is_empty(v):
        self.exact_times = 0
        return
    try:
        self.exact_times = int(v)
    except (ValueError, TypeError):
        problems.InvalidValue('exact_times', v)
        del self.exact_times
        return
    if self.exact_times != 0 and self.exact_times != 1:
        problems.InvalidValue('exact_times', self.exact_times)


@contract('transitfeed.frequency.Frequency.ValidateBeforeAdd', prop='C08',
          args='self: Frequency, problems: Reporter')
def frequency_before_add(self, problems):
    exact_times_check(self, problems)
    return True


@contract('transitfeed.frequency.Frequency.Validate', prop='C08',
          args='self: Frequency, problems: Opt[Reporter]')
def frequency_validate(self, problems):
    pass


@contract('transitfeed.frequency.Frequency.StartTime', prop='C08',
          args='self: Frequency')
def frequency_start(self):
    return self.start_time


@contract('transitfeed.frequency.Frequency.EndTime', prop='C08',
          args='self: Frequency')
def frequency_end(self):
    return self.end_time


@contract('transitfeed.frequency.Frequency.HeadwaySecs', prop='C08',
          args='self: Frequency')
def frequency_headway(self):
    return self.headway_secs


@contract('transitfeed.frequency.Frequency.ExactTimes', prop='C08',
          args='self: Frequency')
def frequency_exact(self):
    return self.exact_times


@contract('transitfeed.frequency.Frequency.TripId', prop='C08',
          args='self: Frequency')
def frequency_trip(self):
    return self.trip_id


@contract('transitfeed.frequency.Frequency.__init__', prop='C08',
          args='self: New[Frequency], field_dict: Opt[Dict[Str,Str]]',
          pools={'field_dict.key': ['trip_id', 'start_time', 'end_time',
                                    'headway_secs', 'exact_times']})
def frequency_init(self, field_dict):
    self._schedule = None
    if field_dict:
        self.__dict__.update(field_dict)


TIMES = [0, 1, -1, 3600, 7200, '08:00:00', '00:00:00', '25:00:00', 'x', '',
         ' ', None, '8:00:00', '08:60:00', '100:00:00']


def instant(v, name, problems):
    """Seconds since midnight of a time value; None when it is unusable."""
    if v is None or v == '':
        problems.MissingValue(name)
        return None
    if isinstance(v, basestring):
        try:
            return time_to_seconds(v)
        except errors.Error:
            problems.InvalidValue(name, v)
            return None
    if v < 0:
        problems.InvalidValue(name, v)
        return None
    return v


@contract('transitfeed.trip.Trip.AddFrequency', prop='C08',
          args='self: Trip, start_time: Union[None,Int,Str], '
               'end_time: Union[None,Int,Str], '
               'headway_secs: Union[None,Int,Str], exact_times: Opt[Int], '
               'problem_reporter: Reporter', modular='event',
          reads=['self._headways'], writes=['self._headways'],
          requires="headway_secs != ' '", cases=2000,
          pools={'start_time': TIMES, 'end_time': TIMES,
                 'headway_secs': [0, 1, -1, 600, '600', '0', '-5', 'x', '',
                                  None],
                 'exact_times': [0, 1, 2, -1, None]})
def add_frequency(self, start_time, end_time, headway_secs, exact_times,
                  problem_reporter):
    start = instant(start_time, 'start_time', problem_reporter)
    if start is None:
        return
    end = instant(end_time, 'end_time', problem_reporter)
    if end is None:
        return
    if headway_secs is None or headway_secs == '' or headway_secs == 0:
        problem_reporter.MissingValue('headway_secs')
        return
    try:
        headway = int(headway_secs)
    except ValueError:
        problem_reporter.InvalidValue('headway_secs', headway_secs)
        return
    if headway <= 0:
        problem_reporter.InvalidValue('headway_secs', headway)
        return
    if end <= start:
        problem_reporter.InvalidValue('end_time', end)
    exact = 0
    if exact_times is not None:
        exact = exact_times
    if exact != 0 and exact != 1:
        problem_reporter.InvalidValue('exact_times', exact)
    self._headways.append((start, end, headway, exact))


@contract('transitfeed.trip.Trip.AddFrequencyObject', prop='C08',
          args='self: Trip, frequency: Opt[Frequency], '
               'problem_reporter: Reporter', cases=1000, requires=[
                   'frequency is None or '
                   'not isinstance(frequency.exact_times, basestring)',
                   "frequency is None or frequency.headway_secs != ' '"])
def add_frequency_object(self, frequency, problem_reporter):
    if frequency is not None:
        add_frequency(self, frequency.start_time, frequency.end_time,
                      frequency.headway_secs, frequency.exact_times,
                      problem_reporter)


@contract('transitfeed.trip.Trip.AddHeadwayPeriodObject', prop='C08',
          args='self: Trip, headway_period: Opt[Frequency], '
               'problem_reporter: Reporter', cases=300, requires=[
                   'headway_period is None or '
                   'not isinstance(headway_period.exact_times, basestring)',
                   'headway_period is None or '
                   "headway_period.headway_secs != ' '"])
def add_headway_period_object(self, headway_period, problem_reporter):
    add_frequency_object(self, headway_period, problem_reporter)


@contract('transitfeed.trip.Trip.AddHeadwayPeriod', prop='C08',
          args='self: Trip, start_time: Union[None,Int,Str], '
               'end_time: Union[None,Int,Str], '
               'headway_secs: Union[None,Int,Str], '
               'problem_reporter: Reporter',
          requires="headway_secs != ' '",
          pools={'start_time': TIMES, 'end_time': TIMES,
                 'headway_secs': [0, 1, 600, '600', 'x', '', None]})
def add_headway_period(self, start_time, end_time, headway_secs,
                       problem_reporter):
    add_frequency(self, start_time, end_time, headway_secs, 0,
                  problem_reporter)


@contract('transitfeed.frequency.Frequency.AddToSchedule', prop='C08',
          args='self: Frequency, schedule: Opt[Schedule], '
               'problems: Reporter', cases=1000, requires=[
                   'not isinstance(self.exact_times, basestring)',
                   "self.headway_secs != ' '"])
def frequency_add_to_schedule(self, schedule, problems):
    if schedule is None:
        return
    self._schedule = schedule
    if self.trip_id not in schedule.trips:
        problems.InvalidValue('trip_id', self.trip_id)
        return
    add_frequency_object(schedule.trips[self.trip_id], self, problems)


@contract('transitfeed.trip.Trip.ClearFrequencies', prop='C08',
          args='self: Trip')
def clear_frequencies(self):
    self._headways = []


@contract('transitfeed.trip.Trip.GetFrequencyTuples', prop='C08',
          args='self: Trip')
def frequency_tuples(self):
    return self._headways


SECS = [0, 1, 600, 3600, 5400, 7200, 9000, 86400]


@contract('transitfeed.trip.Trip.GetFrequencyStartTimes', prop='C08',
          args='self: Trip', requires='all(h[2] > 0 for h in self._headways)',
          pools={'Trip._headways.item.0': SECS, 'Trip._headways.item.1': SECS,
                 'Trip._headways.item.2': [600, 1200, 1800, 3599, 3601],
                 'Trip._headways.item.3': [0, 1]},
          modular='uf', ret='List[Int]', reads=['self._headways'])
def frequency_start_times(self):
    starts = []
    for start, end, headway, exact in self._headways:
        t = start
        while t < end:
            starts.append(t)
            t = t + headway
    return starts


@contract('transitfeed.trip.Trip._HeadwayOutputTuple', prop='C08',
          args='self: Trip, headway: Tuple[Int,Int,Int,Int]')
def headway_tuple(self, headway):
    return (self.trip_id, format_seconds(headway[0]),
            format_seconds(headway[1]), str(headway[2]), str(headway[3]))


@contract('transitfeed.trip.Trip.GetFrequencyOutputTuples', prop='C08',
          args='self: Trip',
          pools={'Trip._headways.item.0': SECS, 'Trip._headways.item.1': SECS,
                 'Trip._headways.item.2': [600, 1200, 1800, 3599, 3601],
                 'Trip._headways.item.3': [0, 1]})
def frequency_rows(self):
    rows = []
    for h in self._headways:
        rows.append(headway_tuple(self, h))
    return rows


@contract('transitfeed.trip.Trip.ValidateFrequencies', prop='C08',
          args='self: Trip, problems: Reporter', cases=1500, modular='event',
          reads=['self._headways', 'self.trip_id'],
          pools={'Trip._headways.item.0': SECS, 'Trip._headways.item.1': SECS,
                 'Trip._headways.item.2': [600],
                 'Trip._headways.item.3': [0, 1]})
def validate_frequencies(self, problems):
    """One report for every pair of periods that share an instant."""
    n = len(self._headways)
    for i in range(0, n - 1):
        for j in range(i + 1, n):
            a = self._headways[i]
            b = self._headways[j]
            if a[0] < b[1] and b[0] < a[1]:
                problems.OtherProblem('overlap')


@contract('transitfeed.trip.Trip.GetFrequencyStopTimes', prop='C08',
          args='self: Trip, problems: Reporter', requires=[
              'len(self._stoptimes) > 0',
              'self._stoptimes[0].arrival_secs is not None',
              'all(h[2] > 0 for h in self._headways)'],
          bounded='random trips with up to four stop times and three periods',
          pools={'Trip._headways.item.0': SECS, 'Trip._headways.item.1': SECS,
                 'Trip._headways.item.2': [600, 1800],
                 'Trip._headways.item.3': [0, 1]})
def frequency_stop_times(self, problems):
    runs = []
    first = self._stoptimes[0].arrival_secs
    factory = self.GetGtfsFactory()
    for t in frequency_start_times(self):
        run = []
        for st in self._stoptimes:
            arr, dep = st.arrival_secs, st.departure_secs
            if arr is not None:
                arr = t + (arr - first)
            if dep is not None:
                dep = t + (dep - first)
            run.append(factory.StopTime(
                problems, st.stop, None, None, st.stop_headsign,
                st.pickup_type, st.drop_off_type, st.shape_dist_traveled,
                arr, dep, None, st.stop_sequence, st.timepoint))
        runs.append(run)
    return runs


@contract('transitfeed.trip.Trip.GetStopTimes', args='self: Trip, '
          'problems: Opt[Reporter]', modular='assumed', runtime=False,
          why='Trip.GetStopTimes (SQL) returns the stop times stored for the '
              'trip: proved over the SQL statements by stop_times (C28)')
def get_stop_times(self, problems=None):
    return list(self._stoptimes)
