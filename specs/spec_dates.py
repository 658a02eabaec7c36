"""Dates of a schedule: range, activity, gaps and expiry (schedule.py)."""
import collections
import datetime
import time
from speclib import contract, lemma, scenario, classdecl, implies
from transitfeed import errors
from transitfeed import util
from spec_service import get_date_range, has_date_exception_on, has_exceptions
from spec_service import is_active_on
from spec_frequency import frequency_start_times
WARN = errors.TYPE_WARNING

DATES = ['20090101', '20090105', '20090110', '20090120', '20081225', '', None]


@contract('transitfeed.schedule.Schedule.GetDateRangeWithOrigins', prop='C16',
          args='self: Schedule', modular='uf',
          ret='Tuple[Opt[Str],Opt[Str],Opt[Str],Opt[Str]]',
          reads=['self.service_periods', 'self.feed_info',
                 'ServicePeriod.start_date', 'ServicePeriod.end_date',
                 'ServicePeriod.date_exceptions', 'FeedInfo.feed_start_date',
                 'FeedInfo.feed_end_date'], invariants=[
              'all(0 <= x[1] and x[1] < len(periods) for x in first)',
              'all(0 <= x[1] and x[1] < len(periods) for x in last)'],
          cases=2000)
def date_range_with_origins(self):
    """Earliest and latest date of any service, or those of feed_info."""
    periods = list(self.service_periods.values())
    spans = [get_date_range(p) for p in periods]
    first, last = [], []
    for i in range(len(spans)):
        if spans[i][0]:
            first.append((spans[i][0], i))
    for i in range(len(spans)):
        if spans[i][1]:
            last.append((spans[i][1], i))
    if not first or not last:
        return (None, None, None, None)
    lo, i = min(first)
    hi, j = max(last)
    lo_from = 'earliest service date in calendar.txt'
    hi_from = 'last service date in calendar.txt'
    if has_date_exception_on(periods[i], lo, 1):
        lo_from = 'earliest service exception date in calendar_dates.txt'
    if has_date_exception_on(periods[j], hi, 1):
        hi_from = 'last service exception date in calendar_dates.txt'
    if self.feed_info is not None:
        if self.feed_info.feed_start_date:
            lo = self.feed_info.feed_start_date
            lo_from = 'feed_start_date in feed_info.txt'
        if self.feed_info.feed_end_date:
            hi = self.feed_info.feed_end_date
            hi_from = 'feed_end_date in feed_info.txt'
    return (lo, hi, lo_from, hi_from)


@contract('transitfeed.schedule.Schedule.GetDateRange', prop='C16',
          args='self: Schedule', cases=500)
def date_range(self):
    r = date_range_with_origins(self)
    return (r[0], r[1])


WEEKS = 'all(len(p.day_of_week) == 7 for p in self.service_periods.values())'


@contract('transitfeed.schedule.Schedule.GetServicePeriodsActiveEachDate',
          prop='C16', args='self: Schedule, date_start: Date, date_end: Date',
          requires=[WEEKS], modular='uf',
          ret='List[Tuple[Date,List[ServicePeriod]]]',
          reads=['self.service_periods', 'ServicePeriod.start_date',
                 'ServicePeriod.end_date', 'ServicePeriod.date_exceptions',
                 'ServicePeriod.day_of_week'],
          pools={'date_start': [733408, 733415, 733420],
                 'date_end': [733408, 733425, 733440]})
def active_each_date(self, date_start, date_end):
    out = []
    day = date_start
    while day < date_end:
        text = day.strftime('%Y%m%d')
        active = []
        for p in self.service_periods.values():
            if is_active_on(p, text, day):
                active.append(p)
        out.append((day, active))
        day = day + datetime.timedelta(days=1)
    return out


@contract('transitfeed.trip.Trip.GetCountStopTimes', args='self: Trip',
          modular='assumed', runtime=False,
          why='Trip.GetCountStopTimes (SQL) counts the stop times stored for '
              'the trip; checked by the bounded C28 scenario')
def count_stop_times(self):
    return len(self._stoptimes)


HEADWAYS = 'all(all(h[2] > 0 for h in t._headways) ' \
    'for t in self.trips.values())'


@contract('transitfeed.schedule.Schedule.GenerateDateTripsDeparturesList',
          prop='C16', args='self: Schedule, date_start: Date, date_end: Date',
          requires=[WEEKS, HEADWAYS], modular='uf',
          ret='List[Tuple[Date,Int,Int]]',
          reads=['self.service_periods', 'self.trips', 'Trip._headways',
                 'Trip.service_id', 'Trip._stoptimes',
                 'ServicePeriod.service_id', 'ServicePeriod.start_date',
                 'ServicePeriod.end_date', 'ServicePeriod.date_exceptions',
                 'ServicePeriod.day_of_week'],
          pools={'date_start': [733408, 733415, 733420],
                 'date_end': [733408, 733425, 733440],
                 'Trip._headways.item.0': [0, 600, 3600],
                 'Trip._headways.item.1': [0, 3600, 7200],
                 'Trip._headways.item.2': [600, 1800]})
def trips_each_date(self, date_start, date_end):
    """Runs and departures of the trips of the services of each date; a trip
    with frequencies runs once for each start time."""
    runs = collections.defaultdict(lambda: 0)
    departures = collections.defaultdict(lambda: 0)
    for trip in self.trips.values():
        starts = frequency_start_times(trip)
        n = len(starts) if starts else 1
        runs[trip.service_id] += n
        departures[trip.service_id] += (count_stop_times(trip) - 1) * n
    out = []
    for day, services in active_each_date(self, date_start, date_end):
        a = sum(runs[s.service_id] for s in services)
        b = sum(departures[s.service_id] for s in services)
        out.append((day, a, b))
    return out


@contract('transitfeed.schedule.Schedule.ValidateFeedStartAndExpirationDates',
          prop='C16', args='self: Schedule, problems: Reporter, '
          'first_date: Date, last_date: Date, first_date_origin: Opt[Str], '
          'last_date_origin: Opt[Str], today: Date', modular='event')
def validate_expiry(self, problems, first_date, last_date, first_date_origin,
                    last_date_origin, today):
    if last_date < today + datetime.timedelta(days=60):
        problems.ExpirationDate(time.mktime(last_date.timetuple()),
                                last_date_origin)
    if today < first_date:
        problems.FutureService(time.mktime(first_date.timetuple()),
                               first_date_origin)


@contract('transitfeed.schedule.Schedule.ValidateServiceGaps', prop='C16',
          args='self: Schedule, problems: Reporter, '
          'validation_start_date: Date, validation_end_date: Date, '
          'service_gap_interval: Opt[Int]', requires=[WEEKS, HEADWAYS],
          modular='event', reads=[
                 'self.service_periods', 'self.trips', 'Trip._headways',
                 'Trip.service_id', 'Trip._stoptimes',
                 'ServicePeriod.service_id', 'ServicePeriod.start_date',
                 'ServicePeriod.end_date', 'ServicePeriod.date_exceptions',
                 'ServicePeriod.day_of_week'],
          pools={'validation_start_date': [733408, 733415, 733420],
                 'validation_end_date': [733408, 733425, 733440],
                 'service_gap_interval': [None, 1, 2, 3, 5, 13],
                 'Trip._headways.item.2': [600, 1800]})
def validate_gaps(self, problems, validation_start_date, validation_end_date,
                  service_gap_interval):
    """Reports each maximal run of at least so many days without a trip."""
    if service_gap_interval is None:
        return
    first = last = validation_start_date
    idle = 0
    for day, trips, _ in trips_each_date(self, validation_start_date,
                                         validation_end_date):
        if trips == 0:
            if idle == 0:
                first = day
            last = day
            idle += 1
        else:
            if idle >= service_gap_interval:
                problems.TooManyDaysWithoutService(first, last, idle)
            idle = 0
    if idle >= service_gap_interval:
        problems.TooManyDaysWithoutService(first, last, idle)


@contract('transitfeed.schedule.Schedule.ValidateServiceExceptions',
          prop='C16', args='self: Schedule, problems: Reporter, '
          'first_service_day: Date, last_service_day: Date', modular='event',
          reads=['self.service_periods', 'ServicePeriod.date_exceptions'],
          pools={'first_service_day': [733408, 733415],
                 'last_service_day': [733408, 733589, 733590, 733591, 733800]})
def validate_exceptions(self, problems, first_service_day, last_service_day):
    if last_service_day - first_service_day < datetime.timedelta(days=182):
        return
    for p in self.service_periods.values():
        if has_exceptions(p):
            return
    problems.NoServiceExceptions(first_service_day, last_service_day)


def day_of(text):
    return datetime.datetime(*time.strptime(text, '%Y%m%d')[0:6]).date()


@contract('transitfeed.schedule.Schedule.ValidateServiceRangeAndExceptions',
          prop='C16', args='self: Schedule, problems: Reporter, '
          'today: Opt[Date], service_gap_interval: Opt[Int]',
          requires=[WEEKS, HEADWAYS], cases=2000,
          pools={'today': [733408, 733415, 733420, None],
                 'service_gap_interval': [None, 1, 2, 3, 5, 13],
                 'Trip._headways.item.2': [600, 1800]})
def validate_service_range(self, problems, today, service_gap_interval):
    if today is None:
        today = datetime.date.today()
    lo, hi, lo_from, hi_from = date_range_with_origins(self)
    if not lo or not hi:
        problems.OtherProblem('no service dates', type=WARN)
        return
    try:
        last = day_of(hi)
        first = day_of(lo)
    except ValueError:
        return
    validate_exceptions(self, problems, first, last)
    validate_expiry(self, problems, first, last, lo_from, hi_from, today)
    if service_gap_interval is not None:
        back = datetime.timedelta(days=service_gap_interval - 1)
        year = datetime.timedelta(days=365)
        validate_gaps(self, problems, max(first, today - back),
                      min(last, today + year), service_gap_interval)
