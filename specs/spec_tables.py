"""Checks across the tables of a schedule (schedule.py)."""
from speclib import contract, lemma, scenario, classdecl, implies
from transitfeed import errors
from transitfeed import util
from spec_util import is_empty, approximate_distance_between_stops
from spec_stop import stop_validate
from spec_route import route_validate
from spec_stoptable import rows_of, start_time, end_time, duplicate_sequences
from spec_trip import (located, travel, past_shape_end, off_shape, trip_shape,
                       drawable)
from spec_frequency import validate_frequencies

WARN = errors.TYPE_WARNING
NAMES = ['', ' ', None, 'Main', 'main ', 'Other']


@contract('transitfeed.schedule.Schedule.ValidateAgenciesHaveSame'
          'AgencyTimezone', prop='C33',
          args='self: Schedule, problems: Reporter',
          pools={'Agency.agency_timezone': ['Asia/Tokyo', 'Europe/Rome', '']},
          requires='all(isinstance(a.agency_timezone, str) '
                   'for a in self._agencies.values())')
def same_timezone(self, problems):
    zones = set(a.agency_timezone for a in self._agencies.values())
    if len(zones) > 1:
        problems.InvalidValue('agency_timezone',
                              '"%s"' % '", "'.join(zones))


@contract('transitfeed.schedule.Schedule.ValidateFeedInfoLangMatches'
          'AgencyLang', prop='C33',
          args='self: Schedule, problems: Reporter',
          pools={'Agency.agency_lang': ['en', 'it', '', ' ', None],
                 'FeedInfo.feed_lang': ['en', 'it', '', None]})
def same_language(self, problems):
    if self.feed_info is None or self.feed_info.feed_lang is None:
        return
    for a in self._agencies.values():
        if not is_empty(a.agency_lang) and \
                a.agency_lang != self.feed_info.feed_lang:
            problems.InvalidValue(
                'feed_lang', 'The languages specified in feedinfo.txt and in '
                'agency.txt for agency with ID %s differ.' % a.agency_id)


@contract('transitfeed.schedule.Schedule.ValidateIdlessAgency', prop='C33',
          args='self: Schedule, problems: Reporter',
          pools={'Agency.agency_id': ['A1', 'A2', '', ' ', None]})
def idless_agency(self, problems):
    if len(self._agencies) > 1:
        for a in self._agencies.values():
            if is_empty(a.agency_id):
                problems.OtherProblem('agency without an ID')


@contract('transitfeed.schedule.Schedule.ValidateRouteAgencyId', prop='C33',
          args='self: Schedule, problems: Reporter',
          pools={'Route.agency_id': ['A1', 'A2', 'A3', '', ' ', None]})
def route_agency(self, problems):
    for r in self.routes.values():
        if is_empty(r.agency_id):
            continue
        if r.agency_id not in self._agencies:
            problems.InvalidAgencyID('agency_id', r.agency_id, 'route',
                                     r.route_id)


def sound(trip):
    """What reading a feed without errors ensures of a trip in a schedule."""
    return trip._schedule is not None and \
        all(located(st.stop) for st in trip._stoptimes) and \
        all("shape_dist_traveled" in vars(st) and
            "stop_sequence" in vars(st) for st in trip._stoptimes) and \
        all(st.stop.stop_id in trip._schedule.stops
            for st in trip._stoptimes) and \
        all(located(s) for s in trip._schedule.stops.values()) and \
        (trip_shape(trip) is None or drawable(trip_shape(trip)))


@contract('transitfeed.trip.Trip.ValidateChildren', prop='C27,C06',
          args='self: Trip, problems: Reporter', requires=['self._schedule is not None',
                    'all(located(st.stop) for st in self._stoptimes)',
                    'all("shape_dist_traveled" in vars(st) and '
                    '"stop_sequence" in vars(st) for st in self._stoptimes)',
                    'all(st.stop.stop_id in self._schedule.stops '
                    'for st in self._stoptimes)',
                    'all(located(s) for s in self._schedule.stops.values())',
                    'trip_shape(self) is None or '
                    'drawable(trip_shape(self))'],
          modular='event',
          reads=['self.trip_id', 'self.route_id', 'self._schedule',
                 'self._headways', 'self._stoptimes', 'self.shape_id',
                 'Schedule._db_rows', 'Schedule.routes', 'Schedule._shapes',
                 'Schedule.stops', 'Shape.max_distance', 'Shape.points',
                 'Shape.distance', 'Route.route_type',
                 'StopTime.shape_dist_traveled', 'StopTime.arrival_secs',
                 'StopTime.departure_secs', 'StopTime.stop',
                 'StopTime.stop_sequence', 'Stop.stop_id', 'Stop.stop_lat',
                 'Stop.stop_lon', 'Stop.stop_name'])
def trip_children(self, problems):
    duplicate_sequences(self, problems)
    stoptimes = sorted(self._stoptimes, key=lambda st: st.stop_sequence)
    travel(self, problems, stoptimes)
    past_shape_end(self, problems, stoptimes)
    off_shape(self, problems, stoptimes)
    validate_frequencies(self, problems)


@contract('transitfeed.schedule.Schedule.ValidateTripStopTimes', prop='C33',
          args='self: Schedule, problems: Reporter',
          budget=400, requires=['all(t._schedule is self and sound(t) '
                    'for t in self.trips.values())'])
def trip_stop_times(self, problems):
    for t in self.trips.values():
        trip_children(t, problems)
        n = len(t._stoptimes)
        if n == 0:
            problems.OtherProblem('no stop times', type=WARN)
            if len(t._headways) > 0:
                problems.OtherProblem('frequencies without stop times',
                                      type=errors.TYPE_ERROR)
        elif n == 1:
            problems.OtherProblem('only one stop', type=WARN)
        else:
            start_time(t, problems)
            end_time(t, problems)


@contract('transitfeed.schedule.Schedule.ValidateUnusedShapes', prop='C33',
          args='self: Schedule, problems: Reporter',
          requires='None not in self._shapes',
          pools={'Trip.shape_id': ['SH1', 'SH2', 'SH3', '', None]})
def unused_shapes(self, problems):
    known = set(self._shapes.keys())
    used = set()
    for t in self.trips.values():
        used.add(t.shape_id)
    if known - used:
        problems.OtherProblem('unused shapes', type=WARN)


@contract('transitfeed.schedule.Schedule.ValidateStops', prop='C33',
          args='self: Schedule, problems: Reporter, validate_children: Bool',
          requires=['all(not isinstance(s.stop_lat, basestring) and '
                    'not isinstance(s.stop_lon, basestring) '
                    'for s in self.stops.values())'],
          invariants=['all(not isinstance(s.stop_lat, basestring) and '
                      'not isinstance(s.stop_lon, basestring) '
                      'for s in self.stops.values())'],
          cases=1000, budget=350)
def stops_used(self, problems, validate_children):
    for s in self.stops.values():
        if validate_children:
            stop_validate(s, problems)
        rows = [r for r in self._db_rows if r[3] is not None and
                s.stop_id is not None and r[3] == s.stop_id]
        if s.location_type == 0 and len(rows) == 0:
            problems.UnusedStop(s.stop_id, s.stop_name)
        elif s.location_type == 1 and len(rows) != 0:
            problems.UsedStation(s.stop_id, s.stop_name)
        if s.location_type == 1 or not s.parent_station:
            continue
        if s.parent_station not in self.stops:
            problems.InvalidValue('parent_station', s.parent_station)
            continue
        parent = self.stops[s.parent_station]
        if parent.location_type != 1:
            problems.InvalidValue('parent_station', s.parent_station)
            continue
        d = util.ApproximateDistanceBetweenStops(s, parent)
        if d is not None and d > 100:
            problems.StopTooFarFromParentStation(
                s.stop_id, s.stop_name, parent.stop_id, parent.stop_name, d,
                errors.TYPE_ERROR if d > 1000 else WARN)


def plain(text):
    if is_empty(text):
        return ''
    return text.lower().strip()


@contract('transitfeed.schedule.Schedule.ValidateRouteNames', prop='C33',
          args='self: Schedule, problems: Reporter, validate_children: Bool',
          pools={'Route.route_short_name': NAMES,
                 'Route.route_long_name': NAMES})
def route_names(self, problems, validate_children):
    """A route named as an earlier one, but for case and outer space."""
    seen = {}
    for r in self.routes.values():
        if validate_children:
            route_validate(r, problems)
        name = (plain(r.route_short_name), plain(r.route_long_name))
        if name in seen:
            problems.InvalidValue('route_long_name', name[1], type=WARN)
        else:
            seen[name] = r


@contract('transitfeed.schedule.Schedule.ValidateStopTimesForTrip',
          prop='C33',
          args='self: Schedule, problems: Reporter, trip: Trip, '
               'stop_times: List[StopTime]',
          modular='event',
          reads=['Trip.trip_id', 'StopTime.arrival_secs',
                 'StopTime.departure_secs'],
          pools={'StopTime.arrival_secs': [600, 600, 600, 660, None],
                 'StopTime.departure_secs': [600, 600, 600, 660, None]},
          maxlen=10, cases=3000)
def same_times(self, problems, trip, stop_times):
    """Runs of more than five stop times with one and the same time; stop
    times without a time extend a run they lie inside of."""
    last = -1
    length = 0
    full = 0
    for st in stop_times:
        a, d = st.arrival_secs, st.departure_secs
        if a is None or d is None:
            length += 1
            continue
        if a == d and last == a:
            length += 1
            full = length
        else:
            if last != -1 and full > 5:
                problems.TooManyConsecutiveStopTimesWithSameTime(
                    trip.trip_id, full, last)
            length = 1
            full = 1
        last = d
    if last != -1 and full > 5:
        problems.TooManyConsecutiveStopTimesWithSameTime(
            trip.trip_id, full, last)
