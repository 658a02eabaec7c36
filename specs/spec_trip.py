"""Trips: field validation and travel checks (trip.py)."""
from speclib import contract, lemma, scenario, classdecl, implies
from transitfeed import util
from transitfeed import errors
from transitfeed import problems as problems_module
from spec_util import (is_empty, validate_yes_no_unknown, format_seconds,
                       approximate_distance, approximate_distance_between_stops)
from spec_stoptime import stoptime_secs
from spec_frequency import validate_frequencies, get_stop_times
from spec_shape import point_at_distance


# ------------------------------------------------------------ fields (C27)
def required(v, column, problems):
    if is_empty(v):
        problems.MissingValue(column)


@contract('transitfeed.trip.Trip.ValidateRouteId', prop='C27',
          args='self: Trip, problems: Reporter', modular='event',
          reads=['self.route_id'])
def trip_route_id(self, problems):
    required(self.route_id, 'route_id', problems)


@contract('transitfeed.trip.Trip.ValidateTripId', prop='C27',
          args='self: Trip, problems: Reporter', modular='event',
          reads=['self.trip_id'])
def trip_trip_id(self, problems):
    required(self.trip_id, 'trip_id', problems)


@contract('transitfeed.trip.Trip.ValidateServicePeriod', prop='C27',
          args='self: Trip, problems: Reporter', modular='event',
          reads=['self.service_id'])
def trip_service_id(self, problems):
    required(self.service_id, 'service_id', problems)


@contract('transitfeed.trip.Trip.ValidateDirectionId', prop='C27',
          args='self: Trip, problems: Reporter', modular='event',
          reads=['self.direction_id'])
def trip_direction(self, problems):
    d = self.direction_id
    if not is_empty(d) and d != '0' and d != '1':
        problems.InvalidValue('direction_id', d)


@contract('transitfeed.trip.Trip.ValidateBikesAllowed', prop='C27',
          args='self: Trip, problems: Reporter', modular='event',
          reads=['self.bikes_allowed'])
def trip_bikes(self, problems):
    if self.bikes_allowed:
        validate_yes_no_unknown(self.bikes_allowed, 'bikes_allowed', problems)


@contract('transitfeed.trip.Trip.ValidateWheelchairAccessible', prop='C27',
          args='self: Trip, problems: Reporter', modular='event',
          reads=['self.wheelchair_accessible'])
def trip_wheelchair(self, problems):
    if self.wheelchair_accessible:
        validate_yes_no_unknown(self.wheelchair_accessible,
                                'wheelchair_accessible', problems)


def known(value, table, column, problems):
    """A given reference must be in the table."""
    if value is not None and value != '' and value not in table:
        problems.InvalidValue(column, value)


@contract('transitfeed.trip.Trip.ValidateShapeIdsExistInShapeList',
          prop='C27', args='self: Trip, problems: Reporter', modular='event',
          reads=['self.shape_id', 'self._schedule', 'Schedule._shapes'])
def trip_shape_known(self, problems):
    if self._schedule is not None:
        known(self.shape_id, self._schedule._shapes, 'shape_id', problems)


@contract('transitfeed.trip.Trip.ValidateRouteIdExistsInRouteList',
          prop='C27', args='self: Trip, problems: Reporter', modular='event',
          reads=['self.route_id', 'self._schedule', 'Schedule.routes'])
def trip_route_known(self, problems):
    if self._schedule is not None:
        known(self.route_id, self._schedule.routes, 'route_id', problems)


@contract('transitfeed.trip.Trip.ValidateServiceIdExistsInServiceList',
          prop='C27', args='self: Trip, problems: Reporter', modular='event',
          reads=['self.service_id', 'self._schedule',
                 'Schedule.service_periods'])
def trip_service_known(self, problems):
    if self._schedule is not None:
        known(self.service_id, self._schedule.service_periods, 'service_id',
              problems)


@contract('transitfeed.trip.Trip.Validate', prop='C27',
          args='self: Trip, problems: Reporter, validate_children: Bool',
          requires='self._schedule is None or not validate_children',
          cases=2000)
def trip_validate(self, problems, validate_children):
    trip_trip_id(self, problems)
    trip_route_id(self, problems)
    trip_service_id(self, problems)
    trip_direction(self, problems)
    trip_bikes(self, problems)
    trip_wheelchair(self, problems)
    trip_shape_known(self, problems)
    trip_route_known(self, problems)
    trip_service_known(self, problems)


@contract('transitfeed.trip.Trip.ValidateAfterAdd', prop='C27',
          args='self: Trip, problems: Reporter',
          requires='self._schedule is None')
def trip_after_add(self, problems):
    trip_validate(self, problems, True)


@contract('transitfeed.trip.Trip.ValidateBeforeAdd', prop='C27',
          args='self: Trip, problems: Reporter')
def trip_before_add(self, problems):
    return True


@contract('transitfeed.trip.Trip.__init__', prop='C27',
          args='self: New[Trip], headsign: Opt[Str], '
               'service_period: Opt[ServicePeriod], route: Opt[Route], '
               'trip_id: Opt[Str], field_dict: Opt[Dict[Str,Str]]',
          requires=['service_period is None or '
                    'hasattr(service_period, "service_id")'],
          pools={'field_dict.key': ['trip_id', 'route_id', 'service_id',
                                    'direction_id', 'block_id']})
def trip_init(self, headsign, service_period, route, trip_id, field_dict):
    self._schedule = None
    self._headways = []
    if field_dict:
        self.__dict__.update(field_dict)
        return
    if headsign is not None:
        self.trip_headsign = headsign
    if route is not None:
        self.route_id = route.route_id
    if trip_id is not None:
        self.trip_id = trip_id
    if service_period is not None:
        self.service_id = service_period.service_id


# ------------------------------------------------------------ travel (C06)
COORDS = ['is_coord(prev_stop.stop_lat)']


@contract('transitfeed.trip.Trip._CheckSpeed', prop='C06',
          args='self: Trip, prev_stop: Opt[Stop], next_stop: Stop, '
               'depart_time: Opt[Int], arrive_time: Opt[Int], '
               'max_speed: Int, problems: Reporter', modular='event',
          requires=['prev_stop is None or located(prev_stop)',
                    'located(next_stop)', 'max_speed > 0'],
          reads=['self.trip_id', 'Stop.stop_lat', 'Stop.stop_lon',
                 'Stop.stop_name'], cases=3000,
          pools={'Stop.stop_lat': [0.0, 0.001, 0.0005, 0.1, None],
                 'Stop.stop_lon': [0.0, 0.001, 0.0005, 0.1, None],
                 'depart_time': [0, 60, 90, 300, 3600, None],
                 'arrive_time': [0, 60, 90, 300, 3600, None],
                 'max_speed': [100, 150, 1000, 3]})
def check_speed(self, prev_stop, next_stop, depart_time, arrive_time,
                max_speed, problems):
    if prev_stop is None or depart_time is None or arrive_time is None:
        return
    metres = approximate_distance_between_stops(next_stop, prev_stop)
    if metres is None:
        return
    secs = arrive_time - depart_time
    if secs == 0:
        # times are often rounded to the minute
        if depart_time % 60 != 0 or metres / 1000 * 60 > max_speed:
            problems.TooFastTravel(self.trip_id, prev_stop.stop_name,
                                   next_stop.stop_name, metres, secs, None,
                                   type=errors.TYPE_WARNING)
    else:
        speed = (metres / 1000) / (float(secs) / 3600)
        if speed > max_speed:
            problems.TooFastTravel(self.trip_id, prev_stop.stop_name,
                                   next_stop.stop_name, metres, secs, speed,
                                   type=errors.TYPE_WARNING)


def located(stop):
    return (stop.stop_lat is None or isinstance(stop.stop_lat, float)) and \
        (stop.stop_lon is None or isinstance(stop.stop_lon, float))


def speed_limit(self):
    """km/h; trams when the route or its type is unknown."""
    limits = {0: 100, 1: 150, 2: 300, 3: 100, 4: 80, 5: 50, 6: 50, 7: 50}
    if self.route_id in self._schedule.routes:
        kind = self._schedule.routes[self.route_id].route_type
        if kind in limits:
            return limits[kind]
    return 100


@contract('transitfeed.trip.Trip.'
          'ValidateStopTimesSequenceHasIncreasingTimeAndDistance', prop='C06',
          args='self: Trip, problems: Reporter, stoptimes: List[StopTime]',
          requires=['self._schedule is not None',
                    'all(located(st.stop) for st in stoptimes)',
                    'all("shape_dist_traveled" in vars(st) and '
                    '"stop_sequence" in vars(st) for st in stoptimes)'],
          invariants=['last_stop is None or located(last_stop)'],
          cases=4000, budget=300, modular='event',
          reads=['self.trip_id', 'self.route_id', 'self._schedule',
                 'Schedule.routes', 'Route.route_type',
                 'StopTime.shape_dist_traveled', 'StopTime.arrival_secs',
                 'StopTime.departure_secs', 'StopTime.stop',
                 'StopTime.stop_sequence', 'Stop.stop_id', 'Stop.stop_lat',
                 'Stop.stop_lon', 'Stop.stop_name'])
def travel(self, problems, stoptimes):
    """Times must not decrease from departure to next arrival, distances
    must grow, and no segment may be faster than the vehicle."""
    if not stoptimes:
        return
    limit = speed_limit(self)
    last_dist = None
    last_stop = None
    last_dep = 0
    for st in stoptimes:
        d = st.shape_dist_traveled
        if d is not None:
            if d >= 0 and (last_dist is None or d > last_dist):
                last_dist = d
            elif last_dist is not None and d == last_dist:
                problems.InvalidValue('stoptimes.shape_dist_traveled', d,
                                      type=errors.TYPE_WARNING)
            else:
                problems.InvalidValue('stoptimes.shape_dist_traveled', d,
                                      type=errors.TYPE_ERROR)
        arr = st.arrival_secs
        if arr is not None:
            check_speed(self, last_stop, st.stop, last_dep, arr, limit,
                        problems)
            if last_dep is None or arr >= last_dep:
                last_dep = st.departure_secs
                last_stop = st.stop
            else:
                problems.OtherProblem('time travel')


def trip_shape(self):
    if self.shape_id and self.shape_id in self._schedule._shapes:
        return self._schedule._shapes[self.shape_id]
    return None


def drawable(shape):
    return len(shape.points) == len(shape.distance) and \
        all(d is not None for d in shape.distance) and \
        all(p[2] is not None for p in shape.points)


DISTANCES = {'StopTime.shape_dist_traveled': [0.0, 1.0, 2.0, 2.5, 11.0, None],
             'Shape.max_distance': [0.0, 2.0, 2.5],
             'Shape.distance.item': [0.0, 1.0, 2.0, 2.5],
             'Shape.points.item.2': [0.0, 1.0, 2.0, 2.5],
             'Shape.points.item.0': [0.0, 0.001, 0.02, 1.0],
             'Shape.points.item.1': [0.0, 0.001, 0.02, 1.0],
             'Stop.stop_lat': [0.0, 0.001, 0.02, 1.0, None],
             'Stop.stop_lon': [0.0, 0.001, 0.02, 1.0, None],
             'Stop.stop_id': ['S1', 'S2', 'S3'],
             'Trip.shape_id': ['SH1', 'SH2', '', None]}


@contract('transitfeed.trip.Trip.'
          'ValidateShapeDistTraveledSmallerThanMaxShapeDistance', prop='C06',
          args='self: Trip, problems: Reporter, stoptimes: List[StopTime]',
          requires=['self._schedule is not None',
                    'all("shape_dist_traveled" in vars(st) and '
                    '"stop_sequence" in vars(st) for st in stoptimes)'],
          cases=2000, pools=DISTANCES, modular='event',
          reads=['self.trip_id', 'self.shape_id', 'self._schedule',
                 'Schedule._shapes', 'Shape.max_distance',
                 'StopTime.shape_dist_traveled', 'StopTime.stop_sequence'])
def past_shape_end(self, problems, stoptimes):
    """The last stop must not be further along than the shape is long."""
    shape = trip_shape(self)
    if stoptimes and shape is not None:
        st = stoptimes[-1]
        d = st.shape_dist_traveled
        if d and d > shape.max_distance:
            problems.OtherProblem(
                'In stop_times.txt, the stop with trip_id=%s and '
                'stop_sequence=%d has shape_dist_traveled=%f, which is larger '
                'than the max shape_dist_traveled=%f of the corresponding '
                'shape (shape_id=%s)' %
                (self.trip_id, st.stop_sequence, d, shape.max_distance,
                 self.shape_id), type=errors.TYPE_WARNING)


@contract('transitfeed.trip.Trip.ValidateDistanceFromStopToShape', prop='C06',
          args='self: Trip, problems: Reporter, stoptimes: List[StopTime]',
          requires=['self._schedule is not None',
                    'all("shape_dist_traveled" in vars(st) '
                    'for st in stoptimes)',
                    'all(st.stop.stop_id in self._schedule.stops '
                    'for st in stoptimes)',
                    'all(located(s) for s in self._schedule.stops.values())',
                    'trip_shape(self) is None or '
                    'drawable(trip_shape(self))'],
          cases=4000, budget=320, pools=DISTANCES, modular='event',
          reads=['self.trip_id', 'self.shape_id', 'self._schedule',
                 'Schedule._shapes', 'Schedule.stops', 'Shape.max_distance',
                 'Shape.points', 'Shape.distance',
                 'StopTime.shape_dist_traveled', 'StopTime.stop',
                 'Stop.stop_id', 'Stop.stop_lat', 'Stop.stop_lon',
                 'Stop.stop_name'])
def off_shape(self, problems, stoptimes):
    """Each stop must lie within 1 km of its place on the shape."""
    shape = trip_shape(self)
    if shape is None or shape.max_distance <= 0:
        return
    for st in stoptimes:
        if st.shape_dist_traveled is not None:
            at = point_at_distance(shape, st.shape_dist_traveled)
            stop = self._schedule.stops[st.stop.stop_id]
            if at is not None and stop.stop_lat is not None and \
                    stop.stop_lon is not None:
                metres = approximate_distance(stop.stop_lat, stop.stop_lon,
                                              at[0], at[1])
                if metres > 1000:
                    problems.StopTooFarFromShapeWithDistTraveled(
                        self.trip_id, stop.stop_name, stop.stop_id, at[2],
                        self.shape_id, metres, 1000)


def placed(stop):
    return isinstance(stop.stop_lat, float) and \
        isinstance(stop.stop_lon, float)


@contract('transitfeed.trip.Trip.GetTimeInterpolatedStops', prop='C07',
          args='self: Trip',
          requires=['all(placed(st.stop) for st in self._stoptimes)'],
          cases=3000, maxlen=6, pools={
              'StopTime.arrival_secs': [None, None, None, 0, 60, 300, 3600],
              'StopTime.departure_secs': [None, None, None, 60, 120, 3600],
              'Stop.stop_lat': [0.0, 0.001, 0.002, 0.02],
              'Stop.stop_lon': [0.0, 0.001, 0.002],
              'len(_stoptimes)': [0, 1, 2, 3, 4, 5, 6]})
def interpolate(self):
    """Timed stops keep their time; the others divide the time between their
    timed neighbours in proportion to the distance along the trip."""
    sts = get_stop_times(self)
    if not sts:
        return []
    if stoptime_secs(sts[0]) is None or stoptime_secs(sts[-1]) is None:
        raise ValueError('no time at the first or last stop')
    out = []
    before, after = None, None
    stretch, covered = 0, 0
    for i in range(len(sts)):
        st = sts[i]
        if stoptime_secs(st) is not None:
            before, stretch, covered = st, 0, 0
            if i + 1 < len(sts):
                j = i + 1
                stretch += approximate_distance_between_stops(
                    sts[i].stop, sts[j].stop)
                while stoptime_secs(sts[j]) is None:
                    j += 1
                    stretch += approximate_distance_between_stops(
                        sts[j - 1].stop, sts[j].stop)
                after = sts[j]
            out.append((stoptime_secs(st), st, True))
        else:
            covered += approximate_distance_between_stops(sts[i - 1].stop,
                                                          st.stop)
            start = stoptime_secs(before)
            share = covered / stretch if stretch > 0 else 0
            out.append((int(round(
                share * (stoptime_secs(after) - start) + start)), st, False))
    return out
