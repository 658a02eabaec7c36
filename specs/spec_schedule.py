"""The registries of a schedule (schedule.py)."""
from speclib import contract, lemma, scenario, classdecl, implies
from transitfeed import errors
from spec_util import is_empty, find_unique_id
from spec_service import service_validate
from spec_shape import shape_validate
from spec_fare import fare_validate
from spec_agency import agency_validate, feed_before_add
from spec_trip import trip_validate
WARN = errors.TYPE_WARNING


def the_reporter(self, problem_reporter):
    return problem_reporter if problem_reporter else self.problem_reporter


def fine(p):
    """What the validation of a period takes for granted."""
    return (len(p.original_day_values) <= 7 and
            not (p.start_date or '').endswith('\n') and
            not (p.end_date or '').endswith('\n') and
            all(not d.endswith('\n') for d in p.date_exceptions))


def public(obj):
    """The columns an object uses."""
    return {k for k in vars(obj) if k[0] != '_'}


@contract('transitfeed.schedule.Schedule.AddTableColumns', prop='C04',
          args='self: Schedule, table: Str, columns: Set[Str]',
          modular='event', writes=['self._table_columns'],
          invariants=['table in self._table_columns'],
          ensures=['table in self._table_columns'])
def add_table_columns(self, table, columns):
    if table not in self._table_columns:
        self._table_columns[table] = []
    have = self._table_columns[table]
    for c in columns:
        if c not in have:
            have.append(c)


@contract('transitfeed.schedule.Schedule.AddTableColumn', prop='C04',
          args='self: Schedule, table: Str, column: Str',
          requires='table in self._table_columns',
          ensures=['column in self._table_columns[table]'])
def add_table_column(self, table, column):
    if column not in self._table_columns[table]:
        self._table_columns[table].append(column)


@contract('transitfeed.schedule.Schedule.GetTableColumns', prop='C04',
          args='self: Schedule, table: Str')
def get_table_columns(self, table):
    return self._table_columns[table]


@contract('transitfeed.schedule.Schedule.AddAgencyObject', prop='C04',
          args='self: Schedule, agency: Agency, problem_reporter: '
               'Opt[Reporter], validate: Bool',
          requires='agency._schedule is None',
          ensures=['agency.agency_id in self._agencies'])
def add_agency(self, agency, problem_reporter, validate):
    problems = the_reporter(self, problem_reporter)
    if agency.agency_id in self._agencies:
        problems.DuplicateID('agency_id', agency.agency_id)
        return
    self.AddTableColumns('agency', public(agency))
    agency._schedule = self
    if validate:
        agency_validate(agency, problems)
    self._agencies[agency.agency_id] = agency


@contract('transitfeed.schedule.Schedule.AddServicePeriodObject', prop='C04',
          args='self: Schedule, service_period: ServicePeriod, '
               'problem_reporter: Opt[Reporter], validate: Bool',
          requires=['len(service_period.original_day_values) <= 7',
                    "not (service_period.start_date or '').endswith('\\n')",
                    "not (service_period.end_date or '').endswith('\\n')",
                    "all(not d.endswith('\\n') "
                    "for d in service_period.date_exceptions)"],
          modular='event', reads=[
              'self.service_periods', 'self.problem_reporter',
              'service_period.service_id', 'service_period.start_date',
              'service_period.end_date', 'service_period.day_of_week',
              'ServicePeriod.original_day_values',
              'ServicePeriod.date_exceptions'],
          writes=['self.service_periods', 'service_period.start_date',
                  'service_period.end_date'],
          ensures=['service_period.service_id in self.service_periods',
                   "not (service_period.start_date or '').endswith('\\n')",
                   "not (service_period.end_date or '').endswith('\\n')"])
def add_service_period(self, service_period, problem_reporter, validate):
    problems = the_reporter(self, problem_reporter)
    if service_period.service_id in self.service_periods:
        problems.DuplicateID('service_id', service_period.service_id)
        return
    if validate:
        service_validate(service_period, problems)
    self.service_periods[service_period.service_id] = service_period


@contract('transitfeed.schedule.Schedule.AddStopObject', prop='C04',
          args='self: Schedule, stop: Stop, problem_reporter: Opt[Reporter]',
          requires='stop._schedule is None',
          ensures=['not stop.stop_id or stop.stop_id in self.stops'])
def add_stop(self, stop, problem_reporter):
    problems = the_reporter(self, problem_reporter)
    if not stop.stop_id:
        return
    if stop.stop_id in self.stops:
        problems.DuplicateID('stop_id', stop.stop_id)
        return
    stop._schedule = self
    self.AddTableColumns('stops', public(stop))
    self.stops[stop.stop_id] = stop
    if stop.zone_id:
        self.fare_zones[stop.zone_id] = True


@contract('transitfeed.schedule.Schedule.AddRouteObject', prop='C04',
          args='self: Schedule, route: Route, problem_reporter: Opt[Reporter]')
def add_route(self, route, problem_reporter):
    problems = the_reporter(self, problem_reporter)
    if route.route_id in self.routes:
        problems.DuplicateID('route_id', route.route_id)
        return
    known = route.agency_id in self._agencies
    only = not route.agency_id and len(self._agencies) == 1
    if not known and not only:
        problems.InvalidValue('agency_id', route.agency_id, 'unknown')
        return
    self.AddTableColumns('routes', public(route))
    route._schedule = self
    self.routes[route.route_id] = route


@contract('transitfeed.schedule.Schedule.AddShapeObject', prop='C04',
          args='self: Schedule, shape: Shape, problem_reporter: '
               'Opt[Reporter]',
          ensures=['shape.shape_id in self._shapes'])
def add_shape(self, shape, problem_reporter):
    problems = the_reporter(self, problem_reporter)
    shape_validate(shape, problems)
    if shape.shape_id in self._shapes:
        problems.DuplicateID('shape_id', shape.shape_id)
    else:
        self._shapes[shape.shape_id] = shape


@contract('transitfeed.schedule.Schedule.AddTripObject', prop='C04',
          args='self: Schedule, trip: Trip, problem_reporter: '
               'Opt[Reporter], validate: Bool',
          ensures=['trip.trip_id in self.trips'])
def add_trip(self, trip, problem_reporter, validate):
    problems = the_reporter(self, problem_reporter)
    if trip.trip_id in self.trips:
        problems.DuplicateID('trip_id', trip.trip_id)
        return
    self.AddTableColumns('trips', public(trip))
    trip._schedule = self
    self.trips[trip.trip_id] = trip
    if validate:
        trip_validate(trip, problems, False)
    if trip.route_id in self.routes:
        self.routes[trip.route_id]._trips.append(trip)


@contract('transitfeed.schedule.Schedule.AddFareAttributeObject', prop='C04',
          args='self: Schedule, fare: FareAttribute, problem_reporter: '
               'Opt[Reporter]',
          ensures=['fare.fare_id in self.fares'])
def add_fare(self, fare, problem_reporter):
    problems = the_reporter(self, problem_reporter)
    fare_validate(fare, problems)
    if fare.fare_id in self.fares:
        problems.DuplicateID('fare_id', fare.fare_id)
    else:
        self.fares[fare.fare_id] = fare


@contract('transitfeed.schedule.Schedule.AddFareObject', prop='C04',
          args='self: Schedule, fare: FareAttribute, problem_reporter: '
               'Opt[Reporter]')
def add_fare_old(self, fare, problem_reporter):
    add_fare(self, fare, problem_reporter)


@contract('transitfeed.schedule.Schedule.AddFareRuleObject', prop='C04,C14',
          args='self: Schedule, rule: FareRule, problem_reporter: '
               'Opt[Reporter]')
def add_fare_rule(self, rule, problem_reporter):
    problems = the_reporter(self, problem_reporter)
    if is_empty(rule.fare_id):
        problems.MissingValue('fare_id')
        return
    if rule.route_id and rule.route_id not in self.routes:
        problems.InvalidValue('route_id', rule.route_id)
    if rule.origin_id and rule.origin_id not in self.fare_zones:
        problems.InvalidValue('origin_id', rule.origin_id)
    if rule.destination_id and rule.destination_id not in self.fare_zones:
        problems.InvalidValue('destination_id', rule.destination_id)
    if rule.contains_id and rule.contains_id not in self.fare_zones:
        problems.InvalidValue('contains_id', rule.contains_id)
    if rule.fare_id not in self.fares:
        problems.InvalidValue('fare_id', rule.fare_id)
    else:
        self.fares[rule.fare_id].rules.append(rule)


@contract('transitfeed.schedule.Schedule.AddFeedInfoObject', prop='C04',
          args='self: Schedule, feed_info: FeedInfo, problem_reporter: '
               'Opt[Reporter], validate: Bool',
          requires='feed_info._schedule is None',
          ensures=['self.feed_info is feed_info'])
def add_feed_info(self, feed_info, problem_reporter, validate):
    problems = the_reporter(self, problem_reporter)
    feed_info._schedule = self
    if validate:
        feed_before_add(feed_info, problems)
    self.AddTableColumns('feed_info', public(feed_info))
    self.feed_info = feed_info


@contract('transitfeed.schedule.Schedule.AddTransferObject', prop='C04',
          args='self: Schedule, transfer: Transfer, problem_reporter: '
               'Opt[Reporter]',
          requires=['transfer._schedule is None'])
def add_transfer(self, transfer, problem_reporter):
    problems = the_reporter(self, problem_reporter)
    a, b = transfer.from_stop_id, transfer.to_stop_id
    key = (a if a is not None else '', b if b is not None else '')
    if key in self._transfers:
        problems.DuplicateID(['from_stop_id', 'to_stop_id'], key, type=WARN)
    transfer._schedule = self
    self.AddTableColumns('transfers', public(transfer))
    if key not in self._transfers:
        self._transfers[key] = []
    self._transfers[key].append(transfer)


# ------------------------------------------------- adding through the object
@contract('transitfeed.agency.Agency.AddToSchedule', prop='C04',
          args='self: Agency, schedule: Schedule, problems: Opt[Reporter]',
          requires='self._schedule is None')
def agency_add_to(self, schedule, problems):
    add_agency(schedule, self, problems, False)


@contract('transitfeed.stop.Stop.AddToSchedule', prop='C04',
          args='self: Stop, schedule: Schedule, problems: Opt[Reporter]',
          requires='self._schedule is None')
def stop_add_to(self, schedule, problems):
    add_stop(schedule, self, problems)


@contract('transitfeed.route.Route.AddToSchedule', prop='C04',
          args='self: Route, schedule: Schedule, problems: Opt[Reporter]')
def route_add_to(self, schedule, problems):
    add_route(schedule, self, problems)


@contract('transitfeed.trip.Trip.AddToSchedule', prop='C04',
          args='self: Trip, schedule: Schedule, problems: Opt[Reporter]')
def trip_add_to(self, schedule, problems):
    add_trip(schedule, self, problems, False)


@contract('transitfeed.transfer.Transfer.AddToSchedule', prop='C04',
          args='self: Transfer, schedule: Schedule, problems: Opt[Reporter]',
          requires='self._schedule is None')
def transfer_add_to(self, schedule, problems):
    add_transfer(schedule, self, problems)


@contract('transitfeed.feedinfo.FeedInfo.AddToSchedule', prop='C04',
          args='self: FeedInfo, schedule: Schedule, problems: Opt[Reporter]',
          requires='self._schedule is None')
def feedinfo_add_to(self, schedule, problems):
    add_feed_info(schedule, self, problems, False)


@contract('transitfeed.farerule.FareRule.AddToSchedule', prop='C04',
          args='self: FareRule, schedule: Schedule, problems: Opt[Reporter]')
def rule_add_to(self, schedule, problems):
    self._schedule = schedule
    add_fare_rule(schedule, self, problems)


@contract('transitfeed.fareattribute.FareAttribute.AddToSchedule', prop='C04',
          args='self: FareAttribute, schedule: Opt[Schedule], '
               'problems: Opt[Reporter]')
def fare_add_to(self, schedule, problems):
    if schedule is not None:
        add_fare(schedule, self, problems)
        self._schedule = schedule


# ------------------------------------------------------------ looking up
@contract('transitfeed.schedule.Schedule.GetAgency', prop='C04',
          args='self: Schedule, agency_id: Opt[Str]')
def get_agency(self, agency_id):
    return self._agencies[agency_id]


@contract('transitfeed.schedule.Schedule.GetServicePeriod', prop='C04',
          args='self: Schedule, service_id: Opt[Str]')
def get_service(self, service_id):
    return self.service_periods[service_id]


@contract('transitfeed.schedule.Schedule.GetRoute', prop='C04',
          args='self: Schedule, route_id: Opt[Str]')
def get_route(self, route_id):
    return self.routes[route_id]


@contract('transitfeed.schedule.Schedule.GetTrip', prop='C04',
          args='self: Schedule, trip_id: Opt[Str]')
def get_trip(self, trip_id):
    return self.trips[trip_id]


@contract('transitfeed.schedule.Schedule.GetStop', prop='C04',
          args='self: Schedule, id: Opt[Str]')
def get_stop(self, id):
    return self.stops[id]


@contract('transitfeed.schedule.Schedule.GetShape', prop='C04',
          args='self: Schedule, shape_id: Opt[Str]')
def get_shape(self, shape_id):
    return self._shapes[shape_id]


@contract('transitfeed.schedule.Schedule.GetFareAttribute', prop='C04',
          args='self: Schedule, fare_id: Opt[Str]')
def get_fare(self, fare_id):
    return self.fares[fare_id]


@contract('transitfeed.schedule.Schedule.GetAgencyList', prop='C04',
          args='self: Schedule')
def get_agencies(self):
    return self._agencies.values()


@contract('transitfeed.schedule.Schedule.GetServicePeriodList', prop='C04',
          args='self: Schedule')
def get_services(self):
    return self.service_periods.values()


@contract('transitfeed.schedule.Schedule.GetStopList', prop='C04',
          args='self: Schedule')
def get_stops(self):
    return self.stops.values()


@contract('transitfeed.schedule.Schedule.GetRouteList', prop='C04',
          args='self: Schedule')
def get_routes(self):
    return self.routes.values()


@contract('transitfeed.schedule.Schedule.GetTripList', prop='C04',
          args='self: Schedule')
def get_trips(self):
    return self.trips.values()


@contract('transitfeed.schedule.Schedule.GetShapeList', prop='C04',
          args='self: Schedule')
def get_shapes(self):
    return self._shapes.values()


@contract('transitfeed.schedule.Schedule.GetFareAttributeList', prop='C04',
          args='self: Schedule')
def get_fares(self):
    return self.fares.values()


@contract('transitfeed.schedule.Schedule.GetFareZones', prop='C04',
          args='self: Schedule')
def get_zones(self):
    return self.fare_zones.keys()


@contract('transitfeed.schedule.Schedule.GetTransferList', prop='C04',
          args='self: Schedule')
def get_transfers(self):
    out = []
    for group in self._transfers.values():
        out.extend(group)
    return out


# ------------------------------------------------ building a feed by calls
@contract('transitfeed.schedule.Schedule.AddAgency', prop='C04',
          args='self: Schedule, name: Opt[Str], url: Opt[Str], '
               'timezone: Opt[Str], agency_id: Opt[Str]',
          requires='not agency_id or agency_id not in self._agencies')
def make_agency(self, name, url, timezone, agency_id):
    a = self._gtfs_factory.Agency(name, url, timezone, agency_id)
    add_agency(self, a, None, False)
    return a


@contract('transitfeed.schedule.Schedule.AddStop', prop='C04',
          args='self: Schedule, lat: Union[Float,Str], lng: Union[Float,Str], '
               'name: Opt[Str], stop_id: Opt[Str]')
def make_stop(self, lat, lng, name, stop_id):
    if stop_id is None:
        stop_id = find_unique_id(self.stops)
    s = self._gtfs_factory.Stop(lat=lat, lng=lng, name=name, stop_id=stop_id)
    add_stop(self, s, None)
    return s


@contract('transitfeed.schedule.Schedule.SetDefaultAgency', prop='C04',
          args='self: Schedule, agency: Agency, validate: Bool',
          requires='agency._schedule is None',
          ensures=['self._default_agency is agency',
                   'agency.agency_id in self._agencies'])
def set_default_agency(self, agency, validate):
    self._default_agency = agency
    if agency.agency_id not in self._agencies:
        add_agency(self, agency, None, validate)


@contract('transitfeed.schedule.Schedule.NewDefaultAgency', prop='C04',
          args='self: Schedule',
          ensures=['result.agency_id in self._agencies'])
def new_default_agency(self):
    a = self._gtfs_factory.Agency()
    a.agency_id = find_unique_id(self._agencies)
    set_default_agency(self, a, False)
    return a


@contract('transitfeed.schedule.Schedule.GetDefaultAgency', prop='C04',
          args='self: Schedule')
def get_default_agency(self):
    if self._default_agency is None:
        if len(self._agencies) == 0:
            new_default_agency(self)
        elif len(self._agencies) == 1:
            self._default_agency = self._agencies.values()[0]
    return self._default_agency


@contract('transitfeed.schedule.Schedule.SetDefaultServicePeriod', prop='C04',
          args='self: Schedule, service_period: ServicePeriod, validate: Bool',
          requires=['len(service_period.original_day_values) <= 7',
                    "not (service_period.start_date or '').endswith('\\n')",
                    "not (service_period.end_date or '').endswith('\\n')",
                    "all(not d.endswith('\\n') "
                    "for d in service_period.date_exceptions)"],
          ensures=['self._default_service_period is service_period',
                   'service_period.service_id in self.service_periods'])
def set_default_service(self, service_period, validate):
    self._default_service_period = service_period
    if service_period.service_id not in self.service_periods:
        add_service_period(self, service_period, None, validate)


@contract('transitfeed.schedule.Schedule.NewDefaultServicePeriod', prop='C04',
          args='self: Schedule',
          ensures=['result.service_id in self.service_periods'])
def new_default_service(self):
    p = self._gtfs_factory.ServicePeriod()
    p.service_id = find_unique_id(self.service_periods)
    set_default_service(self, p, False)
    return p


@contract('transitfeed.schedule.Schedule.GetDefaultServicePeriod', prop='C04',
          args='self: Schedule')
def get_default_service(self):
    if self._default_service_period is None:
        if len(self.service_periods) == 0:
            new_default_service(self)
        elif len(self.service_periods) == 1:
            self._default_service_period = self.service_periods.values()[0]
    return self._default_service_period


@contract('transitfeed.schedule.Schedule.AddRoute', prop='C04',
          args='self: Schedule, short_name: Opt[Str], long_name: Opt[Str], '
               'route_type: Union[Int,Str], route_id: Opt[Str]',
          requires=['self._default_agency is not None'])
def make_route(self, short_name, long_name, route_type, route_id):
    if route_id is None:
        route_id = find_unique_id(self.routes)
    r = self._gtfs_factory.Route(short_name=short_name, long_name=long_name,
                                 route_type=route_type, route_id=route_id)
    r.agency_id = self._default_agency.agency_id
    add_route(self, r, None)
    return r


@contract('transitfeed.route.Route.AddTrip', prop='C04',
          args='self: Route, schedule: Opt[Schedule], headsign: Opt[Str], '
               'service_period: Opt[ServicePeriod], trip_id: Opt[Str]',
          requires=['self._schedule is not None', 'schedule is None',
                    'service_period is not None'])
def make_trip(self, schedule, headsign, service_period, trip_id):
    s = self._schedule
    if trip_id is None:
        trip_id = find_unique_id(s.trips)
    t = s._gtfs_factory.Trip(route=self, headsign=headsign,
                             service_period=service_period, trip_id=trip_id)
    add_trip(s, t, None, False)
    return t
