"""Merging two feeds (merge.py)."""
import datetime
import transitfeed
from transitfeed import util
from speclib import contract, lemma, scenario, classdecl, implies
from merge import MergeError
from spec_schedule import fine

classdecl('FeedMerger', 'merge.FeedMerger', fields={
    'a_schedule': 'Schedule',
    'b_schedule': 'Schedule',
    'merged_schedule': 'Schedule',
    'problem_reporter': 'Reporter',
    'a_zone_map': 'Dict[Opt[Str],Opt[Str]]',
    'b_zone_map': 'Dict[Opt[Str],Opt[Str]]',
    'a_merge_map': 'Dict[Union[Stop,ServicePeriod],'
                   'Union[Stop,ServicePeriod]]',
    'b_merge_map': 'Dict[Union[Stop,ServicePeriod],'
                   'Union[Stop,ServicePeriod]]',
    '_idnum': 'Int',
}, pools={'_idnum': [0, 1, 7, 99]})

classdecl('ServicePeriodMerger', 'merge.ServicePeriodMerger', fields={
    'feed_merger': 'FeedMerger',
    'require_disjoint_calendars': 'Bool',
    '_num_merged': 'Int',
    '_num_not_merged_a': 'Int',
    '_num_not_merged_b': 'Int',
})

classdecl('DataSetMerger', 'merge.DataSetMerger', fields={
    'feed_merger': 'FeedMerger',
    '_num_merged': 'Int',
    '_num_not_merged_a': 'Int',
    '_num_not_merged_b': 'Int',
})


classdecl('AgencyMerger', 'merge.AgencyMerger', fields={
    'feed_merger': 'FeedMerger',
    '_num_merged': 'Int',
    '_num_not_merged_a': 'Int',
    '_num_not_merged_b': 'Int',
})

classdecl('RouteMerger', 'merge.RouteMerger', fields={
    'feed_merger': 'FeedMerger',
    '_num_merged': 'Int',
    '_num_not_merged_a': 'Int',
    '_num_not_merged_b': 'Int',
})

classdecl('FareMerger', 'merge.FareMerger', fields={
    'feed_merger': 'FeedMerger',
    '_num_merged': 'Int',
    '_num_not_merged_a': 'Int',
    '_num_not_merged_b': 'Int',
})

classdecl('ShapeMerger', 'merge.ShapeMerger', fields={
    'feed_merger': 'FeedMerger',
    '_num_merged': 'Int',
    '_num_not_merged_a': 'Int',
    '_num_not_merged_b': 'Int',
    'largest_shape_distance': 'Float',
})

classdecl('StopMerger', 'merge.StopMerger', fields={
    'feed_merger': 'FeedMerger',
    '_num_merged': 'Int',
    '_num_not_merged_a': 'Int',
    '_num_not_merged_b': 'Int',
    'largest_stop_distance': 'Float',
    '_merged': 'List[Tuple[Stop,Stop,Stop]]',
    '_a_not_merged': 'List[Tuple[Stop,Stop]]',
    '_b_not_merged': 'List[Tuple[Stop,Stop]]',
})

@contract('merge.FeedMerger.GenerateId', prop='C21',
          args='self: FeedMerger, entity_id: Opt[Str]')
def generate_id(self, entity_id):
    """An id with a number no id of the two feeds ends with."""
    self._idnum += 1
    if not entity_id:
        return 'merged_%d' % self._idnum
    return '%s_merged_%d' % (entity_id, self._idnum)


@contract('merge.FeedMerger.GetScheduleName', prop='C21',
          args='self: FeedMerger, schedule: Schedule', raises='KeyError')
def schedule_name(self, schedule):
    if schedule is self.b_schedule:
        return 'b'
    if schedule is self.a_schedule:
        return 'a'
    raise KeyError(schedule)


@contract('merge.DataSetMerger._MergeIdentical', prop='C21',
          args='self: DataSetMerger, a: Union[None,Str,Int], '
               'b: Union[None,Str,Int]',
          pools={'a': ['x', 'X', '', None, 0, 1], 'b': ['x', '', None, 0, 1]})
def merge_identical(self, a, b):
    if a == b:
        return b
    raise MergeError()


@contract('merge.DataSetMerger._MergeIdenticalCaseInsensitive', prop='C21',
          args='self: DataSetMerger, a: Str, b: Str',
          pools={'a': ['x', 'X', '', 'y'], 'b': ['x', '', 'X', 'Y']})
def merge_ignoring_case(self, a, b):
    if a.lower() == b.lower():
        return b
    raise MergeError()


@contract('merge.DataSetMerger._MergeOptional', prop='C21',
          args='self: DataSetMerger, a: Opt[Str], b: Opt[Str]',
          pools={'a': ['x', 'X', '', None], 'b': ['x', '', 'X', None]})
def merge_optional(self, a, b):
    """The value of either; both only if they agree."""
    if not a:
        return b
    if not b or a == b:
        return a
    raise MergeError()


def no_later(a, b):
    """Order of dates where None is before everything."""
    return a is None or (b is not None and a <= b)


@contract('merge.ServicePeriodMerger.CheckDisjointCalendars', prop='C22',
          args='self: ServicePeriodMerger')
def disjoint(self):
    """No date range of the old feed shares a day with one of the new."""
    for a in self.feed_merger.a_schedule.service_periods.values():
        first, last = a.GetDateRange()
        for b in self.feed_merger.b_schedule.service_periods.values():
            begin, end = b.GetDateRange()
            if no_later(first, last) and no_later(begin, end) and \
                    no_later(begin, last) and no_later(first, end):
                return False
    return True


def day_before(day):
    return (datetime.date(int(day[:4]), int(day[4:6]), int(day[6:8])) -
            datetime.timedelta(days=1)).strftime('%Y%m%d')


def keep_between(period, start, end):
    """Restricts the period to the days from start to end."""
    if period.start_date is not None and period.start_date < start:
        period.start_date = start
    if period.end_date is not None and period.end_date > end:
        period.end_date = end
    outside = []
    for d in period.date_exceptions:
        if d < start or d > end:
            outside.append(d)
    for d in outside:
        del period.date_exceptions[d]


@contract('merge.ServicePeriodMerger._Migrate', prop='C22,C21',
          args='self: ServicePeriodMerger, original_service_period: '
               'ServicePeriod, schedule: Schedule, newid: Bool')
def migrate_period(self, original_service_period, schedule, newid):
    """A copy with its own lists; a new id when the old one is taken."""
    old = original_service_period
    new = transitfeed.ServicePeriod()
    new.service_id = old.service_id
    if newid:
        new.service_id = self.feed_merger.GenerateId(old.service_id)
    new.day_of_week = list(old.day_of_week)
    new.start_date = old.start_date
    new.end_date = old.end_date
    new.date_exceptions = dict(old.date_exceptions)
    return new


@lemma(prop='C21', args='merger: FeedMerger, a: Opt[Str]',
       requires='merger._idnum >= 0', strings='seq',
       ensures='result[0] != result[1]')
def two_ids_differ(merger, a):
    """Ids generated for one base (or none) are never given twice."""
    first = merger.GenerateId(a)
    return first, merger.GenerateId(a)


@contract('merge.ServicePeriodMerger.DisjoinCalendars', prop='C22',
          args='self: ServicePeriodMerger, cutoff: Str',
          pools={'cutoff': ['20090101', '20100301', '20080229', '20100101']})
def disjoin(self, cutoff):
    """The old feed ends the day before, the new one starts on the day."""
    before = day_before(cutoff)
    for p in self.feed_merger.a_schedule.service_periods.values():
        keep_between(p, 0, before)
    for p in self.feed_merger.b_schedule.service_periods.values():
        keep_between(p, cutoff, '99999999')


@contract('merge.FeedMerger.Register', prop='C21',
          args='self: FeedMerger, a: Opt[Stop], b: Opt[Stop], '
               'migrated_entity: Stop')
def register(self, a, b, migrated_entity):
    """Every entity of either feed leads to its entity in the new feed."""
    for entity, entities in ((a, self.a_merge_map), (b, self.b_merge_map)):
        if entity is not None:
            entity._migrated_entity = migrated_entity
            entities[entity] = migrated_entity


@contract('merge.StopMerger._Add', prop='C21',
          args='self: StopMerger, a: Opt[Stop], b: Opt[Stop], '
               'migrated_stop: Stop')
def add_stop_pair(self, a, b, migrated_stop):
    register(self.feed_merger, a, b, migrated_stop)
    if a is not None and b is not None:
        self._merged.append((a, b, migrated_stop))
    elif a is not None:
        self._a_not_merged.append((a, migrated_stop))
    elif b is not None:
        self._b_not_merged.append((b, migrated_stop))


@contract('merge.RouteMerger._MergeSameAgency', prop='C21',
          args='self: RouteMerger, a_agency_id: Opt[Str], '
               'b_agency_id: Opt[Str]', raises='KeyError')
def merge_same_agency(self, a_agency_id, b_agency_id):
    """The id of the one agency in the new feed that both ids lead to."""
    old = self.feed_merger.a_schedule
    new = self.feed_merger.b_schedule
    if not a_agency_id:
        a_agency_id = old.GetDefaultAgency().agency_id
    if not b_agency_id:
        b_agency_id = new.GetDefaultAgency().agency_id
    a = old._agencies[a_agency_id]._migrated_entity
    b = new._agencies[b_agency_id]._migrated_entity
    if not a == b:
        raise MergeError()
    return a.agency_id


@contract('merge.StopMerger._UpdateAndMigrateUnmerged', prop='C21',
          args='self: StopMerger, not_merged_stops: List[Tuple[Stop,Stop]], '
               'zone_map: Dict[Opt[Str],Opt[Str]]'
               ', merge_map: Dict[Union[Stop,'
               'ServicePeriod],Union[Stop,ServicePeriod]], schedule: Schedule')
def place_unmerged(self, not_merged_stops, zone_map, merge_map, schedule):
    """Zones keep together, parents are looked up in the new feed."""
    fm = self.feed_merger
    for old, new in not_merged_stops:
        if old.zone_id in zone_map:
            new.zone_id = zone_map[old.zone_id]
        else:
            new.zone_id = fm.GenerateId(old.zone_id)
            zone_map[old.zone_id] = new.zone_id
        if old.parent_station:
            parent = schedule.stops[old.parent_station]
            new.parent_station = merge_map[parent].stop_id
        fm.merged_schedule.AddStopObject(new)


@contract('merge.AgencyMerger._Migrate', prop='C21',
          args='self: AgencyMerger, entity: Agency, schedule: Schedule, '
               'newid: Bool')
def migrate_agency(self, entity, schedule, newid):
    """Every column as text; a new id if the old one is taken."""
    new = transitfeed.Agency(field_dict=entity)
    if newid:
        new.agency_id = self.feed_merger.GenerateId(entity.agency_id)
    return new


@contract('merge.StopMerger._Migrate', prop='C21',
          args='self: StopMerger, entity: Stop, schedule: Schedule, '
               'newid: Bool')
def migrate_stop(self, entity, schedule, newid):
    """The same columns with the same values."""
    new = transitfeed.Stop()
    for column, value in entity.iteritems():
        setattr(new, column, value)
    if newid:
        new.stop_id = self.feed_merger.GenerateId(entity.stop_id)
    return new


@contract('merge.RouteMerger._Migrate', prop='C21',
          args='self: RouteMerger, entity: Route, schedule: Schedule, '
               'newid: Bool')
def migrate_route(self, entity, schedule, newid):
    """The agency is the one the route's agency was migrated to."""
    new = transitfeed.Route(field_dict=entity)
    if newid:
        new.route_id = self.feed_merger.GenerateId(entity.route_id)
    if entity.agency_id:
        agency = schedule._agencies[entity.agency_id]
    else:
        agency = schedule.GetDefaultAgency()
    new.agency_id = agency._migrated_entity.agency_id
    return new


@contract('merge.ShapeMerger._Migrate', prop='C21',
          args='self: ShapeMerger, original_shape: Shape, '
               'schedule: Schedule, newid: Bool')
def migrate_shape(self, original_shape, schedule, newid):
    """A shape with the same points in the same order."""
    name = original_shape.shape_id
    new = transitfeed.Shape(name)
    if newid:
        new.shape_id = self.feed_merger.GenerateId(name)
    for point in original_shape.points:
        new.AddPoint(point[0], point[1], point[2])
    return new


@contract('merge.AgencyMerger._MergeEntities', prop='C21',
          args='self: AgencyMerger, a: Agency, b: Agency',
          garbage=True)
def merge_agencies(self, a, b):
    """The agency of the new feed, if both feeds say the same about it."""
    new = transitfeed.Agency(field_dict=b)
    if (a.agency_id or None) != (b.agency_id or None) or \
            a.agency_name != b.agency_name or \
            a.agency_url != b.agency_url or \
            a.agency_timezone != b.agency_timezone:
        raise MergeError()
    new.agency_id = b.agency_id or None
    new.agency_name = b.agency_name
    new.agency_url = b.agency_url
    new.agency_timezone = b.agency_timezone
    return new


@contract('merge.StopMerger._MergeEntities', prop='C21',
          args='self: StopMerger, a: Stop, b: Stop', garbage=True,
          requires=['isinstance(a.stop_lat, float)',
                    'isinstance(a.stop_lon, float)',
                    'isinstance(b.stop_lat, float)',
                    'isinstance(b.stop_lon, float)',
                    'isinstance(a.stop_name, basestring)',
                    'isinstance(b.stop_name, basestring)'],
          pools={'Stop.stop_lat': [37.5, 37.50005, 37.6],
                 'Stop.stop_lon': [1.0, 1.00005], 'Stop.stop_name': ['a', 'A', 'b'],
                 'Stop.stop_id': ['S1', 'S2'], 'Stop.zone_id': ['z', None],
                 'Stop.location_type': [0, 1]}, cases=1000)
def merge_stops(self, a, b):
    """The stop of the new feed, if both are close and named the same."""
    if util.ApproximateDistanceBetweenStops(a, b) > \
            self.largest_stop_distance:
        raise MergeError()
    new = transitfeed.Stop(field_dict=b)
    if a.stop_id != b.stop_id or a.stop_name.lower() != b.stop_name.lower() \
            or a.zone_id != b.zone_id or a.location_type != b.location_type:
        raise MergeError()
    new.stop_id = b.stop_id
    new.stop_name = b.stop_name
    new.zone_id = b.zone_id
    new.location_type = b.location_type
    return new


@contract('merge.DataSetMerger._MergeSameId', prop='C21,C22',
          args='self: ServicePeriodMerger', cases=600,
          bounded='random pairs of schedules of a few periods',
          requires=['all(fine(p) for p in self.feed_merger.a_schedule.'
                    'service_periods.values())',
                    'all(fine(p) for p in self.feed_merger.b_schedule.'
                    'service_periods.values())'],
          invariants=['all(fine(p) for p in self.feed_merger.a_schedule.'
                      'service_periods.values())',
                      'all(fine(p) for p in self.feed_merger.b_schedule.'
                      'service_periods.values())',
                      'all(fine(p) for p in a_left)',
                      'all(fine(p) for p in b_left)'])
def move_all_periods(self):
    """Every period of either feed gets a copy of its own; where both feeds
    use an id both copies get a new one."""
    old = self.feed_merger.a_schedule.service_periods
    new = self.feed_merger.b_schedule.service_periods
    a_left, b_left = [], []
    for a in old.values():
        a_left.append(a)
        if a.service_id in new:
            b_left.append(new[a.service_id])
    for b in new.values():
        if b.service_id not in old:
            b_left.append(b)
    for a in a_left:
        self._Add(a, None, self._Migrate(a, self.feed_merger.a_schedule,
                                         a.service_id in new))
    for b in b_left:
        self._Add(None, b, self._Migrate(b, self.feed_merger.b_schedule,
                                         b.service_id in old))
    self._num_not_merged_a = len(a_left)
    self._num_not_merged_b = len(b_left)
    return self._num_merged


@contract('merge.ServicePeriodMerger._Add', prop='C21,C22',
          args='self: ServicePeriodMerger, a: Opt[ServicePeriod], '
               'b: Opt[ServicePeriod], migrated_service_period: ServicePeriod',
          requires='fine(migrated_service_period)')
def add_period(self, a, b, migrated_service_period):
    register(self.feed_merger, a, b, migrated_service_period)
    self.feed_merger.merged_schedule.AddServicePeriodObject(
        migrated_service_period)
