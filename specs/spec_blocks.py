"""Trips of one block that are under way at the same time (C15)."""
from speclib import contract, lemma, scenario, classdecl, implies
from transitfeed import util
from spec_service import active_dates


def dated(period):
    return len(period.day_of_week) == 7 and (
        period.GetDateRange()[0] is None or
        period.GetDateRange()[1] is None or
        (util.DateStringToDateObject(period.GetDateRange()[0]) is not None and
         util.DateStringToDateObject(period.GetDateRange()[1]) is not None))


def common_date(self, a, b):
    """Do the two service periods share an active date?"""
    da = active_dates(self.service_periods[a])
    db = active_dates(self.service_periods[b])
    for d in da:
        if d in db:
            return True
    return False


@contract('transitfeed.schedule.Schedule.ValidateBlocks', prop='C15',
          args='self: Schedule, problems: Reporter, trip_intervals_by_block_id'
               ': Dict[Str,List[Tuple[Trip,Int,Int]]]',
          requires=['all(dated(p) for p in self.service_periods.values())'],
          bounded='blocks of a few trips of a random small schedule',
          cases=1500)
def blocks(self, problems, trip_intervals_by_block_id):
    shared = {}
    for block, intervals in trip_intervals_by_block_id.items():
        intervals.sort(key=lambda x: x[1])
        for i in range(len(intervals)):
            a = intervals[i]
            for j in range(i + 1, len(intervals)):
                b = intervals[j]
                if a[2] <= b[1]:
                    break
                sa, sb = a[0].service_id, b[0].service_id
                if sa == sb:
                    problems.OverlappingTripsInSameBlock(
                        a[0].trip_id, b[0].trip_id, block)
                    continue
                pair = tuple(sorted([sa, sb]))
                if pair not in shared:
                    if sa not in self.service_periods or \
                            sb not in self.service_periods:
                        continue
                    shared[pair] = common_date(self, sa, sb)
                if shared[pair]:
                    problems.OverlappingTripsInSameBlock(
                        a[0].trip_id, b[0].trip_id, block)
