"""Searching stops by place (transitfeed/schedule.py)."""
from speclib import contract, lemma, scenario, classdecl, implies
from transitfeed import util
from spec_util import is_empty, is_coord
from transitfeed import errors

PLACES = [0.0, 0.00001, 0.000017, 0.00002, -0.00001, 37.5, 37.500017,
          37.50001, None]


def placed(s):
    """Does the stop have both coordinates?"""
    return isinstance(s.stop_lat, float) and isinstance(s.stop_lon, float)


@contract('transitfeed.schedule.Schedule.GetStopsInBoundingBox', prop='C26',
          args='self: Schedule, north: Float, east: Float, south: Float, '
               'west: Float, n: Int', cases=600,
          requires=['all(placed(s) for s in self.stops.values())'],
          pools={'n': [-1, 0, 1, 2, 3, 10], 'north': [1.0, 40.0, 90.0],
                 'south': [0.0, -1.0, 37.5], 'east': [0.5, 180.0, 37.50001],
                 'west': [0.0, -180.0, 0.5],
                 'Stop.stop_lat': [0.0, 0.5, -0.5, 37.5, 90.0, 1.0],
                 'Stop.stop_lon': [0.0, 0.5, -0.5, -122.25, 37.50001]})
def in_box(self, north, east, south, west, n):
    """The stops inside or on the border, the first n of them if so many."""
    found = []
    for s in self.stops.values():
        inside = (south <= s.stop_lat and s.stop_lat <= north and
                  west <= s.stop_lon and s.stop_lon <= east)
        if inside:
            found.append(s)
            if len(found) == n:
                break
    return found


def square(s, lat, lon):
    return (s.stop_lat - lat) ** 2 + (s.stop_lon - lon) ** 2


@contract('transitfeed.schedule.Schedule.GetNearestStops', prop='C26',
          args='self: Schedule, lat: Float, lon: Float, n: Int',
          requires=['n >= 1',
                    'all(placed(s) for s in self.stops.values())',
                    'all(s is t or square(s, lat, lon) != '
                    'square(t, lat, lon) for s in self.stops.values() '
                    'for t in self.stops.values())'],
          bounded='random schedules of a few stops at different distances',
          cases=2500,
          pools={'n': [1, 2, 3, 10], 'lat': [0.0, 0.3, 37.0],
                 'lon': [0.1, 0.7, -100.0],
                 'Stop.stop_lat': [0.0, 0.5, -0.55, 37.5, 90.0, 1.0],
                 'Stop.stop_lon': [0.0, 0.52, -0.56, -122.25, 37.50001]})
def nearest(self, lat, lon, n):
    by_distance = sorted(self.stops.values(),
                         key=lambda s: square(s, lat, lon))
    return by_distance[:n]


def place_key(s):
    return [s.stop_lat, s.stop_lon, getattr(s, 'stop_id', None)]


@contract('transitfeed.schedule.Schedule.ValidateNearbyStops', prop='C26',
          args='self: Schedule, problems: Reporter',
          requires=['all(is_coord(s.stop_lat) and is_coord(s.stop_lon) '
                    'for s in self.stops.values())'],
          bounded='random schedules of a few stops', cases=3000, maxlen=6,
          pools={'Stop.stop_lat': PLACES, 'Stop.stop_lon': PLACES,
                 'Stop.location_type': [0, 0, 1, 1, 2],
                 'Stop.parent_station': ['S1', 'S2', None]})
def nearby(self, problems):
    """Each pair of stops less than two meters apart, by their kinds."""
    stops = sorted([s for s in self.stops.values()
                    if s.stop_lat is not None and s.stop_lon is not None],
                   key=place_key)
    for i, a in enumerate(stops):
        for b in stops[i + 1:]:
            distance = util.ApproximateDistance(a.stop_lat, a.stop_lon,
                                                b.stop_lat, b.stop_lon)
            if distance >= 2:
                continue
            kinds = (a.location_type, b.location_type)
            if kinds == (0, 0):
                problems.StopsTooClose(a.stop_name, a.stop_id, b.stop_name,
                                       b.stop_id, distance)
            elif kinds == (1, 1):
                problems.StationsTooClose(a.stop_name, a.stop_id,
                                          b.stop_name, b.stop_id, distance)
            elif kinds == (0, 1) and a.parent_station != b.stop_id:
                problems.DifferentStationTooClose(
                    a.stop_name, a.stop_id, b.stop_name, b.stop_id, distance)
            elif kinds == (1, 0) and b.parent_station != a.stop_id:
                problems.DifferentStationTooClose(
                    b.stop_name, b.stop_id, a.stop_name, a.stop_id, distance)
