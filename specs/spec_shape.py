"""Shapes and shape points (shape.py, shapepoint.py)."""
import bisect
from speclib import contract, lemma, scenario, classdecl, implies
from transitfeed import util
from transitfeed import errors
from spec_util import (is_empty, float_string_to_float,
                       non_neg_int_string_to_int)

SEQ = [0, 1, 2, 3, 5, 9]
DIST = [0.0, 1.0, 2.0, 2.5, 3.0, 10.0]


# ------------------------------------------------------------ one point
@contract('transitfeed.shapepoint.ShapePoint.__init__', prop='C09',
          args='self: New[ShapePoint], shape_id: Opt[Str], '
               'lat: Union[None,Float,Str], lon: Union[None,Float,Str], '
               'seq: Union[None,Int,Str], dist: Union[None,Float,Str], '
               'field_dict: Opt[Dict[Str,Str]]')
def point_init(self, shape_id, lat, lon, seq, dist, field_dict):
    self._schedule = None
    if field_dict:
        self.__dict__.update(field_dict)
    else:
        self.shape_id = shape_id
        self.shape_pt_lat = lat
        self.shape_pt_lon = lon
        self.shape_pt_sequence = seq
        self.shape_dist_traveled = dist


def coordinate(self, field, limit, problems):
    """The coordinate is made a number; True if it lies within the limit."""
    v = getattr(self, field)
    try:
        if not isinstance(v, (int, float)):
            v = float_string_to_float(v, problems)
            setattr(self, field, v)
    except (TypeError, ValueError):
        problems.InvalidValue(field, v)
        return False
    if v > limit or v < -limit:
        problems.InvalidValue(field, v)
        return False
    return True


@contract('transitfeed.shapepoint.ShapePoint.ParseAttributes', prop='C09',
          args='self: ShapePoint, problems: Reporter', cases=4000,
          modular='event', ret='Opt[Bool]', budget=250,
          reads=['self.shape_id', 'self.shape_pt_lat', 'self.shape_pt_lon',
                 'self.shape_pt_sequence', 'self.shape_dist_traveled'],
          writes=['self.shape_pt_lat', 'self.shape_pt_lon',
                  'self.shape_pt_sequence', 'self.shape_dist_traveled'],
          ensures=['not result or (isinstance(self.shape_pt_sequence, int) '
                   'and isinstance(self.shape_pt_lat, float) and '
                   'isinstance(self.shape_pt_lon, float) and '
                   '(self.shape_dist_traveled is None or '
                   'isinstance(self.shape_dist_traveled, float)))'],
          pools={'ShapePoint.shape_pt_lat': [37.5, 90.0, 90.5, -90.5, 0.5, 1.0,
                                             '37.5', '95', 'x', '', None],
                 'ShapePoint.shape_pt_lon': [-122.0, 180.0, 180.5, -180.5, 0.5,
                                             1.0, '0.5', '-181', 'x', '',
                                             None],
                 'ShapePoint.shape_pt_sequence': [0, 3, -1, '4', '-4', 'x',
                                                  '', None],
                 'ShapePoint.shape_dist_traveled': [0.0, 2.5, -1.0, '2', '-2',
                                                    'x', '', None],
                 'ShapePoint.shape_id': ['S', '', ' ', None]})
def parse_point(self, problems):
    """True exactly when the point can be used."""
    if is_empty(self.shape_id):
        problems.MissingValue('shape_id')
        return None
    try:
        if isinstance(self.shape_pt_sequence, int):
            if self.shape_pt_sequence < 0:
                problems.InvalidValue('shape_pt_sequence',
                                      self.shape_pt_sequence)
        else:
            self.shape_pt_sequence = non_neg_int_string_to_int(
                self.shape_pt_sequence, problems)
    except (TypeError, ValueError):
        problems.InvalidValue('shape_pt_sequence', self.shape_pt_sequence)
        return None
    if not coordinate(self, 'shape_pt_lat', 90, problems):
        return None
    if not coordinate(self, 'shape_pt_lon', 180, problems):
        return None
    if -1 < self.shape_pt_lat < 1 and -1 < self.shape_pt_lon < 1:
        problems.InvalidValue('shape_pt_lat', self.shape_pt_lat,
                              type=errors.TYPE_WARNING)
        return None
    d = self.shape_dist_traveled
    if d == '':
        d = None
        self.shape_dist_traveled = d
    if d is not None and not isinstance(d, (int, float)):
        try:
            d = float_string_to_float(d, problems)
            self.shape_dist_traveled = d
        except (TypeError, ValueError):
            problems.InvalidValue('shape_dist_traveled', d)
            return None
    if d is not None and d < 0:
        problems.InvalidValue('shape_dist_traveled', d)
        return None
    return True


# ------------------------------------------------------------ adding points
def slot(seqs, n):
    """Where the point with sequence number n belongs."""
    if not seqs or n >= seqs[-1]:
        return len(seqs)
    if n <= seqs[0]:
        return 0
    return bisect.bisect(seqs, n)


ALIGNED = ['len(self.distance) == len(self.sequence)',
           'len(self.points) == len(self.sequence)']
USABLE = ['isinstance(shapepoint.shape_pt_sequence, int)',
          'isinstance(shapepoint.shape_pt_lat, float)',
          'isinstance(shapepoint.shape_pt_lon, float)',
          'shapepoint.shape_dist_traveled is None or '
          'isinstance(shapepoint.shape_dist_traveled, float)']
POINTS = {'len(sequence)': [0, 1, 2, 3],
          'ShapePoint.shape_pt_sequence': SEQ,
          'ShapePoint.shape_pt_lat': [37.5, 37.6],
          'ShapePoint.shape_pt_lon': [-122.0, -122.1],
          'ShapePoint.shape_dist_traveled': DIST + [None],
          'Shape.sequence.item': SEQ, 'Shape.distance.item': DIST + [None],
          'Shape.points.item.2': DIST + [None],
          'Shape.max_distance': DIST}


@contract('transitfeed.shape.Shape.AddShapePointObjectUnsorted', prop='C09',
          args='self: Shape, shapepoint: ShapePoint, problems: Reporter',
          requires=ALIGNED + USABLE, cases=4000, pools=POINTS)
def add_point(self, shapepoint, problems):
    """The point goes where its sequence number belongs."""
    n = shapepoint.shape_pt_sequence
    d = shapepoint.shape_dist_traveled
    at = slot(self.sequence, n)
    if n in self.sequence:
        problems.InvalidValue('shape_pt_sequence', n)
    if d is not None and len(self.sequence) > 0:
        if at < len(self.sequence) and self.distance[at] is not None and \
                d > self.distance[at]:
            problems.InvalidValue('shape_dist_traveled', d)
        if at > 0 and d < self.distance[at - 1]:
            problems.InvalidValue('shape_dist_traveled', d)
    if d is not None and d > self.max_distance:
        self.max_distance = d
    self.sequence.insert(at, n)
    self.distance.insert(at, d)
    self.points.insert(at, (shapepoint.shape_pt_lat, shapepoint.shape_pt_lon,
                            d))


@contract('transitfeed.shape.Shape.AddPoint', prop='C09',
          args='self: Shape, lat: Union[Float,Str], lon: Union[Float,Str], '
               'distance: Union[None,Float,Str], problems: Reporter',
          requires=ALIGNED, cases=3000, budget=300,
          pools=dict(lat=[37.5, 95.0, '37.5', 'x', 0.5],
                     lon=[-122.0, 190.0, '-122', 'x', 0.5],
                     distance=[0.0, 1.0, 2.5, -1.0, '2', 'x', '', None]))
def add_point_values(self, lat, lon, distance, problems):
    """A usable point is added after the points there are."""
    point = self.GetGtfsFactory().ShapePoint(
        self.shape_id, lat, lon, len(self.sequence), distance)
    if parse_point(point, problems):
        add_point(self, point, problems)


# ------------------------------------------------------------ whole shape
@contract('transitfeed.shape.Shape.__init__', prop='C09',
          args='self: New[Shape], shape_id: Opt[Str]')
def shape_init(self, shape_id):
    self.shape_id = shape_id
    self.points = []
    self.distance = []
    self.sequence = []
    self.max_distance = 0


@contract('transitfeed.shape.Shape.Validate', prop='C09',
          args='self: Shape, problems: Reporter')
def shape_validate(self, problems):
    if is_empty(self.shape_id):
        problems.MissingValue('shape_id')
    if len(self.points) == 0:
        problems.OtherProblem('no points', type=errors.TYPE_WARNING)


@contract('transitfeed.shape.Shape.__eq__', prop='C09',
          args='self: Shape, other: Opt[Shape]')
def shape_eq(self, other):
    if other is None:
        return False
    return self.points == other.points


@contract('transitfeed.shape.Shape.GetPointWithDistanceTraveled',
          prop='C09,C06', modular='event', ret='Opt[Tuple[Float,Float,Opt[Float]]]',
          reads=['self.points', 'self.distance'],
          args='self: Shape, shape_dist_traveled: Float',
          requires=['len(self.points) == len(self.distance)',
                    'all(d is not None for d in self.distance)',
                    'all(p[2] is not None for p in self.points)'],
          cases=2000, pools={
              'shape_dist_traveled': [0.0, 0.5, 1.0, 1.5, 2.0, 2.2, 11.0],
              'Shape.distance.item': DIST, 'Shape.points.item.2': DIST})
def point_at_distance(self, shape_dist_traveled):
    """The end points beyond the ends; between them, the point that divides
    the segment in proportion to the distance."""
    d = shape_dist_traveled
    n = len(self.distance)
    if n == 0:
        return None
    if d <= self.distance[0]:
        return self.points[0]
    if d >= self.distance[n - 1]:
        return self.points[n - 1]
    i = bisect.bisect(self.distance, d)
    a, b = self.points[i - 1], self.points[i]
    if a[2] == b[2]:
        return None
    share = (d - a[2]) / (b[2] - a[2])
    return (a[0] + (b[0] - a[0]) * share, a[1] + (b[1] - a[1]) * share, d)


# ------------------------------------------------------------ lemmas
@lemma(prop='C09', args='seqs: List[Int], n: Int',
       requires=['all(seqs[i] <= seqs[i + 1] for i in range(len(seqs) - 1))',
                 'all(seqs[i] <= seqs[j] for i in range(len(seqs)) '
                 'for j in range(len(seqs)) if i <= j)'],
       ensures=['all(result[i] <= result[i + 1] '
                'for i in range(len(result) - 1))',
                'len(result) == len(seqs) + 1'])
def insertion_keeps_order(seqs, n):
    """Points stay in sequence order whatever the order of insertion."""
    out = list(seqs)
    out.insert(slot(seqs, n), n)
    return out


@contract('transitfeed.shape.Shape.ClearPoints', prop='C09',
          args='self: Shape')
def clear_points(self):
    self.points = []
    self.distance = []
    self.sequence = []
    self.max_distance = 0
