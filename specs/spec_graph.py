"""The graph of polylines (transitfeed/shapelib.py)."""
from speclib import contract, lemma, scenario, classdecl, implies
import math
from transitfeed import shapelib


def random_graph(rng):
    """(graph, nodes, edges) with an edge (i, j, poly) between nodes"""
    n = rng.choice([2, 3, 4, 5, 6])
    spread = rng.choice([0.001, 0.01, 1.0])
    spots = rng.sample([(a, b) for a in range(4) for b in range(4)], n)
    nodes = [shapelib.Point.FromLatLng(10 + spread * a, 20 + spread * b)
             for a, b in spots]
    g = shapelib.PolyGraph()
    edges = []
    for k in range(rng.choice([1, n, n, 2 * n])):
        i, j = rng.sample(range(n), 2)
        points = [nodes[i]]
        for m in range(rng.choice([0, 0, 0, 1, 2])):
            points.append(shapelib.Point.FromLatLng(
                10 + spread * rng.uniform(-1, 5),
                20 + spread * rng.uniform(-1, 5)))
        points.append(nodes[j])
        poly = shapelib.Poly(points, 'e%d' % k)
        g.AddPoly(poly)
        edges.append((i, j, poly))
    return g, nodes, edges


def length(points):
    return sum(points[k].GetDistanceMeters(points[k + 1])
               for k in range(len(points) - 1))


def least(n, edges):
    """Least distances between all nodes."""
    d = [[0.0 if i == j else None for j in range(n)] for i in range(n)]
    for i, j, poly in edges:
        x = length(poly.GetPoints())
        for a, b in ((i, j), (j, i)):
            if d[a][b] is None or x < d[a][b]:
                d[a][b] = x
    for k in range(n):
        for i in range(n):
            for j in range(n):
                if d[i][k] is not None and d[k][j] is not None and (
                        d[i][j] is None or d[i][k] + d[k][j] < d[i][j]):
                    d[i][j] = d[i][k] + d[k][j]
    return d


def same(p, q):
    return (p.x, p.y, p.z) == (q.x, q.y, q.z)


def is_walk(points, start, goal, edges):
    """Do the points follow edges of the graph from start to goal?"""
    if not (same(points[0], start) and same(points[-1], goal)):
        return False
    ends = set([0])      # positions at which an edge may begin
    for k in range(len(points)):
        if k not in ends:
            continue
        for i, j, poly in edges:
            way = poly.GetPoints()
            for w in (way, way[::-1]):
                part = points[k:k + len(w)]
                if len(part) == len(w) and all(
                        same(a, b) for a, b in zip(part, w)):
                    ends.add(k + len(w) - 1)
    return len(points) - 1 in ends


@scenario(prop='C29', cases=1500)
def shortest_paths(rng):
    """All pairs of nodes of random graphs of up to six nodes."""
    g, nodes, edges = random_graph(rng)
    d = least(len(nodes), edges)
    used = sorted(set(k for i, j, p in edges for k in (i, j)))
    for i in used:
        for j in used:
            path = g.ShortestPath(nodes[i], nodes[j])
            if d[i][j] is None:
                assert path is None
                continue
            points = path.GetPoints()
            if i == j:
                assert not points
                continue
            assert is_walk(points, nodes[i], nodes[j], edges), (i, j)
            x = path.LengthMeters()
            assert abs(x - d[i][j]) <= 1e-6 * (1 + x), (i, j, x, d[i][j])
            assert abs(length(points) - x) <= 1e-9 * (1 + x)


@scenario(prop='C29', cases=600)
def paths_through_points(rng):
    """The best path through up to four places that are each near some
    nodes, when every partial path fits into what is kept."""
    g, nodes, edges = random_graph(rng)
    d = least(len(nodes), edges)
    used = sorted(set(k for i, j, p in edges for k in (i, j)))
    places = [nodes[rng.choice(used)] for k in range(rng.choice([2, 3, 4]))]
    radius = rng.choice([1.0, 200.0, 2000.0])
    near = [[k for k in used if nodes[k].GetDistanceMeters(p) < radius]
            for p in places]
    keep = rng.choice([1, 2, 1000])
    path = g.FindShortestMultiPointPath(places, max_radius=radius,
                                        keep_best_n=keep)
    # with everything kept the result is the best of all choices of nodes
    # (the first two of them different); keeping less prunes after a place
    kept = [(d[a][b], (a, b)) for a in near[0] for b in near[1]
            if a != b and d[a][b] is not None]
    if keep < 1000 and len(kept) > keep:
        xs = sorted(x for x, w in kept)
        if xs[keep - 1] * (1 + 1e-6) + 1e-6 >= xs[keep]:
            return          # which is kept is a matter of rounding
        kept = sorted(kept)[:keep]
    for k in range(2, len(places)):
        kept = [(x + d[w[-1]][b], w + (b,)) for x, w in kept
                for b in near[k] if d[w[-1]][b] is not None]
        if keep < 1000 and len(kept) > keep:
            xs = sorted(x for x, w in kept)
            if xs[keep - 1] * (1 + 1e-6) + 1e-6 >= xs[keep]:
                return
            kept = sorted(kept)[:keep]
    if not kept:
        assert path is None
        return
    best, way = min(kept)
    x = path.LengthMeters()
    assert abs(x - best) <= 1e-6 * (1 + best), (x, best, way)
    first = [k for k in near[0] if same(nodes[k], path.GetPoint(0))]
    last = [k for k in near[-1] if same(nodes[k], path.GetPoint(-1))]
    assert first and last
    assert is_walk(path.GetPoints(), nodes[first[0]], nodes[last[0]], edges)


@scenario(prop='C29', cases=800)
def merged_lines(rng):
    """Merging keeps all points in order but for an end that is met again."""
    lines = []
    base = shapelib.Point.FromLatLng(10, 20)
    for k in range(rng.choice([0, 1, 2, 3])):
        lines.append(shapelib.Poly(
            [shapelib.Point.FromLatLng(10 + 1e-5 * rng.randrange(4),
                                       20 + 1e-4 * rng.randrange(3))
             for m in range(rng.choice([0, 1, 2, 3]))],
            rng.choice([None, 'n%d' % k])))
    threshold = rng.choice([0, 3, 10])
    want = []
    for n, line in enumerate(lines):
        points = list(line.GetPoints())
        if n and want and points and \
                want[-1].GetDistanceMeters(points[0]) <= threshold:
            points = points[1:]
        want += points
    before = [list(l.GetPoints()) for l in lines]
    got = shapelib.Poly.MergePolys(lines, threshold)
    assert len(got.GetPoints()) == len(want)
    assert all(same(a, b) for a, b in zip(got.GetPoints(), want))
    assert got.GetName() == ';'.join([l.GetName() or '' for l in lines])
    assert [list(l.GetPoints()) for l in lines] == before
    assert got.GetNumPoints() == len(want)
    back = got.Reversed()
    assert back.GetPoints() == want[::-1] and back.GetName() == got.GetName()
    if want:
        assert abs(got.LengthMeters() - length(want)) < 1e-6
    matches = shapelib.PolyCollection()
    named = [shapelib.Poly(l.GetPoints(), 'n%d' % n)
             for n, l in enumerate(lines) if l.GetPoints()]
    for l in named:
        matches.AddPoly(l)
    assert matches.NumPolys() == len(named)
    far = shapelib.Point.FromLatLng(10, 20 + 1e-4 * rng.randrange(3))
    radius = rng.choice([1, 12, 50])
    found = matches.FindMatchingPolys(base, far, radius)
    expected = [l for l in named
                if l.GetPoint(0).GetDistanceMeters(base) < radius and
                l.GetPoint(-1).GetDistanceMeters(far) < radius]
    assert sorted(l.GetName() for l in found) == \
        sorted(l.GetName() for l in expected)


# ---------------------------------------------------------------- contracts
classdecl('Point', 'transitfeed.shapelib.Point', fields={
    'x': 'Float', 'y': 'Float', 'z': 'Float',
}, pools={'x': [0.0, 0.0, 1.0, -1.0, 0.6], 'y': [0.0, 0.0, 0.0, 1.0, 0.8],
          'z': [0.0, 0.0, 0.0, 0.0, -1.0]})

classdecl('Poly', 'transitfeed.shapelib.Poly', fields={
    '_points': 'List[Point]', '_name': 'Opt[Str]',
})

classdecl('PolyCollection', 'transitfeed.shapelib.PolyCollection', fields={
    '_name_to_shape': 'Dict[Str,Poly]',
})


@contract('transitfeed.shapelib.Point.DotProd', prop='C10,C29',
          args='self: Point, other: Point')
def dot(self, other):
    return self.x * other.x + self.y * other.y + self.z * other.z


@contract('transitfeed.shapelib.Point.Norm2', prop='C10,C29', args='self: Point',
          modular='uf', ret='Float', reads=['Point.x', 'Point.y', 'Point.z'])
def norm(self):
    return math.sqrt(self.x * self.x + self.y * self.y + self.z * self.z)


@contract('transitfeed.shapelib.Point.IsUnitLength', prop='C10,C29',
          args='self: Point', modular='uf', ret='Bool',
          reads=['Point.x', 'Point.y', 'Point.z'])
def unit_length(self):
    return abs(self.Norm2() - 1.0) < 1e-14


@contract('transitfeed.shapelib.Point.CrossProd', prop='C10,C29',
          args='self: Point, other: Point')
def cross(self, other):
    """Orthogonal to both."""
    return shapelib.Point(self.y * other.z - self.z * other.y,
                          self.z * other.x - self.x * other.z,
                          self.x * other.y - self.y * other.x)


@contract('transitfeed.shapelib.Poly.GetNumPoints', prop='C10,C29',
          args='self: Poly')
def number(self):
    return len(self._points)


UNITS = 'all(p.IsUnitLength() for p in self._points)'


@contract('transitfeed.shapelib.Point.GetDistanceMeters', prop='C10,C29',
          args='self: Point, other: Point', cases=1500,
          requires=['self.IsUnitLength() and other.IsUnitLength()'],
          modular='uf', ret='Float', reads=['Point.x', 'Point.y', 'Point.z'])
def distance_meters(self, other):
    """The angle between two places, times the radius of the earth."""
    across = self.CrossProd(other).Norm2()
    return math.atan2(across, self.DotProd(other)) * 6371010.0


@contract('transitfeed.shapelib.Poly.LengthMeters', prop='C10,C29',
          args='self: Poly', requires=['len(self._points) > 0', UNITS],
          modular='uf', ret='Float', cases=2000,
          reads=['self._points', 'Point.x', 'Point.y', 'Point.z'])
def length_meters(self):
    total = 0
    for i in range(len(self._points) - 1):
        total = total + self._points[i].GetDistanceMeters(self._points[i + 1])
    return total


@contract('transitfeed.shapelib.PolyCollection.FindMatchingPolys', prop='C29',
          args='self: PolyCollection, start_point: Point, '
               'end_point: Point, max_radius: Float', cases=2000,
          requires=['start_point.IsUnitLength() and end_point.IsUnitLength()',
                    'all(len(p._points) > 0 and '
                    'p._points[0].IsUnitLength() and '
                    'p._points[-1].IsUnitLength() '
                    'for p in self._name_to_shape.values())'],
          pools={'max_radius': [0.0, 150.0, 1.1e7, 1e8]})
def matching(self, start_point, end_point, max_radius):
    """The lines that begin and end near the given places."""
    out = []
    for p in self._name_to_shape.values():
        first = start_point.GetDistanceMeters(p._points[0])
        last = end_point.GetDistanceMeters(p._points[-1])
        if first < max_radius and last < max_radius:
            out.append(p)
    return out


@contract('transitfeed.shapelib.Poly.MergePolys', prop='C29',
          args='polys: List[Poly], merge_point_threshold: Float', cases=2000,
          requires=['all(all(q.IsUnitLength() for q in p._points) '
                    'for p in polys)'],
          bounded='random lines of a few points',
          pools={'merge_point_threshold': [0.0, 10.0, 1.1e7]})
def merge_polys(polys, merge_point_threshold):
    """All points in order, without a first point near the one before."""
    name = ';'.join('' if p._name is None else p._name for p in polys)
    points = []
    if polys:
        for q in polys[0]._points:
            points.append(q)
        last = points[-1] if points else None
        for p in polys[1:]:
            skip = 0
            if last is not None and p._points:
                d = last.GetDistanceMeters(p._points[0])
                if d <= merge_point_threshold:
                    skip = 1
            for q in p._points[skip:]:
                points.append(q)
            last = points[-1] if points else None
    return shapelib.Poly(points, name)


@contract('transitfeed.shapelib.Point.Plus', prop='C10',
          args='self: Point, other: Point')
def plus(self, other):
    return shapelib.Point(self.x + other.x, self.y + other.y,
                          self.z + other.z)


@contract('transitfeed.shapelib.Point.Minus', prop='C10',
          args='self: Point, other: Point')
def minus(self, other):
    return shapelib.Point(self.x - other.x, self.y - other.y,
                          self.z - other.z)


@contract('transitfeed.shapelib.Point.Times', prop='C10',
          args='self: Point, val: Float')
def times(self, val):
    return shapelib.Point(val * self.x, val * self.y, val * self.z)


@contract('transitfeed.shapelib.Point.Normalize', prop='C10',
          args='self: Point')
def normalized(self):
    """The same direction, of length one."""
    return self.Times(1 / self.Norm2())


@contract('transitfeed.shapelib.Point.LargestComponent', prop='C10',
          args='self: Point')
def largest(self):
    """(index, value) of a coordinate that no other one exceeds in size; the
    last of them if several do."""
    if abs(self.z) >= abs(self.x) and abs(self.z) >= abs(self.y):
        return (2, self.z)
    if abs(self.y) >= abs(self.x):
        return (1, self.y)
    return (0, self.x)


@contract('transitfeed.shapelib.Point.Equals', prop='C10',
          args='self: Point, other: Point',
          pools={'Point.x': [0.0, 1.0, 1e-12, 1e-10, 0.5],
                 'Point.y': [0.0, 1.0, 1e-12, 1e-10],
                 'Point.z': [0.0, 1.0, -1e-12, -1e-10]})
def nearly_equal(self, other):
    return (abs(self.x - other.x) < 1e-11 and
            abs(self.y - other.y) < 1e-11 and
            abs(self.z - other.z) < 1e-11)


@contract('transitfeed.shapelib.Point.Angle', prop='C10',
          args='self: Point, other: Point')
def angle(self, other):
    return math.atan2(self.CrossProd(other).Norm2(), self.DotProd(other))


@contract('transitfeed.shapelib.Point.FromLatLng', prop='C10',
          args='lat: Float, lng: Float')
def from_lat_lng(lat, lng):
    phi = lat * (math.pi / 180.0)
    theta = lng * (math.pi / 180.0)
    return shapelib.Point(math.cos(theta) * math.cos(phi),
                          math.sin(theta) * math.cos(phi), math.sin(phi))


@contract('transitfeed.shapelib.Point.ToLatLng', prop='C10',
          args='self: Point')
def to_lat_lng(self):
    flat = math.sqrt(self.x * self.x + self.y * self.y)
    return (math.atan2(self.z, flat) * 180.0 / math.pi,
            math.atan2(self.y, self.x) * 180.0 / math.pi)


@contract('transitfeed.shapelib.SimpleCCW', prop='C10',
          args='a: Point, b: Point, c: Point')
def counterclockwise(a, b, c):
    return c.CrossProd(a).DotProd(b) > 0


@contract('transitfeed.shapelib.Poly.AddPoint', prop='C10,C29',
          args='self: Poly, p: Point', requires=['p.IsUnitLength()'])
def add_point(self, p):
    self._points.append(p)


@contract('transitfeed.shapelib.Poly.GetPoint', prop='C10,C29',
          args='self: Poly, i: Int')
def get_point(self, i):
    return self._points[i]


@contract('transitfeed.shapelib.Poly.Reversed', prop='C10,C29',
          args='self: Poly')
def reversed_line(self):
    return shapelib.Poly(self._points[::-1], self._name)


@contract('transitfeed.shapelib.Point.Ortho', prop='C10', args='self: Point')
def orthogonal(self):
    """A cross product with a point that is not in the same direction."""
    big = self.LargestComponent()[0]
    p = shapelib.Point(1 if big == 1 else 0.012, 1 if big == 2 else 0.053,
                       1 if big == 0 else 0.00457)
    return self.CrossProd(p).Normalize()


@contract('transitfeed.shapelib.Point.RobustCrossProd', prop='C10',
          args='self: Point, other: Point', cases=1500,
          bounded='random points of length one',
          requires=['self.IsUnitLength() and other.IsUnitLength()'])
def robust_cross(self, other):
    p = self.Plus(other).CrossProd(other.Minus(self))
    if abs(p.x) <= 1e-15 and abs(p.y) <= 1e-15 and abs(p.z) <= 1e-15:
        return self.Ortho()
    return p.Normalize()


def between(a, b, t):
    """The place at the share t of the way from a to b."""
    v = [a.x + t * (b.x - a.x), a.y + t * (b.y - a.y), a.z + t * (b.z - a.z)]
    n = math.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2)
    return [c / n for c in v]


def meters(v, p):
    """Between a place and a point, by the chord."""
    d = math.sqrt((v[0] - p.x) ** 2 + (v[1] - p.y) ** 2 + (v[2] - p.z) ** 2)
    return 2 * math.asin(min(1.0, d / 2)) * 6371010.0


def place(p):
    return [p.x, p.y, p.z]


def same_place(a, b):
    return abs(a[0] - b[0]) < 1e-9 and abs(a[1] - b[1]) < 1e-9 and \
        abs(a[2] - b[2]) < 1e-9


@scenario(prop='C10,C29', cases=500)
def closest_points(rng):
    """The point of a random line of two to five points that is nearest to a
    random place, against two hundred places along each segment; the line cut
    there; the matching of one line to another."""
    spread = rng.choice([1e-5, 1e-3, 0.1, 2.0])
    lat, lng = rng.choice([(10, 20), (0, 0), (-45, 179.9), (80, -60)])

    def spot():
        return shapelib.Point.FromLatLng(lat + spread * rng.uniform(-1, 1),
                                         lng + spread * rng.uniform(-1, 1))
    points = [spot() for k in range(rng.choice([2, 2, 3, 5]))]
    p = rng.choice([spot(), points[0], points[-1], points[1]])
    line = shapelib.Poly(points, 'l')
    near, i = line.GetClosestPoint(p)
    assert 0 <= i < len(points) - 1
    least = min(meters(between(points[k], points[k + 1], t / 200.0), p)
                for k in range(len(points) - 1) for t in range(201))
    size = spread * 111000.0
    got = meters(place(near), p)
    assert got <= least * (1 + 1e-6) + 1e-6, (got, least)
    # on the segment it names
    a, b = points[i], points[i + 1]
    off = meters(place(near), a) + meters(place(near), b) - \
        meters(place(a), b)
    assert abs(off) < 1e-5 * size + 1e-4, off
    head, tail = line.CutAtClosestPoint(p)
    assert [place(q) for q in head.GetPoints()] == \
        [place(q) for q in points[:i + 1]]
    assert [place(q) for q in tail.GetPoints()[1:]] == \
        [place(q) for q in points[i + 1:]]
    assert same_place(place(tail.GetPoint(0)), place(near))
    # the length of the line
    want = sum(meters(place(points[k]), points[k + 1])
               for k in range(len(points) - 1))
    assert abs(line.LengthMeters() - want) < 1e-6 * want + 1e-4
    assert abs(line.Reversed().LengthMeters() - want) < 1e-6 * want + 1e-4
    # matching goes forward along the other line
    other = shapelib.Poly([spot() for k in range(rng.choice([1, 2, 3]))], 'o')
    rest, worst = list(points), 0
    for q in other.GetPoints():
        c, k = shapelib.Poly(rest).GetClosestPoint(q)
        rest = [c] + rest[k + 1:]
        worst = max(worst, meters(place(c), q))
    match = other.GreedyPolyMatchDist(line)
    assert abs(match - worst) < 1e-6 * worst + 1e-4, (match, worst)
    # places and coordinates
    for q in points:
        y, x = q.ToLatLng()
        r = shapelib.Point.FromLatLng(y, x)
        assert same_place(place(q), place(r))
        assert abs(q.Norm2() - 1.0) < 1e-12
        assert abs(y - lat) <= spread + 1e-9
