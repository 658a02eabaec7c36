"""Reading feeds (transitfeed/loader.py)."""
from speclib import contract, lemma, scenario, classdecl, implies
import transitfeed
from transitfeed import loader, problems, util
import codecs
import StringIO
import zipfile

# ---------------------------------------------------------------------------
# tables as text, with what a reader should make of them


class Keep(object):
    """A problem accumulator that keeps the exceptions themselves."""

    def __init__(self):
        self.kept = []

    def _Report(self, e):
        self.kept.append(e)

    def summary(self):
        out = []
        for e in self.kept:
            d = dict(e.__dict__)
            kind = type(e).__name__
            typ = d.pop('_type')
            d.pop('type', None)
            if kind == 'OtherProblem':
                d['description'] = [w for w in ('too many', 'missing cells',
                                                'consistent line end')
                                    if w in d['description']]
            if kind == 'CsvSyntax':
                d['description'] = [w for w in ('blank values',
                                                'space characters',
                                                'any known column')
                                    if w in d['description']]
            if kind == 'FileFormat':
                d['problem'] = [w for w in ('utf-16', 'contains a null')
                                if w in d['problem']]
            if kind == 'DeprecatedColumn':
                d['new_name'] = (d['reason'] or '""').split('"')[1]
            d.pop('reason', None)
            items = [(k, d[k]) for k in sorted(d) if d[k] is not None]
            out.append((kind, typ, items))
        return sorted(out, key=repr)


def said(kind, typ, **kw):
    return (kind, typ, [(k, kw[k]) for k in sorted(kw) if kw[k] is not None])


def where(file_name, row_num=None, row=None, headers=None, **kw):
    """The parts of a context a report carries."""
    kw.update(file_name=file_name)
    for k, v in (('row_num', row_num), ('row', row), ('headers', headers)):
        if v is not None:
            kw[k] = v
    return kw


def quoted(rng, cell):
    """cell as it may stand in a csv file."""
    if (any(c in cell for c in ',"\n\r') or cell[:1] == ' ' or
            rng.random() < 0.15):
        return '"' + cell.replace('"', '""') + '"'
    return cell


CELLS = ['', 'a', 'B c', '1', '-3.5', 'x,y', 'say "hi"', ' padded ', 'two\nrows',
         '\xc3\xbcber', '\xe2\x82\xac5', '\xef\xbc\xa1', '\xff', 'a\xe2\x82',
         '\xef\xbb\xbfz', '0', '\t', '12:00:00', "it's", '\xe3\x80\x80\xe5\x8c\x97']


def decoded(cell):
    """(text of a cell, whether its bytes were no utf-8)"""
    try:
        return cell.decode('utf-8'), False
    except UnicodeDecodeError:
        return codecs.getdecoder('utf8')(cell, 'replace')[0], True


def random_table(rng):
    """(text, header cells, rows or None for a blank line)"""
    names = ['id', 'name', 'size', 'old_id', 'colour', '\xef\xbc\xa1', 'x y']
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    if rng.random() < 0.6:
        header = rng.sample(names, min(n, len(names)))
    else:
        header = [rng.choice(names[:5]) for k in range(n)]
    if rng.random() < 0.25:
        header[rng.randrange(len(header))] = ''
    if rng.random() < 0.25:
        k = rng.randrange(len(header))
        header[k] = header[k] + rng.choice([' ', '  ', '\t'])
    if header == ['']:
        header = ['id']
    rows = []
    for k in range(rng.choice([0, 1, 2, 3, 5])):
        if rng.random() < 0.15:
            rows.append(None)
            continue
        width = len(header)
        if rng.random() < 0.25:
            width = max(1, width + rng.choice([-2, -1, 1, 2]))
        easy = rng.random() < 0.5
        row = [rng.choice(CELLS[:8] if easy else CELLS) for k in range(width)]
        if row == ['']:
            row = ['a']
        rows.append(row)
    end = rng.choice(['\n', '\r\n'])
    if any('\n' in c for row in rows if row for c in row):
        end = '\n'
    lines = [','.join(quoted(rng, c) for c in header)]
    for row in rows:
        lines.append('' if row is None else
                     ','.join(quoted(rng, c) for c in row))
    text = end.join(lines)
    if rng.random() < 0.8 or rows[-1:] == [None]:
        text += end
    return text, header, rows


def zip_with(files):
    mem = StringIO.StringIO()
    z = zipfile.ZipFile(mem, 'a')
    for name in sorted(files):
        z.writestr(name, files[name])
    return z


VALID = ['id', 'name', 'size']


def expected_table(header, rows, required, deprecated, by_name):
    """What reading the table should give: (rows, reports).  by_name: the
    reader of dicts, else the one of lists in the order of VALID."""
    f = 'test.txt'
    blanks = [''] * len(header)
    out, reports = [], []
    if by_name:
        used = [k for k in range(len(header)) if header[k].strip()]
    else:
        used = list(range(len(header)))
    names = [header[k].strip() for k in used]
    if by_name:
        for h in header:
            if not h.strip():
                reports.append(said('CsvSyntax', 0, **where(
                    f, 1, blanks, header, description=['blank values'])))
            elif h.strip() != h:
                reports.append(said('CsvSyntax', 1, **where(
                    f, 1, blanks, header, description=['space characters'])))
    for name in sorted(set(names)):
        if names.count(name) > 1:
            reports.append(said('DuplicateColumn', 0, file_name=f,
                                header=name, count=names.count(name)))
    ctx = dict(row_num=1, row=[''] * len(names), headers=names)
    known = VALID + [old for old, new in deprecated]
    unknown = sorted(set(n for n in names if n not in known))
    if by_name and len(unknown) == len(names):
        reports.append(said('CsvSyntax', 0, **where(
            f, 1, blanks, header, description=['any known column'])))
    else:
        for n in unknown:
            reports.append(said('UnrecognizedColumn', 1, **where(
                f, column_name=n, **ctx)))
    for n in sorted(set(required)):
        if n not in names and (by_name or n in VALID):
            reports.append(said('MissingColumn', 0, **where(
                f, column_name=n, **ctx)))
    for old, new in deprecated:
        if old in names:
            reports.append(said('DeprecatedColumn', 1, **where(
                f, column_name=old, new_name=new, **ctx)))
    number = 1
    for row in rows:
        number += 1
        if row is None:
            continue
        if len(row) > len(header):
            reports.append(said('OtherProblem', 1, **where(
                f, number, description=['too many'])))
        if len(row) < len(header):
            reports.append(said('OtherProblem', 1, **where(
                f, number, description=['missing cells'])))
        bad = []
        if by_name:
            raw = [decoded(row[k]) for k in used if k < len(row)]
            for k in range(len(raw)):
                if raw[k][1]:
                    bad.append((names[k], raw[k][0]))
            shown = [v for v, b in raw]
            values = [v.strip() for v in shown]
            result = {}
            for k in range(len(values)):
                result[names[k]] = values[k]
            out.append((result, number, names, values))
            heads = names
        else:
            values = []
            for n in VALID:
                if n not in names:
                    values.append(None)
                    continue
                k = names.index(n)
                v, b = decoded(row[k]) if k < len(row) else (u'', False)
                values.append(v.strip())
                if b:
                    bad.append((n, v.strip()))
            shown = values
            out.append((values, number, VALID))
            heads = VALID
        for n, v in bad:
            reports.append(said('InvalidValue', 0, **where(
                f, number, shown, heads, column_name=n, value=v)))
    return out, sorted(reports, key=repr)


def reader_of(files):
    keep = Keep()
    rep = problems.ProblemReporter(keep)
    z = zip_with(files)
    ld = loader.Loader(problems=rep, zip=z)
    return ld, keep


def reading(rng, by_name):
    text, header, rows = random_table(rng)
    required = rng.choice([[], ['id'], ['id', 'name'], ['other']])
    deprecated = rng.choice([[], [('old_id', 'id')],
                             [('old_id', 'id'), ('colour', '')]])
    if by_name:
        # space after a comma is dropped outside quotes only; the header
        # cells with inner space are what is left
        pass
    prefix = rng.choice(['', '', '', '\xef\xbb\xbf'])
    ld, keep = reader_of({'test.txt': prefix + text})
    if by_name:
        got = list(ld._ReadCsvDict('test.txt', list(VALID), required,
                                   deprecated))
    else:
        got = list(ld._ReadCSV('test.txt', list(VALID), required, deprecated))
    out, reports = expected_table(header, rows, required, deprecated, by_name)
    assert got == out, (text, got, out)
    assert keep.summary() == reports, (text, keep.summary(), reports)
    if by_name:
        names = [h.strip() for h in header if h.strip()]
        assert ld._schedule._table_columns['test'] == names


@scenario(prop='C18', cases=1500)
def rows_by_name(rng):
    """Random tables read as dicts."""
    reading(rng, True)


@scenario(prop='C18', cases=1500)
def rows_in_order(rng):
    """Random tables read as lists."""
    reading(rng, False)


@scenario(prop='C18', cases=300)
def odd_files(rng):
    """Missing, empty, utf-16 and null-carrying files."""
    kind = rng.choice(['missing', 'empty', 'utf16', 'null', 'boms', 'good'])
    body = 'id,name\n1,\xc3\xbc\n'
    rows = [({'id': u'1', 'name': u'\xfc'}, 2, ['id', 'name'],
             [u'1', u'\xfc'])]
    files, want, reports = {'o.txt': 'x'}, rows, []
    if kind == 'missing':
        want = []
        reports = [said('MissingFile', 0, file_name='test.txt')]
    elif kind == 'empty':
        files['test.txt'] = ''
        want = []
        reports = [said('EmptyFile', 0, file_name='test.txt')]
    elif kind == 'utf16':
        bom, enc = rng.choice([(codecs.BOM_UTF16_LE, 'utf-16-le'),
                               (codecs.BOM_UTF16_BE, 'utf-16-be')])
        files['test.txt'] = bom + body.decode('utf8').encode(enc)
        reports = [said('FileFormat', 0, file_name='test.txt',
                        problem=['utf-16'])]
    elif kind == 'null':
        k = rng.randrange(2, len(body))
        files['test.txt'] = body[:k] + '\0' + body[k:]
        want = []
        reports = [said('FileFormat', 0, file_name='test.txt',
                        problem=['contains a null'])]
    elif kind == 'boms':
        files['test.txt'] = '\xef\xbb\xbf' * rng.randint(1, 2) + body
    else:
        files['test.txt'] = body
    ld, keep = reader_of(files)
    if rng.random() < 0.5:
        got = list(ld._ReadCsvDict('test.txt', ['id', 'name'], ['id'], []))
        assert got == want, (kind, got, want)
    else:
        got = list(ld._ReadCSV('test.txt', ['id', 'name'], ['id'], []))
        assert got == [(r[3], r[1], r[2]) for r in want], (kind, got, want)
    assert keep.summary() == reports, (kind, keep.summary(), reports)


# ---------------------------------------------------------------------------
# what is made of the rows.  The rows a file gives are ghost fields; that
# they are what _ReadCSV gives is assumed here and checked above.
classdecl('Loader', 'transitfeed.loader.Loader', fields={
    '_schedule': 'Schedule',
    '_problems': 'Reporter',
    '_gtfs_factory': 'Factory',
    '_db_stop_times': 'List[Tuple[Tuple[Opt[Str],Opt[Str],Opt[Str],Opt[Str],'
                      'Opt[Str],Opt[Str],Opt[Str],Opt[Str],Opt[Str],Opt[Str]],'
                      'Int,List[Str]]]',
})


@contract('transitfeed.loader.Loader._ReadCSV',
          args='self: Loader, file_name: Str, cols: List[Str], '
               'required: List[Str], deprecated: List[Tuple[Str,Str]]',
          modular='assumed', runtime=False,
          why='the rows of a file are those of the ghost fields; checked by '
              'the bounded scenario rows_in_order')
def read_csv(self, file_name, cols, required, deprecated):
    return self._db_stop_times


@contract('transitfeed.loader.Loader._LoadStopTimes', prop='C18',
          args='self: Loader', runtime=False)
def load_stop_times(self):
    problems = self._problems
    for row, number, cols in self._db_stop_times:
        (trip_id, arrival, departure, stop_id, seq, headsign, pickup, drop,
         dist, timepoint) = row
        try:
            sequence = int(seq)
        except (TypeError, ValueError):
            problems.InvalidValue('stop_sequence', seq)
            continue
        if sequence < 0:
            problems.InvalidValue('stop_sequence', sequence)
        if stop_id not in self._schedule.stops:
            problems.InvalidValue('stop_id', stop_id)
            continue
        if trip_id not in self._schedule.trips:
            problems.InvalidValue('trip_id', trip_id)
            continue
        st = transitfeed.StopTime(
            problems, self._schedule.stops[stop_id], arrival, departure,
            headsign, pickup, drop, dist, stop_sequence=sequence,
            timepoint=timepoint)
        self._schedule.trips[trip_id]._AddStopTimeObjectUnordered(
            st, self._schedule)


# ---------------------------------------------------------------------------
# whole feeds
def table(rng, columns, rows):
    """A table as text, columns in any order."""
    order = list(columns)
    rng.shuffle(order)
    end = rng.choice(['\n', '\r\n'])
    lines = [','.join(order)]
    for r in rows:
        lines.append(','.join(quoted(rng, r[c].encode('utf-8'))
                              for c in order))
    return end.join(lines) + end


DAYS = ['monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday',
        'sunday']


def random_feed(rng):
    """(files, expected contents, expected reports)"""
    files, want, said_ = {}, {}, []

    def says(kind, column, value, file_name, row, typ=0):
        said_.append((kind, typ, column, value, file_name, row))
    # --- agencies
    agencies = ['A1'] if rng.random() < 0.6 else ['A1', 'A2']
    files['agency.txt'] = table(
        rng, ['agency_id', 'agency_name', 'agency_url', 'agency_timezone'],
        [dict(agency_id=a, agency_name=u'N\xe4me, "%s"' % a,
              agency_url='http://x.org/' + a,
              agency_timezone='America/Los_Angeles') for a in agencies])
    want['agencies'] = dict((a, u'N\xe4me, "%s"' % a) for a in agencies)
    # --- calendars
    periods = {}
    rows = []
    for k in range(rng.choice([0, 1, 2, 4])):
        r = dict(service_id=rng.choice(['W1', 'W2', 'W3']),
                 start_date=rng.choice(['20090101', '20090301']),
                 end_date=rng.choice(['20091231', '20100105']))
        for d in DAYS:
            r[d] = rng.choice('01')
        r[rng.choice(DAYS)] = '1'
        rows.append(r)
        if r['service_id'] in periods:
            says('DuplicateID', 'service_id', r['service_id'],
                 'calendar.txt', k + 2)
        else:
            periods[r['service_id']] = [[r[d] == '1' for d in DAYS],
                                        r['start_date'], r['end_date'], {}]
    if rows:
        files['calendar.txt'] = table(
            rng, ['service_id', 'start_date', 'end_date'] + DAYS, rows)
    drows = []
    for k in range(rng.choice([1, 2, 4, 6])):
        r = dict(service_id=rng.choice(['W1', 'W2', 'W4']),
                 date=rng.choice(['20090704', '20090705', '20091225']),
                 exception_type=rng.choice(['1', '1', '2', '3', '']))
        sid = r['service_id']
        if sid not in periods:
            periods[sid] = [[False] * 7, None, None, {}]
        if periods[sid][1] is None and r['exception_type'] == '2':
            r['exception_type'] = '1'   # one without service is warned of
        if periods[sid][1] is None and not periods[sid][3]:
            r['exception_type'] = '1'
        drows.append(r)
        if r['exception_type'] not in ('1', '2'):
            says('InvalidValue', 'exception_type', r['exception_type'],
                 'calendar_dates.txt', k + 2)
            continue
        if r['date'] in periods[sid][3]:
            says('DuplicateID', '(service_id, date)', '(%s, %s)' % (sid, r['date']),
                 'calendar_dates.txt', k + 2, 1)
        periods[sid][3][r['date']] = (int(r['exception_type']), k + 2)
    files['calendar_dates.txt'] = table(
        rng, ['service_id', 'date', 'exception_type'], drows)
    want['periods'] = periods
    # --- stops
    stops = {}
    rows = []
    for k in range(rng.choice([1, 2, 4])):
        r = dict(stop_id=rng.choice(['S1', 'S2', 'S3', 'S 4', '']),
                 stop_name=u'Stra\xdfe %d' % k,
                 stop_lat='%.3f' % (36 + 0.5 * k),
                 stop_lon='%.3f' % (-116 - 0.5 * k))
        rows.append(r)
        if not r['stop_id']:
            says('MissingValue', 'stop_id', None, 'stops.txt', k + 2)
        elif r['stop_id'] in stops:
            says('DuplicateID', 'stop_id', r['stop_id'], 'stops.txt', k + 2)
        else:
            stops[r['stop_id']] = (r['stop_name'], float(r['stop_lat']),
                                   float(r['stop_lon']))
    files['stops.txt'] = table(
        rng, ['stop_id', 'stop_name', 'stop_lat', 'stop_lon'], rows)
    want['stops'] = stops
    # --- routes
    routes = {}
    rows = []
    for k in range(rng.choice([1, 2, 3])):
        r = dict(route_id=rng.choice(['R1', 'R2', 'R3']),
                 agency_id=rng.choice(agencies + ['A9']),
                 route_short_name='%d' % k, route_long_name=u'L\xf6ng',
                 route_type='3')
        rows.append(r)
        if r['route_id'] in routes:
            says('DuplicateID', 'route_id', r['route_id'], 'routes.txt', k + 2)
        elif r['agency_id'] not in agencies:
            says('InvalidValue', 'agency_id', r['agency_id'], 'routes.txt',
                 k + 2)
        else:
            routes[r['route_id']] = (r['agency_id'], '%d' % k)
    files['routes.txt'] = table(
        rng, ['route_id', 'agency_id', 'route_short_name', 'route_long_name',
              'route_type'], rows)
    want['routes'] = routes
    # --- shapes
    shapes = {}
    if rng.random() < 0.5:
        rows = []
        for k in range(rng.choice([1, 3, 5])):
            r = dict(shape_id=rng.choice(['H1', 'H1', 'H2']),
                     shape_pt_lat='%.3f' % (36 + 0.001 * k),
                     shape_pt_lon='-116.0',
                     shape_pt_sequence=str(k) if rng.random() < 0.8 else 'x')
            rows.append(r)
            if r['shape_pt_sequence'] == 'x':
                says('InvalidValue', 'shape_pt_sequence', 'x', 'shapes.txt',
                     k + 2)
            else:
                shapes.setdefault(r['shape_id'], []).append(
                    (float(r['shape_pt_lat']), -116.0))
        files['shapes.txt'] = table(
            rng, ['shape_id', 'shape_pt_lat', 'shape_pt_lon',
                  'shape_pt_sequence'], rows)
    want['shapes'] = shapes
    # --- trips
    trips = {}
    rows = []
    for k in range(rng.choice([1, 2, 4])):
        r = dict(trip_id=rng.choice(['T1', 'T2', 'T3']),
                 route_id=rng.choice(['R1', 'R2', 'R9']),
                 service_id=rng.choice(['W1', 'W2', 'W9']),
                 trip_headsign=rng.choice(['', u'nach M\xfcnchen']))
        rows.append(r)
        if r['trip_id'] in trips:
            says('DuplicateID', 'trip_id', r['trip_id'], 'trips.txt', k + 2)
        else:
            trips[r['trip_id']] = (r['route_id'], r['service_id'],
                                   r['trip_headsign'])
            # read before the references are checked
            if r['route_id'] not in routes:
                says('InvalidValue', 'route_id', r['route_id'], 'trips.txt',
                     k + 2)
            if r['service_id'] not in periods:
                says('InvalidValue', 'service_id', r['service_id'],
                     'trips.txt', k + 2)
    files['trips.txt'] = table(
        rng, ['trip_id', 'route_id', 'service_id', 'trip_headsign'], rows)
    want['trips'] = trips
    # --- stop times
    times = {}
    rows = []
    for k in range(rng.choice([0, 1, 3, 6])):
        r = dict(trip_id=rng.choice(['T1', 'T2', 'T9']),
                 stop_id=rng.choice(['S1', 'S2', 'S9']),
                 arrival_time='%02d:00:00' % (k + 20),
                 departure_time='%02d:00:10' % (k + 20),
                 stop_sequence=str(k) if rng.random() < 0.8 else
                 rng.choice(['', 'x', '1.5']),
                 stop_headsign=rng.choice(['', u'\xfc']),
                 shape_dist_traveled=rng.choice(['', '1.5', 'x']))
        rows.append(r)
        if not r['stop_sequence'].isdigit():
            says('InvalidValue', 'stop_sequence', r['stop_sequence'],
                 'stop_times.txt', k + 2)
        elif r['stop_id'] not in stops:
            says('InvalidValue', 'stop_id', r['stop_id'], 'stop_times.txt',
                 k + 2)
        elif r['trip_id'] not in trips:
            says('InvalidValue', 'trip_id', r['trip_id'], 'stop_times.txt',
                 k + 2)
        else:
            dist = None
            if r['shape_dist_traveled'] == 'x':
                says('InvalidValue', 'shape_dist_traveled', 'x',
                     'stop_times.txt', k + 2)
            elif r['shape_dist_traveled']:
                dist = 1.5
            times.setdefault(r['trip_id'], []).append(
                (r['stop_id'], (k + 20) * 3600, (k + 20) * 3600 + 10, k,
                 r['stop_headsign'], dist))
    files['stop_times.txt'] = table(
        rng, ['trip_id', 'stop_id', 'arrival_time', 'departure_time',
              'stop_sequence', 'stop_headsign', 'shape_dist_traveled'], rows)
    want['times'] = times
    if rng.random() < 0.2:
        files['stray.txt'] = 'x'
        said_.append(('UnknownFile', 1, None, None, 'stray.txt', None))
    if rng.random() < 0.2:
        files['.hidden'] = 'x'
    return files, want, said_


def contents(schedule):
    out = {}
    out['agencies'] = dict((a.agency_id, a.agency_name)
                           for a in schedule.GetAgencyList())
    out['periods'] = dict(
        (p.service_id, [list(p.day_of_week), p.start_date, p.end_date,
                        dict((d, (x[0], x[1][1])) for d, x in
                             p.date_exceptions.items())])
        for p in schedule.GetServicePeriodList())
    out['stops'] = dict((s.stop_id, (s.stop_name, s.stop_lat, s.stop_lon))
                        for s in schedule.GetStopList())
    out['routes'] = dict((r.route_id, (r.agency_id, r.route_short_name))
                         for r in schedule.GetRouteList())
    out['shapes'] = dict((s.shape_id, [p[:2] for p in s.points])
                         for s in schedule.GetShapeList())
    out['trips'] = dict((t.trip_id, (t.route_id, t.service_id,
                                     t.trip_headsign))
                        for t in schedule.GetTripList())
    out['times'] = {}
    for t in schedule.GetTripList():
        sts = [(st.stop_id, st.arrival_secs, st.departure_secs,
                st.stop_sequence, st.stop_headsign, st.shape_dist_traveled)
               for st in t.GetStopTimes()]
        if sts:
            out['times'][t.trip_id] = sts
    return out


@scenario(prop='C18', cases=250)
def whole_feeds(rng):
    """Random feeds of all main tables with repeated ids and references that
    lead nowhere."""
    files, want, reports = random_feed(rng)
    keep = Keep()
    rep = problems.ProblemReporter(keep)
    where_from = rng.choice(['zip', 'zip', 'zip', 'zip', 'file', 'path', 'dir'])
    if where_from == 'zip':
        schedule = loader.Loader(problems=rep, zip=zip_with(files)).Load()
    else:
        import os
        import shutil
        import tempfile
        tmp = tempfile.mkdtemp()
        try:
            if where_from == 'dir':
                for n in files:
                    with open(os.path.join(tmp, n), 'wb') as f:
                        f.write(files[n])
                schedule = loader.Loader(tmp, problems=rep).Load()
            else:
                path = os.path.join(tmp, 'feed.zip')
                z = zipfile.ZipFile(path, 'w')
                for n in files:
                    z.writestr(n, files[n])
                z.close()
                if where_from == 'path':
                    schedule = loader.Loader(path, problems=rep).Load()
                else:
                    with open(path, 'rb') as f:
                        schedule = loader.Loader(f, problems=rep).Load()
        finally:
            shutil.rmtree(tmp)
    assert rep.GetFileContext() is None, rep.GetFileContext()
    got = []
    for e in keep.kept:
        d = e.__dict__
        got.append((type(e).__name__, e._type, d.get('column_name'),
                    d.get('value'), d.get('file_name'), d.get('row_num')))
    have = contents(schedule)
    for k in want:
        assert have[k] == want[k], (files, k, have[k], want[k])
    assert sorted(got, key=repr) == sorted(reports, key=repr), (
        files, 'reported', [x for x in got if x not in reports],
        'expected', [x for x in reports if x not in got],
        len(got), len(reports))


# ---------------------------------------------------------------------------
# writing
NAMES = [u'Main', u'M\xfcnchen', u'a, b', u'say "hi"', u'\u5317\u4eac', u'x y',
         u"it's", u'1', u'0']


def given(rng, pairs):
    """A dict of some of the pairs."""
    return dict((k, v) for k, v in pairs if rng.random() < 0.6)


def built_schedule(rng):
    """A schedule built by its methods, with every kind of object."""
    s = transitfeed.Schedule(problem_reporter=problems.ProblemReporter(Keep()))
    rep = s.problem_reporter
    for k in range(rng.choice([1, 2])):
        d = dict(agency_id=u'A%d' % k, agency_name=rng.choice(NAMES),
                 agency_url=u'http://x.org', agency_timezone=u'Asia/Tokyo')
        d.update(given(rng, [('agency_lang', u'en'),
                             ('agency_phone', u'0123, 45'),
                             ('agency_fare_url', u'http://x.org/\xfc')]))
        s.AddAgencyObject(transitfeed.Agency(field_dict=d), rep)
    if rng.random() < 0.4:
        d = dict(feed_publisher_name=rng.choice(NAMES),
                 feed_publisher_url=u'http://x.org', feed_lang=u'en')
        d.update(given(rng, [('feed_version', u'1,0'),
                             ('feed_start_date', u'20090101')]))
        s.AddFeedInfoObject(transitfeed.FeedInfo(field_dict=d), rep)
    for k in range(rng.choice([1, 2, 3])):
        p = transitfeed.ServicePeriod(u'W%d' % k)
        if rng.random() < 0.8:
            p.SetStartDate('2009010%d' % (k + 1))
            p.SetEndDate('20091231')
            for d in range(7):
                p.SetDayOfWeekHasService(d, rng.random() < 0.5)
        for d in rng.sample(['20090704', '20090705', '20091225'],
                            rng.randint(0, 3)):
            p.SetDateHasService(d, rng.random() < 0.5)
        if not p.date_exceptions and not any(p.day_of_week):
            p.SetDateHasService('20090909')
        s.AddServicePeriodObject(p, rep, validate=False)
    for k in range(rng.choice([2, 3])):
        d = dict(stop_id=u'S%d' % k, stop_name=rng.choice(NAMES))
        d.update(given(rng, [('stop_code', u'007'), ('zone_id', u'z,1'),
                             ('stop_desc', rng.choice(NAMES))]))
        st = transitfeed.Stop(field_dict=d)
        st.stop_lat = 35.5 + 0.125 * k
        st.stop_lon = rng.choice([-0.25, 0.0, 139.75]) + k
        if rng.random() < 0.5:
            st.location_type = 0
        s.AddStopObject(st, rep)
    for k in range(rng.choice([1, 2])):
        d = dict(route_id=u'R%d' % k, agency_id=u'A0',
                 route_short_name=u'%d' % k, route_long_name=rng.choice(NAMES))
        d.update(given(rng, [('route_color', u'00FF00'),
                             ('route_desc', u'two, words')]))
        r = transitfeed.Route(field_dict=d)
        r.route_type = rng.choice([0, 3])
        s.AddRouteObject(r, rep)
    if rng.random() < 0.5:
        sh = transitfeed.Shape(u'H1')
        for k in range(rng.choice([2, 4])):
            sh.AddPoint(35.5 + 0.0625 * k, 139.75, 1.5 * k)
        s.AddShapeObject(sh, rep)
    for k in range(rng.choice([1, 2, 4])):
        t = transitfeed.Trip(field_dict=given(
            rng, [('trip_headsign', rng.choice(NAMES)),
                  ('trip_short_name', u'n\xb0 1')]))
        t.trip_id = u'T%d' % k
        t.route_id = u'R0'
        t.service_id = u'W0'
        if rng.random() < 0.3:
            t.direction_id = rng.choice([0, 1])
        s.AddTripObject(t, rep)
        for n in range(rng.choice([0, 2, 3])):
            at = 80000 + 600 * n + 100 * k
            st = transitfeed.StopTime(
                rep, s.GetStop(u'S%d' % rng.randrange(2)),
                arrival_secs=at if n != 1 or rng.random() < 0.5 else None,
                departure_secs=at + 30,
                stop_headsign=rng.choice([None, u'\xfcber, X']),
                pickup_type=rng.choice([None, 0, 1]),
                drop_off_type=rng.choice([None, 0, 2]),
                shape_dist_traveled=rng.choice([None, 1.25 * n]),
                stop_sequence=n * 3, timepoint=rng.choice([None, 0, 1]))
            if st.arrival_secs is None:
                st.departure_secs = None
            t._AddStopTimeObjectUnordered(st, s)
        if rng.random() < 0.3:
            t.AddFrequency('08:00:00', '25:10:00', 1200,
                           rng.choice([0, 1]), rep)
    for k in range(rng.choice([0, 1, 2])):
        f = transitfeed.FareAttribute(
            u'f%d' % k, rng.choice([u'1.50', u'0']), u'EUR',
            rng.choice([0, 1]), rng.choice([None, 0, 2]),
            rng.choice([None, 3600]))
        s.AddFareAttributeObject(f, rep)
        for n in range(rng.choice([0, 1, 2])):
            s.AddFareRuleObject(transitfeed.FareRule(
                f.fare_id, rng.choice([None, u'R0']),
                rng.choice([None, u'z,1']), None, rng.choice([None, u'z,1'])),
                rep)
    if rng.random() < 0.4:
        d = dict(from_stop_id=u'S0', to_stop_id=u'S1')
        tr = transitfeed.Transfer(field_dict=d)
        tr.transfer_type = rng.choice([0, 2])
        if tr.transfer_type == 2:
            tr.min_transfer_time = 240
        s.AddTransferObject(tr, rep)
    return s


def text(v):
    if v is None:
        return ''
    if isinstance(v, unicode):
        return v.encode('utf-8')
    return '%s' % v


def parsed(data):
    """(header, rows) of csv text, by a reader of its own."""
    rows, row, cell, k, q = [], [], [], 0, False
    while k < len(data):
        c = data[k]
        if q:
            if c == '"' and data[k + 1:k + 2] == '"':
                cell.append('"')
                k += 1
            elif c == '"':
                q = False
            else:
                cell.append(c)
        elif c == '"':
            q = True
        elif c == ',':
            row.append(''.join(cell))
            cell = []
        elif c == '\n':
            row.append(''.join(cell).rstrip('\r'))
            rows.append(row)
            row, cell = [], []
        else:
            cell.append(c)
        k += 1
    assert not row and not cell and not q
    return rows[0], rows[1:]


def hms(secs):
    if secs is None:
        return ''
    return '%02d:%02d:%02d' % (secs // 3600, secs // 60 % 60, secs % 60)


def attributes(o):
    return dict((k, v) for k, v in o.__dict__.items() if k[0] != '_')


def expected_files(s):
    """{file: (needed columns or None, rows as dicts of nonempty cells)}"""
    out = {}

    def put(name, rows):
        rows = [dict((k, text(v)) for k, v in r.items() if text(v) != '')
                for r in rows]
        out[name] = rows
    put('agency.txt', [attributes(a) for a in s._agencies.values()])
    if s.feed_info:
        put('feed_info.txt', [attributes(s.feed_info)])
    cal, dates = [], []
    for p in s.service_periods.values():
        if p.start_date and p.end_date:
            r = dict(zip(DAYS, ['1' if x else '0' for x in p.day_of_week]))
            r.update(service_id=p.service_id, start_date=p.start_date,
                     end_date=p.end_date)
            cal.append(r)
        for d, x in p.date_exceptions.items():
            dates.append(dict(service_id=p.service_id, date=d,
                              exception_type=x[0]))
    if dates:
        put('calendar_dates.txt', dates)
    if cal or not dates:
        put('calendar.txt', cal)
    put('stops.txt', [attributes(x) for x in s.stops.values()])
    put('routes.txt', [attributes(x) for x in s.routes.values()])
    put('trips.txt', [attributes(x) for x in s.trips.values()])
    freq, times = [], []
    for t in s.trips.values():
        for a, b, h, e in t._headways:
            freq.append(dict(trip_id=t.trip_id, start_time=hms(a),
                             end_time=hms(b), headway_secs=h, exact_times=e))
        for st in t.GetStopTimes():
            times.append(dict(
                trip_id=t.trip_id, arrival_time=hms(st.arrival_secs),
                departure_time=hms(st.departure_secs), stop_id=st.stop.stop_id,
                stop_sequence=st.stop_sequence, stop_headsign=st.stop_headsign,
                pickup_type=st.pickup_type, drop_off_type=st.drop_off_type,
                shape_dist_traveled=st.shape_dist_traveled,
                timepoint=st.timepoint))
    if freq:
        put('frequencies.txt', freq)
    put('stop_times.txt', times)
    fares, rules = [], []
    for f in s.fares.values():
        fares.append(dict(
            fare_id=f.fare_id, price=f.price, currency_type=f.currency_type,
            payment_method=f.payment_method, transfers=f.transfers,
            transfer_duration=f.transfer_duration))
        for r in f.rules:
            rules.append(dict(
                fare_id=r.fare_id, route_id=r.route_id, origin_id=r.origin_id,
                destination_id=r.destination_id, contains_id=r.contains_id))
    if fares:
        put('fare_attributes.txt', fares)
    if rules:
        put('fare_rules.txt', rules)
    points = []
    for sh in s._shapes.values():
        for n, (lat, lon, dist) in enumerate(sh.points):
            points.append(dict(shape_id=sh.shape_id, shape_pt_lat=lat,
                               shape_pt_lon=lon, shape_pt_sequence=n + 1,
                               shape_dist_traveled=dist))
    if points:
        put('shapes.txt', points)
    moves = [attributes(t) for ts in s._transfers.values() for t in ts]
    if moves:
        put('transfers.txt', moves)
    return out


@scenario(prop='C19', cases=250)
def written_and_read(rng):
    """Random schedules written, the files compared cell by cell, and read
    back and written again."""
    s = built_schedule(rng)
    mem = StringIO.StringIO()
    s.WriteGoogleTransitFeed(mem)
    z = zipfile.ZipFile(StringIO.StringIO(mem.getvalue()))
    want = expected_files(s)
    assert sorted(z.namelist()) == sorted(want), (z.namelist(), sorted(want))
    first = {}
    for name in want:
        header, rows = parsed(z.read(name))
        assert len(set(header)) == len(header), header
        got = []
        for r in rows:
            assert len(r) == len(header), (name, header, r)
            got.append(dict((h, v) for h, v in zip(header, r) if v != ''))
        assert sorted(got) == sorted(want[name]), (name, header, got,
                                                   want[name])
        first[name] = sorted(got)
        if name in ('agency.txt', 'stops.txt', 'routes.txt', 'trips.txt',
                    'feed_info.txt'):
            used = s.GetTableColumns(name[:-4])
            assert header == list(used)
    keep = Keep()
    again = loader.Loader(zip=z, problems=problems.ProblemReporter(keep)).Load()
    mem = StringIO.StringIO()
    again.WriteGoogleTransitFeed(mem)
    z = zipfile.ZipFile(StringIO.StringIO(mem.getvalue()))
    assert sorted(z.namelist()) == sorted(want)
    for name in want:
        header, rows = parsed(z.read(name))
        got = [dict((h, v) for h, v in zip(header, r) if v != '')
               for r in rows]
        if name == 'stops.txt':   # reading gives a stop its default type
            for r in got + first[name]:
                r.setdefault('location_type', '0')
        assert sorted(got) == sorted(first[name]), (name, got, first[name])
