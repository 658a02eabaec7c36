"""Problem reporters and accumulators (transitfeed/problems.py,
feedvalidator.py)."""
from speclib import contract, lemma, scenario, classdecl, implies
from transitfeed import problems, errors, util
import inspect

classdecl('ExceptionWithContext', 'transitfeed.problems.ExceptionWithContext',
          fields={'_type': 'Int'}, pools={'_type': [0, 1, 2]})

classdecl('ProblemReporter', 'transitfeed.problems.ProblemReporter', fields={
    '_context': 'Opt[Tuple[Opt[Str],Opt[Int],Opt[List[Str]],Opt[List[Str]]]]',
})

classdecl('CountingAccumulator',
          'feedvalidator.CountingConsoleProblemAccumulator', fields={
              '_error_count': 'Int', '_warning_count': 'Int',
              '_notice_count': 'Int'})


@contract('transitfeed.problems.ExceptionWithContext.GetType', prop='C20',
          args='self: ExceptionWithContext')
def get_type(self):
    return self._type


@contract('transitfeed.problems.ExceptionWithContext.IsError', prop='C20',
          args='self: ExceptionWithContext')
def is_error(self):
    return self._type == 0


@contract('transitfeed.problems.ExceptionWithContext.IsWarning', prop='C20',
          args='self: ExceptionWithContext')
def is_warning(self):
    return self._type == 1


@contract('transitfeed.problems.ExceptionWithContext.IsNotice', prop='C20',
          args='self: ExceptionWithContext')
def is_notice(self):
    return self._type == 2


@contract('transitfeed.problems.ProblemReporter.SetFileContext', prop='C20',
          args='self: ProblemReporter, file_name: Opt[Str], '
               'row_num: Opt[Int], row: Opt[List[Str]], '
               'headers: Opt[List[Str]]')
def set_context(self, file_name, row_num, row, headers):
    self._context = (file_name, row_num, row, headers)


@contract('transitfeed.problems.ProblemReporter.ClearContext', prop='C20',
          args='self: ProblemReporter', ensures='self._context is None')
def clear_context(self):
    self._context = None


@contract('transitfeed.problems.ProblemReporter.GetFileContext', prop='C20',
          args='self: ProblemReporter')
def get_context(self):
    return self._context


@contract('transitfeed.problems.ExceptionWithContext.ContextTupleToDict',
          prop='C20',
          args='context: Opt[Tuple[Opt[Str],Opt[Int],Opt[Opq[Row]],'
               'Opt[Opq[Row]]]]',
          pools={'context.0': ['stops.txt', '', None],
                 'context.1': [0, 1, 7, None]})
def context_dict(context):
    """What is known of the place; row number 0 is a place."""
    d = {}
    if context is not None:
        file_name, row_num, row, headers = context
        if file_name:
            d['file_name'] = file_name
        if row_num is not None:
            d['row_num'] = row_num
        if row is not None:
            d['row'] = row
        if headers is not None:
            d['headers'] = headers
    return d


@contract('transitfeed.problems.ExceptionWithContext.ContextTupleToDict',
          prop='C20', args='context: Tuple[Str]')
def context_file(context):
    if context[0] == '':
        return {}
    return {'file_name': context[0]}


@contract('feedvalidator.CountingConsoleProblemAccumulator.HasIssues',
          prop='C20', args='self: CountingAccumulator')
def has_issues(self):
    if self._error_count != 0:
        return self._error_count
    return self._warning_count


@contract('feedvalidator.ProblemCountText', prop='C20',
          args='error_count: Int, warning_count: Int',
          requires=['error_count >= 0', 'warning_count >= 0'],
          pools={'error_count': [0, 1, 2, 11], 'warning_count': [0, 1, 2, 9]})
def count_text(error_count, warning_count):
    errs = util_number(error_count, 'error')
    warns = util_number(warning_count, 'warning')
    if error_count and warning_count:
        return errs + ' and ' + warns
    if error_count:
        return errs
    if warning_count:
        return warns
    return ''


def util_number(n, noun):
    return '%d %s' % (n, noun if n == 1 else noun + 's')


# ---------------------------------------------------------------- reports
class Collect(object):
    """An accumulator that keeps what it is given."""
    def __init__(self):
        self.got = []

    def _Report(self, e):
        self.got.append(e)


NOT_REPORTS = ('SetAccumulator', 'GetAccumulator', 'ClearContext',
               'SetFileContext', 'GetFileContext', 'AddToAccumulator')
REPORTS = {
    'CsvSyntax': ['description'],
    'DateOutsideValidRange': ['column_name', 'value', 'range_start_year',
                              'range_end_year', 'reason'],
    'DeprecatedColumn': ['file_name', 'column_name', 'new_name'],
    'DifferentStationTooClose': ['stop_name', 'stop_id', 'station_stop_name',
                                 'station_stop_id', 'distance'],
    'DuplicateColumn': ['file_name', 'header', 'count'],
    'DuplicateID': ['column_names', 'values'],
    'DuplicateTrip': ['trip_id1', 'route_id1', 'trip_id2', 'route_id2'],
    'EmptyFile': ['file_name'],
    'ExpirationDate': ['expiration', 'expiration_origin_file'],
    'FeedNotFound': ['feed_name'],
    'FileFormat': ['problem'],
    'FutureService': ['start_date', 'start_date_origin_file'],
    'InvalidAgencyID': ['column_name', 'value', 'relating_type',
                        'relating_id'],
    'InvalidFloatValue': ['value', 'reason'],
    'InvalidLineEnd': ['bad_line_end'],
    'InvalidNonNegativeIntegerValue': ['value', 'reason'],
    'InvalidValue': ['column_name', 'value', 'reason'],
    'MinimumTransferTimeSetWithInvalidTransferType': ['transfer_type'],
    'MissingColumn': ['file_name', 'column_name'],
    'MissingFile': ['file_name'],
    'MissingValue': ['column_name', 'reason'],
    'NewVersionAvailable': ['version'],
    'NoServiceExceptions': ['start', 'end'],
    'OtherProblem': ['description'],
    'OverlappingTripsInSameBlock': ['trip_id1', 'trip_id2', 'block_id'],
    'StationsTooClose': ['stop_name_a', 'stop_id_a', 'stop_name_b',
                         'stop_id_b', 'distance'],
    'StopTooFarFromParentStation': ['stop_id', 'stop_name', 'parent_stop_id',
                                    'parent_stop_name', 'distance'],
    'StopTooFarFromShapeWithDistTraveled': [
        'trip_id', 'stop_name', 'stop_id', 'shape_dist_traveled', 'shape_id',
        'distance', 'max_distance'],
    'StopWithMultipleRouteTypes': ['stop_name', 'stop_id', 'route_id1',
                                   'route_id2'],
    'StopsTooClose': ['stop_name_a', 'stop_id_a', 'stop_name_b', 'stop_id_b',
                      'distance'],
    'TooFastTravel': ['trip_id', 'prev_stop', 'next_stop', 'dist', 'time',
                      'speed'],
    'TooManyConsecutiveStopTimesWithSameTime': [
        'trip_id', 'number_of_stop_times', 'time_in_secs'],
    'TooManyDaysWithoutService': [
        'first_day_without_service', 'last_day_without_service',
        'consecutive_days_without_service'],
    'TransferDistanceTooBig': ['from_stop_id', 'to_stop_id', 'distance'],
    'TransferWalkingSpeedTooFast': ['from_stop_id', 'to_stop_id', 'distance',
                                    'transfer_time'],
    'UnknownFile': ['file_name'],
    'UnknownFormat': ['feed_name'],
    'UnrecognizedColumn': ['file_name', 'column_name'],
    'UnusedStop': ['stop_id', 'stop_name'],
    'UsedStation': ['stop_id', 'stop_name'],
}
NUMBERS = ('distance', 'dist', 'time', 'speed', 'max_distance', 'count',
           'shape_dist_traveled', 'range_start_year', 'range_end_year',
           'number_of_stop_times', 'time_in_secs', 'expiration',
           'start_date', 'consecutive_days_without_service', 'transfer_time')
WARNINGS = ('UnknownFile', 'UnrecognizedColumn', 'DeprecatedColumn',
            'InvalidFloatValue', 'InvalidNonNegativeIntegerValue',
            'UnusedStop', 'StopsTooClose',
            'StationsTooClose', 'DifferentStationTooClose', 'ExpirationDate',
            'StopTooFarFromParentStation',
            'StopTooFarFromShapeWithDistTraveled', 'FutureService',
            'NoServiceExceptions', 'InvalidLineEnd', 'DuplicateTrip',
            'StopWithMultipleRouteTypes', 'OverlappingTripsInSameBlock',
            'TransferWalkingSpeedTooFast',
            'TooManyDaysWithoutService',
            'TooManyConsecutiveStopTimesWithSameTime')


def random_context(rng):
    """A place: some of file, row number, row and headers."""
    if rng.random() < 0.3:
        return None
    whole = (rng.choice(['stops.txt', 'trips.txt', '', None]),
             rng.choice([0, 1, 2, 17, None]),
             rng.choice([None, ['a', 'b'], ['x']]),
             rng.choice([None, ['h1', 'h2']]))
    return whole[:rng.choice([1, 2, 4, 4])]


PARTS = ('file_name', 'row_num', 'row', 'headers')


def place_of(context):
    if not context:
        return {}
    return dict((k, v) for k, v in zip(PARTS, context)
                if v is not None and v != '')


def random_args(name, rng):
    values = {}
    for a in REPORTS[name]:
        if a in NUMBERS:
            values[a] = rng.choice([0, 1, 5, 60, 86399, 90061])
            if a == 'speed' and rng.random() < 0.3:
                values[a] = None
        elif a == 'column_names':
            values[a] = ('c1', 'c2')
        elif a == 'values':
            values[a] = ('v%d' % rng.randint(0, 99), 'w')
        elif a in ('reason', 'new_name') and rng.random() < 0.4:
            values[a] = None
        else:
            values[a] = '%s-%d' % (a[:3], rng.randint(0, 999))
    return values


@scenario(prop='C20', cases=4000)
def every_report(rng):
    """Each kind of report, with any place, type and arguments, given by
    position or name, reaches the accumulator once, as asked."""
    got = Collect()
    rep = problems.ProblemReporter(got)
    assert rep.GetAccumulator() is got
    current = None
    if rng.random() < 0.7:
        current = (rng.choice(['agency.txt', 'f.txt']), rng.randint(0, 9),
                   ['v', 'w'], ['c', 'd'])
        rep.SetFileContext(*current)
        assert rep.GetFileContext() == current
        if rng.random() < 0.2:
            rep.ClearContext()
            current = None
    name = rng.choice(sorted(REPORTS))
    method = getattr(rep, name)
    takes = inspect.getargspec(method).args
    values = random_args(name, rng)
    kw = {}
    if 'context' in takes and rng.random() < 0.6:
        kw['context'] = random_context(rng)
    if 'type' in takes and rng.random() < 0.5:
        kw['type'] = rng.choice([0, 1, 2])
    if rng.random() < 0.5:
        method(*[values[a] for a in REPORTS[name]], **kw)
    else:
        kw2 = dict(values)
        kw2.update(kw)
        method(**kw2)
    assert len(got.got) == 1, (name, got.got)
    e = got.got[0]
    assert type(e).__name__ == name, (name, type(e))
    place = place_of(kw.get('context') or current)
    expected = dict(place)
    expected.update(values)
    if name == 'DeprecatedColumn':
        new = expected.pop('new_name')
        expected['reason'] = None if not new else \
            'Please use the new column "%s" instead.' % new
    if name == 'DuplicateID':
        expected.pop('column_names')
        expected.pop('values')
        expected['column_name'] = '(c1, c2)'
        expected['value'] = '(%s)' % ', '.join(values['values'])
    if name == 'TooManyConsecutiveStopTimesWithSameTime':
        t = expected.pop('time_in_secs')
        expected['stop_time'] = '%02d:%02d:%02d' % (
            t // 3600, t // 60 % 60, t % 60)
    if name == 'NewVersionAvailable':
        expected = values
    for k, v in expected.items():
        assert getattr(e, k, None) == v, (name, k, getattr(e, k, None), v)
    for k in PARTS:
        if k not in expected:
            assert not hasattr(e, k), (name, k)
    standard = 2 if name == 'NewVersionAvailable' else \
        1 if name in WARNINGS else 0
    kind = kw.get('type', standard)
    assert e.GetType() == kind, (name, e.GetType(), kind)
    assert (e.IsError(), e.IsWarning(), e.IsNotice()) == \
        (kind == 0, kind == 1, kind == 2), name
    if name == 'FileFormat' and 'file_name' not in expected:
        return      # its text names the file, which is always in context
    text = e.FormatProblem()
    assert text == str(e), name
    for k, v in values.items():
        if isinstance(v, str) and k not in ('new_name',):
            assert v in text or v in e.FormatContext(), (name, k, v, text)
    where = e.FormatContext()
    if 'file_name' in expected:
        assert expected['file_name'] in where, (name, where)
    if 'row_num' in place and name != 'NewVersionAvailable':
        assert ':%d' % place['row_num'] in where, (name, where)


MORE_FIRST = ('StopTooFarFromParentStation', 'TooFastTravel',
              'StopTooFarFromShapeWithDistTraveled')
LESS_FIRST = ('StopsTooClose', 'StationsTooClose',
              'DifferentStationTooClose')


def significance(name, values):
    if name == 'TooFastTravel':
        return -values['dist']
    if name in MORE_FIRST:
        return -values['distance']
    return values['distance']


@scenario(prop='C20', cases=1500)
def accumulators(rng):
    """Random sequences of reports to the accumulators: counts, kept and
    dropped problems, ignored kinds."""
    import feedvalidator
    some = rng.sample(sorted(REPORTS), 3) + [
        rng.choice(MORE_FIRST), rng.choice(LESS_FIRST)]
    ignore = rng.choice([None, [], [some[0]], [some[3], some[1]]])
    limit = rng.choice([1, 2, 3, 100])
    acc = feedvalidator.LimitPerTypeProblemAccumulator(limit, ignore)
    rep = problems.ProblemReporter(acc)
    count = feedvalidator.CountingConsoleProblemAccumulator(ignore)
    crep = problems.ProblemReporter(count)
    log = []
    for i in range(rng.randint(0, 14)):
        name = rng.choice(some)
        values = random_args(name, rng)
        kind = 2 if name == 'NewVersionAvailable' else \
            1 if name in WARNINGS else 0
        kw = dict(values)
        if 'type' in inspect.getargspec(getattr(rep, name)).args:
            kind = rng.choice([0, 1, 2])
            kw['type'] = kind
        if name == 'FileFormat':
            kw['context'] = ('f.txt',)
        getattr(rep, name)(**kw)
        getattr(crep, name)(**kw)
        if not ignore or name not in ignore:
            log.append((kind, name, values))
    errors_, warnings_, notices = [
        [x for x in log if x[0] == k] for k in (0, 1, 2)]
    assert acc.ErrorCount() == len(errors_)
    assert acc.WarningCount() == len(warnings_)
    assert bool(acc.HasIssues()) == bool(errors_ or warnings_)
    assert bool(acc.HasNotices()) == bool(notices)
    assert count.ErrorCount() == len(errors_)
    assert count.WarningCount() == len(warnings_)
    assert count.NoticeCount() == len(notices)
    assert bool(count.HasIssues()) == bool(errors_ or warnings_)
    assert bool(count.HasNotices()) == bool(notices)
    for kind in (0, 1, 2):
        kept = acc.ProblemListMap(kind)
        names = set(x[1] for x in log if x[0] == kind)
        assert set(kept) == names, (kind, set(kept), names)
        for name in names:
            ours = [v for k, n, v in log if (k, n) == (kind, name)]
            plist = acc.ProblemList(kind, name)
            assert plist.count == len(ours)
            assert len(plist.problems) == min(limit, len(ours))
            assert plist.dropped_count == max(0, len(ours) - limit)
            if name in MORE_FIRST + LESS_FIRST:
                best = sorted(significance(name, v) for v in ours)[:limit]
                have = [significance(name, e.__dict__)
                        for e in plist.problems]
                assert have == best, (name, have, best)
            else:
                for e, v in zip(plist.problems, ours):
                    for k in v:
                        if k in e.__dict__:
                            assert getattr(e, k) == v[k], (name, k)


@scenario(prop='C20', cases=800)
def raising(rng):
    """A raising accumulator raises errors, and warnings when asked to; the
    rest is printed."""
    acc = problems.ExceptionProblemAccumulator(
        raise_warnings=rng.random() < 0.5)
    shown = Collect()
    acc.accumulator = shown
    rep = problems.ProblemReporter(acc)
    name = rng.choice([n for n in sorted(REPORTS)
                       if n != 'NewVersionAvailable'])
    kw = random_args(name, rng)
    kind = 1 if name in WARNINGS else 0
    if 'type' in inspect.getargspec(getattr(rep, name)).args:
        kind = rng.choice([0, 1, 2])
        kw['type'] = kind
    must = kind == 0 or acc.raise_warnings
    try:
        getattr(rep, name)(**kw)
        assert not must, (name, kind)
        assert len(shown.got) == 1
    except problems.ExceptionWithContext as e:
        assert must, (name, kind)
        assert type(e).__name__ == name
        assert not shown.got
