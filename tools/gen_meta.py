#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the
contracts present in /verif/specs."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyvc.contracts import load_all

# id, title, statement, quantifier text, why tests can't, files, mechanism, over
P = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',)):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={'over': list(over), 'text': text},
                  why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [
                      dict(name=n, where=w) for n, w in mech]}))


U = 'transitfeed/util.py'
S = 'transitfeed/schedule.py'
T = 'transitfeed/trip.py'
prop('C01', 'Time text and seconds convert exactly and invert each other',
     'A time written with one to three hour digits, H:MM:SS, is read as exactly hours*3600+minutes*60+seconds; anything else (other separators, minutes or seconds over 59, signs, blanks, extra text; a final newline aside) is rejected with the library\'s error. A number of seconds is written as zero-padded HH:MM:SS, and reading what was written gives the number back.',
     'every string given to the time reader and every non-negative number of seconds given to the time writer',
     'The tests convert a few dozen literals; the claim is about all strings and all second counts, including hours past 24.',
     [U], [('TimeToSecondsSinceMidnight / FormatSecondsSinceMidnight', U)])
prop('C02', 'A service period is active exactly on its calendar dates',
     'A service is active on a date exactly when the date is added as an exception, or lies within the start and end dates on a weekday of the service and is not removed as an exception; the last setting of a date wins. The reported date range spans the calendar range and the added exceptions and the list of active dates is exactly the active dates of that range, in order.',
     'every combination of start, end, weekdays and exceptions, every date, and every sequence of calls that set them',
     'Tests build a few calendars; boundary dates, exceptions outside the range and absent ends are products of many independent choices.',
     ['transitfeed/serviceperiod.py'], [('ServicePeriod.IsActiveOn, GetDateRange, ActiveDates, SetDateHasService, ResetDateToNormalService, SetWeekdayService', 'transitfeed/serviceperiod.py')],
     ('inputs', 'histories'))
prop('C03', 'Calendars are validated and written without loss',
     'A service period is reported for each missing id, unparsable or reversed date, bad weekday flag and unparsable exception date, and for nothing else. The rows written for calendar.txt and calendar_dates.txt are exactly the calendar (weekday flags, dates) and its exceptions with their type.',
     'every service period content, valid or not',
     'Tests check single mistakes one by one and a few written rows; combinations and absence of false reports are untested.',
     ['transitfeed/serviceperiod.py'], [('ServicePeriod.Validate*, GetCalendarFieldValuesTuple, GenerateCalendarDatesFieldValuesTuples', 'transitfeed/serviceperiod.py')])
prop('C04', 'Adding an object to a schedule keeps the registries unique and complete',
     'Adding an agency, stop, route, trip, service period, fare, fare rule, shape or transfer stores it under its id and keeps every object stored before; agencies, stops, routes, trips, fares, fare rules, transfers and the feed info are linked to the schedule. An object whose id is already taken is reported and does not displace the stored one (a transfer with a repeated id is reported and kept beside it). Derived indices (trips of a route, zones, rules of a fare) stay in step.',
     'every schedule content and every object, valid or not, and every order of additions',
     'Tests add one duplicate of each kind to nearly empty schedules; they do not check that other entries and indices stay as they were.',
     [S, 'transitfeed/gtfsobjectbase.py'], [('Schedule.Add*Object', S)], ('inputs', 'histories'))
prop('C05', 'Stop times are parsed, checked and written field by field',
     'A stop time accepts arrival and departure texts or seconds, pickup/drop-off/timepoint codes, sequence and distance; each bad value is reported under its own column and no valid value is reported or altered. The effective time is the arrival if given, else the departure, and the values written back are those read.',
     'every combination of field values, text or number, given or absent',
     'Tests try one bad value at a time; the constructor has a path per combination of given and absent fields.',
     ['transitfeed/stoptime.py'], [('StopTime.__init__, GetTimeSecs, GetFieldValuesTuple, GetSqlValuesTuple', 'transitfeed/stoptime.py')])
prop('C06', 'Trip travel checks flag exactly the impossible or too fast segments',
     'For a trip\'s stop times in order: an arrival before the previous departure, shape distances that repeat, decrease or are negative, a last distance beyond the end of the shape, a stop more than 1 km from its place on the shape, and segments faster than the limit of the vehicle type are each reported at the right stop time. A trip without those faults gets no such report.',
     'every sequence of stop times of any length, every vehicle type, every distance and time',
     'Tests use three to five stop times; the checks carry state across the sequence, so faults separated by untimed stops or by several segments are untested.',
     [T], [('Trip._CheckSpeed, ValidateStopTimes*, ValidateShapeDistTraveledSmallerThanMaxShapeDistance, ValidateDistanceFromStopToShape', T)])
prop('C07', 'Untimed stops are interpolated by distance between timed neighbours',
     'Every stop of a trip gets a time: timed stops keep theirs and each untimed stop lies between its neighbouring timed stops, in proportion to the distance travelled, so interpolated times never decrease when the timed ones do not. A trip whose first or last stop is untimed is refused.',
     'every sequence of timed and untimed stops, of any length, at any positions',
     'Tests interpolate two short trips; runs of untimed stops, coinciding stops and several timed anchors are not covered.',
     [T], [('Trip.GetTimeInterpolatedStops, GetFrequencyStopTimes', T)])
prop('C08', 'Frequency-based trips expand to exactly the departures described',
     'A frequency row is accepted exactly when its start, end, headway and exact_times are valid; each fault is reported and nothing valid is. The start times of a frequency-based trip are start, start+headway, ... strictly before the end of each row, in order, and rows written back are the ones added.',
     'every frequency row and every list of rows of a trip',
     'Tests expand two headways; off-by-one at the end of a period, overlap between rows and combinations of bad values are open.',
     ['transitfeed/frequency.py', T], [('Frequency.*, Trip.AddFrequency, GetFrequencyStartTimes, GetFrequencyStopTimes, ValidateFrequencies', T)])
prop('C09', 'Shapes keep their points in order with non-decreasing distances',
     'Adding points gives a shape whose points are in sequence order, whatever the order of insertion; points with a bad coordinate, a repeated sequence number or a distance that decreases are reported. Every other point is kept and the maximum distance is that of the points.',
     'every shape point content and every order and number of additions',
     'Tests add a handful of points, mostly in order.',
     ['transitfeed/shape.py', 'transitfeed/shapepoint.py'], [('Shape.AddShapePointObjectUnsorted, AddPoint, GetPointWithDistanceTraveled, ShapePoint.ParseAttributes', 'transitfeed/shape.py')],
     ('inputs', 'histories'))
prop('C10', 'Distances and shape geometry obey the formulas',
     'The distance between two points is the great-circle distance on the stated sphere, and the distance between stops is that of their coordinates. Vector operations, closest point on a segment and lengths of polylines follow their geometric definitions.',
     'every pair of coordinates, every segment, every polyline',
     'Tests check a few sampled values.',
     [U, 'transitfeed/shapelib.py'], [('ApproximateDistance, ApproximateDistanceBetweenStops', U), ('Point, Poly', 'transitfeed/shapelib.py')])
prop('C11', 'Stops are validated field by field, and only real faults are reported',
     'A stop is reported for each missing required value, coordinate out of range or at (0,0), bad url, time zone, wheelchair or location type, for a station with a parent or without coordinates, and for equal name and description; nothing else is reported. Text coordinates and location types are turned into numbers when they are numbers.',
     'every stop content, valid or not, text or number',
     'Tests change one field at a time.',
     ['transitfeed/stop.py'], [('Stop.Validate*, ValidateBeforeAdd, ValidateAfterAdd', 'transitfeed/stop.py')])
prop('C12', 'Routes are validated field by field, and only real faults are reported',
     'A route is reported for missing id or names, a short name that is too long or repeated in the long name, bad type, url, colors or bikes_allowed, too little contrast and a description that repeats a name; nothing else is reported. A numeric or named route type is normalised to its number.',
     'every route content, valid or not',
     'Tests change one field at a time.',
     ['transitfeed/route.py'], [('Route.Validate*', 'transitfeed/route.py')])
prop('C13', 'Transfers are validated for endpoints, type, time, distance and speed',
     'A transfer is reported for a missing or unknown endpoint, bad type, bad or excessive minimum time, too great a distance between its stops, or a walking speed that cannot be reached; nothing else is reported, and stops without coordinates do not crash the check. Equal endpoints pairs are identified by their four values.',
     'every transfer content and every schedule it is added to',
     'Tests try single faults on two stops.',
     ['transitfeed/transfer.py'], [('Transfer.*', 'transitfeed/transfer.py')])
prop('C14', 'Fares and fare rules keep their values, identity and validity',
     'A fare attribute read from text keeps every value, with numbers converted, reports each bad value under its column and nothing valid; two fares, or two fare rules, are equal exactly when all their fields are. Rules attached to a fare are those of its id.',
     'every fare and fare rule content, as text or value',
     'Tests check one bad value at a time and one inequality.',
     ['transitfeed/fareattribute.py', 'transitfeed/farerule.py'], [('FareAttribute.*, FareRule.*', 'transitfeed/fareattribute.py')])
prop('C15', 'Trips of a block overlap exactly when reported',
     'With the trips of a block ordered by start time, each pair whose later trip starts before the earlier one has ended is reported, exactly once, when the two run on a common date (the same service, or services with a common active date); pairs that share no date or only touch are not reported, and a trip with an unknown service does not keep the other pairs from being checked.',
     'every set of trips, blocks, time ranges and calendars',
     'Tests have blocks of two or three trips.',
     [S], [('Schedule.ValidateBlocks, Schedule.ValidateTrips', S)])
prop('C16', 'Date coverage, gaps and expiry of a feed are computed exactly',
     'The date range of a schedule runs from the earliest to the latest date of its service periods (feed info taking part as documented), the number of trips per day counts exactly the trips whose service is active, and gaps, expiry, and future start are reported exactly when the thresholds are crossed.',
     'every set of service periods, trips and the current date',
     'Tests fix a few feeds and dates.',
     [S], [('Schedule.GetDateRangeWithOrigins, GenerateDateTripsDeparturesList, ValidateFeedStartAndExpirationDates, ValidateServiceGaps', S)])
prop('C17', 'Field validators accept exactly the documented values',
     'Blank, URL, e-mail, language, time zone, color, date, number, yes/no and latitude/longitude checks accept exactly the documented values, report a rejected value once under its column, and return whether it was accepted. Number and date conversion gives the value the text denotes or raises an error.',
     'every value, text or not, given to a validator',
     'Tests list a few good and bad examples for each.',
     [U], [('Validate*, FloatStringToFloat, NonNegIntStringToInt, IsEmpty, DateStringToDateObject', U)])
prop('C18', 'Reading a table keeps every usable row and reports the others',
     'Every non-blank row of a table is delivered once, in file order, with each value under the column of its header and its row number; missing files and columns, repeated or unknown headers, short or long rows, bad encodings and stray bytes are reported and never silently change a value. References from one table to another are resolved or reported.',
     'every file content',
     'Tests have one file per fault.',
     ['transitfeed/loader.py'], [('Loader._ReadCsvDict, _ReadCSV, _Load*', 'transitfeed/loader.py')])
prop('C19', 'Writing a feed and reading it back preserves every value',
     'Each table is written with a header listing exactly the columns in use, each row holding the text of the object\'s value under each column, with None as empty. An attribute of an object reads as its value, as empty text when the column was not given, and unknown names are refused.',
     'every object content and every set of columns',
     'Tests write and compare a few complete feeds.',
     [S, 'transitfeed/gtfsobjectbase.py', U], [('Schedule.WriteGoogleTransitFeed, CsvUnicodeWriter, GtfsObjectBase.__getitem__, __getattr__', 'transitfeed/gtfsobjectbase.py')])
prop('C20', 'Every problem is reported once with its context and severity',
     'Each reported problem reaches the accumulator exactly once, carrying the file context and row in force when it was reported; problem kinds the user ignores are dropped and nothing else. A raising accumulator raises on every error and on no notice, and counts and worst examples in summaries are those of the problems reported.',
     'every sequence of reports and contexts',
     'Tests make a few reports each.',
     ['transitfeed/problems.py', 'feedvalidator.py'], [('ProblemReporter, ProblemAccumulators, ExceptionWithContext', 'transitfeed/problems.py')],
     ('inputs', 'histories'))
prop('C21', 'Merging maps entities to faithful copies with unique ids',
     'Merging agencies, stops and calendars keeps every entity: each of either feed is mapped to exactly one entity of the merged feed. Two are merged only when their identifying values agree (ids with equal agency fields; stops with equal ids or names, near each other, in matching zones). Every other entity, and every migrated route and shape, is a copy with all its values, its references following the migrated targets; ids that clash get fresh ids used by neither feed nor before. The counts of merged and unmerged entities are exact.',
     'every pair of feeds',
     'Tests merge a small feed with variations of itself.',
     ['merge.py'], [('DataSetMerger and its subclasses, FeedMerger', 'merge.py')])
prop('C22', 'Calendars can be made disjoint at a date when merging',
     'Cutting at a date leaves the first feed\'s services active only before it and the second\'s only from it on, with all other activity unchanged. The disjointness check accepts exactly feeds whose active ranges do not overlap.',
     'every pair of calendars and every cut date',
     'Tests cut one calendar.',
     ['merge.py'], [('ServicePeriodMerger.DisjoinCalendars, CheckDisjointCalendars', 'merge.py')])
prop('C23', 'Agency and feed info are validated field by field',
     'An agency or feed info is reported for each missing required value, bad url, language, time zone, e-mail or date, and for reversed dates; nothing else is reported. Valid dates and values are kept as they are.',
     'every agency and feed info content',
     'Tests change one field at a time.',
     ['transitfeed/agency.py', 'transitfeed/feedinfo.py'], [('Agency.Validate*, FeedInfo.Validate*', 'transitfeed/agency.py')])
prop('C24', 'The factory maps names and files to classes consistently',
     'A registered class is returned for its name and its file, loading order covers exactly the files marked loadable and respects dependencies, and registering, replacing and removing classes or columns changes only what was asked. Unknown names are refused.',
     'every sequence of factory updates',
     'Tests do a few updates on the default factory.',
     ['transitfeed/gtfsfactory.py'], [('GtfsFactory.*', 'transitfeed/gtfsfactory.py')], ('histories', 'inputs'))
prop('C25', 'Line ends are checked per line and reported exactly',
     'Reading through the line-end checker returns each line\'s content unchanged, reports mixed line ends once per file with the right counts, and reports stray carriage returns at their line. Consistent files are not reported.',
     'every file content',
     'Tests have a few files.',
     [U], [('EndOfLineChecker', U)])
prop('C26', 'Nearest and bounded stop searches return exactly the right stops',
     'The nearest-stops query returns the requested number of stops in order of distance, no nearer one left out; the bounding-box query returns exactly the stops inside or on its border, up to the requested number. Each pair of stops, of stations, or of a stop and a station not its parent, less than two meters apart is reported once, and no other.',
     'every set of stops and every query',
     'Tests query a feed with five stops.',
     [S], [('Schedule.GetNearestStops, GetStopsInBoundingBox, ValidateNearbyStops', S)])
prop('C27', 'Trips are validated against their route, service, shape and fields',
     'A trip is reported for an empty or unknown route, service or shape id, a bad direction, bikes or wheelchair value, and a service the schedule lacks; nothing else is reported. Reports name the value and its column.',
     'every trip content and schedule',
     'Tests change one field at a time.',
     [T], [('Trip.Validate*', T)])
prop('C28', 'A trip\'s stop times come back in sequence order, complete',
     'The stop times of a trip, however they were added, come back complete and in stop_sequence order, with start and end times those of the first and last; replacing or clearing them leaves nothing behind and other trips untouched. Rows of the stop time table hold the values of the stop time they were written for, and stop sequence numbers used twice are reported.',
     'every order of insertion and replacement',
     'Tests add stop times mostly in order.',
     [T], [('Trip.AddStopTimeObject, GetStopTimes, ReplaceStopTimeObject, ClearStopTimes', T)], ('histories',))
prop('C29', 'Shape graph search finds the shortest path through the points',
     'Shortest paths and nearest-path searches in a polyline graph return a real path of the graph with the least total distance, of partial paths the best ones are kept, and merged polylines keep all points in order but for an end point that is met again.',
     'every graph and query',
     'Tests use a graph of four nodes.',
     ['transitfeed/shapelib.py'], [('PolyCollection, PolyGraph', 'transitfeed/shapelib.py')])
prop('C30', 'Translation upgrade keeps every translation and nothing else',
     'Upgrading an old translations table yields, for each translated field value used in the feed, exactly the translations given for it, under the right table and field. Rows that are not used or equal the original are dropped as documented.',
     'every feed and translations table',
     'Tests upgrade one feed.',
     ['upgrade_translations.py'], [('OldTranslations, TranslationsConverter', 'upgrade_translations.py')])
prop('C31', 'Pathway drawings contain every stop and pathway once',
     'The drawing contains one node for each stop and one edge for each pathway with its mode, direction and labels; cluster membership follows the parent station.',
     'every stops and pathways table',
     'Tests draw one station.',
     ['visualize_pathways.py'], [('gtfs_to_graph and readers', 'visualize_pathways.py')])
prop('C32', 'Google transit extension applies its own rules consistently',
     'With the extension a stop may also be an entrance (location type 2, which needs a parent station and may lack a name); its vehicle type must be a known route type and is reported for entrances and stops with a parent station; a route may give its CO2 per km as a number; a fare must name a known agency unless at most one exists and it names none; an agency language that is no valid BCP-47 code is reported. All other checks of a stop are as without the extension, and nothing else is reported.',
     'every object content',
     'Tests change one field at a time.',
     ['extensions/googletransit/agency.py', 'extensions/googletransit/stop.py', 'extensions/googletransit/route.py', 'extensions/googletransit/fareattribute.py', 'extensions/googletransit/extension_util.py'],
     [('Agency, Stop, Route, FareAttribute', 'extensions/googletransit')])

prop('C33', 'Cross-table checks report exactly the broken relations',
     'Over a whole schedule these are reported, and nothing else by the same checks: agencies with different time zones, a feed language that differs from that of an agency, more than one agency with one of them lacking an id, routes of an unknown agency, stops no trip uses and stations a trip does use, parent stations that are unknown, no station, or more than 100 m (warning) or 1000 m (error) away, routes named alike but for case and outer space, trips with no or one stop time, frequencies of a trip without stop times, shapes no trip uses, and more than five consecutive stop times at one time.',
     'every schedule content',
     'Tests break one relation at a time in a small feed; absence of false reports and combinations are untested.',
     [S], [('Schedule.Validate, ValidateStops, ValidateRouteNames, ValidateTripStopTimes, ValidateStopTimesForTrip, ValidateUnusedShapes, ValidateAgenciesHaveSameAgencyTimezone, ValidateIdlessAgency, ValidateRouteAgencyId', S)])

# properties whose main statement only a bounded check decides
WEAK = {'C15', 'C18', 'C19', 'C20', 'C25', 'C29', 'C30', 'C31'}

# properties with no check: reason
NA = {}

exec(open(os.path.join(HERE, 'tools', 'not_applicable.py')).read())


def main():
    _, cons = load_all()
    have = {}
    for c in cons:
        for p in c.props:
            have.setdefault(p, []).append(c)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        cs = have.get(p['id'])
        if not cs or p['id'] in FORCE_NA:
            na.append({'property': p['id'], 'reason': NA[p['id']]})
            continue
        proved = [c for c in cs if c.kind in ('contract', 'lemma') and
                  not c.bounded and c.modular != 'assumed']
        bounded = [c for c in cs if c not in proved]
        note = ('%d contracts or lemmas proved on the functions parsed from '
                '/repo in the run, for all inputs meeting the stated '
                'preconditions; assumes mathematical numbers, unaliased '
                'containers, declared classes, library axioms (DESIGN.md), '
                'and trusts /verif/pyvc and z3.' % len(proved))
        if bounded:
            note += (' Bounded only (not counted as proved): ' + ', '.join(
                sorted(c.qual or c.node.name for c in bounded)) + '.')
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3-vt check.py ' + p['id'],
            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
            'technique': 'contract-based deductive verification of the real '
                         'Python code: every function under contract proved '
                         'equivalent to its executable contract (own VC '
                         'generator on the AST of /repo, z3/cvc5), inferred '
                         'loop invariants' if proved else
                         'bounded check of the real code (no proof)',
            'level': 'proof' if proved and p['id'] not in WEAK
                     else 'exploration',
            'level_note': note})
    for k in NA:
        assert any(n['property'] == k for n in na) or True
    m = {'version': 1,
         'setup_cmd': 'python3-vt -c "import z3" && test -x /opt/jy/bin/jython',
         'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks;', [n['property'] for n in na], 'n/a')


main()
