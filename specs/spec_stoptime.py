"""Stop times (stoptime.py)."""
from speclib import contract, lemma, scenario, classdecl, implies
from transitfeed import util
from transitfeed import errors
from spec_util import (is_empty, time_to_seconds, format_seconds,
                       validate_and_return_int)

CLOCK = ['08:00:00', '8:00:00', '24:30:00', '00:00:00', '07:59:59', 'x', '',
         '08:60:00', None, '8:0:0', ' ']
CODE = [0, 1, 2, 3, 4, -1, '0', '1', '2', '3', '4', 'x', '', ' ', None]


def clock(secs, text, column, problems):
    """Seconds of a stop time's arrival or departure."""
    if secs is not None:
        return secs
    if text is None or text == '':
        return None
    try:
        return time_to_seconds(text)
    except errors.Error:
        problems.InvalidValue(column, text)
        return None


@contract('transitfeed.stoptime.StopTime.__init__', prop='C05',
          args='self: New[StopTime], problems: Reporter, stop: Stop, '
               'arrival_time: Opt[Str], departure_time: Opt[Str], '
               'stop_headsign: Opt[Str], pickup_type: Union[None,Int,Str], '
               'drop_off_type: Union[None,Int,Str], '
               'shape_dist_traveled: Union[None,Float,Str], '
               'arrival_secs: Opt[Int], departure_secs: Opt[Int], '
               'stop_time: Opt[Str], stop_sequence: Opt[Int], '
               'timepoint: Union[None,Int,Str]', cases=6000, budget=300,
          modular='event',
          writes=['self.arrival_secs', 'self.departure_secs', 'self.stop',
                  'self.stop_headsign', 'self.pickup_type',
                  'self.drop_off_type', 'self.shape_dist_traveled',
                  'self.stop_sequence', 'self.timepoint'],
          ensures=['implies(stop_sequence is not None, '
                   'hasattr(self, "stop_sequence"))'],
          pools={'arrival_time': CLOCK, 'departure_time': CLOCK,
                 'stop_time': CLOCK, 'pickup_type': CODE,
                 'drop_off_type': CODE, 'timepoint': CODE,
                 'shape_dist_traveled': [0.0, 1.5, '0', '1.5', 'x', '', None,
                                         '-1', ' ']})
def stoptime_init(self, problems, stop, arrival_time, departure_time,
                  stop_headsign, pickup_type, drop_off_type,
                  shape_dist_traveled, arrival_secs, departure_secs, stop_time,
                  stop_sequence, timepoint):
    if stop_time is not None:
        arrival_time = stop_time
        departure_time = stop_time
    self.arrival_secs = clock(arrival_secs, arrival_time, 'arrival_time',
                              problems)
    self.departure_secs = clock(departure_secs, departure_time,
                                'departure_time', problems)
    self.stop = stop
    self.stop_headsign = stop_headsign
    self.timepoint = validate_and_return_int(
        timepoint, [0, 1], None, True, 'timepoint', problems)
    self.pickup_type = validate_and_return_int(
        pickup_type, [0, 1, 2, 3], None, True, 'pickup_type', problems)
    self.drop_off_type = validate_and_return_int(
        drop_off_type, [0, 1, 2, 3], None, True, 'drop_off_type', problems)
    a = self.arrival_secs
    d = self.departure_secs
    if self.pickup_type == 1 and self.drop_off_type == 1 and \
            a is None and d is None:
        problems.OtherProblem('of no use', type=errors.TYPE_WARNING)
    given_a = arrival_secs is not None or not (
        arrival_time is None or arrival_time == '')
    given_d = departure_secs is not None or not (
        departure_time is None or departure_time == '')
    if a is not None and d is not None and d < a:
        problems.InvalidValue('departure_time', departure_value(
            departure_secs, departure_time))
    if a is not None and not given_d:
        problems.MissingValue('departure_time')
    if d is not None and not given_a:
        problems.MissingValue('arrival_time')
    if shape_dist_traveled is None or shape_dist_traveled == '':
        self.shape_dist_traveled = None
    else:
        try:
            self.shape_dist_traveled = float(shape_dist_traveled)
        except ValueError:
            problems.InvalidValue('shape_dist_traveled', shape_dist_traveled)
            self.shape_dist_traveled = None
    if stop_sequence is not None:
        self.stop_sequence = stop_sequence


def departure_value(secs, text):
    """The text shown with an impossible departure."""
    if secs is None and text == '':
        return None
    return text


@contract('transitfeed.stoptime.StopTime.GetTimeSecs', prop='C05,C06,C07',
          args='self: StopTime')
def stoptime_secs(self):
    if self.arrival_secs is None:
        return self.departure_secs
    return self.arrival_secs


def clock_text(secs):
    if secs is None:
        return ''
    return format_seconds(secs)


def text(v):
    if v is None:
        return ''
    return v


@contract('transitfeed.stoptime.StopTime.GetFieldValuesTuple',
          prop='C05,C19', args='self: StopTime, trip_id: Opt[Str]',
          modular='uf', ret='Tuple[Opt[Str],Str,Str,Str,Int,Str,Union[Int,Str],'
          'Union[Int,Str],Union[Float,Str],Union[Int,Str]]',
          reads=['StopTime.arrival_secs', 'StopTime.departure_secs',
                 'StopTime.stop', 'Stop.stop_id', 'StopTime.stop_sequence',
                 'StopTime.stop_headsign', 'StopTime.pickup_type',
                 'StopTime.drop_off_type', 'StopTime.shape_dist_traveled',
                 'StopTime.timepoint'],
          requires=['hasattr(self, "stop_sequence")'])
def stoptime_row(self, trip_id):
    return (trip_id, clock_text(self.arrival_secs),
            clock_text(self.departure_secs), text(self.stop.stop_id),
            self.stop_sequence, text(self.stop_headsign),
            text(self.pickup_type), text(self.drop_off_type),
            text(self.shape_dist_traveled), text(self.timepoint))


@contract('transitfeed.stoptime.StopTime.GetSqlValuesTuple', prop='C05,C28',
          args='self: StopTime, trip_id: Opt[Str]',
          requires='hasattr(self, "stop_sequence")')
def stoptime_sql(self, trip_id):
    return (trip_id, self.arrival_secs, self.departure_secs,
            self.stop.stop_id, self.stop_sequence, self.stop_headsign,
            self.pickup_type, self.drop_off_type, self.shape_dist_traveled,
            self.timepoint)
