"""Transfers (transitfeed/transfer.py)."""
from speclib import contract, lemma, scenario, classdecl, implies
from transitfeed import util
from spec_util import is_empty, approximate_distance_between_stops
from transitfeed import errors
WARN = errors.TYPE_WARNING


@contract('transitfeed.transfer.Transfer.ValidateFromStopIdIsPresent',
          prop='C13', args='self: Transfer, problems: Reporter', modular='event', ret='Bool',
          reads=['self.from_stop_id'])
def from_present(self, problems):
    if is_empty(self.from_stop_id):
        problems.MissingValue('from_stop_id')
        return False
    return True


@contract('transitfeed.transfer.Transfer.ValidateToStopIdIsPresent',
          prop='C13', args='self: Transfer, problems: Reporter', modular='event', ret='Bool',
          reads=['self.to_stop_id'])
def to_present(self, problems):
    if is_empty(self.to_stop_id):
        problems.MissingValue('to_stop_id')
        return False
    return True


@contract('transitfeed.transfer.Transfer.ValidateTransferType',
          prop='C13', args='self: Transfer, problems: Reporter', modular='event', ret='Bool',
          reads=['self.transfer_type'])
def transfer_type(self, problems):
    v = self.transfer_type
    if is_empty(v):
        return True
    if isinstance(v, int) and 0 <= v and v <= 3:
        return True
    problems.InvalidValue('transfer_type', v)
    return False


@contract('transitfeed.transfer.Transfer.ValidateMinimumTransferTime',
          prop='C13', args='self: Transfer, problems: Reporter', cases=1500, modular='event', ret='Bool',
          reads=['self.transfer_type', 'self.min_transfer_time'],
          ensures='not result or not isinstance(self.min_transfer_time, '
                  'basestring) or is_empty(self.min_transfer_time)')
def min_time(self, problems):
    v = self.min_transfer_time
    if is_empty(v):
        return True
    if self.transfer_type != 2:
        problems.MinimumTransferTimeSetWithInvalidTransferType(
            self.transfer_type)
    if not isinstance(v, int):
        problems.InvalidValue('min_transfer_time', v)
        return False
    if v < 0 or v >= 86400:
        problems.InvalidValue('min_transfer_time', v)
    elif v >= 10800:
        problems.InvalidValue('min_transfer_time', v, type=WARN)
    return True


@contract('transitfeed.transfer.Transfer.ValidateBeforeAdd', prop='C13',
          args='self: Transfer, problems: Reporter', cases=1500)
def transfer_before_add(self, problems):
    a = from_present(self, problems)
    b = to_present(self, problems)
    c = transfer_type(self, problems)
    d = min_time(self, problems)
    return a and b and c and d


@contract('transitfeed.transfer.Transfer.GetTransferDistance', prop='C13',
          args='self: Transfer', modular='uf', ret='Opt[Float]', requires=[
              'self._schedule is not None',
              'self.from_stop_id in self._schedule.stops',
              'self.to_stop_id in self._schedule.stops',
              'all(not isinstance(s.stop_lat, basestring) and '
              'not isinstance(s.stop_lon, basestring) '
              'for s in self._schedule.stops.values())'],
          reads=['self._schedule', 'Schedule.stops', 'Stop.stop_lat',
                 'Stop.stop_lon', 'self.from_stop_id', 'self.to_stop_id'])
def transfer_distance(self):
    stops = self._schedule.stops
    return approximate_distance_between_stops(
        stops[self.from_stop_id], stops[self.to_stop_id])


@contract('transitfeed.transfer.Transfer.ValidateFromStopIdIsValid',
          prop='C13', args='self: Transfer, problems: Reporter',
          requires='self._schedule is not None')
def from_valid(self, problems):
    if self.from_stop_id in self._schedule.stops:
        return True
    problems.InvalidValue('from_stop_id', self.from_stop_id)
    return False


@contract('transitfeed.transfer.Transfer.ValidateToStopIdIsValid',
          prop='C13', args='self: Transfer, problems: Reporter',
          requires='self._schedule is not None')
def to_valid(self, problems):
    if self.to_stop_id in self._schedule.stops:
        return True
    problems.InvalidValue('to_stop_id', self.to_stop_id)
    return False


@contract('transitfeed.transfer.Transfer.ValidateTransferDistance',
          prop='C13', args='self: Transfer, problems: Reporter', requires=[
              'self._schedule is not None',
              'self.from_stop_id in self._schedule.stops',
              'self.to_stop_id in self._schedule.stops',
              'all(not isinstance(s.stop_lat, basestring) and '
              'not isinstance(s.stop_lon, basestring) '
              'for s in self._schedule.stops.values())'],
          pools={'Stop.stop_lat': [0.0, 0.017, 0.018, 0.019, 0.089, 0.09, 1.0],
                 'Stop.stop_lon': [0.0, 0.001, 0.002]})
def transfer_distance_check(self, problems):
    d = self.GetTransferDistance()
    if d is None:
        return
    if d > 10000:
        problems.TransferDistanceTooBig(self.from_stop_id, self.to_stop_id, d)
    elif d > 2000:
        problems.TransferDistanceTooBig(self.from_stop_id, self.to_stop_id, d,
                                        type=WARN)


@contract('transitfeed.transfer.Transfer.ValidateTransferWalkingTime',
          prop='C13', args='self: Transfer, problems: Reporter', requires=[
              'self._schedule is not None',
              'not isinstance(self.min_transfer_time, basestring) or '
              'is_empty(self.min_transfer_time)',
              'self.from_stop_id in self._schedule.stops',
              'self.to_stop_id in self._schedule.stops',
              'all(not isinstance(s.stop_lat, basestring) and '
              'not isinstance(s.stop_lon, basestring) '
              'for s in self._schedule.stops.values())'],
          pools={'Transfer.min_transfer_time': [0, 1, 10, -1, 60, 120, 1000,
                                                None],
                 'Stop.stop_lat': [0.0, 0.002, 0.0022, 0.0023, 0.003, 0.004,
                                   0.01],
                 'Stop.stop_lon': [0.0, 0.001]}, cases=1500)
def transfer_walking(self, problems):
    t = self.min_transfer_time
    if is_empty(t) or t < 0:
        return
    d = self.GetTransferDistance()
    if d is None:
        return
    if 2 * (t + 120) < d:
        problems.TransferWalkingSpeedTooFast(
            from_stop_id=self.from_stop_id, to_stop_id=self.to_stop_id,
            transfer_time=t, distance=d)


@contract('transitfeed.transfer.Transfer.ValidateAfterAdd', prop='C13',
          args='self: Transfer, problems: Reporter', requires=[
              'self._schedule is not None',
              'not isinstance(self.min_transfer_time, basestring) or '
              'is_empty(self.min_transfer_time)',
              'all(not isinstance(s.stop_lat, basestring) and '
              'not isinstance(s.stop_lon, basestring) '
              'for s in self._schedule.stops.values())'],
          pools={'Transfer.min_transfer_time': [0, 1, 10, -1, 60, 120, 1000,
                                                None, '', ' '],
                 'Stop.stop_lat': [0.0, 0.002, 0.0022, 0.0023, 0.003, 0.004,
                                   0.01, 1.0, None],
                 'Stop.stop_lon': [0.0, 0.001]}, cases=1500)
def transfer_after_add(self, problems):
    a = from_valid(self, problems)
    b = to_valid(self, problems)
    if a and b:
        transfer_distance_check(self, problems)
        transfer_walking(self, problems)


@contract('transitfeed.transfer.Transfer.Validate', prop='C13',
          args='self: Transfer, problems: Reporter', requires=[
              'self._schedule is None or '
              'all(not isinstance(s.stop_lat, basestring) and '
              'not isinstance(s.stop_lon, basestring) '
              'for s in self._schedule.stops.values())'], cases=1000,
          pools={'Stop.stop_lat': [0.0, 0.002, 0.0022, 0.01, 1.0, None],
                 'Stop.stop_lon': [0.0, 0.001]})
def transfer_validate(self, problems):
    ok = transfer_before_add(self, problems)
    if ok and self._schedule is not None:
        transfer_after_add(self, problems)


@contract('transitfeed.transfer.Transfer._ID', prop='C13',
          args='self: Transfer')
def transfer_id(self):
    a, b = self.from_stop_id, self.to_stop_id
    return (a if a is not None else '', b if b is not None else '')


def number_or_same(v):
    """A non-negative number written as text becomes the number."""
    try:
        n = int(v)
    except (TypeError, ValueError):
        return v
    return n if n >= 0 else v


@contract('transitfeed.transfer.Transfer.__init__', prop='C13',
          args='self: New[Transfer], schedule: None, '
               'from_stop_id: Opt[Str], to_stop_id: Opt[Str], '
               'transfer_type: Union[None,Int,Str], '
               'min_transfer_time: Union[None,Int,Str], '
               'field_dict: Opt[Dict[Str,Str]]',
          pools={'field_dict.key': ['from_stop_id', 'to_stop_id',
                                    'transfer_type', 'min_transfer_time'],
                 'field_dict.value': ['S1', '', '0', '3', '60', 'x', '-1']})
def transfer_init(self, schedule, from_stop_id, to_stop_id, transfer_type,
                  min_transfer_time, field_dict):
    self._schedule = None
    if field_dict:
        self.__dict__.update(field_dict)
    else:
        self.from_stop_id = from_stop_id
        self.to_stop_id = to_stop_id
        self.transfer_type = transfer_type
        self.min_transfer_time = min_transfer_time
    t = self.transfer_type
    self.transfer_type = 0 if t is None or t == '' else number_or_same(t)
    if self.min_transfer_time is not None:
        self.min_transfer_time = number_or_same(self.min_transfer_time)
