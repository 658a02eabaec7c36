"""Stops (transitfeed/stop.py)."""
from speclib import contract, lemma, scenario, classdecl, implies
from transitfeed import util
from spec_util import is_empty, float_string_to_float
from transitfeed import errors
WARN = errors.TYPE_WARNING


@contract('transitfeed.stop.Stop.ValidateStopLatitude', prop='C11',
          args='self: Stop, problems: Reporter', modular='event',
          reads=['self.stop_lat'],
          writes=['self.stop_lat'],
          ensures='not isinstance(self.stop_lat, basestring)')
def validate_lat(self, problems):
    v = self.stop_lat
    if v is None:
        return
    if not isinstance(v, float):
        try:
            self.stop_lat = float_string_to_float(v, problems)
        except ValueError:
            problems.InvalidValue('stop_lat', v)
            del self.stop_lat
            return
    if abs(self.stop_lat) > 90:
        problems.InvalidValue('stop_lat', v)


@contract('transitfeed.stop.Stop.ValidateStopLongitude', prop='C11',
          args='self: Stop, problems: Reporter', modular='event',
          reads=['self.stop_lon'],
          writes=['self.stop_lon'],
          ensures='not isinstance(self.stop_lon, basestring)')
def validate_lon(self, problems):
    v = self.stop_lon
    if v is None:
        return
    if not isinstance(v, float):
        try:
            self.stop_lon = float_string_to_float(v, problems)
        except ValueError:
            problems.InvalidValue('stop_lon', v)
            del self.stop_lon
            return
    if abs(self.stop_lon) > 180:
        problems.InvalidValue('stop_lon', v)


@contract('transitfeed.stop.Stop.ValidateStopUrl', prop='C11',
          args='self: Stop, problems: Reporter', modular='event',
          writes=['self.stop_url'])
def validate_stop_url(self, problems):
    v = self.stop_url
    if v and not is_empty(v) and not v.startswith('http://') and \
            not v.startswith('https://'):
        problems.InvalidValue('stop_url', v)
        del self.stop_url


@contract('transitfeed.stop.Stop.ValidateStopLocationType', prop='C11',
          args='self: Stop, problems: Reporter', modular='event',
          writes=['self.location_type'])
def validate_location_type(self, problems):
    v = self.location_type
    if v == '':
        self.location_type = 0
        return
    try:
        n = int(v)
    except ValueError:
        problems.InvalidValue('location_type', v)
        del self.location_type
        return
    self.location_type = n
    if n < 0 or n > 4:
        problems.InvalidValue('location_type', v, type=WARN)


@contract('transitfeed.stop.Stop.ValidateStopRequiredFields', prop='C11',
          args='self: Stop, problems: Reporter', modular='event',
          writes=['self.stop_id', 'self.stop_name',
                  'self.stop_lat', 'self.stop_lon'])
def validate_required(self, problems):
    if is_empty(self.stop_id):
        problems.MissingValue('stop_id')
        self.stop_id = None
    if is_empty(self.stop_name):
        problems.MissingValue('stop_name')
        self.stop_name = None
    if is_empty(self.stop_lat):
        problems.MissingValue('stop_lat')
        self.stop_lat = None
    if is_empty(self.stop_lon):
        problems.MissingValue('stop_lon')
        self.stop_lon = None


@contract('transitfeed.stop.Stop.ValidateStopNotTooCloseToOrigin', prop='C11',
          args='self: Stop, problems: Reporter',
          requires=['not isinstance(self.stop_lat, basestring)',
                    'not isinstance(self.stop_lon, basestring)'], modular='event',
          reads=['self.stop_lat', 'self.stop_lon'])
def validate_origin(self, problems):
    if self.stop_lat is None or self.stop_lon is None:
        return
    if -1 < self.stop_lat and self.stop_lat < 1 and \
            -1 < self.stop_lon and self.stop_lon < 1:
        problems.InvalidValue('stop_lat', self.stop_lat, type=WARN)


@contract('transitfeed.stop.Stop.ValidateStopDescriptionAndNameAreDifferent',
          prop='C11', args='self: Stop, problems: Reporter', modular='event',
          reads=['self.stop_name', 'self.stop_desc'])
def validate_desc(self, problems):
    if is_empty(self.stop_desc) or not self.stop_name:
        return
    if self.stop_name.strip().lower() == self.stop_desc.strip().lower():
        problems.InvalidValue('stop_desc', self.stop_desc, type=WARN)


@contract('transitfeed.stop.Stop.ValidateStopIsNotStationWithParent',
          prop='C11', args='self: Stop, problems: Reporter', modular='event',
          reads=['self.location_type', 'self.parent_station'])
def validate_station_parent(self, problems):
    if self.location_type == 1 and self.parent_station:
        problems.InvalidValue('parent_station', self.parent_station)


@contract('transitfeed.stop.Stop.ValidateStopTimezone', prop='C11',
          args='self: Stop, problems: Reporter', modular='event',
          reads=['self.stop_timezone', 'self.parent_station'])
def validate_stop_timezone(self, problems):
    if is_empty(self.stop_timezone):
        return
    if not util.IsValidTimezone(self.stop_timezone):
        problems.InvalidValue('stop_timezone', self.stop_timezone)
    if not is_empty(self.parent_station):
        problems.InvalidValue('stop_timezone', self.stop_timezone, type=WARN)


@contract('transitfeed.stop.Stop.ValidateWheelchairBoarding', prop='C11',
          args='self: Stop, problems: Reporter', modular='event',
          reads=['self.wheelchair_boarding'])
def validate_wheelchair(self, problems):
    v = self.wheelchair_boarding
    if is_empty(v) or v == '0' or v == '1' or v == '2':
        return
    problems.InvalidValue('wheelchair_boarding', v)


@contract('transitfeed.stop.Stop.ValidateBeforeAdd', prop='C11',
          args='self: Stop, problems: Reporter', cases=3000)
def stop_validate_before_add(self, problems):
    validate_required(self, problems)
    validate_lat(self, problems)
    validate_lon(self, problems)
    validate_stop_url(self, problems)
    validate_location_type(self, problems)
    validate_stop_timezone(self, problems)
    validate_wheelchair(self, problems)
    validate_origin(self, problems)
    validate_desc(self, problems)
    validate_station_parent(self, problems)
    return True


@contract('transitfeed.stop.Stop.Validate', prop='C11',
          args='self: Stop, problems: Reporter', modular='event',
          reads=['self.stop_desc', 'self.parent_station',
                 'self.stop_timezone', 'self.wheelchair_boarding'],
          writes=['self.stop_id', 'self.stop_name', 'self.stop_lat',
                  'self.stop_lon', 'self.stop_url', 'self.location_type'],
          ensures=['not isinstance(self.stop_lat, basestring)',
                   'not isinstance(self.stop_lon, basestring)'])
def stop_validate(self, problems):
    stop_validate_before_add(self, problems)


@contract('transitfeed.stop.Stop.__init__', prop='C11',
          args='self: New[Stop], lat: Union[None,Float,Str], '
               'lng: Union[None,Float,Str], name: Opt[Str], stop_id: Opt[Str], '
               'field_dict: Opt[Dict[Str,Str]], stop_code: Opt[Str]',
          pools={'field_dict.key': ['stop_id', 'stop_name', 'stop_lat',
                                    'zone_id', 'stop_code']})
def stop_init(self, lat, lng, name, stop_id, field_dict, stop_code):
    self._schedule = None
    if field_dict:
        self.__dict__.update(field_dict)
        return
    if lat is not None:
        self.stop_lat = lat
    if lng is not None:
        self.stop_lon = lng
    if name is not None:
        self.stop_name = name
    if stop_id is not None:
        self.stop_id = stop_id
    if stop_code is not None:
        self.stop_code = stop_code
