"""Field-level helpers (transitfeed/util.py)."""
import re
import math
import random
import datetime
from speclib import contract, lemma, scenario, classdecl, implies
from transitfeed import util
from transitfeed import errors


# ---------------------------------------------------------------- dates
@contract('transitfeed.util.DateStringToDateObject', prop='C02,C17',
          args='date_string: Str', modular='uf', ret='Opt[Date]')
def date_string_to_date_object(date_string):
    if not re.match('^\d{8}$', date_string):
        return None
    try:
        return datetime.date(int(date_string[0:4]), int(date_string[4:6]),
                             int(date_string[6:8]))
    except ValueError:
        return None


@contract('transitfeed.util.IsValidDate', prop='C02,C17', args='date: Str')
def is_valid_date(date):
    return util.DateStringToDateObject(date) is not None


@contract('transitfeed.util.ValidateDate', prop='C02,C17',
          args='date: Opt[Str], column_name: Str, problems: Opt[Reporter]')
def validate_date(date, column_name, problems):
    if is_empty(date):
        return True
    if util.DateStringToDateObject(date) is not None:
        return True
    if problems:
        problems.InvalidValue(column_name, date)
    return False


# ---------------------------------------------------------------- times
@contract('transitfeed.util.FormatSecondsSinceMidnight', prop='C01',
          args='s: Int', pools={'s': [0, 1, 59, 60, 3599, 3600, 3661, 86399,
                                      86400, 359999, 360000, 3599999]})
def format_seconds(s):
    hours = s // 3600
    rest = s - 3600 * hours
    minutes = rest // 60
    seconds = rest - 60 * minutes
    return '%02d:%02d:%02d' % (hours, minutes, seconds)


@contract('transitfeed.util.TimeToSecondsSinceMidnight', prop='C01,C05',
          args='time_string: Str')
def time_to_seconds(time_string):
    m = re.match(r'(\d{1,3}):([0-5]\d):([0-5]\d)$', time_string)
    if not m:
        raise errors.Error('bad time')
    return 60 * (60 * int(m.group(1)) + int(m.group(2))) + int(m.group(3))


# ---------------------------------------------------------------- emptiness
@contract('transitfeed.util.IsEmpty', prop='C17',
          args='value: Union[None,Str,Int,Float]')
def is_empty(value):
    if value is None:
        return True
    if isinstance(value, basestring):
        return value.strip() == ''
    return False


# ---------------------------------------------------------------- numbers
@contract('transitfeed.util.FloatStringToFloat', prop='C17',
          args='float_string: Str, problems: Opt[Reporter]')
def float_string_to_float(float_string, problems):
    v = float(float_string)
    if 'x' in float_string:
        raise ValueError()
    if problems is not None and \
            not re.match(r"^[+-]?\d+(\.\d+)?$", float_string):
        problems.InvalidFloatValue(float_string)
    return v


@contract('transitfeed.util.NonNegIntStringToInt', prop='C17',
          args='int_string: Str, problems: Opt[Reporter]')
def non_neg_int_string_to_int(int_string, problems):
    v = int(int_string)
    if v < 0:
        raise ValueError()
    if problems is not None and \
            not re.match(r"^(?:0|[1-9]\d*)$", int_string):
        problems.InvalidNonNegativeIntegerValue(int_string)
    return v


@contract('transitfeed.util.ValidateAndReturnIntValue', prop='C17,C05',
          args='value: Union[None,Str,Int], allowed_values: List[Int], '
               'default: Opt[Int], allow_empty: Bool, column_name: Opt[Str], '
               'problems: Opt[Reporter]', modular='event', ret='Opt[Int]')
def validate_and_return_int(value, allowed_values, default, allow_empty,
                            column_name, problems):
    if allow_empty and is_empty(value):
        return default
    try:
        n = int(value)
    except (ValueError, TypeError):
        if problems and column_name:
            problems.InvalidValue(column_name, value)
        return default
    if n not in allowed_values and problems and column_name:
        problems.InvalidValue(column_name, value, type=errors.TYPE_WARNING)
    return n


# ---------------------------------------------------------------- validators
@contract('transitfeed.util.IsValidURL', prop='C17', args='url: Str',
          pools={'url': ['http://a', 'https://a', 'http:/a', 'ftp://a', '',
                         'xhttp://a', 'HTTP://a', 'httpx://', 'https:/']})
def is_valid_url(url):
    return url.startswith('http://') or url.startswith('https://')


@contract('transitfeed.util.ValidateURL', prop='C17',
          args='url: Opt[Str], column_name: Opt[Str], '
               'problems: Opt[Reporter]',
          pools={'url': ['http://a', 'https://a', 'a', '', ' ', None]})
def validate_url(url, column_name, problems):
    if is_empty(url) or url.startswith('http://') or \
            url.startswith('https://'):
        return True
    if problems:
        problems.InvalidValue(column_name, url)
    return False


@contract('transitfeed.util.ValidateEmail', prop='C17',
          args='email: Opt[Str], column_name: Opt[Str], '
               'problems: Opt[Reporter]',
          pools={'email': ['a@b.c', 'a@b', '@b.c', 'a@b.', '', ' ', None,
                           'a@@b.c', 'a.b@c', 'a@.c', 'x@y.z@w']})
def validate_email(email, column_name, problems):
    if is_empty(email) or re.match(r'[^@]+@[^@]+\.[^@]+', email):
        return True
    if problems:
        problems.InvalidValue(column_name, email)
    return False


@contract('transitfeed.util.IsValidHexColor', prop='C12', args='color: Str',
          modular='uf', ret='Bool',
          pools={'color': ['000000', 'FFFFFF', 'ffFF00', 'GGGGGG', '12345',
                           '1234567', '', '#12345', '12345g', ' 123456']})
def is_valid_hex_color(color):
    return re.match('^[0-9a-fA-F]{6}$', color) is not None


@contract('transitfeed.util.ColorLuminance', prop='C12', args='color: Str',
          requires='util.IsValidHexColor(color)', modular='spec',
          pools={'color': ['000000', 'FFFFFF', 'ffFF00', '010203', 'F0E0D0']})
def color_luminance(color):
    red = int(color[0:2], 16)
    green = int(color[2:4], 16)
    blue = int(color[4:6], 16)
    return (299 * red + 587 * green + 114 * blue) / 1000.0


@contract('transitfeed.util.IsValidYesNoUnknown', prop='C17', args='value: Str')
def is_valid_yes_no_unknown(value):
    return value == '0' or value == '1' or value == '2'


@contract('transitfeed.util.ValidateYesNoUnknown', prop='C17',
          args='value: Opt[Str], column_name: Opt[Str], '
               'problems: Opt[Reporter]')
def validate_yes_no_unknown(value, column_name, problems):
    if is_empty(value) or value == '0' or value == '1' or value == '2':
        return True
    if problems:
        problems.InvalidValue(column_name, value)
    return False


@contract('transitfeed.util.FindUniqueId', prop='C21,C04',
          args='dic: Dict[Str,Int]', ensures=['result not in dic'],
          pools={'dic.key': ['0', '1', '2', '3', '4']})
def find_unique_id(dic):
    name = str(len(dic))
    while name in dic:
        name = str(random.randint(1000000, 999999999))
    return name


# ---------------------------------------------------------------- distance
@contract('transitfeed.util.ApproximateDistance', prop='C10,C06',
          args='degree_lat1: Float, degree_lng1: Float, degree_lat2: Float, '
               'degree_lng2: Float', modular='uf', ret='Float',
          noraise='the haversine term is a quarter of a squared chord, hence '
                  'not negative')
def approximate_distance(degree_lat1, degree_lng1, degree_lat2, degree_lng2):
    lat1 = math.radians(degree_lat1)
    lat2 = math.radians(degree_lat2)
    a = math.sin(0.5 * (lat2 - lat1))
    b = math.sin(0.5 * (math.radians(degree_lng2) - math.radians(degree_lng1)))
    h = a * a + b * b * math.cos(lat1) * math.cos(lat2)
    return 2 * 6378135 * math.atan2(math.sqrt(h),
                                    math.sqrt(max(0.0, 1.0 - h)))


def is_coord(v):
    return v is None or isinstance(v, float)


@contract('transitfeed.util.ApproximateDistanceBetweenStops', prop='C10,C06',
          args='stop1: Stop, stop2: Stop',
          requires=['is_coord(stop1.stop_lat)', 'is_coord(stop1.stop_lon)',
                    'is_coord(stop2.stop_lat)', 'is_coord(stop2.stop_lon)'],
          pools={'Stop.stop_lat': [0.0, 0.5, -0.5, 37.5, 90.0, None],
                 'Stop.stop_lon': [0.0, 0.5, -0.5, -122.25, 180.0, None]})
def approximate_distance_between_stops(stop1, stop2):
    for v in (stop1.stop_lat, stop1.stop_lon, stop2.stop_lat, stop2.stop_lon):
        if v is None:
            return None
    return util.ApproximateDistance(stop1.stop_lat, stop1.stop_lon,
                                    stop2.stop_lat, stop2.stop_lon)


# ---------------------------------------------------------------- tables
@contract('transitfeed.util.IsValidTimezone', prop='C17', args='timezone: Str',
          modular='uf', ret='Bool', bounded='random and listed zone names',
          pools={'timezone': ['America/Los_Angeles', 'Europe/Berlin', 'UTC',
                              'x/y', 'america/los_angeles', '', 'EST5']})
def is_valid_timezone(timezone):
    import pytz
    for name in pytz.common_timezones:
        if name == timezone:
            return True
    return False


@contract('transitfeed.util.ValidateTimezone', prop='C17',
          args='timezone: Opt[Str], column_name: Opt[Str], '
               'problems: Opt[Reporter]',
          pools={'timezone': ['America/Los_Angeles', 'x', '', ' ', None]})
def validate_timezone(timezone, column_name, problems):
    if is_empty(timezone) or util.IsValidTimezone(timezone):
        return True
    if problems:
        problems.InvalidValue(column_name, timezone)
    return False


@contract('transitfeed.util.IsValidLanguageCode', prop='C17',
          args='lang: Str',
          pools={'lang': ['en', 'EN', 'xx', 'eng', '', 'de', 'x']})
def is_valid_language_code(lang):
    return lang.lower() in util.ISO639.codes_2letter


@contract('transitfeed.util.ValidateLanguageCode', prop='C17',
          args='lang: Opt[Str], column_name: Opt[Str], '
               'problems: Opt[Reporter]',
          pools={'lang': ['en', 'EN', 'xx', 'eng', '', ' ', None]})
def validate_language_code(lang, column_name, problems):
    if is_empty(lang) or util.IsValidLanguageCode(lang):
        return True
    if problems:
        problems.InvalidValue(column_name, lang)
    return False


# ------------------------------------------------- attributes by name
@contract('transitfeed.gtfsobjectbase.GtfsObjectBase.__getitem__',
          prop='C19', args='self: Stop, name: Str')
def stop_getitem(self, name):
    return as_text(self, name)


@contract('transitfeed.gtfsobjectbase.GtfsObjectBase.__getitem__',
          prop='C19', args='self: Route, name: Str')
def route_getitem(self, name):
    return as_text(self, name)


@contract('transitfeed.gtfsobjectbase.GtfsObjectBase.__getitem__',
          prop='C19', args='self: Agency, name: Str')
def agency_getitem(self, name):
    return as_text(self, name)


@contract('transitfeed.gtfsobjectbase.GtfsObjectBase.__getitem__',
          prop='C19', args='self: Transfer, name: Str')
def transfer_getitem(self, name):
    return as_text(self, name)


def as_text(obj, name):
    if name not in obj.__dict__:
        return ''
    v = obj.__dict__[name]
    if v is None:
        return ''
    return '%s' % v
