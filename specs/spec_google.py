"""The Google transit extension (extensions/googletransit)."""
from speclib import contract, lemma, scenario, classdecl, implies
from transitfeed import util
from extensions.googletransit import extension_util
from spec_util import is_empty
from spec_stop import (validate_lat, validate_lon, validate_stop_url,
                       validate_stop_timezone, validate_wheelchair,
                       validate_origin, validate_desc,
                       validate_station_parent)
from spec_route import route_validate_before_add
from transitfeed import errors
WARN = errors.TYPE_WARNING

classdecl('GoogleStop', 'extensions.googletransit.stop.Stop', base='Stop',
          fields={
              'vehicle_type': 'Union[Absent,None,Int,Str]',
              'platform_code': 'Union[Absent,None,Str]',
              '_gtfs_factory': 'Factory',
          }, pools={
              'vehicle_type': [0, 1, 7, 8, 13, -1, '', ' ', None, '3', '8',
                               'x', 100],
          })

classdecl('GoogleRoute', 'extensions.googletransit.route.Route', base='Route',
          fields={
              'co2_per_km': 'Union[Absent,None,Float,Str]',
          }, pools={
              'co2_per_km': [0.5, '', ' ', None, '1.5', 'x', '-2', '3'],
          })

classdecl('GoogleFare', 'extensions.googletransit.fareattribute.FareAttribute',
          base='FareAttribute', fields={
              'agency_id': 'Union[Absent,None,Str]',
          }, eq='call', pools={'agency_id': ['A1', 'A2', 'A3', '', None]})

classdecl('GoogleAgency', 'extensions.googletransit.agency.Agency',
          base='Agency')


@contract('extensions.googletransit.stop.Stop.ValidateStopLocationType',
          prop='C32', modular='event', reads=['self.parent_station'],
          writes=['self.location_type'], inline=['transitfeed.util.ValidateAndReturnIntValue'],
          args='self: GoogleStop, problems: Reporter')
def google_location_type(self, problems):
    v = self.location_type
    self.location_type = 0
    if not is_empty(v):
        try:
            self.location_type = int(v)
            if self.location_type < 0 or self.location_type > 2:
                problems.InvalidValue('location_type', v, type=WARN)
        except ValueError:
            problems.InvalidValue('location_type', v)
    if self.location_type == 2 and is_empty(self.parent_station):
        problems.InvalidValue('location_type', self.location_type)


@contract('extensions.googletransit.stop.Stop.ValidateVehicleType',
          prop='C32', modular='event',
          reads=['self._gtfs_factory', 'self.location_type',
                 'self.parent_station'],
          writes=['self.vehicle_type'], inline=['transitfeed.util.ValidateAndReturnIntValue'],
          args='self: GoogleStop, problems: Reporter')
def google_vehicle_type(self, problems):
    v = self.vehicle_type
    if is_empty(v):
        self.vehicle_type = None
        return
    try:
        n = int(v)
    except ValueError:
        problems.InvalidValue('vehicle_type', v)
        self.vehicle_type = None
        return
    if n < 0 or n > 7:
        problems.InvalidValue('vehicle_type', v, type=WARN)
    self.vehicle_type = n
    if n == 0:
        return
    if self.location_type == 2:
        problems.InvalidValue('vehicle_type', self.location_type)
    elif not is_empty(self.parent_station):
        problems.InvalidValue('vehicle_type', self.location_type, type=WARN)


@contract('transitfeed.stop.Stop.ValidateStopRequiredFields', prop='C32',
          args='self: GoogleStop, problems: Reporter', modular='event',
          reads=['self.parent_station'],
          writes=['self.stop_id', 'self.stop_name', 'self.stop_lat',
                  'self.stop_lon', 'self.location_type'])
def google_required(self, problems):
    if is_empty(self.stop_id):
        problems.MissingValue('stop_id')
        self.stop_id = None
    if is_empty(self.stop_name):
        google_location_type(self, problems)
        if self.location_type != 2:
            problems.MissingValue('stop_name')
            self.stop_name = None
    if is_empty(self.stop_lat):
        problems.MissingValue('stop_lat')
        self.stop_lat = None
    if is_empty(self.stop_lon):
        problems.MissingValue('stop_lon')
        self.stop_lon = None


@contract('transitfeed.stop.Stop.ValidateStopLatitude', prop='C32',
          args='self: GoogleStop, problems: Reporter', modular='event',
          reads=['self.stop_lat'],
          writes=['self.stop_lat'],
          ensures='not isinstance(self.stop_lat, basestring)')
def google_lat(self, problems):
    validate_lat(self, problems)


@contract('transitfeed.stop.Stop.ValidateStopLongitude', prop='C32',
          args='self: GoogleStop, problems: Reporter', modular='event',
          reads=['self.stop_lon'],
          writes=['self.stop_lon'],
          ensures='not isinstance(self.stop_lon, basestring)')
def google_lon(self, problems):
    validate_lon(self, problems)


@contract('transitfeed.stop.Stop.ValidateStopUrl', prop='C32',
          args='self: GoogleStop, problems: Reporter', modular='event',
          writes=['self.stop_url'])
def google_stop_url(self, problems):
    validate_stop_url(self, problems)


@contract('transitfeed.stop.Stop.ValidateStopTimezone', prop='C32',
          args='self: GoogleStop, problems: Reporter', modular='event',
          reads=['self.stop_timezone', 'self.parent_station'])
def google_stop_timezone(self, problems):
    validate_stop_timezone(self, problems)


@contract('transitfeed.stop.Stop.ValidateWheelchairBoarding', prop='C32',
          args='self: GoogleStop, problems: Reporter', modular='event',
          reads=['self.wheelchair_boarding'])
def google_wheelchair(self, problems):
    validate_wheelchair(self, problems)


@contract('transitfeed.stop.Stop.ValidateStopNotTooCloseToOrigin', prop='C32',
          args='self: GoogleStop, problems: Reporter', modular='event',
          reads=['self.stop_lat', 'self.stop_lon'],
          requires=['not isinstance(self.stop_lat, basestring)',
                    'not isinstance(self.stop_lon, basestring)'])
def google_origin(self, problems):
    validate_origin(self, problems)


@contract('transitfeed.stop.Stop.ValidateStopDescriptionAndNameAreDifferent', prop='C32',
          args='self: GoogleStop, problems: Reporter', modular='event',
          reads=['self.stop_name', 'self.stop_desc'])
def google_desc(self, problems):
    validate_desc(self, problems)


@contract('transitfeed.stop.Stop.ValidateStopIsNotStationWithParent', prop='C32',
          args='self: GoogleStop, problems: Reporter', modular='event',
          reads=['self.location_type', 'self.parent_station'])
def google_station_parent(self, problems):
    validate_station_parent(self, problems)


@contract('extensions.googletransit.stop.Stop.ValidateBeforeAdd', prop='C32',
          args='self: GoogleStop, problems: Reporter', cases=2000)
def google_stop_before_add(self, problems):
    google_required(self, problems)
    google_lat(self, problems)
    google_lon(self, problems)
    google_stop_url(self, problems)
    google_location_type(self, problems)
    google_stop_timezone(self, problems)
    google_wheelchair(self, problems)
    google_origin(self, problems)
    google_desc(self, problems)
    google_station_parent(self, problems)
    google_vehicle_type(self, problems)
    return True


@contract('extensions.googletransit.route.Route.ValidateCo2PerKm',
          prop='C32', args='self: GoogleRoute, problems: Reporter')
def google_co2(self, problems):
    if is_empty(self.co2_per_km):
        return
    try:
        self.co2_per_km = float(self.co2_per_km)
    except ValueError:
        problems.InvalidValue('co2_per_km', self.co2_per_km)


@contract('extensions.googletransit.fareattribute.FareAttribute'
          '.ValidateAgencyId',
          prop='C32', args='self: GoogleFare, problems: Reporter',
          requires=['self._schedule is not None'], cases=1500)
def google_fare_agency(self, problems):
    agencies = self._schedule._agencies.values()
    for a in agencies:
        if a.agency_id == self.agency_id:
            return
    if len(agencies) <= 1 and self.agency_id is None:
        return
    problems.InvalidAgencyID('agency_id', self.agency_id, 'fare',
                             self.fare_id)


@contract('extensions.googletransit.fareattribute.FareAttribute'
          '.ValidateAfterAdd', prop='C32',
          args='self: GoogleFare, problems: Reporter',
          requires=['self._schedule is not None'], cases=500)
def google_fare_after_add(self, problems):
    google_fare_agency(self, problems)


@contract('extensions.googletransit.extension_util.ValidateLanguageCode',
          prop='C32', args='lang: Opt[Str], column_name: Opt[Str], '
                           'problems: Opt[Reporter]',
          bounded='a fixed list of language codes', cases=300,
          modular='event', ret='Bool', reads=[],
          pools={'lang': ['', ' ', None, 'en', 'EN', 'en-US', 'en-gb',
                          'de-DE', 'zh-Hant-TW', 'xx', 'en-XX', 'qq', 'e',
                          'english-language-x', 'en_US', '123', 'sl-rozaj',
                          'i-klingon', 'de-1901-1901', 'x-private', 'en--us',
                          'fr-FR-'],
                 'column_name': ['agency_lang', 'feed_lang']})
def google_language(lang, column_name, problems):
    if is_empty(lang):
        return True
    code = extension_util.parser.ParseLanguage(str(lang.lower()))
    if not code.wellformed:
        if problems:
            problems.InvalidValue(column_name, lang)
        return False
    if not code.valid:
        if problems:
            problems.InvalidValue(column_name, lang, type=WARN)
        return False
    return True


@contract('extensions.googletransit.agency.Agency.ValidateAgencyLang',
          prop='C32', args='self: GoogleAgency, problems: Reporter')
def google_agency_lang(self, problems):
    if not self.agency_lang:
        return False
    return not google_language(self.agency_lang, 'agency_lang', problems)
