"""Routes (transitfeed/route.py)."""
from speclib import contract, lemma, scenario, classdecl, implies
from transitfeed import util
from spec_util import is_empty, non_neg_int_string_to_int
from transitfeed import errors
WARN = errors.TYPE_WARNING


@contract('transitfeed.route.Route.ValidateRouteIdIsPresent', prop='C12',
          args='self: Route, problems: Reporter', modular='event',
          reads=['self.route_id'])
def route_id_present(self, problems):
    if is_empty(self.route_id):
        problems.MissingValue('route_id')


@contract('transitfeed.route.Route.ValidateRouteTypeIsPresent', prop='C12',
          args='self: Route, problems: Reporter', modular='event',
          reads=['self.route_type'])
def route_type_present(self, problems):
    if is_empty(self.route_type):
        problems.MissingValue('route_type')


@contract('transitfeed.route.Route.ValidateRouteShortAndLongNamesAreNotBlank',
          prop='C12', args='self: Route, problems: Reporter', modular='event',
          reads=['self.route_short_name', 'self.route_long_name'])
def route_names_not_blank(self, problems):
    if not is_empty(self.route_short_name):
        return
    if is_empty(self.route_long_name):
        problems.InvalidValue('route_short_name', self.route_short_name)


@contract('transitfeed.route.Route.ValidateRouteShortNameIsNotTooLong',
          prop='C12', args='self: Route, problems: Reporter', modular='event',
          reads=['self.route_short_name'],
          pools={'Route.route_short_name': [
              'abcdef', 'abcdefg', 'abcde', '', None, 'a', 'abcdefgh',
              '      ', '       ']})
def route_short_name_length(self, problems):
    if self.route_short_name is not None and len(self.route_short_name) > 6:
        problems.InvalidValue('route_short_name', self.route_short_name,
                              type=WARN)


@contract('transitfeed.route.Route'
          '.ValidateRouteLongNameDoesNotContainShortName',
          prop='C12', args='self: Route, problems: Reporter', modular='event',
          reads=['self.route_short_name', 'self.route_long_name'], cases=2000)
def route_long_contains_short(self, problems):
    if not self.route_short_name or not self.route_long_name:
        return
    s = self.route_short_name.strip().lower()
    l = self.route_long_name.strip().lower()
    if l.startswith(s + ' ') or l.startswith(s + '(') or \
            l.startswith(s + '-'):
        problems.InvalidValue('route_long_name', self.route_long_name,
                              type=WARN)


@contract('transitfeed.route.Route.ValidateRouteShortAndLongNamesAreNotEqual',
          prop='C12', args='self: Route, problems: Reporter', modular='event',
          reads=['self.route_short_name', 'self.route_long_name'], cases=1000)
def route_names_not_equal(self, problems):
    if not self.route_short_name or not self.route_long_name:
        return
    if self.route_short_name.strip().lower() == \
            self.route_long_name.strip().lower():
        problems.InvalidValue('route_long_name', self.route_long_name,
                              type=WARN)


@contract('transitfeed.route.Route'
          '.ValidateRouteDescriptionNotTheSameAsRouteName',
          prop='C12', args='self: Route, problems: Reporter', modular='event',
          reads=['self.route_short_name', 'self.route_long_name',
                 'self.route_desc'], cases=1000)
def route_desc_not_name(self, problems):
    d = self.route_desc
    if not d:
        return
    if d == self.route_short_name or d == self.route_long_name:
        problems.InvalidValue('route_desc', d)


@contract('transitfeed.route.Route.ValidateRouteTypeHasValidValue',
          prop='C12', args='self: Route, problems: Reporter', modular='event',
          writes=['self.route_type'])
def route_type_valid(self, problems):
    if self.route_type is None:
        return
    if isinstance(self.route_type, basestring):
        try:
            self.route_type = non_neg_int_string_to_int(self.route_type,
                                                        problems)
        except ValueError:
            problems.InvalidValue('route_type', self.route_type)
            return
    if self.route_type < 0 or self.route_type > 7:
        problems.InvalidValue('route_type', self.route_type, type=WARN)


@contract('transitfeed.route.Route.ValidateRouteUrl',
          prop='C12', args='self: Route, problems: Reporter', modular='event',
          reads=['self.route_url'])
def route_url(self, problems):
    v = self.route_url
    if is_empty(v) or v.startswith('http://') or v.startswith('https://'):
        return
    problems.InvalidValue('route_url', v)


@contract('transitfeed.route.Route.ValidateRouteColor',
          prop='C12', args='self: Route, problems: Reporter', modular='event',
          writes=['self.route_color'],
          ensures='not self.route_color or '
                  'util.IsValidHexColor(self.route_color)')
def route_color(self, problems):
    if not self.route_color or util.IsValidHexColor(self.route_color):
        return
    problems.InvalidValue('route_color', self.route_color)
    self.route_color = None


@contract('transitfeed.route.Route.ValidateRouteTextColor',
          prop='C12', args='self: Route, problems: Reporter', modular='event',
          writes=['self.route_text_color'],
          ensures='not self.route_text_color or '
                  'util.IsValidHexColor(self.route_text_color)')
def route_text_color(self, problems):
    if not self.route_text_color or \
            util.IsValidHexColor(self.route_text_color):
        return
    problems.InvalidValue('route_text_color', self.route_text_color)
    self.route_text_color = None


@contract('transitfeed.route.Route.ValidateRouteAndTextColors',
          prop='C12', args='self: Route, problems: Reporter', cases=2000,
          requires=['not self.route_color or '
                    'util.IsValidHexColor(self.route_color)',
                    'not self.route_text_color or '
                    'util.IsValidHexColor(self.route_text_color)'],
          modular='event', reads=['self.route_color',
                                  'self.route_text_color'],
          noraise='a valid colour has six hexadecimal digits')
def route_contrast(self, problems):
    bg = self.route_color or 'ffffff'
    fg = self.route_text_color or '000000'
    if abs(util.ColorLuminance(bg) - util.ColorLuminance(fg)) * 7 < 510:
        problems.InvalidValue('route_color', self.route_color, type=WARN)


@contract('transitfeed.route.Route.ValidateBikesAllowed',
          prop='C12', args='self: Route, problems: Reporter', modular='event',
          reads=['self.bikes_allowed'])
def route_bikes(self, problems):
    v = self.bikes_allowed
    if is_empty(v) or v == '0' or v == '1' or v == '2':
        return
    problems.InvalidValue('bikes_allowed', v)


@contract('transitfeed.route.Route.ValidateBeforeAdd',
          prop='C12', args='self: Route, problems: Reporter', cases=1500)
def route_validate_before_add(self, problems):
    route_id_present(self, problems)
    route_type_present(self, problems)
    route_names_not_blank(self, problems)
    route_short_name_length(self, problems)
    route_long_contains_short(self, problems)
    route_names_not_equal(self, problems)
    route_desc_not_name(self, problems)
    route_type_valid(self, problems)
    route_url(self, problems)
    route_color(self, problems)
    route_text_color(self, problems)
    route_contrast(self, problems)
    route_bikes(self, problems)
    return True


@contract('transitfeed.route.Route.Validate',
          prop='C12', args='self: Route, problems: Reporter',
          modular='event',
          reads=['self.route_id', 'self.route_short_name',
                 'self.route_long_name', 'self.route_desc', 'self.route_url',
                 'self.bikes_allowed'],
          writes=['self.route_type', 'self.route_color',
                  'self.route_text_color'])
def route_validate(self, problems):
    route_validate_before_add(self, problems)




TYPE_NAMES = {'Tram': 0, 'Subway': 1, 'Rail': 2, 'Bus': 3, 'Ferry': 4,
              'Cable Car': 5, 'Gondola': 6, 'Funicular': 7}


@contract('transitfeed.route.Route.__init__', prop='C12',
          args='self: New[Route], short_name: Opt[Str], long_name: Opt[Str], '
               'route_type: Union[None,Int,Str], route_id: Opt[Str], '
               'agency_id: Opt[Str], field_dict: Opt[Dict[Str,Str]]',
          pools={'field_dict.key': ['route_id', 'route_type', 'agency_id',
                                    'route_color'],
                 'route_type': ['Tram', 'Bus', 'Funicular', 'Cable Car', 'x',
                                '3', 3, 0, 8, None]})
def route_init(self, short_name, long_name, route_type, route_id, agency_id,
               field_dict):
    self._schedule = None
    self._trips = []
    if field_dict:
        self.__dict__.update(field_dict)
        return
    if short_name is not None:
        self.route_short_name = short_name
    if long_name is not None:
        self.route_long_name = long_name
    if route_type is not None:
        if route_type in TYPE_NAMES:
            self.route_type = TYPE_NAMES[route_type]
        else:
            self.route_type = route_type
    if route_id is not None:
        self.route_id = route_id
    if agency_id is not None:
        self.agency_id = agency_id


@contract('transitfeed.route.Route._AddTripObject', prop='C12,C04',
          args='self: Route, trip: Trip')
def route_add_trip_object(self, trip):
    self._trips.append(trip)
