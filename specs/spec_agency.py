"""Agencies and feed info (agency.py, feedinfo.py)."""
from speclib import contract, lemma, scenario, classdecl, implies
from transitfeed import util
from transitfeed import errors
from spec_util import (is_empty, validate_url, validate_email,
                       validate_timezone, validate_language_code,
                       validate_date)


def missing(obj, name, problems):
    if is_empty(getattr(obj, name, None)):
        problems.MissingValue(name)
        return True
    return False


@contract('transitfeed.agency.Agency.ValidateAgencyUrl', prop='C23',
          args='self: Agency, problems: Reporter', modular='event',
          ret='Bool', reads=['self.agency_url'])
def agency_url(self, problems):
    return not validate_url(self.agency_url, 'agency_url', problems)


@contract('transitfeed.agency.Agency.ValidateAgencyLang', prop='C23',
          args='self: Agency, problems: Reporter', modular='event',
          ret='Bool', reads=['self.agency_lang'])
def agency_lang(self, problems):
    return not validate_language_code(self.agency_lang, 'agency_lang',
                                      problems)


@contract('transitfeed.agency.Agency.ValidateAgencyTimezone', prop='C23',
          args='self: Agency, problems: Reporter', modular='event',
          ret='Bool', reads=['self.agency_timezone'])
def agency_timezone(self, problems):
    return not validate_timezone(self.agency_timezone, 'agency_timezone',
                                 problems)


@contract('transitfeed.agency.Agency.ValidateAgencyFareUrl', prop='C23',
          args='self: Agency, problems: Reporter', modular='event',
          ret='Bool', reads=['self.agency_fare_url'])
def agency_fare_url(self, problems):
    return not validate_url(self.agency_fare_url, 'agency_fare_url', problems)


@contract('transitfeed.agency.Agency.ValidateAgencyEmail', prop='C23',
          args='self: Agency, problems: Reporter', modular='event',
          ret='Bool', reads=['self.agency_email'])
def agency_email(self, problems):
    return not validate_email(self.agency_email, 'agency_email', problems)


@contract('transitfeed.agency.Agency.Validate', prop='C23',
          args='self: Agency, problems: Reporter', cases=800)
def agency_validate(self, problems):
    bad = False
    for name in ('agency_name', 'agency_url', 'agency_timezone'):
        bad = missing(self, name, problems) or bad
    for check in (agency_url, agency_lang, agency_timezone, agency_fare_url,
                  agency_email):
        bad = check(self, problems) or bad
    return not bad


@contract('transitfeed.agency.Agency.ValidateAfterAdd', prop='C23',
          args='self: Agency, problems: Reporter')
def agency_after_add(self, problems):
    agency_validate(self, problems)


@contract('transitfeed.agency.Agency.ValidateBeforeAdd', prop='C23',
          args='self: Agency, problems: Reporter')
def agency_before_add(self, problems):
    return True


@contract('transitfeed.agency.Agency.__init__', prop='C23',
          args='self: New[Agency], name: Opt[Str], url: Opt[Str], '
               'timezone: Opt[Str], id: Opt[Str], email: Opt[Str], '
               'field_dict: Opt[Dict[Str,Str]], lang: Opt[Str]',
          pools={'field_dict.key': ['agency_id', 'agency_name', 'agency_url',
                                    'agency_email']})
def agency_init(self, name, url, timezone, id, email, field_dict, lang):
    self._schedule = None
    if field_dict:
        self.__dict__.update(field_dict)
        return
    if name:
        self.agency_name = name
    if url:
        self.agency_url = url
    if timezone:
        self.agency_timezone = timezone
    if id:
        self.agency_id = id
    if lang:
        self.agency_lang = lang
    if email:
        self.agency_email = email


# ---------------------------------------------------------------- feed info
@contract('transitfeed.feedinfo.FeedInfo.ValidateFeedInfoLang', prop='C23',
          args='self: FeedInfo, problems: Reporter', modular='event',
          ret='Bool', reads=['self.feed_lang'])
def feed_lang(self, problems):
    return not validate_language_code(self.feed_lang, 'feed_lang', problems)


@contract('transitfeed.feedinfo.FeedInfo.ValidateFeedInfoPublisherUrl',
          prop='C23', args='self: FeedInfo, problems: Reporter',
          modular='event', ret='Bool', reads=['self.feed_publisher_url'])
def feed_url(self, problems):
    return not validate_url(self.feed_publisher_url, 'feed_publisher_url',
                            problems)


@contract('transitfeed.feedinfo.FeedInfo.ValidateDates', prop='C23',
          args='self: FeedInfo, problems: Reporter', modular='event',
          reads=['self.feed_start_date', 'self.feed_end_date'])
def feed_dates(self, problems):
    a = validate_date(self.feed_start_date, 'feed_start_date', problems)
    b = validate_date(self.feed_end_date, 'feed_end_date', problems)
    if is_empty(self.feed_start_date) or is_empty(self.feed_end_date):
        return          # one date alone is fine
    if a and b and self.feed_end_date < self.feed_start_date:
        problems.InvalidValue('feed_end_date', self.feed_end_date)


@contract('transitfeed.feedinfo.FeedInfo.ValidateBeforeAdd', prop='C23',
          args='self: FeedInfo, problems: Reporter', cases=800)
def feed_before_add(self, problems):
    for name in ('feed_publisher_name', 'feed_publisher_url', 'feed_lang'):
        missing(self, name, problems)
    feed_lang(self, problems)
    feed_url(self, problems)
    feed_dates(self, problems)
    return True


@contract('transitfeed.feedinfo.FeedInfo.__init__', prop='C23',
          args='self: New[FeedInfo], field_dict: Opt[Dict[Str,Str]]',
          pools={'field_dict.key': ['feed_lang', 'feed_start_date',
                                    'feed_version']})
def feed_init(self, field_dict):
    self._schedule = None
    if field_dict:
        self.__dict__.update(field_dict)
