"""Service calendar semantics (transitfeed/serviceperiod.py)."""
import datetime
from speclib import contract, lemma, scenario, classdecl, implies
from transitfeed import util
from spec_util import is_empty

classdecl('ServicePeriod', 'transitfeed.serviceperiod.ServicePeriod', fields={
    'service_id': 'Opt[Str]',
    'start_date': 'Opt[Str]',
    'end_date': 'Opt[Str]',
    'day_of_week': 'List[Bool]',
    'original_day_values': 'List[Str]',
    'date_exceptions': 'Dict[Str,Tuple[Int,Opt[Opq[Ctx]]]]',
    '_migrated_entity': 'Union[Absent,ServicePeriod]',
}, eq='call', pools={
    'len(day_of_week)': [7],
    'start_date': ['20090101', '20090103', '20090110', '20081230', '', None],
    'end_date': ['20090110', '20090103', '20090215', '20081231', '', None],
    'date_exceptions.key': ['20090101', '20090105', '20090110', '20090120',
                            '20081225'],
    'date_exceptions.value.0': [1, 2],
})

ADD = 1
REMOVE = 2


@contract('transitfeed.serviceperiod.ServicePeriod.GetDateRange', prop='C02',
          args='self: ServicePeriod', modular='uf',
          ret='Tuple[Opt[Str],Opt[Str]]',
          ensures='(result[0] is None) == (result[1] is None)',
          reads=['ServicePeriod.start_date', 'ServicePeriod.end_date',
                 'ServicePeriod.date_exceptions'])
def get_date_range(self):
    lo, hi = self.start_date, self.end_date
    for date, exc in self.date_exceptions.items():
        if exc[0] != REMOVE:
            if not lo or date < lo:
                lo = date
            if not hi or date > hi:
                hi = date
    if lo is None:
        return (hi, hi)
    if hi is None:
        return (lo, lo)
    return (lo, hi)


@contract('transitfeed.serviceperiod.ServicePeriod.IsActiveOn', prop='C02',
          args='self: ServicePeriod, date: Str, date_object: Opt[Date]',
          requires=['len(self.day_of_week) == 7',
                    'util.DateStringToDateObject(date) is not None',
                    'date_object is None or '
                    'util.DateStringToDateObject(date) == date_object'],
          pools={'date': ['20090101', '20090105', '20090110', '20090120',
                          '20081225', '20090104', '20090103', '20090115'],
                 'date_object': [733408]})
def is_active_on(self, date, date_object):
    if date in self.date_exceptions:
        return self.date_exceptions[date][0] == ADD
    if not self.start_date or not self.end_date:
        return False
    if date < self.start_date or self.end_date < date:
        return False
    return self.day_of_week[util.DateStringToDateObject(date).weekday()]


# ------------------------------------------------------------------ setters
@contract('transitfeed.serviceperiod.ServicePeriod.SetDateHasService',
          prop='C02', args='self: ServicePeriod, date: Str, '
          'has_service: Bool, problems: Opt[Reporter]')
def set_date_has_service(self, date, has_service, problems):
    if problems and date in self.date_exceptions:
        problems.DuplicateID(('service_id', 'date'), (self.service_id, date),
                             type=1)
    ctx = None
    if problems is not None:
        ctx = problems.GetFileContext()
    if has_service:
        self.date_exceptions[date] = (ADD, ctx)
    else:
        self.date_exceptions[date] = (REMOVE, ctx)


@contract('transitfeed.serviceperiod.ServicePeriod.ResetDateToNormalService',
          prop='C02', args='self: ServicePeriod, date: Str')
def reset_date(self, date):
    if date in self.date_exceptions:
        del self.date_exceptions[date]


@contract('transitfeed.serviceperiod.ServicePeriod.SetDayOfWeekHasService',
          prop='C02', args='self: ServicePeriod, dow: Int, has_service: Bool',
          requires=['len(self.day_of_week) == 7', '0 <= dow and dow < 7'],
          pools={'dow': [0, 1, 2, 3, 4, 5, 6]})
def set_day_of_week(self, dow, has_service):
    self.day_of_week[dow] = has_service


@contract('transitfeed.serviceperiod.ServicePeriod.SetWeekdayService',
          prop='C02', args='self: ServicePeriod, has_service: Bool',
          requires='len(self.day_of_week) == 7')
def set_weekday_service(self, has_service):
    self.day_of_week[0] = has_service
    self.day_of_week[1] = has_service
    self.day_of_week[2] = has_service
    self.day_of_week[3] = has_service
    self.day_of_week[4] = has_service


@contract('transitfeed.serviceperiod.ServicePeriod.SetWeekendService',
          prop='C02', args='self: ServicePeriod, has_service: Bool',
          requires='len(self.day_of_week) == 7')
def set_weekend_service(self, has_service):
    self.day_of_week[5] = has_service
    self.day_of_week[6] = has_service


@contract('transitfeed.serviceperiod.ServicePeriod.HasDateExceptionOn',
          prop='C02', args='self: ServicePeriod, date: Str, '
          'exception_type: Int')
def has_date_exception_on(self, date, exception_type):
    return date in self.date_exceptions and \
        self.date_exceptions[date][0] == exception_type


@contract('transitfeed.serviceperiod.ServicePeriod.HasDateExceptionTypeAdded',
          prop='C02', args='self: ServicePeriod')
def has_date_exception_type_added(self):
    for exc in self.date_exceptions.values():
        if exc[0] == ADD:
            return True
    return False


@contract('transitfeed.serviceperiod.ServicePeriod.HasExceptions',
          prop='C02', args='self: ServicePeriod')
def has_exceptions(self):
    return len(self.date_exceptions) > 0


@contract('transitfeed.serviceperiod.ServicePeriod.ActiveDates', prop='C02',
          args='self: ServicePeriod', modular='uf', ret='List[Str]',
          reads=['ServicePeriod.start_date', 'ServicePeriod.end_date',
                 'ServicePeriod.date_exceptions',
                 'ServicePeriod.day_of_week'],
          requires=['len(self.day_of_week) == 7',
                    'self.GetDateRange()[0] is None or '
                    'self.GetDateRange()[1] is None or '
                    '(util.DateStringToDateObject(self.GetDateRange()[0]) '
                    'is not None and '
                    'util.DateStringToDateObject(self.GetDateRange()[1]) '
                    'is not None)'])
def active_dates(self):
    lo, hi = self.GetDateRange()
    if lo is None:
        return []
    out = []
    d = util.DateStringToDateObject(lo)
    last = util.DateStringToDateObject(hi)
    while d <= last:
        s = d.strftime('%Y%m%d')
        if is_active_on(self, s, d):
            out.append(s)
        d = d + datetime.timedelta(days=1)
    return out


# ------------------------------------------------------------------ export
@contract('transitfeed.serviceperiod.ServicePeriod'
          '.GetCalendarFieldValuesTuple', prop='C03',
          args='self: ServicePeriod',
          requires='len(self.day_of_week) == 7')
def get_calendar_row(self):
    if not self.start_date or not self.end_date:
        return None
    row = [self.service_id, self.start_date, self.end_date]
    for runs in (self.day_of_week[0], self.day_of_week[1],
                 self.day_of_week[2], self.day_of_week[3],
                 self.day_of_week[4], self.day_of_week[5],
                 self.day_of_week[6]):
        row.append(1 if runs else 0)
    return row


@contract('transitfeed.serviceperiod.ServicePeriod'
          '.GenerateCalendarDatesFieldValuesTuples', prop='C03',
          args='self: ServicePeriod')
def generate_calendar_dates_rows(self):
    for date, exc in self.date_exceptions.items():
        yield (self.service_id, date, str(exc[0]))


@contract('transitfeed.serviceperiod.ServicePeriod'
          '.GetCalendarDatesFieldValuesTuples', prop='C03',
          args='self: ServicePeriod')
def get_calendar_dates_rows(self):
    rows = []
    for row in self.GenerateCalendarDatesFieldValuesTuples():
        rows.append(row)
    return sorted(rows)


# ------------------------------------------------------------------ reading
@contract('transitfeed.serviceperiod.ServicePeriod.__init__', prop='C03',
          args='self: New[ServicePeriod], id: Opt[Str], '
               'field_list: Opt[List[Opt[Str]]]',
          requires='field_list is None or len(field_list) == 10',
          pools={'len(field_list)': [10],
                 'field_list.item': ['0', '1', '', ' 1', '1 ', '2',
                                     '20090101', 'svc', None]})
def service_init(self, id, field_list):
    self.date_exceptions = {}
    self.original_day_values = []
    if not field_list:
        self.service_id = id
        self.day_of_week = [False, False, False, False, False, False, False]
        self.start_date = None
        self.end_date = None
        return
    self.service_id = field_list[0]
    self.start_date = field_list[1]
    self.end_date = field_list[2]
    self.day_of_week = []
    for k in (3, 4, 5, 6, 7, 8, 9):
        text = field_list[k] or ''
        self.day_of_week.append(text == '1')
        self.original_day_values.append(text.strip())


# ------------------------------------------------------------------ checks
@contract('transitfeed.serviceperiod.ServicePeriod.ValidateDate', prop='C03',
          args='self: ServicePeriod, date: Opt[Str], field_name: Str, '
               'problems: Reporter, context: Opt[Opq[Ctx]]',
          requires="date is None or not date.endswith('\\n')",
          modular='event', ret='Bool')
def service_validate_date(self, date, field_name, problems, context):
    if date is None:
        return False
    if is_empty(date):
        problems.MissingValue(field_name, date, context)
        return False
    d = util.DateStringToDateObject(date)
    if d is None:
        problems.InvalidValue(field_name, date)
        return False
    if d.year < 1900 or d.year > 2100:
        problems.DateOutsideValidRange(field_name, date, 1900, 2100)
        return False
    return True


@contract('transitfeed.serviceperiod.ServicePeriod'
          '.ValidateEndDateAfterStartDate', prop='C03',
          args='self: ServicePeriod, problems: Reporter',
          modular='event', 
          reads=['self.start_date', 'self.end_date'])
def validate_end_after_start(self, problems):
    if self.start_date and self.end_date and self.start_date > self.end_date:
        problems.InvalidValue('end_date', self.end_date)


@contract('transitfeed.serviceperiod.ServicePeriod.ValidateDaysOfWeek',
          prop='C03', args='self: ServicePeriod, problems: Reporter',
          modular='event', reads=['ServicePeriod.original_day_values'],
          requires='len(self.original_day_values) <= 7')
def validate_days_of_week(self, problems):
    days = ['monday', 'tuesday', 'wednesday', 'thursday', 'friday',
            'saturday', 'sunday']
    k = 0
    for v in self.original_day_values:
        if is_empty(v):
            problems.MissingValue(days[k])
        elif v != '0' and v != '1':
            problems.InvalidValue(days[k], v)
        k = k + 1


@contract('transitfeed.serviceperiod.ServicePeriod'
          '.ValidateHasServiceAtLeastOnceAWeek', prop='C03',
          args='self: ServicePeriod, problems: Reporter',
          modular='event',
          reads=['self.day_of_week', 'self.date_exceptions',
                 'self.service_id'])
def validate_has_service(self, problems):
    if True not in self.day_of_week and \
            not has_date_exception_type_added(self):
        problems.OtherProblem('no service', type=1)


@contract('transitfeed.serviceperiod.ServicePeriod.ValidateDates',
          prop='C03', args='self: ServicePeriod, problems: Reporter',
          modular='event', reads=['ServicePeriod.date_exceptions'],
          requires="all(not d.endswith('\\n') "
                   "for d in self.date_exceptions)")
def validate_dates(self, problems):
    for date, exc in self.date_exceptions.items():
        service_validate_date(self, date, 'date', problems, exc[1])


@contract('transitfeed.serviceperiod.ServicePeriod.Validate', prop='C03',
          args='self: ServicePeriod, problems: Reporter',
          requires=['len(self.original_day_values) <= 7',
                    "not (self.start_date or '').endswith('\\n')",
                    "not (self.end_date or '').endswith('\\n')",
                    "all(not d.endswith('\\n') "
                    "for d in self.date_exceptions)"])
def service_validate(self, problems):
    if is_empty(self.service_id):
        problems.MissingValue('service_id')
    if not service_validate_date(self, self.start_date, 'start_date',
                                 problems, None):
        self.start_date = None
    if not service_validate_date(self, self.end_date, 'end_date',
                                 problems, None):
        self.end_date = None
    validate_end_after_start(self, problems)
    self.ValidateDaysOfWeek(problems)
    self.ValidateHasServiceAtLeastOnceAWeek(problems)
    self.ValidateDates(problems)
