"""Fares (fareattribute.py, farerule.py)."""
from speclib import contract, lemma, scenario, classdecl, implies
from transitfeed import util
from transitfeed import errors
from spec_util import is_empty


@contract('transitfeed.fareattribute.FareAttribute.ValidateFareId',
          prop='C14', args='self: FareAttribute, problems: Reporter',
          modular='event', reads=['self.fare_id'])
def fare_id(self, problems):
    if is_empty(self.fare_id):
        problems.MissingValue('fare_id')


@contract('transitfeed.fareattribute.FareAttribute.ValidatePrice',
          prop='C14', args='self: FareAttribute, problems: Reporter',
          modular='event', reads=['self.price'])
def fare_price(self, problems):
    v = self.price
    if v is None:
        problems.MissingValue('price')
    elif isinstance(v, basestring) or v < 0:
        problems.InvalidValue('price', v)


@contract('transitfeed.fareattribute.FareAttribute.ValidateCurrencyType',
          prop='C14', args='self: FareAttribute, problems: Reporter',
          modular='event', reads=['self.currency_type'])
def fare_currency(self, problems):
    v = self.currency_type
    if is_empty(v):
        problems.MissingValue('currency_type')
    elif v not in util.ISO4217.codes:
        problems.InvalidValue('currency_type', v)


@contract('transitfeed.fareattribute.FareAttribute.ValidatePaymentMethod',
          prop='C14', args='self: FareAttribute, problems: Reporter',
          modular='event', reads=['self.payment_method'])
def fare_payment(self, problems):
    v = self.payment_method
    if v is None or v == '':
        problems.MissingValue('payment_method')
    elif isinstance(v, basestring) or (v != 0 and v != 1):
        problems.InvalidValue('payment_method', v)


@contract('transitfeed.fareattribute.FareAttribute.ValidateTransfers',
          prop='C14', args='self: FareAttribute, problems: Reporter',
          modular='event', reads=['self.transfers'])
def fare_transfers(self, problems):
    v = self.transfers
    if v is None:
        return
    if isinstance(v, basestring) or v < 0 or v > 2:
        problems.InvalidValue('transfers', v)


@contract('transitfeed.fareattribute.FareAttribute.ValidateTransferDuration',
          prop='C14', args='self: FareAttribute, problems: Reporter',
          modular='event', reads=['self.transfer_duration'])
def fare_duration(self, problems):
    v = self.transfer_duration
    if v is None:
        return
    if isinstance(v, basestring):
        problems.InvalidValue('transfer_duration', v)
    elif v < 0:
        problems.InvalidValue('transfer_duration', v)


@contract('transitfeed.fareattribute.FareAttribute.Validate', prop='C14',
          args='self: FareAttribute, problems: Reporter', cases=800)
def fare_validate(self, problems):
    fare_id(self, problems)
    fare_price(self, problems)
    fare_currency(self, problems)
    fare_payment(self, problems)
    fare_transfers(self, problems)
    fare_duration(self, problems)


def parse_int(v):
    """An integer when it reads as one, else the value itself."""
    try:
        return int(v)
    except (TypeError, ValueError):
        return v


def parse_fare(self):
    self.rules = []
    try:
        self.price = float(self.price)
    except (TypeError, ValueError):
        pass
    self.payment_method = parse_int(self.payment_method)
    if self.transfers == '':
        self.transfers = None
    self.transfers = parse_int(self.transfers)
    if self.transfer_duration == '':
        self.transfer_duration = None
    self.transfer_duration = parse_int(self.transfer_duration)


@contract('transitfeed.fareattribute.FareAttribute.__init__', prop='C14',
          args='self: New[FareAttribute], fare_id: Opt[Str], '
               'price: Union[None,Float,Str], currency_type: Opt[Str], '
               'payment_method: Union[None,Int,Str], '
               'transfers: Union[None,Int,Str], '
               'transfer_duration: Union[None,Int,Str], '
               'field_dict: Opt[Dict[Str,Str]]',
          pools={'field_dict.key': ['fare_id', 'price', 'transfers',
                                    'payment_method', 'transfer_duration'],
                 'field_dict.value': ['1', '0', '2.5', 'x', ''],
                 'price': ['1', '2.50', 'x', '', None, 1.5],
                 'payment_method': ['0', '1', 'x', '', None, 1],
                 'transfers': ['0', '2', 'x', '', None, 1],
                 'transfer_duration': ['0', '60', 'x', '', None, 60]})
def fare_init(self, fare_id, price, currency_type, payment_method, transfers,
              transfer_duration, field_dict):
    self._schedule = None
    self.fare_id = fare_id
    self.price = price
    self.currency_type = currency_type
    self.payment_method = payment_method
    self.transfers = transfers
    self.transfer_duration = transfer_duration
    if field_dict:
        self.__dict__.update(field_dict)
    parse_fare(self)


@contract('transitfeed.fareattribute.FareAttribute.GetFareRuleList',
          prop='C14', args='self: FareAttribute')
def fare_rule_list(self):
    return self.rules


@contract('transitfeed.fareattribute.FareAttribute.ClearFareRules',
          prop='C14', args='self: FareAttribute')
def fare_clear(self):
    self.rules = []


@contract('transitfeed.fareattribute.FareAttribute.GetFieldValuesTuple',
          prop='C14,C19', args='self: FareAttribute')
def fare_values(self):
    return [self.fare_id, self.price, self.currency_type,
            self.payment_method, self.transfers, self.transfer_duration]


@contract('transitfeed.farerule.FareRule.GetFieldValuesTuple',
          prop='C14,C19', args='self: FareRule')
def rule_values(self):
    return [self.fare_id, self.route_id, self.origin_id, self.destination_id,
            self.contains_id]


@contract('transitfeed.farerule.FareRule.__eq__', prop='C14',
          args='self: FareRule, other: Opt[FareRule]')
def rule_eq(self, other):
    if other is None:
        return False
    return (self.fare_id == other.fare_id and
            self.route_id == other.route_id and
            self.origin_id == other.origin_id and
            self.destination_id == other.destination_id and
            self.contains_id == other.contains_id)


@contract('transitfeed.farerule.FareRule.__ne__', prop='C14',
          args='self: FareRule, other: Opt[FareRule]')
def rule_ne(self, other):
    return not rule_eq(self, other)


@contract('transitfeed.fareattribute.FareAttribute.__eq__', prop='C14',
          args='self: FareAttribute, other: Opt[FareAttribute]',
          cases=1500,
          pools={'FareAttribute.fare_id': ['f1'],
                 'FareAttribute.price': [1.0, 2.0],
                 'FareAttribute.currency_type': ['USD'],
                 'FareAttribute.payment_method': [0],
                 'FareAttribute.transfers': [0, 1],
                 'FareAttribute.transfer_duration': [None],
                 'FareRule.fare_id': ['f1'],
                 'FareRule.route_id': ['R1', None],
                 'FareRule.origin_id': ['z1', None],
                 'FareRule.destination_id': [None],
                 'FareRule.contains_id': [None]})
def fare_eq(self, other):
    if other is None:
        return False
    if self is other:
        return True
    if fare_values(self) != fare_values(other):
        return False
    return (sorted([rule_values(r) for r in self.rules]) ==
            sorted([rule_values(r) for r in other.rules]))


@contract('transitfeed.farerule.FareRule.__init__', prop='C14',
          args='self: New[FareRule], fare_id: Opt[Str], route_id: Opt[Str], '
               'origin_id: Opt[Str], destination_id: Opt[Str], '
               'contains_id: Opt[Str], field_dict: Opt[Dict[Str,Str]]',
          pools={'field_dict.key': ['fare_id', 'route_id', 'origin_id',
                                    'destination_id', 'contains_id']})
def rule_init(self, fare_id, route_id, origin_id, destination_id,
              contains_id, field_dict):
    self._schedule = None
    self.fare_id = fare_id
    self.route_id = route_id
    self.origin_id = origin_id
    self.destination_id = destination_id
    self.contains_id = contains_id
    if field_dict:
        self.__dict__.update(field_dict)
    self.route_id = self.route_id or None
    self.origin_id = self.origin_id or None
    self.destination_id = self.destination_id or None
    self.contains_id = self.contains_id or None
