"""The factory of GTFS classes (transitfeed/gtfsfactory.py)."""
from speclib import contract, lemma, scenario, classdecl, implies
from transitfeed import problems

classdecl('GtfsFactory', 'transitfeed.gtfsfactory.GtfsFactory', fields={
    '_class_mapping': 'Dict[Str,Opq[Class]]',
    '_file_mapping': 'Dict[Str,Dict[Str,Union[None,Bool,Int,List[Str]]]]',
}, pools={
    '_class_mapping.key': ['Agency', 'Stop', 'Own'],
    '_file_mapping.key': ['agency.txt', 'stops.txt', 'own.txt'],
    '_file_mapping.value.key': ['required', 'loading_order', 'classes'],
})


@contract('transitfeed.gtfsfactory.GtfsFactory.IsFileRequired', prop='C24',
          args='self: GtfsFactory, filename: Str',
          pools={'filename': ['agency.txt', 'stops.txt', 'x.txt']})
def is_required(self, filename):
    if filename in self._file_mapping:
        return self._file_mapping[filename]['required']
    return False


@contract('transitfeed.gtfsfactory.GtfsFactory.GetKnownFilenames', prop='C24',
          args='self: GtfsFactory')
def known(self):
    return self._file_mapping.keys()


@contract('transitfeed.gtfsfactory.GtfsFactory.RemoveMapping', prop='C24',
          args='self: GtfsFactory, filename: Str',
          ensures='filename not in self._file_mapping',
          pools={'filename': ['agency.txt', 'stops.txt', 'x.txt']})
def remove_mapping(self, filename):
    self._file_mapping.pop(filename, None)


@contract('transitfeed.gtfsfactory.GtfsFactory.AddMapping', prop='C24',
          args='self: GtfsFactory, filename: Str, '
               'new_mapping: Dict[Str,Union[None,Bool,Int,List[Str]]]',
          pools={'filename': ['agency.txt', 'stops.txt', 'x.txt'],
                 'new_mapping.key': ['required', 'loading_order', 'classes']})
def add_mapping(self, filename, new_mapping):
    if 'classes' not in new_mapping or 'required' not in new_mapping or \
            'loading_order' not in new_mapping:
        raise problems.InvalidMapping('')
    if filename in self._file_mapping:
        raise problems.DuplicateMapping(filename)
    self._file_mapping[filename] = new_mapping


@contract('transitfeed.gtfsfactory.GtfsFactory.UpdateMapping', prop='C24',
          args='self: GtfsFactory, filename: Str, '
               'mapping_update: Dict[Str,Union[None,Bool,Int,List[Str]]]',
          pools={'filename': ['agency.txt', 'stops.txt', 'x.txt'],
                 'mapping_update.key': ['required', 'loading_order',
                                        'classes']})
def update_mapping(self, filename, mapping_update):
    if filename not in self._file_mapping:
        raise problems.NonexistentMapping(filename)
    mapping = self._file_mapping[filename]
    for field, value in mapping_update.items():
        mapping[field] = value


@contract('transitfeed.gtfsfactory.GtfsFactory.AddClass', prop='C24',
          args='self: GtfsFactory, class_name: Str, gtfs_class: Opq[Class]',
          ensures='self._class_mapping[class_name] == gtfs_class',
          pools={'class_name': ['Agency', 'Stop', 'X']})
def add_class(self, class_name, gtfs_class):
    if class_name in self._class_mapping:
        raise problems.DuplicateMapping(class_name)
    self._class_mapping[class_name] = gtfs_class


@contract('transitfeed.gtfsfactory.GtfsFactory.UpdateClass', prop='C24',
          args='self: GtfsFactory, class_name: Str, gtfs_class: Opq[Class]',
          ensures='self._class_mapping[class_name] == gtfs_class',
          pools={'class_name': ['Agency', 'Stop', 'X']})
def update_class(self, class_name, gtfs_class):
    if class_name not in self._class_mapping:
        raise problems.NonexistentMapping(class_name)
    self._class_mapping[class_name] = gtfs_class


@contract('transitfeed.gtfsfactory.GtfsFactory.RemoveClass', prop='C24',
          args='self: GtfsFactory, class_name: Str',
          ensures='class_name not in self._class_mapping',
          pools={'class_name': ['Agency', 'Stop', 'X']})
def remove_class(self, class_name):
    if class_name not in self._class_mapping:
        raise problems.NonexistentMapping(class_name)
    del self._class_mapping[class_name]


@contract('transitfeed.gtfsfactory.GtfsFactory.__getattr__', prop='C24',
          args='self: GtfsFactory, name: Str',
          pools={'name': ['Agency', 'Stop', 'X']})
def class_of(self, name):
    if name not in self._class_mapping:
        raise AttributeError(name)
    return self._class_mapping[name]


@contract('transitfeed.gtfsfactory.GtfsFactory.GetGtfsClassByFileName',
          prop='C24', args='self: GtfsFactory, filename: Str',
          requires=["filename not in self._file_mapping or "
                    "'classes' in self._file_mapping[filename]",
                    "filename not in self._file_mapping or "
                    "(isinstance(self._file_mapping[filename]['classes'], "
                    "list) and "
                    "len(self._file_mapping[filename]['classes']) > 0)"],
          pools={'filename': ['agency.txt', 'stops.txt', 'x.txt']})
def class_by_file(self, filename):
    if filename not in self._file_mapping:
        return None
    names = self._file_mapping[filename]['classes']
    if len(names) != 1:
        raise problems.NonStandardMapping(filename)
    return self._class_mapping[names[0]]


@contract('transitfeed.gtfsfactory.GtfsFactory.GetLoadingOrder', prop='C24',
          args='self: GtfsFactory',
          requires=["all('loading_order' in m and "
                    "(m['loading_order'] is None or "
                    "isinstance(m['loading_order'], int)) "
                    "for m in self._file_mapping.values())"])
def loading_order(self):
    by_order = {}
    for f, m in self._file_mapping.items():
        if m['loading_order'] is not None:
            by_order[m['loading_order']] = f
    return [by_order[k] for k in sorted(by_order)]


STANDARD = [
    ('agency.txt', True, ['Agency']),
    ('stops.txt', True, ['Stop']),
    ('routes.txt', True, ['Route']),
    ('trips.txt', True, ['Trip']),
    ('stop_times.txt', True, ['StopTime']),
    ('calendar.txt', False, ['ServicePeriod']),
    ('calendar_dates.txt', False, ['ServicePeriod']),
    ('fare_attributes.txt', False, ['FareAttribute']),
    ('fare_rules.txt', False, ['FareRule']),
    ('shapes.txt', False, ['Shape', 'ShapePoint']),
    ('frequencies.txt', False, ['Frequency']),
    ('transfers.txt', False, ['Transfer']),
    ('feed_info.txt', False, ['FeedInfo']),
]

# a table is loaded after those it refers to
BEFORE = [
    ('agency.txt', 'routes.txt'), ('routes.txt', 'trips.txt'),
    ('stops.txt', 'transfers.txt'), ('trips.txt', 'frequencies.txt'),
    ('fare_attributes.txt', 'fare_rules.txt'),
    ('routes.txt', 'fare_rules.txt'), ('stops.txt', 'fare_rules.txt'),
]


@scenario(prop='C24', cases=3)
def standard_factory(rng):
    """The factory as it is made: complete, in an order that can be loaded,
    and not shared between two of its kind."""
    import transitfeed
    f = transitfeed.GetGtfsFactory()
    assert sorted(f.GetKnownFilenames()) == sorted(s[0] for s in STANDARD)
    order = f.GetLoadingOrder()
    own = ('calendar.txt', 'calendar_dates.txt', 'shapes.txt',
           'stop_times.txt')
    assert sorted(order) == sorted(s[0] for s in STANDARD
                                   if s[0] not in own), order
    for a, b in BEFORE:
        assert order.index(a) < order.index(b), (a, b, order)
    for name, required, classes in STANDARD:
        assert f.IsFileRequired(name) == required, name
        for c in classes:
            assert getattr(f, c) is getattr(transitfeed, c), c
        if len(classes) == 1:
            assert f.GetGtfsClassByFileName(name) is \
                getattr(transitfeed, classes[0]), name
        else:
            try:
                f.GetGtfsClassByFileName(name)
                assert False, name
            except transitfeed.problems.NonStandardMapping:
                pass
    assert f.Schedule is transitfeed.Schedule
    assert f.Loader is transitfeed.Loader
    f.RemoveClass('Stop')
    f.UpdateMapping('agency.txt', {'required': False})
    f.RemoveMapping('stops.txt')
    other = transitfeed.GetGtfsFactory()
    assert other.Stop is transitfeed.Stop
    assert other.IsFileRequired('agency.txt')
    assert other.IsFileRequired('stops.txt')
    s = transitfeed.Schedule(memory_db=True)
    assert s._gtfs_factory.Stop is transitfeed.Stop
    s = transitfeed.Schedule(memory_db=True, gtfs_factory=f)
    assert s._gtfs_factory is f
