"""The converters upgrade_translations.py and visualize_pathways.py."""
from speclib import contract, lemma, scenario, classdecl, implies
import upgrade_translations
import visualize_pathways
import csv
import os
import shutil
import sys
import tempfile


class Quiet(object):
    def write(self, text):
        pass

    def flush(self):
        pass


def in_scratch(f):
    """f(a scratch directory), without its printing."""
    tmp = tempfile.mkdtemp()
    out = sys.stdout
    sys.stdout = Quiet()
    try:
        return f(tmp)
    finally:
        sys.stdout = out
        shutil.rmtree(tmp)


def cell(v):
    if '"' in v or ',' in v or '\n' in v:
        return '"' + v.replace('"', '""') + '"'
    return v


def write_table(path, columns, rows):
    with open(path, 'wb') as f:
        f.write(','.join(columns) + '\n')
        for r in rows:
            f.write(','.join(cell(r[c]) for c in columns) + '\n')


def read_table(path):
    with open(path, 'rb') as f:
        reader = csv.reader(f)
        header = next(reader)
        rows = []
        for r in reader:
            assert len(r) == len(header), (header, r)
            rows.append(dict(zip(header, r)))
        return header, rows


# ------------------------------------------------------------- translations
IDS = {'agency': ('agency_id', None), 'stops': ('stop_id', None),
       'routes': ('route_id', None), 'trips': ('trip_id', None),
       'stop_times': ('trip_id', 'stop_sequence'),
       'feed_info': (None, None), 'pathways': ('pathway_id', None),
       'own': ('own_id', None), 'levels': ('level_id', None)}
TABLES = {
    'agency': ['agency_id', 'agency_name', 'agency_url', 'agency_lang'],
    'stops': ['stop_id', 'stop_name', 'stop_desc', 'stop_lat'],
    'routes': ['route_id', 'route_short_name', 'route_type'],
    'trips': ['route_id', 'trip_id', 'trip_headsign', 'trip_short_name'],
    'stop_times': ['trip_id', 'stop_sequence', 'stop_id', 'stop_headsign'],
    'feed_info': ['feed_publisher_name', 'feed_publisher_url', 'feed_lang'],
    'pathways': ['pathway_id', 'signposted_as', 'reversed_signposted_as',
                 'instructions'],
    'own': ['own_abbreviation', 'own_id', 'other_id', 'own_text'],
    'shapes': ['shape_id', 'shape_pt_lat'],
    'levels': ['level_id', 'level_name', 'level_index'],
}
TRANSLATED = ['agency_name', 'agency_url', 'stop_name', 'stop_desc',
              'route_short_name', 'trip_headsign', 'trip_short_name',
              'stop_headsign', 'feed_publisher_name', 'feed_publisher_url',
              'signposted_as', 'reversed_signposted_as', 'instructions',
              'own_abbreviation', 'own_text', 'level_name']
WORDS = ['Palace', 'To Palace', 'a, b', 'say "x"', '\xc3\xbc', 'id1', '', '7',
         'w1', 'w2']
TEXTS = ['Palacio', 'Palais, le', 'P"q"', 'Schlo\xc3\x9f', 'Palace']


@scenario(prop='C30', cases=400)
def translations_upgraded(rng):
    """Random feeds of up to ten tables and translation tables of up to six
    ids in three languages."""
    lang = rng.choice(['en', 'es'])
    old = {}
    for t in rng.sample(WORDS, rng.choice([0, 1, 3, 6])):
        old[t] = {lang: rng.choice([t, t, 'Main', rng.choice(TEXTS)])}
        for l in ('en', 'es', 'fr'):
            if l != lang and rng.random() < 0.6:
                old[t][l] = rng.choice(TEXTS)
    tables = {}
    for name in TABLES:
        if name not in ('agency', 'feed_info') and rng.random() < 0.4:
            continue
        rows = []
        n = 1 if name in ('feed_info', 'agency') else rng.choice([0, 1, 3])
        for k in range(n):
            r = {}
            for c in TABLES[name]:
                r[c] = rng.choice(WORDS) if c in TRANSLATED else \
                    '%s%d' % (rng.choice(['id', 'w', '']), k)
            rows.append(r)
        tables[name] = rows
    from_agency = rng.random() < 0.4
    tables['agency'][0]['agency_lang'] = lang if from_agency else 'xx'
    if from_agency and rng.random() < 0.5:
        tables['feed_info'][0]['feed_lang'] = ''
    elif from_agency:
        del tables['feed_info']
    else:
        tables['feed_info'][0]['feed_lang'] = lang

    def run(tmp):
        src, dest = os.path.join(tmp, 'a'), os.path.join(tmp, 'b')
        os.mkdir(src)
        for name in tables:
            write_table(os.path.join(src, name + '.txt'), TABLES[name],
                        tables[name])
        write_table(os.path.join(src, 'translations.txt'),
                    ['trans_id', 'lang', 'translation'],
                    [dict(trans_id=t, lang=l, translation=old[t][l])
                     for t in old for l in old[t]])
        with open(os.path.join(src, 'notes.md'), 'wb') as f:
            f.write('x')
        upgrade_translations.TranslationsConverter(src) \
            .convert_translations(dest)
        got = {}
        for name in os.listdir(dest):
            got[name[:-4]] = read_table(os.path.join(dest, name))
        return got
    got = in_scratch(run)
    originals = [old[t][lang] for t in old]
    want = []
    for name in tables:
        by_value = set()
        expected = []
        for r in tables[name]:
            new = dict(r)
            for c in TABLES[name]:
                if c not in TRANSLATED or r[c] not in old:
                    continue
                ways = old[r[c]]
                new[c] = ways[lang]
                for l in ways:
                    if l == lang:
                        continue
                    if name in ('trips', 'stop_times') and \
                            originals.count(ways[lang]) == 1:
                        by_value.add((name, c, l, ways[l], '', '',
                                      ways[lang]))
                        continue
                    a, b = IDS[name]
                    want.append((name, c, l, ways[l], r[a] if a else '',
                                 r[b] if b else '', ''))
            expected.append(new)
        want += list(by_value)
        assert got[name][0] == TABLES[name], (name, got[name][0])
        assert got[name][1] == expected, (name, got[name][1], expected)
    assert sorted(got) == sorted(list(tables) + ['translations'])
    columns = ['table_name', 'field_name', 'language', 'translation',
               'record_id', 'record_sub_id', 'field_value']
    header, rows = got['translations']
    assert header == columns
    have = [tuple(r[c] for c in columns) for r in rows]
    assert sorted(have) == sorted(want), (sorted(have), sorted(want))


# ----------------------------------------------------------------- pathways
KINDS = ['platform', 'station', 'entrance', 'generic_node', 'boarding_area']
MODES = ['unknown', 'walkway', 'stairs', 'moving_sidewalk', 'escalator',
         'elevator', 'fare_gate', 'exit_gate']
COLORS = ['lightskyblue', 'lightyellow', 'lightcoral', 'lightgrey',
          'springgreen']
FORMS = ['box', 'polygon', 'doubleoctagon', 'hexagon', 'oval']


def shortened(s, n):
    u = s.decode('utf-8')
    if 0 < n < len(u):
        u = u[:n - 4] + u'..' + u[-2:]
    return u.encode('utf-8')


def label(r, n):
    if r['platform_code']:
        return r['stop_id'] + '\\nPlatform ' + r['platform_code']
    if r['signposted_as']:
        return r['stop_id'] + '\\n' + r['signposted_as']
    if r['stop_name']:
        return r['stop_id'] + '\\n' + shortened(r['stop_name'].strip(), n)
    return r['stop_id']


def quoted_id(s):
    plain = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
    if len(s) > 1 and s[0] in plain and \
            all(c in plain + '0123456789' for c in s):
        return s
    return '"%s"' % s.replace('"', '\\"')


@scenario(prop='C31', cases=500)
def pathways_drawn(rng):
    """Random stations of up to four platforms, boarding areas and pathways,
    drawn whole or by stop."""
    names = ['', 'Main', 'A very long name of a place indeed', 'say "hi"',
             '\xc3\xbcber ' * 6, 'exactly twenty chars', 'twenty-five characters ab']
    stops = []

    def add(i, kind, parent):
        stops.append(dict(
            stop_id=i, stop_name=rng.choice(names),
            location_type='' if kind == 0 and rng.random() < 0.5 else
            str(kind), parent_station=parent,
            platform_code=rng.choice(['', '', '4b']),
            signposted_as=rng.choice(['', '', 'To x'])))
        return i
    for s in range(rng.choice([1, 2])):
        station = add('ST%d' % s, 1, '')
        for k in range(rng.choice([0, 1, 2, 4])):
            kind = rng.choice([0, 0, 2, 3])
            i = add('%s-%d' % (station, k), kind, station)
            if kind == 0:
                for b in range(rng.choice([0, 0, 1, 2])):
                    add('%s %d' % (i, b), 4, i)
    if rng.random() < 0.3:
        add('alone', 0, '')
    kind = dict((r['stop_id'], int(r['location_type'] or 0)) for r in stops)
    parent = dict((r['stop_id'], r['parent_station']) for r in stops)
    row = dict((r['stop_id'], r) for r in stops)
    kids = dict((i, [j for j in parent if parent[j] == i]) for i in parent)
    ways = []
    ids = sorted(kind)
    for k in range(rng.choice([0, 1, 2, 5])):
        ways.append(dict(
            pathway_id='P%d' % k, from_stop_id=rng.choice(ids),
            to_stop_id=rng.choice(ids),
            pathway_mode=rng.choice(['', '1', '2', '3', '4', '5', '6', '7']),
            is_bidirectional=rng.choice(['', '0', '1']),
            signposted_as=rng.choice(['', 'Up', names[2]]),
            reversed_signposted_as=rng.choice(['', 'Down', names[2]])))
    rng.shuffle(stops)

    def top(i):
        while parent[i]:
            i = parent[i]
        return i
    wanted = None
    if rng.random() < 0.5:
        wanted = rng.sample(ids, min(len(ids), rng.choice([1, 1, 2])))

    def run(tmp):
        write_table(os.path.join(tmp, 'stops.txt'),
                    ['stop_id', 'stop_name', 'location_type',
                     'parent_station', 'platform_code', 'signposted_as'],
                    stops)
        write_table(os.path.join(tmp, 'pathways.txt'),
                    ['pathway_id', 'from_stop_id', 'to_stop_id',
                     'pathway_mode', 'is_bidirectional', 'signposted_as',
                     'reversed_signposted_as'], ways)
        reader = visualize_pathways.GtfsReader(tmp)
        g = visualize_pathways.gtfs_to_graphviz(
            reader, ','.join(wanted) if wanted else None)
        return g, str(g)
    g, text = in_scratch(run)
    if wanted:
        tops = set(top(i) for i in wanted)
    else:
        tops = set(top(w[e]) for w in ways
                   for e in ('from_stop_id', 'to_stop_id'))
    chosen = [i for i in ids if top(i) in tops]
    groups = [i for i in chosen
              if parent[i] and kind[i] == 0 and kids[i]]
    # stations
    assert sorted(g.clusters) == sorted(tops)
    assert not g.nodes
    seen = []

    def nodes_of(c, home):
        for n in c.nodes:
            seen.append(n.id)
            want = parent[n.id] if kind[n.id] == 4 else top(n.id)
            assert home == want, (n.id, home, want)
            assert n.label == label(row[n.id], 25), (n.label, row[n.id])
            assert n.color == COLORS[kind[n.id]]
            assert n.shape == FORMS[kind[n.id]]
            assert text.count('\n%s%s [ ' % (' ' * (4 if home in tops else 6),
                                             quoted_id(n.id))) == 1
    for i in tops:
        c = g.clusters[i]
        assert (c.id, c.label, c.color) == (
            i, label(row[i], -1), COLORS[kind[i]])
        nodes_of(c, i)
        assert sorted(c.clusters) == sorted(
            j for j in groups if parent[j] == i)
        for j in c.clusters:
            d = c.clusters[j]
            assert (d.id, d.label, d.color) == (
                j, label(row[j], 20), COLORS[kind[j]])
            nodes_of(d, j)
    assert sorted(seen) == sorted(
        i for i in chosen if parent[i] and i not in groups)
    have = [(e.source, e.destination, e.direction, e.label) for e in g.edges]
    want = []
    for w in ways:
        if top(w['from_stop_id']) in tops and top(w['to_stop_id']) in tops:
            l = MODES[int(w['pathway_mode'] or 0)]
            for c in ('signposted_as', 'reversed_signposted_as'):
                if w[c]:
                    l += '\\n' + shortened(w[c], 20)
            want.append((w['from_stop_id'], w['to_stop_id'],
                         'both' if w['is_bidirectional'] == '1' else
                         'forward', l))
    assert sorted(have) == sorted(want), (sorted(have), sorted(want))
    for e in set(have):
        line = '  %s -> %s [ label=%s ]\n' % (
            quoted_id(e[0]), quoted_id(e[1]), quoted_id(e[3]))
        assert text.count('  edge [ dir=%s ]\n%s' % (e[2], line)) == \
            have.count(e), (line, text)
    assert text.startswith('digraph D {') and text.endswith('}\n')


# ---------------------------------------------------------------- contracts
classdecl('RecordIdHelper', 'upgrade_translations.RecordIdHelper', fields={
    'id_and_sub_id': 'Tuple[Opt[Str],Opt[Str]]',
}, pools={'id_and_sub_id.0': ['stop_id', 'trip_id', None],
          'id_and_sub_id.1': ['stop_sequence', '', None]})

classdecl('GtfsLocation', 'visualize_pathways.GtfsLocation', fields={
    'gtfs_id': 'Str', 'name': 'Str', 'platform_code': 'Opt[Str]',
    'signposted_as': 'Opt[Str]', 'parent_id': 'Opt[Str]',
    'children': 'List[Str]', 'outgoing_pathways': 'List[Str]',
    'incoming_pathways': 'List[Str]',
})


@contract('upgrade_translations.is_translatable_field', prop='C30',
          args='field: Str', modular='uf', ret='Bool', reads=[],
          pools={'field': ['stop_name', 'x_desc', 'a_url', 'stop_id', '_text',
                           'instructions', 'my_instructions', 'signposted',
                           'reversed_signposted_as', 'name', 'trip_headsign',
                           'url_', 'x_abbreviation', 'route_color']})
def is_translatable(field):
    return (field.endswith('_name') or field.endswith('_desc') or
            field.endswith('_headsign') or field.endswith('_url') or
            field.endswith('_text') or field.endswith('_abbreviation') or
            field.endswith('signposted_as') or field.endswith('instructions'))


@contract('upgrade_translations.any_translatable_field', prop='C30',
          args='fields: List[Str]',
          pools={'fields.item': ['stop_name', 'a_url', 'stop_id', 'b_id']})
def any_translatable(fields):
    return any(upgrade_translations.is_translatable_field(f) for f in fields)


@contract('upgrade_translations.RecordIdHelper.get_record_id', prop='C30',
          args='self: RecordIdHelper, row: Dict[Str,Str]')
def record_id(self, row):
    column = self.id_and_sub_id[0]
    if not column:
        return None
    return row.get(column)


@contract('upgrade_translations.RecordIdHelper.get_record_sub_id', prop='C30',
          args='self: RecordIdHelper, row: Dict[Str,Str]')
def record_sub_id(self, row):
    column = self.id_and_sub_id[1]
    if not column:
        return None
    return row.get(column)


@contract('upgrade_translations.RecordIdHelper._find_first_id', prop='C30',
          args='field_names: List[Str]',
          pools={'field_names.item': ['stop_name', 'a_url', 'stop_id', 'b_id',
                                      '_id', 'id']})
def first_id(field_names):
    for f in field_names:
        if f.endswith('_id'):
            return f
    return None


@contract('visualize_pathways.GtfsLocation.has_children', prop='C31',
          args='self: GtfsLocation')
def has_children(self):
    return self.children != []


@contract('visualize_pathways.GtfsLocation.has_pathways', prop='C31',
          args='self: GtfsLocation')
def has_pathways(self):
    return self.incoming_pathways != [] or self.outgoing_pathways != []


@contract('visualize_pathways.GtfsLocation.add_outgoing_pathway', prop='C31',
          args='self: GtfsLocation, pathway_id: Str')
def add_outgoing(self, pathway_id):
    self.outgoing_pathways.append(pathway_id)


@contract('visualize_pathways.GtfsLocation.add_incoming_pathway', prop='C31',
          args='self: GtfsLocation, pathway_id: Str')
def add_incoming(self, pathway_id):
    self.incoming_pathways.append(pathway_id)


@contract('visualize_pathways.truncate_string', prop='C31',
          args='s: Str, max_length: Int', bounded='random texts', cases=600,
          pools={'s': ['', 'abc', 'exactly twenty chars', 'one more than twenty!',
                       'xxxxxxxxxxxxxxxxxxxxxxxxx', 'xxxxxxxxxxxxxxxxxxxxxxxxxx'],
                 'max_length': [-1, 0, 20, 25, 5]})
def truncated(s, max_length):
    return shortened(s, max_length)


@contract('visualize_pathways.escape_graphviz_id', prop='C31',
          args='gtfs_id: Str', bounded='random texts', cases=600,
          pools={'gtfs_id': ['', 'a', 'ab', '1a', 'a1', 'a b', 'say "hi"', '"',
                             '_x', 'a-b']})
def escaped(gtfs_id):
    return quoted_id(gtfs_id)


@contract('visualize_pathways.location_label', prop='C31',
          args='location: GtfsLocation, max_length: Int',
          bounded='random locations', cases=1500,
          pools={'max_length': [-1, 20, 25]})
def location_label(location, max_length):
    if location.platform_code:
        return location.gtfs_id + '\\nPlatform ' + location.platform_code
    if location.signposted_as:
        return location.gtfs_id + '\\n' + location.signposted_as
    if location.name:
        return location.gtfs_id + '\\n' + shortened(location.name, max_length)
    return location.gtfs_id
