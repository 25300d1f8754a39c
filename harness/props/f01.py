"""Conversion of Frictionless data packages."""
import base64
import copy
import datetime
import json
import random
import warnings

import csvw
from csvw.frictionless import DataPackage
from harness import g

RULE = ('Random Frictionless data packages (package metadata, 1-4 resources of which some are not tabular, 19 kinds of fields, '
        'constraints, missing values, keys, references by resource name, flat and nested dialects, encodings) with '
        'data generated along, valid or with one planted violation, given as dict, JSON text, path or string path. The '
        'converted TableGroup must contain exactly the tabular resources, read exactly the typed values, report the planted '
        'violation and nothing else, keep the package metadata and round-trip through CSVW metadata. For a sample of the '
        'packages the rows and verdict of the frictionless library itself are compared, too.')
CASES = {'quick': 16000, 'thorough': 128000}
KINDS = ['string', 'email', 'uri', 'binary', 'integer', 'number', 'number-chars', 'boolean', 'boolean-values', 'date', 'time', 'datetime',
         'duration', 'year', 'yearmonth', 'object', 'array', 'geojson', 'any', 'geopoint', 'untyped']
PLANTS = ['required', 'pattern', 'minLength', 'maxLength', 'minimum', 'maximum', 'type', 'pk', 'fk']
REQUIRED = ['kind:' + k for k in KINDS] + ['planted:' + p for p in PLANTS] + [
    'valid', 'given:dict', 'given:json', 'given:path', 'given:str', 'given:package', 'header:false', 'comments', 'nested-dialect', 'flat-dialect',
    'encoding', 'missingValues', 'no-missing', 'skipped-resource', 'fk:self', 'fk:other', 'fk:list', 'pk:list', 'pk:str', 'title',
    'null', 'frictionless:valid', 'frictionless:invalid', 'pattern-ignored', 'unknown-resource', 'rdfType', 'bound:0', 'skipInitialSpace',
    'doubleQuote:false', 'pk:two', 'fk:two', 'empty-value']
WORDS = ['a', 'bb', 'ccc', 'd e', 'x,y', 'x;y', 'q"q', 'été', 'f|g', 'NULLX', '12', 'ü', "it's"]
META = [('id', 'dc:identifier'), ('licenses', 'dc:license'), ('title', 'dc:title'), ('homepage', 'dcat:accessURL'), ('description', 'dc:description'),
        ('sources', 'dc:source'), ('contributors', 'dc:contributor'), ('profile', 'dc:conformsTo'), ('keywords', 'dc:subject'), ('created', 'dc:created')]


def gen(rng):
    return dict(seed=rng.randrange(10**9), plant=rng.choice(PLANTS) if rng.random() < .55 else None, lib=rng.random() < .2)


def field(rng, kind, name, plant, mon):
    """-> field, text -> value pairs, text violating the planted constraint or None"""
    f, cons, bad = {'name': name}, {}, None
    if kind == 'untyped':
        pass
    elif kind in ('email', 'uri', 'binary'):
        f.update(type='string', format=kind)
    else:
        f['type'] = kind.split('-')[0]
    if kind == 'string' and rng.random() < .2:
        f['format'] = 'default'
    if kind in ('string', 'any', 'untyped', 'email', 'geopoint'):
        ws = list(WORDS)
        if kind == 'string':
            if plant == 'pattern' or rng.random() < .2:
                cons['pattern'] = rng.choice(['[a-c]+', 'a|bb|ccc', '[abc]{1,3}'])
                ws, bad = ['a', 'bb', 'ccc'], rng.choice(['abcd', 'a ', 'xa', 'ax', 'd', 'A'])
            if plant == 'minLength' or rng.random() < .15:
                cons['minLength'] = 2
                ws = [w for w in ws if len(w) > 1]
                if plant == 'minLength':
                    bad = 'a'
            if plant == 'maxLength' or rng.random() < .15:
                cons['maxLength'] = 3
                ws = [w for w in ws if len(w) < 4]
                if plant == 'maxLength':
                    bad = 'aaaa' if 'pattern' not in cons else 'abca'
        pairs = [(w, w) for w in ws]
        if kind == 'email':
            pairs = [('a@example.org', 'a@example.org')]
        if kind == 'geopoint':
            pairs = [('1.5, 2', '1.5, 2')]
    elif kind == 'uri':
        pairs = [(w, w) for w in ['http://example.org/a', 'http://example.org/?x=1#y']]
    elif kind == 'binary':
        pairs = [(base64.b64encode(v).decode(), v) for v in (b'abc', b'\x00\xff', b'xyz1')]
        if plant == 'type':
            bad = 'a'
    elif kind == 'integer':
        ns = sorted(rng.sample([-7, -5, 0, 1, 2, 7, 100, 12345], 5))
        pairs = [(str(n), n) for n in ns]
        if rng.random() < .25:
            f['groupChar'] = rng.choice([',', ' ', '_'])
            pairs.append(('12%s345' % f['groupChar'], 12345))
        if plant == 'type':
            bad = rng.choice(['x', '1.5', '1e3'])
        if rng.random() < .1:
            cons['pattern'] = '[0-9]{1}'
    elif kind == 'number':
        pairs = [(s, float(s)) for s in ['1.5', '-2', '1e3', '0.25', '0', '1234567.125']]
        if plant == 'type':
            bad = rng.choice(['x', '1,5', '1.2.3'])
    elif kind == 'number-chars':
        f.update(decimalChar=',')
        pairs = [('1,5', 1.5), ('-2', -2.), ('1234567,125', 1234567.125)]
        if rng.random() < .5:
            f['groupChar'] = '.'
            pairs.append(('1.234,5', 1234.5))
        if plant == 'type':
            bad = rng.choice(['x', '1,2,3'])
    elif kind == 'boolean':
        pairs = [('true', True), ('false', False), ('1', True), ('0', False)]
        if rng.random() < .3:
            k = rng.choice(['trueValues', 'falseValues'])
            f[k] = ['true', 'True'] if k == 'trueValues' else ['false']
        if plant == 'type':
            bad = 'yes'
    elif kind == 'boolean-values':
        t, n = rng.choice([('yes', 'no'), ('Y', 'N'), ('1', '0'), ('x', '-')])
        f.update(trueValues=[t], falseValues=[n])
        pairs = [(t, True), (n, False)]
        if plant == 'type':
            bad = 'maybe'
    elif kind == 'date':
        pairs = [(s, datetime.datetime.fromisoformat(s)) for s in ['1999-12-31', '2000-01-01', '2020-02-29']]
        if plant == 'type':
            bad = '2021-02-29'
        if rng.random() < .1:
            cons['pattern'] = '[0-9-]+'
    elif kind == 'datetime':
        pairs = [(s, datetime.datetime.fromisoformat(s)) for s in ['1999-12-31T23:59:59', '2000-01-01T00:00:00']]
        if plant == 'type':
            bad = '2000-13-01T00:00:00'
    elif kind == 'time':
        pairs = [(s, datetime.time.fromisoformat(s)) for s in ['23:59:59', '00:00:00', '12:30:00']]
        if plant == 'type':
            bad = '25:00:00'
    elif kind == 'duration':
        pairs = [('P1D', datetime.timedelta(days=1)), ('PT2H30M', datetime.timedelta(hours=2, minutes=30))]
        if plant == 'type':
            bad = '1D'
    elif kind == 'year':
        pairs = [(s, s) for s in ['1999', '2020']]
    elif kind == 'yearmonth':
        pairs = [(s, s) for s in ['1999-01', '2020-12']]
    elif kind in ('object', 'geojson'):
        pairs = [(json.dumps(v), v) for v in [{'type': 'Point', 'coordinates': [1.5, 2]}, {'type': 'Point', 'coordinates': [0, 0]}]]
        if plant == 'type':
            bad = '{"a"'
    elif kind == 'array':
        pairs = [(json.dumps(v), v) for v in [[], [1, 'x'], ['a', None]]]
        if plant == 'type':
            bad = '[1'
    if kind in ('integer', 'number', 'number-chars', 'date', 'datetime') and (plant in ('minimum', 'maximum') or rng.random() < .2):
        vs = sorted(pairs, key=lambda p: p[1])
        for c in [plant] if plant in ('minimum', 'maximum') else [rng.choice(['minimum', 'maximum'])]:
            at = rng.randint(1, len(vs) - 1)
            text, b = vs[at] if c == 'minimum' else vs[-at - 1]
            outside = vs[at - 1] if c == 'minimum' else vs[-at]
            if b == 0:
                mon.cover('bound:0')
            pairs = [p for p in pairs if (p[1] >= b if c == 'minimum' else p[1] <= b)]
            cons[c] = b if kind in ('integer', 'number', 'number-chars') else text
            if plant == c and outside[1] != b:
                bad = outside[0]
    if plant == 'required' or rng.random() < .2:
        cons['required'] = True
    if cons:
        f['constraints'] = cons
    if rng.random() < .3:
        f['title'] = 'The %s' % name
    if rng.random() < .2:
        f['description'] = 'about ' + name
    if rng.random() < .2:
        f['rdfType'] = 'http://example.org/' + name.replace(' ', '_')
    return f, pairs, bad


def escaped(c, delim, q):
    if c == '' or any(x in c for x in (delim, q, '\\', '\n', '\r')):
        return q + c.replace('\\', '\\\\').replace(q, '\\' + q) + q
    return c


def rows_equal(got, want):
    if len(got) != len(want):
        return False
    for a, b in zip(got, want):
        if list(a) != list(b):
            return False
        for k in b:
            x, y = a[k], b[k]
            if isinstance(y, datetime.time):
                x = x.time() if isinstance(x, datetime.datetime) else x
            if hasattr(x, 'unsplit'):
                x = x.unsplit()
            if type(x) is not type(y) and not (isinstance(y, dict) and isinstance(x, dict)):
                return False
            if x != y:
                return False
    return True


def build(rng, plant, mon, work):
    nrsc = g.size(rng, 1, 3, 12)
    spec, rows, texts, planted = {'resources': []}, {}, {}, None
    names = ['r%d' % i for i in range(nrsc)]
    for i, name in enumerate(names):
        fn = rng.sample(['id', 'name', 'a b', 'X', 'été', 'order', 'a_b'], rng.randint(2, 6))
        fn += ['f%d' % j for j in range(g.size(rng, 0, 0, 25))]
        kinds = [rng.choice(KINDS) for _ in fn]
        here = plant if i == nrsc - 1 else None
        if here in ('pattern', 'minLength', 'maxLength'):
            kinds[-1] = 'string'
        elif here in ('minimum', 'maximum'):
            kinds[-1] = rng.choice(['integer', 'number', 'number-chars', 'date', 'datetime'])
        elif here == 'type':
            kinds[-1] = rng.choice(['integer', 'number', 'number-chars', 'boolean', 'boolean-values', 'date', 'datetime', 'time', 'duration', 'object', 'array', 'binary'])
        fields, pools, bads = zip(*[field(rng, k, n, here if n == fn[-1] else None, mon) for k, n in zip(kinds, fn)])
        fields, pools = list(fields), list(pools)
        for k in kinds:
            mon.cover('kind:' + k)
        for f in fields:
            if 'title' in f:
                mon.cover('title')
            if 'rdfType' in f:
                mon.cover('rdfType')
            if 'pattern' in f.get('constraints', {}) and f['type'] != 'string':
                mon.cover('pattern-ignored')
        nrows = g.size(rng, 2, 5, 150 if len(fn) < 7 else 15)
        missing = rng.choice([None, [''], ['', 'NA'], ['NA', '-'], []])
        nullt = [''] if missing is None else missing
        for pool in pools:
            pool[:] = [p for p in pool if p[0] not in nullt]
            if not pool:
                return None
        if missing == []:
            # the empty string is a value like any other
            for k, f, pool in zip(kinds, fields, pools):
                if k in ('string', 'any', 'untyped') and not {'pattern', 'minLength'} & set(f.get('constraints', {})):
                    pool.append(('', ''))
                    mon.cover('empty-value')
        schema = {'fields': fields}
        # the first field is a unique key
        key = rng.random() < .7 or (plant in ('pk', 'fk'))
        if key:
            fields[0] = {'name': fn[0], 'type': 'integer'}
            kinds[0] = 'integer'
            two = len(fn) > 2 and rng.random() < .3
            if two:
                fields[1] = {'name': fn[1], 'type': 'integer'}
                kinds[1] = 'integer'
                mon.cover('pk:two')
            schema['primaryKey'] = fn[:2] if two else fn[0] if rng.random() < .5 else [fn[0]]
            mon.cover('pk:str' if isinstance(schema['primaryKey'], str) else 'pk:list')
        rs = []
        for r in range(nrows):
            row = []
            for c, f in enumerate(fields):
                if key and c == 0:
                    k = r // 2 + 1 if two else r + 1
                    row.append((str(k), k))
                    continue
                if key and c == 1 and two:
                    row.append((str(r % 2 + 1), r % 2 + 1))
                    continue
                if nullt and not f.get('constraints', {}).get('required') and rng.random() < .15:
                    row.append((rng.choice(nullt), None))
                    mon.cover('null')
                else:
                    row.append(rng.choice(pools[c]))
            rs.append(row)
        fks = []
        if key and rng.random() < (.9 if plant == 'fk' else .4):
            other = [n for n in names[:i] if n in rows and schema_of(spec, n).get('primaryKey')]
            to = rng.choice(other + [None])
            field_ = 'ref'
            fields.append({'name': field_, 'type': 'integer'})
            tokey2 = None
            tokey = fn[0]
            top = len(rs)
            if to:
                to_schema = schema_of(spec, to)
                tokey = to_schema['fields'][0]['name']
                if to_schema['primaryKey'][1:] and isinstance(to_schema['primaryKey'], list):
                    tokey2 = to_schema['primaryKey'][1]
                top = len(texts[to])
                mon.cover('fk:other')
            else:
                mon.cover('fk:self')
                if two:
                    tokey2 = fn[1]
            if tokey2:
                fields.append({'name': 'ref2', 'type': 'integer'})
                mon.cover('fk:two')
            for row in rs:
                v = rng.randint(1, top)
                if tokey2:
                    row += [(str(x), x) for x in ((v - 1) // 2 + 1, (v - 1) % 2 + 1)]
                else:
                    row.append((str(v), v))
            ref = {'fields': tokey, 'resource': to or rng.choice(['', name])}
            if tokey2:
                fks.append({'fields': [field_, 'ref2'], 'reference': dict(ref, fields=[tokey, tokey2])})
            elif rng.random() < .4:
                fks.append({'fields': [field_], 'reference': dict(ref, fields=[tokey])})
                mon.cover('fk:list')
            else:
                fks.append({'fields': field_, 'reference': ref})
            if not to and rng.random() < .2:
                del ref['resource']
                fks[-1]['reference'].pop('resource', None)
            schema['foreignKeys'] = fks
        if missing is not None:
            schema['missingValues'] = missing
            mon.cover('missingValues' if missing else 'no-missing')
        # plant
        if here:
            row = rng.choice(rs)
            if here == 'required':
                if nullt and not (key and len(fn) == 1):
                    row[len(fn) - 1] = (rng.choice(nullt), None)
                    planted = here
            elif here == 'pk':
                if not fks:
                    rs[0][0] = rs[-1][0]
                    if two:
                        rs[0][1] = rs[-1][1]
                    planted = here
            elif here == 'fk':
                if fks:
                    row[-1] = ('9999', 9999)
                    if tokey2 and top % 2 and rng.random() < .6:
                        # both values are there, but not together
                        row[-2:] = [(str(top // 2 + 1),) * 2, ('2', 2)]
                        row[-2] = (row[-2][0], top // 2 + 1)
                    planted = here
            elif bads[-1] is not None and bads[-1] not in nullt:
                row[len(fn) - 1] = (bads[-1], None)
                planted = here
        # write
        d = {}
        if rng.random() < .5:
            d['delimiter'] = rng.choice([';', '|', '\t', ','])
        if rng.random() < .3:
            d['quoteChar'] = rng.choice(['"', "'"])
        if rng.random() < .2:
            d['skipInitialSpace'] = rng.random() < .5
        if not d.get('skipInitialSpace') and rng.random() < .1:
            d['doubleQuote'] = False
        header = True
        general = {}
        if rng.random() < .25:
            general['header'] = header = False
            mon.cover('header:false')
        comment = rng.random() < .25
        if comment:
            general['commentChar'] = '#'
            mon.cover('comments')
        nested = rng.random() < .5
        dialect = dict(general, csv=d) if nested else dict(general, **d)
        mon.cover('nested-dialect' if nested else 'flat-dialect')
        enc = rng.choice([None, 'utf-8', 'latin-1'])
        if enc == 'latin-1':
            mon.cover('encoding')
        lines = ([[f['name'] for f in fields]] if header else []) + [[t for t, _ in row] for row in rs]
        if d.get('skipInitialSpace'):
            mon.cover('skipInitialSpace')
            quoted = [[g.dump([[c]], delim=d.get('delimiter', ','), quote=d.get('quoteChar', '"'))[:-2] for c in line] for line in lines]
            text = ''.join((d.get('delimiter', ',') + ' ').join(line) + '\r\n' for line in quoted)
        elif 'doubleQuote' in d:
            mon.cover('doubleQuote:false')
            q = d.get('quoteChar', '"')
            text = ''.join(d.get('delimiter', ',').join(escaped(c, d.get('delimiter', ','), q) for c in line) + '\r\n' for line in lines)
        else:
            text = g.dump(lines, delim=d.get('delimiter', ','), quote=d.get('quoteChar', '"'))
        if any(line and line[0].startswith('#') for line in lines):
            return None
        if comment:
            text = '#comment\r\n' + text
        path = rng.choice(['{}.csv', 'data/{}.csv', 'a b {}.csv']).format(name)
        p = work / 'pkg' / path
        p.parent.mkdir(exist_ok=True, parents=True)
        p.write_bytes(text.encode(enc or 'utf-8'))
        rsc = {'name': name, 'path': path, 'scheme': 'file', 'format': 'csv', 'schema': schema}
        if enc:
            rsc['encoding'] = enc
        if dialect:
            rsc['dialect'] = dialect
        if rng.random() < .5:
            rsc['profile'] = 'tabular-data-resource'
        spec['resources'].append(rsc)
        texts[name] = rs
        rows[name] = [{f['name']: v for f, (_, v) in zip(fields, row)} for row in rs]
    return spec, rows, planted


def schema_of(spec, name):
    return [r['schema'] for r in spec['resources'] if r['name'] == name][0]


def bounded_years(mon, work):
    (work / 'y.csv').write_text('y\n1990\n2000\n')
    spec = {'resources': [{'name': 'y', 'path': 'y.csv', 'scheme': 'file', 'format': 'csv', 'schema': {
        'fields': [{'name': 'y', 'type': 'year', 'constraints': {'minimum': 1990}}]}}]}
    try:
        tg = DataPackage(spec, directory=work).to_tablegroup()
    except ValueError as e:
        mon.fail('bounded years cannot be converted', error=str(e))
    mon.eq([r['y'] for r in tg.tables[0]], ['1990', '2000'], 'years')


def several_true_values(mon, work):
    (work / 'b.csv').write_text('b\nyes\ny\n')
    spec = {'resources': [{'name': 'b', 'path': 'b.csv', 'scheme': 'file', 'format': 'csv', 'schema': {
        'fields': [{'name': 'b', 'type': 'boolean', 'trueValues': ['yes', 'y'], 'falseValues': ['no']}]}}]}
    try:
        mon.eq([r['b'] for r in DataPackage(spec, directory=work).to_tablegroup().tables[0]], [True, True], 'booleans')
    except ValueError as e:
        mon.fail('only the first of several trueValues is accepted', error=str(e))


def run(case, mon, work):
    if case.get('booleans'):
        return several_true_values(mon, work)
    if case.get('years'):
        return bounded_years(mon, work)
    rng = random.Random(case['seed'])
    rng.big = case['seed'] % 80 == 0
    built = build(rng, case['plant'], mon, work)
    if not built:
        mon.count('rejected')
        return
    spec, rows, planted = built
    tabular = list(spec['resources'])
    # resources which can't be converted
    for extra in [{'name': 'inline', 'data': [[1]]}, {'name': 'x', 'path': 'x.xlsx', 'scheme': 'file', 'format': 'xlsx', 'schema': {'fields': [{'name': 'a'}]}},
                  {'name': 'noschema', 'path': 'x.csv', 'scheme': 'file', 'format': 'csv'}]:
        if rng.random() < .15:
            spec['resources'].insert(rng.randint(0, len(spec['resources'])), extra)
            mon.cover('skipped-resource')
    values = dict(id='the id', licenses=[{'name': 'CC-BY-4.0'}], title='The Title', homepage='http://example.org', description='d', sources=[{'title': 's'}],
                  contributors=[{'title': 'A', 'role': 'author'}], profile='data-package', keywords=['a', 'b'], created='2020-01-01T00:00:00Z')
    for k, v in values.items():
        if rng.random() < .3:
            spec[k] = v
    if rng.random() < .5:
        spec['name'] = 'pkg-name'
    given = copy.deepcopy(spec)
    d = work / 'pkg'
    (d / 'datapackage.json').write_text(json.dumps(spec))
    how = rng.choice(['dict', 'json', 'path', 'str', 'package'])
    mon.cover('given:' + how)
    directory = rng.choice([str, lambda x: x])(d)

    def convert(spec):
        dp = DataPackage(spec, directory=directory) if how == 'dict' else \
            DataPackage(rng.choice(['', ' \n']) + json.dumps(spec), directory=directory) if how == 'json' else \
            DataPackage(d / 'datapackage.json') if how == 'path' else str(d / 'datapackage.json')
        if how == 'package':
            dp = DataPackage(DataPackage(spec, directory=directory))
        return csvw.TableGroup.from_frictionless_datapackage(dp)

    def load():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return convert(spec)
    if rng.random() < .05:
        bad = copy.deepcopy(spec)
        [r for r in bad['resources'] if r['name'] == tabular[-1]['name']][0]['schema'].setdefault('foreignKeys', []).append(
            {'fields': tabular[-1]['schema']['fields'][0]['name'], 'reference': {'resource': rng.choice(['nope', 'inline']), 'fields': 'x'}})
        mon.cover('unknown-resource')
        mon.raises(ValueError, lambda: DataPackage(bad, directory=d).to_tablegroup(), 'reference to unknown resource')
    tg = load()
    mon.eq(spec, given, 'package changed by conversion')
    mon.eq([t.url.string for t in tg.tables], [r['path'] for r in tabular], 'tables are not the tabular resources')
    # metadata
    want = {c: spec[f] for f, c in META if f in spec}
    if 'name' in spec:
        if 'id' not in spec:
            want['dc:identifier'] = spec['name']
        elif 'title' not in spec:
            want['dc:title'] = spec['name']
    props = dict(tg.common_props)
    mon.eq(json.loads(props.pop('dc:replaces')), spec, 'original package not kept')
    mon.eq(props, want, 'package metadata')
    for t, r in zip(tg.tables, tabular):
        for c, f in zip(t.tableSchema.columns, r['schema']['fields']):
            mon.eq((c.name, c.titles.getfirst() if c.titles else None, c.common_props.get('dc:description'), c.propertyUrl.uri if c.propertyUrl else None),
                   (f['name'], f.get('title'), [f['description']] if 'description' in f else None, f.get('rdfType')), 'column description')
            # lexical forms of these are not checked
            if f.get('type') in ('year', 'yearmonth'):
                mon.eq(c.datatype.base, {'year': 'gYear', 'yearmonth': 'gYearMonth'}[f['type']], 'datatype')
    mon.event(how, planted, json.dumps(spec)[:200])

    def judge(tg, what):
        verdict = []
        for t, r in zip(tg.tables, tabular):
            try:
                res = list(t)
            except ValueError as e:
                verdict.append(str(e))
                continue
            try:
                if not t.check_primary_key():
                    verdict.append('pk')
            except ValueError as e:
                verdict.append(str(e))
            if not planted:
                mon.check(rows_equal(res, rows[r['name']]), 'rows read differently ' + what, rows=[dict(x) for x in res], expected=rows[r['name']],
                          resource=r)
        if not verdict:
            try:
                if not tg.check_referential_integrity():
                    verdict.append('fk')
            except ValueError as e:
                verdict.append(str(e))
        mon.check(bool(verdict) == bool(planted), 'wrong verdict ' + what, verdict=verdict, planted=planted, spec=spec, rows=rows)
        if planted in ('pk', 'fk'):
            mon.check(len(verdict) == 1, 'wrong verdict ' + what, verdict=verdict, planted=planted)
    judge(tg, 'via package')
    mon.cover('planted:' + planted if planted else 'valid')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tg.to_file(d / 'csvw-metadata.json')
        judge(csvw.TableGroup.from_file(d / 'csvw-metadata.json'), 'via CSVW metadata')
    if case['lib']:
        library(spec, tabular, rows, planted, d, mon)


def library(spec, tabular, rows, planted, d, mon):
    """The reference implementation must agree with the workload's own notion of rows and validity."""
    import frictionless
    s = copy.deepcopy(dict(spec, resources=tabular))
    for r in s['resources']:
        dia = r.get('dialect', {})
        if 'csv' not in dia:
            r['dialect'] = {k: v for k, v in dia.items() if k in ('header', 'commentChar')}
            r['dialect']['csv'] = {k: v for k, v in dia.items() if k not in ('header', 'commentChar')}
        for k in r['schema'].get('foreignKeys', []):
            if k['reference'].get('resource') in (None, r['name']):
                k['reference']['resource'] = ''
        for f in r['schema']['fields']:
            f.pop('rdfType', None)
            if 'pattern' in f.get('constraints', {}) and f['type'] != 'string':
                del f['constraints']['pattern']
    for k in ('created', 'profile', 'id', 'keywords', 'licenses', 'sources', 'contributors', 'homepage'):
        s.pop(k, None)
    for r in s['resources']:
        r.pop('profile', None)
    # frictionless anchors only the outer alternatives of patterns
    if planted == 'pattern' or any(f.get('type') == 'integer' and 'groupChar' in f for r in tabular for f in r['schema']['fields']) or any(
            all(v is None for v in row.values()) for rs in rows.values() for row in rs):
        # not supported, or blank rows not allowed by frictionless
        mon.count('frictionless:skipped')
        return
    report = frictionless.Package.from_descriptor(s, basepath=str(d)).validate()
    # Says something about the workload, not about csvw.
    mon.count('frictionless:' + ('agrees' if report.valid == (not planted) else 'disagrees'))
    mon.cover('frictionless:valid' if report.valid else 'frictionless:invalid')
