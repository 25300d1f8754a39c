"""Invalid metadata."""
import csv
import copy
import json
import warnings

import requests_mock

import csvw
from harness import g, mdgen

RULE = ('Valid metadata documents with (a) one property replaced by a value which is known to be invalid for it - '
        'where the specification says whether the property is to be ignored with a warning or the document is to '
        'be rejected - and (b) arbitrary JSON values planted at arbitrary places. (a) must give the object without '
        'the property plus a warning, or ValueError; (b) must give ValueError or an object which can be '
        'serialized, reloaded as an equal object, and used to read data raising nothing but ValueError.')
CASES = {'quick': 40000, 'thorough': 320000}

JUNK = [None, True, False, 0, 1, -1, 2.5, 10 ** 20, '', 'x', '_x', 'a b', '_:x', 'http://x/y', [], [1], ['x'], [[]], [{}],
        [None], {}, {'a': 1}, {'a:b': 1}, {'@id': 1}, {'x': []}, '{', '\ud800', {'@value': 1, '@foo': 2},
        {'reference': {}}, {'base': 1}, {'url': 'x'}, {'name': 'x'}, '\x00', 'ü', {'en': 1}, {'@type': 'x'}, ',']
# property -> (levels, invalid values); the object must equal the one without the property
IGNORED = {
    'unknownProp': ('gtscdk', [1, 'x', None, [], {}]),
    'Columns': ('gtsc', ['x']),
    'tableDirection': ('gt', ['up', 'LTR', 1, None, ['ltr'], {}]),
    'lang': ('gtsc', ['1', 'not a tag', 'x' * 40]),
    'ordered': ('gtsc', ['true', 1, 0, 'x', [True]]),
    'separator': ('gtsc', [1, True, [';'], {}]),
    'default': ('gtsc', [1, True, ['x'], {}]),
    'null': ('gtsc', [1, True, ['x', 1], {}, [None]]),
    'textDirection': ('gtsc', ['up', 1, ['ltr'], {}, True]),
    'suppressOutput': ('tc', ['true', 1, 0, None, []]),
    'virtual': ('c', ['true', 1, 0, None]),
    'titles': ('c', [1, True, 1.5, {'no tag!': 'x'}]),
    'name': ('C', [1, True, ['x'], {}]),
    'primaryKey': ('s', [1, True, {}, [1], [], ['x', 1], [None]]),
    'columns': ('S', ['x', 1, True, {}, None]),
    'aboutUrl': ('gtsc', [1, True, ['x'], {}, 2.5]),
    'propertyUrl': ('gtsc', [1, True, ['x'], {}]),
    'valueUrl': ('gtsc', [1, True, ['x'], {}]),
    'rowTitles': ('s', [1, True, {}, [1], 2.5]),
    'tableSchema': ('t', [1, True, 0, False]),
    'dialect': ('gt', [1, True, False]),
    'transformations': ('gt', ['x', 1, {}, True]),
    'datatype.base': ('k', ['foo', 1, 'xs:string', [], True]),
    'datatype.format': ('k', [1, ['x'], True]),
    'dialect.delimiter': ('d', [1, None, True, []]),
    'dialect.header': ('d', ['true', 1, [], 'false', 0]),
    'dialect.skipRows': ('d', [-1, 'x', [], 1.5, '1']),
    'dialect.skipColumns': ('d', [-1, 'x', [], '2']),
    'dialect.doubleQuote': ('d', ['true', 1]),
    'dialect.skipBlankRows': ('d', ['x', 1]),
    'dialect.skipInitialSpace': ('d', ['x', 0]),
    'dialect.trim': ('d', ['x', 1, [], 'TRUE']),
    'dialect.encoding': ('d', [1, 'no-such-encoding', []]),
    'dialect.commentPrefix': ('d', [1, True, []]),
    'dialect.quoteChar': ('d', [1, True, []]),
    'dialect.headerRowCount': ('d', [-1, 'x', '2']),
    'dialect.lineTerminators': ('d', [1, True, [], '', [''], ['\n', ''], ['\n', 1], {}]),
}
# (level, property, value) -> ValueError
REJECTED = [
    ('t', 'url', None), ('t', 'url', 1), ('t', 'url', ['x']), ('t', 'url', True),
    ('g', 'tables', {}), ('g', 'tables', 'x'), ('g', 'tables', 1),
    ('g', '@type', 'Table'), ('t', '@type', 'Schema'), ('s', '@type', 'Table'), ('c', '@type', 'Table'),
    ('c', '@type', 1), ('d', '@type', 'Table'), ('k', '@type', 'Column'),
    ('g', '@id', '_:x'), ('t', '@id', '_:x'), ('s', '@id', '_:a'), ('c', '@id', '_:x'), ('k', '@id', '_:b'),
    ('k', '@id', 'http://www.w3.org/2001/XMLSchema#string'), ('k', '@id', 'http://www.w3.org/2001/XMLSchema#dateTime'),
    ('g', '@context', ['http://www.w3.org/ns/csvw', {'@foo': 'x'}]), ('g', '@context', ['http://example.org/x', {}]),
    ('g', '@context', ['http://www.w3.org/ns/csvw', {'@base': 'x', 'y': 1}]),
    ('c2', 'virtual', None), ('c2', 'name', None),
    ('s', 'foreignKeys', [{'columnReference': 'a', 'reference': {'resource': 'x'}}]),
    ('s', 'foreignKeys', [{'columnReference': 'a', 'reference': {'columnReference': 'x'}}]),
    ('s', 'foreignKeys', [{'columnReference': 'a'}]),
    ('s', 'foreignKeys', [{'reference': {'resource': 'x', 'columnReference': 'x'}}]),
    ('s', 'foreignKeys', [{'columnReference': 'a', 'x': 1, 'reference': {'resource': 'x', 'columnReference': 'x'}}]),
    ('s', 'foreignKeys', [{'columnReference': 'a', 'reference': {'resource': 'x', 'schemaReference': 'y',
                                                                 'columnReference': 'x'}}]),
    ('s', 'foreignKeys', [{'columnReference': 'a', 'reference': {'resource': 'x', 'foo': 1, 'columnReference': 'x'}}]),
] + [(lv, 'dc:x', v) for lv in 'gtsck' for v in [
    {'@foo': 1}, {'@value': 1, 'x:y': 1}, {'@value': 'x', '@language': 'en', '@type': 'xsd:string'},
    {'@value': ['x'], '@language': 'en'}, {'@value': {}, '@type': 'xsd:string'}, {'@language': 'en'},
    {'@language': 'en', '@id': 'http://x/'}, {'@type': '_:x'}, {'@type': 'foo'}, {'@type': 1}, {'@type': 'unknown:x'},
    {'@id': '_:x'}, [{'@list': []}], {'dc:y': {'@set': 1}}, [[{'@id': '_:x'}]], {'a:b': [{'@language': 'de'}]}]]
# datatype -> formats which are no formats for it, texts
NUM = ['abc', '0;0;0', '0.0.0', ';', '%', '0x', '[0-9]+', 'yyyy', '#,##0 EUR', {'pattern': 'x'}, {'pattern': 5}, {'groupChar': 5}, {'decimalChar': [',']}, {'foo': 1}]
REGEX = ['[', '(', '*a', 'a{2,1}', '+', '(?P<x', '\\', {'pattern': 'x'}, {'decimalChar': ','}]
FORMATS = {
    'string': (REGEX, ['a', '', '[', 'aa', 'x']), 'anyURI': (REGEX, ['a', 'http://x/']), 'NMTOKEN': (REGEX, ['a', 'a b']),
    'normalizedString': (REGEX, ['a', ' a\tb']), 'gYear': (REGEX, ['2018']), 'QName': (REGEX, ['a:b']),
    'duration': (REGEX, ['P1D', 'x', 'PT5S']), 'dayTimeDuration': (REGEX, ['P1D', 'x', 'PT5S']),
    'boolean': (['Y', 'Y|N|X', 'YN', 'true,false', {'pattern': 'Y|N'}], ['true', '0', 'Y', 'N', '']),
    'date': (['foo', 'yyyy-mm-dd', 'YYYY-MM-DD', 'yyyy', 'd.M.yy', 'dd', '%Y-%m-%d'], ['2018-01-02', '2.1.18', '2018', 'x']),
    'json': (['{"type": 5}', '{"properties": 1}', '{"type": "nope"}', {'type': 'object'}], ['{}', '5', '{', '"x"']),
}
for _t in ['integer', 'byte', 'positiveInteger', 'decimal', 'float', 'double', 'number']:
    FORMATS[_t] = (NUM, ['5', '-3', '1,000', '2.5', '1e3', 'x', '', 'NaN', '1,5'])
# formats for which there's an error
NOFORMAT = [(b, f) for b in ('dateTime', 'datetime', 'time') for f in ['foo', 'hh:mm', 'HH', 'yyyy-MM-dd HH:mm:ss:ss', 'HH:mm:ss.SxS']] + [
    ('dateTimeStamp', 'yyyy-MM-ddTHH:mm:ss'), ('dateTimeStamp', 'foo'), ('dateTime', 'yyyy-MM-ddTHH:mm:ss.SGS'), ('time', 'HH:mm XxX')]
REQUIRED = ['format:' + k for k in FORMATS] + ['format-error'] + ['ignored:' + k for k in IGNORED] + ['rejected:' + p for _, p, _ in REJECTED] + [
    'ignored:list-entry', 'fuzz:ok', 'fuzz:rejected', 'fuzz:reads', 'fuzz:warned', 'langtag-warned', 'key-without-name', 'fuzz:multi']


def real(t):
    return [c for c in t.get('tableSchema', {}).get('columns', []) if not c.get('virtual')]


def gen(rng):
    md = mdgen.group(rng)
    while not any(real(t) for t in md['tables']):
        md = mdgen.group(rng)
    k = rng.random()
    if k < .4:
        prop = rng.choice(sorted(IGNORED))
        levels, values = IGNORED[prop]
        return dict(kind='ignored', md=md, prop=prop, level=rng.choice(levels), value=rng.choice(values),
                    r=rng.randint(0, 99))
    if k < .45:
        return dict(kind='entries', md=md, what=rng.choice(['tables', 'columns', 'foreignKeys', 'langtag', 'titles', 'noname']),
                    value=rng.choice([1, 'x', None, True, [], 2.5]), at=rng.randint(0, 3), r=rng.randint(0, 99))
    if k < .5:
        if rng.random() < .15:
            b, f = rng.choice(NOFORMAT)
            return dict(kind='noformat', md=md, base=b, format=f, r=rng.randint(0, 99))
        b = rng.choice(sorted(FORMATS))
        return dict(kind='format', md=md, base=b, format=rng.choice(FORMATS[b][0]), r=rng.randint(0, 99))
    if k < .65:
        i = rng.randrange(len(REJECTED))
        return dict(kind='rejected', md=md, i=i, r=rng.randint(0, 99))
    ps = [p for p in paths(md) if p]
    n = rng.choice([1, 1, 1, 2, 3])
    return dict(kind='fuzz', md=md, at=[list(rng.choice(ps)) for _ in range(n)],
                values=[rng.choice(JUNK) for _ in range(n)],
                remove=rng.random() < .1, r=rng.randint(0, 10 ** 6))


def paths(o, p=()):
    yield p
    if isinstance(o, dict):
        for k, v in o.items():
            yield from paths(v, p + (k,))
    elif isinstance(o, list):
        for i, v in enumerate(o):
            yield from paths(v, p + (i,))


def target(md, level, r):
    """The description object of a level, created if necessary."""
    if level == 'g':
        return md
    tables = [t for t in md['tables'] if real(t)]
    t = tables[r % len(tables)]
    if level == 't':
        return t
    if level in 'sS':
        return t['tableSchema']
    cols = real(t)
    c = cols[r // 7 % len(cols)]
    if level == 'c':
        return c
    if level == 'C':   # the name is to be dropped, and nothing may refer to it
        for x in ('primaryKey', 'foreignKeys', 'rowTitles'):
            t['tableSchema'].pop(x, None)
        return c
    if level == 'k':
        dt = c.get('datatype')
        c['datatype'] = dt = {'base': 'string', 'dc:title': 'x'}
        return dt
    if level == 'd':
        return t.setdefault('dialect', {})


def load(md):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        with requests_mock.Mocker() as m:
            m.register_uri(requests_mock.ANY, requests_mock.ANY, status_code=404, text='not found')
            obj = csvw.TableGroup.fromvalue(json.loads(json.dumps(md)))
    return obj, [str(x.message) for x in w]


def view(obj):
    return g.canon(json.loads(json.dumps(obj.asdict(omit_defaults=True))))


def prune(o):
    if isinstance(o, dict):
        return {k: prune(v) for k, v in o.items() if v not in (None, [], {})}
    return [prune(v) for v in o] if isinstance(o, list) else o


def run(case, mon, work):
    md = case['md']
    getattr(Run, case['kind'])(case, mon, work, md)


class Run:
    @staticmethod
    def ignored(case, mon, work, md):
        prop, level = case['prop'], case['level']
        mon.cover('ignored:' + prop)
        key = prop.split('.')[-1]
        tgt = target(md, level, case['r'])
        tgt.pop(key, None)
        if key == 'columns':
            for x in ('primaryKey', 'foreignKeys', 'rowTitles'):
                tgt.pop(x, None)
        elif key == 'virtual':
            pass
        elif key == 'headerRowCount':
            tgt.pop('header', None)
        elif key == 'dialect':
            tgt['dialect'] = {}
        elif key == 'tableSchema':
            tgt['tableSchema'] = {}
        elif key.endswith('Url'):    # as if the property had been an empty string
            tgt[key] = ''
        if key == 'base':  # the default of base is string
            tgt['base'] = 'string'
        try:
            ref, w0 = load(md)
        except ValueError:
            # e.g. the column which isn't virtual anymore
            mon.count('reference-invalid')
            return
        if key == 'ordered':
            tgt[key] = False    # the default is made explicit
            ref, _ = load(md)
        tgt[key] = case['value']
        try:
            obj, w1 = load(md)
        except ValueError as e:
            mon.fail('invalid value of {} rejected'.format(prop), value=case['value'], error=str(e))
        if key == 'transformations':    # the value is kept, but not used for anything
            ref.transformations = obj.transformations = []
            for a, b in zip(ref.tables, obj.tables):
                a.transformations = b.transformations = []
        mon.check(obj == ref and view(obj) == view(ref), 'invalid value of {} is not ignored'.format(prop),
                  level=level, value=case['value'])
        mon.check(len(w1) > len(w0), 'no warning for the invalid value of {}'.format(prop), level=level,
                  value=case['value'])
        mon.event(prop, level, case['value'], w1[-1:])

    @staticmethod
    def entries(case, mon, work, md):
        what, v = case['what'], case['value']
        if what in ('tables', 'columns', 'foreignKeys'):
            mon.cover('ignored:list-entry')
            holder = md if what == 'tables' else target(md, 's', case['r'])
            ref, w0 = load(md)
            holder.setdefault(what, []).insert(case['at'], v)
            obj, w1 = load(md)
            mon.check(obj == ref and view(obj) == view(ref), 'invalid entry of {} is not ignored'.format(what), value=v)
            mon.check(len(w1) > len(w0), 'no warning for the invalid entry of {}'.format(what), value=v)
        elif what == 'langtag':
            mon.cover('langtag-warned')
            md['dc:x'] = {'@value': 'x'}
            ref, w0 = load(md)
            md['dc:x']['@language'] = 'not a tag'
            obj, w1 = load(md)
            mon.check(view(obj) == view(ref), 'invalid @language is not ignored')
            mon.check(len(w1) > len(w0), 'no warning for invalid @language')
        elif what == 'noname':
            # columns of primary keys must be named
            mon.cover('key-without-name')
            s = target(md, 's', case['r'])
            for x in ('primaryKey', 'foreignKeys', 'rowTitles'):
                s.pop(x, None)
            s['columns'] = [{'titles': 'T'}, {'name': 'n'}, {'titles': {'und': ['U', 'V']}}]
            ref, w0 = load(md)
            s['primaryKey'] = [['T'], 'T', ['n', 'T'], ['T', 'n']][case['at']]
            obj, w1 = load(md)
            mon.check(obj == ref and view(obj) == view(ref), 'primary key of columns without name is not ignored')
            mon.check(len(w1) > len(w0), 'no warning for primary key of columns without name')
            s['primaryKey'] = ['n']
            obj, w1 = load(md)
            mon.check(len(w1) == len(w0) and view(obj) != view(ref), 'valid primary key', warnings=w1)
        else:
            c = target(md, 'c', case['r'])
            c['titles'] = {'en': ['x', 'y']}
            c['name'] = 'cname'
            s = target(md, 's', case['r'])
            for x in ('primaryKey', 'foreignKeys', 'rowTitles'):
                s.pop(x, None)
            ref, w0 = load(md)
            c['titles']['en'].insert(case['at'], v if not isinstance(v, str) else 1)
            obj, w1 = load(md)
            mon.check(obj == ref and view(obj) == view(ref), 'invalid title is not ignored', value=v)
            mon.check(len(w1) > len(w0), 'no warning for the invalid title', value=v)
        mon.event(what, v)

    @staticmethod
    def noformat(case, mon, work, md):
        mon.cover('format-error')
        target(md, 'c', case['r'])['datatype'] = {'base': case['base'], 'format': case['format']}
        mon.raises(ValueError, lambda: load(md), 'invalid format accepted', base=case['base'], format=case['format'])
        mon.event('no format', case['base'], case['format'])

    @staticmethod
    def format(case, mon, work, md):
        base = case['base']
        mon.cover('format:' + base)
        c = target(md, 'c', case['r'])
        for x in ('default', 'null', 'separator'):
            c.pop(x, None)
        c['name'] = 'fmt_col'
        s = target(md, 's', case['r'])
        for x in ('primaryKey', 'foreignKeys', 'rowTitles'):
            s.pop(x, None)
        datatypes, ws = [], []
        for fmt in [{}, {'format': case['format']}]:
            c['datatype'] = dict(fmt, base=base)
            obj, w = load(md)
            ws.append(w)
            datatypes.append([col.datatype for t in obj.tables for col in t.tableSchema.columns if col.name == 'fmt_col'][0])
        mon.check(len(ws[1]) > len(ws[0]), 'no warning for invalid format', base=base, format=case['format'])

        def val(d, x):
            try:
                v = d.read(x)
            except ValueError:
                return 'ValueError'
            return repr(v), d.formatted(v)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for x in FORMATS[base][1]:
                a, b = [val(d, x) for d in datatypes]
                mon.eq(b, a, 'invalid format is not ignored', base=base, format=case['format'], text=x)
        mon.event('format', base, case['format'])

    @staticmethod
    def rejected(case, mon, work, md):
        level, prop, value = REJECTED[case['i']]
        mon.cover('rejected:' + prop)
        load(md)
        if level == 'c2':
            s = target(md, 's', case['r'])
            if prop == 'virtual':
                s['columns'] = [{'name': 'v', 'virtual': True}] + [c for c in s['columns'] if not c.get('virtual')]
            else:
                s['columns'] = [{'name': 'dup_col'}] + s['columns']
                s['columns'].insert(case['r'] % len([c for c in s['columns'] if not c.get('virtual')]), {'name': 'dup_col'})
        else:
            t = target(md, level, case['r'])
            t[prop] = value
        if prop == 'url':
            mon.cover('rejected:url')
        mon.raises(ValueError, lambda: load(md), 'invalid metadata accepted', level=level, prop=prop, value=value)
        mon.event(level, prop, value)

    @staticmethod
    def fuzz(case, mon, work, md):
        if len(case['at']) > 1:
            mon.cover('fuzz:multi')
        for p, v in zip(case['at'], case['values']):
            o = md
            try:
                for k in p[:-1]:
                    o = o[k]
                if case['remove']:
                    del o[p[-1]]
                else:
                    if p[-1] == 'dialect' and isinstance(v, str):
                        v = 1      # would be a reference to a file
                    if p[-1] in ('delimiter', 'quoteChar') and isinstance(v, str):
                        v = '#'
                    if isinstance(o, str):
                        continue
                    o[p[-1]] = v
            except (KeyError, IndexError, TypeError):
                continue
        try:
            tg, w = load(md)
        except ValueError as e:
            mon.cover('fuzz:rejected')
            mon.check(True, '')
            mon.event('rejected', case['at'], case['values'], e)
            return
        mon.cover('fuzz:ok', *(['fuzz:warned'] if w else []))
        for omit in [True, False]:
            ser = json.loads(json.dumps(tg.asdict(omit_defaults=omit)))
            again, _ = load(ser)
            mon.eq(g.canon(prune(json.loads(json.dumps(again.asdict(omit_defaults=omit))))), g.canon(prune(ser)),
                   'serialization of the accepted document is not stable')
        tg._fname = work / 'md.json'

        class Log:
            def warning(self, *a):
                mon.count('reported')
            error = warning

        for i, t in enumerate(tg.tables):
            if '\x00' in t.url.string or '\ud800' in t.url.string or t.url.string in ('', '.'):
                return
            cols = [c.header for c in t.tableSchema.columns]
            vals = ['', '1', 'x', 'a b', '2018-01-01', 'é', '5;6', 'true', '0.5', 'NA']
            rows = [cols] + [[vals[(case['r'] + i * 3 + r * 5 + c * 7) % len(vals)] for c in range(len(cols))]
                             for r in range(3)]
            if not csvw.metadata.is_url(t.url.string):
                p = work / t.url.string
                if p.parent == work:
                    p.write_text('\n'.join(','.join(r) for r in rows), encoding='utf8', errors='ignore')

        def use(what, f):
            try:
                f()
                mon.count('use:ok')
            except ValueError:
                mon.count('use:ValueError')
            except (OSError, csv.Error):    # data which isn't there
                mon.count('use:OSError')
            except Exception as e:
                mon.fail('{} raises {}'.format(what, type(e).__name__), error=repr(e))
            mon.checks += 1

        with requests_mock.Mocker() as m, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            m.register_uri(requests_mock.ANY, requests_mock.ANY, status_code=404, text='not found')
            for kw in [dict(strict=True), dict(log=Log()), dict(strict=False)]:
                for t in tg.tables:
                    use('iterdicts', lambda: list(t.iterdicts(**kw)))
            for t in tg.tables:
                use('check_primary_key', lambda: t.check_primary_key(log=Log()))
            use('check_referential_integrity', lambda: tg.check_referential_integrity(log=Log()))
            mon.cover('fuzz:reads')
        mon.event('used', case['at'], case['values'])
