"""Generator of valid metadata documents (as JSON objects)."""
from harness import g, vals

LANGS = ['und', 'en', 'de', 'en-US', 'zh-Hant', 'fr', 'mul']
TMPL = ['http://example.org/{a}', 'http://example.org/x{#_row}', '{+a}', '/p{?a,b}', '#{_name}', 'schema:name',
        'http://example.org/{a}/{b}', 'dc:title', 'x']
FORMATS = {
    'integer': ['0', '#,##0', '00', '#0', '0%', '#,##,##0', '+0;-0'],
    'decimal': ['0.00', '0.0%', '0.00;-0.00', {'pattern': '#,##0.0;-#,##0.0', 'decimalChar': ',', 'groupChar': ' '}, '#,##0.##', '#0.0#', {'decimalChar': ',', 'groupChar': '.'},
               {'pattern': '#,##0.0', 'groupChar': ' '}],
    'float': [{'decimalChar': ','}, '0.###E0', {'pattern': '#0.0#E#0', 'decimalChar': ','}, '0.0##;-0.0##'], 'string': ['[a-z]+', 'a|b|c', '.*', r'\d{2}\s?'],
    'boolean': ['Y|N', 'ja|nein'], 'date': ['dd.MM.yyyy', 'yyyy-MM-dd', 'M/d/yyyy'],
    'dateTime': ['yyyy-MM-ddTHH:mm:ss', "yyyy-MM-dd HH:mm"], 'time': ['HH:mm', 'HHmmss'],
    'duration': ['P.*'], 'json': ['{"type": "object"}']}


def common(rng, p=.35):
    res = {}
    while rng.random() < p:
        k = rng.choice(['dc:title', 'dc:description', 'schema:url', 'http://example.org/p', 'dc:creator',
                        'rdfs:label', 'skos:note', 'dc:license', 'special:x'])
        res[k] = common_value(rng)
    return res


def common_value(rng, d=2):
    k = rng.random()
    if k < .4 or not d:
        return rng.choice([g.text(rng, 3, .2), 1, 2.5, True, False, 'http://example.org/x', 0])
    if k < .5:
        return {'@value': g.text(rng, 2, .2), '@language': rng.choice(LANGS[1:])}
    if k < .55:
        return {'@value': rng.choice(['1', 'x']), '@type': rng.choice(['xsd:integer', 'http://example.org/T'])}
    if k < .65:
        return {'@id': 'http://example.org/' + g.ident(rng)}
    if k < .85:
        return {('dc:' + g.ident(rng)): common_value(rng, d - 1) for _ in range(rng.randint(1, 2))}
    return [common_value(rng, d - 1) for _ in range(g.size(rng, 1, 3, 12))]


def natural(rng):
    t = lambda: g.text(rng, 3, .2) or 'T'  # noqa
    return rng.choice([
        t, t, lambda: [t(), t()], lambda: {rng.choice(LANGS): t()},
        lambda: {'en': [t(), t()], 'de': t()}, lambda: [t() + str(i) for i in range(g.size(rng, 3, 3, 12))]])()


def datatype(rng):
    base = rng.choice(vals.ALL)
    k = rng.random()
    if k < .5:
        return base
    d = {'base': base}
    if rng.random() < .5 and base in FORMATS:
        d['format'] = rng.choice(FORMATS[base])
    if rng.random() < .3:
        d.update(common(rng, .4))
        d['@id'] = 'http://example.org/dt'
    if 'format' not in d or base in ('string',):
        if base in vals.STRINGS[:3] and rng.random() < .5:
            d[rng.choice(['length', 'minLength', 'maxLength'])] = rng.randint(0, 9)
        elif (base in vals.INT_RANGES) and rng.random() < .6:
            lo = 1 if base in ('positiveInteger',) else -9 if 'egative' in base and 'non' not in base else 0
            lo = {'nonPositiveInteger': -9}.get(base, lo)
            d[rng.choice(['minimum', 'minInclusive', 'minExclusive'])] = rng.choice([lo, str(lo)])
            if rng.random() < .5:
                d[rng.choice(['maximum', 'maxInclusive', 'maxExclusive'])] = rng.choice([-1, '-1']) if lo < 0 \
                    else rng.choice([5, '7', 100])
        elif base in ('decimal', 'float', 'number', 'double') and rng.random() < .6:
            d[rng.choice(['minimum', 'minInclusive', 'minExclusive'])] = rng.choice(['0', '-1.5', 0, -2.5, '1000000'])
        elif base == 'date' and rng.random() < .6:
            d['maximum'] = '2018-12-31'
        elif base == 'dateTime' and rng.random() < .6:
            d['minimum'] = '2018-12-31T10:00:00'
    return d


def inherited(rng, p=.15, exclude=()):
    res = {}
    for k, f in {
        'aboutUrl': lambda: rng.choice(TMPL), 'datatype': lambda: datatype(rng),
        'default': lambda: rng.choice(['x', '0', 'é']), 'lang': lambda: rng.choice(LANGS[1:]),
        'null': lambda: rng.choice([['NA'], 'NA', ['', 'NA'], [], ['-', 'n/a'], ['n%d' % i for i in range(g.size(rng, 3, 3, 15))]]),
        'ordered': lambda: rng.random() < .5, 'propertyUrl': lambda: rng.choice(TMPL),
        'required': lambda: rng.random() < .5, 'separator': lambda: rng.choice([';', '|', ' ', '\t']),
        'textDirection': lambda: rng.choice(['ltr', 'rtl', 'auto', 'inherit']),
        'valueUrl': lambda: rng.choice(TMPL),
    }.items():
        if rng.random() < p and k not in exclude:
            res[k] = f()
    return res


def column(rng, name):
    c = {}
    if rng.random() < .85:
        c['name'] = name
    if 'name' not in c or rng.random() < .3:
        c['titles'] = natural(rng) if 'name' in c else name + ' T'
    c.update(inherited(rng))
    c.update(common(rng, .2))
    if rng.random() < .1:
        c['suppressOutput'] = rng.random() < .7
    return c


def dialect(rng):
    d = {}
    for k, f in {
        'delimiter': lambda: rng.choice([',', ';', '\t', '|']), 'quoteChar': lambda: rng.choice(['"', "'", None]),
        'encoding': lambda: rng.choice(['utf-8', 'utf-16', 'latin-1', 'UTF-8-BOM']),
        'lineTerminators': lambda: rng.choice([['\n'], ['\r\n'], ['\r\n', '\n']]),
        'commentPrefix': lambda: rng.choice(['#', '//', None]), 'header': lambda: rng.random() < .5,
        'skipRows': lambda: rng.randint(0, 3), 'skipColumns': lambda: rng.randint(0, 2),
        'skipBlankRows': lambda: rng.random() < .5, 'skipInitialSpace': lambda: rng.random() < .5,
        'trim': lambda: rng.choice(['true', 'false', 'start', 'end', True, False]),
        'doubleQuote': lambda: rng.random() < .5,
    }.items():
        if rng.random() < .25:
            d[k] = f()
    return d


def schema(rng, url, others):
    names = g.idents(rng, g.size(rng, 0, 4, 25))
    s = {'columns': [column(rng, n) for n in names]}
    named = [c['name'] for c in s['columns'] if 'name' in c]
    if rng.random() < .2:
        s['columns'].append({'name': 'virtcol', 'virtual': True, 'valueUrl': rng.choice(TMPL)})
    if named and rng.random() < .4:
        pk = rng.sample(named, rng.randint(1, min(g.size(rng, 2, 2, 9), len(named))))
        s['primaryKey'] = pk[0] if len(pk) == 1 and rng.random() < .5 else pk
    if named and rng.random() < .4:
        s['foreignKeys'] = []
        for _ in range(g.size(rng, 1, 2, 12)):
            ref = {'columnReference': rng.choice(['id', ['id']])}
            ref['resource' if rng.random() < .85 else 'schemaReference'] = rng.choice(others + [url])
            s['foreignKeys'].append({'columnReference': rng.choice([named[0], [named[0]]]), 'reference': ref})
    if named and rng.random() < .2:
        s['rowTitles'] = rng.choice([named[0], named[:2]])
    s.update(inherited(rng, .06))
    s.update(common(rng, .12))
    if rng.random() < .1:
        s['@id'] = 'http://example.org/schema'
    return s


def table(rng, url, others=()):
    t = {'url': url}
    if rng.random() < .95:
        t['tableSchema'] = schema(rng, url, list(others))
    t.update(inherited(rng, .06))
    t.update(common(rng, .25))
    tablelike(rng, t)
    if rng.random() < .1:
        t['suppressOutput'] = rng.random() < .7
    return t


def tablelike(rng, t):
    if rng.random() < .25:
        t['dialect'] = dialect(rng)
    if rng.random() < .15:
        t['notes'] = [common_value(rng) for _ in range(g.size(rng, 1, 2, 15))]
    if rng.random() < .15:
        t['tableDirection'] = rng.choice(['ltr', 'rtl', 'auto'])
    if rng.random() < .1:
        t['transformations'] = [{'url': 'http://example.org/t', 'targetFormat': 'http://example.org/f',
                                 'scriptFormat': 'http://example.org/s', 'titles': 'x'}]
    if rng.random() < .15:
        t['@id'] = 'http://example.org/' + g.ident(rng)
    if rng.random() < .15:
        t['@type'] = 'TableGroup' if 'tables' in t else 'Table'


def group(rng):
    urls = [rng.choice(['t{}.csv', 't{}.csv', 'T{}.CSV', 'Größe-{}.csv', 'my_T.{}.tsv', '{}x Y.csv']).format(i)
            for i in range(g.size(rng, 1, 3, 15))]
    d = {'@context': rng.choice(['http://www.w3.org/ns/csvw',
                                 ['http://www.w3.org/ns/csvw', {'@language': 'en'}],
                                 ['http://www.w3.org/ns/csvw', {'@base': 'sub/'}]]),
         'tables': [table(rng, u, urls) for u in urls]}
    d.update(inherited(rng, .06))
    d.update(common(rng))
    if rng.random() < .1:
        d['tableSchema'] = schema(rng, urls[0], urls)
    tablelike(rng, d)
    return d
