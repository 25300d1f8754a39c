"""Conversion to JSON: rows which describe one object."""
import io
import json
import pathlib
import argparse
import warnings
import contextlib

import requests_mock

import csvw
from csvw.__main__ import csvw2json
from harness import g, mdgen
from harness.props import m04

RULE = ('Random groups of described (or undescribed) tables with typed, list-valued, null and invalid cells, URI '
        'templates at all levels, suppressed and virtual columns, notes, comments and row titles, stored locally or '
        'on the web, are converted in standard and minimal mode; the result must equal, value by value and type by '
        'type, the JSON computed from the rows by an independent model, and what csvw2json prints.')
CASES = {'quick': 16000, 'thorough': 128000}
REQUIRED = ['local', 'web', 'group', 'table', 'no-metadata', 'minimal', 'cli', 'comments', 'titles', 'titles-many',
            'notes', 'group-id', 'group-notes', 'about', 'property-qname', 'valueUrl', 'rdf-type', 'repeated-property', 'null-like', 'suppressed-column',
            'suppressed-table', 'virtual', 'virtual-suppressed', 'null', 'empty-list', 'list', 'list-null', 'invalid',
            'undescribed-column', 'multi-line', 'skipRows', 'noheader', 'table-id', 'common', 'inherited-datatype'
            ] + ['type:' + t for t in ['string', 'integer', 'decimal', 'boolean', 'date', 'dateTime', 'time',
                                       'duration', 'anyURI', 'hexBinary', 'base64Binary', 'float', 'json', 'gYear']]
# datatype -> [(text, canonical text, JSON)]
VALUES = {
    'integer': [('5', '5', 5), ('0', '0', 0), ('-12', '-12', -12), ('007', '7', 7), ('12345678901234567890',) * 2 + (12345678901234567890,)],
    'boolean': [('true', 'true', True), ('1', 'true', True), ('0', 'false', False), ('false', 'false', False)],
    'decimal': [('1.50', '1.50', 1.5), ('-3', '-3', -3.0), ('0', '0', 0.0), ('0.1', '0.1', .1)],
    'float': [('1e3', '1000.0', 1000.0), ('-0.5', '-0.5', -.5), ('INF', None, 'INF'), ('-INF', None, '-INF'), ('NaN', None, 'NaN')],
    'date': [('2018-12-10', '2018-12-10', '2018-12-10'), ('0999-01-02',) * 3, ('2020-02-29',) * 3,
             ('2018-12-10Z', None, '2018-12-10Z'), ('2018-12-10+02:00', None, '2018-12-10+02:00')],
    'time': [('10:05:07',) * 3, ('00:00:00',) * 3, ('10:05:07.5', None, '10:05:07.5'), ('10:05:07Z', None, '10:05:07Z'),
             ('10:05:07.25-03:00', None, '10:05:07.25-03:00'), ('23:59:00.001Z', None, '23:59:00.001Z')],
    'dateTime': [('2018-12-10T10:05:07',) * 3, ('2018-12-10T10:05:07.5Z', None, '2018-12-10T10:05:07.5Z'),
                 ('2018-12-10T10:05:07+01:00', None, '2018-12-10T10:05:07+01:00'),
                 ('2018-12-10T10:00:00Z', None, '2018-12-10T10:00:00Z'),
                 ('2018-12-10T10:05:10.100-00:30', None, '2018-12-10T10:05:10.1-00:30')],
    'duration': [('P1DT2H',) * 3, ('P3Y',) * 3],
    'anyURI': [('http://x.org/a?b',) * 3, ('a/b',) * 3],
    'hexBinary': [('00FF',) * 3],
    'base64Binary': [('YWI=',) * 3],
    'json': [('{"a": 1}', '{"a": 1}', {'a': 1}), ('true', None, True), ('1.5', None, 1.5)],
    'gYear': [('2018',) * 3, ('-0044',) * 3],
    'string': [('x',) * 3, ('a b',) * 3, ('é',) * 3, ('1',) * 3, ('x\ny',) * 3, ('"q"',) * 3, ('http://x.org/y',) * 3],
}
INVALID = {'integer': 'x1', 'boolean': 'maybe', 'decimal': '1,5', 'date': '2018-13-01', 'dateTime': 'now', 'gYear': 'x',
           'hexBinary': 'g', 'duration': 'one day', 'json': '{', 'time': '25:00', 'float': 'one'}
PROPS = ['schema:name', 'dc:title', 'http://schema.org/url', 'http://example.org/p', 'rdf:type', 'foaf:{_name}',
         'http://example.org/{_name}', '#{_name}', 'rel', 'http://www.w3.org/1999/02/22-rdf-syntax-ns#type']
ABOUT = ['http://example.org/{c0}', '#r{_row}', 'http://example.org/{_row}/{+c0}', 'x/{c0}', 'schema:{c0}']
VAL = ['http://example.org/v/{c0}', 'schema:Thing', '#{_name}', 'http://schema.org/{c0}', 'v{_row}', '{+c1}']


def gen(rng):
    n = g.pick(rng, [1, 1, 2, 3], 7) or 1
    return dict(tables=[table(rng) for _ in range(n)], web=rng.random() < .3, single=n == 1 and rng.random() < .5,
                common=mdgen.common(rng, .4), inherited=rng.choice([{}, {}, {'propertyUrl': 'http://example.org/{_name}'}]),
                group=dict(**({'@id': 'http://example.org/' + g.ident(rng)} if rng.random() < .15 else {}),
                           **({'notes': [mdgen.common_value(rng) for _ in range(rng.randint(1, 2))]}
                              if rng.random() < .2 else {})),
                cli=rng.random() < .15)


def values(dt, i):
    """The first two columns are used in templates, thus need a known canonical text."""
    return [v for v in VALUES[dt] if i > 1 or v[1] is not None]


def table(rng):
    if rng.random() < .1:
        cols = g.idents(rng, g.size(rng, 1, 4, 25))
        return dict(kind='plain', header=cols, rows=[[(rng.choice(VALUES['string'][:5]) + ('string',))[0] for _ in cols]
                                                     for _ in range(g.size(rng, 0, 4, 60))])
    cols = []
    for i in range(g.size(rng, 1, 5, 15)):
        c = {'name': 'c%d' % i}
        if rng.random() < .6:
            c['datatype'] = rng.choice(sorted(VALUES))
            if rng.random() < .2:
                c['datatype'] = {'base': c['datatype']}
        if rng.random() < .25:
            c['separator'] = rng.choice(['|', ';'])
        if rng.random() < .35:
            c['propertyUrl'] = rng.choice(PROPS)
        if rng.random() < .2:
            c['valueUrl'] = rng.choice(VAL)
        if rng.random() < .15:
            c['suppressOutput'] = True
        if rng.random() < .2:
            c['null'] = rng.choice([['NA'], ['', 'NA'], ['-']])
            if rng.random() < .5:  # other values with the same canonical text are no nulls
                c['null'] = rng.choice([['7', '0.0'], ['True', 'true'], ['-3.0', '1.5'], ['1000.0'], ['False'], ['', '7']])
        cols.append(c)
    s = {'columns': cols}
    if rng.random() < .4:
        s['aboutUrl'] = rng.choice(ABOUT)
    if rng.random() < .1:
        s['propertyUrl'] = rng.choice(['http://example.org/s/{_name}', 'schema:{_name}'])
    if rng.random() < .1:
        s['datatype'] = rng.choice(['integer', 'date', 'time'])
    if rng.random() < .08:
        s['separator'] = '|'
    if rng.random() < .3:
        s['rowTitles'] = rng.sample([c['name'] for c in cols], rng.randint(1, min(g.size(rng, 2, 2, 6), len(cols))))
    if 'separator' in s or any('separator' in c for c in cols[1:2]):
        for c in cols:  # Python's urljoin merges the // of the second and later URLs of a list
            if c.get('valueUrl') == '{+c1}':
                c['valueUrl'] = '{c1}'
    extra = rng.random() < .15
    virt = []
    if rng.random() < .2:
        virt = [{'name': 'virt%d' % i, 'virtual': True, 'propertyUrl': rng.choice(['rdf:type', 'schema:x', 'http://e.org/y']),
                 'valueUrl': rng.choice(VAL[:4])} for i in range(g.size(rng, 1, 2, 8))]
        if rng.random() < .3:
            virt[0]['suppressOutput'] = True
    t = {'tableSchema': dict(s, columns=cols + virt)}
    t.update(mdgen.common(rng, .25))
    if rng.random() < .2:
        t['notes'] = [mdgen.common_value(rng) for _ in range(g.size(rng, 1, 2, 15))]
    if rng.random() < .15:
        t['@id'] = 'http://example.org/' + g.ident(rng)
    if rng.random() < .1:
        t['suppressOutput'] = True
    d = {}
    if rng.random() < .25:
        d['commentPrefix'] = '#'
    if rng.random() < .15:
        d['skipRows'] = g.size(rng, 1, 2, 15)
    if rng.random() < .1 and not extra:
        d['header'] = False
    if d:
        t['dialect'] = d
    rows = []
    for _ in range(g.size(rng, 0, 4, 75)):
        row = []
        for i, c in enumerate(cols):
            dt = c.get('datatype') or s.get('datatype') or 'string'
            dt = dt['base'] if isinstance(dt, dict) else dt
            sep = c.get('separator') or s.get('separator')
            k = rng.random()
            if k < .12:
                row.append(None)
            elif sep:
                vs = [list(rng.choice(values(dt, i))) for _ in range(g.size(rng, 0, 3, 25))]
                vs = [v for v in vs if sep not in v[0]]
                if rng.random() < .2:
                    vs.append(None)
                row.append(vs)
            elif k < .2 and dt in INVALID:
                row.append([INVALID[dt], INVALID[dt], INVALID[dt]])
            else:
                row.append(list(rng.choice(values(dt, i))))
        rows.append(row + (['extra'] if extra else []))
    return dict(kind='described', md=t, cols=cols, virt=virt, rows=rows, extra=extra,
                comments=[rng.random() < .3 for _ in rows])


def ld(obj, flatten=False):
    """JSON-LD to JSON."""
    if isinstance(obj, dict):
        if '@value' in obj:
            return obj['@value']
        if list(obj) == ['@id']:
            return obj['@id']
        return {'@type' if k == 'rdf:type' else k: ld(v, flatten) for k, v in obj.items()}
    if isinstance(obj, list):
        return ld(obj[0], flatten) if flatten and len(obj) == 1 else [ld(v, flatten) for v in obj]
    return obj


def q(s):
    return '"' + s.replace('"', '""') + '"' if any(c in s for c in ',"\r\n') else s


def run(case, mon, work):
    web = case['web']
    mon.cover('web' if web else 'local')
    base = 'http://example.org/d/' if web else str(work) + '/'
    files, tables_md, want_tables = {}, [], []
    for i, t in enumerate(case['tables']):
        url = 't%d.csv' % i
        md, text, want = (plain if t['kind'] == 'plain' else described)(t, base + url, mon, case)
        files[url] = text
        tables_md.append(dict(md, url=url))
        if want is not None:
            want_tables.append(want)
    nomd = case['single'] and case['tables'][0]['kind'] == 'plain'
    want = {'tables': want_tables}
    if nomd:
        mon.cover('no-metadata')
        target = 't0.csv'
    else:
        target = 'md.json'
        if case['single']:
            mon.cover('table')
            md = dict(tables_md[0])
        else:
            mon.cover('group')
            own = case['group']
            md = dict(case['common'], tables=tables_md, **case['inherited'], **own)
            want = dict(ld(case['common'], True), **want)
            if '@id' in own:
                mon.cover('group-id')
                want['@id'] = own['@id']
            if 'notes' in own:
                mon.cover('group-notes')
                want['notes'] = ld(own['notes'])
        files['md.json'] = json.dumps(dict(md, **{'@context': 'http://www.w3.org/ns/csvw'}))
    with requests_mock.Mocker() as m, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if web:
            m.register_uri(requests_mock.ANY, requests_mock.ANY, status_code=404, text='not found')
            for n, text in files.items():
                m.get(base + n, content=text.encode('utf8'))
                m.head(base + n, content=text.encode('utf8'))
            target = base + target
        else:
            for n, text in files.items():
                (work / n).write_text(text, encoding='utf8', newline='')
            target = work / target if len(files) % 2 else str(work / target)
        obj = csvw.CSVW(target)
        got = obj.to_json()
        plainjson(mon, got)
        mon.eq(g.canon(json.loads(json.dumps(got))), g.canon(json.loads(json.dumps(want))), 'JSON differs', md=files.get('md.json'))
        mini = obj.to_json(minimal=True)
        mon.cover('minimal')
        plainjson(mon, mini)
        mon.eq(g.canon(json.loads(json.dumps(mini))),
               g.canon([d for t in json.loads(json.dumps(want))['tables'] for r in t['row'] for d in r['describes']]),
               'minimal JSON differs', md=files.get('md.json'))
        again = obj.to_json()
        mon.eq(g.canon(json.loads(json.dumps(again))), g.canon(json.loads(json.dumps(got))), 'second conversion differs')
        if case['cli']:
            mon.cover('cli')
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                rc = csvw2json(argparse.Namespace(url=str(target)), test=True)
            mon.eq(rc, 0, 'exit code')
            mon.eq(json.loads(out.getvalue()), json.loads(json.dumps(got)), 'output of csvw2json differs')
    mon.count('rows', sum(len(t['row']) for t in want_tables))
    mon.event(len(want_tables), 'tables', [len(t['row']) for t in want_tables])


def plainjson(mon, o):
    if isinstance(o, dict):
        for k, v in o.items():
            mon.check(type(k) is str, 'key is no string', key=k)
            plainjson(mon, v)
    elif isinstance(o, list):
        for v in o:
            plainjson(mon, v)
    else:
        mon.check(o is None or type(o) in (str, int, float, bool), 'value is not JSON', v=o, type=type(o))


def plain(t, url, mon, case):
    lines = [t['header']] + t['rows']
    want = {'url': url, 'row': []}
    line = 1
    nomd = case['single']
    inh = {} if case['single'] else case['inherited']
    for n, r in enumerate(t['rows'], start=1):
        line += 1 + sum(c.count('\n') for c in r)
        desc = {}
        for i, (h, v) in enumerate(zip(t['header'], r), start=1):
            k = h if nomd else '_col.%d' % i
            if inh:
                k = 'http://example.org/'    # {_name} is undefined
            add(desc, '@type' if k == 'rdf:type' else k, v)
        want['row'].append({'url': '%s#row=%d' % (url, line), 'rownum': n, 'describes': [desc]})
    return {}, '\n'.join(','.join(q(c) for c in r) for r in lines) + '\n', want


def add(desc, k, v):
    if k in desc:
        if not isinstance(desc[k], list):
            desc[k] = [desc[k]]
        desc[k] = desc[k] + (v if isinstance(v, list) else [v])
    else:
        desc[k] = v


def expand(tmpl, env, url, compact):
    e = m04.rfc6570(tmpl, env)
    p = tmpl.split(':')[0]
    if ':' in tmpl and p in m04.PREFIXES:
        e = m04.PREFIXES[p] + e[len(p) + 1:]
    elif not e.startswith(('http://', 'https://')):
        if url.startswith('http'):
            e = m04.rfc3986(url, e)
        else:
            e = url + e if e[:1] in ('', '#', '?') else str(pathlib.Path(url).parent / e)
    if compact:
        for p, u in m04.PREFIXES.items():
            if e.startswith(u):
                return p + ':' + e[len(u):]
    return e


def described(t, url, mon, case):
    md, cols, rows = t['md'], t['cols'], t['rows']
    s = md['tableSchema']
    d = md.get('dialect', {})
    text = 'skip\n' * d.get('skipRows', 0)
    line = d.get('skipRows', 0)
    comments = ['skip'] * line
    und_name = '_col.%d' % (len(cols) + 1)
    if line:
        mon.cover('skipRows')
    if d.get('header', True):
        text += ','.join([c['name'] for c in cols] + (['undescribed'] if t['extra'] else [])) + '\n'

        line += 1
    else:
        mon.cover('noheader')
    group = {} if case['single'] else case['inherited']

    def eff(c, k):
        for h in (c, s, md, group):
            if k in h:
                if k == 'datatype' and h is not c:
                    mon.cover('inherited-datatype')
                return h[k]
    out = []
    for n, (row, comment) in enumerate(zip(rows, t['comments']), start=1):
        if comment and d.get('commentPrefix'):
            text += '# c %d\n' % n
            line += 1
            comments.append('c %d' % n)
            mon.cover('comments')
        env, js, raw = {'_row': str(n)}, {}, []
        for c, v in zip(cols, row):
            null = c.get('null', [''])
            sep = eff(c, 'separator')
            dt = eff(c, 'datatype') or 'string'
            dt = dt['base'] if isinstance(dt, dict) else dt
            name = c['name']

            if v is None:
                raw.append(null[0])
                env[name] = js[name] = [] if sep and null[0] == '' else None
            elif sep:
                # the null marker must not be misread, and empty elements are null or empty
                cell = sep.join(null[0] if x is None else x[0] for x in v)
                raw.append(cell)
                parts = cell.split(sep) if cell else []
                if cell in null and cell:
                    env[name] = js[name] = None
                else:
                    if len(parts) != len(v):
                        assert not parts
                        v = []
                    vs = [None if p in null else x for p, x in zip(parts, v)]
                    js[name] = [x and x[2] for x in vs]
                    env[name] = [x[1] for x in vs if x is not None]
                    for x in vs:
                        mon.cover('type:' + dt if x else 'list-null')
            else:
                raw.append(v[0])
                env[name], js[name] = v[1], v[2]
                if v[0] in null:
                    env[name] = js[name] = None
                elif str(v[2]) in null or v[1] in null:
                    mon.cover('null-like')
                mon.cover('invalid' if v[0] == INVALID.get(dt) else 'type:' + dt)
                if '\n' in v[0]:
                    mon.cover('multi-line')
        if t['extra']:
            raw.append(row[-1])
            env[und_name] = js[und_name] = row[-1]
        cells = ','.join(q(c) for c in raw)
        if cells == '':
            cells = '""'
        text += cells + '\n'
        line += 1 + cells.count('\n')

        desc = {}
        if eff({}, 'aboutUrl'):
            mon.cover('about')
            desc['@id'] = expand(eff({}, 'aboutUrl'), env, url, False)
        for c in cols + ([{'name': und_name, 'x': 1}] if t['extra'] else []):
            name, v = c['name'], js[c['name']]
            und = 'x' in c
            if c.get('suppressOutput'):
                mon.cover('suppressed-column')
                continue
            if v is None or v == '' or v == []:
                mon.cover('empty-list' if v == [] else 'null')
                continue
            e = dict(env, _name=None if und else name)
            pu = (md.get('propertyUrl') or group.get('propertyUrl')) if und else eff(c, 'propertyUrl')
            k = expand(pu, e, url, True) if pu else name
            if ':' in k and not k.startswith('http'):
                mon.cover('property-qname')
            vu = None if und else eff(c, 'valueUrl')
            if vu:
                mon.cover('valueUrl')
                if k == 'rdf:type':
                    mon.cover('rdf-type')
                v = expand(vu, e, url, k == 'rdf:type')
            if isinstance(v, list):
                mon.cover('list')
            if und:
                mon.cover('undescribed-column')
            if k in desc:
                mon.cover('repeated-property')
            add(desc, '@type' if k == 'rdf:type' else k, v)
        for c in t['virt']:
            if c.get('suppressOutput'):
                mon.cover('virtual-suppressed')
                continue
            mon.cover('virtual')
            e = dict(env, _name=c['name'])
            k = expand(c['propertyUrl'], e, url, True)
            add(desc, '@type' if k == 'rdf:type' else k, expand(c['valueUrl'], e, url, k == 'rdf:type'))
        r = {'url': '%s#row=%d' % (url, line), 'rownum': n, 'describes': [desc]}
        if s.get('rowTitles'):
            titles = [js[x] for x in s['rowTitles'] if js[x] not in (None, '', []) or js[x] is False]
            mon.cover('titles' if len(titles) == 1 else 'titles-many')
            r['titles'] = titles[0] if len(titles) == 1 else titles
        out.append(r)
    if md.get('suppressOutput'):
        mon.cover('suppressed-table')
        return md, text, None
    want = {'url': url, 'row': out}
    if '@id' in md:
        mon.cover('table-id')
        want['@id'] = md['@id']
    if 'notes' in md:
        mon.cover('notes')
        want['notes'] = ld(md['notes'])
    common = {k: v for k, v in md.items() if ':' in k}
    if common:
        mon.cover('common')
    want.update(ld(common))
    if comments:
        want['rdfs:comment'] = comments
    return md, text, want
