"""Locating metadata for CSV data."""
import json
import warnings

import requests_mock

import csvw

from harness import g

RULE = ('Random web sites (link headers, site-wide configuration, default locations - each absent, matching, describing '
        'other data, no JSON or odd JSON - header parameter, overriding metadata, references to schema and dialect '
        'documents in other directories) and directories are given to CSVW; the recorded requests, the rows and '
        'the warnings must be those of the first matching description in the specified order.')
CASES = {'quick': 20000, 'thorough': 160000}
KINDS = ['absent', 'absent', 'ok', 'ok', 'group', 'other', 'invalid', 'list', 'odd', 'no-url']
REQUIRED = ['source:link', 'source:wk', 'source:default', 'source:default2', 'source:none', 'source:override',
            'source:local', 'source:local-none', 'source:local-override', 'skipped:other', 'skipped:invalid', 'skipped:list',
            'skipped:odd', 'skipped:no-url', 'link-type', 'link-no-type', 'link-rel', 'link-missing', 'header-absent', 'other-dir',
            'schema-reference', 'dialect-reference', 'group', 'crlf', 'warned', 'not-warned', 'query', 'override-invalid', 'padded']
ROOT = 'http://example.org'


def gen(rng):
    csvdir = rng.choice(['/', '/a/', '/a/b/'])
    name = rng.choice(['t.csv', 'data.csv', 't x.csv'.replace(' ', '%20'), 't.txt', 't.csv?v=1'])
    dirs = rng.choice(['same', 'other'])
    case = dict(dir=csvdir, name=name, web=rng.random() < .8,
                override=rng.choice([None] * 6 + ['ok', 'group', 'invalid', 'list']),
                kinds={k: rng.choice(KINDS) for k in ['link', 'w0', 'w1', 'default', 'default2']},
                link=rng.choice(['none', 'none', 'ok', 'ok', 'ok', 'type', 'no-type', 'rel']),
                linktype=rng.choice(["application/csvm+json", "application/ld+json", "application/json"]),
                linkloc=rng.choice(['l.json', './l.json', '../meta/l.json', '/meta/l.json', ROOT + '/x/l.json']),
                wk=None, wkeol=rng.choice(['\n', '\n', '\r\n']), wkend=rng.random() < .5,
                absent=rng.random() < .15, rows=[[str(rng.randint(0, 99)), rng.choice(['x', 'é', 'a b'])] for _ in range(g.size(rng, 0, 3, 100))],
                ct='text/csv' + rng.choice(['; header=absent', ';header=absent', '; header = absent', '; charset=utf-8; header=absent',
                                            ';header=absent;charset=utf-8', '; header= absent']),
                refs=rng.choice([[], [], ['tableSchema'], ['dialect'], ['tableSchema', 'dialect']]),
                relurl=rng.random() < .6, dirs=dirs, validate=rng.random() < .7)
    if rng.random() < .4:
        case['wk'] = rng.sample(['{+url}-wk.json', 'wk.json', '../m/wk.json', '/site.json', '/q{?url}', '/{+url}.json'], 2)
        pad = rng.choice([None, None, ' ', '\t', '  '])
        case['wkpad'] = pad and [(rng.choice(['', pad]), rng.choice(['', pad]), rng.choice(['', '\n', pad + '\n'])) for _ in case['wk']]
    return case


def relpath(target, frm):
    """Relative URL path of target as seen from the document at path frm."""
    a, b = target.split('/')[1:], frm.split('/')[1:-1]
    n = 0
    while n < len(b) and n < len(a) - 1 and a[n] == b[n]:
        n += 1
    return '../' * (len(b) - n) + '/'.join(a[n:])


def description(kind, key, path, case, files):
    """The document at path."""
    target = case['dir'] + case['name']
    url = relpath(target, path.split('?')[0]) if case['relurl'] else ROOT + target
    dialect = {'delimiter': ';'}
    schema = {'columns': [{'name': 'n_' + key, 'datatype': 'integer'}, {'name': 's_' + key}]}
    t = {'url': url, 'tableSchema': schema, 'dialect': dialect, 'dc:source': key}
    for p in case['refs']:
        ref = 'ref_%s_%s.json' % (key, p)
        files[path.split('?')[0].rsplit('/', 1)[0] + '/' + ref] = json.dumps(t[p])
        t[p] = ref
    if case['absent']:
        t.pop('dialect')
    ctx = {'@context': 'http://www.w3.org/ns/csvw'}
    if kind == 'ok' or case['absent'] and kind == 'group':
        return json.dumps(dict(ctx, **t))
    if kind == 'group':
        other = {'url': 'zzz.csv', 'tableSchema': {'columns': [{'name': 'q'}]}}
        return json.dumps(dict(ctx, tables=[other, t] if len(key) % 2 else [t]))
    return {'other': json.dumps(dict(ctx, **dict(t, url='other-' + key + '.csv'))), 'invalid': '{"@context": ', 'list': json.dumps([t]),
            'odd': json.dumps(dict(ctx, tables=5)), 'no-url': json.dumps(dict(ctx, tables=[{}, 5, {'url': 7}]))}[kind]


def run(case, mon, work):
    (web if case['web'] else local)(case, mon, work)


def text(case, described):
    d = ';' if described and not case['absent'] else ','
    head = [] if case['absent'] else ['head1' + d + 'head2']
    return ''.join(line + '\n' for line in head + [d.join(r) for r in case['rows']])


def result(case, mon, obj, key):
    """Compare with what the description prescribes."""
    t = [x for x in obj.tables if 'zzz' not in str(x.url)][0]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = [dict(r) for r in t.iterdicts(strict=False)]
    if key is None:
        names = ['_col.1', '_col.2'] if case['absent'] else ['head1', 'head2']
        want = [dict(zip(names, r)) for r in case['rows']]
    else:
        want = [{'n_' + key: int(r[0]), 's_' + key: r[1]} for r in case['rows']]
        mon.eq(t.common_props.get('dc:source'), key, 'description used')
    mon.eq(got, want, 'rows differ', key=key)
    mon.count('rows', len(want))


def web(case, mon, work):
    path = case['dir'] + case['name']
    url = ROOT + path
    docs, files = [], {}     # locations in order
    headers = {}
    if '?' in path:
        mon.cover('query')

    def resolve(loc, base=path):
        loc = loc.replace(ROOT, '', 1) if loc.startswith(ROOT) else loc
        if not loc.startswith('/'):
            loc = base.split('?')[0].rsplit('/', 1)[0] + '/' + loc
        parts = []
        for p in loc.split('/')[1:]:
            if p == '..':
                parts = parts[:-1]
            elif p != '.':
                parts.append(p)
        return '/' + '/'.join(parts)
    if case['link'] != 'none':
        rel = 'describedby' if case['link'] != 'rel' else 'next'
        type_ = '; type="%s"' % ('text/html' if case['link'] == 'type' else case['linktype'])
        headers['Link'] = '<%s>; rel="%s"%s' % (case['linkloc'], rel, '' if case['link'] == 'no-type' else type_)
        if case['link'] == 'ok':
            docs.append(('link', resolve(case['linkloc']), case['kinds']['link']))
            if case['kinds']['link'] == 'absent':
                mon.cover('link-missing')
        else:
            mon.cover('link-' + case['link'])
            files[resolve(case['linkloc'])] = description('ok', 'bogus', resolve(case['linkloc']), case, files)
    if case['wk'] is not None:
        lines = case['wk']
        if case['wkpad']:  # blanks around the templates and blank lines
            mon.cover('padded')
            lines = [c.replace('\n', case['wkeol']) + a + line + b for line, (a, b, c) in zip(lines, case['wkpad'])]
        files['/.well-known/csvm'] = case['wkeol'].join(lines) + (case['wkeol'] if case['wkend'] else '')
        if case['wkeol'] != '\n':
            mon.cover('crlf')
        quoted = url.replace(':', '%3A').replace('/', '%2F').replace('?', '%3F').replace('=', '%3D').replace('%20', '%2520')
        for i, tmpl in enumerate(case['wk']):
            loc = tmpl.replace('{+url}', url).replace('{?url}', '?url=' + quoted)
            if '{+url}' in tmpl and tmpl[0] == '/':
                loc = '/' + url + '.json'
                docs.append(('w%d' % i, loc, 'absent'))    # the path contains '//'
                continue
            docs.append(('w%d' % i, resolve(loc), case['kinds']['w%d' % i]))
        # never asked for
        for loc in [path + '-metadata.json', case['dir'] + 'csv-metadata.json']:
            files[loc] = description('ok', 'bogus', loc, case, files)
    else:
        docs.append(('default', path + '-metadata.json', case['kinds']['default']))
        docs.append(('default2', case['dir'] + 'csv-metadata.json', case['kinds']['default2']))
    found, ignored, asked = None, [], []
    for key, loc, kind in docs:
        if kind != 'absent':
            files[loc] = description(kind, key, loc, case, files)
        asked.append(loc)
        if kind in ('ok', 'group'):
            found = key
            if loc.rsplit('/', 1)[0] + '/' != case['dir']:
                mon.cover('other-dir')
            if kind == 'group':
                mon.cover('group')
            break
        if kind in ('other', 'list', 'odd', 'no-url') or (key == 'link' and kind in ('absent', 'invalid')):
            ignored.append(loc)
        if kind != 'absent':
            mon.cover('skipped:' + kind)
    md_url = None
    if case['override']:
        md_url = case['dir'] + 'override.json'
        files[md_url] = description(case['override'], 'override', md_url, case, files)
        found, asked, ignored = 'override', [], []
        md_url = ROOT + md_url
    if found and case['absent'] and (case['override'] or not isinstance(json.loads(files[asked[-1]]), dict) or 'tables' in json.loads(files[asked[-1]])):
        return
    with requests_mock.Mocker() as m:
        m.register_uri(requests_mock.ANY, requests_mock.ANY, status_code=404, text='not found')
        for loc, doc in files.items():
            m.get(ROOT + loc, text=doc)
        ct = case['ct'] if case['absent'] else case['ct'].split(';')[0]
        m.get(url, content=text(case, found).encode('utf8'), headers={'Content-Type': ct})
        m.get(ROOT + case['dir'] + 'zzz.csv', text='q\n')
        m.head(url, headers=dict(headers, **{'Content-Type': ct}))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if case['override'] in ('invalid', 'list'):
                mon.cover('override-invalid')
                mon.raises(ValueError, lambda: csvw.CSVW(url, md_url=md_url), 'invalid overriding metadata')
                return
            obj = csvw.CSVW(url, md_url=md_url, validate=case['validate'])
        methods = {r.method for r in m.request_history}
        mon.check(methods <= {'GET', 'HEAD'}, 'request method', methods=methods)
        locs = [loc for _, loc, _ in docs] + [k for k in files if 'bogus' in files[k] or 'metadata' in k]
        seen = []
        for r in m.request_history:
            loc = r.url[len(ROOT):]
            if loc in locs and loc not in seen:
                seen.append(loc)
        mon.eq(seen, asked, 'locations asked for', found=found)
        source = {'link': 'link', 'default': 'default', 'default2': 'default2', None: 'none', 'override': 'override'}.get(found, 'wk')
        mon.cover('source:' + source)
        if case['absent']:
            mon.cover('header-absent')
        if found:
            for p in case['refs']:
                if not case['absent'] or p != 'dialect':
                    mon.cover('schema-reference' if p == 'tableSchema' else 'dialect-reference')
        if case['validate']:
            mon.cover('warned' if ignored else 'not-warned')
            mon.eq(len([w for w in obj.warnings if 'gnoring' in str(w.message)]) > 0, bool(ignored), 'warning about ignored metadata',
                   warnings=[str(w.message) for w in obj.warnings])
        result(case, mon, obj, found)
    mon.event(found, asked)


def local(case, mon, work):
    d = work / 'x' / 'y'
    d.mkdir(parents=True)
    name = case['name'].split('?')[0]
    case = dict(case, name=name, dir='/x/y/', relurl=True, absent=False)
    kind = case['kinds']['default']
    key = 'default' if kind in ('ok', 'group') else None
    files = {}
    if key:
        files['/x/y/' + name + '-metadata.json'] = description(kind, key, '/x/y/' + name + '-metadata.json', case, files)
    # not a default location of local files
    md = None
    if case['override']:
        key = 'override'
        files['/x/y/o.json'] = description(case['override'], key, '/x/y/o.json', case, files)
        md = d / 'o.json'
    for p, doc in files.items():
        (work / p[1:]).write_text(doc)
    p = d / name
    p.write_text(text(case, key), encoding='utf8')
    (d / 'zzz.csv').write_text('q\n')
    args = (str(p), str(md) if md else None) if len(case['rows']) % 2 else (p, md)
    if case['override'] in ('invalid', 'list'):
        mon.raises(ValueError, lambda: csvw.CSVW(*args), 'invalid overriding metadata')
        return
    mon.cover('source:local-override' if md else 'source:local' if key else 'source:local-none')
    with requests_mock.Mocker() as m:
        obj = csvw.CSVW(*args, validate=case['validate'])
        mon.eq(m.call_count, 0, 'requests for local data')
    mon.eq([str(w.message) for w in obj.warnings], [], 'warnings')
    result(case, mon, obj, key)
    mon.event('local', key)
