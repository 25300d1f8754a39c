"""The same data gives the same rows from wherever it is read."""
import io
import json
import pathlib
import random
import warnings
import zipfile

import requests
import requests_mock

import csvw
from csvw.metadata import CSVW
from harness import g, vals, tables

RULE = ('Described tables (dialects, encodings with and without byte order mark, multi-line cells, comments, '
        'invalid rows, keys) stored as local file, zip archive (also with decoy members), HTTP resource and '
        'file-like object; typed rows, line numbers, reports, comments and integrity verdicts must agree with the '
        'independently parsed rows in each case. Missing sources must raise.')
CASES = {'quick': 10000, 'thorough': 80000}
REQUIRED = ['local', 'zip', 'zip-decoy', 'zip-subdir', 'plain-before-zip', 'url', 'file-like', 'lines', 'bom', 'utf-16',
            'latin-1', 'UTF-8-BOM', 'crlf-cell', 'comment', 'invalid', 'duplicate', 'dangling', 'missing-local',
            'missing-url', 'CSVW-url', 'sub-path', 'absolute-url', 'str-fname']
TYPES = ['string', 'integer', 'boolean', 'decimal', None]


def gen(rng):
    n = g.size(rng, 2, 4, 15)
    names = g.idents(rng, n)
    cols = [dict({'name': nm}, **({'datatype': t} if t else {})) for nm, t in
            zip(names, [rng.choice(TYPES) for _ in names])]
    enc = rng.choice(['utf-8', 'utf-8', 'UTF-8-BOM', 'utf-8-sig', 'utf-16', 'latin-1', 'cp1252'])
    rows = []
    for _ in range(g.pick(rng, [0, 1, 2, 4, 6], 1000 if n < 5 else 99)):
        row = [tables.text_for(rng, c.get('datatype'), .5) for c in cols]
        if rows and rng.random() < .3:
            row = list(rng.choice(rows))
        rows.append(row)
    ok = {'latin-1': 'latin-1', 'cp1252': 'cp1252'}.get(enc)
    if ok:
        rows = [[t.encode(ok, 'ignore').decode(ok) for t in r] for r in rows]
    return dict(cols=cols, rows=rows, enc=enc, bom=rng.random() < .4, eol=rng.choice(['\n', '\r\n']),
                delim=rng.choice([',', '\t', ';']), comment=rng.random() < .3,
                path=rng.choice(['d.csv', 'd.csv', 'sub/d.csv', 'd e.csv', 'data']),
                decoy=rng.choice([None, 'before', 'subdir', 'sub-before']), pk=rng.random() < .5, fk=rng.random() < .5,
                query=rng.random() < .3, seed=rng.randint(0, 9999))


class Log:
    def __init__(self):
        self.msgs, self.errors = [], []

    def warning(self, m):
        self.msgs.append(m)
    error = warning


def run(case, mon, work):
    cols = case['cols']
    names = [c['name'] for c in cols]
    enc = {'UTF-8-BOM': 'utf-8-sig'}.get(case['enc'], case['enc'])
    if case['bom'] and case['enc'] == 'utf-8':
        enc = 'utf-8-sig'
        mon.cover('bom')
    mon.cover(case['enc'])
    rows = [r for r in case['rows'] if not r[0].startswith('#')]
    lines, line = [], 1
    text = g.dump([names], case['delim'], eol=case['eol'])
    want, invalid, dups, seen, comments = [], 0, 0, set(), []
    for i, row in enumerate(rows):
        if case['comment'] and i % 2:
            text += '# note {}'.format(i) + case['eol']
            line += 1
            mon.cover('comment')
            comments.append('note {}'.format(i))
        t = g.dump([row], case['delim'], eol=case['eol'])
        text += t
        line += t.count('\n')
        if '\r\n' in ''.join(row):
            mon.cover('crlf-cell')
        try:
            r = [tables.read_cell(c, x) for c, x in zip(cols, row)]
        except tables.Invalid:
            invalid += 1
            mon.cover('invalid')
            continue
        want.append((line, dict(zip(names, r))))
        if r[0] in seen:
            dups += 1
        seen.add(r[0])
    if '\r' in text.replace('\r\n', ''):
        text = None
    if text is None:
        return
    data = text.encode(enc)
    dialect = {'encoding': case['enc'], 'delimiter': case['delim']}
    if case['comment']:
        dialect['commentPrefix'] = '#'
    path = case['path']
    url = path
    schema = {'columns': cols}
    if case['pk']:
        schema['primaryKey'] = names[0]
        if dups:
            mon.cover('duplicate')
    fk = case['fk']
    dangling = 0
    if fk:
        schema['foreignKeys'] = [{'columnReference': names[1], 'reference': {
            'resource': path, 'columnReference': names[0]}}]
        if cols[0].get('datatype') != cols[1].get('datatype'):
            fk = False
            del schema['foreignKeys']
        else:
            keys = [r[names[0]] for _, r in want]
            dangling = sum(1 for _, r in want if r[names[1]] is not None and r[names[1]] not in keys)
            if dangling:
                mon.cover('dangling')
    if '/' in path:
        mon.cover('sub-path')
    base = 'http://example.org/dir/'
    md = {'@context': 'http://www.w3.org/ns/csvw', 'dialect': dialect, 'tables': [
        {'url': url, 'tableSchema': schema}]}

    def observe(how, tg, **kw):
        t = tg.tables[0]
        mon.cover(how)
        log = Log()
        src = kw.get('fname')

        def again():
            return {k: (f() if callable(f) else f) for k, f in kw.items()}
        got = list(t.iterdicts(log=log, with_metadata=True, **again()))
        mon.eq([(ln, list(r)) for _, ln, r in got], [(ln, list(r)) for ln, r in want],
               'lines or keys differ: ' + how, data=data)
        for (_, _, a), (_, b) in zip(got, want):
            mon.check(tables.same(dict(a), b), 'row differs: ' + how, got=dict(a), want=b)
        mon.check((len(log.msgs) > 0) == (invalid > 0), 'reports differ: ' + how, msgs=log.msgs[:2])
        if comments:
            mon.eq([c for _, c in t._comments], comments, 'comments differ: ' + how)
        if not kw:
            log = Log()
            if case['pk']:
                mon.eq(t.check_primary_key(log=log), not dups, 'primary key verdict differs: ' + how)
                mon.eq(len(log.msgs), dups, 'number of reported duplicates differs: ' + how)
            if fk:
                log = Log()
                mon.eq(tg.check_referential_integrity(log=log), not dangling, 'integrity verdict differs: ' + how)
                mon.eq(sum(' Key ' in m for m in log.msgs), dangling, 'number of reports differs: ' + how)
            if not invalid:
                res = tg.read()[t.local_name]
                mon.check(len(res) == len(want) and all(tables.same(dict(a), b) for a, (_, b) in zip(res, want)),
                          'TableGroup.read differs: ' + how)
        mon.event(how, len(got), 'rows')

    def local(d, write):
        d.mkdir()
        (d / 'md.json').write_text(json.dumps(md))
        f = d / path
        f.parent.mkdir(exist_ok=True)
        write(f)
        return csvw.TableGroup.from_file(d / 'md.json' if case['seed'] % 2 else str(d / 'md.json'))

    observe('local', local(work / 'a', lambda f: f.write_bytes(data)))

    def zipped(f):
        with zipfile.ZipFile(str(f) + '.zip', 'w') as z:
            if case['decoy'] in ('before', 'sub-before'):
                mon.cover('zip-decoy')
                z.writestr('un' + f.name, b'x,y\r\nwrong,data\r\n')
            if case['decoy'] in ('subdir', 'sub-before'):
                mon.cover('zip-subdir')
                z.writestr('inner/' + f.name, data)
            else:
                z.writestr(f.name, data)
    observe('zip', local(work / 'b', zipped))

    def both(f):
        f.write_bytes(data)
        with zipfile.ZipFile(str(f) + '.zip', 'w') as z:
            z.writestr(f.name, b'x,y\r\nwrong,data\r\n')
    if case['seed'] % 3 == 0:
        observe('plain-before-zip', local(work / 'c', both))
    bare = csvw.TableGroup.fromvalue(md)
    observe('str-fname', bare, fname=str(work / 'a' / path))
    observe('file-like', bare, fname=lambda: io.StringIO(
        data.decode('utf-16' if enc == 'utf-16' else enc), newline=''))
    observe('lines', bare, fname=lambda: io.StringIO(data.decode(enc), newline='').readlines())
    with requests_mock.Mocker() as m:
        m.get(requests_mock.ANY, status_code=404, text='<html>not found</html>')
        m.get(base + 'md.json', text=json.dumps(md))
        m.get(base + path.replace(' ', '%20'), content=data)
        m.get(base + path, content=data)
        tg = csvw.TableGroup.from_url(base + 'md.json' + ('?x=1' if case['query'] else '')) if not case['query'] \
            else None
        if case['query']:
            m.get(base + 'md.json?x=1', text=json.dumps(md))
            tg = csvw.TableGroup.from_url(base + 'md.json?x=1')
        observe('url', tg)
        c = CSVW(base + 'md.json') if not (case['fk'] and not fk) else None
        if c is not None:
            observe('CSVW-url', c.t)
        md2 = dict(md, tables=[dict(md['tables'][0], url=base + path)])
        if not fk:
            t2 = csvw.TableGroup.fromvalue(md2)
            t2._fname = work / 'a' / 'md.json'
            observe('absolute-url', t2)
        mon.cover('missing-url')
        t3 = csvw.TableGroup.fromvalue(dict(md, tables=[dict(md['tables'][0], url=base + 'nope.csv')]))
        try:
            got = list(t3.tables[0].iterdicts(log=Log()))
            mon.fail('unavailable resource read', got=got)
        except (OSError, ValueError):
            mon.check(True, '')
    mon.cover('missing-local')
    t4 = csvw.TableGroup.fromvalue(dict(md, tables=[dict(md['tables'][0], url='nope.csv')]))
    t4._fname = work / 'a' / 'md.json'
    mon.raises(OSError, lambda: list(t4.tables[0].iterdicts(log=Log())), 'missing file read')
