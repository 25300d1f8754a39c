"""Verdict of the validation."""
import argparse
import contextlib
import copy
import csv
import io
import json
import subprocess
import warnings
import zipfile

import requests
import requests_mock

import csvw
from csvw.__main__ import csvwvalidate
from harness import g

RULE = ('Random valid groups of related tables (local files, zip archives, HTTP) must be found valid, without '
        'warnings and repeatedly, by CSVW.is_valid and csvwvalidate, whatever the warning filters of the process; the '
        'same groups with one of 30 kinds of problems planted at a random place must not, and csvwvalidate must print '
        'FAIL and exit with 1 or 2 - in process and as command.')
CASES = {'quick': 10000, 'thorough': 80000}
TYPES = {'string': (['x', 'é', 'a b'], None), 'integer': (['1', '-05', '700'], '1.5'), 'date': (['2020-02-29'], '2019-02-29'),
         'boolean': (['true', '0'], 'yes'), 'decimal': (['1.50', '.5'], '1,5'), 'anyURI': (['http://a.b/c'], None),
         'time': (['10:00:00'], '1:1'), 'hexBinary': (['0F'], '0'), 'duration': (['P1D'], 'soon'), 'gYear': (['2020'], None)}
CELL = ['invalid-cell', 'missing-required', 'duplicate-pk', 'dangling-fk', 'null-fk', 'nonunique-ref', 'invalid-bound',
        'invalid-list-element', 'short-row']
HEAD = ['surplus-column', 'absent-required-column', 'other-titles']
DATA = ['malformed', 'encoding', 'missing-file']
META = ['unknown-property', 'unknown-column-property', 'bad-lang', 'bad-dialect', 'bad-datatype-format', 'bad-null',
        'no-context', 'wrong-context', 'no-tables', 'bad-common', 'fk-table', 'fk-column', 'fk-datatype', 'pk-column', 'bad-type',
        'bad-column-name', 'contradictory', 'no-json']
REQUIRED = (['valid:' + k for k in ['local', 'zip', 'web', 'single']] + ['problem:' + p for p in CELL + HEAD + DATA + META] +
            ['filter:' + f for f in ['default', 'ignore', 'always', 'error', 'once']] +
            ['exit:0', 'exit:1', 'exit:2', 'command:0', 'command:1', 'verbose', 'suppressed'])


def gen(rng):
    ts = []
    n = g.pick(rng, [1, 1, 2, 3], 12) or 1
    for i in range(n):
        cols = [{'name': 'id', 'datatype': rng.choice(['string', 'integer']), 'required': True}]
        for j in range(g.size(rng, 0, 3, 20)):
            c = {'name': 'c%d' % j, 'datatype': rng.choice(sorted(TYPES))}
            if rng.random() < .3:
                c['titles'] = ['Title %d' % j, 'x' + c['name']]
                if rng.random() < .5:
                    del c['name']
            if rng.random() < .2:
                c['separator'] = '|'
            cols.append(c)
        if i and rng.random() < .7:
            cols.append({'name': 'fk', 'datatype': ts[0]['cols'][0]['datatype']})
            if rng.random() < .3:
                cols[-1]['separator'] = ';'
        if rng.random() < .3:
            cols.append({'name': 'num', 'datatype': {'base': 'integer', 'minimum': 0, 'maximum': 9}})
        rows = []
        for r in range(g.size(rng, 2, 5, 99)):
            row = []
            for c in cols:
                if c.get('name') == 'id':
                    row.append(str(r))
                elif c.get('name') == 'fk':
                    k = len(ts[0]['rows'])
                    row.append(';'.join(str(rng.randrange(k)) for _ in range(g.size(rng, 2, 2, 15))) if 'separator' in c else str(rng.randrange(k)))
                elif c.get('name') == 'num':
                    row.append(str(rng.randint(0, 9)))
                elif rng.random() < .1:
                    row.append('')
                elif 'separator' in c:
                    row.append('|'.join(rng.choice(TYPES[c['datatype']][0]) for _ in range(g.size(rng, 1, 3, 20))))
                else:
                    row.append(rng.choice(TYPES[c['datatype']][0]))
            rows.append(row)
        if rng.random() < .15:
            rng.choice(cols)['suppressOutput'] = True
        ts.append(dict(cols=cols, rows=rows, pk=rng.random() < .7, suppress=rng.random() < .2,
                       header=[c.get('name') or rng.choice(c['titles']) for c in cols]))
    p = None if rng.random() < .25 else rng.choice(CELL * 2 + HEAD * 2 + DATA + META)
    return dict(tables=ts, problem=p, seed=rng.randrange(10**6), store=rng.choice(['local', 'local', 'zip', 'web']),
                single=n == 1 and rng.random() < .5, filter=rng.choice(['default', 'ignore', 'always', 'error', 'once']),
                command=rng.random() < .008, verbose=rng.random() < .5)


def plant(problem, ts, md, files, rng):
    """Introduce the problem, -> False if there's no place for it."""
    i = rng.randrange(len(ts))
    t, tmd = ts[i], md['tables'][i]
    cols, rows = t['cols'], t['rows']
    r = rng.randrange(len(rows))
    s = tmd['tableSchema']

    def pick(cond):
        c = [j for j, c in enumerate(cols) if cond(c)]
        return rng.choice(c) if c else None
    if problem == 'invalid-cell':
        j = pick(lambda c: isinstance(c['datatype'], str) and TYPES[c['datatype']][1] and 'separator' not in c and c.get('name') not in ('fk', 'id'))
        if j is None:
            return False
        rows[r][j] = TYPES[cols[j]['datatype']][1]
    elif problem == 'invalid-list-element':
        j = pick(lambda c: isinstance(c['datatype'], str) and TYPES[c['datatype']][1] and c.get('separator') == '|')
        if j is None:
            return False
        rows[r][j] += '|' + TYPES[cols[j]['datatype']][1]
    elif problem == 'invalid-bound':
        j = pick(lambda c: c.get('name') == 'num')
        if j is None:
            return False
        rows[r][j] = rng.choice(['10', '-1'])
    elif problem == 'missing-required':
        rows[r][0] = ''
    elif problem == 'short-row':
        s['columns'][-1]['required'] = True
        for row in rows:
            row[-1] = row[-1] or TYPES[cols[-1]['datatype']][0][0]
        if len(cols) < 2:
            return False
        rows[r].pop()
    elif problem == 'duplicate-pk':
        if not t['pk'] or 'primaryKey' not in s:
            return False
        r2 = rng.choice([x for x in range(len(rows)) if x != r])
        rows[r][0] = rows[r2][0]
        if cols[0]['datatype'] == 'integer':
            rows[r][0] = '+0' + rows[r][0]
    elif problem in ('dangling-fk', 'null-fk', 'nonunique-ref', 'fk-table', 'fk-column', 'fk-datatype'):
        c = [(x, tt) for x, tt in enumerate(ts) if tt['cols'] and any(c.get('name') == 'fk' for c in tt['cols'])]
        if not c:
            return False
        i, t = rng.choice(c)
        j = [c.get('name') for c in t['cols']].index('fk')
        s = md['tables'][i]['tableSchema']
        r = rng.randrange(len(t['rows']))
        fk = s['foreignKeys'][0]
        if problem == 'dangling-fk':
            t['rows'][r][j] = '99' if 'separator' not in t['cols'][j] else rng.choice(['99', '0;99', '99;0'])
        elif problem == 'null-fk':
            if 'separator' in t['cols'][j]:
                return False
            t['rows'][r][j] = ''
        elif problem == 'nonunique-ref':
            if ts[0]['pk']:
                md['tables'][0]['tableSchema'].pop('primaryKey')
            ts[0]['rows'].append(list(ts[0]['rows'][0]))
        elif problem == 'fk-table':
            fk['reference']['resource'] = 'other.csv'
        elif problem == 'fk-column':
            fk['reference']['columnReference'] = 'nope'
        else:
            s['columns'][j]['datatype'] = 'boolean'
            for row in t['rows']:
                row[j] = '1'
    elif problem == 'surplus-column':
        t['header'].append('surplus')
        for row in rows:
            row.append('x')
    elif problem == 'absent-required-column':
        if len(cols) < 2:
            return False
        s['columns'].append({'name': 'absent', 'required': True})
    elif problem == 'other-titles':
        j = pick(lambda c: 'name' not in c)
        if j is None:
            return False
        t['header'][j] = 'Other'
    elif problem in DATA:
        pass
    elif problem == 'unknown-property':
        rng.choice([tmd, md, s])['unheardOf'] = 1
    elif problem == 'unknown-column-property':
        rng.choice(s['columns'])['unheardOf'] = 'x'
    elif problem == 'bad-lang':
        rng.choice([tmd, md, s, s['columns'][0]])['lang'] = rng.choice([5, 'no language'])
    elif problem == 'bad-dialect':
        tmd['dialect'] = rng.choice([{'skipRows': -1}, {'delimiter': 5}, {'header': 'yes'}, {'foo': 1}, {'trim': 'maybe'}])
    elif problem == 'bad-datatype-format':
        s['columns'][0]['datatype'] = rng.choice([{'base': 'string', 'format': '['}, {'base': 'string', 'format': 5}])
        for tt, m in zip(ts, md['tables']):
            m['tableSchema'].pop('foreignKeys', None)
    elif problem == 'bad-null':
        rng.choice([tmd, s, s['columns'][0]])['null'] = 5
    elif problem == 'no-context':
        del md['@context']
    elif problem == 'wrong-context':
        md['@context'] = rng.choice(['http://example.org/ns', ['http://example.org/'], ''])
    elif problem == 'no-tables':
        md['tables'] = rng.choice([[], {}, None, 'x'])
    elif problem == 'bad-common':
        rng.choice([tmd, md])['dc:title'] = rng.choice([{'@value': 1, '@language': 'no language'}, {'@foo': 1}, {'@type': 1}])
    elif problem == 'pk-column':
        s['primaryKey'] = 'nope'
    elif problem == 'bad-type':
        tmd['@type'] = rng.choice(['Column', 'X'])
    elif problem == 'bad-column-name':
        s['columns'][0]['name'] = rng.choice(['_x'])
        t['header'][0] = '_x'
        for m in md['tables']:
            m['tableSchema'].pop('foreignKeys', None)
            m['tableSchema'].pop('primaryKey', None)
    elif problem == 'contradictory':
        s['columns'][0]['datatype'] = {'base': cols[0]['datatype'], **(
            {'minLength': 3, 'maxLength': 2} if cols[0]['datatype'] == 'string' else {'minimum': 3, 'maximum': 2})}
    return True


def run(case, mon, work):
    import random
    rng = random.Random(case['seed'])
    ts = case['tables']
    md = {'@context': 'http://www.w3.org/ns/csvw', 'tables': []}
    for i, t in enumerate(ts):
        s = {'columns': t['cols']}
        if t['pk']:
            s['primaryKey'] = 'id'
        if any(c.get('name') == 'fk' for c in t['cols']):
            s['foreignKeys'] = [{'columnReference': 'fk', 'reference': {'resource': 't0.csv', 'columnReference': 'id'}}]
        md['tables'].append(dict({'url': 't%d.csv' % i, 'tableSchema': s}, **({'suppressOutput': True} if t.get('suppress') else {})))
        if t.get('suppress'):
            mon.cover('suppressed')
    md = copy.deepcopy(md)
    problem = case['problem']
    if problem and not plant(problem, ts, md, None, rng):
        problem = None
    files = {'t%d.csv' % i: g.dump([t['header']] + t['rows']).encode('utf8') for i, t in enumerate(ts)}
    single = case['single'] and isinstance(md['tables'], list) and len(md['tables']) == 1
    doc = dict({k: v for k, v in md.items() if k != 'tables'}, **(md['tables'][0])) if single else md
    files['md.json'] = json.dumps(doc).encode('utf8')
    if problem == 'no-json':
        # and the description cannot be read as CSV data with metadata either
        files['md.json'] = rng.choice([b'\xff\xfe\xfd,"', b'"x', b'{}', b'{"tables": 1}'])
    n = 't%d.csv' % rng.randrange(len(ts))
    if problem == 'malformed':
        files[n] += rng.choice([b'"abc', b'"a"b,c\r\n', b'"\r\n'])
    elif problem == 'encoding':
        files[n] += b'\xff\xfe'
    elif problem == 'missing-file':
        del files[n]
    store = case['store']
    if problem == 'no-json':
        store = 'local'
    with contextlib.ExitStack() as stack:
        m = stack.enter_context(requests_mock.Mocker())
        m.register_uri(requests_mock.ANY, requests_mock.ANY, status_code=404, text='not found')
        url = 'http://example.org/d/md.json'
        if store == 'web':
            for k, v in files.items():
                m.get('http://example.org/d/' + k, content=v)
        else:
            url = str(work / 'md.json')
            for k, v in files.items():
                if store == 'zip' and k.endswith('.csv'):
                    with zipfile.ZipFile(work / (k + '.zip'), 'w') as z:
                        z.writestr(k, v)
                else:
                    (work / k).write_bytes(v)
        if problem is None:
            mon.cover('valid:' + store)
            if single:
                mon.cover('valid:single')
        else:
            mon.cover('problem:' + problem)
        mon.cover('filter:' + case['filter'])
        stack.enter_context(warnings.catch_warnings())
        warnings.simplefilter(case['filter'])
        obj, got, exc = None, None, None
        try:
            obj = csvw.CSVW(url, validate=True)
            got = obj.is_valid
        except (ValueError, csv.Error, OSError) as e:
            exc = e
        if problem is None:
            mon.check(exc is None, 'exception for valid data', exc=exc, md=doc)
            mon.check(got is True, 'valid data found invalid', warnings=[str(w.message) for w in obj.warnings], md=doc)
            mon.eq(obj.is_valid, True, 'second verdict')
            mon.eq(csvw.CSVW(url, validate=True).is_valid, True, 'verdict of another object')
        else:
            mon.check(got is not True, 'not found invalid: ' + problem, md=doc, data={k: v[:300] for k, v in files.items() if 'csv' in k})
            if obj is not None and got is False:
                mon.check(obj.warnings, 'invalid without any reported warning')
                mon.eq(obj.is_valid, False, 'second verdict')
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            rc = csvwvalidate(argparse.Namespace(url=url, verbose=case['verbose']), test=True)
        mon.cover('exit:%d' % rc)
        text = out.getvalue()
        mon.check((rc == 0) == (problem is None) and rc in (0, 1, 2), 'exit code', rc=rc, problem=problem, out=text)
        mon.check(('OK' in text) == (rc == 0) and ('FAIL' in text) == (rc != 0), 'printed verdict', rc=rc, out=text)
        if rc == 1 and case['verbose']:
            mon.cover('verbose')
            mon.check(len(text.strip().splitlines()) > 1, 'no reason given', out=text)
        if case['command'] and store != 'web':
            r = subprocess.run(['/opt/venv/bin/csvwvalidate', url], capture_output=True, text=True)
            mon.cover('command:%d' % min(r.returncode, 1))
            mon.eq(r.returncode, rc, 'exit code of the command', err=r.stderr[-400:])
            mon.check('Traceback' not in r.stderr, 'traceback', err=r.stderr[-400:])
    mon.event(problem or 'valid', store, got, repr(exc)[:80])
