"""Command line tools."""
import contextlib
import io
import json
import os
import pathlib
import random
import re
import sqlite3
import subprocess
import sys
import warnings

import requests_mock

import csvw
from csvw import __main__ as cli
from csvw.db import Database
from csvw.utils import metadata2markdown
from harness import g, dbgen, tables

RULE = ('All of the commands are run with command lines built for random groups of typed tables (as in B01), '
        'single tables and plain CSV files with random names, delimiters and suffixes, from relative and absolute paths and URLs, into fresh '
        'places and over existing files. sqlite3 and the API read the databases written, which must contain exactly the rows '
        'of the data; descriptions written by csvwdescribe must read exactly the cells of the files; what csvw2json, csvw2markdown and csvwvalidate '
        'print must be what the API gives for the same (possibly broken) data; failures must be reported '
        'and leave existing files alone.')
CASES = {'quick': 1800, 'thorough': 15000}
REQUIRED = ['sqlite:path', 'sqlite:url', 'sqlite:replaced', 'datasette:group', 'datasette:single', 'datasette:plain', 'datasette:url', 'datasette:twice',
            'datasette:meta', 'describe:one', 'describe:many', 'describe:glob', 'describe:tab', 'describe:quote', 'describe:suffix', 'missing', 'subprocess', 'csvw2json', 'csvw2markdown', 'csvw2json:failed', 'csvw2markdown:failed', 'validate:0',
            'validate:1', 'validate:2', 'validate:verbose']
META = ['title', 'description', 'license']


if '/opt/venv/bin' not in os.environ['PATH'].split(':'):
    # where the frictionless command is
    os.environ['PATH'] = '/opt/venv/bin:' + os.environ['PATH']


def gen(rng):
    return dict(cmd=rng.choice(['sqlite'] * 8 + ['datasette'] * 8 + ['print'] * 6 + ['describe']), seed=rng.randrange(10**9), tables=dbgen.gen(rng, maxtables=3),
                sub=rng.random() < .01)


def call(fn, *args, sub=False):
    """-> exit code, output"""
    if sub:
        p = subprocess.run([sys.executable, '-B', '-c', 'from csvw.__main__ import %s as f; f()' % fn, *args], capture_output=True,
                           env=dict(os.environ, PYTHONPATH='/repo/src'), stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode('utf8')
    out, argv = io.StringIO(), sys.argv
    sys.argv = [fn] + list(args)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            getattr(cli, fn)()
    except SystemExit as e:
        return e.code or 0, out.getvalue()
    except Exception as e:
        # uncaught exceptions lead to exit code 1
        return 1, repr(e)
    finally:
        sys.argv = argv
    return 0, out.getvalue()


@contextlib.contextmanager
def site(d, at):
    with requests_mock.Mocker() as m:
        m.register_uri(requests_mock.ANY, requests_mock.ANY, status_code=404)
        for p in d.rglob('*'):
            if p.is_file():
                m.get(at + str(p.relative_to(d)).replace('%', '%25').replace(' ', '%20').replace('"', '%22').replace('`', '%60'), content=p.read_bytes())
        yield


def content(fname):
    """All rows, as seen by SQLite itself."""
    conn = sqlite3.connect('file:%s?mode=ro' % pathlib.Path(fname).absolute(), uri=True)
    try:
        assert conn.execute('PRAGMA integrity_check').fetchall() == [('ok',)]
        names = [r[0] for r in conn.execute("SELECT name FROM sqlite_master WHERE type = 'table'")]
        return {n: conn.execute('SELECT * FROM "%s"' % n.replace('"', '""')).fetchall() for n in names}
    finally:
        conn.close()


def prepare(ts, md, rng, work):
    """Write data; returns the rows a reader of the data gets, or None if there is no DB representation"""
    tg = csvw.TableGroup.fromvalue(md)
    day = csvw.Datatype(base='time').parse('00:00:00').date()
    want = {t['url']: dbgen.fixtime(day, t['cols'], dbgen.rows_of(t)) for t in ts}
    d = work / 'data'
    d.mkdir()
    (d / 'sub').mkdir()
    tg.write(d / 'md.json', **want)
    tg = csvw.TableGroup.from_file(d / 'md.json')
    try:
        data = {t['url']: [dict(r) for r in table.iterdicts(strict=True)] for t, table in zip(ts, tg.tables)}
    except ValueError:
        return None, None
    for t in ts:
        for row, w in zip(data[t['url']], want[t['url']]):
            if any(row[k] is None for k in t['pk']) or any(not tables.same(row[c], w[c]) for fk in t['fks'] for c in fk[0]):
                return None, None
            for c in t['cols']:
                if 'separator' in c and (row[c['name']] is None or any(x is None for x in row[c['name']])):
                    return None, None
                if c['datatype'] == 'boolean' and c['name'] in t['pk']:
                    return None, None
    return d, data


def verify(ts, data, fname, tg, mon):
    raw = content(fname)
    db = Database(tg, fname)
    got = db.read()
    for t in ts:
        rows, exp = [dict(r) for r in got.get(t['url'], [])], [dict(r) for r in data[t['url']]]
        mon.eq(len(raw[t['url']]), len(exp), 'number of rows in the database', table=t['url'])
        if len(t['pk']) == 1:
            rows.sort(key=lambda r: repr(r[t['pk'][0]]))
            exp.sort(key=lambda r: repr(r[t['pk'][0]]))
        mon.check(len(rows) == len(exp) and all(set(a) == set(b) and all(tables.same(a[k], b[k]) for k in a) for a, b in zip(rows, exp)),
                  'content of the database', table=t['url'], read=rows, expected=exp)
        mon.count('rows', len(rows))


def known_boolean(mon, work):
    (work / 'b.csv').write_text('b\nTrue\nFalse\n')
    ret, text = call('csvwdescribe', 'b.csv')
    mon.eq(ret, 0, 'csvwdescribe', out=text)
    (work / 'md.json').write_text(text)
    try:
        mon.eq(len(list(csvw.TableGroup.from_file('md.json').tables[0])), 2, 'rows')
    except ValueError as e:
        mon.fail('description does not fit capitalized booleans', error=str(e))


def run(case, mon, work):
    if 'known' in case:
        return known_boolean(mon, work)
    rng = random.Random(case['seed'])
    rng.big = case['seed'] % 25 == 0
    if case['cmd'] == 'describe':
        return describe(case, rng, mon, work)
    ts = case['tables']
    md = dbgen.describe(ts)
    cmd, sub = case['cmd'], case['sub']
    if cmd == 'print':
        return prints(ts, md, rng, mon, work, sub)
    if rng.random() < .1:
        mon.cover('missing')
        (work / 'keep.db').write_bytes(b'x')
        ret, out = call('csvw2' + cmd, 'nope.json', *(['new.db'] if cmd == 'sqlite' else []))
        mon.check(ret != 0, 'missing input not reported', out=out)
        mon.eq(sorted(p.name for p in work.iterdir()), ['keep.db'], 'files created without input')
    kind = 'group'
    if cmd == 'datasette':
        kind = rng.choice(['group', 'group', 'single', 'plain'])
    if cmd == 'datasette' and kind != 'plain' and not all(re.fullmatch('[a-zA-Z][a-zA-Z0-9_]*', c['name']) for t in ts for c in t['cols']):
        # CSVW ignores names which URI templates don't allow
        mon.count('names')
        return
    meta = {k: rng.choice(['A title', 'été', {'@value': 'x', '@language': 'en'}, ['a', 'b']]) for k in META if rng.random() < .4}
    if kind == 'plain':
        return plain(case, rng, mon, work)
    if kind == 'single':
        if any(ref != t['url'] or 1 for t in ts[:1] for _, ref, _ in t['fks']):
            ts[0]['fks'] = []
        ts = ts[:1]
        md = dbgen.describe(ts)
    md.update({'dc:' + k: v for k, v in meta.items()})
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d, data = prepare(ts, md, rng, work)
    if not d:
        mon.count('rejected')
        return
    # The written metadata of the group describes the single table as well as the group
    mdfile = d / 'md.json'
    if kind == 'single':
        m = json.loads(mdfile.read_text(encoding='utf8'))
        t = m.pop('tables')[0]
        m.update(t)
        mdfile.write_text(json.dumps(m), encoding='utf8')
    url = rng.random() < .25 and not any(c in t['url'] for t in ts for c in "é'`\"É") and not sub
    arg = 'http://example.org/x/md.json' if url else rng.choice([str(mdfile), os.path.relpath(mdfile)])
    before = {p: p.read_bytes() for p in d.rglob('*') if p.is_file()}
    ctx = site(d, 'http://example.org/x/') if url else contextlib.nullcontext()
    outdir = work / rng.choice(['out', 'out dir', 'öut'])
    outdir.mkdir()
    if sub:
        mon.cover('subprocess')
    with ctx:
        if cmd == 'sqlite':
            out = outdir / rng.choice(['x.db', 'y.sqlite'])
            if rng.random() < .4:
                mon.cover('sqlite:replaced')
                with contextlib.closing(sqlite3.connect(str(out))) as conn:
                    conn.execute('CREATE TABLE other (a int)')
                    conn.commit()
            ret, text = call('csvw2sqlite', arg, rng.choice([str(out), os.path.relpath(out)]), sub=sub)
            mon.eq((ret, text), (0, ''), 'csvw2sqlite', arg=arg)
            mon.cover('sqlite:url' if url else 'sqlite:path')
            mon.eq([p.name for p in outdir.iterdir()], [out.name], 'files written')
        else:
            mon.cover('datasette:' + ('url' if url else kind))
            if rng.random() < .3:
                os.chdir(outdir)
                if not url:
                    arg = str(mdfile)
                ret, text = call('csvw2datasette', arg, sub=sub)
            else:
                ret, text = call('csvw2datasette', rng.choice(['-o', '--outdir']), str(outdir), arg, sub=sub)
            mon.eq(ret, 0, 'csvw2datasette', out=text, arg=arg)
            out = outdir / 'datasette.db'
            mon.eq(sorted(p.name for p in outdir.iterdir()), ['datasette-metadata.json', 'datasette.db'], 'files written')
            mon.check('datasette.db' in text and 'datasette-metadata.json' in text, 'files not mentioned', out=text)
            mon.eq(json.loads((outdir / 'datasette-metadata.json').read_text(encoding='utf8')), meta, 'datasette metadata')
            if meta:
                mon.cover('datasette:meta')
            if rng.random() < .3:
                mon.cover('datasette:twice')
                files = {p.name: p.read_bytes() for p in outdir.iterdir()}
                ret, text = call('csvw2datasette', '-o', str(outdir), arg)
                mon.check(ret != 0, 'existing database not reported', out=text)
                mon.eq({p.name: p.read_bytes() for p in outdir.iterdir()}, files, 'existing files changed')
    mon.eq({p: p.read_bytes() for p in d.rglob('*') if p.is_file()}, before, 'data changed')
    tg = csvw.TableGroup.fromvalue(dict(dbgen.describe(ts)))
    verify(ts, data, out, tg, mon)
    mon.event(cmd, arg, kind, json.dumps(md)[:150])


def prints(ts, md, rng, mon, work, sub):
    """Commands which only print."""
    md.update({'dc:' + k: rng.choice(['A title', 'été']) for k in META if rng.random() < .4})
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d, data = prepare(ts, md, rng, work)
    if not d:
        mon.count('rejected')
        return
    mdfile = d / 'md.json'
    what = rng.choice(['ok', 'ok', 'row', 'metadata', 'syntax', 'missing'])
    if what == 'row':
        # a cell too many, or in the only column, and too few
        p = d / ts[-1]['url']
        lines = p.read_text(encoding='utf8')
        p.write_text(lines + rng.choice(['x' * 5 + '\r\n', ',' * 20 + '\r\n']), encoding='utf8', newline='')
    elif what == 'metadata':
        m = json.loads(mdfile.read_text(encoding='utf8'))
        for k in rng.sample(['tableDirection', 'unknown', 'notes', 'alien', 'other', 'more', 'extra'], rng.choice([1, 1, 1, 7])):
            m['tables'][0][k] = 'sideways'
        mdfile.write_text(json.dumps(m), encoding='utf8')
    elif what == 'syntax':
        mdfile.write_text('{"tables": [', encoding='utf8')
    url = rng.random() < .25 and not any(c in t['url'] for t in ts for c in "é'`\"É") and not sub
    arg = 'http://example.org/x/md.json' if url else rng.choice([str(mdfile), os.path.relpath(mdfile)])
    if what == 'missing':
        mdfile.unlink()
    before = {p: p.read_bytes() for p in work.rglob('*') if p.is_file()}

    def api(fn):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return fn()
        except Exception as e:
            return e
    with site(d, 'http://example.org/x/') if url else contextlib.nullcontext():
        for cmd in rng.sample(['csvw2json', 'csvw2markdown', 'csvwvalidate', 'csvwvalidate'], 3):
            verbose = rng.choice([None, '-v', '--verbose'])
            args = [arg] + ([verbose] if verbose and cmd == 'csvwvalidate' else [])
            if rng.random() < .5:
                args.reverse()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                ret, text = call(cmd, *args, sub=sub)
            if cmd == 'csvwvalidate':
                obj = api(lambda: csvw.CSVW(arg, validate=True))
                ok = obj if isinstance(obj, Exception) else api(lambda: obj.is_valid)
                code = 2 if isinstance(ok, Exception) else int(not ok)
                mon.eq(ret, code, 'exit code of csvwvalidate', out=text, what=what)
                out = re.sub('\x1b\\[[0-9;]*m', '', text)
                first, _, rest = out.partition('\n')
                mon.eq(first, 'FAIL' if code else 'OK', 'verdict printed')
                if code and verbose:
                    for m in [str(ok)] if code == 2 else [str(w.message) for w in obj.warnings]:
                        mon.check(m in rest, 'reason not printed', out=out, reason=m)
                    mon.cover('validate:verbose')
                else:
                    mon.eq(rest, '', 'more than the verdict printed')
                mon.cover('validate:%d' % code)
                continue
            exp = api((lambda: csvw.CSVW(arg).to_json()) if cmd == 'csvw2json' else
                      (lambda: metadata2markdown(cli.read_tablegroup(arg), link_files=True)))
            mon.eq(ret == 0, not isinstance(exp, Exception), 'exit code of ' + cmd, out=text, api=exp)
            if not isinstance(exp, Exception):
                mon.cover(cmd)
                if cmd == 'csvw2json':
                    mon.eq(json.loads(text), json.loads(json.dumps(exp)), 'JSON printed')
                else:
                    mon.eq(text, exp + '\n', 'markdown printed')
            else:
                mon.cover(cmd + ':failed')
    mon.eq({p: p.read_bytes() for p in work.rglob('*') if p.is_file()}, before, 'files changed')
    mon.event('print', arg, what)


def words(rng, n):
    return [rng.choice(['a', 'b c', 'x,y', 'q"q', 'x;y', 'it', 'zz top', "o'k", 'p|q', 'ABC']) + rng.choice('abcdefg') for _ in range(n)]


def plain(case, rng, mon, work):
    mon.cover('datasette:plain')
    header = dbgen.names(rng, g.size(rng, 1, 4, 25))
    rows = [[rng.choice(['', 'a', '1', 'x y', 'é', '"', ',']) for _ in header] for _ in range(g.size(rng, 0, 4, 250))]
    rows = [r for r in rows if any(r)] + [['x'] * len(header)]
    (work / 'p.csv').write_bytes(g.dump([header] + rows).encode('utf8'))
    ret, text = call('csvw2datasette', '-o', '.', 'p.csv', sub=case['sub'])
    mon.eq(ret, 0, 'csvw2datasette', out=text, header=header)
    mon.eq(json.loads((work / 'datasette-metadata.json').read_text()), {}, 'datasette metadata')
    mon.eq(content('datasette.db'), {'p.csv': [tuple(c or None for c in r) for r in rows]}, 'content of the database')


def describe(case, rng, mon, work):
    n = g.pick(rng, [1, 2, 3, 1, 2, 3, 5], 12) or 1
    delim = rng.choice([None, ';', '\t', '|'])
    glob = rng.random() < .2
    files, cells = [], {}
    for i in range(n):
        name = rng.choice(['f%d', 'a b %d', 'sub/x%d', 'X-%d']) % i + (
            '.csv' if glob or rng.random() < .5 else rng.choice(['.txt', '.tsv', '.data']))
        if glob:
            name = name.replace('sub/', '')
        header = ['k%d' % i] + rng.sample(['name', 'a b', 'Title', 'x_y', 'date', 'n'], rng.randint(1, 4))
        kinds = ['int'] + [rng.choice(['int', 'word', 'date', 'num']) for _ in header[1:]]
        nrows = rng.randint(3, 8)
        cols = [[str(rng.randint(-99, 999)) for _ in range(nrows)] if k == 'int' else words(rng, nrows) if k == 'word' else
                ['20%02d-0%d-1%d' % (rng.randint(10, 20), rng.randint(1, 9), rng.randint(0, 9)) for _ in range(nrows)] if k == 'date' else
                ['%d.5' % rng.randint(-9, 99) for _ in range(nrows)] for k in kinds]
        p = work / name
        p.parent.mkdir(exist_ok=True)
        p.write_bytes(g.dump([header] + [list(r) for r in zip(*cols)], delim=delim or ',').encode())
        files.append(name)
        cells[name] = [header] + [list(r) for r in zip(*cols)]
        if not name.endswith('.csv'):
            mon.cover('describe:suffix')
    mon.cover('describe:glob' if glob else 'describe:one' if n == 1 else 'describe:many')
    if delim == '\t':
        mon.cover('describe:tab')
    args = ['*.csv'] if glob else files
    if rng.random() < .2 and not delim:
        # any character is OK
        mon.cover('describe:quote')
        ret, text = call('csvwdescribe', '--delimiter', '\\', args[0] if glob else files[0])
        mon.eq(ret, 0, 'csvwdescribe with unusual delimiter', out=text)
        mon.check(json.loads(text)['tables'][0]['dialect']['delimiter'] == '\\', 'delimiter', out=text)
    ret, text = call('csvwdescribe', *((['--delimiter', delim] if delim else []) + args), sub=case['sub'])
    mon.eq(ret, 0, 'csvwdescribe', out=text, args=args, delim=delim)
    (work / 'md.json').write_text(text)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tg = csvw.TableGroup.from_file('md.json')
    got = {}
    for t in tg.tables:
        rows = list(t)
        got[t.url.string] = [list(rows[0])] + [[t.tableSchema.columndict[k].write(v) for k, v in r.items()] for r in rows]

    def canon(rows):
        return [[('%g' % float(c)) if c.replace('.', '', 1).lstrip('-').isdigit() else c for c in r] for r in rows]
    mon.eq({k: canon(v) for k, v in got.items()}, {k: canon(v) for k, v in cells.items()}, 'cells read with the description differ', args=args, delim=delim)
    if not glob:
        mon.eq([t.url.string for t in tg.tables], files, 'order of tables')
    mon.event('describe', args, delim)
