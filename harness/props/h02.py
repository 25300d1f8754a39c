"""Side effects are confined, resources released."""
import collections
import contextlib
import gc
import io
import json
import os
import pathlib
import random
import sys
import warnings
import zipfile

import csvw
from csvw import __main__ as cli
from csvw.db import Database
from csvw.dsv import add_rows, filter_rows_as_dict, iterrows, rewrite
from csvw.utils import metadata2markdown
from harness import g, mdgen
from harness.props import v01

RULE = ('Random table groups (valid and with planted problems), stored plain or zipped, together with decoy files; one of 24 '
        'operations - completed, abandoned half way or failing due to missing, truncated, undecodable or unwritable data - '
        'runs while an audit hook records each file opened, created, renamed or removed, each connection, process and change of '
        'environment. Recorded events must be confined to what the operation is about; afterwards the open file descriptors, '
        'the temporary directory and the listing of all scratch files must be as expected, without ResourceWarning.')
CASES = {'quick': 16000, 'thorough': 128000}
EVENTS = collections.deque(maxlen=5000)
ACTIVE = [False]
WRITES = ('os.remove', 'os.rename', 'os.rmdir', 'os.mkdir', 'os.truncate', 'os.chmod', 'os.chown', 'os.link', 'os.symlink', 'os.utime',
          'shutil.rmtree', 'shutil.move', 'shutil.copyfile', 'shutil.copytree', 'shutil.make_archive', 'tempfile.mkstemp', 'tempfile.mkdtemp')
OUTSIDE = ('socket.connect', 'socket.getaddrinfo', 'socket.bind', 'subprocess.Popen', 'os.system', 'os.exec', 'os.fork', 'os.posix_spawn',
           'os.putenv', 'os.unsetenv', 'os.chdir', 'os.kill', 'urllib.Request', 'ftplib.connect')
INSTALLED = ('/usr/', '/opt/venv/', '/repo/src/', '/dev/null', '/proc/', '/etc/mime.types', '/etc/localtime', '/opt/veriftools/', '/verif/harness/', '/nonexistent-pycache')


class Interrupt(BaseException):
    """Like KeyboardInterrupt."""


def hook(event, args):
    if ACTIVE[0] and (event in ('open', 'sqlite3.connect') or event in WRITES or event in OUTSIDE):
        EVENTS.append((event, args))


INSTALL = []

OPS = {}


def op(*where):
    """where: what may be written: nothing, or names of files"""
    def d(f):
        OPS[f.__name__] = (f, where)
        return f
    return d


def abandoned(it, rng):
    for _ in range(rng.randint(0, 2)):
        next(it, None)
    if rng.random() < .5:
        it.close()


@op()
def load(md, rng):
    csvw.TableGroup.from_file(md)


@op()
def rows(md, rng):
    for t in csvw.TableGroup.from_file(md).tables:
        list(t.iterdicts(strict=rng.random() < .5))


@op()
def rows_abandoned(md, rng):
    for t in csvw.TableGroup.from_file(md).tables:
        abandoned(t.iterdicts(strict=False), rng)


@op()
def rows_meta(md, rng):
    for t in csvw.TableGroup.from_file(md).tables:
        list(t.iterdicts(strict=False, with_metadata=True))


@op()
def checks(md, rng):
    tg = csvw.TableGroup.from_file(md)
    for t in tg.tables:
        t.check_primary_key()
    tg.check_referential_integrity()


@op()
def convert(md, rng):
    csvw.CSVW(str(md)).to_json(minimal=rng.random() < .5)


@op()
def validate(md, rng):
    csvw.CSVW(str(md), validate=True).is_valid


@op()
def csvwvalidate(md, rng):
    command(cli.csvwvalidate, str(md))


@op()
def csvw2json(md, rng):
    command(cli.csvw2json, str(md))


@op()
def csvw2markdown(md, rng):
    command(cli.csvw2markdown, str(md))


@op()
def markdown(md, rng):
    metadata2markdown(csvw.TableGroup.from_file(md), link_files=True)


@op()
def memory_db(md, rng):
    db = Database(csvw.TableGroup.from_file(md))
    try:
        db.write_from_tg()
        db.read()
    finally:
        db.connection().close()


@op('x.db')
def file_db(md, rng):
    db = Database(csvw.TableGroup.from_file(md), fname='x.db')
    db.write_from_tg()
    db.read()


@op()
def text_memory(md, rng):
    for t in csvw.TableGroup.from_file(md).tables:
        t.write(list(t.iterdicts(strict=False)), fname=None)


@op('out.csv')
def write_one(md, rng):
    t = csvw.TableGroup.from_file(md).tables[0]
    t.write(list(t.iterdicts(strict=False)), fname='out.csv')


@op('out.csv', 'out.csv.zip')
def write_zipped(md, rng):
    t = csvw.TableGroup.from_file(md).tables[0]
    t.write(list(t.iterdicts(strict=False)), fname='out.csv', _zipped=True)


@op('out.csv')
def write_failing(md, rng):
    t = csvw.TableGroup.from_file(md).tables[0]

    def source():
        yield from t.iterdicts(strict=False)
        raise rng.choice([ValueError, Interrupt])('source')
    t.write(source(), fname='out.csv')


@op('md2.json')
def to_file(md, rng):
    csvw.TableGroup.from_file(md).to_file('md2.json', omit_defaults=rng.random() < .5)


@op('dest/*')
def copy(md, rng):
    os.mkdir('dest')
    csvw.TableGroup.from_file(md).copy(rng.choice([str, pathlib.Path])('dest'))


@op('dest/*')
def write_group(md, rng):
    os.mkdir('dest')
    tg = csvw.TableGroup.from_file(md)
    tg.write('dest/md.json', _zipped=rng.random() < .5, **{k: list(t.iterdicts(strict=False)) for k, t in tg.tabledict.items()})


@op()
def dsv_reader(md, rng):
    p = md.parent / 't0.csv'
    k = rng.randrange(6)
    if k == 0:
        with csvw.UnicodeReader(p) as r:
            list(r)
    elif k == 1:
        with csvw.UnicodeReader(p) as r:
            next(r)
    elif k == 2:
        abandoned(iterrows(p), rng)
    elif k == 3:
        list(iterrows(p, dicts=True))
    elif k == 4:
        with csvw.UnicodeReader(p) as r:
            next(r)
            raise ValueError('x')
    else:
        with csvw.UnicodeDictReader(p) as r:
            list(r)


@op('t0.csv', 'tmp')
def rewriting(md, rng):
    n = rng.choice([0, 1, 2, 99])

    def visit(i, row):
        if i == n:
            raise rng.choice([ValueError, Interrupt])('visitor')
        return row
    rewrite(md.parent / 't0.csv', visit)


@op('t0.csv', 'tmp')
def adding(md, rng):
    add_rows(md.parent / 't0.csv', ['1'], *([[object()]] if rng.random() < .3 else []))


@op('t0.csv', 'tmp')
def filtering(md, rng):
    def f(row):
        if rng.random() < .1:
            raise rng.choice([ValueError, Interrupt])('filter')
        return rng.random() < .5
    filter_rows_as_dict(md.parent / 't0.csv', f)


def command(fn, *args):
    argv = sys.argv
    sys.argv = [fn.__name__] + list(args)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            fn()
    except SystemExit:
        pass
    finally:
        sys.argv = argv


DAMAGE = ['missing', 'undecodable', 'nul', 'truncated-zip', 'no-csv-in-zip', 'directory']
REQUIRED = ['op:' + k for k in OPS] + ['damage:' + d for d in DAMAGE] + ['ok', 'failed', 'zipped', 'plain', 'written-event', 'read-event']


def gen(rng):
    c = v01.gen(rng)
    if c['problem'] in ('no-json', 'no-tables', 'no-context', 'wrong-context'):
        c['problem'] = None
    return dict(base=c, op=rng.choice(sorted(OPS)), seed=rng.randrange(10**7), zipped=rng.random() < .3,
                damage=rng.choice(DAMAGE) if rng.random() < .25 else None)


def fds():
    res = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            res.append((int(fd), os.readlink('/proc/self/fd/' + fd)))
        except OSError:
            pass
    return sorted(x for x in res if not x[1].startswith('/proc'))


def run(case, mon, work):
    rng = random.Random(case['seed'])
    if not INSTALL:
        sys.addaudithook(hook)
        INSTALL.append(1)
        gc.collect()
        gc.freeze()  # makes collecting garbage fast
    base = case['base']
    ts = base['tables']
    md = {'@context': 'http://www.w3.org/ns/csvw', 'tables': []}
    for i, t in enumerate(ts):
        s = {'columns': t['cols']}
        if t['pk']:
            s['primaryKey'] = 'id'
        if any(c.get('name') == 'fk' for c in t['cols']):
            s['foreignKeys'] = [{'columnReference': 'fk', 'reference': {'resource': 't0.csv', 'columnReference': 'id'}}]
        md['tables'].append({'url': 't%d.csv' % i, 'tableSchema': s})
    if base['problem']:
        v01.plant(base['problem'], ts, md, None, rng)
    d = work / 'data'
    d.mkdir()
    name, damage = case['op'], case['damage']
    fn, where = OPS[name]
    zipped = case['zipped'] and name not in ('dsv_reader', 'rewriting', 'adding', 'filtering')
    mon.cover('zipped' if zipped else 'plain')
    for i, t in enumerate(ts):
        b = g.dump([t['header']] + t['rows']).encode('utf8')
        if damage == 'undecodable':
            b += b'\xff\xfe\xfa\r\n'
        elif damage == 'nul':
            b += b'a\x00b"x\r\n"unterminated'
        p = d / ('t%d.csv' % i)
        if zipped:
            with zipfile.ZipFile(d / (p.name + '.zip'), 'w') as z:
                z.writestr('x.txt' if damage == 'no-csv-in-zip' else p.name, b)
            if damage == 'truncated-zip':
                c = (d / (p.name + '.zip')).read_bytes()
                (d / (p.name + '.zip')).write_bytes(c[:len(c) // 2])
        elif damage == 'directory':
            p.mkdir()
        elif damage != 'missing':
            p.write_bytes(b)
    if damage:
        mon.cover('damage:' + damage)
    (d / 'md.json').write_text(json.dumps(md))
    decoys = [d / 'other.csv', d / 'csv-metadata.json', d / 't0.csv.bak', work / 'x.txt', d / 'datasette.db']
    for p in decoys:
        p.write_text('decoy')
    os.chdir(work)

    def listing():
        return {str(p.relative_to(work.parent)): p.read_bytes() if p.is_file() else None for p in sorted(work.parent.rglob('*'))}
    before = listing()
    gc.collect()
    open_before = fds()
    env = dict(os.environ)
    EVENTS.clear()
    raised = []
    hooks = sys.unraisablehook
    sys.unraisablehook = lambda u: raised.append(repr(u.exc_value))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            warnings.simplefilter('error', ResourceWarning)
            ACTIVE[0] = True
            try:
                fn(d / 'md.json', rng)
                mon.cover('ok')
            except (Interrupt, ValueError, OSError, AssertionError, zipfile.BadZipFile, KeyError, TypeError, AttributeError, csv_error, sqlite_error, IndexError, StopIteration):
                mon.cover('failed')
            finally:
                ACTIVE[0] = False
            # An error keeps its frames and thus open files alive; they go with it.
            gc.collect()
    finally:
        sys.unraisablehook = hooks
        os.chdir(work)
    mon.cover('op:' + name)
    root = str(work.parent.resolve())
    allowed = set()
    for w in where:
        if w.startswith('t0'):
            allowed.add(str(d / w))
        elif w != 'tmp':
            allowed.add(str(work / w))

    def writable(p):
        p = os.path.realpath(os.path.join(str(work), str(p)))
        return p in allowed or any(a.endswith('*') and p.startswith(a[:-2]) for a in allowed) or ('tmp' in where and p.startswith(os.path.realpath(str(mon.tmp)))) \
            or (any(a.endswith('.db') for a in allowed) and p in [x + s for x in allowed for s in ('-journal', '-wal', '')])
    urls = [str(d / ('t%d.csv' % i)) for i in range(len(ts))]
    readable = urls + [u + '.zip' for u in urls] + [str(d / 'md.json')]
    for event, args in list(EVENTS):
        mon.check(event not in OUTSIDE, 'unexpected effect: ' + event, args=args, op=name)
        if event == 'open':
            path, mode, flags = args
            if isinstance(path, int):
                continue
            path = os.fsdecode(path) if isinstance(path, bytes) else str(path)
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
                mon.cover('written-event')
                mon.check(writable(path), 'file opened for writing: ' + os.path.basename(path), path=path, op=name)
            else:
                p = os.path.realpath(os.path.join(str(work), path))
                mon.cover('read-event')
                if p.startswith(root):
                    mon.check(p in readable or writable(p), 'unrelated file read: ' + os.path.basename(path), path=path, op=name)
                else:
                    mon.check(p.startswith(INSTALLED) or '/' not in path, 'unrelated file read: ' + path, op=name)
        elif event == 'sqlite3.connect':
            mon.check(args[0] == ':memory:' or writable(args[0]), 'database opened', path=args[0], op=name)
        elif event in WRITES:
            for a in args:
                if isinstance(a, (str, bytes, os.PathLike)):
                    mon.check(writable(os.fsdecode(a)) or (event == 'shutil.copyfile' and os.path.realpath(os.fsdecode(a)) in readable),
                              'file changed by ' + event, path=a, op=name)
        mon.count('audited')
    after = listing()
    changed = {k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0)}
    for k in changed:
        mon.check(writable(str(work.parent / k)) and not (str(work.parent / k)).startswith(str(mon.tmp)), 'file changed: ' + k, op=name)
    mon.eq(fds(), open_before, 'file descriptors left open', op=name)
    mon.eq(raised, [], 'resources not released', op=name)
    mon.eq(os.listdir(mon.tmp), [], 'temporary files left', op=name)
    mon.eq(dict(os.environ), env, 'environment changed', op=name)
    mon.event(name, damage, base['problem'], len(EVENTS))


import csv  # noqa
import sqlite3  # noqa
csv_error, sqlite_error = csv.Error, sqlite3.Error
