"""Database writes are all or nothing."""
import contextlib
import io
import os
import random
import signal
import sqlite3

import csvw
from csvw.db import Database
from harness import g, vals, tables, dbgen
from harness.core import Inconclusive

RULE = ('Random sequences of writes to a database in memory or in a file, with faults injected at a random point: constraint '
        'violations, unspecified columns, unwritable values, failing row iterators, interrupts (KeyboardInterrupt from '
        'iterators and while values are bound), association hooks which fail, SIGKILL of the writing process, and '
        'existing files. After each step the content - read by Database.read and sqlite3 - must equal the model: all '
        'successful writes and nothing of the failed ones; existing files are not touched without force.')
CASES = {'quick': 16000, 'thorough': 128000}
FAULTS = ['constraint', 'extra', 'type', 'iterator', 'interrupt', 'bind-interrupt', 'bind-error', 'hook', 'kill', 'overflow', 'sql-kill', 'sql-interrupt']
REQUIRED = ['fault:' + f for f in FAULTS] + ['ok:memory', 'ok:file', 'second:memory', 'exists:refused', 'exists:force',
                                             'exists:foreign', 'skip-extra', 'failed-then-ok', 'force-after-failure']


class Boom(Exception):
    pass


def gen(rng):
    steps = [rng.choice(FAULTS + ['ok'] * 4) for _ in range(rng.randint(1, 4))]
    return dict(tables=dbgen.gen(rng, maxtables=3), steps=steps, file=rng.random() < .5, seed=rng.randrange(10**6))


class Bomb:
    """A value which cannot be bound at the first attempt."""
    def __init__(self, exc):
        self.exc, self.n = exc, 0

    def __conform__(self, protocol):
        self.n += 1
        if self.n == 1:
            raise self.exc
        return 'x'


def run(case, mon, work):
    rng = random.Random(case['seed'])
    ts = [dict(t) for t in case['tables']]
    md = dbgen.describe(ts)
    for m in md['tables']:
        # a plain column for the faults
        m['tableSchema']['columns'].append({'name': 'plain col'})
        m['tableSchema']['columns'].append({'name': 'int col', 'datatype': {'base': 'integer', 'minimum': 0}})
    day = csvw.Datatype(base='time').parse('00:00:00').date()
    tg = csvw.TableGroup.fromvalue(md)
    fname = work / 'db.sqlite' if case['file'] else None

    class DB(Database):
        bomb = None

        def association_table_context(self, table, column, fkey):
            if self.bomb:
                self.bomb -= 1
                if self.bomb == 0:
                    raise Boom()
            return fkey, column

        statement = abort = None
        transient = rng.random() < .5

        def connection(self):
            res = super().connection()
            conn = getattr(res, 'thing', res)
            if self.statement is not None:
                def trace(sql):
                    self.statement -= 1
                    if self.statement == 0:
                        os.kill(os.getpid(), signal.SIGKILL)
                conn.set_trace_callback(trace)
            if self.abort is not None:
                def progress():
                    self.abort -= 1
                    return int(self.abort == 0 if self.transient else self.abort <= 0)
                conn.set_progress_handler(progress, 7)
            return res

    db = DB(tg, fname)
    content = {t['url']: [] for t in ts}
    done = 0

    def batch(no):
        """Rows of the n-th write: all keys are new ones."""
        res = {}
        for t in ts:
            rows = dbgen.fixtime(day, t['cols'], dbgen.rows_of(t))
            for r in rows:
                r['plain col'] = rng.choice(['a', None])
                r['int col'] = rng.choice([0, 5, None])
            res[t['url']] = rows
        return res

    def check(how):
        try:
            got = db.read()
        except sqlite3.OperationalError as e:
            # failed before all tables had been created
            mon.check('no such table' in str(e) and not any(map(len, content.values())), 'cannot be read: ' + how, exc=e)
            got = {}
        for t in ts:
            rows = [dict(r) for r in got.get(t['url'], [])]
            mon.check(len(rows) == len(content[t['url']]), 'number of rows: ' + how, table=t['url'], read=rows, expected=content[t['url']])
            rest = list(content[t['url']])
            for r in rows:
                hit = next((i for i, e in enumerate(rest) if set(e) == set(r) and all(tables.same(e[k], r[k]) for k in e)), None)
                mon.check(hit is not None, 'unexpected row: ' + how, table=t['url'], row=r, expected=rest)
                rest.pop(hit)
        con = sqlite3.connect(str(fname)) if fname else db.connection()
        mon.eq(con.execute('pragma integrity_check').fetchall(), [('ok',)], 'integrity: ' + how)
        if fname:
            extra = [t for (t,) in con.execute("select name from sqlite_master where type = 'table'") if t not in content or not content[t]]
            n = [con.execute('select count(*) from "{}"'.format(t.replace('"', '""'))).fetchone()[0] for t in extra]
            if not any(map(len, content.values())):
                mon.check(not any(n), 'rejected data: ' + how, n=n)
            con.close()
            mon.check({p.name for p in work.iterdir()} <= {'db.sqlite'} | killed, 'files: ' + how, files=list(work.iterdir()))

    failed, killed = False, set()
    for no, step in enumerate(case['steps']):
        items = batch(no)
        if fname is None and any(map(len, content.values())):
            # Rows are added, so only tables without keys can get the same ones again.
            items = {t['url']: items[t['url']] for t in ts
                     if not t['pk'] and not t['fks'] and not any(u == t['url'] for tt in ts for _, u, _ in tt['fks'])}
            if step == 'ok' and items:
                mon.cover('second:memory')
        nonempty = [u for u in items if items[u]]
        kw = {}
        exists = fname is not None and fname.exists()
        if exists and (step != 'kill' or rng.random() < .5) and rng.random() < .5:
            mon.cover('exists:refused')
            before = fname.read_bytes()
            mon.raises(ValueError, lambda: db.write(**items), 'existing database')
            mon.eq(fname.read_bytes(), before, 'existing database changed')
        if fname is not None:
            if not exists and rng.random() < .15:
                # some other file
                mon.cover('exists:foreign')
                fname.write_bytes(b'precious')
                mon.raises(ValueError, lambda: db.write(**items), 'existing file')
                mon.eq(fname.read_bytes(), b'precious', 'existing file changed')
                exists = True
            if exists:
                kw['force'] = True
                mon.cover('exists:force')
                if failed:
                    mon.cover('force-after-failure')
        if step == 'ok':
            if rng.random() < .3 and nonempty:
                mon.cover('skip-extra')
                data = {k: [dict(r, surplus=rng.choice(['x', None, [], 0])) for r in v] for k, v in items.items()}
                kw['_skip_extra'] = True
            else:
                data = items
            db.write(**{k: (iter(v) if rng.random() < .3 else v) for k, v in data.items()}, **kw)
            for u, rows in items.items():
                if exists:
                    content[u] = rows
                else:
                    content[u] = content[u] + rows
            mon.cover('ok:' + ('file' if fname else 'memory'))
            if failed:
                mon.cover('failed-then-ok')
            check('after write')
            continue
        if not nonempty:
            continue
        u = rng.choice(nonempty)
        r = rng.randrange(len(items[u]))
        row = items[u][r]
        data, exc = dict(items), None
        if step == 'constraint':
            row['int col'], exc = -1, sqlite3.IntegrityError
        elif step == 'extra':
            row['surplus'], exc = rng.choice(['x', None, '', [], 0, False]), ValueError
        elif step == 'type':
            row['plain col'], exc = object(), (sqlite3.Error, TypeError)
        elif step == 'overflow':
            # (the retry of single rows may hit the rows which could be inserted)
            row['int col'], exc = 2**70, (OverflowError, sqlite3.IntegrityError)
        elif step in ('iterator', 'interrupt', 'kill'):
            exc = {'iterator': Boom, 'interrupt': KeyboardInterrupt, 'kill': Boom}[step]
            k = rng.choice([0, r, len(items[u])])

            def it(rows=items[u], k=k, exc=exc, step=step):
                for i, x in enumerate(rows + [None]):
                    if i == k:
                        if step == 'kill':
                            os.kill(os.getpid(), signal.SIGKILL)
                        raise exc()
                    if x is not None:
                        yield x
            data[u] = it()
        elif step in ('bind-interrupt', 'bind-error'):
            exc = KeyboardInterrupt if step == 'bind-interrupt' else MemoryError
            row['plain col'] = Bomb(exc())
            exc = (exc, sqlite3.Error)
        elif step == 'sql-interrupt':
            db.abort, exc = rng.randint(1, rng.choice([10, 60, 300])), sqlite3.Error
        elif step == 'hook':
            n = sum(len(x[c['name']] or []) for t in ts if t['url'] in items for fk in t['fks'] for c in t['cols']
                    if c['name'] in fk[0] and 'separator' in c for x in items[t['url']])
            if not n:
                continue
            db.bomb = rng.randint(1, n)
            exc = Boom
        if step in ('kill', 'sql-kill'):
            if fname is None:
                continue
            pid = os.fork()
            if pid == 0:
                try:
                    child = DB(tg, fname)
                    if step == 'sql-kill':
                        child.statement = rng.randint(1, 25)
                    with contextlib.redirect_stdout(io.StringIO()):
                        child.write(**data, **kw)
                finally:
                    os._exit(0)
            rng.random()
            _, status = os.waitpid(pid, 0)
            killed = {'db.sqlite-journal'}
            if not os.WIFSIGNALED(status):
                if step == 'kill':
                    raise Inconclusive('not killed')
                step = 'late kill'
        else:
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    db.write(**data, **kw)
            except exc:
                pass
            except Exception as e:
                mon.fail('unexpected exception', step=step, exc=repr(e))
            else:
                mon.check(step == 'sql-interrupt', 'fault not reported', step=step)
                step = 'late interrupt'
        db.bomb = db.abort = None
        if fname is None:
            db.connection().set_progress_handler(None, 7)
        mon.cover('fault:' + step)
        mon.event(step, u, r)
        failed = True
        if exists:
            # overwritten
            content = {k: [] for k in content}
        if fname is not None and not fname.exists():
            mon.count('no-file')
            continue
        if 'late' in step:
            for u, rows in items.items():
                content[u] = rows if fname else content[u] + rows
        check('after ' + step)
    if fname is None:
        db.connection().close()
