"""Database round trip."""
import json
import random
import sqlite3
import warnings

import csvw
from csvw.db import Database
from harness import g, vals, tables, dbgen

RULE = ('Groups of 1-4 tables (27 datatypes, lists, single, composite and no primary keys, scalar, composite, '
        'self-referential and list-valued foreign keys in any column order, names which need quoting) are written to a '
        'database in memory or a file - from typed rows with keys in any order, or from CSV files - and read back, by the '
        'same and by another Database object, optionally with translated names; rows must be equal in value, type and '
        'order. sqlite3 itself checks integrity, foreign keys and row counts of the file.')
CASES = {'quick': 16000, 'thorough': 128000}
REQUIRED = ['memory', 'file', 'from-csv', 'from-rows', 'translated', 'pk:none', 'pk:single', 'pk:composite', 'fk:scalar',
            'fk:composite', 'fk:list', 'fk:self', 'fk:non-pk', 'fk:two-lists', 'list', 'list-typed', 'shuffled-keys', 'other-object', 'inherited',
            'empty-table'] + ['type:' + t for t in dbgen.TYPES]


def gen(rng):
    return dict(tables=dbgen.gen(rng), seed=rng.randrange(10**6), file=rng.random() < .4, csv=rng.random() < .3,
                translate=rng.random() < .4, inherit=rng.random() < .2)


def same_rows(got, want):
    return len(got) == len(want) and all(set(a) == set(b) and all(tables.same(a[k], b[k]) for k in a) for a, b in zip(got, want))


def run(case, mon, work):
    rng = random.Random(case['seed'])
    ts = case['tables']
    md = dbgen.describe(ts)
    for t, tmd in zip(ts, md['tables']):
        cols = tmd['tableSchema']['columns']
        if case['inherit'] and len({json.dumps(c['datatype']) for c in cols}) == 1 and len({c.get('separator') for c in cols}) == 1:
            # properties of columns may be given for the table
            mon.cover('inherited')
            for p in ['datatype', 'separator']:
                if p in cols[0]:
                    rng.choice([tmd, tmd['tableSchema']])[p] = cols[0][p]
                    for c in cols:
                        del c[p]
    day = csvw.Datatype(base='time').parse('00:00:00').date()
    want = {t['url']: dbgen.fixtime(day, t['cols'], dbgen.rows_of(t)) for t in ts}
    tg = csvw.TableGroup.fromvalue(md)
    for t in ts:
        mon.cover('pk:' + {0: 'none', 1: 'single', 2: 'composite'}[len(t['pk'])])
        if not t['rows']:
            mon.cover('empty-table')
        byname = {c['name']: c for c in t['cols']}
        for c in t['cols']:
            mon.cover('type:' + c['datatype'])
            if 'separator' in c and not any(c['name'] in fk[0] for fk in t['fks']):
                mon.cover('list')
                if c['datatype'] != 'string':
                    mon.cover('list-typed')
        for src, ref, tgt in t['fks']:
            mon.cover('fk:self' if ref == t['url'] else 'fk:composite' if len(src) > 1 else 'fk:list' if 'separator' in byname[src[0]]
                      else 'fk:non-pk' if tgt == ['uniq_col'] else 'fk:scalar')
        if len([1 for src, ref, _ in t['fks'] if 'separator' in byname[src[0]] and ref != t['url']]) > 1:
            mon.cover('fk:two-lists')
    tr, tname, cname = None, lambda x: x, lambda t, c: c
    if case['translate']:
        mon.cover('translated')

        def tr(table, column=None):
            return 'T ' + table[::-1] if column is None else 'C`' + column + '_' + table[:2]
        tname, cname = lambda t: tr(t), lambda t, c: tr(t, c)
    fname = None
    if case['file']:
        fname = work / 'x.sqlite'
        mon.cover('file')
        if rng.random() < .5:
            fname = str(fname)
    else:
        mon.cover('memory')
    data = want
    if case['csv']:
        # Not all values can be told from missing ones in CSV, so what is in there counts.
        (work / 'sub').mkdir()
        tg.write(work / 'md.json', **{k: v for k, v in want.items()})
        try:
            tg = csvw.TableGroup.from_file(work / 'md.json')
            data = {t['url']: [dict(r) for r in table.iterdicts(strict=True)] for t, table in zip(ts, tg.tables)}
            mon.cover('from-csv')
        except ValueError:
            # e.g. empty string as required value
            mon.count('not-from-csv')
            case['csv'] = False
        for t in ts if case['csv'] else []:
            for row in data[t['url']]:
                if any(row[k] is None for k in t['pk']):
                    mon.count('null-pk')
                    return
                for c in t['cols']:
                    # Lists with null elements have no representation in the database
                    if 'separator' in c and (row[c['name']] is None or any(x is None for x in row[c['name']])):
                        mon.count('null-in-list')
                        return
                if any(not tables.same(row[src[0]], w[src[0]]) for (src, _, _) in t['fks'] for row, w in zip(data[t['url']], want[t['url']])):
                    mon.count('other-key')
                    return
    db = Database(tg, fname, translate=tr)
    if case['csv']:
        before = {t['url']: (work / t['url']).read_bytes() for t in ts}
        db.write_from_tg()
        mon.eq({t['url']: (work / t['url']).read_bytes() for t in ts}, before, 'CSV files changed')
    else:
        mon.cover('from-rows')
        items = {}
        for k, rows in data.items():
            rows = [dict(r) for r in rows]
            if rng.random() < .5:
                mon.cover('shuffled-keys')
                for i, r in enumerate(rows):
                    ks = list(r)
                    rng.shuffle(ks)
                    rows[i] = {x: r[x] for x in ks}
            items[k] = rows
        ks = list(items)
        rng.shuffle(ks)
        db.write(**{k: items[k] for k in ks})

    byname = {t['url']: {c['name']: c for c in t['cols']} for t in ts}

    def verify(db, how):
        got = db.read()
        mon.check(set(got) <= {tname(t['url']) for t in ts}, 'tables read', got=list(got), how=how)
        for t in ts:
            rows = [dict(r) for r in got.get(tname(t['url']), [])]
            exp = [{cname(t['url'], k): v for k, v in r.items()} for r in data[t['url']]]
            if len(t['pk']) == 1 and byname[t['url']][t['pk'][0]]['datatype'] in ('integer', 'boolean'):
                # SQLite keeps rows of tables with integer keys in the order of the key
                k = cname(t['url'], t['pk'][0])
                by = [r[k] for r in exp]
                rows.sort(key=lambda r: by.index(r[k]) if r.get(k) in by else -1)
            mon.check(same_rows(rows, exp), 'rows differ: ' + how, table=t['url'], read=rows, written=exp)
            mon.count('rows', len(rows))
    verify(db, 'same object')
    verify(db, 'again')
    if case['file']:
        mon.cover('other-object')
        verify(Database(tg, fname, translate=tr), 'other object')
        con = sqlite3.connect(str(fname))
        mon.eq(con.execute('pragma integrity_check').fetchall(), [('ok',)], 'integrity of the file')
        mon.eq(con.execute('pragma foreign_key_check').fetchall(), [], 'foreign keys')
        for t in ts:
            n = con.execute('select count(*) from "{}"'.format(tname(t['url']).replace('"', '""'))).fetchone()[0]
            mon.eq(n, len(data[t['url']]), 'rows in the file')
        con.close()
    else:
        mon.eq(db.connection().execute('pragma foreign_key_check').fetchall(), [], 'foreign keys')
        db.connection().close()
    mon.event([(t['url'], len(t['rows'])) for t in ts], 'csv' if case['csv'] else 'rows')
