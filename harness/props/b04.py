"""Schema of the database."""
import random
import sqlite3

import csvw
from csvw.db import Database
from harness import g, dbgen

RULE = ('Groups of 1-130 tables with acyclic foreign keys, declared in any order, with hostile names and name translators: '
        "sqlite3's own catalogue (sqlite_master, table_xinfo, foreign_key_list, index_list) of the created database must "
        'list exactly the described tables, columns in order, type affinities, NOT NULL flags, primary and foreign keys, under the '
        'translated names; cycles must be reported as ValueError before anything is created.')
CASES = {'quick': 6000, 'thorough': 48000}
REQUIRED = ['many', 'cycle', 'self', 'self-kept', 'association', 'composite', 'translated', 'hostile', 'reversed', 'split', 'required'] + [
    'type:' + t for t in ['list', 'integer', 'boolean', 'decimal', 'hexBinary', 'string', 'date', 'time']]


TYPES = {'integer': ['INTEGER'], 'boolean': ['INTEGER'], 'decimal': ['REAL', 'NUMERIC'], 'hexBinary': ['BLOB']}


def types(c):
    return ['TEXT'] if 'separator' in c else TYPES.get(c['datatype'], ['TEXT'])


def affinity(t):
    """https://www.sqlite.org/datatype3.html#determination_of_column_affinity"""
    t = t.upper()
    return 'INTEGER' if 'INT' in t else 'TEXT' if any(x in t for x in ('CHAR', 'CLOB', 'TEXT')) else 'BLOB' if 'BLOB' in t or not t else \
        'REAL' if any(x in t for x in ('REAL', 'FLOA', 'DOUB')) else 'NUMERIC'


def gen(rng):
    return dict(n=rng.choice([1, 2, 3, 4, 5, 8, 12, 12, 110 if rng.random() < .1 else 6]), seed=rng.randrange(10**7), translate=rng.random() < .5,
                cycle=rng.random() < .1, file=rng.random() < .3, order=rng.choice(['given', 'reversed', 'shuffled', 'shuffled']))


def run(case, mon, work):
    rng = random.Random(case['seed'])
    rng.big = case['seed'] % 80 == 0
    n = case['n']
    if n > 100:
        mon.cover('many')
    ts = []
    taken = set()
    for i in range(n):
        hostile = rng.random() < .15
        url = 't%d.csv' % i if not hostile else rng.choice(dbgen.NAMES) + str(i)
        if hostile:
            mon.cover('hostile')
        cols = [{'name': c} for c in dbgen.names(rng, g.size(rng, 3, 6, 40))]
        for c in cols:
            c['datatype'] = rng.choice(['string', 'integer', 'string', 'decimal', 'date', 'boolean', 'hexBinary', 'time'])
            if rng.random() < .2:
                c['required'] = True
                mon.cover('required')
        single = rng.random() < .7
        pk = [c['name'] for c in rng.sample(cols, 1 if single else 2)] if i == 0 or rng.random() < .8 else []
        t = dict(url=url, cols=cols, pk=pk, fks=[])
        free = [c for c in cols if c['name'] not in pk]
        for _ in range(g.pick(rng, [0, 1, 1, 2], 9)):
            c = [x for x in ts if x['pk'] and len(x['pk']) <= len(free)]
            if rng.random() < .15 and len(pk) == 1:
                c = [t]
            if not c:
                continue
            ref = rng.choice(c)
            if len(ref['pk']) > len(free):
                continue
            src = [free.pop(rng.randrange(len(free))) for _ in ref['pk']]
            tgt = list(ref['pk'])
            if len(tgt) > 1:
                mon.cover('composite')
                if rng.random() < .5:
                    tgt.reverse()
            for s, k in zip(src, tgt):
                s['datatype'] = next(x['datatype'] for x in ref['cols'] if x['name'] == k)
            if len(src) == 1 and len(pk) == 1 and rng.random() < .3 and (t['url'], ref['url']) not in taken:
                src[0]['separator'] = ';'
                src[0].pop('required', None)
                taken.add((t['url'], ref['url']))
                mon.cover('association')
            if ref is t:
                mon.cover('self')
            t['fks'].append(([s['name'] for s in src], ref['url'], tgt))
        for c in free:
            if 'separator' not in c and rng.random() < .1:
                c['separator'] = rng.choice(['|', '; '])
        ts.append(t)
    cyclic = False
    if case['cycle']:
        # close a cycle
        for t in ts[::-1]:
            refs = [x for x in ts if x is not t and any(u == x['url'] for s, u, b in t['fks'] if 'separator' not in [c for c in t['cols'] if c['name'] == s[0]][0])]
            if refs and len(t['pk']) == 1:
                refs[0]['cols'].append({'name': 'back_ref', 'datatype': 'string'})
                refs[0]['fks'].append((['back_ref'], t['url'], t['pk']))
                cyclic = True
                break
    declared = list(ts)
    if case['order'] == 'reversed':
        declared.reverse()
        mon.cover('reversed')
    elif case['order'] == 'shuffled':
        rng.shuffle(declared)
    tg = csvw.TableGroup.fromvalue(dbgen.describe(declared))
    keep = rng.random() < .5
    tr, tn, cn = None, lambda t: t, lambda t, c: c
    if case['translate']:
        mon.cover('translated')

        def tr(table, column=None):
            return ('T_%s "x"' % table) if column is None else 'c %s`%d' % (column, len(table))
        tn, cn = lambda t: tr(t), lambda t, c: tr(t, c)
    fname = work / 'x.sqlite' if case['file'] else None
    if cyclic:
        mon.cover('cycle')
        mon.raises(ValueError, lambda: Database(tg, fname, translate=tr).write(), 'cyclic references')
        mon.check(fname is None or not fname.exists(), 'file created')
        return
    db = Database(tg, fname, translate=tr, drop_self_referential_fks=not keep)
    db.write()
    con = sqlite3.connect(str(fname)) if fname else db.connection()

    def q(s):
        return '"' + s.replace('"', '""') + '"'
    exp = {tn(t['url']) for t in ts}
    for t in ts:
        bycol = {c['name']: c for c in t['cols']}
        m2m = {s[0]: (u, b) for s, u, b in t['fks'] if 'separator' in bycol[s[0]]}
        info = con.execute('pragma table_xinfo(%s)' % q(tn(t['url']))).fetchall()
        mon.eq([r[1] for r in info], [cn(t['url'], c['name']) for c in t['cols'] if c['name'] not in m2m], 'columns')
        for c, r in zip([c for c in t['cols'] if c['name'] not in m2m], info):
            mon.check(affinity(r[2]) in types(c), 'type of column', column=c, declared=r[2])
            mon.cover('type:' + ('list' if 'separator' in c else c['datatype']))
        mon.eq([bool(r[3]) for r in info], [bool(c.get('required')) for c in t['cols'] if c['name'] not in m2m], 'NOT NULL')
        mon.eq([c for _, c in sorted((r[5], r[1]) for r in info if r[5])], [cn(t['url'], c) for c in t['pk']], 'primary key')
        fks = {}
        for r in con.execute('pragma foreign_key_list(%s)' % q(tn(t['url']))):
            fks.setdefault(r[0], []).append((r[1], r[2], r[3], r[4]))
        got = sorted((v[0][1], [x[2] for x in sorted(v)], [x[3] for x in sorted(v)]) for v in fks.values())
        want = sorted((tn(u), [cn(t['url'], c) for c in s], [cn(u, c) for c in b]) for s, u, b in t['fks']
                      if s[0] not in m2m and (u != t['url'] or keep))
        mon.eq(got, want, 'foreign keys')
        if keep and any(u == t['url'] for _, u, _ in t['fks']):
            mon.cover('self-kept')
        for c, (u, b) in m2m.items():
            name = '{}_{}'.format(t['url'], u)
            exp.add(tn(name))
            refs = {(r[2], r[4]) for r in con.execute('pragma foreign_key_list(%s)' % q(tn(name)))}
            info = con.execute('pragma table_xinfo(%s)' % q(tn(name))).fetchall()
            mon.eq(len(info), 3, 'columns of association table')
            mon.check(cn(name, 'context') in [x[1] for x in info], 'context column of association table')
            for x, (tt, k) in zip(info, [(t, t['pk'][0]), (next(x for x in ts if x['url'] == u), b[0])]):
                mon.check(affinity(x[2]) in types(next(z for z in tt['cols'] if z['name'] == k)), 'type in association table', declared=x[2])
            mon.eq(refs, {(tn(t['url']), cn(t['url'], t['pk'][0])), (tn(u), cn(u, b[0]))}, 'foreign keys of association table')
        for c in t['cols']:
            if c['name'] not in m2m:
                mon.eq(db.separator(tn(t['url']), cn(t['url'], c['name'])), c.get('separator'), 'separator')
                if c.get('separator'):
                    mon.cover('split')
                    mon.eq(db.split_value(tn(t['url']), cn(t['url'], c['name']), c['separator'].join('abc')), list('abc'), 'split')
    got = {r[0] for r in con.execute("select name from sqlite_master where type = 'table'")}
    mon.eq(got, exp, 'tables')
    con.close()
    mon.event(n, case['order'], len(exp))
