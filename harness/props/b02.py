"""Constraints enforced by the database."""
import contextlib
import decimal
import io
import random
import sqlite3

import csvw
from csvw.db import Database
from harness import g, vals, dbgen

RULE = ('Databases for groups of related tables with required columns, bounds (12 datatypes, at, just inside and outside '
        'of the bound) and lengths must accept rows which satisfy the constraints and reject with '
        'sqlite3.IntegrityError data in which one violation is planted: duplicate single/composite keys, dangling '
        'scalar/composite/list-valued/self-referential references, missing required values, values beyond a bound or length. '
        'sqlite3 reads the file in both cases.')
CASES = {'quick': 24000, 'thorough': 192000}
KINDS = ['required', 'pk', 'pk-composite', 'fk', 'fk-composite', 'fk-list', 'fk-self', 'min', 'max', 'length', 'minLength', 'maxLength', 'list-min']
REQUIRED = ['valid'] + ['rejected:' + k for k in KINDS if k != 'list-min'] + ['accepted:' + k for k in ('min', 'max', 'length', 'minLength', 'maxLength', 'list-min', 'null', 'self')] + [
    'required:' + k for k in ('column', 'schema', 'table', 'group')]

NUMS = {'integer': 'i', 'byte': 'i', 'unsignedInt': 'i', 'int': 'i', 'long': 'i', 'nonNegativeInteger': 'i', 'decimal': 'd', 'float': 'f', 'number': 'f', 'double': 'f'}
DATES = ['date', 'dateTime', 'datetime', 'dateTimeStamp']
STRS = ['string', 'NMTOKEN', 'normalizedString', 'QName', 'hexBinary', 'gYear', 'any_']


def gen(rng):
    return dict(tables=dbgen.gen(rng, minrows=2), kind=rng.choice(KINDS + ['valid'] * 4), seed=rng.randrange(10**6), file=rng.random() < .3)


def bounded(rng, mon, kind):
    """-> datatype description, valid values, violating values"""
    if kind in ('min', 'max'):
        sign = 1 if kind == 'min' else -1
        prop = 'minimum' if kind == 'min' else 'maximum'
        if rng.random() < .5:
            base = rng.choice(DATES)
            tz = 'Z' if base == 'dateTimeStamp' or (base != 'date' and rng.random() < .3) else ''
            if base == 'date':
                b = '%d-03-01' % rng.choice([999, 1900, 2019])
                y = b[:-6]
                ok, bad = [b, y + ('-03-02' if sign > 0 else '-02-28')], [y + ('-02-28' if sign > 0 else '-03-02')]
                ok, bad, b = [[x.rjust(10, '0') for x in z] for z in (ok, bad, [b])]
                b = b[0]
            else:
                b = '2019-03-01T10:00:00' + tz
                more, less = '2019-03-01T10:00:01' + tz, '2019-03-01T09:59:59' + tz
                ok, bad = [b, more], [less]
                if tz:
                    # the same instant in another timezone
                    ok.append('2019-03-01T12:00:00+02:00')
                    bad.append('2019-03-01T11:59:59+02:00' if sign > 0 else '2019-03-01T09:00:01-01:00')
                if sign < 0:
                    ok[1], bad[0] = bad[0], ok[1]
            return {'base': base, prop: b}, ok, bad
        base = rng.choice(sorted(NUMS))
        b = rng.choice([0, 5, 9, 10, 100] if base in ('unsignedInt', 'nonNegativeInteger') else [0, 5, -5, 9, 10, -10, 100])
        eps = '1' if NUMS[base] == 'i' else rng.choice(['1', '0.5', '0.001'])
        b, eps = decimal.Decimal(b), decimal.Decimal(eps)
        ok = [b, b + sign * eps, b + sign * 9, b + sign * 27]
        bad = [b - sign * eps]
        if base in ('unsignedInt', 'nonNegativeInteger'):
            ok = [x for x in ok if x >= 0]
            bad = [x for x in bad if x >= 0]
        ok, bad = [[format(x, 'f') for x in z] for z in (ok, bad)]
        if NUMS[base] == 'f':
            ok.append('INF' if sign > 0 else '-INF')
            bad.append('-INF' if sign > 0 else 'INF')
        bound = str(b) if rng.random() < .5 else int(b)
        return {'base': base, prop: bound}, ok, bad
    base = rng.choice(STRS)
    if base == 'any_':
        base = 'string'
    n = rng.choice([0, 1, 2, 3, 5]) if kind != 'minLength' else rng.choice([1, 2, 3])

    def s(k):
        if base == 'hexBinary':
            return 'F0' * k
        return ''.join(rng.choice('aé東\U0001F40D9' if base == 'string' else 'a9bc') for _ in range(k))
    if kind == 'length':
        ok, bad = [s(n)], [s(n + 1)] + ([s(n - 1)] if n else [])
    elif kind == 'minLength':
        ok, bad = [s(n), s(n + 1), s(n + 5)], [s(n - 1)]
    else:
        ok, bad = [s(n)] + ([s(n - 1)] if n else []), [s(n + 1), s(n + 4)]
    return {'base': base, kind: n}, ok, bad


def run(case, mon, work):
    rng = random.Random(case['seed'])
    rng.big = case['seed'] % 80 == 0
    ts, kind = case['tables'], case['kind']
    for t in ts:
        # times have been dealt with elsewhere
        for c in t['cols']:
            if c['datatype'] == 'time':
                j = t['cols'].index(c)
                c['datatype'] = 'string'
                for r in t['rows']:
                    r[j] = ['s', 'x'] if r[j][0] != 'l' else ['l', []]
    md = dbgen.describe(ts)
    data = {t['url']: dbgen.rows_of(t) for t in ts}
    i = rng.randrange(len(ts))
    t, s = ts[i], md['tables'][i]['tableSchema']
    rows = data[t['url']]
    # some columns of valid data are required and bounded
    extra = []
    for _ in range(g.size(rng, 0, 2, 15)):
        k = rng.choice(['min', 'max', 'length', 'minLength', 'maxLength'])
        dt, ok, bad = bounded(rng, mon, k)
        extra.append((k, dt, ok, bad))
    expect = None
    r = rng.randrange(len(rows))
    if kind in ('min', 'max', 'length', 'minLength', 'maxLength'):
        while True:
            dt, ok, bad = bounded(rng, mon, kind)
            if bad:
                break
        extra.insert(0, (kind, dt, ok, bad))
        expect = kind
    elif kind == 'list-min':
        # constraints of lists are not enforced, but mustn't be applied to the list as such either
        dt, ok, bad = bounded(rng, mon, rng.choice(['min', 'max', 'maxLength', 'length']))
        typ = csvw.Datatype.fromvalue(dt)
        s['columns'].append({'name': 'list col', 'datatype': dt, 'separator': '|'})
        for row in rows:
            ok = [x for x in ok if x]
            row['list col'] = [typ.parse(rng.choice(ok)) for _ in range(g.pick(rng, [0, 1, 2, 3], 25) if ok and dt['base'] != 'hexBinary' else 0)]
        mon.cover('accepted:list-min')
    for n, (k, dt, ok, bad) in enumerate(extra):
        typ = csvw.Datatype.fromvalue(dt)
        s['columns'].append({'name': 'extra %d' % n, 'datatype': dt})
        for row in rows:
            v = rng.choice(ok + [None])
            mon.cover('accepted:' + ('null' if v is None else k))
            row['extra %d' % n] = None if v is None else typ.parse(v)
        if n == 0 and expect:
            v = rng.choice(bad)
            # only the lexical space counts here
            rows[r]['extra 0'] = csvw.Datatype.fromvalue(dt['base']).parse(v)
            mon.event(dt, v)
    for c, row in [(c, row) for c in s['columns'] for row in [rows[r]]]:
        if c['name'] not in [x for fk in t['fks'] for x in fk[0]] and 'separator' not in c and all(x[c['name']] is not None for x in rows) and rng.random() < .3:
            c['required'] = True
    cols = {c['name']: c for c in s['columns']}
    if kind == 'required':
        c = [c for c in s['columns'] if c['name'] not in t['pk'] and 'separator' not in c and all(c['name'] not in fk[0] for fk in t['fks'])]
        # Referenced columns are no candidates
        c = [x for x in c if not any(u == t['url'] and x['name'] in b for tt in ts for _, u, b in tt['fks'])]
        if c:
            c = rng.choice(c)
            level = rng.choice(['column', 'column', 'schema', 'table', 'group'])
            mon.cover('required:' + level)
            if level == 'column':
                c['required'] = True
            else:
                # inherited by one column
                {'schema': s, 'table': md['tables'][i], 'group': md}[level]['required'] = True
                for tt in md['tables'] if level == 'group' else [md['tables'][i]]:
                    for x in tt['tableSchema']['columns']:
                        if x is not c:
                            x.setdefault('required', False)
                c.pop('required', None)
            for row in rows:
                if row[c['name']] is None:
                    row[c['name']] = next((x[c['name']] for x in rows if x[c['name']] is not None), None)
            rows[r][c['name']] = None
            expect = kind
    elif kind in ('pk', 'pk-composite') and len(t['pk']) == {'pk': 1, 'pk-composite': 2}[kind]:
        r2 = rng.choice([x for x in range(len(rows)) if x != r])
        for k in t['pk']:
            rows[r][k] = rows[r2][k]
        expect = kind
    elif kind.startswith('fk'):
        c = [fk for fk in t['fks'] if
             (fk[1] == t['url']) == (kind == 'fk-self') and (len(fk[0]) == 2) == (kind == 'fk-composite') and
             (kind == 'fk-self' or ('separator' in cols[fk[0][0]]) == (kind == 'fk-list'))]
        # self-referential ones of single values are not enforced unless asked for
        if c:
            src, url, tgt = rng.choice(c)
            ref = {tuple(x[k] for k in tgt) for x in data[url]}
            typ = cols[src[0]]['datatype']
            dangling = [vals.dec(dbgen.key(rng, typ, x)) for x in ((249, 250, 251) if typ in ('date', 'unsignedByte') else (4200, 4201, 4202))] if typ != 'string' or len(src) > 1 else ['dangling', ' ', 'A ', '']
            if len(src) == 2:
                # each of the two values is fine, but not together
                combos = [(a[0], b[1]) for a in ref for b in ref if (a[0], b[1]) not in ref]
                new = rng.choice(sorted(combos, key=repr)) if combos and rng.random() < .7 else None
                if new is None:
                    k = [cols[x]['datatype'] for x in src].index('integer')
                    full = rng.choice(sorted(ref, key=repr)) if ref else None
                    if full is not None:
                        new = tuple(7777 if n == k else x for n, x in enumerate(full))
                if new is not None:
                    for k, v in zip(src, new):
                        rows[r][k] = v
                    expect = kind
            else:
                v = rng.choice([x for x in dangling if (x,) not in ref])
                if 'separator' in cols[src[0]]:
                    lst = list(rows[r][src[0]])
                    lst.insert(rng.randint(0, len(lst)), v)
                    rows[r][src[0]] = lst
                    expect = 'fk-list' if kind == 'fk-list' else 'fk-self'
                else:
                    rows[r][src[0]] = v
                    expect = kind
    drop = True
    if kind in ('fk-self', 'valid'):
        # Self-referential foreign keys are enforced upon request, if rows refer to earlier ones.
        drop = False
        for tt in ts:
            for src, url, tgt in tt['fks']:
                if url == tt['url'] and 'separator' not in [c for c in tt['cols'] if c['name'] == src[0]][0]:
                    seen = []
                    for x, row in enumerate(data[url]):
                        seen.append(row[tgt[0]])
                        if not (expect == 'fk-self' and tt is t and x == r):
                            row[src[0]] = rng.choice(seen + [None])
                            mon.cover('accepted:self')
    fname = work / 'db.sqlite' if case['file'] else None
    tg = csvw.TableGroup.fromvalue(md)
    db = Database(tg, fname, drop_self_referential_fks=drop)
    exc = None
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            db.write(**data)
        except sqlite3.IntegrityError as e:
            exc = e
        except Exception as e:
            mon.fail('unexpected exception', exc=repr(e), md=md, data=data, kind=kind)
    con = sqlite3.connect(str(fname)) if fname else db.connection()
    try:
        counts = {u: con.execute('select count(*) from "{}"'.format(u.replace('"', '""'))).fetchone()[0] for u in data}
        if expect:
            mon.cover('rejected:' + expect)
            mon.check(exc is not None, 'violation not rejected: ' + expect, schema=s, rows=rows)
            mon.check(not any(counts.values()), 'rows of rejected data in the database', counts=counts)
        else:
            mon.cover('valid')
            mon.check(exc is None, 'valid data rejected', exc=repr(exc), schema=s, rows=rows)
            mon.eq(counts, {u: len(x) for u, x in data.items()}, 'rows')
            mon.eq(con.execute('pragma foreign_key_check').fetchall(), [], 'foreign keys')
            mon.eq(con.execute('pragma integrity_check').fetchall(), [('ok',)], 'integrity')
    finally:
        con.close()
