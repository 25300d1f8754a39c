"""Groups of related tables with typed rows for the database properties."""
import random

from harness import g, vals

TYPES = ['string', 'integer', 'boolean', 'decimal', 'date', 'float', 'json', 'anyURI', 'hexBinary', 'dateTime', 'binary',
         'byte', 'unsignedLong', 'positiveInteger', 'number', 'double', 'time', 'duration', 'yearMonthDuration',
         'dateTimeStamp', 'NMTOKEN', 'gYear', 'normalizedString', 'base64Binary', 'long', 'any', 'QName']
KEYTYPES = ['string', 'integer', 'date', 'NMTOKEN', 'unsignedByte', 'decimal', 'positiveInteger']
LISTTYPES = ['string', 'integer', 'boolean', 'decimal', 'date', 'float', 'anyURI', 'byte', 'dateTime', 'NMTOKEN']
SEPS = [';', '|', ' ', '#']


def value(rng, base):
    """Values which SQLite's storage classes can hold exactly."""
    while True:
        v = vals.gen_value(rng, base)
        if base == 'integer' and not -2**63 <= v[1] < 2**63:
            continue
        if base == 'decimal' and len(vals.dec(v).as_tuple().digits) > 15:
            continue
        return v


def key(rng, base, i):
    """The i-th of distinct keys."""
    if base == 'integer':
        return ['i', i]      # 0 is a key as any other
    if base == 'unsignedByte':
        return ['i', i + 3]
    if base == 'positiveInteger':
        return ['i', i + 1]
    if base == 'decimal':
        return ['d', '%d.5' % i]
    if base == 'date':
        return ['dt', '2020-%02d-%02dT00:00:00' % (i // 28 + 1, i % 28 + 1)]
    if base == 'NMTOKEN':
        return ['s', 'k-%d' % i]
    return ['s', ['a b', 'x', "it's", '0', 'é', 'A', '`', '1.50', 'NULL', ' y', '007', 'a||b', 'x y z', '%'][i % 14] + (str(i) if i > 13 else '')]


NAMES = ['id', 'order', 'select', 'it\'s', 'a b', 'x`y', 'Name "x"', 'été', 'group', 'a,b', 'x;', 'from', '?', ':a', 'a.b', '%s', '[x]']


def names(rng, k):
    res = []
    while len(res) < k:
        n = rng.choice(NAMES) if rng.random() < .3 else g.ident(rng)
        # SQLite's names are not case-sensitive.
        if n.lower() not in [r.lower() for r in res] and n.lower() not in ('rowid', 'oid', '_rowid_'):
            res.append(n)
    return res


def gen(rng, maxtables=4, lists=True, minrows=0):
    """-> list of tables: url, cols (name, datatype, separator), pk (names), fks, rows"""
    ts = []
    n = g.size(rng, 1, maxtables, 9)
    urls = rng.sample(['t.csv', 'sub/x.csv', 'a b.csv', 'order', 'data', 'Été.csv', "o'k.csv", 'b`c', 'x.tsv', 'q"r.csv'], n)
    if lists:
        # the association tables' names must be distinct, too
        urls = [u.replace('_', '-') for u in urls]
    for i in range(n):
        nrows = max(minrows, g.pick(rng, [0, 1, 2, 3, 5, 8], 240))
        kt = rng.choice(KEYTYPES if nrows < 250 else ['string', 'integer', 'decimal', 'positiveInteger', 'NMTOKEN'])
        kind = rng.choice(['single', 'single', 'single', 'composite', 'none'])
        more = g.size(rng, 0, 3, 25)
        ns = names(rng, 5 + max(more, 1))
        cols, data = [], []
        pk = []
        if kind == 'single':
            pk = [ns[0]]
            cols.append({'name': ns[0], 'datatype': kt})
            data.append([key(rng, kt, r) for r in rng.sample(range(nrows + 2), nrows)])
        elif kind == 'composite':
            pk = [ns[1], ns[0]] if rng.random() < .5 else [ns[0], ns[1]]
            cols += [{'name': ns[0], 'datatype': 'integer'}, {'name': ns[1], 'datatype': 'string'}]
            data += [[['i', r // 2] for r in range(nrows)], [['s', 'ab'[r % 2]] for r in range(nrows)]]
        used = 2
        fks = []
        if i and rng.random() < .8:
            ref = rng.choice(ts)
            if len(ref['pk']) == 1:
                j = [c['name'] for c in ref['cols']].index(ref['pk'][0])
                refkeys = [row[j] for row in ref['rows']]
                c = {'name': ns[2], 'datatype': ref['cols'][j]['datatype']}
                if lists and kind == 'single' and rng.random() < .6:
                    c['separator'] = '\x1f' if rng.random() < .2 else rng.choice(['|||', '\t'])
                    data.append([['l', [rng.choice(refkeys) for _ in range(g.pick(rng, [0, 1, 2, 3], 25))] if refkeys else []] for _ in range(nrows)])
                else:
                    data.append([rng.choice(refkeys + [['n']]) for _ in range(nrows)])
                cols.append(c)
                fks.append(([ns[2]], ref['url'], list(ref['pk'])))
                if lists and 'separator' in c and rng.random() < .4:
                    # another one to the same table
                    cols.append(dict(c, name=ns[3]))
                    data.append([['l', [rng.choice(refkeys) for _ in range(g.pick(rng, [0, 1, 2], 25))] if refkeys else []] for _ in range(nrows)])
                    fks.append(([ns[3]], ref['url'], list(ref['pk'])))
            elif ref['pk']:
                cn = [c['name'] for c in ref['cols']]
                order = [0, 1] if rng.random() < .5 else [1, 0]
                tgt = [ref['pk'][o] for o in order]
                src = [ns[2], ns[3]]
                if rng.random() < .5:
                    src.reverse()
                picks = [rng.choice(ref['rows']) if ref['rows'] else None for _ in range(nrows)]
                for s, t in zip(src, tgt):
                    k = cn.index(t)
                    cols.append({'name': s, 'datatype': ref['cols'][k]['datatype']})
                    data.append([['n'] if p is None else p[k] for p in picks])
                fks.append((src, ref['url'], tgt))
            else:
                # a unique column which is no primary key
                nm = 'uniq_col'
                if nm not in [c['name'] for c in ref['cols']]:
                    ref['cols'].append({'name': nm, 'datatype': 'string'})
                    for r, row in enumerate(ref['rows']):
                        row.append(['s', 'u%d' % r])
                j = [c['name'] for c in ref['cols']].index(nm)
                cols.append({'name': ns[2], 'datatype': 'string'})
                data.append([rng.choice([row[j] for row in ref['rows']] + [['n']]) for _ in range(nrows)])
                fks.append(([ns[2]], ref['url'], [nm]))
        if kind == 'single' and rng.random() < .25:
            # self-referential
            own = data[0]
            c = {'name': ns[4], 'datatype': kt}
            if lists and rng.random() < .5:
                c['separator'] = '\t'
                data.append([['l', [rng.choice(own) for _ in range(g.pick(rng, [0, 1, 2], 25))]] for _ in range(nrows)])
            else:
                data.append([rng.choice(own + [['n']]) for _ in range(nrows)])
            cols.append(c)
            fks.append(([ns[4]], urls[i], list(pk)))
        for nm in ns[5:5 + max(more, 0 if cols else 1)]:
            base = rng.choice(TYPES)
            if rng.random() < .2:
                base = rng.choice(LISTTYPES)
                sep = rng.choice(SEPS)
                cols.append({'name': nm, 'datatype': base, 'separator': sep})
                col = []
                for _ in range(nrows):
                    items = []
                    for _ in range(g.pick(rng, [0, 1, 2, 3], 25)):
                        v = value(rng, base)
                        if base == 'string':
                            v = ['s', v[1].replace(sep, '') or 'x']
                        if base == 'NMTOKEN' and not v[1]:
                            continue
                        items.append(v)
                    col.append(['l', items])
                data.append(col)
            else:
                cols.append({'name': nm, 'datatype': base})
                data.append([['n'] if rng.random() < .15 else value(rng, base) for _ in range(nrows)])
        # columns come in any order
        order = list(range(len(cols)))
        rng.shuffle(order)
        cols = [cols[o] for o in order]
        rows = [[data[o][r] for o in order] for r in range(nrows)]
        ts.append(dict(url=urls[i], cols=cols, pk=pk, fks=fks, rows=rows))
    return ts


def describe(ts, rng=None):
    tables = []
    for t in ts:
        s = {'columns': [dict(c) for c in t['cols']]}
        if t['pk']:
            s['primaryKey'] = list(t['pk'])
        if t['fks']:
            s['foreignKeys'] = [
                {'columnReference': list(a), 'reference': {'resource': u, 'columnReference': list(b)}}
                for a, u, b in t['fks']]
        tables.append({'url': t['url'], 'tableSchema': s})
    return {'@context': 'http://www.w3.org/ns/csvw', 'tables': tables}


def rows_of(t):
    ns = [c['name'] for c in t['cols']]
    return [dict(zip(ns, map(vals.dec, r))) for r in t['rows']]


def fixtime(day, cols, rows):
    """Values of time columns all have the same date."""
    import datetime
    for c in cols:
        if c['datatype'] == 'time':
            for r in rows:
                v = r[c['name']]
                if isinstance(v, datetime.datetime):
                    r[c['name']] = datetime.datetime.combine(day, v.timetz())
    return rows
