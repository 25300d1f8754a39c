"""Primary keys are checked on typed values of all valid rows."""
import warnings

import csvw
from harness import g, keys

RULE = ('Tables with primary keys of 1-3 columns (21 kinds of datatypes and formats, list-valued, nullable, with defaults) and rows with duplicates planted '
        'at random places - also in different lexical forms, far apart, or differing in one component only - and '
        'invalid rows; verdict and reported lines are compared with the equality classes of the generated texts.')
CASES = {'quick': 28000, 'thorough': 224000}
REQUIRED = ['unique', 'duplicate', 'lexical-duplicate', 'composite', 'single', 'near-miss', 'list-key', 'null-key',
            'invalid-row', 'no-key', 'many-rows', 'raise', 'several',
            'default', 'deprecated'] + ['kind:' + k for k in keys.KINDS]


def gen(rng):
    n = g.size(rng, 1, 5, 9)
    names = g.idents(rng, n)
    cols = []
    for nm in names:
        c = keys.column(rng, nm, rng.choice(list(keys.KINDS) + ['integer', 'string', 'decimal', 'date', 'json']))
        if rng.random() < .15:
            c['separator'] = ';'
        cols.append(c)
    pk = rng.sample(range(n), rng.randint(0 if rng.random() < .1 else 1, n if rng.random() < .2 else min(n, 3)))
    rows = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8, rng.choice([30, 30, 300]) if rng.random() < .2 else 4, g.size(rng, 4, 4, 300)])):
        if rows and rng.random() < .4:
            # derive from an earlier row
            row = [keys.other(rng, c['kind'], t) for c, t in zip(cols, rng.choice(rows))]
            if rng.random() < .5:
                i = rng.randrange(n)
                row[i] = keys.text(rng, cols[i]['kind'])
        else:
            row = [keys.text(rng, c['kind']) if not (c.get('separator') and rng.random() < .5)
                   else ';'.join(keys.text(rng, c['kind']) for _ in range(g.size(rng, 2, 2, 20))) for c in cols]
        if rng.random() < .08:
            row[rng.randrange(n)] = ''
        if rng.random() < .08:
            row[rng.randrange(n)] = 'xyz'
        if rng.random() < .08:
            i = rng.randrange(n)
            row[i] = 'NA' if 'null' in cols[i] else ''
        rows.append(row)
    return dict(cols=cols, pk=pk, rows=rows, single=rng.random() < .5, deprecated=rng.random() < .1)


class Log:
    def __init__(self):
        self.msgs = []

    def warning(self, m):
        self.msgs.append(m)


def run(case, mon, work):
    cols, pk = case['cols'], case['pk']
    names = [c['name'] for c in cols]
    schema = {'columns': [keys.describe(c) for c in cols]}
    if pk:
        schema['primaryKey'] = names[pk[0]] if len(pk) == 1 and case['single'] else [names[i] for i in pk]
        mon.cover('single' if len(pk) == 1 else 'composite')
    else:
        mon.cover('no-key')
    table = csvw.TableGroup.fromvalue({'tables': [{'url': 'k.csv', 'tableSchema': schema}]}).tables[0]
    table._parent._fname = work / 'md.json'
    p = work / 'k.csv'
    rows = [r for r in case['rows'] if r != ['']]
    p.write_text(g.dump([names] + rows), encoding='utf8', newline='')
    line, seen, texts, dups = 1, set(), set(), []
    if len(rows) > 20:
        mon.cover('many-rows')
    for row in rows:
        line += g.dump([row]).count('\n')
        try:
            vs = [keys.read(c, t) for c, t in zip(cols, row)]
        except keys.Invalid:
            mon.cover('invalid-row')
            continue
        if not pk:
            continue
        k = tuple(vs[i] for i in pk)
        for i in pk:
            mon.cover('kind:' + cols[i]['kind'])
            if not row[i] and vs[i] is not None and 'default' in cols[i]:
                mon.cover('default')
        if any(isinstance(x, tuple) for x in k):
            mon.cover('list-key')
        if None in k:
            mon.cover('null-key')
        if k in seen:
            mon.cover('duplicate')
            if tuple(row[i] for i in pk) not in texts:
                mon.cover('lexical-duplicate')
            dups.append(line)
        else:
            if len(pk) > 1 and any(sum(a == b for a, b in zip(k, s)) == len(k) - 1 for s in seen):
                mon.cover('near-miss')
            seen.add(k)
        texts.add(tuple(row[i] for i in pk))
    mon.cover('unique' if not dups else 'several' if len(dups) > 1 else 'one')
    log = Log()
    mon.eq(table.check_primary_key(log=log), not dups, 'verdict is wrong', log=log.msgs[:3])
    mon.eq([m.split(': ')[0].split(' ')[0] for m in log.msgs], ['{}:{}'.format(p, ln) for ln in dups],
           'reported duplicates differ', log=log.msgs[:3])
    mon.check(all('duplicate primary key' in m for m in log.msgs), 'unexpected report', log=log.msgs[:3])
    if dups:
        mon.cover('raise')
        e = mon.raises(ValueError, table.check_primary_key, 'duplicate key not reported')
        mon.check(str(e).startswith('{}:{} '.format(p, dups[0])), 'wrong line reported', exc=str(e), want=dups[0])
    else:
        mon.eq(table.check_primary_key(), True, 'verdict is wrong')
    if case['deprecated']:
        # an argument which is still accepted, without an effect
        mon.cover('deprecated')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mon.eq(table.check_primary_key(log=Log(), items=[]), not dups, 'verdict with items argument')
            mon.eq(table.check_primary_key(log=Log(), items=[dict.fromkeys(names, 1)] * 2), not dups, 'verdict with items argument')
    mon.event(len(rows), 'rows', len(dups), 'duplicates')
    mon.count('keys', len(seen))
