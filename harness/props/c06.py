"""Referential integrity across tables."""
import collections
import warnings

import csvw
from harness import g, keys

RULE = ('Table groups of 1-4 tables with random foreign keys (single, composite, list-valued, self-referential, '
        'several per table, same columns to different tables, 21 kinds of datatypes and formats with several lexical forms) and dangling, '
        'null and partially null references planted at random rows; verdict and reported file:line are compared '
        'with the equality classes of the generated texts; strict mode and faulty key descriptions included.')
CASES = {'quick': 20000, 'thorough': 160000}
REQUIRED = ['ok', 'dangling', 'composite', 'list-valued', 'self', 'lexical', 'null', 'partial-null', 'several-keys',
            'raise', 'strict-null', 'strict-duplicate', 'strict-ok', 'unknown-table', 'unknown-column',
            'datatype-mismatch', 'length-mismatch', 'invalid-row', 'list-dangling', 'same-target', 'deprecated', 'by-title', 'by-property'] + ['kind:' + k for k in keys.KINDS]


def gen(rng):
    nt = g.size(rng, 1, 4, 12)
    ts = []
    for i in range(nt):
        n = g.size(rng, 1, 4, 12)
        cols = [keys.column(rng, nm, rng.choice(list(keys.KINDS) + ['string', 'integer', 'json'] * 3)) for nm in g.idents(rng, n, 2)]
        ts.append(dict(url='t{}.csv'.format(i), cols=cols, fks=[], rows=[]))
    for _ in range(g.pick(rng, [1, 1, 2, 3, 5], 16)):
        a, b = rng.randrange(nt), rng.randrange(nt)
        k = g.pick(rng, [1, 1, 2, 1, 1, 2, 3], 6) or 1
        src, dst = ts[a]['cols'], ts[b]['cols']
        if len(dst) < k:
            continue
        to = rng.sample(range(len(dst)), k)
        if any(dst[j].get('separator') for j in to):
            continue
        frm = []
        for j in to:
            c = [i for i in range(len(src)) if i not in frm and src[i]['kind'] == dst[j]['kind']
                 and not src[i].get('separator')]
            if not c:
                nm = 'fk{}'.format(len(src))
                while nm in [c['name'] for c in src]:
                    nm += 'x'
                src.append(keys.column(rng, nm, dst[j]['kind']))
                if k == 1 and rng.random() < .5:
                    src[-1]['separator'] = ';'
                c = [len(src) - 1]
            frm.append(rng.choice(c))
        ts[a]['fks'].append([frm, b, to])
    for t in ts:
        for _ in range(g.pick(rng, [0, 1, 2, 4, 6], 200 if nt < 5 else 10)):
            t['rows'].append([keys.text(rng, c['kind']) for c in t['cols']])
    # make most references valid
    for _ in range(2):
        for t in ts:
            for frm, b, to in t['fks']:
                for row in t['rows']:
                    if ts[b]['rows'] and rng.random() < .88:
                        target = rng.choice(ts[b]['rows'])
                        for i, j in zip(frm, to):
                            x = keys.other(rng, t['cols'][i]['kind'], target[j])
                            if t['cols'][i].get('separator'):
                                for _ in range(g.size(rng, 1, 1, 20)):
                                    y = rng.choice(ts[b]['rows'])[j]
                                    if rng.random() < (.9 if rng.big else .4) and y:
                                        x = x + ';' + y if x else y
                            row[i] = x
    for t in ts:
        for row in t['rows']:
            if rng.random() < .1:
                row[rng.randrange(len(row))] = ''
            if rng.random() < .1:
                i = rng.randrange(len(row))
                row[i] = 'NA' if 'null' in t['cols'][i] else ''
            if rng.random() < .04:
                row[rng.randrange(len(row))] = 'xyz'
    fault = None
    if rng.random() < .15 and any(t['fks'] for t in ts):
        fault = rng.choice(['unknown-table', 'unknown-column', 'datatype-mismatch', 'length-mismatch'])
    for t in ts:
        if rng.random() < .2:
            t['by'] = rng.choice(['title', 'property'])
    return dict(tables=ts, fault=fault)


class Log:
    def __init__(self):
        self.msgs, self.errors = [], []

    def warning(self, m):
        self.msgs.append(m)

    def error(self, m):
        self.errors.append(m)


def run(case, mon, work):
    ts = case['tables']
    desc = {'tables': []}
    for t in ts:
        names = [c['name'] for c in t['cols']]
        desc['tables'].append({'url': t['url'], 'tableSchema': {'columns': [keys.describe(c) for c in t['cols']], 'foreignKeys': [{
            'columnReference': [names[i] for i in frm],
            'reference': {'resource': ts[b]['url'], 'columnReference': [ts[b]['cols'][j]['name'] for j in to]}
        } for frm, b, to in t['fks']]}})
        if 'by' in t and not case['fault']:
            # columns may be referenced by other means than their name, too
            for n, c in zip(names, desc['tables'][-1]['tableSchema']['columns']):
                if t['by'] == 'title':
                    c['titles'] = {'en': ['Title', 'title of ' + n]}
                else:
                    c['propertyUrl'] = 'http://example.org/' + n
        if len(t['fks']) > 1:
            mon.cover('several-keys')
            if len({(b, tuple(to)) for _, b, to in t['fks']}) < len(t['fks']):
                mon.cover('same-target')
        t['rows'] = [r for r in t['rows'] if r != ['']]
        (work / t['url']).write_text(g.dump([names] + t['rows']), encoding='utf8', newline='')

    if not case['fault']:
        for t, d in zip(ts, desc['tables']):
            for fk, (_, b, _) in zip(d['tableSchema']['foreignKeys'], t['fks']):
                for where, tab in ((fk, t), (fk['reference'], ts[b])):
                    if 'by' in tab:
                        where['columnReference'] = [
                            {'title': 'title of ', 'property': 'http://example.org/'}[tab['by']] + n for n in where['columnReference']]
                        mon.cover('by-' + tab['by'])

    def tg(d=desc):
        res = csvw.TableGroup.fromvalue(d)
        res._fname = work / 'md.json'
        return res
    log = Log()
    if case['fault']:
        mon.cover(case['fault'])
        for t in desc['tables']:
            for fk in t['tableSchema']['foreignKeys']:
                if case['fault'] == 'unknown-table':
                    fk['reference']['resource'] = 'nope.csv'
                elif case['fault'] == 'unknown-column':
                    fk['reference']['columnReference'][-1] = 'no such column'
                elif case['fault'] == 'length-mismatch':
                    fk['columnReference'].append(t['tableSchema']['columns'][0]['name'])
                else:
                    ref = next(c for c in t['tableSchema']['columns'] if c['name'] == fk['columnReference'][0])
                    base = ref.get('datatype')
                    base = base['base'] if isinstance(base, dict) else base
                    if base is None:
                        # nothing to compare with
                        mon.count('undeclared')
                        return
                    fk['reference']['resource'] = 'other.csv'
                    fk['reference']['columnReference'] = ['x'] * len(fk['columnReference'])
                    other = {'url': 'other.csv', 'tableSchema': {'columns': [
                        {'name': 'x', 'datatype': 'decimal' if base == 'integer' else 'integer'}]}}
                    if other not in desc['tables']:
                        desc['tables'].append(other)
                    (work / 'other.csv').write_text('x\r\n1\r\n')
                break
            else:
                continue
            break
        group = tg()
        mon.raises(ValueError, group.validate_schema, 'faulty foreign key accepted')
        mon.raises(ValueError, group.check_referential_integrity, 'faulty foreign key accepted')
        mon.eq(tg().check_referential_integrity(log=log), False, 'verdict on faulty foreign key')
        mon.check(bool(log.errors), 'faulty foreign key not reported')
        return
    parsed, invalid = [], 0
    for t in ts:
        line, out = 1, []
        for row in t['rows']:
            line += g.dump([row]).count('\n')
            try:
                out.append((line, [keys.read(c, x) for c, x in zip(t['cols'], row)], row))
            except keys.Invalid:
                invalid += 1
                mon.cover('invalid-row')
        parsed.append(out)
    want, strict_null, strict_dup = [], False, False
    for ti, t in enumerate(ts):
        for frm, b, to in t['fks']:
            targets = [tuple(r[j] for j in to) for _, r, _ in parsed[b]]
            known = set(targets)
            texts = {tuple(r[j] for j in to) for r in ts[b]['rows']}
            strict_dup |= len(known) < len(targets)
            mon.cover('composite' if len(to) > 1 else 'single')
            if b == ti:
                mon.cover('self')
            for line, r, text in parsed[ti]:
                vs = [r[i] for i in frm]
                strict_null |= any(v is None for v in vs)
                if any(v is None for v in vs):
                    mon.cover('null' if all(v is None for v in vs) else 'partial-null')
                    continue
                lst = isinstance(vs[0], tuple)
                if lst:
                    mon.cover('list-valued')
                for i in frm:
                    mon.cover('kind:' + t['cols'][i]['kind'])
                refs = [(x,) for x in vs[0][1:]] if lst else [tuple(vs)]
                for ref in refs:
                    if ref not in known:
                        mon.cover('list-dangling' if lst else 'dangling')
                        want.append('{}:{}'.format(work / t['url'], line))
                    elif not lst:
                        x = tuple(text[i] for i in frm)
                        if x not in texts:
                            mon.cover('lexical')
    res = tg().check_referential_integrity(log=log)
    mon.eq(res, not want, 'verdict is wrong', log=log.msgs[:3])
    mon.eq(log.errors, [], 'valid foreign keys reported')
    got = [m.split(' Key ')[0] for m in log.msgs if ' not found in table ' in m]
    mon.eq(collections.Counter(got), collections.Counter(want), 'reported rows differ', log=log.msgs[:4])
    fks = {(t['url'], tuple(frm), b, tuple(to)) for t in ts for frm, b, to in t['fks']}
    mon.check(bool(invalid) or len(got) == len(log.msgs), 'unexpected reports', log=log.msgs[:4])
    if not want:
        mon.cover('ok')
    if not invalid:
        if want:
            mon.cover('raise')
            mon.raises(ValueError, tg().check_referential_integrity, 'dangling reference accepted')
        else:
            mon.eq(tg().check_referential_integrity(), True, 'verdict is wrong')
        # strict mode additionally requires non-null and unique keys
        if strict_null:
            mon.cover('strict-null')
            mon.raises(ValueError, lambda: tg().check_referential_integrity(log=Log(), strict=True),
                       'null foreign key accepted in strict mode')
        else:
            mon.cover('strict-duplicate' if strict_dup else 'strict-ok')
            mon.eq(tg().check_referential_integrity(log=Log(), strict=True), not want and not strict_dup,
                   'verdict in strict mode', dup=strict_dup, dangling=want)
    if len(fks) == 2:
        mon.cover('deprecated')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mon.eq(tg().check_referential_integrity(data={}, log=Log()), not want, 'verdict with data argument')
    mon.event(len(fks), 'foreign keys', len(want), 'dangling')
    mon.count('foreign_keys', len(fks))
