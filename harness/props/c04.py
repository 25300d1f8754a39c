"""Invalid cells are reported with their location, and only invalid rows are withheld."""
import collections
import re
import warnings

import csvw
from harness import g, vals, tables

RULE = ('Tables with valid and invalid cells at random places (types, bounds, formats, list elements, required, '
        'short rows, multi-line cells, blank lines, comments, skipped rows) read with a logger, without, and in '
        'non-strict mode; reports, yielded rows and warnings are compared with an independent model.')
CASES = {'quick': 28000, 'thorough': 224000}
REQUIRED = ['invalid', 'missing', 'short-required', 'list-invalid', 'log', 'raise', 'nonstrict', 'all-valid',
            'multi-line', 'comment', 'skipped', 'permuted', 'blank', 'two-in-row', 'title-header', 'skipColumns', 'bounds']


def gen(rng):
    n = g.size(rng, 1, 4, 25)
    names = g.idents(rng, n)
    cols = []
    for nm in names:
        c = {'name': nm, 'datatype': rng.choice(tables.SIMPLE)}
        if c['datatype'] in ('integer', 'string') and rng.random() < .4:
            c['datatype'] = {'base': 'integer', 'minimum': -5, 'maximum': 50} if c['datatype'] == 'integer' else \
                {'base': 'string', 'minLength': 1, 'maxLength': 3}
        if rng.random() < .3:
            c['required'] = True
        if rng.random() < .25:
            c['separator'] = ';'
        if rng.random() < .25:
            c['null'] = rng.choice([['NA'], ['', 'NA'], ['-']])
        if rng.random() < .15:
            c['titles'] = nm + ' title'
        cols.append(c)
    pbad = rng.choice([0, .1, .3])
    rows = []
    for _ in range(g.pick(rng, [1, 2, 4, 7], 250 if n < 5 else 15)):
        row = []
        for c in cols:
            for _ in range(20):
                base = c['datatype'] if isinstance(c['datatype'], str) else c['datatype']['base']
                t = tables.text_for(rng, base, .3)
                if c.get('separator') and rng.random() < .7:
                    t = ';'.join([t] + [tables.text_for(rng, base, .1) for _ in range(g.size(rng, 1, 1, 20))])
                v = model(c, t)
                if (v[0] == 'ok') == (rng.random() >= pbad):
                    break
            row.append(t)
        row[0] = row[0].lstrip('#\ufeff')
        if rng.random() < .1:
            row = row[:rng.randint(1, n)]
        k = rng.random()
        if k < .12:
            rows.append(['C', g.ident(rng)])
        elif k < .2:
            rows.append(['B'])
        if row != ['']:
            rows.append(['R', row])
    return dict(cols=cols, rows=rows, skip=[g.ident(rng) for _ in range(g.pick(rng, [0, 0, 0, 1, 2], 30))],
                comments=any(r[0] == 'C' for r in rows), blanks=any(r[0] == 'B' for r in rows),
                skipcol=rng.choice([0, 0, 0, 1]), eol=rng.choice(['\n', '\r\n']), title=rng.random() < .3,
                perm=rng.sample(range(n), n) if rng.random() < .3 else None)


def model(c, t):
    dt = c['datatype']
    base = dt if isinstance(dt, str) else dt['base']
    try:
        v = tables.read_cell(dict(c, datatype=base), t)
    except tables.Missing:
        return 'missing', None
    except tables.Invalid:
        return 'invalid', None
    if isinstance(dt, dict):
        for x in v if c.get('separator') and isinstance(v, list) else [v]:
            if x is None:
                continue
            if base == 'integer' and not -5 <= x <= 50:
                return 'bounds', None
            if base == 'string' and not 1 <= len(x) <= 3:
                return 'bounds', None
    return 'ok', v


class Log:
    def __init__(self):
        self.msgs = []

    def warning(self, m):
        self.msgs.append(m)


def run(case, mon, work):
    cols, sk = case['cols'], case['skipcol']
    # the description may list the columns in another order than the data
    described = [cols[i] for i in case['perm']] if case.get('perm') else cols
    names = [c['name'] for c in cols]
    heads = [c.get('titles', c['name']) if case['title'] else c['name'] for c in cols]
    if heads != names:
        mon.cover('title-header')
    dialect = {'skipRows': len(case['skip']), 'skipColumns': sk}
    if case['comments']:
        dialect['commentPrefix'] = '#'
        mon.cover('comment')
    if case['blanks']:
        dialect['skipBlankRows'] = True
        mon.cover('blank')
    if case['skip']:
        mon.cover('skipped')
    if sk:
        mon.cover('skipColumns')
    eol, out, line = case['eol'], [], 0
    expected = []

    def emit(text):
        nonlocal line
        out.append(text + eol)
        line += (text + eol).count('\n')
    for s in case['skip']:
        emit(s)
    pre = ['s'] * sk
    emit(g.dump([pre + heads], eol=''))
    for r in case['rows']:
        if r[0] == 'C':
            emit('# ' + r[1])
        elif r[0] == 'B':
            emit('')
        else:
            if case['blanks'] and not any(pre + r[1]):
                continue
            if case['comments'] and (pre + r[1])[0].startswith('#'):
                continue
            text = g.dump([pre + r[1]], eol='')
            if '\n' in text:
                mon.cover('multi-line')
            emit(text)
            expected.append((line, r[1]))
    p = work / 'data.csv'
    p.write_bytes(''.join(out).encode('utf8'))
    if '\r' in ''.join(c for _, r in expected for c in r):
        # line numbers with bare carriage returns are the subject of D03
        return

    errors, rows, lax = [], [], []
    for line, row in expected:
        res, raw, bad = collections.OrderedDict(), collections.OrderedDict(), []
        for j, (c, h) in enumerate(zip(cols, heads)):
            if j < len(row):
                kind, v = model(c, row[j])
                if kind != 'ok':
                    mon.cover(kind)
                    if c.get('separator') and kind != 'missing':
                        mon.cover('list-invalid')
                        raw[c['name']] = tables.read_cell(dict(c, datatype=None), row[j])
                    else:
                        raw[c['name']] = row[j]
                    bad.append((j, h))
                    continue
                res[c['name']] = raw[c['name']] = v
            else:
                res[c['name']] = raw[c['name']] = None
                if c.get('required'):
                    mon.cover('short-required')
                    bad.append((j, h))
        if len(bad) > 1:
            mon.cover('two-in-row')
        # cells which are present are reported first
        errors.extend(('{}:{}:{} {}: '.format(p, line, j + 1, h)) for j, h in bad)
        if not bad:
            rows.append((line, res))
        lax.append((line, raw))
    if not errors:
        mon.cover('all-valid')

    def table():
        return csvw.TableGroup.fromvalue({'dialect': dialect, 'tables': [
            {'url': 'data.csv', 'tableSchema': {'columns': described}}]}).tables[0]

    def same(got, want):
        mon.eq([(str(f), ln) for f, ln, _ in got], [(str(p), ln) for ln, _ in want], 'file or line of rows differs')
        for (_, _, a), (_, b) in zip(got, want):
            if described != cols:
                # the order of cells without data isn't specified
                a, b = dict(sorted(a.items())), dict(sorted(b.items()))
            mon.check(list(a) == list(b) and tables.same(dict(a), dict(b)), 'row differs', got=dict(a), want=dict(b))
    log = Log()
    same(list(table().iterdicts(log=log, with_metadata=True, fname=p)), rows)
    mon.cover('log')
    mon.eq([m[:len(e)] for m, e in zip(log.msgs, errors)], errors[:len(log.msgs)], 'reported locations differ')
    mon.eq(len(log.msgs), len(errors), 'number of reports differs', msgs=log.msgs, errors=errors)
    mon.check(all(len(m) > len(e) for m, e in zip(log.msgs, errors)), 'no reason reported')

    got, it = [], table().iterdicts(with_metadata=True, fname=p)
    try:
        for r in it:
            got.append(r)
        mon.check(not errors, 'invalid data not reported')
        same(got, rows)
    except ValueError as e:
        mon.cover('raise')
        mon.check(bool(errors), 'valid data reported', exc=repr(e))
        mon.check(str(e).startswith(errors[0]), 'wrong location reported', got=str(e), want=errors[0])
        first = int(re.match(re.escape(str(p)) + r':(\d+):', errors[0]).group(1))
        same(got, [r for r in rows if r[0] < first])
        mon.eq(list(it), [], 'iteration goes on after failure')

    if described != cols:
        # in non-strict mode columns are matched by position, no matter how they are labeled
        mon.cover('permuted')
        return
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if heads != names:
            # labels which are no names are matched by position in non-strict mode anyway
            pass
        got = list(table().iterdicts(strict=False, with_metadata=True, fname=p))
        mon.cover('nonstrict')
        same(got, lax)
        mon.check(len(w) >= len(errors), 'invalid values without warning', warned=len(w), errors=errors)
        if not errors:
            mon.eq([str(x.message) for x in w], [], 'warnings for valid data')
    mon.event(len(rows), 'valid rows', len(errors), 'errors', errors[:1])
    mon.count('reports', len(errors))
