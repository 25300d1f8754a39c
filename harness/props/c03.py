"""CSV columns are matched with column descriptions."""
import collections
import warnings

import csvw
from harness import g, vals, tables

RULE = ('Column descriptions identified by name, title or property URL x CSV files with permuted, missing, '
        'unspecified or differently labelled columns, short and long rows, with or without header, strict or '
        'not, with virtual columns; keys, order and values of each row are predicted by a matching model.')
CASES = {'quick': 36000, 'thorough': 288000}
REQUIRED = ['exact', 'permuted', 'by-name', 'by-title', 'by-other-title', 'by-propertyUrl', 'unspecified', 'absent',
            'required-absent', 'noheader', 'no-columns', 'short-row', 'long-row', 'virtual', 'nonstrict',
            'nonstrict-surplus', 'nonstrict-invalid', 'unnamed-column', 'blank-row']
TYPES = [None, 'string', 'integer', 'boolean', 'decimal', 'hexBinary']


def gen(rng):
    n = g.pick(rng, [0, 1, 2, 2, 3, 4, 5], 30)
    names = g.idents(rng, n * 4 + 20)
    cols = []
    for i in range(n):
        c = {}
        k = rng.random()
        if k < .75:
            c['name'] = names.pop()
        if 'name' not in c or rng.random() < .4:
            c['titles'] = rng.choice([lambda x: x, lambda x: [x, x + ' alt', 'b ' + x], lambda x: x + ' é',
                                       lambda x: {'en': [x, x + ' en'], 'de': x + ' de'}])(names.pop())
            if isinstance(c['titles'], dict):
                c['name'] = c.get('name') or names.pop()    # no title in the default language
        if rng.random() < .2:
            c['propertyUrl'] = 'http://example.org/p' + str(i)
        dt = rng.choice(TYPES)
        if dt:
            c['datatype'] = dt
        if rng.random() < .15:
            c['required'] = True
        if rng.random() < .2:
            c['separator'] = ';'
        if rng.random() < .2:
            c['default'] = {'boolean': 'true', 'integer': '7', 'decimal': '1.5', 'hexBinary': 'FF'}.get(dt, 'dd')
        cols.append(c)
    header = rng.random() < .88
    if not header:
        for i, c in enumerate(cols):
            c.setdefault('name', 'c' * 5 + str(i))
    order = list(range(n))
    mode = rng.choice(['exact', 'exact', 'permute', 'permute', 'mixed'])
    if header and mode != 'exact':
        rng.shuffle(order)
        if mode == 'mixed':
            order = order[:rng.randint(0, n)]
    data = []   # per CSV column: [label, column index or None]
    for i in order:
        c = cols[i]
        labels = [c.get('name') or title1(c)]
        if mode != 'exact':
            if 'titles' in c:
                labels += titles(c)
            if 'propertyUrl' in c:
                labels.append(c['propertyUrl'])
        data.append([rng.choice(labels), i])
    if header and (mode == 'mixed' or n == 0):
        for _ in range(g.pick(rng, [0, 1, 1, 2], 12)):
            data.insert(rng.randint(0, len(data)), [names.pop() + rng.choice(['', ' é', ',"x']), None])
    if not header and n == 0:
        data = [['', None] for _ in range(rng.randint(1, 4))]
    if not data:
        data = [['zz' + names.pop(), None]]
    rows = []
    for _ in range(g.pick(rng, [0, 1, 2, 3], 30)):
        row = []
        for _, i in data:
            c = cols[i] if i is not None else {}
            t = tables.text_for(rng, c.get('datatype'), .3)
            try:
                tables.read_cell(dict(c, required=False), t)
            except tables.Invalid:
                t = {'boolean': '1', 'integer': '12', 'decimal': '-1.50', 'hexBinary': 'aB'}.get(c.get('datatype'), 'x')
            if c.get('required') and not t:
                t = {'boolean': '1', 'integer': '12', 'decimal': '-1.50', 'hexBinary': 'aB'}.get(c.get('datatype'), 'x')
            row.append(t.lstrip('\ufeff'))
        k = rng.random()
        if k < .12:
            row = row[:rng.randint(0, len(row))]
        elif k < .22:
            row = row + [g.text(rng, 2) for _ in range(g.size(rng, 1, 2, 20))]
        rows.append(row)
    virtual = []
    if rng.random() < .25:
        ref = [c['name'] for c in cols if c.get('name') and not c.get('separator') and c.get('datatype') in (
            None, 'string', 'integer')]
        virtual = [{'name': 'virt%s' % i, 'virtual': True, 'valueUrl': 'http://example.org/' + (
            '{%s}/x' % rng.choice(ref) if ref and rng.random() < .7 else 'y')} for i in range(rng.randint(1, 2))]
        if rng.random() < .3:
            virtual.append({'name': 'nourl', 'virtual': True})
    strict = rng.random() < .75
    if not strict:
        # cells are read with the datatypes of other columns: see tables.text_for
        rows = [[''.join(c for c in t if c not in tables.WS + '%‰') for t in row] for row in rows]
    rows = [[x.lstrip('\ufeff') if j == 0 else x for j, x in enumerate(row)] for row in rows]
    return dict(cols=cols, virtual=virtual, header=header, data=data, rows=rows, strict=strict)


def title1(c):
    return titles(c)[0]


def titles(c):
    return [x for t in (c['titles'].values() if isinstance(c['titles'], dict) else [c['titles']])
            for x in ([t] if isinstance(t, str) else t)]


UNRESERVED = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~'


def pct(s):
    return ''.join(c if c in UNRESERVED else ''.join('%{:02X}'.format(b) for b in c.encode('utf8')) for c in s)


def run(case, mon, work):
    cols, data, header, strict = case['cols'], case['data'], case['header'], case['strict']
    keys = [c.get('name') or title1(c) for c in cols]
    schema = {'columns': cols + case['virtual']}
    table = csvw.TableGroup.fromvalue({'tables': [dict(
        url='t.csv', **({'tableSchema': schema} if schema['columns'] else {}),
        **({} if header else {'dialect': {'header': False}}))]}).tables[0]
    p = work / 't.csv'
    labels = [d[0] for d in data]
    if header and labels == ['']:
        return
    p.write_text(g.dump(([labels] if header else []) + case['rows']), encoding='utf8', newline='')
    exact = labels == keys and header
    # matching model
    match = []
    if not header:
        mon.cover('noheader')
        match = [(k, c) for k, c in zip(keys, cols)]
    elif not strict and (cols or case['virtual']):
        # by position
        mon.cover('nonstrict')
        every, everykey = cols + case['virtual'], keys + [v['name'] for v in case['virtual']]
        if len(labels) <= len(every) and len(labels) > len(cols):
            return  # data for virtual columns: not judged
        for j, lab in enumerate(labels):
            if j < len(every):
                if every[j].get('virtual'):
                    return
                match.append((everykey[j], every[j]))
            else:
                match.append(('_col.{}'.format(j + 1), {}))
                mon.cover('nonstrict-surplus')
    else:
        for lab, i in data:
            if i is None:
                mon.cover('unspecified')
                match.append((lab, None))
            else:
                mon.cover('by-name' if lab == cols[i].get('name') else
                          'by-propertyUrl' if lab == cols[i].get('propertyUrl') else
                          'by-title' if lab == title1(cols[i]) else 'by-other-title')
                match.append((keys[i], cols[i]))
    if exact:
        mon.cover('exact')
    elif header and [i for _, i in data if i is not None] != sorted(i for _, i in data if i is not None):
        mon.cover('permuted')
    if not cols:
        mon.cover('no-columns')
    if any('name' not in c for c in cols):
        mon.cover('unnamed-column')
    present = {k for k, _ in match}
    absent = [k for k in keys if k not in present]
    if absent:
        mon.cover('absent')
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        it = table.iterdicts(strict=strict, with_metadata=True, fname=p)
        if any(c.get('required') and k in absent for k, c in zip(keys, cols)):
            mon.cover('required-absent')
            mon.raises(ValueError, lambda: next(it), 'absent required column accepted')
            return
        expected = []
        for row in case['rows']:
            if row == []:
                mon.cover('blank-row')
            res = collections.OrderedDict()
            m = match
            if not m and row:
                m = match = [('_col.{}'.format(i + 1), {}) for i in range(len(row))]
            bad = False
            for (k, c), t in zip(m, row):
                if c is None:
                    res[k] = t
                else:
                    try:
                        res[k] = tables.read_cell(c, t)
                    except tables.Missing:
                        bad, res[k] = True, t
                    except tables.Invalid:
                        # read as value of the wrong column, possible in non-strict mode only
                        assert not strict
                        res[k] = tables.read_cell(dict(c, datatype=None), t)
                        mon.cover('nonstrict-invalid')
            for (k, c) in m[len(row):]:
                mon.cover('short-row')
                if c and c.get('required'):
                    bad = True
                if c:
                    res.setdefault(k, None)
            if len(row) > len(m):
                mon.cover('long-row')
            res2 = collections.OrderedDict((k, v) for k, v in res.items())
            for k in keys:
                res2.setdefault(k, None)
            for v in case['virtual']:
                if 'valueUrl' in v:
                    u = v['valueUrl']
                    if '{' in u:
                        name = u.split('{')[1].split('}')[0]
                        x = res2[name]
                        u = u.replace('{%s}' % name, '' if x is None else pct(str(x)))
                    res2[v['name']] = u
                    mon.cover('virtual')
            expected.append((bad and strict, res2, len(row) == len(m)))
        for i, (bad, want, full) in enumerate(expected):
            if bad:
                mon.raises(ValueError, lambda: next(it), 'missing required value accepted')
                return
            try:
                fn, lineno, got = next(it)
            except StopIteration:
                mon.fail('row missing', want=want)
            except ValueError as e:
                mon.fail('row rejected', want=want, exc=repr(e))
            mon.check(str(fn) == str(p), 'wrong file name')
            # key order is determined by the data, then the description; absent cells come after
            mon.check(set(got) == set(want) and (not full or list(got) == list(want)), 'keys differ',
                      got=list(got), want=list(want))
            mon.check(tables.same(dict(got), {k: want[k] for k in got}), 'values differ', got=dict(got), want=dict(want))
        mon.eq(list(it), [], 'surplus rows')
    if strict and case['rows'] and header:
        unspec = {lab for (lab, i), _ in zip(data, max(case['rows'], key=len)) if i is None}
        msgs = ' '.join(str(x.message) for x in w)
        for lab in unspec:
            mon.check('"{}"'.format(lab) in msgs, 'no warning about unspecified column', label=lab)
    mon.event(labels, len(expected), 'rows')
