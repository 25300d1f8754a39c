"""Typed rows survive Table.write and reading."""
import collections
import datetime
import random

import csvw
from harness import g, vals, tables

RULE = ('Random table descriptions (all datatypes, separators, null markers, titles, virtual columns, header '
        'or not, dialects at table or group level) x typed rows incl. None, lists and missing keys, passed as '
        'dicts, lists or tuples to a path, the default location, a zip file or memory; the written text is '
        'parsed independently and compared cell by cell, and reading must give the same typed rows.')
CASES = {'quick': 36000, 'thorough': 288000}
REQUIRED = ['as:dict', 'as:list', 'as:tuple', 'to:path', 'to:default', 'to:zip', 'to:memory', 'to:base', 'none',
            'list', 'empty-list', 'missing-key', 'virtual', 'noheader', 'group-dialect', 'titles', 'strict-extra', 'strict-virtual',
            'lax-extra', 'enc', 'zero-rows', 'with_metadata', 'list-none', 'inherited'] + ['t:' + t for t in vals.ALL]
NULLS = [[''], [''], ['NA'], ['NA', ''], ['', 'NA'], ['-', 'n/a']]
SEPS = [';', '|', '~', '::', '; ', '\t']


def gen(rng):
    n = g.size(rng, 1, 6, 30)
    names = g.idents(rng, n)
    cols = []
    for nm in names:
        c = {'name': nm} if rng.random() < .85 else {'titles': nm + rng.choice(['', ' x', 'é', ',"'])}
        if 'name' in c and rng.random() < .2:
            c['titles'] = rng.choice(['Title', ['A', 'B'], {'en': 'x'}])
        if rng.random() < .75:
            c['datatype'] = rng.choice(vals.ALL)
        if rng.random() < .3:
            c['separator'] = rng.choice(SEPS)
        if rng.random() < .4:
            c['null'] = rng.choice(NULLS[2:])
        cols.append(c)
    lift, level = {}, rng.choice(['group', 'table', 'schema'])
    if rng.random() < .3:
        if rng.random() < .4:
            lift['null'] = rng.choice(NULLS[2:])
        if rng.random() < .3:
            lift['separator'] = rng.choice(SEPS)
        if rng.random() < .4:
            lift['datatype'] = rng.choice(vals.ALL)
    if rng.random() < .25:
        cols.append({'name': 'virt_col', 'virtual': True, 'valueUrl': 'http://example.org/x'})
    header = rng.random() < .85
    if not header:
        for c in cols:
            if 'name' not in c:
                c['name'] = 'no' + '-head' + str(cols.index(c))
                c.pop('titles')
    d = {}
    if rng.random() < .6:
        d = {'delimiter': rng.choice([',', '\t', ';', '|', ':']), 'quoteChar': rng.choice(['"', "'", '`']),
             'lineTerminators': [rng.choice(['\n', '\r\n'])], 'encoding': rng.choice(
                 ['utf-8', 'utf-8-sig', 'utf-16', 'UTF-8-BOM', 'utf-8'])}
        if rng.random() < .3:
            d['skipInitialSpace'] = False
    if not header:
        d['header'] = False
    rows = []
    for _ in range(g.pick(rng, [0, 1, 1, 2, 3, 8], 250 if n < 7 else 15)):
        row = []
        for c in cols:
            if c.get('virtual'):
                continue
            base = dict(lift, **c).get('datatype', 'string')

            def val():
                return vals.gen_value(rng, base)
            if dict(lift, **c).get('separator'):
                k = rng.random()
                row.append(['l', []] if k < .2 else ['n'] if k < .3 else ['l', [
                    ['n'] if rng.random() < .15 else val() for _ in range(g.pick(rng, [1, 2, 3, 5], 40))]])
            else:
                row.append(['n'] if rng.random() < .2 else val())
        rows.append(row)
    return dict(cols=cols, lift=lift, level=level, dialect=d, dlevel=rng.choice(['table', 'group']), rows=rows,
                asw=rng.choice(['dict', 'list', 'tuple', 'mixed']), to=rng.choice(
                    ['path', 'default', 'zip', 'memory', 'base']),
                drop=rng.random() < .3, extra=rng.choice([None, None, None, 'lax', 'strict']), seed=rng.randint(0, 999))


def run(case, mon, work):
    rng = random.Random(case['seed'])
    lift = case.get('lift', {})
    cols = [c if c.get('virtual') else dict(lift, **c) for c in case['cols']]
    real = [c for c in cols if not c.get('virtual')]
    heads = [c.get('name') or c['titles'] for c in real]
    desc = {'tables': [{'url': 'data.csv', 'tableSchema': {'columns': case['cols']}}]}
    if lift:
        mon.cover('inherited')
        {'group': desc, 'table': desc['tables'][0], 'schema': desc['tables'][0]['tableSchema']}[
            case['level']].update(lift)
    if case['dialect']:
        (desc if case['dlevel'] == 'group' else desc['tables'][0])['dialect'] = case['dialect']
    (work / 'sub').mkdir()
    tg = csvw.TableGroup.fromvalue(desc)
    tg._fname = work / 'md.json'
    table = tg.tables[0]
    enc = {'UTF-8-BOM': 'utf-8-sig'}.get(case['dialect'].get('encoding'), case['dialect'].get('encoding', 'utf-8'))
    delim, quote = case['dialect'].get('delimiter', ','), case['dialect'].get('quoteChar', '"')
    header = case['dialect'].get('header', True)
    # restrict rows to what a cell can represent
    items, texts, expected = [], [], []
    for row in case['rows']:
        item, text, want = [], [], []
        for c, e in zip(real, row):
            dt = csvw.Datatype.fromvalue(c.get('datatype', 'string'))
            null, sep = c.get('null', ['']), c.get('separator')
            v = vals.dec(e)

            def ok(x):
                try:
                    t = dt.formatted(x)
                    t.encode(enc)
                except UnicodeEncodeError:
                    return False
                return t != '' and t not in null and not (sep and (sep in t or t[:1] in sep or t[-1:] in sep)) \
                    and (c.get('datatype') != 'anyURI' or dt.read(t) == x)
            if sep:
                v = [x for x in v or [] if (x is None and null[0] != '') or (x is not None and ok(x))] \
                    if v is not None else None
                if v is not None and len(v) == 1 and v[0] is None:
                    v = []
                t = sep.join(null[0] if x is None else dt.formatted(x) for x in v or [])
                if t in null:
                    v, t = [], ''
                w = v or []
                if '' not in null and not v:
                    w = []
                mon.cover('list' if v else 'empty-list')
                if v and any(x is None for x in v):
                    mon.cover('list-none')
            else:
                if v is not None and not ok(v):
                    v = None
                t = null[0] if v is None else dt.formatted(v)
                w = v
                if v is None:
                    mon.cover('none')
            mon.cover('t:' + c.get('datatype', 'string'))
            item.append(v)
            text.append(t)
            want.append(w)
        if len(text) == 1 and text[0] == '' and False:
            continue
        if enc == 'utf-8' and not items and not header and text[0].startswith('\ufeff'):
            continue
        items.append(item)
        texts.append(text)
        expected.append(collections.OrderedDict(zip(heads, want)))
    for w in expected:
        for c in cols:
            if c.get('virtual'):
                w[c['name']] = c['valueUrl']
                mon.cover('virtual')
    rows = []
    for i, item in enumerate(items):
        how = case['asw'] if case['asw'] != 'mixed' else rng.choice(['dict', 'list', 'tuple'])
        mon.cover('as:' + how)
        if how == 'dict':
            kv = list(zip(heads, item))
            rng.shuffle(kv)
            d = dict(kv)
            if case['drop'] and [k for k, v in d.items() if v is None]:
                mon.cover('missing-key')
                d = {k: v for k, v in d.items() if v is not None}
            if case['extra'] == 'lax':
                d['surplus'] = 'x'
                mon.cover('lax-extra')
            rows.append(d)
        else:
            rows.append(item if how == 'list' else tuple(item))
    if case['extra'] == 'strict' and rows and isinstance(rows[-1], dict):
        mon.cover('strict-extra')
        mon.raises(ValueError, lambda: table.write(
            rows[:-1] + [dict(rows[-1], surplus='x')], fname=None, strict=True), 'unspecified field accepted')
        if any(c.get('virtual') for c in cols):
            mon.cover('strict-virtual')
            mon.raises(ValueError, lambda: table.write(
                rows[:-1] + [dict(rows[-1], virt='x')], fname=None, strict=True),
                'field for a virtual column accepted')
    if not rows:
        mon.cover('zero-rows')
    if not header:
        mon.cover('noheader')
    if case['dialect'] and case['dlevel'] == 'group':
        mon.cover('group-dialect')
    if any('name' not in c for c in cols):
        mon.cover('titles')
    if enc.startswith('utf-16'):
        mon.cover('enc')
    to = case['to']
    mon.cover('to:' + to)
    strict = case['extra'] != 'lax'
    it = iter(rows) if case['seed'] % 2 else rows
    if to == 'memory':
        raw = table.write(it, fname=None, strict=strict)
        text = raw.decode('utf8')
        p = work / 'mem.csv'
        p.write_bytes(text.encode(enc))
        src = dict(fname=p)
    else:
        kw = {}
        p = work / 'data.csv'
        if to == 'path':
            p = work / 'other.csv'
            kw = dict(fname=p if case['seed'] % 3 else str(p))
        elif to == 'base':
            p = work / 'sub' / 'data.csv'
            kw = dict(base=work / 'sub')
        n = table.write(it, strict=strict, _zipped=(to == 'zip'), **kw)
        mon.eq(n, len(rows), 'returned number of rows is wrong')
        if to == 'zip':
            import zipfile
            mon.check(not p.exists(), 'unzipped file left behind')
            with zipfile.ZipFile(str(p) + '.zip') as z:
                mon.eq(z.namelist(), ['data.csv'], 'members of the zip file')
                raw = z.read('data.csv')
        else:
            raw = p.read_bytes()
        mon.eq(sorted(x.name for x in work.rglob('*') if x.is_file()), [p.name + ('.zip' if to == 'zip' else '')],
               'files written')
        text = raw.decode(enc)
        src = {} if to in ('default', 'zip') else dict(fname=p)
    mon.event(to, len(rows), 'rows', repr(text[:100]))
    parsed = g.parse(text, delim, quote)
    mon.eq(parsed, ([heads] if header else []) + texts, 'written text differs', text=text)

    def eq(c, a, b):
        if c.get('datatype') == 'time':
            f = lambda x: [y and y.timetz() for y in x] if isinstance(x, list) else x and x.timetz()  # noqa
            return f(a) == f(b)
        return tables.same(a, b)
    if case['seed'] % 5 == 0:
        mon.cover('with_metadata')
        got = [r for _, _, r in table.iterdicts(with_metadata=True, **src)]
    else:
        got = list(table.iterdicts(**src))
    mon.eq(len(got), len(expected), 'number of rows read differs', text=text)
    for a, b in zip(got, expected):
        mon.eq(list(a), list(b), 'keys differ')
        for c in cols:
            k = c.get('name') or c['titles']
            mon.check(eq(c, a[k], b[k]), 'value differs after write and read', col=c, got=a[k], want=b[k], text=text)
    mon.count('cells', sum(len(r) for r in items))
