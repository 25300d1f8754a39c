"""Parsing cells: default, null, required, separator, datatype; specified at any level."""
import collections
import csvw
import logging
from harness import g, vals, tables

RULE = ('Tables whose columns get null, default, required, separator and datatype specified at random '
        'levels (group, table, schema, column) x rows of texts (empty, null markers, valid and invalid '
        'lexical forms, list cells with empty and null elements); each cell is parsed by an independent '
        'model; Column.read must give the value or ValueError, and iterating must give the rows.')
CASES = {'quick': 48000, 'thorough': 384000}
PROPS = ['null', 'default', 'required', 'separator', 'datatype']
REQUIRED = ['value', 'null', 'missing', 'invalid', 'list', 'list-null-element', 'list-empty', 'default-used',
            'list-default', 'null-list'] + [
    '{}@{}'.format(p, lv) for p in PROPS for lv in tables.LEVELS] + ['t:' + t for t in tables.SIMPLE]
SEPS = [';', '|', ' ', '; ', '::', '\t', ',', '-', '\n', 'x']


def gen_props(rng, p):
    props = {}
    for k in PROPS:
        if rng.random() < p:
            props[k] = {
                'null': lambda: rng.choice(tables.NULLS),
                'default': lambda: rng.choice(['x', '0', '5', 'true', 'NA', '2018-01-01', '-', '{}', 'ab', '1;2']),
                'required': lambda: rng.random() < .6,
                'separator': lambda: rng.choice(SEPS),
                'datatype': lambda: rng.choice(tables.SIMPLE)}[k]()
            if k == 'null' and props[k] == ['']:
                props[k] = ['', 'NA']
    return props


def gen(rng):
    ncols = g.size(rng, 1, 4, 25)
    case = dict(group=gen_props(rng, .15), table=gen_props(rng, .15), schema=gen_props(rng, .15),
                names=g.idents(rng, ncols), columns=[gen_props(rng, .4) for _ in range(ncols)],
                fd=rng.random() < .2)
    rows = []
    effs = [tables.effective([case['group'], case['table'], case['schema'], c]) for c in case['columns']]
    for _ in range(g.size(rng, 1, 5, 250 if ncols < 5 else 15)):
        row = []
        for e in effs:
            if e.get('separator') and rng.random() < .7:
                t = e['separator'].join(
                    tables.text_for(rng, e.get('datatype'), .1) for _ in range(g.pick(rng, [1, 2, 2, 3], 40)))
            else:
                t = tables.text_for(rng, e.get('datatype'))
            row.append(t)
        row[0] = row[0].lstrip('\ufeff')
        rows.append(row)
    case['rows'] = rows
    return case


class Log:
    def __init__(self):
        self.msgs = []

    def warning(self, m):
        self.msgs.append(m)


def run(case, mon, work):
    names = case['names']
    cols = [dict(p, name=n) for p, n in zip(case['columns'], names)]
    if case['fd']:
        cols = [dict(c, datatype={'base': c['datatype']}) if 'datatype' in c else c for c in cols]
    tg = csvw.TableGroup.fromvalue(dict(case['group'], tables=[
        dict(case['table'], url='t.csv', tableSchema=dict(case['schema'], columns=cols))]))
    table = tg.tables[0]
    effs = [tables.effective([case['group'], case['table'], case['schema'], c]) for c in case['columns']]
    for lv in tables.LEVELS:
        for d in (case['columns'] if lv == 'column' else [case[lv]]):
            mon.cover(*['{}@{}'.format(k, lv) for k in d])
    expected, bad = [], 0
    for ri, row in enumerate(case['rows']):
        res = collections.OrderedDict()
        for col, eff, name, s in zip(table.tableSchema.columns, effs, names, row):
            if eff.get('datatype'):
                mon.cover('t:' + eff['datatype'])
            try:
                v = tables.read_cell(eff, s)
            except (tables.Missing, tables.Invalid) as e:
                mon.cover('missing' if isinstance(e, tables.Missing) else 'invalid')
                mon.raises(ValueError, lambda: col.read(s), 'cell accepted', props=eff, text=s)
                res = None
                bad += 1
                break
            mon.cover('null' if v is None else 'value')
            if not s and eff.get('default'):
                mon.cover('default-used')
            if isinstance(v, list) and eff.get('separator'):
                mon.cover('list')
                if None in v:
                    mon.cover('list-null-element')
                if v == []:
                    mon.cover('list-empty')
                if eff.get('default') and '' in s.split(eff['separator']):
                    mon.cover('list-default')
            elif v is None and eff.get('separator'):
                mon.cover('null-list')
            try:
                got = col.read(s)
            except ValueError as e:
                mon.fail('cell rejected', props=eff, text=s, want=v, exc=repr(e))
            mon.check(tables.same(got, v), 'cell parsed wrongly', props=eff, text=s, got=got, want=v)
            res[name] = v
        expected.append(res)
    # the same through the file
    p = work / 't.csv'
    p.write_text(g.dump([names] + case['rows']), encoding='utf8', newline='')
    log = Log()
    got = list(table.iterdicts(log=log, fname=p, with_metadata=True))
    want = [r for r in expected if r is not None]
    mon.eq(len(got), len(want), 'number of valid rows differs', log=log.msgs[:3])
    for (_, _, a), b in zip(got, want):
        mon.check(list(a) == list(b) and tables.same(dict(a), dict(b)), 'row differs', got=dict(a), want=dict(b))
    mon.check(bool(log.msgs) == bool(bad), 'errors not logged')
    mon.event(len(got), 'rows', bad, 'invalid', repr(case['rows'][0])[:80])
    mon.count('cells', sum(len(r) for r in case['rows']))
