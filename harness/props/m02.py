"""Inheritance of properties."""
import json

import csvw
from harness import g, mdgen

RULE = ('Inherited properties specified at random subsets of group, table, schema and column (including falsy '
        'values such as false) x dialects at group/table x metadata locations; the effective value at every level '
        'must be that of the most specific level which specifies it, also after serialization, and siblings must '
        'not influence each other.')
CASES = {'quick': 32000, 'thorough': 256000}
PROPS = ['aboutUrl', 'datatype', 'default', 'lang', 'null', 'ordered', 'propertyUrl', 'required', 'separator',
         'textDirection', 'valueUrl']
LEVELS = ['group', 'table', 'schema', 'column']
REQUIRED = ['in-place'] + ['{}@{}'.format(p, lv) for p in PROPS for lv in LEVELS] + [
    'override-false', 'unset', 'dialect@table', 'dialect@group', 'dialect-both', 'dialect-none', 'base-file',
    'base-url', 'base-context']


def gen(rng):
    def pick(p=.35):
        return mdgen.inherited(rng, p)
    return dict(group=pick(), tables=[
        dict(props=pick(), schema=pick(), columns=[pick() for _ in range(rng.randint(1, 3))],
             dialect=rng.choice([None, None, {'delimiter': ';'}, {'skipRows': 1}, {}]))
        for _ in range(rng.randint(1, 2))], dialect=rng.choice([None, {'delimiter': '|'}, {'header': False}]),
        base=rng.choice([None, 'file', 'url', 'context']), again=rng.random() < .4, change=rng.randrange(20))


def run(case, mon, work):
    desc = dict(case['group'], tables=[])
    if case['dialect'] is not None:
        desc['dialect'] = case['dialect']
    for i, t in enumerate(case['tables']):
        d = dict(t['props'], url='t%s.csv' % i, tableSchema=dict(t['schema'], columns=[
            dict(c, name='c%s' % j) for j, c in enumerate(t['columns'])]))
        if t['dialect'] is not None:
            d['dialect'] = t['dialect']
        desc['tables'].append(d)
    tg = csvw.TableGroup.fromvalue(json.loads(json.dumps(desc)))
    if case['again']:
        tg = csvw.TableGroup.fromvalue(json.loads(json.dumps(tg.asdict())))

    def value(k, v):
        if k == 'datatype':
            return csvw.Datatype.fromvalue(v)
        if k == 'null' and not isinstance(v, list):
            return [v]
        return v

    def expect(levels, k):
        for lv in reversed(levels):
            if k in lv:
                return value(k, lv[k])
        return {'default': '', 'lang': 'und', 'null': ['']}.get(k)

    def verify(obj, levels, what):
        for k in PROPS:
            want = expect(levels, k)
            got = obj.inherit_null() if k == 'null' else obj.inherit(k)
            if k.endswith('Url') and got is not None:
                got = str(got.uri)
            mon.check(got == want and (got is None) == (want is None) and isinstance(got, bool) == isinstance(want, bool),
                      'effective value of {} differs for {}'.format(k, what), got=got, want=want)
            if k in levels[-1]:
                mon.cover('{}@{}'.format(k, LEVELS[len(levels) - 1]))
                if levels[-1][k] is False and any(lv.get(k) for lv in levels[:-1]):
                    mon.cover('override-false')
            elif not any(k in lv for lv in levels):
                mon.cover('unset')
    verify(tg, [case['group']], 'group')
    for t, table in zip(case['tables'], tg.tables):
        lv = [case['group'], t['props']]
        verify(table, lv, 'table')
        verify(table.tableSchema, lv + [t['schema']], 'schema')
        for c, col in zip(t['columns'], table.tableSchema.columns):
            verify(col, lv + [t['schema'], c], 'column')
        d = t['dialect'] if t['dialect'] is not None else case['dialect']
        mon.cover('dialect-none' if d is None else 'dialect@table' if t['dialect'] is not None else 'dialect@group')
        if t['dialect'] is not None and case['dialect'] is not None:
            mon.cover('dialect-both')
        eff = table._get_dialect()
        for k, default in [('delimiter', ','), ('header', True), ('skipRows', 0), ('commentPrefix', None)]:
            mon.eq(getattr(eff, k), (d or {}).get(k, default), 'effective dialect differs: ' + k)
    # changes of one object (by its attributes or in place) are seen by itself only
    cols = [c for t in tg.tables for c in t.tableSchema.columns]
    objs = [tg] + [x for t in tg.tables for x in (t, t.tableSchema)] + cols
    others = lambda o: [json.dumps(x.asdict(), default=str) if x is not tg else json.dumps(  # noqa
        {k: v for k, v in x.asdict().items() if k not in ('tables', 'tableSchema')}, default=str)
        for x in objs if x is not o and not hasattr(x, 'tableSchema') and not hasattr(x, 'columns')]
    o = objs[case.get('change', 0) % len(objs)]
    before = others(o)
    fresh = json.dumps(csvw.Column.fromvalue({'name': 'n'}).asdict(omit_defaults=False), default=str)
    o.null.append('~')
    o.common_props['dc:x'] = 'changed'
    o.at_props['id'] = 'http://example.org/changed'
    if hasattr(o, 'notes'):
        o.notes.append('changed')
        o.transformations.append({})
    mon.eq(others(o), before, 'change of one object changed another')
    mon.eq(json.dumps(csvw.Column.fromvalue({'name': 'n'}).asdict(omit_defaults=False), default=str), fresh,
           'change of one object changed the defaults')
    mon.cover('in-place')
    # locations
    b = case['base']
    if b:
        mon.cover('base-' + b)
        if b == 'file':
            p = work / 'md.json'
            p.write_text(json.dumps(desc))
            t2 = csvw.TableGroup.from_file(p)
            for t in t2.tables:
                mon.eq(t.url.resolve(t.base), work / str(t.url), 'table location')
        else:
            d = json.loads(json.dumps(desc))
            want = 'http://example.org/a/'
            if b == 'context':
                d['@context'] = ['http://www.w3.org/ns/csvw', {'@base': 'sub/'}]
            t2 = csvw.TableGroup.from_url('http://example.org/a/md.json?x=1#f', data=d)
            mon.eq(t2.tables[0].url.resolve(t2.base), want + ('sub/' if b == 'context' else '') + 't0.csv',
                   'location relative to the group')
            for t in t2.tables:
                mon.eq(t.url.resolve(t.base), want + ('sub/' if b == 'context' else '') + str(t.url), 'table location')
    mon.event(len(case['tables']), 'tables', sorted(case['group']))
