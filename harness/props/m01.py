"""Metadata survives serialization."""
import json
import pathlib
import warnings

import csvw
from harness import g, vals, mdgen

RULE = ('Random valid metadata documents exercising every property at every level (language maps, URI templates, '
        'derived datatypes with bounds and formats, keys, dialects, notes, common properties) are loaded, written '
        'with and without defaults and loaded again: the objects must be equal, the second serialization equal to '
        'the first, every specified property must keep its value, and nothing may be added when defaults are '
        'omitted.')
CASES = {'quick': 10000, 'thorough': 80000}
REQUIRED = ['group', 'table', 'omit', 'full', 'prop:titles', 'prop:datatype', 'prop:foreignKeys', 'prop:notes',
            'prop:dialect', 'prop:null', 'prop:rowTitles', 'prop:transformations', 'prop:@id', 'prop:common',
            'prop:virtual', 'prop:ordered', 'prop:required', 'prop:primaryKey', 'prop:textDirection',
            'prop:aboutUrl', 'prop:suppressOutput', 'prop:tableDirection', 'prop:lang', 'prop:separator']


def gen(rng):
    if rng.random() < .7:
        return dict(kind='group', md=mdgen.group(rng))
    d = dict(mdgen.table(rng, 't.csv'), **{'@context': 'http://www.w3.org/ns/csvw'})
    return dict(kind='table', md=d)


LISTY = {'null', 'columnReference', 'primaryKey', 'rowTitles'}
DEFAULTS = {'suppressOutput': False, 'tableDirection': 'auto', 'virtual': False}
DIALECT = {'delimiter': ',', 'quoteChar': '"', 'encoding': 'utf-8', 'lineTerminators': ['\r\n', '\n'],
           'commentPrefix': None, 'header': True, 'skipRows': 0, 'skipColumns': 0, 'skipBlankRows': False,
           'skipInitialSpace': False, 'trim': 'false', 'doubleQuote': True}
BOUNDS = ['minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive']


def norm(d, where):
    """Normalize a document as far as the specification makes forms equivalent."""
    res = {}
    for k, v in d.items():
        if k in LISTY and not isinstance(v, list):
            v = [v]
        if k == 'null' and v == ['']:
            continue
        if k in DEFAULTS and v == DEFAULTS[k]:
            continue
        if k == 'titles':
            v = v[0] if isinstance(v, list) and len(v) == 1 else v
            if isinstance(v, dict):
                v = {kk: vv[0] if isinstance(vv, list) and len(vv) == 1 else vv for kk, vv in v.items()}
        elif k == 'tables':
            v = [norm(x, 'table') for x in v]
        elif k == 'columns':
            v = [norm(x, 'column') for x in v]
        elif k == 'tableSchema':
            v = norm(v, 'schema')
        elif k == 'foreignKeys':
            v = [dict(norm(x, 'fk'), reference=norm(x['reference'], 'ref')) for x in v]
        elif k == 'datatype':
            if isinstance(v, dict):
                v = {kk: (num(vv) if kk in BOUNDS else vv) for kk, vv in v.items()}
                if list(v) == ['base']:
                    v = v['base']
        elif k == 'dialect':
            v = {kk: str(vv).lower() if kk == 'trim' else vv for kk, vv in v.items()}
            v = {kk: vv for kk, vv in v.items() if vv != DIALECT[kk]}
        if (v == [] and k != 'null') or (v == {} and k != 'dialect'):
            continue
        res[k] = v
    return res


def num(v):
    try:
        return float(v)
    except ValueError:
        return v


def walk(d, mon):
    for k, v in d.items():
        mon.cover('prop:' + ('common' if ':' in k else k))
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, dict) and k in ('tables', 'columns', 'tableSchema'):
                walk(x, mon)


def run(case, mon, work):
    md, cls = case['md'], {'group': csvw.TableGroup, 'table': csvw.Table}[case['kind']]
    mon.cover(case['kind'])
    walk(md, mon)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        p = work / 'in.json'
        p.write_text(json.dumps(md))
        obj = cls.from_file(p)
    mon.eq([str(x.message) for x in w], [], 'warning for valid metadata')
    base = norm(md, case['kind'])
    for omit in [True, False]:
        mon.cover('omit' if omit else 'full')
        out = work / 'out.json'
        ret = obj.to_file(out if omit else str(out), omit_defaults=omit)
        mon.eq(ret, out, 'returned path')
        raw = json.loads(out.read_text(encoding='utf8'))
        mon.eq(g.canon(raw), g.canon(json.loads(json.dumps(obj.asdict(omit_defaults=omit)))), 'file differs from asdict')
        again = cls.from_file(out)
        again._fname = obj._fname
        mon.check(again == obj, 'object differs after serialization', omit=omit,
                  a=str(obj.asdict())[:1500], b=str(again.asdict())[:1500])
        ser = json.loads(json.dumps(again.asdict(omit_defaults=omit)))
        mon.eq(g.canon(ser), g.canon(raw), 'serialization is not stable')
        if omit:
            mon.eq(g.canon(norm(raw, case['kind'])), g.canon(base), 'properties changed')
        # a copy built from the serialization behaves alike
        mon.eq(g.canon(json.loads(json.dumps(again.asdict()))), g.canon(json.loads(json.dumps(obj.asdict()))),
               'pruned serialization differs')
    mon.event(case['kind'], sorted(base)[:8])
