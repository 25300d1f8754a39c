"""Changing descriptions has the effect of specifying them differently."""
import copy
import json
import random
import warnings

import csvw
from csvw.metadata import ForeignKey, Link
from harness import g, mdgen
from harness.props import h01

RULE = ('Random table groups with data files are loaded and changed 3-10 times out of 24 ways - adding, removing, renaming and '
        'reordering columns, setting or resetting inherited properties at any level, datatypes and their facets, titles, keys, '
        'foreign keys, dialects or single properties of dialects, tables, URLs, common properties, the location of the metadata - '
        'while used in between (27 kinds of operations). The same changes are made to a plain JSON document; after each change and use '
        'the outcome (result, warnings or exception) must be that for an object loaded from the document.')
CASES = {'quick': 6000, 'thorough': 48000}

USES = [k for k in sorted(h01.OPS) if k not in ('to_json', 'to_json_minimal', 'is_valid', 'tablegroup', 'rows_interleaved')]
CELLS = ['', '1', '2', 'x', 'NA', '2020-01-02', 'a;b', ' y ', '1.5', 'true', '#c', '1;2', 'yes', "q'q"]
INHERITED = ['aboutUrl', 'datatype', 'default', 'lang', 'null', 'ordered', 'propertyUrl', 'required', 'separator',
             'textDirection', 'valueUrl']
DIALECT = {
    'delimiter': [',', ';', '|'], 'quoteChar': ['"', "'", None], 'commentPrefix': ['#', None, '~'], 'header': [True, False],
    'skipRows': [0, 1, 2], 'skipColumns': [0, 1], 'skipBlankRows': [True, False], 'skipInitialSpace': [True, False],
    'trim': ['true', 'false', 'start', 'end'], 'doubleQuote': [True, False], 'encoding': ['utf-8', 'latin-1', 'utf-16'],
    'lineTerminators': ['\n', ['\r\n', '\n'], ['\n']]}
CHANGES = {}


def change(f):
    CHANGES[f.__name__] = f
    return f


def inherited_value(rng, k):
    while True:
        d = mdgen.inherited(rng, .5)
        if k in d:
            if k == 'datatype' and rng.random() < .6:
                return rng.choice(['integer', 'string', 'boolean', 'date', {'base': 'string', 'maxLength': 2},
                                   {'base': 'integer', 'minimum': 2}, {'base': 'decimal', 'format': '0.0'}])
            return d[k]


def some_table(rng, tg, md):
    i = rng.randrange(len(md['tables']))
    return tg.tables[i], md['tables'][i]


def some_column(rng, tg, md):
    t, d = some_table(rng, tg, md)
    i = rng.randrange(len(d['tableSchema']['columns']))
    return t.tableSchema.columns[i], d['tableSchema']['columns'][i]


def new_names(rng, d):
    used = {c.get('name') for c in d['tableSchema']['columns']} | {
        c.get('titles') for c in d['tableSchema']['columns'] if isinstance(c.get('titles'), str)}
    return [n for n in ['ca', 'cb', 'cc', 'cd', 'ce', 'cf', 'cg'] if n not in used]


@change
def add_column(rng, tg, md, new):
    t, d = some_table(rng, tg, md)
    cols = d['tableSchema']['columns']
    names = new_names(rng, d)
    if not names:
        return
    spec = {'name': rng.choice(names)}
    spec.update(mdgen.inherited(rng, .1))
    regular = len([c for c in cols if not c.get('virtual')])
    i = rng.randint(0, regular)
    if rng.random() < .2:
        i = len(cols)
        spec.update(virtual=True, valueUrl=rng.choice(mdgen.TMPL))
    cols.insert(i, spec)
    col = csvw.Column.fromvalue(copy.deepcopy(spec))
    col._parent = t.tableSchema
    t.tableSchema.columns.insert(i, col)
    for j, c in enumerate(t.tableSchema.columns):
        c._number = j + 1
    return True


@change
def remove_column(rng, tg, md, new):
    t, d = some_table(rng, tg, md)
    cols = d['tableSchema']['columns']
    if len(cols) < 2:
        return
    i = rng.randrange(len(cols))
    cols.pop(i)
    t.tableSchema.columns.pop(i)
    for j, c in enumerate(t.tableSchema.columns):
        c._number = j + 1
    return True


@change
def swap_columns(rng, tg, md, new):
    t, d = some_table(rng, tg, md)
    cols = d['tableSchema']['columns']
    i = rng.randrange(len(cols) or 1)
    if i + 1 >= len(cols) or cols[i + 1].get('virtual') or cols[i].get('virtual'):
        return
    for c in (cols, t.tableSchema.columns):
        c[i], c[i + 1] = c[i + 1], c[i]
    for j, c in enumerate(t.tableSchema.columns):
        c._number = j + 1
    return True


@change
def rename_column(rng, tg, md, new):
    t, d = some_table(rng, tg, md)
    names = new_names(rng, d)
    i = rng.randrange(len(d['tableSchema']['columns']))
    c = d['tableSchema']['columns'][i]
    if not names or 'name' not in c:
        return
    c['name'] = t.tableSchema.columns[i].name = rng.choice(names)
    return True


@change
def set_titles(rng, tg, md, new):
    c, d = some_column(rng, tg, md)
    if 'name' not in d or d.get('virtual'):
        return
    k = rng.random()
    if k < .3 and 'titles' in d:
        del d['titles']
        c.titles = None
        return True
    d['titles'] = rng.choice(['ca T', ['ca T', 'cb T'], {'en': 'ca T'}, {'de': ['x', 'cc']}])
    c.titles = csvw.NaturalLanguage(copy.deepcopy(d['titles']))
    return True


@change
def add_title(rng, tg, md, new):
    c, d = some_column(rng, tg, md)
    if not isinstance(d.get('titles'), dict) or c.titles is None:
        return
    lang = rng.choice(['en', 'de', 'fr'])
    c.titles.add('more', lang=lang)
    old = d['titles'].get(lang, [])
    d['titles'][lang] = (old if isinstance(old, list) else [old]) + ['more']
    return True


def set_inherited(rng, obj, d, make):
    k = rng.choice(INHERITED)
    if k in d and rng.random() < .4:
        del d[k]
        setattr(obj, k, getattr(make({}), k))
        return
    d[k] = inherited_value(rng, k)
    setattr(obj, k, getattr(make({k: copy.deepcopy(d[k])}), k))
    if k == 'datatype' and hasattr(obj.datatype, '_parent'):
        obj.datatype._parent = obj


@change
def column_property(rng, tg, md, new):
    c, d = some_column(rng, tg, md)
    set_inherited(rng, c, d, lambda v: csvw.Column.fromvalue(dict(v, name='x')))
    return True


@change
def schema_property(rng, tg, md, new):
    t, d = some_table(rng, tg, md)
    set_inherited(rng, t.tableSchema, d['tableSchema'], csvw.metadata.Schema.fromvalue)
    return True


@change
def table_property(rng, tg, md, new):
    t, d = some_table(rng, tg, md)
    set_inherited(rng, t, d, lambda v: csvw.Table.fromvalue(dict(v, url='x')))
    return True


@change
def group_property(rng, tg, md, new):
    set_inherited(rng, tg, md, lambda v: csvw.TableGroup.fromvalue(dict(v, tables=[])))
    return True


@change
def null_in_place(rng, tg, md, new):
    c, d = some_column(rng, tg, md)
    if not isinstance(d.get('null'), list) or not d['null']:
        return
    d['null'].append('x')
    c.null.append('x')
    return True


@change
def facet(rng, tg, md, new):
    c, d = some_column(rng, tg, md)
    if not isinstance(d.get('datatype'), dict) or c.datatype is None:
        return
    dt = d['datatype']
    k, v = rng.choice([
        ('format', {'decimal': '0.00', 'string': '[xyNA]*', 'boolean': 'yes|no', 'date': 'd.M.yyyy'}.get(dt['base'])),
        ('maxLength', rng.randint(1, 3)), ('minLength', rng.randint(0, 1)), ('minimum', 1), ('maximum', 1000)])
    if v is None or k in dt and rng.random() < .5:
        if k in dt:
            del dt[k]
            setattr(c.datatype, k, None)
            return True
        return
    spec = dict(dt)
    spec[k] = v
    try:
        fresh = csvw.Datatype.fromvalue(copy.deepcopy(spec))
    except ValueError:
        return
    if not set(spec) <= {'base', 'format', 'maxLength', 'minLength', 'minimum', 'maximum'}:
        return
    dt[k] = v
    setattr(c.datatype, k, getattr(fresh, k))
    return True


@change
def primary_key(rng, tg, md, new):
    t, d = some_table(rng, tg, md)
    names = [c['name'] for c in d['tableSchema']['columns'] if 'name' in c and not c.get('virtual')]
    if 'primaryKey' in d['tableSchema'] and rng.random() < .3:
        del d['tableSchema']['primaryKey']
        t.tableSchema.primaryKey = None
    elif names:
        d['tableSchema']['primaryKey'] = rng.sample(names, min(len(names), rng.randint(1, 2)))
        t.tableSchema.primaryKey = list(d['tableSchema']['primaryKey'])
    else:
        return
    return True


@change
def add_foreign_key(rng, tg, md, new):
    t, d = some_table(rng, tg, md)
    t2, d2 = some_table(rng, tg, md)
    a = [c['name'] for c in d['tableSchema']['columns'] if 'name' in c and not c.get('virtual')]
    b = [c['name'] for c in d2['tableSchema']['columns'] if 'name' in c and not c.get('virtual')]
    if not a or not b:
        return
    n = min(len(a), len(b), rng.randint(1, 2))
    a, b = rng.sample(a, n), rng.sample(b, n)
    if n == 1 and rng.random() < .5:
        t.add_foreign_key(a[0], d2['url'], b[0])
    else:
        t.add_foreign_key(a, d2['url'], b)
    d['tableSchema'].setdefault('foreignKeys', []).append(
        {'columnReference': a, 'reference': {'resource': d2['url'], 'columnReference': b}})
    return True


@change
def remove_foreign_key(rng, tg, md, new):
    t, d = some_table(rng, tg, md)
    fks = d['tableSchema'].get('foreignKeys')
    if not fks:
        return
    i = rng.randrange(len(fks))
    fks.pop(i)
    t.tableSchema.foreignKeys.pop(i)
    return True


@change
def change_foreign_key(rng, tg, md, new):
    t, d = some_table(rng, tg, md)
    t2, d2 = some_table(rng, tg, md)
    fks = d['tableSchema'].get('foreignKeys')
    if not fks:
        return
    i = rng.randrange(len(fks))
    fks[i]['reference']['resource'] = d2['url']
    if rng.random() < .5:
        t.tableSchema.foreignKeys[i].reference.resource = Link(d2['url'])
    else:
        t.tableSchema.foreignKeys[i] = ForeignKey.fromdict(copy.deepcopy(fks[i]))
    return True


@change
def group_dialect(rng, tg, md, new):
    set_dialect(rng, tg, md)
    return True


@change
def table_dialect(rng, tg, md, new):
    set_dialect(rng, *some_table(rng, tg, md))
    return True


def set_dialect(rng, obj, d):
    if 'dialect' in d and rng.random() < .15:
        del d['dialect']
        obj.dialect = None
    elif 'dialect' in d and rng.random() < .6:
        k = rng.choice(sorted(DIALECT))
        v = rng.choice(DIALECT[k])
        d['dialect'][k] = v
        if rng.random() < .8:
            setattr(obj.dialect, k, copy.copy(getattr(csvw.Dialect(**{k: v}), k)))
        else:
            obj.dialect = obj.dialect.updated(**{k: v})
    else:
        d['dialect'] = {k: rng.choice(DIALECT[k]) for k in DIALECT if rng.random() < .2}
        obj.dialect = csvw.Dialect(**copy.deepcopy(d['dialect']))


@change
def add_table(rng, tg, md, new):
    if not new:
        return
    d = new.pop()
    md['tables'].append(d)
    t = csvw.Table.fromvalue(copy.deepcopy(d))
    t._parent = tg
    tg.tables.append(t)
    return True


@change
def remove_table(rng, tg, md, new):
    if len(md['tables']) < 2:
        return
    i = rng.randrange(len(md['tables']))
    d = md['tables'].pop(i)
    tg.tables.pop(i)
    new.append(d)
    return True


@change
def swap_tables(rng, tg, md, new):
    tg.tables.reverse()
    md['tables'].reverse()
    return len(tg.tables) > 1


@change
def set_url(rng, tg, md, new):
    t, d = some_table(rng, tg, md)
    if d['url'].startswith('new'):
        return
    d['url'] = 'new' + d['url']
    t.url = Link(d['url'])
    return True


@change
def common_property(rng, tg, md, new):
    t, d = some_table(rng, tg, md)
    c, cd = some_column(rng, tg, md)
    o, od = rng.choice([(tg, md), (t, d), (c, cd), (t.tableSchema, d['tableSchema'])])
    if 'dc:title' in od and rng.random() < .4:
        del od['dc:title'], o.common_props['dc:title']
    else:
        od['dc:title'] = mdgen.common_value(rng)
        o.common_props['dc:title'] = csvw.Table.fromvalue(
            {'url': 'x', 'dc:title': copy.deepcopy(od['dc:title'])}).common_props['dc:title']
    return True


@change
def at_property(rng, tg, md, new):
    t, d = some_table(rng, tg, md)
    o, od = rng.choice([(tg, md), (t, d), (t.tableSchema, d['tableSchema'])])
    od['@id'] = o.at_props['id'] = rng.choice(['http://example.org/x', 'http://example.org/y'])
    return True


@change
def suppress(rng, tg, md, new):
    t, d = some_table(rng, tg, md)
    c, cd = some_column(rng, tg, md)
    o, od = rng.choice([(t, d), (c, cd)])
    od['suppressOutput'] = o.suppressOutput = not od.get('suppressOutput', False)
    return True


REQUIRED = ['change:' + k for k in CHANGES] + ['change:move'] + ['op:' + k for k in USES] + ['outcome:ok', 'outcome:exc', 'warned', 'path', 'saved']


def gen(rng):
    def table(i):
        cols = []
        for n in rng.sample(['ca', 'cb', 'cc', 'cd'], rng.randint(1, 3)):
            c = {'name': n} if rng.random() < .85 else {'titles': n}
            if 'name' in c and rng.random() < .15:
                c['titles'] = n.upper()
            c.update(mdgen.inherited(rng, .04))
            if rng.random() < .3:
                c['datatype'] = inherited_value(rng, 'datatype')
            cols.append(c)
        if rng.random() < .15:
            cols.append({'name': 'vv', 'virtual': True, 'valueUrl': rng.choice(mdgen.TMPL)})
        t = {'url': 't%d.csv' % i, 'tableSchema': {'columns': cols}}
        if rng.random() < .3:
            t['dialect'] = {k: rng.choice(DIALECT[k]) for k in DIALECT if rng.random() < .15}
        return t
    ts = [table(i) for i in range(rng.randint(2, 4))]
    md = {'@context': 'http://www.w3.org/ns/csvw', 'tables': ts[:-1]}
    if rng.random() < .3:
        md['dialect'] = {k: rng.choice(DIALECT[k]) for k in DIALECT if rng.random() < .1}
    return dict(md=md, new=ts[-1:], seed=rng.randrange(10**7), steps=rng.randint(3, 10), path=rng.random() < .5)


def data(rng, t):
    header = [c.get('name') or c['titles'] for c in t['tableSchema']['columns'] if not c.get('virtual')]
    if rng.random() < .3:
        header.append('ce')
    if rng.random() < .2:
        rng.shuffle(header)
    rows = [header]
    for _ in range(rng.randint(1, 4)):
        rows.append([rng.choice(CELLS[:3] if rng.random() < .6 else CELLS) for _ in header])
    if rng.random() < .1:
        rows.append([])
    return g.dump(rows).encode('utf8')


def run(case, mon, work):
    rng = random.Random(case['seed'])
    md, new = copy.deepcopy(case['md']), copy.deepcopy(case['new'])
    dirs = [work / 'a', work / 'b']
    for d in dirs:
        d.mkdir()
        for t in md['tables'] + new:
            (d / t['url']).write_bytes(data(rng, t))
            (d / ('new' + t['url'])).write_bytes(data(rng, t))
    where = [dirs[0]]

    def fresh():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            res = csvw.TableGroup.fromvalue(copy.deepcopy(md))
        res._fname = where[0] / 'md.json'
        return res

    if case['path']:
        mon.cover('path')
        (dirs[0] / 'md.json').write_text(json.dumps(md))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tg = csvw.TableGroup.from_file(dirs[0] / 'md.json')
    else:
        tg = fresh()
    log = []
    for _ in range(case['steps']):
        done, tries = None, 0
        before = copy.deepcopy(md)
        while not done and tries < 20:
            tries += 1
            if rng.random() < .04:
                where[0] = dirs[1 - dirs.index(where[0])]
                tg._fname = where[0] / 'md.json'
                name, done = 'move', True
                break
            name = rng.choice(sorted(CHANGES))
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                done = CHANGES[name](rng, tg, md, new)
        if not done:
            continue
        mon.cover('change:' + name)
        log.append(name)
        try:
            f = fresh()
        except ValueError:
            mon.count('unloadable')  # descriptions which cannot be specified
            return
        got = h01.outcome(lambda: json.dumps(tg.asdict()))
        mon.eq(got, h01.outcome(lambda: json.dumps(f.asdict())), 'description differs after ' + name, changes=log, md=md, before=before)
        mon.check(tg == f, 'descriptions not equal after ' + name, changes=log, md=md, before=before)
        for _ in range(rng.randint(1, 3)):
            use, seed = rng.choice(USES + ['rows_strict', 'rows_lax', 'write_memory', 'refint'] * 2), rng.randrange(10**6)
            mon.cover('op:' + use)
            want = h01.outcome(lambda: h01.OPS[use](fresh(), random.Random(seed)))
            got = h01.outcome(lambda: h01.OPS[use](tg, random.Random(seed)))
            mon.cover('outcome:' + want[0])
            if want[-1]:
                mon.cover('warned')
            mon.eq(got, want, 'change without effect: ' + use, changes=log, md=md)
            log.append(use)
    # What is saved is the changed description.
    mon.cover('saved')
    tg.to_file(where[0] / 'saved.json')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        again = csvw.TableGroup.from_file(where[0] / 'saved.json')
    again._fname = tg._fname
    mon.check(again == fresh(), 'saved description differs', changes=log, md=md, saved=again.asdict(), want=fresh().asdict())
    mon.event(log)
