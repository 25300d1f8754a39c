"""Operations have no effect on later ones."""
import contextlib
import copy
import csv
import decimal
import io
import json
import locale
import os
import random
import sys
import warnings

import csvw
from csvw import jsonld
from csvw.db import Database
from csvw.utils import metadata2markdown
from harness import g, mdgen
from harness.props import v01

RULE = ('Random table groups (valid ones and ones with planted problems, common properties, URI templates, dialects) are '
        'read as TableGroup, Table or CSVW objects; sequences of 6-16 operations out of 29 - iterating (also interleaved or '
        'abandoned half way), serializing, validating, converting, writing to memory, databases, expanding - '
        'run on one object, and the outcome of each (result, warnings or exception) must be that of the operation run first thing '
        'on a fresh object. In some sequences data files are edited in between, and metadata is loaded again after an edit. Input dicts and rows, files, and process-wide state (warning filters, cwd, decimal context, csv '
        'settings, environment) must stay the same.')
CASES = {'quick': 6000, 'thorough': 48000}
BIG = .004

OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def grp(o):
    o = o.t if isinstance(o, csvw.CSVW) else o
    return o


def tabs(o):
    o = grp(o)
    return o.tables if isinstance(o, csvw.TableGroup) else [o]


def table(o, rng):
    return tabs(o)[rng.randrange(len(tabs(o)))]


@op
def asdict(o, rng):
    return grp(o).asdict()


@op
def asdict_full(o, rng):
    return grp(o).asdict(omit_defaults=False)


@op
def rows_strict(o, rng):
    return list(table(o, rng).iterdicts())


@op
def rows_lax(o, rng):
    return list(table(o, rng).iterdicts(strict=False))


@op
def rows_logged(o, rng):
    import logging
    msgs = []

    class H(logging.Handler):
        def emit(self, record):
            msgs.append(record.getMessage())
    log = logging.Logger('x')
    log.addHandler(H())
    return list(table(o, rng).iterdicts(log=log)), msgs


@op
def rows_meta(o, rng):
    return [(str(a), b, c) for a, b, c in table(o, rng).iterdicts(with_metadata=True, strict=False)]


@op
def rows_abandoned(o, rng):
    it = table(o, rng).iterdicts(strict=False)
    res = []
    for _ in range(rng.randint(0, 2)):
        res.append(next(it, None))
    if rng.random() < .5:
        it.close()
    return res


@op
def rows_interleaved(o, rng):
    its = [iter(table(o, rng).iterdicts(strict=False)) for _ in range(2)]
    res = []
    while its:
        i = rng.randrange(len(its))
        try:
            res.append((i, next(its[i])))
        except StopIteration:
            del its[i]
    return res


@op
def dunder_iter(o, rng):
    return [r for r in table(o, rng)]


@op
def pk(o, rng):
    return [t.check_primary_key() for t in tabs(o)]


@op
def refint(o, rng):
    o = grp(o)
    return o.check_referential_integrity(strict=rng.random() < .5) if isinstance(o, csvw.TableGroup) else None


@op
def read(o, rng):
    o = grp(o)
    return o.read() if isinstance(o, csvw.TableGroup) else None


@op
def write_memory(o, rng):
    t = table(o, rng)
    return t.write(list(t.iterdicts(strict=False)), fname=None)


@op
def write_elsewhere(o, rng):
    t = table(o, rng)
    try:
        n = t.write(list(t.iterdicts(strict=False)), fname='out.csv')
        with open('out.csv', 'rb') as fp:
            return n, fp.read()
    finally:
        if os.path.exists('out.csv'):
            os.unlink('out.csv')


@op
def to_json(o, rng):
    return o.to_json() if isinstance(o, csvw.CSVW) else None


@op
def to_json_minimal(o, rng):
    return o.to_json(minimal=True) if isinstance(o, csvw.CSVW) else None


@op
def is_valid(o, rng):
    return o.is_valid if isinstance(o, csvw.CSVW) else None


@op
def tablegroup(o, rng):
    return o.tablegroup.asdict() if isinstance(o, csvw.CSVW) else None


@op
def markdown(o, rng):
    o = grp(o)
    return metadata2markdown(o, 'p') if isinstance(o, csvw.TableGroup) else None


@op
def expand(o, rng):
    t = table(o, rng)
    tmpl = csvw.URITemplate(rng.choice(mdgen.TMPL))
    return [t.expand(tmpl, r, i) for i, r in enumerate(t.iterdicts(strict=False))]


@op
def fks(o, rng):
    o = grp(o)
    return [(a.local_name, b, c.local_name, d) for a, b, c, d in o.foreign_keys()] if isinstance(o, csvw.TableGroup) else None


@op
def names(o, rng):
    t = table(o, rng)
    return t.local_name, list(t.tableSchema.columndict), [str(c) for c in t.tableSchema.columns], [
        c.has_title('xc0') for c in t.tableSchema.columns], str(t.url.resolve(t.base))


@op
def database(o, rng):
    o = grp(o)
    if not isinstance(o, csvw.TableGroup):
        return None
    with contextlib.redirect_stdout(io.StringIO()):
        db = Database(o)
        try:
            db.write_from_tg()
            return db.read()
        finally:
            db.connection().close()


@op
def inherited(o, rng):
    return [[c.inherit(p) for p in ('lang', 'separator', 'required', 'default')] + [c.inherit_null()]
            for t in tabs(o) for c in t.tableSchema.columns]


@op
def dialect(o, rng):
    d = table(o, rng).dialect or grp(o).dialect or csvw.Dialect()
    return d.updated(delimiter=';').asdict(), d.asdict(), d.as_python_formatting_parameters()


@op
def cells(o, rng):
    res = []
    for c in table(o, rng).tableSchema.columns:
        for s in ['', '1', 'x']:
            try:
                v = c.read(s)
                res.append((v, c.write(v)))
            except ValueError as e:
                res.append(str(e))
    return res


@op
def schema_valid(o, rng):
    o = grp(o)
    return o.validate_schema() if isinstance(o, csvw.TableGroup) else None


@op
def add_and_remove_fk(o, rng):
    """Effects of changing the description can be undone."""
    t = table(o, rng)
    n = t.tableSchema.columns[0].header
    before = list(t.tableSchema.foreignKeys)
    t.add_foreign_key(n, t.url.string, n)
    res = t.asdict()
    t.tableSchema.foreignKeys[:] = before
    return res


@op
def common_json(o, rng):
    return jsonld.to_json(grp(o).common_props), [jsonld.to_json(t.common_props) for t in tabs(o)]


REQUIRED = ['op:' + k for k in OPS] + ['class:TableGroup', 'class:Table', 'class:CSVW', 'class:fromvalue', 'outcome:ok', 'outcome:exc', 'warned',
                                       'input-unchanged', 'data-edited', 'metadata-edited', 'comments']


def gen(rng):
    c = v01.gen(rng)
    if rng.random() < .5:
        c['problem'] = None
    if c['problem'] in v01.DATA or c['problem'] in ('no-json', 'no-tables', 'no-context', 'wrong-context'):
        c['problem'] = None
    return dict(base=c, cls=rng.choice(['TableGroup', 'Table', 'CSVW', 'CSVW', 'fromvalue']), seed=rng.randrange(10**7), edits=rng.choice([0, 0, 0, .3, .6]),
                ops=[[rng.choice(sorted(OPS)), rng.randrange(10**6)] for _ in range(rng.randint(6, 16))])


def state():
    ctx = decimal.getcontext()
    return dict(filters=list(warnings.filters), cwd=os.getcwd(), dialects=csv.list_dialects(), limit=csv.field_size_limit(),
                decimal=(ctx.prec, ctx.rounding, dict(ctx.traps), ctx.Emin, ctx.Emax), env=dict(os.environ), locale=locale.setlocale(locale.LC_ALL),
                path=list(sys.path), recursion=sys.getrecursionlimit(), showwarning=warnings.showwarning,
                datatypes=sorted(csvw.metadata.DATATYPES), excepthook=sys.excepthook)


def decorate(rng, md):
    levels = [md] + md['tables']
    for lv in levels:
        lv.update(mdgen.common(rng, .4))
        if rng.random() < .2:
            lv['notes'] = [mdgen.common_value(rng)]
    for lv in levels:
        if rng.random() < .1:
            lv['dc:subject'] = rng.choice([{'@id': 5}, {'@value': 'x', '@language': 'no language'}, [{'@value': 'x', '@language': 'en'}]])
        if rng.random() < .1:
            lv['@id'] = rng.choice(['http://example.org/id', 5, '#x'])
        if rng.random() < .1:
            lv['tableDirection'] = rng.choice(['ltr', 'sideways'])
    if rng.random() < .3:
        md['@context'] = ['http://www.w3.org/ns/csvw', rng.choice([{'@language': 'de'}, {'@language': 'no language'}, {'@base': 'http://example.org/x'}])]
        if md['@context'][1].get('@base'):
            md['@context'] = 'http://www.w3.org/ns/csvw'
    for t in md['tables']:
        for lv in [t, t['tableSchema']] + t['tableSchema']['columns']:
            if rng.random() < .1:
                lv['aboutUrl'] = rng.choice(mdgen.TMPL)
            if rng.random() < .05:
                lv['propertyUrl'] = rng.choice(mdgen.TMPL)
            if rng.random() < .05:
                lv['valueUrl'] = rng.choice(mdgen.TMPL)
            if rng.random() < .05:
                lv['lang'] = rng.choice(['de', 'en'])
        if rng.random() < .2:
            t['dialect'] = {'skipBlankRows': True, 'commentPrefix': rng.choice([None, '~', '~'])}


def norm(v):
    return repr(v)


def outcome(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            res = ['ok', norm(fn())]
        except Exception as e:
            res = ['exc', type(e).__name__, str(e)]
    # only warnings of the library matter
    return res + [[str(x.message) for x in w if issubclass(x.category, UserWarning)]]


def edited(rng, rows):
    rows = copy.deepcopy(rows)
    for _ in range(rng.randint(0, 2)):
        k = rng.random()
        if rows and k < .3:
            rows.pop(rng.randrange(len(rows)))
        elif rows and k < .5:
            rows.append(list(rng.choice(rows)))
        elif rows and k < .8:
            r = rng.choice(rows)
            if r:
                r[rng.randrange(len(r))] = rng.choice(['', '1', 'x', 'id99'])
        else:
            rng.shuffle(rows)
    return rows


def run(case, mon, work):
    rng = random.Random(case['seed'])
    base, cls = case['base'], case['cls']
    ts = base['tables']
    md = {'@context': 'http://www.w3.org/ns/csvw', 'tables': []}
    for i, t in enumerate(ts):
        s = {'columns': t['cols']}
        if t['pk']:
            s['primaryKey'] = 'id'
        if any(c.get('name') == 'fk' for c in t['cols']):
            s['foreignKeys'] = [{'columnReference': 'fk', 'reference': {'resource': 't0.csv', 'columnReference': 'id'}}]
        md['tables'].append({'url': 't%d.csv' % i, 'tableSchema': s})
    md = copy.deepcopy(md)
    if base['problem'] and not v01.plant(base['problem'], ts, md, None, rng):
        mon.count('no-place')
    if not isinstance(md['tables'], list) or '@context' not in md:
        return
    decorate(rng, md)
    if cls == 'Table' or (cls == 'CSVW' and len(ts) == 1 and rng.random() < .5):
        md = dict({k: v for k, v in md.items() if k in ('@context',)}, **md['tables'][0])
        md['tableSchema'].pop('foreignKeys', None)
    commented = [t.get('dialect', {}).get('commentPrefix') == '~' for t in md.get('tables', [md])]

    def dump(i, rows):
        data = g.dump([ts[i]['header']] + rows)
        if i < len(commented) and commented[i]:
            mon.cover('comments')
            data = '~first\r\n' + data + '~last {}\r\n'.format(len(rows))
        (work / ('t%d.csv' % i)).write_bytes(data.encode('utf8'))
    for i, t in enumerate(ts):
        dump(i, t['rows'])
    (work / 'md.json').write_text(json.dumps(md))
    given = copy.deepcopy(md)
    files = {p.name: p.read_bytes() for p in work.iterdir()}

    data = rng.random() < .5

    def make():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if cls == 'CSVW':
                return csvw.CSVW(str(work / 'md.json'), validate=True)
            c = csvw.Table if cls == 'Table' else csvw.TableGroup
            if cls == 'fromvalue':
                o = c.fromvalue(md)
                o._fname = work / 'md.json'
                return o
            return c.from_file(work / 'md.json', data=md) if data else c.from_file(work / 'md.json')
    before = state()
    try:
        shared = make()
    except ValueError:
        mon.count('rejected')
        mon.check(md == given, 'input changed', got=md, want=given)
        return
    mon.cover('class:' + cls)
    erng = random.Random(case['seed'] + 1)
    edits = case.get('edits', 0)
    for name, seed in case['ops']:
        if edits and erng.random() < edits:
            # Somebody edits a data file: there is nothing to be remembered about it.
            i = erng.randrange(len(ts))
            rows = edited(erng, ts[i]['rows'])
            dump(i, rows)
            files['t%d.csv' % i] = (work / ('t%d.csv' % i)).read_bytes()
            mon.cover('data-edited')
        mon.cover('op:' + name)
        want = outcome(lambda: OPS[name](make(), random.Random(seed)))
        got = outcome(lambda: OPS[name](shared, random.Random(seed)))
        mon.cover('outcome:' + want[0])
        if want[-1]:
            mon.cover('warned')
        mon.eq(got, want, 'outcome depends on previous operations: ' + name, ops=case['ops'])
    mon.check(json.dumps(md) == json.dumps(given), 'input changed', now=md, before=given)
    mon.cover('input-unchanged')
    mon.eq({p.name: p.read_bytes() for p in work.iterdir()}, files, 'files changed')
    if cls != 'fromvalue' and not (data and cls != 'CSVW'):
        # Metadata is read again, too.
        (work / 'md.json').write_text(json.dumps(dict(md, **{'dc:title': 'edited'})))
        mon.eq(grp(make()).common_props.get('dc:title'), 'edited', 'metadata loaded a second time is that of the first time')
        mon.cover('metadata-edited')
    after = state()
    for k in before:
        mon.check(before[k] == after[k], 'process-wide state changed: ' + k, now=after[k], before=before[k])
    mon.event(cls, base['problem'], [n for n, _ in case['ops']])
