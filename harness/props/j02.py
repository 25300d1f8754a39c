"""Conversion to JSON: rows which describe several, possibly related, objects."""
import json
import warnings

import csvw
from harness import g
from harness.props.j01 import VALUES, expand, plainjson, q

RULE = ('Random tables whose columns carry their own aboutUrl, with references between the objects (chains, shared '
        'targets, self references, cycles), repeated properties, lists, nulls, suppressed and virtual columns are '
        'converted to JSON; the nested objects of each row are flattened to (subject, property, value) statements, '
        'which must be exactly those of an independent model, every subject being defined once, nested iff there is one '
        'reference to it, and the subject of the row first.')
CASES = {'quick': 8000, 'thorough': 64000}
REQUIRED = ['row-about', 'no-row-about', 'anonymous', 'nested', 'self', 'cycle', 'shared-target', 'list', 'null', 'type',
            'repeated', 'virtual', 'suppressed', 'subjects:1', 'subjects:2', 'subjects:3', 'depth:2', 'minimal',
            'ring', 'placed:top', 'placed:nested', 'several-references', 'scalar']
TYPES = ['integer', 'boolean', 'string', 'date', 'time', 'dateTime', 'gYear', 'hexBinary', 'anyURI', 'float']
SUBJ = ['http://example.org/A', '#b{_row}', 'http://example.org/{c0}', 'x/{_row}', 'http://example.org/{_row}/{c0}',
        'http://example.org/n/{_name}']
PROPS = [None, None, 'schema:name', 'dc:title', 'http://example.org/p', 'http://example.org/{_name}']


def gen(rng):
    cols = []
    subj = rng.sample(SUBJ, rng.randint(1, 4))
    lists = rng.choice([.1, .15, .5])
    for i in range(g.size(rng, 2, 7, 20)):
        c = {'name': 'c%d' % i, 'datatype': rng.choice(TYPES)}
        if rng.random() < .7:
            c['aboutUrl'] = rng.choice(subj)
        p = rng.choice(PROPS)
        if p:
            c['propertyUrl'] = p
        k = rng.random()
        if k < .4:
            c['valueUrl'] = rng.choice(subj)
        elif k < .5:
            c['propertyUrl'] = 'rdf:type'
            c['valueUrl'] = rng.choice(['schema:Person', 'http://schema.org/Event', 'http://example.org/T'])
        if rng.random() < lists:
            c['separator'] = '|'
        if rng.random() < .07:
            c['suppressOutput'] = True
        cols.append(c)
    cols[0].update(datatype='string')
    cols[0].pop('separator', None)
    virt = []
    for i in range(g.pick(rng, [0, 0, 1, 2], 8)):
        virt.append({'name': 'v%d' % i, 'virtual': True, 'propertyUrl': rng.choice(['schema:url', 'http://example.org/w']),
                     'valueUrl': rng.choice(subj + ['http://example.org/other'])})
        if rng.random() < .7:
            virt[-1]['aboutUrl'] = rng.choice(subj)
    rows = []
    for _ in range(g.size(rng, 1, 4, 30)):
        row = [[rng.choice(['k', 'Z', '9'])] * 3]
        for c in cols[1:]:
            vals = [v for v in VALUES[c['datatype']] if '|' not in v[0] and v[2] not in ('a/b',)]
            if rng.random() < .12:
                row.append(None)
            elif 'separator' in c:
                row.append([list(rng.choice(vals)) for _ in range(g.size(rng, 1, 3, 20))])
            else:
                row.append(list(rng.choice(vals)))
        rows.append(row)
    own = [x for x in subj if '_name' not in x] or [None]
    return dict(cols=cols, virt=virt, rows=rows, about=rng.choice([None, rng.choice(own), 'http://example.org/row/{_row}']))


def run(case, mon, work):
    cols = case['cols']
    s = {'columns': cols + case['virt']}
    if case['about']:
        s['aboutUrl'] = case['about']
    md = {'@context': 'http://www.w3.org/ns/csvw', 'url': 't.csv', 'tableSchema': s}
    url = str(work / 't.csv')
    text = ','.join(c['name'] for c in cols) + '\n'
    want = []
    for n, row in enumerate(case['rows'], start=1):
        raw, env, js = [], {'_row': str(n)}, {}
        for c, v in zip(cols, row):
            name = c['name']
            if v is None:
                raw.append('')
                env[name] = js[name] = [] if 'separator' in c else None
                mon.cover('null')
            elif 'separator' in c:
                raw.append('|'.join(x[0] for x in v))
                env[name], js[name] = [x[1] for x in v], [x[2] for x in v]
            else:
                raw.append(v[0])
                env[name], js[name] = v[1], v[2]
        text += ','.join(q(r) for r in raw) + '\n'
        triples = []
        for c in cols + case['virt']:
            name = c['name']
            if c.get('suppressOutput'):
                mon.cover('suppressed')
                continue
            if c.get('virtual'):
                mon.cover('virtual')
            elif js[name] in (None, '', []) and js[name] is not False:
                continue
            e = dict(env, _name=name)
            p = expand(c['propertyUrl'], e, url, True) if c.get('propertyUrl') else name
            v = expand(c['valueUrl'], e, url, p == 'rdf:type') if 'valueUrl' in c else js[name]
            about = c.get('aboutUrl') or case['about']
            about = expand(about, e, url, False) if about else None
            if isinstance(v, list):
                mon.cover('list')
            if p == 'rdf:type':
                mon.cover('type')
            triples += [(about, '@type' if p == 'rdf:type' else p, x) for x in (v if isinstance(v, list) else [v])]
        want.append((expand(case['about'], env, url, False) if case['about'] else None, triples))
    (work / 't.csv').write_text(text, encoding='utf8', newline='')
    (work / 'md.json').write_text(json.dumps(md), encoding='utf8')
    mon.cover('row-about' if case['about'] else 'no-row-about')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        obj = csvw.CSVW(str(work / 'md.json'))
        got = json.loads(json.dumps(obj.to_json()))
        mini = json.loads(json.dumps(obj.to_json(minimal=True)))
    rows = got['tables'][0]['row']
    mon.eq(len(rows), len(want), 'number of rows', md=md)
    mon.cover('minimal')
    mon.eq(key(sorted(key(flat(o)[1]) for o in mini)),
           key(sorted(key(flat(o)[1]) for r in rows for o in r['describes'])), 'minimal mode has other objects', md=md)
    for r, (first, triples) in zip(rows, want):
        plainjson(mon, r)
        objs = r['describes']
        defined, stmts, depth = [], [], 0
        for o in objs:
            d, st, n = flat(o)
            defined += d
            stmts += st
            depth = max(depth, n)
        ids = [d for d in defined if d is not None]
        mon.check(len(set(ids)) == len(ids), 'subject defined more than once', md=md, describes=objs)
        mon.check(defined.count(None) <= 1, 'several objects without @id', md=md, describes=objs)
        anon = [t for t in triples if t[0] is None]
        subjects = {t[0] for t in triples}
        mon.check(anon or None not in defined or not triples, 'object without statements', md=md, describes=objs)
        multi = any(c.get('aboutUrl') for c in cols + case['virt'])
        exp = {key(t) for t in triples}
        if anon:
            mon.cover('anonymous')
            if None not in defined and len(objs) == 1:
                # statements about the row merged with those of the single object described
                exp = {key((t[0] or objs[0]['@id'],) + t[1:]) for t in triples}
        mon.eq(sorted({key(t) for t in stmts}), sorted(exp), 'statements differ', md=md, describes=objs)
        if multi and None not in subjects and subjects:
            mon.eq(sorted(ids), sorted(subjects), 'objects defined', md=md, describes=objs)
        if multi:
            # Objects are nested iff there is exactly one statement referring to them.
            refs = {}
            for a, p, v in {key(t): t for t in triples}.values():
                if a is not None and p != '@type' and isinstance(v, str) and v.startswith('http') and v in ids:
                    refs.setdefault(v, []).append(a)
            parent = {v: a[0] for v, a in refs.items() if len(a) == 1}
            top = {o.get('@id') for o in objs}
            for i in set(ids):
                chain = [i]
                while chain[-1] in parent and parent[chain[-1]] not in chain:
                    chain.append(parent[chain[-1]])
                if parent.get(chain[-1]) == i:
                    mon.cover('ring')
                    mon.eq(len(top & set(chain)), 1, 'objects referring to each other are reachable from one of them',
                           md=md, describes=objs)
                else:
                    mon.eq(i in top, i not in parent, 'object nested iff referred to once: ' + i, md=md, describes=objs)
                    mon.cover('placed:' + ('top' if i in top else 'nested'))
                    if len(refs.get(i, [])) > 1:
                        mon.cover('several-references')
        if first in ids and multi:
            # nested only if another object refers to it
            refs = [t for t in triples if t[2] == first and t[0] != first]
            if not refs:
                mon.eq(objs[0].get('@id'), first, 'the subject of the row comes first', md=md, describes=objs)
        mon.cover('subjects:%d' % len(subjects))
        if depth > 1:
            mon.cover('nested')
            mon.cover('depth:%d' % min(depth - 1, 3))
        # Arrays are given for several values only, unless the cell is a list.
        count = {}
        for t in triples:
            count.setdefault(t[:2], []).append(t)
        for o in objs:
            for obj in walk(o):
                for k, v in obj.items():
                    one = count.get((obj.get('@id'), k), [])
                    if k != '@id' and len(one) == 1 and not any('separator' in c for c in cols):
                        mon.cover('scalar')
                        mon.check(not isinstance(v, list), 'single value given as array', md=md, describes=objs, k=k)
        links = {(t[0], t[2]) for t in triples if t[2] in subjects and t[0]}
        if any(a == b for a, b in links):
            mon.cover('self')
        if any((b, a) in links for a, b in links if a != b):
            mon.cover('cycle')
        if any(len({a for a, b in links if b == s}) > 1 for s in subjects):
            mon.cover('shared-target')
        if len({t[:2] for t in triples}) < len(triples):
            mon.cover('repeated')
        mon.count('statements', len(triples))
    mon.event(len(rows), 'rows', md)


def walk(o):
    yield o
    for v in o.values():
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, dict):
                yield from walk(x)


def flat(o, depth=1):
    """(subjects defined, statements, depth)"""
    s = o.get('@id')
    defined, stmts, n = [s], [], depth
    for k, v in o.items():
        if k == '@id':
            continue
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, dict):
                d, st, m = flat(x, depth + 1)
                defined += d
                stmts += st
                n = max(n, m)
                x = x.get('@id')
            stmts.append((s, k, x))
    return defined, stmts, n


def key(o):
    """Statements are compared including the types of values, yet 1.0 and 1 are the same JSON number."""
    return json.dumps(g.canon(o), sort_keys=True)
