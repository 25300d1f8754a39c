"""Dict and namedtuple readers keep cells aligned with their names."""
import io
import keyword
import warnings
import csvw
from csvw.dsv import iterrows, UnicodeDictReader, NamedTupleReader
from harness import g

RULE = ('Random tables with ragged, blank and duplicate-header rows, explicit or read fieldnames, '
        'restkey/restval, read as dicts and namedtuples; each mapping is compared with a model '
        'built from the cells.')
CASES = {'quick': 80000, 'thorough': 640000}
REQUIRED = ['short', 'long', 'blank', 'exact', 'explicit-names', 'namedtuple', 'dict', 'dup-names',
            'keyword-name', 'empty-file']
NAMES = ['id', 'Name', 'class', 'x.y', 'Ünïcode', 'a b', 'def', 'b_c', 'aB', 'n1', 'q?',
         'two  x', 'for', 'z-9']


def norm(s):
    """Documented normalization for the identifier class generated here."""
    import unicodedata
    s = s.replace('-', '_').replace('.', '_').replace(' ', '_')
    if s in keyword.kwlist:
        return s + '_'
    s = ''.join(c for c in unicodedata.normalize('NFD', s) if unicodedata.category(c) != 'Mn')
    return s.replace('?', '')


def gen(rng):
    nt = rng.random() < .4
    k = g.size(rng, 1, 5, 40)
    names = rng.sample(NAMES, k) if k <= 5 else rng.sample(['c%d' % i for i in range(k)] + NAMES, k)
    dup = (not nt) and rng.random() < .15
    if dup and k > 1:
        names[-1] = names[0]
    rows = []
    uid = 0
    for _ in range(g.size(rng, 0, 7, 200)):
        w = rng.choice([k, k, k, max(0, k - 1), k + 1, k + 2, 0, 1, g.size(rng, k, k + 1, 2 * k + 12)])
        row = []
        for _ in range(w):
            uid += 1
            row.append(rng.choice(['u%d' % uid, 'u%d' % uid, '', 'v %d,"' % uid, 'l\n%d' % uid]))
        rows.append(row)
    return dict(nt=nt, names=names, rows=rows, explicit=rng.random() < .35,
                empty=rng.random() < .03,
                restkey=rng.choice([None, None, 'REST']), restval=rng.choice([None, None, 'N/A']),
                api=rng.choice(['class', 'iterrows']), delim=rng.choice([',', '\t', ';']))


def run(case, mon, work):
    names, rows = case['names'], case['rows']
    body = ([] if case['explicit'] else [names]) + rows
    if case['empty']:
        body, rows = [], []
        mon.cover('empty-file')
    text = g.dump(body, delim=case['delim'])
    kw = dict(delimiter=case['delim'])
    if case['restkey']:
        kw['restkey'] = case['restkey']
    if case['restval']:
        kw['restval'] = case['restval']
    if case['explicit']:
        kw['fieldnames'] = list(names)
    src = io.StringIO(text, newline='')
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if case['api'] == 'iterrows':
            got = list(iterrows(src, **{'namedtuples' if case['nt'] else 'dicts': True}, **kw))
        else:
            with (NamedTupleReader if case['nt'] else UnicodeDictReader)(src, **kw) as r:
                got = list(r)
    want = []
    for row in rows:
        if row == []:
            mon.cover('blank')
            continue
        d = {}
        for n, c in zip(names, row):
            d[n] = c
        if len(row) > len(names):
            mon.cover('long')
            if not case['nt']:
                d[case['restkey']] = row[len(names):]
        elif len(row) < len(names):
            mon.cover('short')
            for n in names[len(row):]:
                d[n] = case['restval']
        else:
            mon.cover('exact')
        want.append(d)
    mon.eq(len(got), len(want), 'number of rows differs', text=text)
    if len(set(names)) < len(names):
        mon.cover('dup-names')
        if got:
            mon.check(any('Duplicate' in str(x.message) for x in w), 'no duplicate-name warning')
    else:
        mon.check(not any('Duplicate' in str(x.message) for x in w), 'duplicate-name warning',
                  names=names)
    if case['explicit']:
        mon.cover('explicit-names')
    for gr, wr in zip(got, want):
        if case['nt']:
            mon.cover('namedtuple')
            fields = [norm(n) for n in names]
            mon.eq(list(gr._fields), fields, 'field names or their order differ')
            mon.eq(gr._asdict(), {norm(n): v for n, v in wr.items()}, 'row differs', text=text)
            mon.eq(list(gr), [wr[n] for n in names], 'positional values differ')
            if any(n in keyword.kwlist for n in names):
                mon.cover('keyword-name')
        else:
            mon.cover('dict')
            mon.eq(dict(gr), wr, 'row differs', text=text)
            mon.eq(list(gr), list(wr), 'key order differs', text=text)
    mon.check(True, '')
    mon.count('rows', len(want))
