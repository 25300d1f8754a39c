"""Writing and copying table groups."""
import collections
import json
import os
import random
import shutil
import zipfile

import csvw
from harness import g, vals, tables

RULE = ('Table groups of 1-3 tables (typed columns, dialects, foreign keys, common properties, sub-directories) '
        'written with TableGroup.write, read back from the metadata file, copied (plain or zipped data) and read '
        'again - at places where there may be files of former versions; rows and descriptions must be equal each time, the source files unchanged byte for byte, and only '
        'the expected files created.')
CASES = {'quick': 10000, 'thorough': 80000}
REQUIRED = ['written', 'copied', 'zipped', 'sub-path', 'not-written', 'group-dialect', 'copy-zipped', 'fk', 'written-elsewhere',
            'copy-of-copy', 'str-dest', 'changed-after-copy', 'overwritten', 'copied-over', 'same-name']
TYPES = ['string', 'integer', 'boolean', 'decimal', 'date', 'float', 'json', 'anyURI', 'hexBinary', 'dateTime']


def gen(rng):
    ts = []
    for i in range(g.size(rng, 1, 3, 12)):
        cols = [dict({'name': nm, 'datatype': rng.choice(TYPES)}, **({'separator': ';'} if rng.random() < .15 else {}))
                for nm in g.idents(rng, g.size(rng, 1, 4, 15))]
        rows = []
        for _ in range(g.pick(rng, [0, 1, 3], 60)):
            row = []
            for c in cols:
                v = ['n'] if rng.random() < .15 else vals.gen_value(rng, c['datatype'])
                t = csvw.Datatype(base=c['datatype'])
                if v != ['n'] and t.formatted(vals.dec(v)) == '':
                    v = ['n']
                if c.get('separator'):
                    v = ['l', [v] if v != ['n'] and ';' not in t.formatted(vals.dec(v)) else []]
                row.append(v)
            rows.append(row)
        url = rng.choice(['t{}.csv', 'sub/t{}.csv', 't {}.csv', 'a{}', 'sub/deep/t{}.csv']).format(i)
        if ts and rng.random() < .25:  # the name of another table, in another directory
            name = ts[-1]['url'].split('/')[-1]
            url = next((p + name for p in rng.sample(['', 'sub/', 'sub/deep/', 'other/'], 4)
                        if all(p + name != t['url'] for t in ts)), url)
        ts.append(dict(url=url, cols=cols, rows=rows,
                       write=rng.random() < .9, common={'dc:title': g.text(rng, 2, .2)} if rng.random() < .3 else {}))
    d = {}
    if rng.random() < .5:
        d = {'delimiter': rng.choice([',', '\t', ';']), 'encoding': rng.choice(['utf-8', 'utf-16']),
             'lineTerminators': [rng.choice(['\n', '\r\n'])]}
    return dict(tables=ts, dialect=d, zipped=rng.random() < .3, str_=rng.random() < .5, again=rng.random() < .4,
                fk=rng.random() < .3, change=rng.random() < .3, over=rng.choice([0, 0, 1, 2, 3]), seed=rng.randint(0, 999))


def run(case, mon, work):
    ts = case['tables']
    desc = {'@context': 'http://www.w3.org/ns/csvw', 'dc:identifier': 'x', 'tables': []}
    if case['dialect']:
        desc['dialect'] = case['dialect']
        mon.cover('group-dialect')
    for t in ts:
        desc['tables'].append(dict(t['common'], url=t['url'], tableSchema={'columns': t['cols']}))
        if '/' in t['url']:
            mon.cover('sub-path')
    if case['fk']:
        mon.cover('fk')
        n = t['cols'][0]['name']
        desc['tables'][-1]['tableSchema']['foreignKeys'] = [
            {'columnReference': [n], 'reference': {'resource': t['url'], 'columnReference': [n]}}]
    tg = csvw.TableGroup.fromvalue(desc)
    a = work / 'a'
    a.mkdir()
    for t in ts:
        (a / t['url']).parent.mkdir(parents=True, exist_ok=True)
    if len({t['url'].split('/')[-1] for t in ts}) < len(ts):
        mon.cover('same-name')
    items, want = {}, {}
    for t in ts:
        names = [c['name'] for c in t['cols']]
        rows = [dict(zip(names, map(vals.dec, r))) for r in t['rows']]
        want[t['url']] = rows
        if t['write']:
            items[t['url']] = iter(rows) if case['str_'] else rows
        else:
            mon.cover('not-written')
            want[t['url']] = None
    def occupy(d, which):
        # there may be files of former versions
        rng = random.Random(case['seed'] + which)
        for t in ts:
            for suff in ['', '.zip']:
                if rng.random() < .5:
                    p = d / (t['url'] + suff)
                    p.parent.mkdir(parents=True, exist_ok=True)
                    if suff:
                        with zipfile.ZipFile(str(p), 'w') as z:
                            z.writestr(p.name[:-4], 'old,data\n' * rng.choice([0, 1, 999]))
                    else:
                        p.write_bytes(b'old,data\n' * rng.choice([0, 1, 999]))
                    if rng.random() < .5:
                        os.utime(str(p), (2**31, 2**31))
        if rng.random() < .5:
            (d / 'md.json').write_text('{"@context": "http://www.w3.org/ns/csvw", "tables": []}' + ' ' * rng.choice([0, 9999]))
        return set(files(d))

    def files(d):
        return {str(p.relative_to(d)): p.read_bytes() for p in d.rglob('*') if p.is_file()}
    old = set()
    if case['over'] & 1:
        mon.cover('overwritten')
        old = occupy(a, 1)
        before = files(a)
    tg.write(str(a / 'md.json') if case['str_'] else a / 'md.json', _zipped=case['zipped'], strict=True, **items)
    suffix = '.zip' if case['zipped'] else ''
    if case['zipped']:
        mon.cover('zipped')
    exp = {'md.json'} | {u + suffix for u in items}
    # (the file which is zipped is not left behind)
    mon.eq(set(files(a)), exp | (old - (set(items) if case['zipped'] else set())), 'files written')
    for f in old - exp - set(items):
        mon.eq(files(a)[f], before[f], 'other file changed')

    def verify(d, group, how):
        mon.cover(how)
        for t, table in zip(ts, group.tables):
            w = want[t['url']]
            if w is None:
                continue
            got = list(table)
            mon.check(len(got) == len(w) and all(tables.same(dict(x), y) for x, y in zip(got, w)),
                      'rows differ: ' + how, got=[dict(r) for r in got], want=w)
            fn = [f for f, _, _ in table.iterdicts(with_metadata=True)]
            mon.check(all(str(f) == str(d / t['url']) for f in fn), 'read from another file', fname=fn[:1])
            mon.count('rows', len(got))
        # the description is the same
        again = csvw.TableGroup.from_file(d / 'md.json')
        tg._fname = again._fname
        mon.check(again == tg, 'description differs: ' + how)
        mon.eq(g.canon(again.asdict()), g.canon(tg.asdict()), 'description differs: ' + how)
    got = csvw.TableGroup.from_file(a / 'md.json')
    verify(a, got, 'written')
    if None in want.values():
        return
    before = files(a)
    b = work / 'b'
    b.mkdir()
    if case['over'] & 2:
        mon.cover('copied-over')
        old = occupy(b, 2)
    else:
        old = set()
    got.copy(str(b) if case['str_'] else b)
    if case['str_']:
        mon.cover('str-dest')
    mon.eq(files(a), before, 'copying changed the source')
    now = files(b)
    mon.check(exp <= set(now) <= exp | old, 'files copied', now=list(now), expected=exp, old=old)
    mon.check(all(now[k] == before[k] for k in exp - {'md.json'}), 'copied data differs')
    verify(b, got, 'copied')
    if case['zipped']:
        mon.cover('copy-zipped')
    if case['seed'] % 4 == 0:
        # a loaded group may be written elsewhere
        mon.cover('written-elsewhere')
        w = work / 'w'
        for t in ts:
            (w / t['url']).parent.mkdir(parents=True, exist_ok=True)
        loaded = csvw.TableGroup.from_file(a / 'md.json')
        loaded.write(w / 'md.json', strict=True, _zipped=case['zipped'], **{
            t.local_name: list(t) for t in loaded.tables})
        mon.eq(files(a), before, 'writing elsewhere changed the source')
        mon.eq(set(files(w)), exp, 'files written elsewhere')
        verify(w, csvw.TableGroup.from_file(w / 'md.json'), 'written')
        shutil.rmtree(str(w))
    if case['change']:
        mon.cover('changed-after-copy')
        # writing through the copied group affects the copy only
        t = got.tables[0]
        t.write([], _zipped=False)
        mon.eq(files(a), before, 'writing to the copy changed the source')
        mon.check(files(b).get(ts[0]['url']) != before.get(ts[0]['url']) or not want[ts[0]['url']],
                  'written elsewhere')
        mon.eq(list(got.tables[0]), [], 'rows differ after writing')
        return
    if case['again']:
        mon.cover('copy-of-copy')
        c = work / 'c'
        c.mkdir()
        got.copy(c)
        mon.eq(files(b), now, 'copying changed the source')
        verify(c, got, 'copied')
        verify(c, csvw.TableGroup.from_file(c / 'md.json'), 'copied')
    mon.event(sorted(exp))
