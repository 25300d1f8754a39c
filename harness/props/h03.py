"""Concurrent use in threads."""
import collections
import json
import random
import sys
import threading
import time
import warnings

import csvw
from csvw import jsonld
from csvw.db import Database
from csvw.utils import metadata2markdown
from harness import g, mdgen
from harness.props import h01, v01

RULE = ('2-4 threads run sequences of reading operations (14 kinds: rows, checks, conversions, expansion, formatting and parsing, '
        'databases, dsv readers) on a shared table group and on their own ones, with a switch interval of 1 microsecond and yields '
        'injected at random lines of the library. Each outcome must equal the outcome of the same operation run alone beforehand. '
        'Switches between threads within library code are counted from a trace; cases without any do not count.')
CASES = {'quick': 1000, 'thorough': 8000}
BIG = 0
NAMES = ['asdict', 'rows_strict', 'rows_lax', 'rows_meta', 'rows_interleaved', 'pk', 'refint', 'read', 'write_memory', 'markdown', 'expand', 'database', 'dialect',
         'cells', 'inherited', 'to_json', 'parse']
REQUIRED = ['op:' + n for n in NAMES] + ['threads:%d' % n for n in (2, 3, 4)] + ['shared', 'own', 'switched', 'ok', 'exc']


def parse(o, rng):
    """Typed values with formats, which other threads use with other formats."""
    res = []
    for _ in range(6):
        base, fmt, text = rng.choice([
            ('decimal', {'decimalChar': ',', 'groupChar': '.'}, '1.234,5'), ('decimal', {'pattern': '#,##0.00'}, '1,234.50'), ('decimal', None, '1234.5'),
            ('date', 'dd.MM.yyyy', '03.04.2020'), ('date', 'MM/dd/yyyy', '04/03/2020'), ('date', None, '2020-04-03'), ('boolean', 'Y|N', 'Y'),
            ('boolean', None, '1'), ('double', None, '1E5'), ('integer', '000', '007'), ('datetime', 'yyyy-MM-ddTHH:mm', '2020-04-03T10:11'),
            ('string', '[ab]+', 'abba'), ('duration', None, 'P1DT2H'), ('gYear', None, '2020')])
        dt = csvw.Datatype.fromvalue({'base': base, 'format': fmt} if fmt else base)
        v = dt.read(text)
        res.append((text, v, dt.formatted(v)))
    return res


OPS = dict(h01.OPS, parse=parse)


def gen(rng):
    c = v01.gen(rng)
    if c['problem'] not in v01.DATA and rng.random() < .7:
        c['problem'] = None
    if c['problem'] in ('no-json', 'no-tables', 'no-context', 'wrong-context'):
        c['problem'] = None
    n = rng.choice([2, 3, 4])
    return dict(base=c, seed=rng.randrange(10**7), own=rng.random() < .3,
                threads=[[[rng.choice(NAMES), rng.randrange(1000)] for _ in range(rng.randint(2, 4))] for _ in range(n)])


def outcome(fn):
    try:
        return ['ok', repr(fn())]
    except Exception as e:
        return ['exc', type(e).__name__, str(e)]


def run(case, mon, work):
    rng = random.Random(case['seed'])
    base = case['base']
    ts = base['tables']
    md = {'@context': 'http://www.w3.org/ns/csvw', 'tables': []}
    for i, t in enumerate(ts):
        s = {'columns': t['cols']}
        if t['pk']:
            s['primaryKey'] = 'id'
        if any(c.get('name') == 'fk' for c in t['cols']):
            s['foreignKeys'] = [{'columnReference': 'fk', 'reference': {'resource': 't0.csv', 'columnReference': 'id'}}]
        md['tables'].append({'url': 't%d.csv' % i, 'tableSchema': s})
    if base['problem']:
        v01.plant(base['problem'], ts, md, None, rng)
    h01.decorate(rng, md)
    for i, t in enumerate(ts):
        (work / ('t%d.csv' % i)).write_bytes(g.dump([t['header']] + t['rows']).encode('utf8'))
    (work / 'md.json').write_text(json.dumps(md))

    def make(whole=False):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return csvw.CSVW(str(work / 'md.json')) if whole else csvw.TableGroup.from_file(work / 'md.json')
    try:
        make(), make(True)
    except ValueError:
        mon.count('rejected')
        return
    want = [[outcome(lambda: OPS[n](make(n == 'to_json'), random.Random(s))) for n, s in ops] for ops in case['threads']]
    shared = make()
    # CSVW.to_json uses an object of its own
    objs = [make() if case['own'] else shared for _ in case['threads']]
    wholes = make(True)
    wholes = [make(True) if case['own'] else wholes for _ in case['threads']]
    got = [[] for _ in case['threads']]
    barrier = threading.Barrier(len(objs))
    last, switches, lines = [None], collections.Counter(), [0]

    def tracer(ident, r):
        def local(frame, event, arg):
            lines[0] += 1
            if last[0] != ident:
                if last[0] is not None:
                    switches[frame.f_code.co_name] += 1
                last[0] = ident
            if r.random() < .03:
                time.sleep(0)
            return local

        def trace(frame, event, arg):
            return local if '/csvw/' in frame.f_code.co_filename else None
        return trace

    def work_(i):
        sys.settrace(tracer(i, random.Random('%s-%s' % (case['seed'], i))))
        try:
            barrier.wait(20)
            for n, s in case['threads'][i]:
                got[i].append(outcome(lambda: OPS[n](wholes[i] if n == 'to_json' else objs[i], random.Random(s))))
        finally:
            sys.settrace(None)
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        threads = [threading.Thread(target=work_, args=(i,), daemon=True) for i in range(len(objs))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(interval)
    mon.count('lines-traced', lines[0])
    mon.count('switches', sum(switches.values()))
    if not switches:
        mon.count('not-interleaved')
        return
    mon.cover('switched', 'threads:%d' % len(objs), 'own' if case['own'] else 'shared')
    for f in switches:
        mon.count('switch-in:' + f)
    for i, ops in enumerate(case['threads']):
        for (n, s), a, b in zip(ops, got[i], want[i]):
            mon.cover('op:' + n, b[0])
            mon.eq(a, b, 'outcome of concurrent operation differs: ' + n, threads=case['threads'])
        mon.eq(len(got[i]), len(want[i]), 'thread died')
    mon.event(case['threads'], sum(switches.values()))
