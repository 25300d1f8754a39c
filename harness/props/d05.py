"""rewrite / filter_rows_as_dict / add_rows: exact effect, or no effect."""
import csv
import random

import csvw
from csvw.dsv import rewrite, filter_rows_as_dict, add_rows
from harness import g

RULE = ('Random files edited by rewrite/filter_rows_as_dict/add_rows with visitors that map, drop or '
        'raise at a chosen row (fault injection at every row index); the resulting bytes are parsed '
        'independently and compared with a list model; after a fault the original bytes must be '
        'intact and no stray file may remain.')
CASES = {'quick': 36000, 'thorough': 288000}
LEVEL = 'exploration'
REQUIRED = ['emptied', 'surrogate', 'undecodable', 'no-row', 'rewrite', 'filter', 'add', 'add-new', 'fault', 'dropped', 'mapped', 'kw', 'dialect', 'unreadable',
            'encoding', 'unencodable', 'interrupt', 'boom']


class Boom(Exception):
    pass


class Interrupt(BaseException):
    """Like KeyboardInterrupt."""


def gen(rng):
    kw = rng.choice([{}, {}, {'delimiter': '\t'}, {'delimiter': ';', 'quotechar': "'"},
                     {'encoding': 'utf-16'}, {'dialect': ';'}, {'dialect': '|', 'delimiter': '\t'}, {'encoding': 'latin-1', 'delimiter': '|'}])
    op = rng.choice(['rewrite', 'rewrite', 'filter', 'add'])
    if op == 'add':
        kw = {}
    enc = kw.get('encoding', 'utf-8')
    k = g.size(rng, 1, 4, 20)
    rows = [g.idents(rng, k)]
    for i in range(g.size(rng, 0, 7, 300)):
        row = [g.text(rng, 3) for _ in range(k)]
        row = [c.encode(enc, 'ignore').decode(enc) for c in row]
        row[0] = 'k%d' % i + row[0]
        rows.append(row)
    n = len(rows)
    return dict(kw=kw, op=op, rows=rows, fault=rng.choice([None, None, rng.randrange(n)]), interrupt=rng.random() < .4,
                unreadable=op == 'rewrite' and rng.random() < .08, unenc=rng.random() < .1,
                drop=[rng.random() < .3 for _ in range(n)], maps=[rng.choice([0, 0, 0, 0, 0, 0, 1, 1, 1, 2]) for _ in range(n)],
                new=[[g.text(rng, 3) for _ in range(k)] for _ in range(g.size(rng, 0, 3, 100))],
                exists=rng.random() < .8,
                bad_add=rng.choice(['surrogate', 'undecodable', 'no-row']) if op == 'add' and rng.random() < .3 else None, pathtype=rng.choice(['str', 'path']))


def run(case, mon, work):
    kw, rows, op = case['kw'], case['rows'], case['op']
    enc = kw.get('encoding', 'utf-8')
    delim, quote = kw.get('delimiter', ','), kw.get('quotechar', '"')
    p = work / 'sub' / 'data.csv'
    p.parent.mkdir()
    other = work / 'sub' / 'data.csv.bak'
    other.write_text('untouched')
    if 'dialect' in kw:
        delim = kw.get('delimiter', kw['dialect'])
        kw = dict(kw, dialect=csvw.Dialect(delimiter=kw['dialect'], commentPrefix=None))
        mon.cover('dialect')
    text = g.dump(rows, delim, quote)
    if case['unreadable']:
        text += quote + 'unterminated'
        kw = dict(kw, strict=True)
    if op != 'add' or case['exists']:
        p.write_bytes(text.encode(enc))
    orig = p.read_bytes() if p.exists() else None
    arg = str(p) if case['pathtype'] == 'str' else p
    calls = []
    rng = random.Random(len(text))
    failed, want, unenc = False, [], False
    if kw:
        mon.cover('kw')
    if 'encoding' in kw:
        mon.cover('encoding')
    boom = Interrupt if case['interrupt'] else Boom
    try:
        if op == 'rewrite':
            def visitor(i, row):
                calls.append((i, list(row)))
                if case['fault'] == i:
                    raise boom()
                if case['drop'][i]:
                    return None
                if case['maps'][i] == 2:
                    return []
                if case['maps'][i]:
                    if case['unenc'] and enc == 'latin-1':
                        return row + ['東京']
                    return list(reversed(row)) + ['new,"\n']
                return row
            rewrite(arg, visitor, **kw)
        elif op == 'filter':
            def keep(item):
                i = len(calls) + 1
                calls.append((i, dict(item)))
                if case['fault'] == i:
                    raise boom()
                keep = not case['drop'][i]
                if case['maps'][i]:
                    # what the filter does with its item has no effect on the rows
                    item.clear()
                return rng.choice([1, 'x', [0], True, 2.5]) if keep else rng.choice([None, 0, '', [], False])
            removed = filter_rows_as_dict(arg, keep, **kw)
        else:
            new = [list(r) for r in case['new']]
            bad = case.get('bad_add')
            if bad == 'surrogate':
                new.append(['a', '\ud800'])
            elif bad == 'undecodable':
                p.write_bytes((orig or b'') + b'x\xff\xfe')
                orig = p.read_bytes()
            elif bad == 'no-row':
                new.append(None)
            add_rows(arg, *new)
    except (Boom, Interrupt) as e:
        failed = True
        mon.check(type(e) is boom, 'another exception', got=repr(e))
        mon.cover('interrupt' if case['interrupt'] else 'boom')
    except UnicodeEncodeError:
        mon.check(case['unenc'] or case.get('bad_add') == 'surrogate', 'unexpected encoding error')
        unenc = failed = True
    except Exception as e:
        if not case['unreadable'] and not case.get('bad_add'):
            raise
        mon.check(isinstance(e, {'undecodable': UnicodeDecodeError, 'no-row': (csv.Error, TypeError)}.get(case.get('bad_add'), csv.Error)),
                  'another error raised than the one which occurred', got=repr(e))
        failed = True
    mon.event(op, 'rows', len(rows), 'fault', case['fault'], 'failed', failed)
    mon.cover(op)
    # expected outcome
    if op == 'rewrite':
        stop = None
        for i, row in enumerate(rows):
            if case['fault'] == i:
                stop = 'fault'
                break
            if case['drop'][i]:
                continue
            if case['maps'][i] == 2:
                mon.cover('emptied')
                want.append([])
            elif case['maps'][i]:
                if case['unenc'] and enc == 'latin-1':
                    stop = 'unencodable'
                    break
                want.append(list(reversed(row)) + ['new,"\n'])
            else:
                want.append(row)
        if case['unreadable'] and not stop:
            stop = 'unreadable'
        mon.check(failed == bool(stop), 'failure expected: {}, got: {}'.format(stop, failed))
        if stop == 'unencodable':
            mon.check(unenc, 'unencodable row not reported')
        ncalls = len(rows) if not stop or stop == 'unreadable' else i + 1
        mon.eq(calls, list(enumerate(rows))[:ncalls], 'visitor was not called once per row, in order')
    elif op == 'filter':
        stop = 'fault' if case['fault'] and case['fault'] < len(rows) else None
        mon.check(failed == bool(stop), 'failure expected: {}, got: {}'.format(stop, failed))
        want = rows[:1] + [r for i, r in enumerate(rows) if i and not case['drop'][i]]
        ncalls = case['fault'] if stop else len(rows) - 1
        mon.eq(calls, [(i, dict(zip(rows[0], r))) for i, r in enumerate(rows) if i][:ncalls],
               'filter not called once per data row with the row')
        if not stop:
            mon.eq(removed, len(rows) - len(want), 'wrong number of removed rows reported')
    else:
        stop = case.get('bad_add')
        mon.check(failed == bool(stop), 'failure expected: {}, got: {}'.format(stop, failed))
        want = (rows if case['exists'] else []) + case['new']
        if not case['exists']:
            mon.cover('add-new')
    if stop:
        mon.cover(stop)
        mon.check((p.read_bytes() if p.exists() else None) == orig, 'original file changed by a failed {}'.format(op),
                  before=orig, after=p.exists() and p.read_bytes())
    else:
        got = g.parse(p.read_bytes().decode('utf-8' if not kw.get('encoding') else enc), delim, quote)
        mon.eq(got, want, 'file content after {} differs from the model'.format(op))
        if len(want) < len(rows):
            mon.cover('dropped')
        if any(case['maps']) and op == 'rewrite':
            mon.cover('mapped')
    left = sorted(str(q.relative_to(work)) for q in work.rglob('*') if q.is_file())
    mon.eq(left, ['sub/data.csv'] * (not stop or orig is not None) + ['sub/data.csv.bak'], 'stray or missing files')
    mon.check(other.read_text() == 'untouched', 'unrelated file changed')
    stray = [q.name for q in mon.tmp.iterdir()]
    mon.eq(len(stray), 0, 'temporary file left behind after {} ({})'.format(op, stop))
