"""Reported line numbers are physical line numbers."""
import io
import csvw
from csvw import dsv_dialects
from harness import g

RULE = ('Random files mixing single-line rows, multi-line rows, comments, blank lines, skipped rows '
        'and trailing lines; each row carries a unique id and the generator knows the physical '
        'line(s) of each row, so every reported number is compared with the truth, in '
        'UnicodeReaderWithLineNumber and in Table.iterdicts(with_metadata=True).')
CASES = {'quick': 64000, 'thorough': 512000}
REQUIRED = ['after-comment', 'after-blank', 'after-multiline', 'multiline-row', 'after-skip',
            'table', 'reader', 'crlf-cell', 'equal-cells', 'after-dropped-blank']


def gen(rng):
    d = dict(delimiter=rng.choice([',', '\t', ';']),
             lineTerminators=[rng.choice(['\n', '\r\n'])],
             skipRows=g.pick(rng, [0, 0, 1, 3], 40),
             commentPrefix=rng.choice(['#', None]),
             skipBlankRows=rng.random() < .6)
    items = [['skip'] for _ in range(d['skipRows'])]
    if rng.random() < .5:
        items += [['comment'] for _ in range(g.size(rng, 1, 2, 40))] if d['commentPrefix'] else []
    items.append(['header', rng.choice([0, 0, 0, 1])])
    for _ in range(g.size(rng, 1, 9, 400)):
        k = rng.choice(['row', 'row', 'row', 'multi', 'comment', 'blank', 'empty'])
        if k == 'comment' and not d['commentPrefix']:
            k = 'row'
        if k == 'multi':
            items.append([k, g.size(rng, 1, 3, 30) if rng.random() < .1 else rng.randint(1, 3), rng.choice(['\n', '\r\n']), rng.randint(0, 2)])
        else:
            items.append([k])
    if items[-1][0] in ('blank', 'empty', 'comment'):
        items.append(['row'])
    return dict(d=d, items=items, src=rng.choice(['path', 'handle', 'lines', 'table', 'table']))


def run(case, mon, work):
    d, eol = case['d'], case['d']['lineTerminators'][0]
    delim = d['delimiter']
    line, text, truth, seen = 1, '', [], set()
    hdr_multi = 0
    for n, it in enumerate(case['items']):
        k = it[0]
        nl = 0
        if k == 'skip':
            t = 'skipped{}x'.format(delim)
        elif k == 'comment':
            t = '# note {}'.format(n)
        elif k == 'blank':
            t = ''
            if not d['skipBlankRows']:
                truth.append((line, None))
        elif k == 'empty':
            t = delim * 2
            if not d['skipBlankRows']:
                truth.append((line, ''))
        elif k == 'header':
            hdr_multi = nl = it[1]
            t = delim.join(['id', '"b{}"'.format('\n' * nl), 'c'])
            truth.append((line + nl, 'id'))
        elif k == 'row':
            t = delim.join(['r{}'.format(n), 'x', 'y'])
            truth.append((line, 'r{}'.format(n)))
        else:
            nl = it[1]
            val = '"' + 'q' + it[2] * nl + 'z"'
            cells = ['r{}'.format(n), 'x', 'y']
            j = max(it[3], 1)
            cells[j] = val
            if it[3] == 2 and n % 2:
                # equal cells
                cells[1], nl = val, 2 * nl
                mon.cover('equal-cells')
            t = delim.join(cells)
            truth.append((line + nl, 'r{}'.format(n)))
            mon.cover('multiline-row')
            if it[2] == '\r\n':
                mon.cover('crlf-cell')
        if k in ('row', 'multi'):
            mon.cover(*['after-' + s for s in seen])
        if k == 'multi':
            seen.add('multiline')
        elif k in ('comment', 'skip'):
            seen.add(k)
        elif k in ('blank', 'empty'):
            seen.add('dropped-blank' if d['skipBlankRows'] else 'blank')
        line += 1 + nl
        text += t + eol
    if case['src'] == 'table':
        # the table level drops the header; rows of blank cells yield all-null rows
        p = work / 't.csv'
        p.write_bytes(text.encode('utf8'))
        tg = csvw.TableGroup.fromvalue({
            '@context': 'http://www.w3.org/ns/csvw',
            'dialect': d,
            'tables': [{'url': 't.csv', 'tableSchema': {'columns': [
                {'name': 'id'}, {'name': 'b', 'titles': 'b' + '\n' * hdr_multi}, {'name': 'c'}]}}]})
        tg._fname = work / 'md.json'
        got = [(ln, row['id']) for _, ln, row in tg.tables[0].iterdicts(with_metadata=True)]
        want = [(ln, i or None) for ln, i in truth if i != 'id']
        mon.cover('table')
    else:
        if case['src'] == 'path':
            src = work / 'x.csv'
            src.write_bytes(text.encode('utf-8'))
        elif case['src'] == 'handle':
            src = io.StringIO(text, newline='')
        else:
            src = list(io.StringIO(text, newline=''))
        with csvw.UnicodeReaderWithLineNumber(src, dialect=csvw.Dialect(**d)) as r:
            got = [(ln, row[0] if row else None) for ln, row in r]
        want = truth
        mon.cover('reader')
    mon.event('truth', want)
    mon.eq(got, want, 'line numbers differ from the physical lines', text=text)
    mon.count('rows', len(want))
