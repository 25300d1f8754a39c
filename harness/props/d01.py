"""Delimited text write/read round trip."""
import io
import pathlib
import csv
import csvw
from csvw import dsv_dialects
from harness import g

RULE = ('Random tables of hostile cell texts (delimiters, quotes, CR/LF, BOM, unicode line '
        'separators, NUL, comment chars) x dialect x encoding x kind of target and source; written '
        'with UnicodeWriter, the raw bytes parsed by an independent RFC-4180 automaton and read '
        'back with UnicodeReader/iterrows/UnicodeDictReader. Non-trivial: at least one comparison.')
CASES = {'quick': 120000, 'thorough': 960000}
DELIMS = [',', '\t', ';', '|', ':', ' ', '\x01', 'é', '~']
QUOTES = ['"', "'", '`', '§']
EOLS = ['\r\n', '\n', '\r']
ENCS = ['utf-8', 'utf-8', 'utf-8', 'UTF-8', 'utf-8-sig', 'UTF-8-BOM', 'utf-16', 'utf-16-le',
        'utf-32', 'latin-1', 'cp1252', 'ascii', 'koi8-r', 'shift_jis', 'gb18030']
REQUIRED = ['via:dialect', 'via:mixed', 'via:basedialect', 'via:kw', 'via:name', 'via:default', 'quoted-newline',
            'blank-row', 'src:lines', 'src:bytes', 'src:handle', 'src:path', 'target:none',
            'dicts', 'dicts-split', 'dicts-after-header', 'escape:dialect', 'escape:None', 'escape:QUOTE_ALL', 'escape:QUOTE_NONE', 'escape:QUOTE_NONNUMERIC'] + ['enc:' + e for e in ENCS]
CORPUS = [
    dict(via='default', delim=',', quote='"', eol='\r\n', enc='utf-8', target='path', src='path',
         dicts=False, rows=[['a\rb', 'c'], ['"', '""'], ['', ''], [''], ['x\r\ny']]),
    dict(via='dialect', delim=',', quote='"', eol='\n', enc='utf-8', target='path', src='path',
         dicts=False, rows=[['a', 'b"c'], ['\n', 'é']]),
]


def gen(rng):
    via = rng.choice(['dialect', 'dialect', 'basedialect', 'kw', 'kw', 'name', 'default', 'mixed'])
    delim, quote, eol, enc = ',', '"', '\r\n', 'utf-8'
    if via in ('dialect', 'basedialect', 'kw', 'mixed'):
        delim, quote = rng.choice(DELIMS), rng.choice(QUOTES)
        eol, enc = rng.choice(EOLS), rng.choice(ENCS)
        if via == 'kw' and enc == 'UTF-8-BOM':
            enc = 'utf-8-sig'
    elif via == 'name':
        delim, quote, eol = rng.choice([(',', '"', '\r\n'), ('\t', '"', '\r\n'), (',', '"', '\n')])
    pyenc = {'UTF-8-BOM': 'utf-8-sig'}.get(enc, enc)

    def enc_ok(c):
        try:
            return c.encode(pyenc).decode(pyenc) == c
        except UnicodeError:
            return False
    if not enc_ok(delim):
        delim = ','
    if not enc_ok(quote):
        quote = '"'
    target = rng.choice(['path', 'pathlib', 'pathlib', 'none'])
    src = rng.choice(['path', 'pathlib', 'handle', 'lines', 'bytes'])
    if target == 'none':
        src = rng.choice(['handle', 'lines'])
    if src == 'bytes' and (pyenc.startswith(('utf-16', 'utf-32', 'utf-8-sig')) or eol == '\r'):
        src = 'lines'
    dicts = rng.random() < 0.2
    rows = []
    width = g.size(rng, 1, 5, 60)
    for _ in range(g.size(rng, 1, 6, 400 if width < 9 else 20)):
        w = width if rng.random() < .7 else rng.randint(0, 5)
        row = [''.join(c for c in g.text(rng, 4) if enc_ok(c)) for _ in range(w)]
        if src == 'bytes':
            row = [c.replace('\ufeff', '') for c in row]
        if eol == '\n' and via != 'kw':
            pass
        if row and via == 'basedialect':
            row[0] = row[0].lstrip('#')
        if rng.random() < .1:
            # characters which need quoting by context
            row = [c + rng.choice([delim, quote, eol, '']) for c in row]
        rows.append(row)
    if rows[0]:
        rows[0][0] = rows[0][0].lstrip('\ufeff#' if via == 'basedialect' else '\ufeff')
    if dicts:
        names = g.idents(rng, width)
        rows = [names] + [(r + [''] * width)[:width] for r in rows]
    escape = quoting = None
    if via in ('dialect', 'basedialect') and rng.random() < .3:
        escape = '\\'
    elif via == 'kw':
        quoting = rng.choice([None, None, 'QUOTE_ALL', 'QUOTE_NONNUMERIC', 'QUOTE_NONE'])
        if quoting == 'QUOTE_NONE' or rng.random() < .3:
            escape = '\\'
    if escape:
        rows = [[c + rng.choice([escape, escape, 2 * escape, '']) if rng.random() < .3 else c for c in row] for row in rows]
    if quoting == 'QUOTE_NONE':
        rows = [['x'] if row == [''] else row for row in rows]  # cannot be written, csv.Error
    return dict(via=via, delim=delim, quote=quote, eol=eol, enc=enc, target=target, src=src,
                dicts=dicts, rows=rows, escape=escape, quoting=quoting, split=g.size(rng, 0, 6, len(rows)), double=rng.random() < .5)


def run(case, mon, work):
    via, delim, quote, eol, enc = [case[k] for k in ('via', 'delim', 'quote', 'eol', 'enc')]
    pyenc = {'UTF-8-BOM': 'utf-8-sig'}.get(enc, enc)
    rows = case['rows']
    escape, quoting = case.get('escape'), case.get('quoting')
    if via in ('dialect', 'basedialect'):
        cls = csvw.Dialect if via == 'dialect' else dsv_dialects.Dialect
        wkw = dict(dialect=cls(
            delimiter=delim, quoteChar=quote, lineTerminators=[eol], encoding=enc, doubleQuote=not escape))
        rkw = wkw
    elif via == 'mixed':
        # Keyword arguments take precedence over settings of the dialect.
        wkw = dict(dialect=csvw.Dialect(
            delimiter='^' if case['double'] else delim, quoteChar='$', lineTerminators=['\n' if eol != '\n' else '\r\n'], encoding=enc, commentPrefix=None),
            delimiter=delim, quotechar=quote, lineterminator=eol)
        rkw = dict(wkw)
    elif via == 'kw':
        wkw = dict(delimiter=delim, quotechar=quote, lineterminator=eol, encoding=enc)
        if escape:

            wkw['escapechar'] = escape
            wkw['doublequote'] = case['double']
        if quoting:
            mon.cover(quoting)
            wkw['quoting'] = getattr(csv, quoting)
        rkw = dict(wkw)
    elif via == 'name':
        name = {(',', '\r\n'): 'excel', ('\t', '\r\n'): 'excel-tab', (',', '\n'): 'unix'}[delim, eol]
        wkw = rkw = dict(dialect=name)
    else:
        wkw = rkw = {}
    p = work / 'x.csv'
    target = {'path': str(p), 'pathlib': p, 'none': None}[case['target']]
    with csvw.UnicodeWriter(target, **wkw) as w:
        if case['dicts']:
            ds = [dict(zip(rows[0], r)) for r in rows[1:]]
            # The header is written once, with the first dict, unless something was written before.
            k = case.get('split', len(ds))
            if case.get('double') and len(rows) > 1:
                mon.cover('dicts-after-header')
                w.writerow(rows[0])
            w.writerows(ds[:k])
            if k < len(ds):
                mon.cover('dicts-split')
            w.writerows(iter(ds[k:]))
        elif len(rows) % 2:
            w.writerows(rows)
        else:
            for row in rows:
                w.writerow(row)
        if target is None:
            raw = w.read()
            text = raw.decode('utf-8')
    if target is not None:
        raw = p.read_bytes()
        text = raw.decode(pyenc)
    if case['dicts'] and len(rows) == 1:
        rows = []
    mon.event('wrote', len(raw), 'bytes', repr(text[:60]))
    mon.cover('via:' + via, 'target:' + case['target'], 'src:' + case['src'], 'enc:' + enc)
    if any(c in x for r in rows for x in r for c in '\n'):
        mon.cover('quoted-newline')
    if escape:
        mon.cover('escape:' + ('dialect' if via.endswith('dialect') else str(quoting)))
    if [] in rows:
        mon.cover('blank-row')
    # 1. What was written says what was meant, according to an independent parser.
    try:
        parsed = g.parse(text, delim, quote if quoting != 'QUOTE_NONE' else None, escape)
    except AssertionError as e:
        mon.fail('output is not well-formed: {}'.format(e), text=text)
    mon.eq(parsed, rows, 'independent parse of the written file differs', text=text)
    mon.check(text.endswith(eol) or not rows, 'last row is not terminated', text=text)
    # 2. The library reads back what it wrote.
    if case['src'] in ('path', 'pathlib'):
        src = str(p) if case['src'] == 'path' else p
    elif case['src'] == 'handle':
        src = io.StringIO(text, newline='')
    elif case['src'] == 'lines':
        src = list(io.StringIO(text, newline=''))
    else:
        src = list(io.BytesIO(raw))
    if case['src'] == 'handle' or not len(rows) % 3:
        with csvw.UnicodeReader(src, **rkw) as r:
            got = list(r)
    else:
        kw = dict(rkw)
        kw.setdefault('encoding', enc if via == 'kw' else 'utf-8')
        got = list(csvw.iterrows(src, **kw))
    mon.eq(got, rows, 'rows read back differ from rows written', text=text)
    if case['dicts'] and rows:
        mon.cover('dicts')
        if case['src'] == 'handle':
            src = io.StringIO(text, newline='')
        with csvw.UnicodeDictReader(src, **rkw) as r:
            got = [dict(d) for d in r]
        mon.eq(got, [dict(zip(rows[0], r)) for r in rows[1:] if r != []], 'dicts differ')
    mon.count('cells_compared', sum(len(r) for r in rows))
    mon.count('rows_compared', len(rows))
