"""Dialect options of the reader vs a reference model."""
import io
import csvw
from csvw import dsv_dialects
from harness import g

RULE = ('Random physical files (skipped rows, comments, blank lines, rows of empty cells, padded '
        'and quoted cells, multi-line cells) rendered from a model, read with every combination of '
        'skipRows/commentPrefix/skipBlankRows/trim/skipColumns/skipInitialSpace/doubleQuote; the rows and '
        'the collected comments must be those of the model.')
CASES = {'quick': 120000, 'thorough': 960000}
REQUIRED = ['updated:fresh', 'updated:used', 'updated:parent', 'skipRows', 'comment', 'blank-kept', 'blank-dropped', 'trim:true', 'trim:start', 'dialect-kept',
            'trim:end', 'trim:false', 'skipColumns', 'skipInitialSpace', 'multi-line', 'backslash',
            'prefix-disabled', 'quotechar-none', 'longprefix', 'skip-prefixed', 'skip-partial',
            'comment-prefix-repeated', 'skip-blank', 'quotechar-none-backslash']
OTHER = dict(delimiter='~', quoteChar='~', lineTerminators=['\r'], skipRows=4, commentPrefix='c', skipColumns=3,
             skipBlankRows=True, skipInitialSpace=True, trim='start', doubleQuote=False)
PAD = ['', '', ' ', '  ', '\u2003', ' \u00a0']


def gen(rng):
    d = dict(
        delimiter=rng.choice([',', '\t', ';', '|']),
        quoteChar=rng.choice(['"', '"', "'"]),
        lineTerminators=[rng.choice(['\n', '\r\n'])],
        skipRows=g.pick(rng, [0, 0, 0, 1, 2, 3], 30),
        commentPrefix=rng.choice(['#', '#', '%', '//', None]),
        skipColumns=g.pick(rng, [0, 0, 0, 1, 2], 12),
        skipBlankRows=rng.random() < .5,
        skipInitialSpace=rng.random() < .25,
        trim=rng.choice(['true', 'false', 'start', 'end', True, False]),
        doubleQuote=rng.random() < .8,
    )
    if rng.random() < .1:
        d['quoteChar'] = None
        d['doubleQuote'] = rng.random() < .6
    items = []
    for _ in range(d['skipRows']):
        items.append(['skip', [] if rng.random() < .15 else [rng.choice(['a', 'b c', 'x1', 'é', '#a', '/x', '##', '//y', '%'])
                               for _ in range(rng.randint(1, 3))]])
    for _ in range(g.size(rng, 0, 7, 250)):
        kind = rng.choice(['row', 'row', 'row', 'comment', 'blank', 'empty'])
        if kind == 'comment' and d['commentPrefix']:
            items.append(['comment', rng.choice(['', '', ' ', d['commentPrefix'], d['commentPrefix'][0]]) + d['delimiter'].join(
                rng.choice(['c', 'no te', 'é', '12', '']) for _ in range(rng.randint(1, 3)))])
        elif kind == 'blank':
            items.append(['blank', None])
        elif kind == 'empty':
            items.append(['empty', g.size(rng, 2, 4, 15)])
        else:
            cells = []
            for j in range(g.size(rng, 1, 5, 25)):
                t = g.text(rng, 3, exclude='\x00\r').replace('\ufeff', '')
                if rng.random() < .4:
                    t = rng.choice(PAD) + t + rng.choice(PAD)
                quoted = rng.random() < .3
                if d['quoteChar'] is None:
                    quoted = False
                    for c in (d['delimiter'], '\n'):
                        t = t.replace(c, '')
                cells.append([t, quoted, rng.choice(['', '', ' ', '  '])])
            items.append(['row', cells])
    return dict(d=d, items=items, src=rng.choice(['path', 'handle', 'lines']),
                base=rng.random() < .5, upd=rng.choice([None, None, 'fresh', 'used', 'parent']))


def render_cell(t, quoted, pre, d):
    q, delim = d['quoteChar'], d['delimiter']
    if q is None:
        return t
    esc = q * 2 if d['doubleQuote'] else '\\' + q
    if not d['doubleQuote']:
        s = t.replace('\\', '\\\\').replace(q, esc)
    else:
        s = t.replace(q, esc)
    if quoted or any(c in t for c in (q, delim, '\n', '\r')) or t == '' \
            or (d['skipInitialSpace'] and t.startswith(' ')) \
            or (not d['doubleQuote'] and '\\' in t):
        return (pre if d['skipInitialSpace'] else '') + q + s + q
    return (pre if d['skipInitialSpace'] else '') + s


def model(case):
    d = case['d']
    eol, delim = d['lineTerminators'][0], d['delimiter']
    prefix = d['commentPrefix']
    text, rows, comments, cover = [], [], [], set()
    trim = {'true': str.strip, 'start': str.lstrip, 'end': str.rstrip, 'false': lambda s: s}[
        str(d['trim']).lower()]
    line = 0

    def emit(cells):
        rows.append([trim(c) for c in cells][d['skipColumns']:])
    for kind, val in case['items']:
        if kind == 'skip':
            t = delim.join(val)
            if not val:
                cover.add('skip-blank')
            elif prefix and t.startswith(prefix):
                comments.append((line, t[len(prefix):].strip()))
                cover.add('skip-prefixed')
            else:
                comments.append((line, t.strip()))
                if prefix and t[0] in prefix:
                    cover.add('skip-partial')
            cover.add('skipRows')
            nl = 0
        elif kind == 'comment':
            t = prefix + val
            comments.append((line, val.strip()))
            if val[:1] and val[0] in prefix:
                cover.add('comment-prefix-repeated')
            cover.add('comment')
            if len(prefix) > 1:
                cover.add('longprefix')
            nl = 0
        elif kind == 'blank':
            t, nl = '', 0
            if not d['skipBlankRows']:
                rows.append([])
                cover.add('blank-kept')
            else:
                cover.add('blank-dropped')
        elif kind == 'empty':
            t, nl = delim * (val - 1), 0
            if not d['skipBlankRows']:
                emit([''] * val)
            else:
                cover.add('blank-dropped')
        else:
            cells = [c[0] for c in val]
            if d['quoteChar'] is None and d['skipInitialSpace']:
                cells = [c.lstrip(' ') for c in cells]
            parts = [render_cell(*c, d) for c in val]
            t = delim.join(parts)
            nl = t.count('\n')
            if nl:
                cover.add('multi-line')
            if d['skipBlankRows'] and set(cells) == {''}:
                cover.add('blank-dropped')
            elif prefix and cells[0].startswith(prefix):
                return None
            elif d['quoteChar'] is None and t == '':
                if not d['skipBlankRows']:
                    rows.append([])
            else:
                emit(cells)
                if not prefix and cells[0].startswith(('#', '%', '//')):
                    cover.add('prefix-disabled')
                if not d['doubleQuote'] and '\\' in t:
                    cover.add('backslash')
                if d['skipInitialSpace'] and any(p.startswith(' ') for p in parts):
                    cover.add('skipInitialSpace')
                if d['quoteChar'] is None:
                    cover.add('quotechar-none')
                    if not d['doubleQuote'] and '\\' in t:
                        cover.add('quotechar-none-backslash')
        line += 1 + nl
        text.append(t + eol)
    return ''.join(text), rows, comments, cover


def run(case, mon, work):
    m = model(case)
    if m is None:
        mon.count('skipped_ambiguous')
        return
    text, rows, comments, cover = m
    d = case['d']
    cls = dsv_dialects.Dialect if case['base'] else csvw.Dialect
    if case['src'] == 'path':
        src = work / 'x.csv'
        src.write_bytes(text.encode('utf-8'))
    elif case['src'] == 'handle':
        src = io.StringIO(text, newline='')
    else:
        src = list(io.StringIO(text, newline=''))
    upd = case.get('upd')
    if upd:
        # Derive the dialect from one with other settings - which has been used for reading.
        orig = cls(**OTHER)
        if upd == 'used':
            list(csvw.dsv.reader(['~ "x"", y  "~\\', '', '#c'], dialect=orig))
            orig.escape_character, orig.line_terminators, orig.trimmer, orig.python_encoding
        odict = orig.asdict(omit_defaults=False)
        mon.cover('updated:' + upd)
        if upd == 'parent':
            some = {k: v for i, (k, v) in enumerate(sorted(d.items())) if i % 2}
            dialect = orig.updated(**some).updated(**{k: v for k, v in d.items() if k not in some})
        else:
            dialect = orig.updated(**d)
        mon.check(type(dialect) is cls, 'class of an updated dialect')
        mon.eq(orig.asdict(omit_defaults=False), odict, 'updating changed the dialect')
        mon.eq(dialect.asdict(omit_defaults=False), cls(**d).asdict(omit_defaults=False), 'settings of the updated dialect')
    else:
        dialect = cls(**d)
    before = dialect.asdict(omit_defaults=False)
    with csvw.UnicodeReader(src, dialect=dialect) as r:
        got = list(r)
    mon.event('text', repr(text[:200]))
    mon.eq(got, rows, 'rows differ from the model', text=text, dialect=d)
    mon.eq([c[1] for c in r.comments], [c[1] for c in comments], 'comment texts differ', text=text,
           dialect=d)
    mon.eq([c[0] for c in r.comments], [c[0] for c in comments], 'comment lines differ', text=text)
    mon.eq(dialect.asdict(omit_defaults=False), before, 'dialect changed by reading')
    mon.cover('dialect-kept')
    for c in cover:
        mon.cover(c)
    mon.cover('trim:' + str(d['trim']).lower())
    if d['skipColumns']:
        mon.cover('skipColumns')
    mon.count('rows', len(rows))
    mon.count('comments', len(comments))
