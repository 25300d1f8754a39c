"""Shared workload generators and small reference models, independent of csvw."""
import json
import datetime
import decimal

WORDS = ['a', 'b', 'foo', 'Bar', 'x1', 'été', 'данные', '東京', 'none', 'NULL', 'true', '0', '1',
         '-3', '12.5', 'a b', 'NA', 'ʼǃKung', 'e\u0301', '\U0001F40D', 'ß']
HOSTILE = [',', ';', '\t', '|', ':', '"', '""', "'", '\n', '\r\n', ' ', '  ', '#', '\\', '\\n',
           '\u2028', '\x85', '\x0b', '\x0c', '\x1c', '\xa0', '%', '{', '}', '\u200f', '\x7f', '\x00',
           '\x1a', '=', '<b>', '&', '\ufeff', '/', '.', '-', '_', '`', '*']


def size(rng, a, b, n):
    """A number in a..b; in a few workload cases (see run.get_case) one of up to n."""
    if getattr(rng, 'big', False) and rng.random() < .4:
        return many(rng, max(a, n // 3), n)
    return rng.randint(a, b)


def pick(rng, choices, n):
    """One of choices, or, in a few workload cases, a number up to n."""
    if getattr(rng, 'big', False) and rng.random() < .4:
        return many(rng, n // 3, n)
    return rng.choice(choices)


def many(rng, a, b):
    return rng.randint(a, b) * (10 if 100 <= b < 1000 and rng.random() < .08 else 1)


def text(rng, maxlen=4, hostile=0.5, exclude=''):
    n = rng.choice([0, 1, 1, 2, 2, 3, maxlen])
    s = ''.join(rng.choice(HOSTILE if rng.random() < hostile else WORDS) for _ in range(n))
    if getattr(rng, 'big', False) and rng.random() < .02:
        s *= rng.choice([50, 300, 1500])
    for c in exclude:
        s = s.replace(c, '')
    return s


def ident(rng, n=3):
    return rng.choice('abcdefghijklmnopqrstuvwxyz') + ''.join(
        rng.choice('abcdefghijklmnopqrstuvwxyzABCDEFXYZ0123456789_')
        for _ in range(rng.randint(0, n)))


def idents(rng, k, n=3):
    res = []
    if k > 30:
        n = max(n, 5)
    while len(res) < k:
        i = ident(rng, n)
        if i.lower() not in [r.lower() for r in res]:
            res.append(i)
    return res


# --- delimiter separated text, independent implementation --------------------------------------
def dump_cell(s, delim=',', quote='"', force=False):
    need = force or any(c in s for c in (delim, quote, '\n', '\r'))
    return quote + s.replace(quote, quote * 2) + quote if need else s


def dump(rows, delim=',', quote='"', eol='\r\n', force=lambda: False):
    """[] is a blank line; [''] is written quoted in order to be distinct from a blank line."""
    out = []
    for row in rows:
        if row == ['']:
            out.append(quote * 2)
        else:
            out.append(delim.join(dump_cell(c, delim, quote, force()) for c in row))
    return ''.join(line + eol for line in out)


def parse(s, delim=',', quote='"', escape=None):
    """RFC-4180 automaton: -> list of rows. Blank lines give []. Rows end at LF, CRLF or CR."""
    rows, row, cell, i, n = [], [], [], 0, len(s)
    state = 'start'  # start, plain, quoted, after
    started = False

    def endcell():
        row.append(''.join(cell))
        del cell[:]

    def endrow():
        nonlocal row, started
        if started:
            endcell()
        rows.append(row)
        row, started = [], False

    while i < n:
        c = s[i]
        if c == escape:
            assert i + 1 < n, 'escape character at the end'
            started = True
            state = 'plain' if state == 'start' else state
            i += 1
            cell.append(s[i])
        elif state == 'quoted':
            if c == quote:
                if i + 1 < n and s[i + 1] == quote:
                    cell.append(quote)
                    i += 1
                else:
                    state = 'after'
            else:
                cell.append(c)
        elif c == delim:
            started = True
            endcell()
            state = 'start'
        elif c in '\r\n':
            if c == '\r' and i + 1 < n and s[i + 1] == '\n':
                i += 1
            endrow()
            state = 'start'
        elif c == quote and state == 'start':
            started = True
            state = 'quoted'
        else:
            started = True
            assert state != 'after', 'text after closing quote at {}'.format(i)
            cell.append(c)
            state = 'plain'
        i += 1
    assert state != 'quoted', 'unterminated quote'
    if started:
        endrow()
    return rows


def canon(o):
    """Order-insensitive canonical form for JSON-like objects."""
    if isinstance(o, dict):
        return {k: canon(v) for k, v in sorted(o.items())}
    if isinstance(o, (list, tuple)):
        return [canon(v) for v in o]
    return o


def plain_decimal(d):
    """Positional decimal notation of a Decimal."""
    sign, digits, exp = d.as_tuple()
    ds = ''.join(map(str, digits))
    if exp >= 0:
        s = ds + '0' * exp
    else:
        ds = ds.rjust(-exp + 1, '0')
        s = ds[:exp] + '.' + ds[exp:]
    s = s.lstrip('0') if not s.startswith('0.') else s
    if s == '' or s.startswith('.'):
        s = '0' + s
    return ('-' if sign else '') + s
