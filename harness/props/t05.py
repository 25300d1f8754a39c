"""Number formats: grouping, decimal characters and patterns."""
import decimal
import csvw
from harness import vals

RULE = ('Number patterns (integer digits x grouping x fraction digits x percent) x groupChar x '
        'decimalChar x decimal/integer/float types x values at rounding, grouping and magnitude '
        'boundaries; an independent renderer gives the text: writing must produce it, reading must give '
        'the value back; texts with a wrong grouping or a wrong number of digits must raise ValueError.')
CASES = {'quick': 96000, 'thorough': 768000}
D = decimal.Decimal
INT = ['0', '#0', '00', '000', '#', '##', '#,##0', '#,##,##0', '0,000', '#,#00', '##,##0', '#,###,##0',
       '#,##,000', '0,0000', '#,####0', '#,#0,000', '#,00,000', '00,000', '0,000,000',
       '#,#00,0']
FRAC = ['', '', '.0', '.#', '.00', '.##', '.0#', '.###', '.0##', '.000', '.######']
REQUIRED = ['t:decimal', 't:integer', 't:float', 'pattern', 'nopattern', 'groupChar', 'decimalChar',
            'grouped', 'secondary', 'rounded', 'half', 'percent', 'percent:float', 'huge', 'bad:foreign', 'bad:double', 'bad:group',
            'bad:frac-long', 'bad:frac-short', 'bad:int-short', 'bad:ungrouped', 'bad:junk', 'negative',
            'long', 'between', 'fmt:str', 'fmt:dict', 'ranged', 'exponent:ok', 'exponent:bad']
CORPUS = [
    dict(base='decimal', i='#,##0', f='.##', s='', g='.', d=',', v='1234567.891', str=False, cut=0),
    dict(base='decimal', i='', f='', s='', g=None, d=',', v='1234.5', str=False, cut=0),
    dict(base='decimal', i='', f='', s='', g='.', d=None, v='1234567', str=False, cut=0),
    dict(base='integer', i='000', f='', s='', g=None, d=None, v='7', str=True, cut=0),
    dict(base='float', i='#,##0', f='.00', s='', g=None, d=None, v='1234567.125', str=True, cut=0),
]


EXP = ['0.0E0', '0.###E0', '0.0#E00', '#0.0E+0', '0.00E#0', '0.#E+00', '#0.0##E##0', '0.000E000']


def gen_exponent(rng):
    p = rng.choice(EXP)
    m, e = p.split('E')
    lo, hi = m.split('.')[1].count('0'), len(m.split('.')[1])
    n = len(e.lstrip('+'))
    nf = rng.choice([lo, hi, hi + 1, max(lo - 1, 0), rng.randint(lo, hi)])
    return dict(exp=p, base=rng.choice(vals.FLOATS), d=rng.choice([None, None, ',']), m='%s%s' % (rng.choice(['', '-', '+']), rng.randint(1, 9)),
                f=''.join(rng.choice('0123456789') for _ in range(nf)), ok=lo <= nf <= hi,
                es=rng.choice(['', '-', '+']), e=str(rng.randint(10 ** (n - 1), 10 ** n - 1)) if rng.random() < .7 else str(10 ** n), n=n)


def run_exponent(case, mon):
    P = case['d'] or '.'
    fmt = {'pattern': case['exp'], 'decimalChar': P} if case['d'] else case['exp']
    dt = csvw.Datatype.fromvalue({'base': case['base'], 'format': fmt})
    text = case['m'] + (P + case['f'] if case['f'] else '') + 'E' + case['es'] + case['e']
    mon.cover('exponent')
    if case['ok'] and len(case['e']) <= case['n']:
        mon.cover('exponent:ok')
        got = dt.read(text)
        mon.check(isinstance(got, float) and got == float(text.replace(P, '.')), 'number with exponent misread', text=text, got=got, fmt=fmt)
    else:
        mon.cover('exponent:bad')
        mon.raises(ValueError, lambda: dt.read(text), 'number with wrong number of digits accepted', text=text, fmt=fmt)
    v = float(case['m'] + '.' + case['f'] + 'e-2')
    got = dt.formatted(v)
    mon.check(abs(float(got.replace(P, '.')) - v) <= abs(v) * .1, 'number with exponent written as another number', got=got, value=v, fmt=fmt)


def gen(rng):
    if rng.random() < .04:
        return gen_exponent(rng)
    base = rng.choice(['decimal', 'decimal', 'integer', 'float', 'number', 'double', 'int', 'long',
                       'nonNegativeInteger', 'unsignedInt'])
    pat = rng.random() < .75
    isint = base in vals.INT_RANGES
    i = rng.choice(INT) if pat else ''
    f = rng.choice(FRAC) if pat else ''
    if isint:
        f = rng.choice(['', '', '.#', '.###']) if pat else ''
    s = rng.choice(['%', '‰']) if pat and not isint and rng.random() < .12 else ''
    if pat and isint and not f and rng.random() < .05:
        s = '%'
    g = rng.choice([None, None, ',', '.', ' ', "'", '_', '\xa0', '٬', '*'])
    d = rng.choice([None, None, '.', ',', '·', '٫', ';'])
    g_eff = g or ','
    if (d or '.') == g_eff:
        g, d = '.', ','
    if isint:
        v = vals.gen_int(rng, base)
        if base == 'int':
            v = rng.choice([v, 999, 1000, -999, -1000, 99999, 100000, 999999, 1000000])
        v = str(v)
    else:
        k = rng.random()
        if k < .35:
            # close to a rounding boundary
            n = len(f) - 1 if f else 0
            v = D(rng.randint(-10 ** 7, 10 ** 7)).scaleb(-max(n, 0))
            v += D(rng.choice(['5', '-5', '4', '6', '49', '51', '50'])).scaleb(-max(n, 0) - 2) * \
                rng.choice([1, 10])
            v = str(v)
        elif k < .7:
            v = str(D(rng.choice([0, 1, -1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 99999, 100000,
                                  999999, 1000000, 12345678, 10 ** 12, -10 ** 9 + 1])).scaleb(
                -rng.choice([0, 0, 0, 1, 2, 3, 6])))
        else:
            v = '{}{}.{}'.format(rng.choice(['', '-']), rng.randint(0, 10 ** rng.choice([2, 6, 15, 15, 24, 40] if base == 'decimal' else [2, 6, 15])),
                                 ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 9))))
        if base != 'decimal':
            v = repr(float(v))
            if 'e' in v:
                v = '0.0'
    return dict(base=base, i=i, f=f, s=s, g=g, d=d, v=v, str=rng.random() < .5,
                cut=rng.randint(0, 6), plain=rng.random() < .3)


def shifted(d, n):
    s, ds, e = d.as_tuple()
    return D((s, ds, e - n))


def spec(i, f):
    parts = i.split(',')
    prim = len(parts[-1]) if len(parts) > 1 else 0
    sec = len(parts[-2]) if len(parts) > 2 else prim
    return dict(minint=max(1, i.count('0')), prim=prim, sec=sec, minfrac=f.count('0'),
                maxfrac=max(len(f) - 1, 0))


def group(digits, prim, sec, char):
    if not prim or len(digits) <= prim:
        return digits
    res, rest = [digits[-prim:]], digits[:-prim]
    while rest:
        res.insert(0, rest[-sec:])
        rest = rest[:-sec]
    return char.join(res)


def digits_of(v, sp):
    """-> sign, integer digits, fraction digits; rounded half to even"""
    with decimal.localcontext() as ctx:
        ctx.prec = 200
        q = v.quantize(D(1).scaleb(-sp['maxfrac']), rounding=decimal.ROUND_HALF_EVEN)
    sign, ds, exp = q.as_tuple()
    ds = ''.join(map(str, ds)).rjust(-exp + 1, '0')
    ip, fp = (ds[:exp], ds[exp:]) if exp else (ds, '')
    ip = ip.lstrip('0').rjust(sp['minint'], '0')
    while len(fp) > sp['minfrac'] and fp.endswith('0'):
        fp = fp[:-1]
    return ('-' if sign else ''), ip, fp, q


def run(case, mon, work):
    if 'exp' in case:
        return run_exponent(case, mon)
    base, i, f, s, g, d = (case[k] for k in 'base i f s g d'.split())
    v = D(case['v'])
    isint, isfloat = base in vals.INT_RANGES, base in vals.FLOATS
    value = int(v) if isint else (float(case['v']) if isfloat else v)
    pattern = i + f + s
    fmt = {k: x for k, x in [('pattern', pattern), ('groupChar', g), ('decimalChar', d)] if x}
    if not fmt:
        fmt = None
    elif list(fmt) == ['pattern'] and case['str']:
        fmt = pattern
        mon.cover('fmt:str')
    else:
        mon.cover('fmt:dict')
    dt = csvw.Datatype.fromvalue({'base': base, 'format': fmt})
    G, P = g or ',', d or '.'
    mon.cover('t:' + ('integer' if isint else 'float' if isfloat else 'decimal'))
    if isint and base not in ('integer', 'int'):
        mon.cover('ranged')
    if g:
        mon.cover('groupChar')
    if d:
        mon.cover('decimalChar')
    if v < 0:
        mon.cover('negative')

    def eq(got, want, what, text):
        mon.check(type(got) is type(want) and got == want, what, got=got, want=want, fmt=fmt, text=text)

    if not pattern:
        mon.cover('nopattern')
        # positional digits, grouped by thousands iff there's a groupChar
        got = dt.formatted(value)
        sign, ds, exp = D(str(value) if isfloat else case['v']).as_tuple()
        digits = ''.join(map(str, ds)) + '0' * max(exp, 0)
        exp = min(exp, 0)
        digits = digits.rjust(-exp + 1, '0')
        ip, fp = (digits[:exp], digits[exp:]) if exp else (digits, '')
        ip = ip.lstrip('0') or '0'
        if isfloat and not fp:
            fp = '0'
        want = ('-' if sign else '') + (group(ip, 3, 3, G) if g else ip) + (P + fp if fp else '')
        mon.eq(got, want, 'number written differently from its format', fmt=fmt)
        eq(dt.read(got), value, 'number changed by write and read', got)
        for c in '.,':
            # characters which have their meaning in other formats only
            if c not in (P, g) and (g or c == '.') and not isint:
                mon.cover('bad:foreign')
                mon.raises(ValueError, lambda: dt.read('1%s5' % c), 'character of another format accepted', fmt=fmt, char=c)
                mon.raises(ValueError, lambda: dt.read('1%s234%s5' % (c, P)), 'character of another format accepted', fmt=fmt, char=c)
        if g and len(ip) > 3:
            mon.cover('grouped')
            bad = want.replace(G, G + G, 1)
            mon.cover('bad:double')
            mon.raises(ValueError, lambda: dt.read(bad), 'repeated group character accepted',
                       text=bad)
        return
    mon.cover('pattern')
    if s:
        mon.cover('percent:float' if isfloat else 'percent')
    sp = spec(i, f)
    shift = {'': 0, '%': 2, '‰': 3}[s]
    with decimal.localcontext() as ctx:
        ctx.prec = 200
        scaled = (D(repr(value)) if isfloat else v).scaleb(shift)
    sign, ip, fp, q = digits_of(scaled, sp)
    text = sign + group(ip, sp['prim'], sp['sec'], G) + (P + fp if fp else '') + s
    if G in text:
        mon.cover('grouped')
    if sp['sec'] != sp['prim'] and text.count(G) > 1:
        mon.cover('secondary')
    if q != scaled:
        mon.cover('rounded')
        if abs(q - scaled) * 2 == D(1).scaleb(-sp['maxfrac']):
            mon.cover('half')
    if len(ip) > 15:
        mon.cover('long')
    if len(ip) > 28:
        mon.cover('huge')
    mon.event(base, repr(fmt), case['v'], repr(text))
    mon.eq(dt.formatted(value), text, 'number written differently from its pattern', fmt=fmt)
    want = shifted(q, shift)
    want = int(want) if isint else (float(want) if isfloat else want)
    lo, hi = vals.INT_RANGES.get(base, (None, None))
    eq(dt.read(text), want, 'text read differently from its pattern', text)

    def bad(name, t):
        mon.cover('bad:' + name)
        mon.raises(ValueError, lambda: dt.read(t), 'invalid text accepted ({})'.format(name), text=t,
                   fmt=fmt)

    gi = group(ip, sp['prim'], sp['sec'], G)
    tail = (P + fp if fp else '') + s
    # all numbers of fraction digits allowed by the pattern
    for n in range(sp['minfrac'], sp['maxfrac'] + 1):
        x = '123456789'[:n]
        if isint and n:
            continue
        t = sign + gi + (P + x if x else '') + s
        w = shifted(D(sign + ip + ('.' + x if x else '')), shift)
        if not isfloat or len(ip) + n < 15:
            mon.cover('between')
            eq(dt.read(t), int(w) if isint else float(w) if isfloat else w, 'valid text misread', t)
    c = case['cut']
    if c == 0:
        bad('frac-long', sign + gi + P + '1' * (sp['maxfrac'] + 1) + s)
    elif c == 1 and sp['minfrac']:
        x = '1' * (sp['minfrac'] - 1)
        bad('frac-short', sign + gi + (P + x if x else '') + s)
    elif c == 2 and sp['minint'] > 1 and i.count('0') > 1:
        x = '1' * (sp['minint'] - 1)
        bad('int-short', group(x, sp['prim'], sp['sec'], G) + tail)
    elif c == 3 and sp['prim'] and len(ip) > sp['prim']:
        bad('ungrouped', sign + ip + tail)
    elif c == 4 and sp['prim']:
        n = max(sp['minint'], sp['prim'] + 1)
        x = ip.rjust(n, '1') + '0'
        p = sp['prim'] - 1
        if p:
            bad('group', sign + x[:-p] + G + x[-p:] + tail)
    elif c == 5 and G in text:
        bad('double', text.replace(G, G + G, 1))
    elif c == 6 and fp and P != '.' and G != '.':
        bad('foreign', sign + gi + '.' + fp + s)
    elif c == 6:
        bad('junk', text[:-1] + 'x' + text[-1:])
