"""Date and time formats: what is written/read is what the pattern says."""
import re
import datetime
import csvw
from harness import vals

RULE = ('Every date pattern x separator x time pattern x fraction x timezone marker for date, datetime, '
        'dateTimeStamp and time; an independent renderer gives the text of a random value: writing must '
        'produce it, reading must give the value; mutated texts are judged by an independent grammar: '
        'in the grammar -> value, otherwise ValueError.')
CASES = {'quick': 96000, 'thorough': 768000}
DP = ("yyyy-MM-dd yyyyMMdd dd-MM-yyyy d-M-yyyy MM-dd-yyyy M-d-yyyy dd/MM/yyyy d/M/yyyy MM/dd/yyyy "
      "M/d/yyyy dd.MM.yyyy d.M.yyyy MM.dd.yyyy M.d.yyyy").split()
TP = ["HH:mm:ss", "HHmmss", "HH:mm", "HHmm"]
TZ = ['', '', '', '', 'X', 'XX', 'XXX', ' X', ' XX', ' XXX', 'x', 'xx', 'xxx', ' x', ' xx', ' xxx']
REQUIRED = ['base:date', 'base:datetime', 'base:time', 'base:dateTimeStamp', 'base:dateTime', 'mut-valid',
            'mut-invalid', 'fraction', 'fraction-long', 'tz', 'utc', 'half-hour', 'dict-format'] + \
    ['p:' + p for p in DP + TP] + ['z:' + z.strip() for z in TZ if z]
CORPUS = [
    dict(base='date', d='dd-MM-yyyy', sep='', t='', f=0, z='X', v='2015-03-22T00:00:00', off=60,
         mut=None, fd=False),
    dict(base='datetime', d='dd/MM/yyyy', sep=' ', t='HHmm', f=0, z='x', v='2015-03-22T14:07:00',
         off=-300, mut=None, fd=False),
]
FIELD = {'yyyy': ('year', r'\d{4}'), 'MM': ('month', r'\d{2}'), 'dd': ('day', r'\d{2}'),
         'M': ('month', r'\d{1,2}'), 'd': ('day', r'\d{1,2}'), 'HH': ('hour', r'\d{2}'),
         'mm': ('minute', r'\d{2}'), 'ss': ('second', r'\d{2}')}
TOK = 'yyyy|MM|dd|M|d|HH|mm|ss'


def gen(rng):
    base = rng.choice(['date', 'datetime', 'datetime', 'dateTime', 'time', 'dateTimeStamp'])
    d = '' if base == 'time' else rng.choice(DP)
    t = '' if base == 'date' else rng.choice(TP)
    if base in ('datetime', 'dateTime') and rng.random() < .15:
        t = ''
    z = rng.choice(TZ)
    if base == 'dateTimeStamp' and not z:
        z = rng.choice(TZ[4:])
    f = rng.choice([0, 0, 1, 2, 3, 6]) if 'ss' in t else 0
    v = datetime.datetime(
        rng.choice([1, 99, 999, 1000, 1999, 2000, 2015, 2024, 9998]), rng.randint(1, 12),
        rng.randint(1, 28), rng.choice([0, 23, 12, rng.randint(0, 23)]) if t else 0,
        rng.choice([0, 59, rng.randint(0, 59)]) if t else 0,
        rng.choice([0, 59, rng.randint(0, 59)]) if 'ss' in t else 0)
    if f:
        v = v.replace(microsecond=rng.choice(
            [0, 10 ** 6 - 10 ** (6 - f), 10 ** (6 - f), 10 ** (6 - f) * rng.randrange(10 ** f)]))
    off = None
    if z:
        off = rng.choice([0, 60, -60, -300, 330, 345, 840, -720, 15, -15, -210])
        if v.year == 1:
            v = v.replace(year=1001)
    mut = None
    if rng.random() < .45:
        mut = [rng.choice(['del', 'ins', 'sub', 'dup', 'swap', 'field', 'tail', 'digits', 'sep']),
               rng.random(), rng.choice('0123456789-/.:T xZ,'), rng.choice(
                   ['00', '13', '32', '24', '60', '99', '1', '31', '٣', '007', '']), rng.random()]
    return dict(base=base, d=d, sep=rng.choice('T ') if d and t else '', t=t, f=f, z=z,
                v=v.isoformat(), off=off, mut=mut, fd=rng.random() < .1)


def tz_text(off, z):
    sp, k = (' ' if z[0] == ' ' else ''), z.strip()
    if off == 0 and k[0] == 'X':
        return sp + 'Z'
    s, m = ('-' if off < 0 else '+'), abs(off)
    h, m = divmod(m, 60)
    if len(k) == 1:
        return '{}{}{:02d}{}'.format(sp, s, h, '{:02d}'.format(m) if m else '')
    return '{}{}{:02d}{}{:02d}'.format(sp, s, h, ':' if len(k) == 3 else '', m)


def render(v, p):
    m = {'yyyy': '%04d' % v.year, 'MM': '%02d' % v.month, 'dd': '%02d' % v.day, 'M': str(v.month),
         'd': str(v.day), 'HH': '%02d' % v.hour, 'mm': '%02d' % v.minute, 'ss': '%02d' % v.second}
    return re.sub(TOK, lambda k: m[k.group()], p)


def mutate(s, mut, fields):
    kind, pos, ch, fld, pos2 = mut
    i = int(pos * (len(s) + (kind == 'ins')))
    i = min(i, max(len(s) - (kind != 'ins'), 0))
    if kind == 'del':
        return s[:i] + s[i + 1:]
    if kind == 'ins':
        return s[:i] + ch + s[i:]
    if kind == 'sub':
        return s[:i] + ch + s[i + 1:]
    if kind == 'dup':
        return s[:i] + s[i:i + 2] + s[i:]
    if kind == 'swap':
        return s[:i] + s[i:i + 2][::-1] + s[i + 2:]
    if kind == 'tail':
        return s + rchoice(pos2, ['x', '1', ' 1', 'T00:00', ' 00:00:00', '\nfoo', ' BC'])
    if kind == 'sep':
        return s.translate(str.maketrans('-/.:', rchoice(pos2, ['/-:.', '.-/:', '    ', '----'])))
    runs = list(re.finditer(r'\d+', s))
    m = runs[int(pos * len(runs))]
    if kind == 'digits':
        return s[:m.start()] + m.group()[0] * 9 + s[m.end():]
    return s[:m.start()] + fld + s[m.end():]


def rchoice(x, l):
    return l[int(x * len(l))]


def run(case, mon, work):
    base, d, t, f, z = (case[k] for k in ('base', 'd', 't', 'f', 'z'))
    core = d + case['sep'] + t
    pat = core + ('.' + 'S' * f if f else '') + z
    v = datetime.datetime.fromisoformat(case['v'])
    text = render(v, d) + case['sep'] + render(v, t)
    if f:
        text += ('.%06d' % v.microsecond)[:f + 1]
        mon.cover('fraction')
    tz = None
    if z:
        tz = datetime.timezone(datetime.timedelta(minutes=case['off']))
        v = v.replace(tzinfo=tz)
        mon.cover('tz', 'z:' + z.strip())
        if case['off'] == 0:
            mon.cover('utc')
        if case['off'] % 60:
            mon.cover('half-hour')
    tztext = tz_text(case['off'], z) if z else ''
    dt = csvw.Datatype.fromvalue(
        {'base': base, 'format': {'pattern': pat} if case['fd'] else pat})
    if case['fd']:
        mon.cover('dict-format')
    mon.cover('base:' + base, *['p:' + x for x in (d, t) if x])

    def equal(got, want, what, s):
        mon.check(isinstance(got, datetime.datetime), what, got=got)
        if base == 'time':
            mon.eq((got.time(), got.utcoffset()), (want.time(), want.utcoffset()), what, pattern=pat,
                   text=s)
        else:
            mon.eq((got.replace(tzinfo=None), got.utcoffset()),
                   (want.replace(tzinfo=None), want.utcoffset()), what, pattern=pat, text=s)

    mon.event(base, pat, repr(text + tztext))
    mon.eq(dt.formatted(v), text + tztext, 'written text is not what the pattern specifies',
           pattern=pat)
    equal(dt.read(text + tztext), v, 'value read differs', text + tztext)
    equal(dt.read(dt.formatted(v)), v, 'value changed by write and read', text)
    if f:
        frac = text.rpartition('.')[2]
        short = frac.rstrip('0')
        if short and short != frac:
            s = text[:len(text) - len(frac)] + short + tztext
            equal(dt.read(s), v, 'shorter fraction misread', s)
        s = text + '0' + tztext
        mon.raises(ValueError, lambda: dt.read(s), 'fraction with too many digits accepted')
        mon.cover('fraction-long')
    if case['mut']:
        m = mutate(text, case['mut'], None)
        if m == text or m != m.strip() or not m:
            return
        if re.search(r'(Z|[+-]\d\d(:?\d\d)?)$', m) and not re.fullmatch(grammar(core, f), m) \
                and re.match(grammar(core, f), m):
            return  # a timezone instead of something else: not judged
        gm = re.fullmatch(grammar(core, f), m)
        if gm and gm.groupdict().get('hour') == '24':
            return  # 24:00:00 may be accepted as end of the day
        want = interpret(core, f, m)
        s = m + tztext
        if want is None:
            if tztext and re.fullmatch(grammar(core, f) + r' ?' + r'[+-Z:\d]*', s):
                return
            mon.cover('mut-invalid')
            mon.raises(ValueError, lambda: dt.read(s), 'invalid text accepted', pattern=pat, text=s)
        else:
            mon.cover('mut-valid')
            equal(dt.read(s), want.replace(tzinfo=tz), 'value read differs', s)


def grammar(core, f):
    names, seen = [], set()

    def sub(m):
        return '(?P<{}>{})'.format(*FIELD[m.group()])
    g = re.sub(TOK, sub, core.replace('.', r'\.').replace('T', '\0')).replace('\0', 'T')
    if f:
        g += r'(\.(?P<us>\d{1,%d}))?' % f
    return g


def interpret(core, f, s):
    m = re.fullmatch(grammar(core, f), s, re.ASCII)
    if not m:
        return None
    c = m.groupdict()
    us = c.pop('us', None)
    c = {k: int(x) for k, x in c.items()}
    if us:
        c['microsecond'] = int(us.ljust(6, '0'))
    for k in ('year', 'month', 'day'):
        c.setdefault(k, 1)
    try:
        return datetime.datetime(**c)
    except ValueError:
        return None
