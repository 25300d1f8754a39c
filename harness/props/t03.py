"""Bounds and lengths are enforced exactly."""
import datetime
import decimal
import csvw
from harness import g, vals

RULE = ('Datatype descriptions with random minimum/maximum/min-/maxInclusive/min-/maxExclusive (given '
        'as text or number) over numeric, float and date/time types and length/minLength/maxLength '
        'over string, URI and binary types; values at the bound, one unit off and far off are '
        'accepted iff an independent comparison says so; list cells apply it to each element.')
CASES = {'quick': 160000, 'thorough': 1280000}
REQUIRED = ['in', 'out', 'at-bound', 'len-in', 'len-out', 'binary', 'uri', 'float', 'date', 'datetime',
            'list', 'aware-vs-naive', 'minimum', 'maximum', 'minInclusive', 'maxInclusive',
            'minExclusive', 'maxExclusive', 'zero-bound', 'two-bounds', 'time']
NUM = list(vals.INT_RANGES) + ['decimal'] + vals.FLOATS
DT = ['date', 'datetime', 'dateTime', 'time', 'dateTimeStamp']
BOUNDS = ['minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive']


def gen(rng):
    if rng.random() < .3:
        base = rng.choice(['string', 'NMTOKEN', 'normalizedString', 'xml', 'anyURI', 'base64Binary',
                           'binary', 'hexBinary'])
        n = rng.choice([0, 1, 2, 3, 5, 8])
        d = rng.choice([{'length': n}, {'minLength': n}, {'maxLength': n},
                        {'minLength': n, 'maxLength': n + rng.randint(0, 3)}])
        k = max(0, n + rng.choice([-2, -1, 0, 1, 2, 4]))
        if base in ('base64Binary', 'binary', 'hexBinary'):
            v = bytes(rng.randrange(256) for _ in range(k)).hex()
        elif base == 'anyURI':
            v = ('/' * min(k, 1) + 'abcdefghijklmnopq')[:k]
        else:
            v = ''.join(rng.choice('abéд東e9' if base == 'NMTOKEN' else 'abéд東\U0001F40De9') for _ in range(k))
        return dict(kind='len', base=base, d=d, v=v)
    base = rng.choice(NUM + DT + DT)
    if base in DT:
        b = datetime.datetime(rng.choice([1999, 2000, 2015]), rng.choice([1, 12]),
                              rng.choice([1, 28]), 12, 30, 15)
        if base == 'date':
            b = b.replace(hour=0, minute=0, second=0)
        unit = rng.choice([86400] if base == 'date' else [1, 60, 3600])
        vs = [b + datetime.timedelta(seconds=unit * k) for k in (-2, -1, 0, 0, 1, 2)]
        tz = ''
        if base == 'dateTimeStamp':
            tz = rng.choice(['+00:00', '+02:00'])
        elif base == 'datetime' and rng.random() < .3:
            tz = '+02:00'
        bs = b.isoformat() + tz
        if base == 'date':
            vs, bs = [x.isoformat()[:10] for x in vs], bs[:10]
        elif base == 'time':
            vs, bs = [x.isoformat()[11:] for x in vs], bs[11:]
        else:
            vtz = tz
            if base in ('datetime', 'dateTime') and rng.random() < .2:
                vtz = '' if tz else '+01:00'
            elif tz and rng.random() < .5:
                vtz = '-05:00'
            vs = [x.isoformat() + vtz for x in vs]
        d = {rng.choice(BOUNDS): bs}
        return dict(kind='dt', base=base, d=d, v=rng.choice(vs))
    lo, hi = vals.INT_RANGES.get(base, (None, None))
    b = rng.choice([0, 0, 1, 5, -5, 100, 10**10, -10**10])
    if lo is not None:
        b = max(b, lo)
    if hi is not None:
        b = min(b, hi)
    frac = base in ['decimal'] + vals.FLOATS
    step = rng.choice(['1', '0.1', '0.00000001', '0.5']) if frac else '1'
    k = rng.choice([-2, -1, 0, 0, 1, 2])
    v = decimal.Decimal(b) + k * decimal.Decimal(step)
    if not frac:
        v = max(v, lo) if lo is not None else v
        v = min(v, hi) if hi is not None else v
    d = {rng.choice(BOUNDS): rng.choice([b, str(b)])}
    if rng.random() < .3:
        w = b + rng.randint(0, 3)
        if lo is None and hi is None:
            d = rng.choice([{'minimum': str(b), 'maximum': str(w)},
                            {'minInclusive': b, 'maxInclusive': w},
                            {'minInclusive': b, 'maxExclusive': w + 1},
                            {'minExclusive': b, 'maxInclusive': w + 1},
                            {'minExclusive': str(b), 'maxExclusive': str(w + 1)}])
    return dict(kind='num', base=base, d=d, v=vals_plain(v), lst=rng.random() < .2)


def vals_plain(v):
    return g.plain_decimal(decimal.Decimal(v))


def run(case, mon, work):
    base, d, s = case['base'], case['d'], case['v']
    dt = csvw.Datatype.fromvalue(dict(d, base=base))
    if case['kind'] == 'len':
        if base in ('base64Binary', 'binary'):
            import base64
            raw = bytes.fromhex(s)
            n, s = len(raw), base64.b64encode(raw).decode()
            mon.cover('binary')
        elif base == 'hexBinary':
            n = len(s) // 2
            mon.cover('binary')
        else:
            n = len(s)
            if base == 'anyURI':
                mon.cover('uri')
        ok = ('length' not in d or n == d['length']) and \
            ('minLength' not in d or n >= d['minLength']) and \
            ('maxLength' not in d or n <= d['maxLength'])
        mon.cover('len-in' if ok else 'len-out')
        if ok:
            dt.read(s)
            mon.check(True, '')
        else:
            mon.raises(ValueError, lambda: dt.read(s), '{} {} accepted: {!r}'.format(base, d, s))
        return

    def conv(x):
        if case['kind'] == 'num':
            return float(x) if base in vals.FLOATS else decimal.Decimal(str(x))
        if base == 'time':
            return datetime.time.fromisoformat(x)
        return datetime.datetime.fromisoformat(x)

    v = conv(s)
    ok = True
    try:
        for k, b in d.items():
            b = conv(b)
            if b == 0:
                mon.cover('zero-bound')
            if v == b:
                mon.cover('at-bound')
            ok = ok and {'minimum': v >= b, 'minInclusive': v >= b, 'minExclusive': v > b,
                         'maximum': v <= b, 'maxInclusive': v <= b, 'maxExclusive': v < b}[k]
            mon.cover(k)
    except TypeError:
        ok = False
        mon.cover('aware-vs-naive')
    if len(d) > 1:
        mon.cover('two-bounds')
    mon.cover('in' if ok else 'out')
    if base in vals.FLOATS:
        mon.cover('float')
    elif base in ('date', 'time'):
        mon.cover(base)
    elif base in DT:
        mon.cover('datetime')
    mon.event(base, d, repr(s), ok)
    if case.get('lst'):
        mon.cover('list')
        first = next(iter(d.values()))
        fine = [str(first)] if not any('Excl' in k for k in d) else []
        col = csvw.TableGroup.fromvalue({'@context': 'http://www.w3.org/ns/csvw', 'tables': [
            {'url': 'x', 'tableSchema': {'columns': [
                {'name': 'c', 'separator': ';', 'datatype': dict(d, base=base)}]}}]}
        ).tables[0].tableSchema.columns[0]
        cell = ';'.join(fine + [s] + fine)
        if ok:
            mon.eq(len(col.read(cell)), 1 + 2 * len(fine), 'list length')
        else:
            mon.raises(ValueError, lambda: col.read(cell), 'list element out of bounds accepted')
    elif ok:
        got = dt.read(s)
        mon.check(got is not None, 'no value')
    else:
        mon.raises(ValueError, lambda: dt.read(s), '{} {} accepted: {!r}'.format(base, d, s))
