"""Numeric lexical spaces and ranges."""
import re
import warnings
import decimal
import fractions

import csvw
from harness import g, vals

RULE = ('Numerals built from a grammar (signs, leading zeros, range ends +-1, huge) and near-misses '
        '(exponents, stray signs, two points, separators, underscores, foreign digits, special '
        'values) read with every integer and floating point type and decimal; accepted iff in the lexical space and '
        'range written down independently, with exactly the denoted value.')
CASES = {'quick': 160000, 'thorough': 1280000}
TYPES = list(vals.INT_RANGES) + ['decimal'] + vals.FLOATS
REQUIRED = ['accept:' + t for t in TYPES] + ['reject:' + t for t in TYPES] + [
    'boundary', 'out-of-range', 'special', 'leading-zeros', 'plus', 'float-exponent']
BAD = ['abc', '1e5', '1E5', '--1', '++1', '+-1', '1-', '0x1F', '1,5', '1 2', '½', '1_000', '_1',
       '1.2.3', '.', '+', '-', '+.', '1..2', '٣', '１２', 'infinity', 'Infinity', 'inf', 'nan',
       '+INF', '-NaN', 'sNaN', '1a', 'a1', '1;5', "1'000", '0b1', '1L', '1\n2', '\x001', '1\u20602',
       '', ' ', 'None', 'True', 'e', '1e', '1,,2', ',,1']
SPECIAL = ['INF', '-INF', 'NaN']


def gen(rng):
    base = rng.choice(TYPES)
    k = rng.random()
    if k < .3:
        return dict(base=base, s=rng.choice(BAD))
    if k < .35:
        return dict(base=base, s=rng.choice(SPECIAL))
    lo, hi = vals.INT_RANGES.get(base, (None, None))
    pool = [0, 1, -1, rng.randint(-10**4, 10**4), 2**15, 2**16, 2**31, 2**32, 2**63, 2**64, 255, 256,
            127, 128, -128, -129, -2**15 - 1, -2**31 - 1, -2**63 - 1, 10**30]
    for b in (lo, hi):
        if b is not None:
            pool += [b - 1, b, b + 1] * 3
    n = rng.choice(pool)
    s = ('-' if n < 0 else rng.choice(['', '', '+'])) + '0' * rng.choice([0, 0, 0, 1, 5, 30]) + \
        str(abs(n))
    if rng.random() < (.5 if base == 'decimal' else .1):
        s += rng.choice(['.', '.0', '.5', '.000', '.' + str(rng.randint(0, 10**12))])
    if base in vals.FLOATS and rng.random() < .5:
        if '.' not in s:
            s += rng.choice(['', '.5', '.25e3', '.'])
        if 'e' not in s:
            s += rng.choice(['e', 'E']) + rng.choice(['', '+', '-']) + str(rng.choice([0, 1, 5, 10, 300, 400]))
        if rng.random() < .15:
            s += rng.choice(['e1', '.5', '_0', 'f', 'd', '+', 'E'])
    return dict(base=base, s=s)


def run(case, mon, work):
    base, s = case['base'], case['s']
    lo, hi = vals.INT_RANGES.get(base, (None, None))
    if base == 'decimal':
        ok = re.fullmatch(r'[+-]?(\d+(\.\d*)?|\.\d+)', s, re.ASCII)
    elif base in vals.FLOATS:
        if s == '+INF':
            return  # Depends on the version of XML Schema.
        ok = s in SPECIAL or re.fullmatch(r'[+-]?(\d+(\.\d*)?|\.\d+)([Ee][+-]?\d+)?', s, re.ASCII)
        if ok and 'e' in s.lower():
            mon.cover('float-exponent')
    else:
        ok = re.fullmatch(r'[+-]?\d+', s, re.ASCII)
        if ok:
            n = int(s)
            if (lo is not None and n < lo) or (hi is not None and n > hi):
                ok = False
                mon.cover('out-of-range')
            if n in (lo, hi):
                mon.cover('boundary')
    if s in SPECIAL:
        mon.cover('special')
    dt = csvw.Datatype.fromvalue(base)
    if base == 'decimal' and s in SPECIAL:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            v = dt.read(s)
        mon.check(w and not v.is_finite(), 'special value without warning or with finite value')
        return
    if ok and base in vals.FLOATS:
        v = dt.read(s)
        mon.check(isinstance(v, float), 'wrong Python type', value=v)
        if s in SPECIAL:
            mon.check(str(v) == {'INF': 'inf', '-INF': '-inf', 'NaN': 'nan'}[s], 'special value misread', value=v, text=s)
        else:
            mon.check(v == float(fractions.Fraction(s)) if abs(decimal.Decimal(s)) < decimal.Decimal('1.7e308') else abs(v) == float('inf'),
                      'wrong value for ' + s, value=v)
        mon.cover('accept:' + base)
    elif ok:
        v = dt.read(s)
        mon.check(isinstance(v, decimal.Decimal if base == 'decimal' else int) and
                  not isinstance(v, bool), 'wrong Python type', value=v)
        mon.eq(v, decimal.Decimal(s) if base == 'decimal' else int(s), 'wrong value for ' + s)
        mon.cover('accept:' + base)
        if re.match('[+-]?00', s):
            mon.cover('leading-zeros')
        if s[0] == '+':
            mon.cover('plus')
    else:
        mon.raises(ValueError, lambda: dt.read(s), 'invalid {} {!r} accepted'.format(base, s))
        mon.cover('reject:' + base)
    mon.event(base, repr(s), 'accepted' if ok else 'rejected')
