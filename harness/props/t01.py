"""Typed value -> text -> value."""
import re
import datetime
import decimal
import urllib.parse

import rfc3986

import csvw
from harness import g, vals

RULE = ('For each of the built-in datatypes, random values of its value space (range ends, extreme '
        'exponents, microseconds, timezones, empty and hostile texts) are formatted; the text must '
        'lie in the lexical space written down independently, denote the value according to an '
        'independent parser, and be read back as an equal value of the same kind.')
CASES = {'quick': 160000, 'thorough': 1280000}
REQUIRED = ['type:' + t for t in vals.ALL] + ['boolean-format', 'nan', 'inf', 'exponent'] + [
    'alternative:' + t for t in ['Decimal', 'float', 'int', 'date', 'ParseResult', 'str', 'bytearray']]
CORPUS = [dict(base='decimal', fmt=None, v=['d', v]) for v in
          ['1E+10', '1.55E+10', '-1.55E+10', '1E-10', 'NaN', 'Infinity', '-Infinity', '0E+5']] + [
    dict(base='float', fmt=None, v=['f', '1e+22'])]


def gen(rng):
    base = rng.choice(vals.ALL)
    fmt = None
    if base == 'boolean':
        fmt = rng.choice([None, 'Yea|Nay', '1|0', 'J|N', 'ja nein|x'])
    return dict(base=base, fmt=fmt, v=vals.gen_value(rng, base))


def run(case, mon, work):
    base, fmt = case['base'], case['fmt']
    v = vals.dec(case['v'])
    if base == 'time':
        # Which date is up to the implementation, but it must not depend on the current one.
        day = csvw.Datatype(base="time").parse("00:00:00").date()
        mon.check(day != datetime.date.today(), "times depend on the current date", day=day)
        v = datetime.datetime.combine(day, v.time())
    dt = csvw.Datatype.fromvalue({'base': base, 'format': fmt} if fmt else base)
    text = dt.formatted(v)
    mon.check(isinstance(text, str), 'formatted value is not a str', got=text)
    mon.event(base, repr(v)[:80], '->', repr(text)[:80])
    if fmt:
        mon.cover('boolean-format')
        mon.eq(text, fmt.split('|')[0 if v else 1], 'boolean format not applied')
    else:
        if base in vals.LEX:
            mon.check(re.fullmatch(vals.LEX[base], text), 'not in the lexical space of ' + base,
                      text=text, value=v)
        if base == 'decimal' and not v.is_finite():
            want = None
            mon.cover('nan' if v.is_nan() else 'inf')
        else:
            want = vals.lexical_value(base, text)
        if want is not None:
            mon.check(vals.same(want, v) or (base in ('decimal',) and want == v),
                      'text denotes another value', text=text, value=v, denotes=want)
    if base == 'decimal' and 'E' in str(v):
        mon.cover('exponent')
    if base in vals.FLOATS:
        if v != v:
            mon.cover('nan')
        elif v in (float('inf'), -float('inf')):
            mon.cover('inf')
    back = dt.read(text)
    mon.check(vals.same(back, v), 'value read back differs', value=v, text=text, back=back)
    mon.check(vals.same(dt.parse(text), v), 'value parsed back differs', value=v, text=text)
    mon.eq(dt.formatted(back), text, 'formatting is not stable', value=v)
    mon.cover('type:' + base)

    for name, alt in alternatives(base, v):
        mon.cover('alternative:' + name)
        t = dt.formatted(alt)
        mon.check(isinstance(t, str), 'formatted value is not a str', got=t)
        if base in vals.LEX and not fmt:
            mon.check(re.fullmatch(vals.LEX[base], t), 'not in the lexical space of ' + base, text=t, value=alt)
        b = dt.read(t)
        mon.check(vals.same(b, v) or base in vals.FLOATS + ['decimal'] and b == v,
                  'equal value of another type reads back as another value', value=alt, text=t, back=b, want=v)


def alternatives(base, v):
    """Values of other Python types which denote the same value."""
    if base in vals.INT_RANGES:
        yield 'Decimal', decimal.Decimal(v)
    elif base == 'decimal':
        if v.is_finite():
            f = float(v)
            if decimal.Decimal(repr(f)) == v:
                yield 'float', f
            if v == v.to_integral_value():
                yield 'int', int(v)
    elif base in vals.FLOATS:
        if v == v and abs(v) != float('inf'):
            if v == int(v):
                yield 'int', int(v)
    elif base == 'date':
        if not v.tzinfo:
            yield 'date', v.date()
    elif base == 'anyURI':
        s = v.unsplit()
        u = urllib.parse.urlparse(s)
        if u.geturl() == s:
            yield 'ParseResult', u
        if rfc3986.normalize_uri(s) == s:
            yield 'str', s
    elif base in ('base64Binary', 'binary', 'hexBinary'):
        yield 'bytearray', bytearray(v)
