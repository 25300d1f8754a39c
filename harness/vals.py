"""Typed values: JSON-able encoding, generators and independent lexical rules per datatype."""
import re
import base64
import datetime
import decimal
import math
import json
import collections

import isodate
from isodate.duration import Duration
import rfc3986

from harness import g

D = decimal.Decimal
INT_RANGES = {
    'integer': (None, None), 'int': (None, None), 'long': (-2**63, 2**63 - 1),
    'short': (-2**15, 2**15 - 1), 'byte': (-128, 127),
    'unsignedLong': (0, 2**64 - 1), 'unsignedInt': (0, 2**32 - 1), 'unsignedShort': (0, 65535),
    'unsignedByte': (0, 255), 'nonNegativeInteger': (0, None), 'positiveInteger': (1, None),
    'nonPositiveInteger': (None, 0), 'negativeInteger': (None, -1),
}
STRINGS = ['string', 'xml', 'html', 'QName', 'gDay', 'gMonth', 'gMonthDay', 'gYear', 'gYearMonth',
           'any']
FLOATS = ['float', 'number', 'double']
ALL = (list(INT_RANGES) + STRINGS + FLOATS + [
    'decimal', 'normalizedString', 'NMTOKEN', 'anyURI', 'base64Binary', 'binary', 'hexBinary',
    'boolean', 'datetime', 'dateTime', 'dateTimeStamp', 'date', 'time', 'duration',
    'dayTimeDuration', 'yearMonthDuration', 'json'])


def dec(e):
    t = e[0]
    if t == 'n':
        return None
    if t == 'l':
        return [dec(x) for x in e[1]]
    if t in 'sijb':
        return e[1]
    if t == 'J':
        return json.loads(e[1], object_pairs_hook=collections.OrderedDict)
    if t == 'd':
        return D(e[1])
    if t == 'f':
        return float(e[1])
    if t == 'x':
        return bytes.fromhex(e[1])
    if t == 'dt':
        return datetime.datetime.fromisoformat(e[1])
    if t == 'td':
        return datetime.timedelta(days=e[1], seconds=e[2], microseconds=e[3])
    if t == 'dur':
        return Duration(years=e[1], months=e[2], days=e[3], seconds=e[4])
    if t == 'u':
        return rfc3986.URIReference.from_string(e[1])
    raise AssertionError(e)


def same(a, b):
    """Equal values of the same kind."""
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return (math.isnan(a) and math.isnan(b)) or a == b
    if isinstance(a, D) and isinstance(b, D):
        return (a.is_nan() and b.is_nan()) or a == b
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, datetime.datetime) and isinstance(b, datetime.datetime):
        return a == b and a.utcoffset() == b.utcoffset()
    if isinstance(a, (datetime.timedelta, Duration)):
        return a == b
    if isinstance(a, dict) and isinstance(b, dict):
        return a == b
    return type(a) == type(b) and a == b


def gen_int(rng, base):
    lo, hi = INT_RANGES[base]
    c = []
    for b in (lo, hi):
        if b is not None:
            c += [b, b + 1 if b == lo else b - 1]
    c += [0, 1, -1, 7, -7, 10, 100, -100, 12345, 2**31, -2**31, 2**63, 10**20, -10**20,
          rng.randint(-10**6, 10**6)]
    if lo is not None and hi is not None:
        c += [rng.randint(lo, hi)] * 3
    c = [x for x in c if (lo is None or x >= lo) and (hi is None or x <= hi)]
    return rng.choice(c)


def gen_decimal(rng):
    k = rng.random()
    if k < .2:
        return str(rng.choice([0, 1, -1, 5, 10, 100, 1000, 10**12]))
    if k < .3:
        return rng.choice(['0.1', '-0.1', '0.00000001', '1E+10', '1.55E+10', '-1.55E+10', '1E-10',
                           '1.23E-7', '-1.23E-7', '0E+3', '-0.0', '100.00', '1E+1', '12.50', '0.5',
                           '9.999999999999999999999', '123456789.987654321'])
    digits = ''.join(rng.choice('0123456789') for _ in range(rng.choice([1, 3, 8, 16, 25, 29, 45])))
    return '{}{}E{}'.format(rng.choice(['', '-']), digits, rng.randint(-30, 12))


TZS = ['', '', '+00:00', '+01:00', '-05:00', '+05:30', '-03:30', '+14:00', '-12:00', '+00:15']


def gen_dt(rng, tz=None, micro=None, date_only=False):
    y = rng.choice([1, 99, 999, 1000, 1582, 1900, 1970, 1999, 2000, 2012, 2015, 2024, 9999,
                    rng.randint(1, 9999)])
    m = rng.randint(1, 12)
    d = rng.randint(1, 28) if rng.random() < .8 else [31, 29 if (y % 4 == 0 and y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
    if date_only:
        h = mi = s = us = 0
    else:
        h, mi, s = rng.choice([(0, 0, 0), (23, 59, 59), (12, 0, 0),
                               (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))])
        us = rng.choice([0, 0, 1, 500000, 999999, 120000, 12345, rng.randint(0, 999999)]) \
            if micro is None else micro
    tz = rng.choice(TZS) if tz is None else tz
    if y in (1, 9999) and tz:
        y = 2001
        d = min(d, 28)
    return datetime.datetime(y, m, d, h, mi, s, us).isoformat() + tz


URIS = ['http://example.org/', 'http://example.org/a?b=c#d', '/a/b?d=5', 'a.html', '#frag', '../x',
        'https://example.org:8080/%C3%A9', 'mailto:a@example.org', 'urn:isbn:0451450523',
        'http://example.org/é', 'file:///a/b', '?q', 'http://user@example.org/', '//host/p',
        'http://example.org/a;b=1,2', 'http://[::1]/']


def gen_value(rng, base, fmt=None, simple=False):
    """-> encoded value in the value space of the (underived) datatype."""
    if base in INT_RANGES:
        return ['i', gen_int(rng, base)]
    if base in STRINGS:
        return ['s', g.text(rng, 4, .2 if simple else .5)]
    if base == 'normalizedString':
        return ['s', re.sub('[\r\n\t]', ' ', g.text(rng, 4)).strip()]
    if base == 'NMTOKEN':
        return ['s', ''.join(rng.choice('abcXYZ019.:-_éд') for _ in range(rng.randint(0, 6)))]
    if base in FLOATS:
        return ['f', rng.choice(['0.0', '-0.0', '1.0', '3.5', '-2.25', '1e+22', '1e-07', '5e-324',
                                 '1.7976931348623157e+308', '0.1', '123456789.123', 'inf', '-inf',
                                 'nan', repr(rng.uniform(-1e6, 1e6)),
                                 repr(rng.random() * 10 ** rng.randint(-20, 20))])]
    if base == 'decimal':
        return ['d', gen_decimal(rng)]
    if base == 'anyURI':
        return ['u', rng.choice(URIS)]
    if base in ('base64Binary', 'binary', 'hexBinary'):
        return ['x', bytes(rng.randrange(256) for _ in range(
            rng.choice([0, 1, 2, 3, 4, 20, 56, 57, 58, 120]))).hex()]
    if base == 'boolean':
        return ['b', rng.random() < .5]
    if base in ('datetime', 'dateTime'):
        return ['dt', gen_dt(rng)]
    if base == 'dateTimeStamp':
        return ['dt', gen_dt(rng, tz=rng.choice([t for t in TZS if t]))]
    if base == 'date':
        return ['dt', gen_dt(rng, tz='', date_only=True)]
    if base == 'time':
        return ['dt', gen_dt(rng, tz='', micro=0)]
    if base == 'duration':
        if rng.random() < .5:
            return ['dur', rng.randint(0, 30), rng.randint(1, 11), rng.randint(0, 40),
                    rng.randint(0, 86399)]
        return ['td', rng.randint(0, 400), rng.randint(0, 86399), rng.choice([0, 0, 500000, 1])]
    if base == 'dayTimeDuration':
        return ['td', rng.randint(0, 400), rng.randint(0, 86399), 0]
    if base == 'yearMonthDuration':
        return ['dur', rng.randint(0, 30), rng.randint(1, 11), 0, 0]
    if base == 'json':
        return ['J', json.dumps(gen_json(rng))]
    raise AssertionError(base)


def gen_json(rng, depth=2):
    k = rng.random()
    if depth and k < .3:
        return {g.text(rng, 2): gen_json(rng, depth - 1) for _ in range(rng.randint(0, 3))}
    if depth and k < .5:
        return [gen_json(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return rng.choice([1, -5, 2.5, 'x', '', 'é"\n', True, False, {}, [], g.text(rng, 3)])


# Lexical spaces as of XML Schema / the tabular data model, written down independently.
LEX = {
    'decimal': r'[+-]?(\d+(\.\d*)?|\.\d+)|NaN|-?INF',
    'boolean': r'true|false|1|0',
    'hexBinary': r'([0-9A-F]{2})*',
    'date': r'\d{4}-\d\d-\d\d',
    'time': r'\d\d:\d\d:\d\d',
    'datetime': r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{1,6})?([+-]\d\d:\d\d|Z)?',
    'dateTimeStamp': r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{1,6})?([+-]\d\d:\d\d|Z)',
    'duration': r'-?P(?=.)(\d+Y)?(\d+M)?(\d+D)?(T(?=.)(\d+H)?(\d+M)?(\d+(\.\d+)?S)?)?',
    'NMTOKEN': r'[\w.:-]*',
}
LEX['dateTime'] = LEX['datetime']
for _t in FLOATS:
    LEX[_t] = r'[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?|NaN|-?INF'
LEX['dayTimeDuration'] = LEX['yearMonthDuration'] = LEX['duration']
for _t in INT_RANGES:
    LEX[_t] = r'[+-]?\d+'


def lexical_value(base, text):
    """Independent interpretation of canonical lexical forms (None if not covered)."""
    if base in INT_RANGES:
        return int(text)
    if base == 'decimal':
        return D(text)
    if base in FLOATS:
        return float(text)
    if base == 'hexBinary':
        return bytes.fromhex(text)
    if base in ('binary', 'base64Binary'):
        return base64.b64decode(text.replace('\n', ''), validate=True)
    if base == 'boolean':
        return {'true': True, '1': True, 'false': False, '0': False}[text]
    if base in ('datetime', 'dateTime', 'dateTimeStamp', 'date'):
        return datetime.datetime.fromisoformat(text)
    if base == 'json':
        return json.loads(text)
    if base in STRINGS + ['NMTOKEN', 'normalizedString']:
        return text
