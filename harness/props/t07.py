"""Reading any text as any datatype gives a value of the documented type, or ValueError."""
import datetime
import decimal
import json

import csvw
import isodate
import rfc3986
from harness import g, vals

RULE = ('Arbitrary texts (valid lexical forms, mutations of them, forms of other datatypes, hostile '
        'unicode, huge and empty texts) x all datatypes x formats x constraints: read() returns a value '
        'of the documented Python type or raises ValueError, and gives the same result again.')
CASES = {'quick': 240000, 'thorough': 1920000}
KINDS = {
    'str': (str,), 'int': (int,), 'float': (float,), 'decimal': (decimal.Decimal,), 'bytes': (bytes,),
    'bool': (bool,), 'datetime': (datetime.datetime,),
    'duration': (datetime.timedelta, isodate.Duration), 'uri': (rfc3986.URIReference,),
    'json': (dict, list, str, int, float, bool, type(None))}
KIND = {}
for b in vals.ALL:
    KIND[b] = 'str'
for b in vals.INT_RANGES:
    KIND[b] = 'int'
for b in vals.FLOATS:
    KIND[b] = 'float'
KIND.update(decimal='decimal', base64Binary='bytes', binary='bytes', hexBinary='bytes', boolean='bool',
            anyURI='uri', json='json', duration='duration', dayTimeDuration='duration',
            yearMonthDuration='duration')
for b in 'datetime dateTime dateTimeStamp date time'.split():
    KIND[b] = 'datetime'
SEEDS = ['', ' ', '0', '-0', '+5', '5.', '.5', '1e5', '1E+400', 'NaN', 'nan', 'INF', '-INF', 'Infinity', 'inf',
         '1_000', '٣', '１２', '0x1F', '1,000', '1,,0', '100%', '5‰', '--5', '+-5', '5-', '1' * 60, '0.' + '0' * 50 + '1',
         'true', 'false', 'True', 'Y', 'N', '2018-12-10', '2018-13-10', '2018-02-30', '0000-01-01', '10000-01-01',
         '2018-12-10T20:20:20', '2018-12-10T24:00:00', '2018-12-10T25:00:00Z', '2018-12-10T20:20:20+99:99',
         '2018-12-10T20:20:20.1234567', '2018-12-10 20:20', '20:20:20', '20:20:60', '20:20:20+05:00', 'T20:20',
         '2018-W10-1', '2018-344', '2018', '20181210', '1.2.2018', '31/12/2018', 'P1Y', 'P1M2DT3H', 'PT', 'P', '-P1D',
         'P1.5D', 'P1W', 'P0001-01-01T00:00:00', 'PT1.5S', 'P99999999999Y', 'PT99999999999999H',
         'YWJj', 'YWJ', '====', 'ab', 'abc', 'GG', 'é', '\x00', '\ud7ff', '\U0001f40d', '{', '{}', '[1', '[1, 2]',
         '"a"', 'null', '{"a": NaN}', '{"a": 1, "a": 2}', 'http://[', 'http://a b/', 'http://[::1', '%zz', '://', '#',
         'http://example.org:99999999/', '\n', 'a\n', '5\n', 'true\n', '2018-12-10\n', 'P1D\n', '\u2028', '5\u2028',
         '2018-12-10T20:20:20Z', '2018-12-10T20:20:20z', '2018-12-10T20:20:20+05', '2018-12-10T20:20:20+0530',
         '2018-12-10Z', '20:20', '202020', '2018-12-10T20:20:20,5', '9999-12-31T23:59:59+00:00', '٢٠١٨-١٢-١٠',
         '²', 'Ⅷ', '1/2', '1 000', "1'000", 'ab\tc', 'x' * 200, '5' * 2000, '-' * 30, 'P' + '9' * 5000 + 'D',
         '[' * 20000, '{"a":' * 20000, '[' * 200 + ']' * 200, '[' * 5000 + '1' + ']' * 5000]
REQUIRED = ['value', 'error', 'format', 'constraint', 'huge', 'nonascii', 'deep'] + \
    ['v:' + b for b in vals.ALL] + ['e:' + b for b in vals.ALL if KIND[b] not in ('str', 'uri') or b == 'NMTOKEN']
FORMATS = {
    'num': ['0', '0.0#', '#,##0.00', '000', '0%', '0E0', '+0;-0', '0;(0)', '#0.0#,#', {'groupChar': ' '},
            {'decimalChar': ','}, {'groupChar': '.', 'decimalChar': ','}, {'pattern': '#,##0', 'groupChar': '_'},
            {'groupChar': ','}, 'x', {'pattern': '0.0', 'decimalChar': '·'}, '0.0E+00', '#,##,##0'],
    'date': ['d.M.yyyy', 'yyyyMMdd', 'dd/MM/yyyy', 'yyyy-MM-ddX', 'MM-dd-yyyy xxx', 'M/d/yyyy'],
    'dt': ['yyyy-MM-ddTHH:mm', 'yyyy-MM-dd HH:mm:ss.SSS', 'yyyyMMddTHHmmssX', 'd.M.yyyy HH:mm xxx',
           'yyyy-MM-ddTHH:mm:ss.SSSSSSXXX', 'yyyy-MM-dd'],
    'stamp': ['yyyy-MM-ddTHH:mmX', 'yyyyMMdd HHmmss.SSx', 'd/M/yyyy HH:mm:ss XXX'],
    'time': ['HHmm', 'HH:mm', 'HH:mm:ss.SSS', 'HHmmssX', 'HH:mm xxx', 'HH:mm:ss.SX'],
    'str': ['[a-z]+', 'a|b', '.', '(x)?', '\\d+', '[', '(?i)ABC', '.*\n?', '\\w{2,3}'],
    'bool': ['Y|N', 'true|false', '1|0', 'ja|nein', 'x', 'a|b|c', '|', ' | '],
    'json': ['{"type": "object"}', '{"type": "array", "items": {"type": "integer"}}', '{"type": 5}', 'x', '5',
             '{"maximum": 3}', 'true', '[]'],
    'dur': ['P.*', 'P\\d+D', '(', 'PT?[^Y]*'],
}


def fkind(base):
    if base in vals.INT_RANGES or base in vals.FLOATS or base == 'decimal':
        return 'num'
    if base in ('datetime', 'dateTime'):
        return 'dt'
    return {'dateTimeStamp': 'stamp', 'date': 'date', 'time': 'time', 'boolean': 'bool', 'json': 'json',
            'duration': 'dur', 'dayTimeDuration': 'dur', 'yearMonthDuration': 'dur',
            'hexBinary': 'bool', 'binary': 'str', 'base64Binary': 'str'}.get(base, 'str')


def lexical(rng, base):
    try:
        return csvw.Datatype.fromvalue(base).formatted(vals.dec(vals.gen_value(rng, base)))
    except Exception:
        return rng.choice(SEEDS)


def gen(rng):
    base = rng.choice(vals.ALL)
    k = rng.random()
    if k < .3:
        s = rng.choice(SEEDS)
    elif k < .5:
        s = g.text(rng, 6)
    elif k < .85:
        s = lexical(rng, base if rng.random() < .75 else rng.choice(vals.ALL))
    else:
        s = ''.join(rng.choice('0123456789+-.,:TZPDYMHSe %/ax\n') for _ in range(rng.randint(1, 12)))
    if rng.random() < .35 and s:
        i = rng.randrange(len(s))
        s = rng.choice([s[:i] + s[i + 1:], s[:i] + rng.choice('0159-+:.TZ ,eE\n٣x%;') + s[i:],
                        s[:i] + rng.choice('0159-+:.TZ ,x') + s[i + 1:], s + s, s + '\n', ' ' + s, s + ' '])
    d = {'base': base}
    if rng.random() < .45:
        d['format'] = rng.choice(FORMATS[fkind(base)])
        if base == 'dateTimeStamp':
            d['format'] = rng.choice(FORMATS['stamp'])
    if rng.random() < .15:
        if KIND[base] in ('int', 'float', 'decimal') and 'format' not in d:
            d[rng.choice(['minimum', 'maximum', 'minExclusive', 'maxInclusive'])] = \
                5 if base not in ('nonPositiveInteger', 'negativeInteger') else -5
        elif KIND[base] == 'datetime' and 'format' not in d and base in ('datetime', 'dateTime', 'date'):
            d[rng.choice(['minimum', 'maxExclusive'])] = '2018-12-10' if base == 'date' else rng.choice(
                ['2018-12-10T20:20:20', '2018-12-10T20:20:20Z'])
        elif KIND[base] in ('str', 'bytes') and base != 'any' and not base.startswith('g'):
            d[rng.choice(['length', 'minLength', 'maxLength'])] = rng.choice([0, 1, 3])
        elif KIND[base] == 'json':
            d['maxLength'] = 2
    return dict(d=d, s=s)


def run(case, mon, work):
    d, s = case['d'], case['s']
    base = d['base']
    dt = csvw.Datatype.fromvalue(dict(d))
    if 'format' in d:
        mon.cover('format')
    if len(d) - ('format' in d) > 1:
        mon.cover('constraint')
    if len(s) > 1000:
        mon.cover('huge')
    if s[:1000] in ('[' * 1000, '{"a":' * 200) and base == 'json':
        mon.cover('deep')
    if not s.isascii():
        mon.cover('nonascii')

    def attempt():
        try:
            return 'value', dt.read(s)
        except ValueError as e:
            return 'error', type(e).__name__
        except Exception as e:
            mon.fail('reading text raised something other than ValueError', exc=repr(e), d=d, text=s)
    how, v = attempt()
    how2, v2 = attempt()
    mon.event(json.dumps(d), repr(s[:60]), how, repr(v)[:60])
    mon.cover(how, how[0] + ':' + base)
    mon.check(how == how2, 'reading the same text again differs', d=d, text=s, first=v, second=v2)
    if how == 'error':
        return
    mon.check(type(v) in KINDS[KIND[base]] or isinstance(v, KINDS[KIND[base]]),
              'value of wrong type', d=d, text=s, value=v)
    mon.check(isinstance(v, bool) == (KIND[base] == 'bool') or KIND[base] == 'json',
              'value of wrong type', d=d, text=s, value=v)
    if KIND[base] in ('int', 'decimal', 'str', 'bool', 'bytes'):
        mon.check(vals.same(v, v2), 'reading the same text again differs', d=d, text=s, value=v)
