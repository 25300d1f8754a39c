"""Table descriptions, cell parsing model, row generators - independent of csvw."""
import json
import re

from harness import g, vals

LEVELS = ['group', 'table', 'schema', 'column']
# base types with simple independent readers
SIMPLE = ['string', 'integer', 'decimal', 'boolean', 'date', 'float', 'json', 'hexBinary', 'int',
          'positiveInteger', 'normalizedString', 'NMTOKEN', 'byte']
BAD = object()
NULLS = [[''], [''], ['NA'], ['', 'NA'], ['-', ''], 'NA', ['NA', '-', 'n/a'], [], ['null']]


def read_value(base, s):
    """Independent value of a text for the simple types; BAD if not in the lexical space."""
    if base is None or base == 'string':
        return s
    if base == 'normalizedString':
        return re.sub('[\r\n\t]', ' ', s).strip()
    if base in vals.FLOATS:
        if not re.fullmatch(r'[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?', s, re.ASCII):
            return BAD
    elif base == 'json':
        try:
            return json.loads(s)
        except ValueError:
            return BAD
    elif base == 'hexBinary':
        if not re.fullmatch('([0-9a-fA-F]{2})*', s):
            return BAD
    elif not re.fullmatch(vals.LEX[base], s, 0 if base == 'NMTOKEN' else re.ASCII):
        return BAD
    if base == 'decimal' and ('N' in s):
        return BAD
    try:
        v = vals.lexical_value(base, s)
    except ValueError:
        return BAD
    if base in vals.INT_RANGES:
        lo, hi = vals.INT_RANGES[base]
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            return BAD
    return v


class Missing(Exception):
    pass


class Invalid(Exception):
    pass


def nullset(v):
    return [v] if isinstance(v, str) else v


def read_cell(p, s):
    """p: effective properties; the parsing-cells algorithm for the supported properties."""
    null = nullset(p.get('null', ['']))
    default, sep, base = p.get('default', ''), p.get('separator'), p.get('datatype')
    if not s:
        s = default
    if p.get('required') and s in null:
        raise Missing()

    def value(x):
        if x in null:
            return None
        v = read_value(base, x)
        if v is BAD:
            raise Invalid(x)
        return v
    if sep:
        if not s:
            return []
        if s in null:
            return None
        return [value(x or default) for x in s.split(sep)]
    return value(s)


def effective(levels):
    """Most specific level which specifies the property wins."""
    res = {}
    for lv in levels:
        res.update(lv)
    return res


def text_for(rng, base, g_hostile=.3):
    s = _text_for(rng, base, g_hostile)
    # Whitespace around values of types other than string is not judged.
    if base in (None, 'string', 'normalizedString', 'json'):
        return s
    return ''.join(c for c in s if c not in WS + '%‰')


WS = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u2028\u2029'


def _text_for(rng, base, g_hostile=.3):
    """A text which is sometimes in the lexical space of base."""
    k = rng.random()
    if k < .12:
        return ''
    if k < .24:
        return rng.choice(['NA', '-', 'n/a', 'null', '-1', '0', '1', 'true', 'x', ' ', '5', '2018-01-01', 'ab'])
    if base in (None, 'string', 'normalizedString', 'NMTOKEN'):
        return g.text(rng, 3, g_hostile)
    if k < .34:
        return g.text(rng, 2, .3)
    if base == 'boolean':
        return rng.choice(['true', 'false', '1', '0'])
    if base == 'date':
        return '{:04d}-{:02d}-{:02d}'.format(rng.randint(1, 9999), rng.randint(1, 13), rng.randint(1, 31))
    if base == 'json':
        return json.dumps(vals.gen_json(rng, 1))
    if base == 'hexBinary':
        return bytes(rng.randrange(256) for _ in range(rng.randint(0, 4))).hex()
    if base in vals.FLOATS:
        return repr(rng.choice([0.5, 1e10, -2.25, 1e-3, 7.0, round(rng.uniform(-100, 100), 3)]))
    if base == 'decimal':
        return rng.choice(['', '-']) + str(rng.randint(0, 9999)) + rng.choice(['', '.5', '.25', '.000', '.'])
    return str(vals.gen_int(rng, base) if rng.random() < .7 else rng.randint(-200, 200))


def jsonable(v):
    """For comparison of values by kind."""
    return v


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return vals.same(a, b)
