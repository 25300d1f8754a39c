"""Columns for keys: datatypes with several lexical forms of equal values, and which texts denote equal values."""

# name -> datatype description, classes of texts with equal values
KINDS = {
    'integer': ('integer', [['1', '01', '+1'], ['2', '002'], ['-3', '-03'], ['10'], ['12'], ['21'], ['0', '-0', '00'],
                            ['-1', '-01'], ['-2'], ['2305843009213693951']]),  # the last three: with the hash of another value
    'decimal': ('decimal', [['1', '1.0', '01.00'], ['2.5', '2.50'], ['.5', '0.5'], ['-0', '0'], ['7'], ['70'], ['-1', '-1.0'], ['-2', '-2.00']]),
    'string': ('string', [['a'], ['A'], ['a '], ['aa'], ['1'], ['01'], ['é'], ['e\u0301'], ['a,b'], ['a\nb'], ['b,c']]),
    'none': (None, [['a'], ['A'], [' a'], ['1'], ['1.0'], ['true'], ['"q"']]),
    'boolean': ('boolean', [['true', '1'], ['false', '0']]),
    'hexBinary': ('hexBinary', [['ff', 'FF', 'fF'], ['00'], ['abcd', 'ABCD']]),
    'base64Binary': ('base64Binary', [['aGk='], ['AGk='], ['YQ=='], ['aGkh']]),
    'date': ('date', [['2018-01-01'], ['2018-01-10'], ['2018-10-01']]),
    'float': ('float', [['1', '1.0', '1e0', '10E-1'], ['2.5', '25e-1', '+2.50'], ['-1'], ['-2', '-2.0'], ['0', '-0.0']]),
    'double': ('double', [['1e3', '1000', '1000.0'], ['1e4'], ['100']]),
    'dateTime': ('dateTime', [['2018-01-01T12:00:00Z', '2018-01-01T12:00:00+00:00', '2018-01-01T13:00:00+01:00'],
                              ['2018-01-01T13:00:00Z', '2018-01-01T12:00:00-01:00'],
                              ['2018-01-01T12:00:01Z']]),
    'json': ('json', [['{"a": 1, "b": [2]}', '{"b":[2],"a":1}'], ['{"a": 1, "b": [3]}'], ['[1, 2]', '[1,2]'], ['[2, 1]'],
                      ['"x"', '"\\u0078"'], ['{}'], ['[]', '[ ]'], ['[[]]'], ['[{"a": {"x": [], "y": 2}}]', '[{"a":{"y":2,"x":[]}}]'],
                      ['5', '5.0'], ['"5"'], ['[["a", 1], ["b", [2]]]'], ['1'], ['2']]),
    'duration': ('duration', [['PT60S', 'PT1M'], ['PT1H', 'PT60M', 'PT3600S'], ['P1D', 'PT24H'], ['P2D']]),
    'anyURI': ('anyURI', [['http://example.org/a'], ['http://example.org/b'], ['http://example.org/a#'], ['a'], ['xyz']]),
    'NMTOKEN': ('NMTOKEN', [['a'], ['A'], ['a-b'], ['1'], ['xyz']]),
    'de-date': ({'base': 'date', 'format': 'd.M.yyyy'}, [['1.2.2018', '01.02.2018', '1.02.2018'], ['2.1.2018', '02.01.2018'], ['12.1.2018']]),
    'yes-no': ({'base': 'boolean', 'format': 'Y|N'}, [['Y'], ['N']]),
    'grouped': ({'base': 'integer', 'format': {'pattern': '#,##0', 'groupChar': ','}}, [['1,000', '01,000'], ['10,000'], ['100', '+100', '0,100']]),
    'comma': ({'base': 'decimal', 'format': {'decimalChar': ',', 'groupChar': '.'}},
              [['1,5', '1,50', '01,5'], ['1.500', '1500', '1500,0'], ['15']]),
    'short': ({'base': 'string', 'maxLength': 2}, [['a'], ['ab'], ['b'], ['ba']]),
    'bounded': ({'base': 'integer', 'minimum': 5}, [['5', '05', '+5'], ['50'], ['15']]),
}
MANY = {'string': 'v {}', 'none': 'v{}', 'anyURI': 'http://example.org/{}', 'NMTOKEN': 'n{}', 'integer': '{}'}
TEXTUAL = ['string', 'none', 'anyURI', 'NMTOKEN']
DEFAULTS = {'integer': '2', 'string': 'a', 'decimal': '2.50', 'date': '2018-01-10', 'none': '1', 'boolean': '0'}


class Invalid(Exception):
    pass


def column(rng, name, kind):
    c = {'name': name, 'kind': kind}
    if kind in DEFAULTS and rng.random() < .06:
        c['default'] = DEFAULTS[kind]
    elif rng.random() < .06:
        c['null'] = ['', 'NA']
    return c


def describe(c):
    """the column description of c"""
    res = {k: v for k, v in c.items() if k != 'kind'}
    dt = KINDS[c['kind']][0]
    if dt is not None:
        res['datatype'] = dt
    return res


def text(rng, kind):
    if getattr(rng, 'big', False) and kind in MANY and rng.random() < .8:
        return MANY[kind].format(rng.randint(100, 900))
    return rng.choice(rng.choice(KINDS[kind][1]))


def other(rng, kind, t):
    """another form of the value of text t"""
    return rng.choice(next((f for f in KINDS[kind][1] if t in f), [t]))


def read(c, s):
    """A hashable representative of the value: equal values have equal ones."""
    if not s:
        s = c.get('default', '')

    def value(x):
        if x in c.get('null', ['']):
            return None
        for i, f in enumerate(KINDS[c['kind']][1]):
            if x in f:
                return i
        if c['kind'] in TEXTUAL or c['kind'] == 'integer' and len(x) == 3 and x.isdigit():
            return x
        raise Invalid(x)
    if c.get('separator'):
        if not s:
            return ('l',)
        if s in c.get('null', ['']):
            return None
        return ('l',) + tuple(value(x or c.get('default', '')) for x in s.split(c['separator']))
    return value(s)
