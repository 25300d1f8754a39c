"""Contradictory datatype descriptions are rejected, all others accepted as given."""
import json
import csvw
from csvw.metadata import Column
from harness import vals
import datetime
import decimal

RULE = ('Datatype descriptions with random subsets of bounds and lengths (equal, off by one, zero, '
        'negative, given as text, JSON numbers or in the format of the datatype) over every base type, '
        'directly or in a column; an independent rule says contradictory or not: ValueError iff so; '
        'accepted descriptions keep every constraint and serialize to an equal description.')
CASES = {'quick': 120000, 'thorough': 960000}
D = decimal.Decimal
NUM = list(vals.INT_RANGES) + vals.FLOATS + ['decimal']
DT = ['datetime', 'dateTime', 'dateTimeStamp', 'date', 'time']
DUR = ['duration', 'dayTimeDuration']
LEN = ['string', 'xml', 'html', 'normalizedString', 'NMTOKEN', 'anyURI', 'base64Binary', 'binary', 'hexBinary', 'json']
LOW, UP = ['minimum', 'minInclusive', 'minExclusive'], ['maximum', 'maxInclusive', 'maxExclusive']
REQUIRED = ['accepted', 'rejected', 'rule:length', 'rule:bounds', 'rule:both', 'rule:type', 'rule:id',
            'rule:incomparable', 'zero', 'json-number', 'format', 'column', 'equal-bounds', 'kind:num',
            'kind:dt', 'kind:dur', 'kind:len', 'kind:other', 'alias']


def gen(rng):
    kind = rng.choice(['num', 'num', 'dt', 'dur', 'len', 'len', 'other'])
    base = rng.choice({'num': NUM, 'dt': DT, 'dur': DUR, 'len': LEN, 'other': ['boolean', 'any'] + LEN + NUM}[kind])
    bounds, lengths = {}, {}
    if kind in ('num', 'dt', 'dur') or (kind == 'other' and rng.random() < .5):
        pivot = rng.choice([0, 0, 1, 3, -2])
        for k in rng.sample(LOW + UP, rng.choice([1, 1, 2, 2, 2, 3, 4])):
            bounds[k] = pivot + rng.choice([0, 0, 0, 1, -1, 2, -3])
    if kind == 'len' or (kind == 'other' and rng.random() < .6):
        pivot = rng.choice([0, 0, 1, 5])
        for k in rng.sample(['length', 'minLength', 'maxLength'], rng.choice([1, 2, 2, 3])):
            lengths[k] = max(0, pivot + rng.choice([0, 0, 1, -1, 2]))
    return dict(kind=kind, base=base, bounds=bounds, lengths=lengths,
                how=rng.choice(['text', 'json', 'format', 'text']), col=rng.random() < .3,
                tz=rng.choice([None, None, None, 'mixed', 'all']),
                id=rng.choice([None] * 8 + ['builtin', 'own', 'case']), half=rng.random() < .3)


def bound(case, k, n, i):
    """-> JSON representation and comparable value of the bound."""
    base, how = case['base'], case['how']
    if base in NUM or case['kind'] in ('other', 'len', 'num'):
        v = D(n)
        if case['half'] and base not in vals.INT_RANGES:
            v = v / 10
        if how == 'json' or base not in NUM:
            return (int(v) if v == int(v) else float(v)), v
        if how == 'format' and base in NUM:
            return '{:.1f}'.format(v).replace('.', ',') if base not in vals.INT_RANGES else \
                '{:03d}'.format(n).replace('-0', '-00') if n < 0 else '{:03d}'.format(n), v
        return str(v) if base not in vals.FLOATS else str(float(v)), v
    if base in DUR:
        return isodur(n + 10), n
    tz = ''
    if case['tz'] == 'all' or (case['tz'] == 'mixed' and i % 2) or base == 'dateTimeStamp':
        tz = 'Z'
    if base == 'date':
        d = datetime.date(2015, 3, 10 + n)
        return (d.isoformat() if how != 'format' else '{}.{}.{}'.format(d.day, d.month, d.year)), n
    if base == 'time':
        return '{:02d}:00:00'.format(10 + n), n
    if base == 'dateTimeStamp':
        return '2015-03-{:02d}T12:00:00Z'.format(10 + n), n
    return '2015-03-{:02d}T12:00:00{}'.format(10 + n, tz), (n, tz)


def isodur(n):
    return 'P{}D'.format(n)


def run(case, mon, work):
    base, kind = case['base'], case['kind']
    desc, values = {'base': base}, {}
    isnum, hasbound = base in NUM, base in NUM + DT + DUR
    if case['how'] == 'format':
        if isnum:
            desc['format'] = '000' if base in vals.INT_RANGES else {'pattern': '0.0', 'decimalChar': ','}
        elif base == 'date':
            desc['format'] = 'd.M.yyyy'
    for i, (k, n) in enumerate(sorted(case['bounds'].items())):
        desc[k], values[k] = bound(case, k, n, i)
    desc.update(case['lengths'])
    if case['id']:
        desc['@id'] = {'builtin': 'http://www.w3.org/2001/XMLSchema#decimal', 'own': 'http://x.org/dt',
                       'case': 'http://www.w3.org/2001/XMLSchema#decimals'}[case['id']]
    mon.cover('kind:' + kind)
    why = None
    ln = case['lengths']
    if case['id'] == 'builtin':
        why = 'id'
    if 'length' in ln and (ln['length'] < ln.get('minLength', 0) or ln['length'] > ln.get('maxLength', 99)):
        why = 'length'
    if ln.get('minLength', 0) > ln.get('maxLength', 99):
        why = 'length'
    if (ln and base not in LEN) or (values and not hasbound):
        why = 'type'
    if values and hasbound:
        if ('minExclusive' in values and set(values) & {'minimum', 'minInclusive'}) or (
                'maxExclusive' in values and set(values) & {'maximum', 'maxInclusive'}):
            why = 'both'
        for lo in LOW:
            for up in UP:
                if lo in values and up in values:
                    a, b = values[lo], values[up]
                    if isinstance(a, tuple):
                        if a[1] != b[1]:
                            why = 'incomparable'
                            continue
                        a, b = a[0], b[0]
                    if b < a or (b == a and 'Exclusive' in lo + up):
                        why = 'bounds'
                    if a == b:
                        mon.cover('equal-bounds')
                    if 'minimum' == lo or 'maximum' == up:
                        mon.cover('alias')
        # bounds have to be values of the datatype
        r = vals.INT_RANGES.get(base)
        if r and any((r[0] is not None and v < r[0]) or (r[1] is not None and v > r[1])
                     for v in values.values()):
            why = why or 'type'
    if 0 in case['bounds'].values() or 0 in ln.values():
        mon.cover('zero')
    if case['how'] == 'json' and values:
        mon.cover('json-number')
    if 'format' in desc:
        mon.cover('format')
    text = json.dumps(desc)

    def make():
        d = json.loads(text)
        if case['col']:
            mon.cover('column')
            return Column.fromvalue({'name': 'a', 'datatype': d}).datatype
        return csvw.Datatype.fromvalue(d)
    mon.event(text, why)
    if why:
        mon.cover('rejected', 'rule:' + why)
        mon.raises(ValueError, make, 'contradictory description accepted ({})'.format(why), desc=text)
        return
    mon.cover('accepted')
    try:
        dt = make()
    except ValueError as e:
        mon.fail('consistent description rejected', desc=text, exc=repr(e))
    for k in LOW + UP + ['length', 'minLength', 'maxLength']:
        mon.check((getattr(dt, k) is not None) == (k in desc), 'constraint lost or invented', k=k, desc=text)
    for k, v in ln.items():
        mon.eq(getattr(dt, k), v, 'length changed', desc=text)
    if isnum:
        for k, v in values.items():
            got = getattr(dt, k)
            mon.check(got == (float(v) if base in vals.FLOATS else v), 'bound changed', k=k, got=got, want=v,
                      desc=text)
    again = csvw.Datatype.fromvalue(json.loads(json.dumps(dt.asdict())))
    mon.check(again == dt, 'description changed by serialization', desc=text,
              again=json.dumps(again.asdict()))
