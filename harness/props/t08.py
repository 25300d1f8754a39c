"""Lexical spaces of strings, tokens, booleans, binaries, JSON and durations."""
import base64
import json
import re
import datetime

import csvw
import isodate
from harness import g, vals

RULE = ('Texts in and around the lexical space (whole-string regular expressions incl. alternation and '
        'trailing newlines, name tokens, boolean spellings, hex and base64 digits, JSON documents under a '
        'schema, durations) with formats; an independent decision says in or out and which value.')
CASES = {'quick': 160000, 'thorough': 1280000}
# regex, texts in its language, near misses
REGEX = [
    ('[a-z]+', ['a', 'abc'], ['', 'A', 'abc1', '1abc', 'abc\n', 'ab c', 'abc def']),
    ('a|b', ['a', 'b'], ['ab', 'a|b', 'c', 'a\n', 'ba', 'aX', 'Xb']),
    ('a|ab', ['a', 'ab'], ['abc', 'b', 'aab']),
    ('\\d{2,3}', ['12', '123'], ['1', '1234', '12a', '12\n', 'a12']),
    ('(x|y)?z', ['z', 'xz', 'yz'], ['xyz', 'x', 'zz', 'xzz', '']),
    ('.*', ['', 'a', 'abc,;'], ['a\nb', 'a\n', '\n']),
    ('.+', ['x', ' '], ['', 'x\ny', 'x\n']),
    ('[^|]*', ['', 'abc', 'a\nb'], ['a|b', '|']),
    ('foo|bar|baz', ['foo', 'bar', 'baz'], ['foobar', 'ba', 'bazz', 'xfoo', 'FOO']),
    ('(?i)abc', ['abc', 'ABC', 'aBc'], ['ab', 'abcd']),
    ('\\w+\\.\\w+', ['a.b', 'é.ü'], ['ab', 'a.b.c', '.b', 'a,b']),
    ('[0-9]{4}-[0-9]{2}', ['2018-12'], ['2018-1', '2018-123', '2018-12-01', '2018/12']),
    ('\\?', ['?'], ['', '??', 'x']),
    ('a$', ['a'], ['a\n', 'ab']),
    ('^a', ['a'], ['ba', 'aa', 'a\n']),
]
STR = ['string', 'xml', 'html', 'QName', 'gDay', 'gMonth', 'gMonthDay', 'gYear', 'gYearMonth',
       'normalizedString', 'NMTOKEN', 'anyURI']
SCHEMAS = [
    ({'type': 'object'}, lambda v: isinstance(v, dict)),
    ({'type': 'array', 'items': {'type': 'integer'}}, lambda v: isinstance(v, list) and all(
        (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, float) and x == int(x))
        for x in v)),
    ({'type': 'string'}, lambda v: isinstance(v, str)),
    ({'enum': ['a', None, 3]}, lambda v: v in ['a', None, 3] and not isinstance(v, bool)),
    ({'type': 'object', 'required': ['a']}, lambda v: isinstance(v, dict) and 'a' in v),
    ({'minLength': 2}, lambda v: not isinstance(v, str) or len(v) >= 2),
    ({'maxItems': 1}, lambda v: not isinstance(v, list) or len(v) <= 1),
]
REQUIRED = ['in', 'out', 'regex-in', 'regex-out', 'newline', 'nmtoken-in', 'nmtoken-out', 'bool-in', 'bool-out',
            'bool-format', 'hex-in', 'hex-out', 'b64-in', 'b64-out', 'b64-chars', 'json-in', 'json-out', 'schema-in',
            'schema-out', 'dur-in', 'dur-out', 'dur-format', 'normalized', 'list', 'uri'] + ['t:' + t for t in STR]
DUR = re.compile(r'([+-])?P(?=.)(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?(?:T(?=.)(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)(?:\.(\d+))?S)?)?')


def gen(rng):
    kind = rng.choice(['regex', 'regex', 'regex', 'nmtoken', 'bool', 'hex', 'b64', 'json', 'json', 'dur', 'norm',
                       'list'])
    if kind == 'regex':
        i = rng.randrange(len(REGEX))
        r, good, bad = REGEX[i]
        ok = rng.random() < .5
        return dict(k=kind, base=rng.choice(STR), r=r, s=rng.choice(good if ok else bad), ok=ok)
    if kind == 'nmtoken':
        s = ''.join(rng.choice('abcXYZ019.:-_éдञ') for _ in range(rng.randint(0, 6)))
        if rng.random() < .5:
            i = rng.randint(0, len(s))
            s = s[:i] + rng.choice([' ', ',', '\n', '\t', '/', '"', '+', '\u2028', '(', '\xa0', '*']) + s[i:]
        return dict(k=kind, s=s)
    if kind == 'bool':
        f = rng.choice([None, None, 'Y|N', 'true|false', 'ja|nein', '1|0', '0|1', 'yes|no', 'x y|z', 'N|Y'])
        t, n = f.split('|') if f else rng.choice([('true', 'false'), ('1', '0')])
        s = rng.choice([t, n, t, n, t + n, t.upper() + '?', '', 'true', 'false', '1', '0', t + ' ', t + '\n',
                        t[:-1], f or 'x', '|', 'True', 'FALSE', n + t])
        return dict(k=kind, f=f, s=s)
    if kind in ('hex', 'b64'):
        b = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 10, 58, 100])))
        return dict(k=kind, b=b.hex(), mut=rng.random() < .4, pos=rng.random(), lower=rng.random() < .3,
                    base=rng.choice(['base64Binary', 'binary']))
    if kind == 'json':
        v = json.dumps(rng.choice([vals.gen_json(rng), 'a', None, 3, [1, 2], [1], [], {}, {'a': 1}, 'ab', ['x'], 5.5]),
                       ensure_ascii=rng.random() < .5)
        if rng.random() < .25:
            i = rng.randrange(len(v) + 1)
            v = rng.choice([v[:i], v[:i] + rng.choice(['}', '"', ',', 'x', ' ', '\\']) + v[i:], v + v, v + ' '])
        return dict(k=kind, s=v, schema=rng.choice([None] + list(range(len(SCHEMAS)))))
    if kind == 'dur':
        sign = rng.choice(['', '', '', '-'])
        c = [rng.choice([None, None, rng.randint(0, 40)]) for _ in range(6)]
        s = sign + 'P' + ''.join('{}{}'.format(n, u) for n, u in zip(c[:3], 'YMD') if n is not None)
        t = ''.join('{}{}'.format(n, u) for n, u in zip(c[3:], 'HMS') if n is not None)
        if t:
            s += 'T' + t
            if s.endswith('S') and rng.random() < .3:
                s = s[:-1] + rng.choice(['.5', '.25', '.000001', '.0']) + 'S'
        if rng.random() < .3:
            i = rng.randrange(len(s) + 1)
            s = rng.choice([s[:i] + s[i + 1:], s[:i] + rng.choice('xTP-. 5:') + s[i:], s + 'x', s[1:], s.lower()])
        return dict(k=kind, s=s, base=rng.choice(['duration', 'dayTimeDuration', 'yearMonthDuration']),
                    f=rng.choice([None, None, 'P.*D', 'P[0-9]+Y', '[^T]*', 'P.*|-P.*']))
    if kind == 'norm':
        return dict(k=kind, s=g.text(rng, 6))
    r, good, bad = rng.choice([x for x in REGEX if ';' not in ''.join(x[1] + x[2])])
    items = [rng.choice(good) for _ in range(rng.randint(1, 4))]
    ok = rng.random() < .5
    if not ok:
        items[rng.randrange(len(items))] = rng.choice(bad)
    return dict(k='list', r=r, items=items, ok=ok, base=rng.choice(['string', 'anyURI', 'xml']))


def run(case, mon, work):
    k = case['k']

    def judge(dt, s, ok, name, want=None, eq=None):
        mon.event(name, json.dumps(dt.asdict()), repr(s), ok)
        mon.cover('in' if ok else 'out', '{}-{}'.format(name, 'in' if ok else 'out'))
        if not ok:
            mon.raises(ValueError, lambda: dt.read(s), 'text outside of the lexical space accepted',
                       desc=json.dumps(dt.asdict()), text=s)
            return
        try:
            got = dt.read(s)
        except ValueError as e:
            mon.fail('text in the lexical space rejected', exc=repr(e), desc=json.dumps(dt.asdict()), text=s)
        mon.check((eq or vals.same)(got, want), 'text has the wrong value', got=got, want=want,
                  desc=json.dumps(dt.asdict()), text=s)
    make = csvw.Datatype.fromvalue
    if k == 'regex':
        base, s, ok = case['base'], case['s'], case['ok']
        mon.cover('t:' + base)
        if '\n' in s:
            mon.cover('newline')
        want = s
        if base == 'normalizedString':
            want = ' '.join(re.split('[\r\n\t]', s)).strip()
            if want != s:  # decide anew for the normalized value
                ok = any(want == x for x in dict((r, x) for r, x, _ in REGEX)[case['r']])
                if not ok and re.fullmatch(case['r'], want):
                    return
                mon.cover('normalized')
        if base == 'NMTOKEN' and not re.fullmatch(r'[\w.:-]*', s):
            ok = False
        dt = make({'base': base, 'format': case['r']})
        if base == 'anyURI':
            mon.cover('uri')
            judge(dt, s, ok, 'regex', s, lambda a, b: a.unsplit() == b or not b.isalnum())
        else:
            judge(dt, s, ok, 'regex', want)
    elif k == 'nmtoken':
        s = case['s']
        ok = all(c.isalnum() or c in '._:-' for c in s)
        judge(make('NMTOKEN'), s, ok, 'nmtoken', s)
    elif k == 'bool':
        f, s = case['f'], case['s']
        t, n = ([x] for x in f.split('|')) if f else (['true', '1'], ['false', '0'])
        if f:
            mon.cover('bool-format')
        dt = make({'base': 'boolean', 'format': f} if f else 'boolean')
        judge(dt, s, s in t + n, 'bool', s in t)
        mon.eq((dt.formatted(True), dt.formatted(False)), (t[0], n[0]), 'booleans written wrongly', format=f)
    elif k == 'hex':
        s = case['b'].lower() if case['lower'] else case['b'].upper()
        b = bytes.fromhex(case['b'])
        ok = True
        if case['mut']:
            i = int(case['pos'] * (len(s) + 1))
            s = s[:i] + 'xG٣ 1'[int(case['pos'] * 1000) % 5] + s[i:]
            ok = False
        judge(make('hexBinary'), s, ok, 'hex', b)
        if ok:
            mon.eq(make('hexBinary').formatted(b), case['b'].upper(), 'bytes written wrongly')
    elif k == 'b64':
        b = bytes.fromhex(case['b'])
        s = base64.b64encode(b).decode()
        dt = make(case['base'])
        if case['mut'] and case['pos'] < .5:
            # characters outside of the alphabet
            i = int(case['pos'] * 2 * (len(s) + 1))
            mon.cover('b64-chars')
            judge(dt, s[:i] + 'é!_-*.\u0664"'[int(case['pos'] * 1000) % 8] + s[i:], False, 'b64')
        elif case['mut'] and s:
            judge(dt, s.rstrip('=')[:-1] + 'é' if case['lower'] else s + 'A' if not s.endswith('=') else
                  s.rstrip('='), False, 'b64')
        else:
            judge(dt, s, True, 'b64', b)
            i = int(case['pos'] * 10)
            wrapped = ' ' * (i % 2) + '\n'.join(s[j:j + 20] for j in range(0, len(s), 20)) + '\n' * (i % 3)
            judge(dt, wrapped, True, 'b64', b)
        mon.eq(base64.b64decode(dt.formatted(b)), b, 'bytes written wrongly')
    elif k == 'json':
        try:
            v = json.loads(case['s'])
            ok = True
        except ValueError:
            v, ok = None, False
        d, name = {'base': 'json'}, 'json'
        if case['schema'] is not None:
            sch, fn = SCHEMAS[case['schema']]
            d['format'] = json.dumps(sch)
            if ok:
                name = 'schema'
                ok = fn(v)
        judge(make(d), case['s'], ok, name, v, lambda a, b: json.dumps(a) == json.dumps(b))
    elif k == 'dur':
        s, f = case['s'], case['f']
        m = DUR.fullmatch(s)
        if not m or s.endswith('T'):
            if 'W' in s or m is None and re.fullmatch(r'[+-]?P[\d.,T:-]*[\dYMDHS.,T]*', s):
                return  # alternative and week formats of ISO 8601 are not judged
            if s != s.upper():
                mon.raises(ValueError, lambda: make({'base': case['base']}).read(s), 'invalid duration accepted',
                           text=s) if 'x' in s else None
                return
            judge(make({'base': case['base']}), s, False, 'dur')
            return
        sign, y, mo, d, h, mi, sec, frac = m.groups()
        y, mo, d, h, mi, sec = (int(x or 0) for x in (y, mo, d, h, mi, sec))
        td = datetime.timedelta(days=d, hours=h, minutes=mi, seconds=sec,
                                microseconds=int((frac or '0').ljust(6, '0')[:6]))
        want = isodate.Duration(years=y, months=mo, days=td.days, seconds=td.seconds,
                                microseconds=td.microseconds) if y or mo else td
        if sign == '-':
            want = -want
        desc = {'base': case['base']}
        ok = True
        if f:
            desc['format'] = f
            mon.cover('dur-format')
            ok = bool(re.fullmatch(f, s))
        judge(make(desc), s, ok, 'dur', want, lambda a, b: a == b)
    elif k == 'norm':
        s = case['s']
        want = s.replace('\r', ' ').replace('\n', ' ').replace('\t', ' ').strip()
        mon.eq(make('normalizedString').read(s), want, 'whitespace not normalized')
        mon.cover('normalized')
        mon.eq(make('string').read(s), s, 'string changed')
    else:
        col = csvw.Column.fromvalue({'name': 'a', 'separator': ';', 'null': [],
                                     'datatype': {'base': case['base'], 'format': case['r']}})
        s = ';'.join(case['items'])
        mon.cover('list')
        if not case['ok']:
            if s == '':
                return
            if '' in case['items'] and re.fullmatch(case['r'], ''):
                return
            mon.raises(ValueError, lambda: col.read(s), 'list with invalid element accepted', text=s)
        else:
            got = col.read(s)
            if case['base'] == 'anyURI':
                got = [x.unsplit() for x in got]
            if s:
                mon.check(got == case['items'] or case['base'] == 'anyURI', 'list elements differ', got=got,
                          want=case['items'])
