"""Links and URI templates."""
import json
import pathlib
import warnings

import csvw
from csvw.metadata import Link, URITemplate
from harness import g

RULE = ('Random URI templates (all RFC 6570 operators, lists, prefixes, explode, undefined variables, QNames, '
        'absolute and relative references) are expanded for rows of typed values and resolved against described '
        'tables on the web, in the file system and without location; independent models of RFC 6570 and RFC 3986 '
        'give the expected URL. Observed: TableLike.expand, virtual columns of iterdicts, Link.resolve.')
CASES = {'quick': 96000, 'thorough': 768000}
OPS = ['', '+', '#', '.', '/', ';', '?', '&']
REQUIRED = ['op:' + o for o in OPS] + [
    'list', 'explode', 'prefix', 'undefined', 'empty', '_row', '_name', 'qname', 'qname-vars', 'compacted',
    'not-compacted', 'base:url', 'base:file', 'base:none', 'absolute', 'relative', 'dots', 'query-only', 'virtual',
    'typed', 'clash', 'link', 'colon-in-qname', 'group', 'qname-value']
# https://www.w3.org/2011/rdfa-context/rdfa-1.1 and the terms of the CSVW namespace
PREFIXES = {
    'csvw': 'http://www.w3.org/ns/csvw#',
    'rdf': 'http://www.w3.org/1999/02/22-rdf-syntax-ns#',
    'rdfs': 'http://www.w3.org/2000/01/rdf-schema#',
    'xsd': 'http://www.w3.org/2001/XMLSchema#',
    'dc': 'http://purl.org/dc/terms/',
    'dcat': 'http://www.w3.org/ns/dcat#',
    'prov': 'http://www.w3.org/ns/prov#',
    'schema': 'http://schema.org/',
    'as': 'https://www.w3.org/ns/activitystreams#',
    'cc': 'http://creativecommons.org/ns#',
    'ctag': 'http://commontag.org/ns#',
    'dc11': 'http://purl.org/dc/elements/1.1/',
    'dctypes': 'http://purl.org/dc/dcmitype/',
    'dqv': 'http://www.w3.org/ns/dqv#',
    'duv': 'https://www.w3.org/ns/duv#',
    'foaf': 'http://xmlns.com/foaf/0.1/',
    'gr': 'http://purl.org/goodrelations/v1#',
    'grddl': 'http://www.w3.org/2003/g/data-view#',
    'ical': 'http://www.w3.org/2002/12/cal/icaltzd#',
    'jsonld': 'http://www.w3.org/ns/json-ld#',
    'ldp': 'http://www.w3.org/ns/ldp#',
    'ma': 'http://www.w3.org/ns/ma-ont#',
    'oa': 'http://www.w3.org/ns/oa#',
    'odrl': 'http://www.w3.org/ns/odrl/2/',
    'og': 'http://ogp.me/ns#',
    'org': 'http://www.w3.org/ns/org#',
    'owl': 'http://www.w3.org/2002/07/owl#',
    'qb': 'http://purl.org/linked-data/cube#',
    'rdfa': 'http://www.w3.org/ns/rdfa#',
    'rev': 'http://purl.org/stuff/rev#',
    'rif': 'http://www.w3.org/2007/rif#',
    'rr': 'http://www.w3.org/ns/r2rml#',
    'sd': 'http://www.w3.org/ns/sparql-service-description#',
    'sioc': 'http://rdfs.org/sioc/ns#',
    'skos': 'http://www.w3.org/2004/02/skos/core#',
    'skosxl': 'http://www.w3.org/2008/05/skos-xl#',
    'sosa': 'http://www.w3.org/ns/sosa/',
    'ssn': 'http://www.w3.org/ns/ssn/',
    'time': 'http://www.w3.org/2006/time#',
    'v': 'http://rdf.data-vocabulary.org/#',
    'vcard': 'http://www.w3.org/2006/vcard/ns#',
    'void': 'http://rdfs.org/ns/void#',
    'wdr': 'http://www.w3.org/2007/05/powder#',
    'wrds': 'http://www.w3.org/2007/05/powder-s#',
    'xhv': 'http://www.w3.org/1999/xhtml/vocab#',
    'xml': 'http://www.w3.org/XML/1998/namespace',
}
REQUIRED += ['prefix:' + p for p in PREFIXES]
# datatype -> (text, canonical representation)
TYPED = {
    'integer': [('5', '5'), ('0', '0'), ('-12', '-12'), ('007', '7')],
    'boolean': [('true', 'true'), ('1', 'true'), ('0', 'false')],
    'decimal': [('1.50', '1.50'), ('-3', '-3')],
    'date': [('2018-12-10', '2018-12-10'), ('0999-01-02', '0999-01-02')],
    'time': [('10:05:07', '10:05:07')],
    'dateTime': [('2018-12-10T10:05:07', '2018-12-10T10:05:07')],
    'duration': [('P1DT2H', 'P1DT2H'), ('P3Y', 'P3Y')],
    'anyURI': [('http://x.org/a?b', 'http://x.org/a?b'), ('a/b', 'a/b')],
    'hexBinary': [('00FF', '00FF')],
    'base64Binary': [('YWI=', 'YWI=')],
}
UNRESERVED = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~')
RESERVED = set(":/?#[]@!$&'()*+,;=")
NAMES = ['a', 'b', 'c', 'd', 'zz']


def gen(rng):
    if rng.random() < .2:
        return dict(kind='link', base=rng.choice([
            'http://example.org/a/b/md.json', 'http://example.org', 'https://example.org/x?y=1', 'http://h/a/;p/q',
            'dir', 'file', 'http://example.org/a/']), link=ref(rng))
    row, types = {}, {}
    for n in NAMES[:4]:
        k = rng.random()
        if k < .15:
            row[n] = None
        elif k < .25:
            row[n] = ''
        elif k < .45:
            row[n] = [t(rng) or 'e' for _ in range(rng.randint(1, 3))]
        elif k < .65:
            types[n] = rng.choice(sorted(TYPED))
            row[n] = list(rng.choice(TYPED[types[n]]))
        else:
            row[n] = t(rng)
    return dict(kind='expand', row=row, types=types, tmpl=template(rng), base=rng.choice(['url', 'url', 'file', 'none']),
                turl=rng.choice(['t.csv', 't.csv', 'sub/t.csv', 'http://example.org/data/x.csv']),
                n=rng.randint(1, 10 ** rng.randint(1, 4)), name=rng.choice(['col', 'c_1', 'x']),
                clash=rng.random() < .1, group=rng.random() < .1)


def t(rng):
    if rng.random() < .1:
        # looks like a prefixed name, but isn't, since only templates may be
        return rng.choice(['dc:x', 'schema:name', 'rdf:type', 'foaf:', 'xsd:a/b'])
    return ''.join(rng.choice('abcXYZ019 -._~/?#&=+,;:!é€') for _ in range(rng.randint(1, 6)))


def ref(rng):
    return rng.choice([
        'x', 'x/y.csv', '../x', './x', '../../../x', '/abs/x', '//host/p', '?q=1', '#frag', 'x?y#z', 'a/../b', '.', '..',
        'http://example.com/x', 'https://example.com/../y', 'x y', 'é', 'a/./b/', ';p', 'x;p=1?q'])


def template(rng):
    k = rng.random()
    s = ''
    if rng.random() < .05:
        return '{+%s}' % rng.choice(NAMES[:4]) + rng.choice(['', 'x', '{b}'])
    if k < .3:
        s = rng.choice(['http://example.org/', 'https://e.com/a?x=1&y', 'http://schema.org/', 'http://purl.org/dc/terms/',
                        'http://example.org/http://schema.org/', 'http://schema.org/http://schema.org/'])
    elif k < .5:
        s = rng.choice(sorted(PREFIXES)) + ':'
    elif k < .7:
        s = rng.choice(['#', '/', '../', 'x/', '?q=', './y/', 'p/../'])
    for _ in range(rng.randint(0 if s else 1, 3)):
        if rng.random() < .3:
            s += rng.choice(['x', '/y', '-', 'n:m', 'Zz'])
        else:
            vs = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                v = rng.choice(NAMES + ['_row', '_name'])
                k = rng.random()
                vs.append(v + ('*' if k < .2 else ':%d' % rng.randint(1, 4) if k < .35 and v != '_row' else ''))
            s += '{' + rng.choice(OPS) + ','.join(vs) + '}'
    return s


def quote(v, keep):
    return ''.join(c if c in UNRESERVED or c in keep else ''.join('%%%02X' % b for b in c.encode('utf8')) for c in v)


def rfc6570(tmpl, env, mon=None):
    out, i = '', 0
    while i < len(tmpl):
        if tmpl[i] != '{':
            out += tmpl[i]
            i += 1
            continue
        j = tmpl.index('}', i)
        body, i = tmpl[i + 1:j], j + 1
        op = ''
        if body[0] in '+#./;?&':
            op, body = body[0], body[1:]
        first, sep, named, ifemp, keep = {
            '': ('', ',', False, '', ()), '+': ('', ',', False, '', RESERVED), '#': ('#', ',', False, '', RESERVED),
            '.': ('.', '.', False, '', ()), '/': ('/', '/', False, '', ()), ';': (';', ';', True, '', ()),
            '?': ('?', '&', True, '=', ()), '&': ('&', '&', True, '=', ())}[op]
        if mon:
            mon.cover('op:' + op)
        parts = []
        for spec in body.split(','):
            explode = spec.endswith('*')
            name, _, prefix = spec.rstrip('*').partition(':')
            v = env.get(name)
            if mon:
                mon.cover(*(['explode'] if explode and isinstance(v, list) else []), *(['prefix'] if prefix else []),
                          *([name] if name[0] == '_' else []),
                          'undefined' if v is None else 'empty' if v == '' else
                          'list' if isinstance(v, list) else 'scalar')
            if v is None:
                continue
            if isinstance(v, list):
                if explode:
                    parts.append(sep.join((name + '=' if named else '') + quote(x, keep) for x in v))
                else:
                    parts.append((name + '=' if named else '') + ','.join(quote(x, keep) for x in v))
                continue
            if prefix:
                v = v[:int(prefix)]
            s = quote(v, keep)
            if named:
                s = name + ('=' + s if v else ifemp)
            parts.append(s)
        if parts:
            out += first + sep.join(parts)
    return out


def split(u):
    u, h, frag = u.partition('#')
    u, q, query = u.partition('?')
    scheme = auth = None
    head, c, tail = u.partition(':')
    if c and head and head[0].isalpha() and all(x.isalnum() or x in '+-.' for x in head) and head.isascii():
        scheme, u = head, tail
    if u.startswith('//'):
        auth, slash, rest = u[2:].partition('/')
        u = slash + rest
    return scheme, auth, u, query if q else None, frag if h else None


def rfc3986(base, r):
    bs, ba, bp, bq, _ = split(base)
    s, a, p, q, f = split(r)
    if s is not None:
        p = dots(p) if a is not None else p
    else:
        s = bs
        if a is None:
            a = ba
            if p == '':
                p = bp
                q = bq if q is None else q
            else:
                if not p.startswith('/'):
                    p = ('/' + p) if ba is not None and not bp else bp.rpartition('/')[0] + '/' + p
                p = dots(p)
        else:
            p = dots(p)
    return (s + ':' if s else '') + ('//' + a if a is not None else '') + p + \
        ('?' + q if q is not None else '') + ('#' + f if f is not None else '')


def dots(p):
    out = []
    segs = p.split('/')
    for i, s in enumerate(segs):
        last = i == len(segs) - 1
        if s == '..':
            if len(out) > 1:
                out.pop()
            if last:
                out.append('')
        elif s == '.':
            if last:
                out.append('')
        else:
            out.append(s)
    return '/'.join(out)


def odd(u):
    """References with empty components, which urllib normalizes away."""
    return u.endswith(('#', '?', ';')) or any(x in u for x in [';?', ';#', '?#', '[', ']', '//?', '//#']) or \
        '#' in u.partition('#')[2]


def run(case, mon, work):
    if case['kind'] == 'link':
        mon.cover('link')
        link = case['link']
        if '..' in link:
            mon.cover('dots')
        if case['base'] in ('dir', 'file'):
            d = work / 'd'
            d.mkdir()
            (d / 'md.json').write_text('{}')
            got = Link(link).resolve(d if case['base'] == 'dir' else d / 'md.json')
            if link.startswith('http'):
                mon.eq(got, link, 'absolute URL changed')
            else:
                mon.check(isinstance(got, pathlib.Path), 'no path', got=got)
                mon.eq(got, d / link, 'local link')
        else:
            got = Link(link).resolve(case['base'])
            if link.startswith('https:'):
                mon.eq(got, link, 'absolute URL changed')
            else:
                mon.eq(got, rfc3986(case['base'], link), 'resolved link')
        mon.event(case['base'], link, got)
        return

    row, types, tmpl = case['row'], case['types'], case['tmpl']
    cols, cells, env, values = [], [], {}, {}
    for n, v in row.items():
        c = {'name': n, 'null': ['NULL']}
        if n in types:
            c['datatype'] = types[n]
            text, env[n] = v
            values[n] = csvw.Datatype.fromvalue(types[n]).read(text)
            mon.cover('typed')
            cells.append(text)
        elif isinstance(v, list):
            c['separator'] = '|'
            env[n] = values[n] = v
            cells.append('|'.join(v))
        else:
            env[n] = values[n] = v
            cells.append('NULL' if v is None else v)
        cols.append(c)
    if case['clash']:
        mon.cover('clash')
        # Names which aren't legal for columns may still be found in the data.
        values = dict(values, _row='wrong', _name='wrong', var_dict='x', self='y')
    full = dict(env, _row=str(case['n']), _name=case['name'])
    md = {'url': case['turl'], 'tableSchema': {'columns': cols}}
    loc = case['base']
    mon.cover('base:' + loc)
    base = 'http://example.org/dir/md.json'
    if loc == 'url':
        table = csvw.Table.from_url(base, data=dict(md))
        tg = csvw.TableGroup.from_url(base, data={'tables': [dict(md)]})
        group_base = base
        base = rfc3986(base, case['turl'])
    elif loc == 'file':
        (work / 'md.json').write_text(json.dumps(md))
        table = csvw.Table.from_file(work / 'md.json')
        (work / 'g.json').write_text(json.dumps({'tables': [md]}))
        tg = csvw.TableGroup.from_file(work / 'g.json')
        base = case['turl'] if '//' in case['turl'] else (work / case['turl']).parent
        group_base = work
    else:
        table = csvw.Table.fromvalue(json.loads(json.dumps(md)))
        tg = csvw.TableGroup.fromvalue(json.loads(json.dumps({'tables': [md]})))
        base = case['turl']
        group_base = ''
    what = table if not case['group'] else tg.tables[0]
    if case['group']:
        mon.cover('group')
    expanded = rfc6570(tmpl, full, mon)
    prefix = tmpl.split(':')[0]
    for qname in [False, True]:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            got = what.expand(URITemplate(tmpl), values, case['n'], _name=case['name'], qname=qname)
        if ':' in tmpl and prefix in PREFIXES:
            mon.cover('qname', 'prefix:' + prefix)
            if '{' in tmpl:
                mon.cover('qname-vars')
            if ':' in expanded[len(prefix) + 1:]:
                mon.cover('colon-in-qname')
            want = PREFIXES[prefix] + expanded[len(prefix) + 1:]
        elif expanded.startswith(('http://', 'https://')):
            mon.cover('absolute')
            if '/../' in expanded or '/./' in expanded or expanded.endswith(('/.', '/..')) or odd(expanded):
                mon.count('skipped')
                return
            want = expanded
        elif isinstance(base, pathlib.Path):
            want = str(work / case['turl']) + expanded if expanded[:1] in ('', '#', '?') else str(base / expanded)
        else:
            mon.cover('relative')
            if expanded.startswith('?'):
                mon.cover('query-only')
            if expanded.split(':')[0] in PREFIXES and ':' in expanded and not odd(expanded) and '/' not in expanded:
                mon.cover('qname-value')
                mon.eq(got, expanded, 'a value is expanded as prefixed name', tmpl=tmpl, values=values)
            if odd(expanded) or '//' in expanded or ':' in expanded.split('/')[0] or loc == 'none' or '/;' in expanded \
                    or any(s.split(';')[0] in ('.', '..') for s in
                           expanded.split('?')[0].split('#')[0].split('/')[-1:]):
                # Not resolved in the way of the specification by urllib; and no concern of csvw.
                if loc == 'none' and '/' not in case['turl'] and '.' not in expanded and ':' not in expanded \
                        and expanded and expanded[0] not in '#?/;' and '//' not in expanded \
                        and not odd(expanded):
                    mon.eq(got, expanded, 'expansion without location')
                mon.count('skipped')
                return
            want = rfc3986(base, expanded)
        if qname and isinstance(want, str):
            for p, u in PREFIXES.items():
                if want.startswith(u):
                    want = p + ':' + want[len(u):]
                    mon.cover('compacted')
                    break
            else:
                mon.cover('not-compacted')
        mon.eq(got, want, 'expanded template differs', tmpl=tmpl, base=base, values=values, qname=qname)
    mon.event(tmpl, '->', got)

    # virtual columns
    if loc == 'file' and '//' not in case['turl'] and not case['clash'] and '_row' not in tmpl and '_name' not in tmpl:
        mon.cover('virtual')
        md['tableSchema']['columns'].append({'name': 'virt_col', 'virtual': True, 'valueUrl': tmpl})
        t2 = csvw.Table.fromvalue(json.loads(json.dumps(md)))
        lines = [','.join(c['name'] for c in cols[:-1]),
                 ','.join('"' + c.replace('"', '""') + '"' for c in cells)]
        rows = list(t2.iterdicts(fname=lines))
        mon.eq(len(rows), 1, 'rows')
        mon.eq(rows[0]['virt_col'], rfc6570(tmpl, env), 'virtual column', tmpl=tmpl)
    assert group_base is not None
