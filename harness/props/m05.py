"""Markdown documentation of metadata."""
import io
import re
import json
import html
import argparse
import warnings
import contextlib
import unicodedata

import csvw
from csvw.__main__ import csvw2markdown
from csvw.utils import metadata2markdown
from harness import g, mdgen

RULE = ('Random valid table groups are rendered; the markdown is parsed into its sections and tables and compared '
        'with the document: one section per table in order, one row with three cells per column in order with name, '
        'property URL, effective datatype, choices, bounds, separator, description, key roles; all common '
        'properties; link targets exist. The command line tool must print the same.')
CASES = {'quick': 16000, 'thorough': 128000}
REQUIRED = ['tables', 'pk', 'fk', 'fk-schema', 'bounds', 'bound-zero', 'choices', 'regex', 'list', 'inherited',
            'unnamed', 'virtual', 'pipe', 'newline', 'props', 'description', 'structured', 'image-str', 'image-dict',
            'dialect', 'no-dialect', 'link_files', 'cli', 'title', 'no-title', 'structured-description', 'format-dict']

PREFIXES = {
    'csvw': 'http://www.w3.org/ns/csvw#',
    'rdf': 'http://www.w3.org/1999/02/22-rdf-syntax-ns#',
    'rdfs': 'http://www.w3.org/2000/01/rdf-schema#',
    'xsd': 'http://www.w3.org/2001/XMLSchema#',
    'dc': 'http://purl.org/dc/terms/',
    'dcat': 'http://www.w3.org/ns/dcat#',
    'prov': 'http://www.w3.org/ns/prov#',
}
REQUIRED += ['prefix:' + p for p in PREFIXES] + ['no-prefix', 'keys', 'order']


def gen(rng):
    md = mdgen.group(rng)
    for holder in [md] + md['tables']:
        while rng.random() < .4:
            k = rng.choice(sorted(PREFIXES) + ['foaf', 'schema', 'skos', 'dctypes', 'dc11', 'x', 'http']) + ':' + rng.choice(
                ['format', 'x', 'y', 'dc:x', 'x-dc:y', '//example.org/p', 'rdf:rdf:'])
            holder[k] = rng.choice(['x', 5, True, ['b', 'a', 'c'], {'prov:x': 'u', 'foaf:y': 2}, [{'dc:x': 'v'}, 'w'], '1|2', ['z', ['y', 'x']]])
    for holder in [md] + md['tables'] + [c for t in md['tables'] for c in t.get('tableSchema', {}).get('columns', [])]:
        if rng.random() < .25:
            holder['dc:description'] = rng.choice(['A text', 'a | b', 'two\nlines', 'é<b>', {'@value': 'x'}, ['a', 'b|c']])
        if 'columns' not in holder and rng.random() < .1:
            holder['https://schema.org/image'] = rng.choice([
                'http://x.org/i.png', {'https://schema.org/contentUrl': 'http://x.org/j.png',
                                       'https://schema.org/caption': 'Cap'}])
    for t in md['tables']:
        for c in t.get('tableSchema', {}).get('columns', []):
            if rng.random() < .2:
                c['datatype'] = rng.choice([
                    {'base': 'integer', 'minimum': 0, 'maximum': 10}, {'base': 'decimal', 'minimum': -2, 'maximum': 0},
                    {'base': 'string', 'format': 'a|b|c d'}, {'base': 'string', 'format': '[a|b]+'},
                    {'base': 'decimal', 'format': {'pattern': '0.0', 'decimalChar': ','}}])
                c.pop('separator', None)
            if rng.random() < .05:
                c['separator'] = '|'
    return dict(md=md, link=rng.random() < .5, files=[rng.random() < .5 for _ in md['tables']])


def slug(s):
    s = ''.join(c for c in unicodedata.normalize('NFD', s) if unicodedata.category(c) != 'Mn').lower()
    return re.sub('[^a-z0-9]', '', s)


def cells(line):
    return [c.replace('\\|', '|') for c in re.split(r'(?<!\\) \| ', line)]


def flat(s):
    return re.sub(r'\s*[\r\n]+\s*', ' ', s)


def scalars(v):
    if isinstance(v, dict):
        for x in v.values():
            if not isinstance(x, (dict, list)):
                yield html.escape(str(x))
    elif isinstance(v, list):
        for x in v:
            yield from scalars(x)
    else:
        yield str(v)


def check_props(mon, text, props, where):
    for k, v in props.items():
        if not v:
            continue
        if k == 'dc:description' and isinstance(v, str):
            mon.cover('description')
            mon.check(v in text, 'description is missing in ' + where, v=v, text=text)
        elif k.endswith('/image'):
            url = v if isinstance(v, str) else v['https://schema.org/contentUrl']
            mon.cover('image-str' if isinstance(v, str) else 'image-dict')
            cap = '' if isinstance(v, str) else v.get('https://schema.org/caption', '')
            mon.check('![{}]({})'.format(cap, url) in text, 'image is missing in ' + where, v=v, text=text)
        else:
            mon.cover('props')
            prefix, _, rest = k.partition(':')
            label = '[{}]({})'.format(k, PREFIXES[prefix] + rest) if prefix in PREFIXES else k
            mon.cover('prefix:' + prefix if prefix in PREFIXES else 'no-prefix')
            lines = [ln for ln in text.split('\n') if cells(ln)[0] == label]
            mon.eq(len(lines), 1, 'rows of property {} in {}'.format(k, where), text=text)
            c = cells(lines[0])
            mon.eq(len(c), 2, 'cells of the row of a property', line=lines[0])
            if isinstance(v, (dict, list)):
                mon.cover('structured')
            for s in scalars(v):
                mon.check(flat(s) in c[1], 'value of {} is missing in {}'.format(k, where), v=s, row=c)
            if isinstance(v, list) and all(isinstance(x, str) for x in v) and all(x.isalnum() for x in v):
                mon.cover('order')
                mon.eq(re.findall('<li>([^<]*)</li>', c[1]), v, 'items of {} in {}'.format(k, where))
            if isinstance(v, dict):
                mon.cover('keys')
                mon.eq(re.findall('<dt>(?:<a href="[^"]*">)?([^<]*)(?:</a>)?</dt>', c[1]), list(v), 'keys of the value of ' + k)
                for x, u in re.findall('<dt><a href="([^"]*)">([^<]*)</a>', c[1]):
                    mon.eq(x, PREFIXES.get(u.partition(':')[0]) + u.partition(':')[2], 'link of ' + u)


def run(case, mon, work):
    md = case['md']
    p = work / 'md.json'
    p.write_text(json.dumps(md))
    for t, f in zip(md['tables'], case['files']):
        if f:
            (work / t['url']).write_text('a\n1')
    tg = csvw.TableGroup.from_file(p)
    before = json.dumps(tg.asdict(omit_defaults=False), default=str)
    text = metadata2markdown(tg, link_files=case['link'])
    mon.eq(json.dumps(tg.asdict(omit_defaults=False), default=str), before, 'rendering changed the metadata')
    mon.check(text == metadata2markdown(tg, link_files=case['link']), 'rendering is not deterministic')
    if case['link']:
        mon.cover('link_files')
        mon.check('[md.json](md.json)' in text, 'no link to the metadata')
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            mon.eq(csvw2markdown(argparse.Namespace(url=str(p)), test=True), 0, 'exit code')
        mon.cover('cli')
        mon.eq(out.getvalue(), text + '\n', 'output of csvw2markdown differs')
    title = md.get('dc:title')
    mon.cover('title' if title else 'no-title')
    mon.check(text.startswith('# {}\n'.format(title if 'dc:title' in md else 'Dataset')), 'title', text=text[:200])
    sections = re.split(r'^## <a name="table-', text, flags=re.M)
    mon.eq(len(sections), len(md['tables']) + 1, 'number of sections')
    check_props(mon, sections[0], {k: v for k, v in md.items() if ':' in k and k != 'dc:title'}, 'group')
    anchors = [s.split('"')[0] for s in sections[1:]]
    for t, s, f in zip(md['tables'], sections[1:], case['files']):
        mon.cover('tables')
        head, _, body = s.partition('\n')
        url = t['url']
        mon.eq(head, '{}"></a>Table {}'.format(slug(url), '[{0}]({0})'.format(url) if f and case['link'] else url),
               'heading of table')
        desc, _, tab = body.partition('\n### Columns\n')
        check_props(mon, desc, {k: v for k, v in t.items() if ':' in k}, 'table')
        dialect = t['dialect'] if 'dialect' in t else md.get('dialect')
        m = re.search(r'CSV dialect\*\*: `(.*)`\n', desc)
        table = tg.tabledict[url]
        want = (table._get_dialect().asdict() or None) if dialect else None
        mon.eq(json.loads(m.group(1)) if m else None, json.loads(json.dumps(want)), 'dialect')
        mon.cover('dialect' if want else 'no-dialect')
        lines = [ln for ln in tab.split('\n') if ln]
        mon.eq(lines[0], 'Name/Property | Datatype | Description', 'head')
        schema = t.get('tableSchema', {})
        cols = schema.get('columns', [])
        mon.eq(len(lines) - 2, len(cols), 'number of rows describing columns', lines=lines)
        pk = schema.get('primaryKey') or []
        pk = [pk] if isinstance(pk, str) else pk
        fks = {}
        for fk in schema.get('foreignKeys', []):
            cr = fk['columnReference']
            cr = [cr] if isinstance(cr, str) else cr
            if 'resource' in fk['reference']:
                if len(cr) == 1:
                    fks[cr[0]] = fk['reference']
            else:
                mon.cover('fk-schema')
        for c, line in zip(cols, lines[2:]):
            cs = cells(line)
            mon.eq(len(cs), 3, 'cells in the row of a column', line=line)
            name, dt, text3 = cs
            if '\\|' in line:
                mon.cover('pipe')
            label = c.get('name')
            if c.get('virtual'):
                mon.cover('virtual')
            if not label:
                mon.cover('unnamed')
                tl = c['titles']
                label = tl if isinstance(tl, str) else tl[0] if isinstance(tl, list) else None
                label = label or '_col.{}'.format(cols.index(c) + 1)

            def eff(k):
                for h in (c, schema, t, md):
                    if k in h:
                        if h is not c:
                            mon.cover('inherited')
                        return h[k]
            pu = eff('propertyUrl')
            mon.eq(name, flat('[{}]({})'.format(label, pu) if pu else '`{}`'.format(label)), 'name of column')
            d = eff('datatype') or 'string'
            d = {'base': d} if isinstance(d, str) else d
            mon.check('`{}`'.format(d['base']) in dt, 'datatype', col=c, cell=dt)
            sep = eff('separator')
            mon.eq(dt.startswith('list of '), bool(sep), 'list-valued', col=c, cell=dt)
            if sep:
                mon.cover('list')
                mon.check('(separated by `{}`)'.format(sep) in dt, 'separator', cell=dt)
            for k, s in [('minimum', '&ge;'), ('maximum', '&le;')]:
                mon.eq(s in dt, k in d, 'bound shown', d=d, cell=dt)
                if k in d and d['base'] in ('integer', 'decimal'):
                    mon.cover('bounds', *(['bound-zero'] if float(d[k]) == 0 else []))
                    mon.check(re.search('{} {}(\\.0)?($|<| )'.format(s, re.escape(str(d[k]))), dt), 'bound', d=d, cell=dt)
            fmt = d.get('format')
            if isinstance(fmt, dict):
                mon.cover('format-dict')
            elif fmt and d['base'] == 'string':
                if 'choices' in dt:
                    mon.cover('choices')
                    mon.eq(re.findall('`([^`]*)`', dt.split('choices:')[1].split('(separated')[0]), fmt.split('|'), 'choices', cell=dt)
                else:
                    mon.cover('regex')
                    mon.check('Regex: `{}`'.format(fmt) in dt, 'regex', cell=dt)
            de = c.get('dc:description')
            if de and isinstance(de, str):
                if '\n' in de:
                    mon.cover('newline')
                mon.check(flat(de) in text3, 'description of column', d=de, cell=text3)
            elif de:
                mon.cover('structured-description')
                for x in scalars(de):
                    mon.check(flat(x) in text3, 'description of column', d=de, cell=text3)
            ispk = 'name' in c and c['name'] in pk
            if ispk:
                mon.cover('pk')
            mon.eq('Primary key' in text3, ispk, 'primary key', cell=text3, col=c)
            r = fks.get(c.get('name'))
            mon.eq('References [' in text3, bool(r), 'foreign key', cell=text3)
            if r:
                mon.cover('fk')
                rc = r['columnReference']
                mon.check('References [{}::{}](#table-{})'.format(
                    r['resource'], rc if isinstance(rc, str) else rc[0], slug(r['resource'])) in text3, 'reference', cell=text3)
                mon.check(slug(r['resource']) in anchors, 'dangling link')
        mon.event(url, len(cols), 'columns')
