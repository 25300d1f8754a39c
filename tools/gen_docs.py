#!/opt/venv/bin/python
"""Write properties.jsonl and MANIFEST.json from tools/catalog.py (properties with a check)."""
import json
import pathlib
import sys

V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / 'tools'))
from catalog import P  # noqa

have = {p.stem.upper() for p in (V / 'harness' / 'props').glob('???.py')}
lines, checks = [], []
for pid, p in P.items():
    if pid not in have:
        print('no module yet:', pid)
        continue
    lines.append(json.dumps(dict(
        id=pid, title=p['title'], statement=p['statement'],
        quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
        anchors=dict(
            files=p['files'],
            mechanism=[dict(name=m, where=p['files'][min(i, len(p['files']) - 1)])
                       for i, m in enumerate(p['mech'])],
            observe_at=p['observe'] or ['public API results, raised exceptions, files written'],
            hook_needed=None)), ensure_ascii=False))
    checks.append(dict(
        property=pid,
        quick_cmd='./check {} --tier quick'.format(pid),
        thorough_cmd='./check {} --tier thorough'.format(pid),
        evidence_file='evidence/{}.json'.format(pid),
        technique='runtime monitoring: ' + p['note'],
        level='exploration',
        level_note='Held on the executions produced by the seeded workload (counts, buckets and '
                   'samples in the evidence file); decides nothing about inputs outside the '
                   'generators. Trusts the oracle in harness/props/{}.py.'.format(pid.lower())))
missing = have - set(P)
assert not missing, missing
(V / 'properties.jsonl').write_text('\n'.join(lines) + '\n')
(V / 'MANIFEST.json').write_text(json.dumps(dict(
    version=1,
    setup_cmd='/opt/venv/bin/python -B -c "import csvw, requests_mock, rdflib"',
    checks=checks, not_applicable=[],
    notes='No hooks in /repo: every monitor observes the public API, the file system, sqlite3, '
          'audit events and a recorded HTTP layer from the outside.'), indent=1) + '\n')
print(len(checks), 'checks')


# DESIGN.md
import importlib  # noqa

sys.path.insert(0, str(V))
mods = {pid: importlib.import_module('harness.props.' + pid.lower()) for pid in have}


text = (V / 'tools' / 'DESIGN.in.md').read_text()
props = []
for pid, p in P.items():
    if pid in have:
        m = mods[pid]
        cases, req = m.CASES, getattr(m, 'REQUIRED', [])
        props.append(
            '### {id} {title}\n\n*Oracle:* {note}.\n\n*Workload:* {rule}\n\n*Bounds:* {q} cases (quick), {t} (thorough) '
            'per seed; {n} coverage buckets must be reached.  *Anchors:* {mech} ({files}).\n\n'
            '*Beyond the tests:* {why}'.format(
                rule=m.RULE, q=cases['quick'], t=cases['thorough'], n=len(req),
                mech=', '.join('`%s`' % m for m in p['mech']),
                files=', '.join('`%s`' % f for f in p['files']), **{k: p[k] for k in ('id', 'title', 'note', 'why')}))
known = json.loads((V / 'known_findings.json').read_text())
fc = {}
for f in known['fixed']:
    k = f.split()[1].split('=')[1]
    fc[k] = fc.get(k, 0) + 1
caught = json.loads((V / 'tools' / 'caught.json').read_text())
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for sid in sorted(caught):
    c = caught[sid]
    meta = V / 'seeded' / sid / 'meta.json'
    if meta.exists():
        m = json.loads(meta.read_text())
        rows.append('| {}{} | {} | {} | {} |'.format(
            sid, '*' if c.get('late') else '', m['property'], ' '.join(m['needs'].split()).replace('|', '\\|'),
            ', '.join(c['by']) or '**missed**'))
for k, v in {
    'PROPERTIES': '\n\n'.join(props),
    'FINDINGS': '\n'.join('  * {id}: {what}.'.format(**f) for f in known['findings']),
    'NFIXED': str(len(known['fixed'])),
    'FIXCOUNT': ', '.join('{} {}'.format(k, n) for k, n in sorted(fc.items())),
    'SEEDED': '\n'.join(rows),
}.items():
    text = text.replace('@@' + k + '@@', v)
assert '@@' not in text
(V / 'DESIGN.md').write_text(text)
