"""Development aid: store a planted bug in seeded/ after confirming what is required of it.

Used as module: plant(id, property, needs, breaks, demo, (file, old, new), ...).
As script: re-confirm the planted bugs named on the command line (default: all) and run the checks of
their properties against them, with "-x" the checks of all properties.
"""
import json
import pathlib
import subprocess
import sys

REPO = pathlib.Path('/repo')
SEEDED = pathlib.Path(__file__).parent.parent / 'seeded'
ROOT = 'c0a8517d81e21997f9137f8d31b28f473793b101'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def undo():
    sh('git -C /repo checkout -- .')


def original_lines(diff):
    """Number of removed lines per file which are lines of the original."""
    n = 0
    path, ln = None, None
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            path = line[6:]
            blame = sh(['git', '-C', '/repo', 'blame', '-l', '-s', 'HEAD', '--', path]).stdout.splitlines()
        elif line.startswith('@@'):
            ln = int(line.split()[1][1:].split(',')[0])
        elif line.startswith('-') and not line.startswith('---'):
            if blame[ln - 1].lstrip('^').startswith(ROOT[:30]):
                n += 1
            else:
                print('   not an original line:', line)
            ln += 1
        elif line.startswith(' '):
            ln += 1
    return n


def confirm(sid, checks=None, tiers=('quick',)):
    d = SEEDED / sid
    meta = json.loads((d / 'meta.json').read_text())
    assert not sh('git -C /repo status --porcelain').stdout, 'dirty /repo'
    demo = ['bash', str(d / 'demo.sh')]
    ok = True
    r = sh(demo, cwd=REPO)
    if r.returncode:
        print(sid, 'DEMO FAILS ON UNCHANGED TREE', r.stdout[-800:], r.stderr[-800:])
        ok = False
    sh('find /repo/src -name __pycache__ -prune -exec rm -r {} +')
    r = sh(['git', '-C', '/repo', 'apply', str(d / 'patch.diff')])
    if r.returncode:
        print(sid, 'DOES NOT APPLY', r.stderr)
        return False
    try:
        if not original_lines((d / 'patch.diff').read_text()):
            print(sid, 'NO ORIGINAL LINES')
            ok = False
        r = sh('bash /opt/vp/test.sh /tmp/plant%d.json' % __import__('os').getpid() + '')
        if ' passed, 0 failed' not in r.stdout:
            print(sid, 'TESTS FAIL', r.stdout.strip().splitlines()[-12:])
            ok = False
        r = sh(demo, cwd=REPO)
        if not r.returncode:
            print(sid, 'DEMO PASSES WITH PATCH')
            ok = False
        res = {}
        for c in checks or [meta['property']]:
            r = sh(['/verif/check', c])
            res[c] = 'CAUGHT' if 'VIOLATION property=%s' % c in r.stdout and r.returncode == 1 else \
                'missed' if r.returncode == 0 else 'rc=%s' % r.returncode
        record = SEEDED.parent / 'tools' / 'caught.json'
        caught = json.loads(record.read_text()) if record.exists() else {}
        by = caught.setdefault(sid, {'by': []})
        by['by'] = sorted((set(by['by']) - set(res)) | {k for k, v in res.items() if v == 'CAUGHT'})
        if res.get(meta['property']) == 'missed':
            by['late'] = True  # needed a stronger check
        record.write_text(json.dumps(caught, indent=1, sort_keys=True) + '\n')
        print(sid, 'ok' if ok else 'NOT OK', {k: v for k, v in res.items() if checks is None or v != 'missed'} or 'missed', flush=True)
    finally:
        undo()
    return ok


def plant(sid, prop, needs, breaks, demo, *edits):
    undo()
    for path, old, new in edits:
        p = REPO / 'src/csvw' / path
        s = p.read_text(encoding='utf8')
        assert s.count(old) == 1, (sid, s.count(old), old)
        p.write_text(s.replace(old, new), encoding='utf8')
    diff = sh('git -C /repo diff').stdout
    undo()
    d = SEEDED / sid
    d.mkdir(exist_ok=True, parents=True)
    (d / 'patch.diff').write_text(diff)
    (d / 'meta.json').write_text(json.dumps({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, indent=1) + '\n')
    (d / 'demo.py').write_text(demo.strip() + '\n')
    (d / 'demo.sh').write_text('#!/bin/bash\nexec env PYTHONPYCACHEPREFIX=/nonexistent-pycache /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    return confirm(sid)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if a != '-x']
    everything = sorted(p.stem.upper() for p in (SEEDED.parent / 'harness/props').glob('[a-z]*.py'))
    bad = [s for s in args or sorted(p.name for p in SEEDED.iterdir())
           if not confirm(s, everything if '-x' in sys.argv else None)]
    print('BAD:', bad)
