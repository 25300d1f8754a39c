"""
Driver: runs one property's workload against the real code of /repo, decides three-valued.

exit 0  held on everything observed
exit 1  VIOLATION line printed
exit 2  inconclusive (harness error, deciding monitor not reached, watchdog)
"""
import os
import sys
import json
import time
import shutil
import signal
import random
import argparse
import tempfile
import importlib
import pathlib
import traceback
import collections
import warnings

VERIF = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [p for p in ['/repo/src', str(VERIF)] if p not in sys.path]

# Nothing may depend on the locale of the process either: babel reads these when imported.
os.environ['LC_TIME'] = 'xx_YY'
os.environ['LC_NUMERIC'] = 'de_DE'
# Third-party modules first (their bytecode caches are fine) ...
import attr, babel.numbers, babel.dates, isodate, rfc3986, dateutil.parser, jsonschema  # noqa
import requests, requests_mock, uritemplate, language_tags, rdflib, termcolor  # noqa
from rdflib import Graph
_g = Graph()
_g.add((rdflib.URIRef('http://x/a'), rdflib.URIRef('http://x/b'), rdflib.Literal('c')))
_g.serialize(format='json-ld')
babel.dates.format_datetime(__import__('datetime').datetime(2000, 1, 1), format='yyyy', tzinfo=None, locale='en')
# ... then make sure no stale .pyc of the code under test can be picked up.
sys.pycache_prefix = '/nonexistent-pycache'
sys.dont_write_bytecode = True
importlib.invalidate_caches()
import csvw  # noqa
import csvw.db, csvw.__main__, csvw.utils, csvw.jsonld, csvw.frictionless  # noqa
assert pathlib.Path(csvw.__file__).resolve() == pathlib.Path('/repo/src/csvw/__init__.py'), \
    csvw.__file__

from harness.core import (  # noqa
    Monitor, Violation, Inconclusive, CaseTimeout, StepBudget, case_hash, short)

CASE_WALL = 40          # seconds before a case is re-run under the step counter
ZONES = ['UTC0', 'CET-1CEST', 'EST5EDT', 'XYZ-13:45', 'GMT0BST', 'ABC11']
STEP_LIMIT = 100_000_000  # line events; a normal case needs < 1e6, a large one < 1e7


def load(pid):
    return importlib.import_module('harness.props.' + pid.lower())


def get_case(mod, pid, seed, i):
    """Case i of the workload: corpus first, then generated."""
    get_case.big = False
    corpus = mod.CORPUS if hasattr(mod, 'CORPUS') else []
    if i < len(corpus):
        return corpus[i]
    rng = random.Random('{}:{}:{}'.format(pid, seed, i))
    # A few cases are made of many rows, columns, tables, list items or long texts, see g.size.
    rng.big = random.Random('big:{}:{}:{}'.format(pid, seed, i)).random() < getattr(mod, 'BIG', .01)
    get_case.big = rng.big
    return mod.gen(rng)


def _alarm(signum, frame):
    raise CaseTimeout()


def step_limited(fn):
    n = [0]

    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
            if n[0] > STEP_LIMIT:
                raise StepBudget()
        return local

    def tracer(frame, event, arg):
        return local
    sys.settrace(tracer)
    try:
        return fn()
    finally:
        sys.settrace(None)


def run_case(mod, case, scratch):
    """-> (verdict, monitor, info); verdict in ok/violation/inconclusive"""
    mon = Monitor()

    def once(m):
        d = pathlib.Path(tempfile.mkdtemp(dir=scratch))
        tmp = d / 'tmp'
        work = d / 'w'
        tmp.mkdir()
        work.mkdir()
        old = os.getcwd(), tempfile.tempdir
        tempfile.tempdir = str(tmp)
        os.chdir(str(work))
        m.tmp = tmp
        # Nothing may depend on the timezone of the process.
        os.environ['TZ'] = ZONES[int(case_hash(case)[:8], 16) % len(ZONES)]
        time.tzset()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                mod.run(json.loads(json.dumps(case)), m, work)
        finally:
            os.chdir(old[0])
            tempfile.tempdir = old[1]
            shutil.rmtree(str(d), ignore_errors=True)

    def guarded(fn, m):
        try:
            fn()
        except Violation as e:
            return 'violation', dict(msg=e.msg, **{k: short(v, 2000) for k, v in e.detail.items()})
        except Inconclusive as e:
            return 'inconclusive', dict(msg=str(e))
        except MemoryError:
            return 'inconclusive', dict(msg='MemoryError')
        except OSError as e:
            if e.errno in (28, 23, 24, 12):
                return 'inconclusive', dict(msg=repr(e))
            return 'violation', dict(msg='unexpected exception ' + repr(e),
                                     trace=traceback.format_exc()[-3000:])
        except Exception as e:
            return 'violation', dict(msg='unexpected exception ' + short(repr(e)),
                                     trace=traceback.format_exc()[-3000:])
        return 'ok', {}

    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL)
    try:
        v, info = guarded(lambda: once(mon), mon)
        signal.setitimer(signal.ITIMER_REAL, 0)
        return v, mon, info
    except CaseTimeout:
        pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    # Too slow: decide on logical steps, not on the clock.
    mon = Monitor()
    signal.setitimer(signal.ITIMER_REAL, 240)
    try:
        v, info = step_limited(lambda: guarded(lambda: once(mon), mon))
        return v, mon, info
    except StepBudget:
        return 'violation', mon, dict(
            msg='no termination within {} executed lines (normal: < 1e7)'.format(STEP_LIMIT))
    except CaseTimeout:
        return 'inconclusive', mon, dict(msg='watchdog')
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker(mod, pid, seed, indices, scratch, out, deadline, stop_after):
    agg = dict(evaluations=0, checks=0, counters=collections.Counter(),
               buckets=collections.Counter(), nontrivial=[], samples=[], violations=[],
               inconclusive=[], skipped=0, slowest=(0, 0))
    for i in indices:
        if time.time() > deadline:
            agg['skipped'] += 1
            continue
        if len(agg['violations']) >= stop_after:
            break
        try:
            case = get_case(mod, pid, seed, i)
        except Exception:
            agg['inconclusive'].append((i, 'gen: ' + traceback.format_exc()[-1500:]))
            continue
        t = time.time()
        v, mon, info = run_case(mod, case, scratch)
        agg['slowest'] = max(agg['slowest'], (round(time.time() - t, 2), i))
        agg['evaluations'] += 1
        agg['counters']['large cases'] += get_case.big
        agg['checks'] += mon.checks
        agg['counters'].update(mon.counters)
        agg['buckets'].update(mon.buckets)
        if mon.checks:
            agg['nontrivial'].append(case_hash(case)[:16])
        if v == 'ok' and len(agg['samples']) < 1 and mon.checks > 1:
            agg['samples'].append(dict(
                case=short(json.dumps(case, ensure_ascii=True), 900), oracle_checks=mon.checks,
                observed=mon.log[:6]))
        if v == 'violation':
            agg['violations'].append(dict(index=i, case=case, info=info))
        elif v == 'inconclusive':
            agg['inconclusive'].append((i, info.get('msg')))
    agg['counters'] = dict(agg['counters'])
    agg['buckets'] = dict(agg['buckets'])
    pathlib.Path(out).write_text(json.dumps(agg))


def main():
    p = argparse.ArgumentParser()
    p.add_argument('pid')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    p.add_argument('--replay')
    p.add_argument('--case', type=int)
    p.add_argument('-n', type=int)
    p.add_argument('-v', action='store_true')
    args = p.parse_args()
    pid, t0 = args.pid, time.time()
    mod = load(pid)
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix='vf-{}-'.format(pid), dir=base)
    try:
        return _main(args, pid, mod, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(args, pid, mod, scratch, t0):
    if args.replay or args.case is not None:
        case = json.loads(pathlib.Path(args.replay).read_text())['case'] if args.replay \
            else get_case(mod, pid, args.seed, args.case)
        if args.v:
            print(json.dumps(case, indent=1))
        v, mon, info = run_case(mod, case, scratch)
        print(v, 'checks', mon.checks, dict(mon.buckets))
        for k, x in info.items():
            print(k, ':', x)
        for x in mon.log:
            print('  |', x)
        if v == 'violation':
            print('VIOLATION property={} replay={}'.format(pid, args.replay or args.case))
        return {'ok': 0, 'violation': 1}.get(v, 2)

    n = args.n or mod.CASES[args.tier]
    n += len(getattr(mod, 'CORPUS', []))
    budget = {'quick': 400, 'thorough': 3000}[args.tier]
    nw = min(8, os.cpu_count() or 4, max(1, n))
    pids, outs = {}, []
    deadline = t0 + budget
    for w in range(nw):
        out = os.path.join(scratch, 'out{}.json'.format(w))
        wdir = os.path.join(scratch, 'w{}'.format(w))
        os.mkdir(wdir)
        outs.append(out)
        sys.stdout.flush()
        pid_ = os.fork()
        if pid_ == 0:
            rc = 3
            try:
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                if not args.v:
                    os.dup2(devnull, 2)
                worker(mod, pid, args.seed, range(w, n, nw), wdir, out, deadline, 3)
                rc = 0
            except BaseException:
                pathlib.Path(out + '.err').write_text(traceback.format_exc())
            finally:
                os._exit(rc)
        pids[pid_] = w
    trouble = []
    hard = deadline + 330
    while pids:
        try:
            got, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if not got:
            if time.time() > hard:
                for q in pids:
                    os.kill(q, signal.SIGKILL)
                trouble.append('watchdog: workers killed')
                hard = float('inf')
            time.sleep(0.02)
            continue
        w = pids.pop(got)
        if status:
            err = pathlib.Path(outs[w] + '.err')
            trouble.append('worker {} status {} {}'.format(
                w, status, err.read_text()[-800:] if err.exists() else ''))
    agg = dict(evaluations=0, checks=0, counters=collections.Counter(),
               buckets=collections.Counter(), nontrivial=set(), samples=[], violations=[],
               inconclusive=[], skipped=0, slowest=[0, 0])
    for out in outs:
        if not os.path.exists(out):
            continue
        a = json.loads(pathlib.Path(out).read_text())
        for k in ('evaluations', 'checks', 'skipped'):
            agg[k] += a[k]
        agg['slowest'] = max(agg['slowest'], a['slowest'])
        agg['counters'].update(a['counters'])
        agg['buckets'].update(a['buckets'])
        agg['nontrivial'].update(a['nontrivial'])
        for k in ('samples', 'violations', 'inconclusive'):
            agg[k].extend(a[k])

    # Known findings: specific recorded inputs, reported but not alarms.
    findings = [f for f in json.loads((VERIF / 'known_findings.json').read_text())['findings']
                if f['property'] == pid]
    kf_seen, kf_gone = [], []
    for f in findings:
        v, mon, info = run_case(mod, f['case'], scratch)
        if v == 'violation' and f['expect'] in json.dumps(info):
            kf_seen.append(f)
            print('KNOWN-FINDING: property={} {}'.format(pid, f['what']))
        elif v == 'violation':
            agg['violations'].append(dict(index=-1, case=f['case'], info=info))
        elif v == 'ok':
            kf_gone.append(f['id'])
        else:
            agg['inconclusive'].append((f['id'], info.get('msg')))

    missing = []
    required = getattr(mod, 'REQUIRED', {})
    for b in required:
        if not agg['buckets'].get(b) and not agg['counters'].get(b):
            missing.append(b)
    nviol = len(agg['violations'])
    ev = dict(
        property=pid, tier=args.tier, seed=args.seed, level=getattr(mod, 'LEVEL', 'exploration'),
        coverage=dict(
            evaluations=agg['evaluations'],
            distinct_nontrivial=len(agg['nontrivial']),
            rule=mod.RULE,
            samples=agg['samples'][:3] or [dict(case='none held')],
            oracle_checks=agg['checks'],
            slowest_case=dict(zip(('seconds', 'case'), agg['slowest'])),
            observed={k: v for k, v in sorted(agg['counters'].items())},
            buckets={k: v for k, v in sorted(agg['buckets'].items())},
            buckets_required=sorted(required),
            buckets_missing=missing,
            cases_skipped_by_deadline=agg['skipped'],
            known_findings_observed=[f['id'] for f in kf_seen],
            known_findings_not_observed=kf_gone,
        ),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(time.time() - t0, 2),
        violations=nviol)
    (VERIF / 'evidence').mkdir(exist_ok=True)
    (VERIF / 'evidence' / (pid + '.json')).write_text(json.dumps(ev, indent=1))

    if nviol:
        rdir = VERIF / 'replays'
        rdir.mkdir(exist_ok=True)
        best = sorted(agg['violations'], key=lambda v: len(json.dumps(v['case'])))
        for k, viol in enumerate(best[:1]):
            path = rdir / '{}-{}-{}.json'.format(pid, args.seed, k)
            path.write_text(json.dumps(dict(property=pid, **viol), indent=1))
            print('# {}'.format(short(viol['info'].get('msg', ''), 500)))
            for kk, vv in viol['info'].items():
                if kk != 'msg':
                    print('#   {}: {}'.format(kk, short(vv, 1500) if kk != 'trace' else vv[-300:]))
            print('VIOLATION property={} replay={}'.format(pid, path))
        return 1
    if trouble or agg['inconclusive'] or missing or agg['skipped'] > 0.5 * n \
            or not agg['checks']:
        print('INCONCLUSIVE property={} trouble={} inconclusive={} missing={} skipped={}'.format(
            pid, trouble[:2], short(agg['inconclusive'][:2], 1500), missing, agg['skipped']))
        return 2
    print('HELD property={} tier={} cases={} distinct={} oracle_checks={} wall={:.1f}s'.format(
        pid, args.tier, agg['evaluations'], len(agg['nontrivial']), agg['checks'],
        time.time() - t0))
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
