"""Writes /verif/seeded/<id>/ from tools/seeds/*.py specs and confirms each change in a scratch copy of /repo.

A spec file defines SEEDS: list of dicts(id, property, edits=[(file, old, new)...], needs, breaks, demo=python text).
usage: mkseeds.py SPECFILE [ID...] [--no-tests] [--no-checks]
Confirms: applies, demo passes on clean / fails on patched, stable tests pass on patched copy, records whether checks catch it.
"""
import sys; sys.path.insert(0, __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "seeds"))
import importlib.util, json, os, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; exit 0: the property holds for this input
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
mkdir "$W/home" "$W/tmp"
export HOME="$W/home" TMPDIR="$W/tmp" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONHASHSEED=0 MPLBACKEND=Agg
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
timeout -k 5 200 $PY -W ignore "$(dirname "$0")/demo.py"
'''
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def run_tests(copy):
    w = tempfile.mkdtemp()
    os.mkdir(w + '/home')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=copy, PYTHONHASHSEED='0', MPLBACKEND='Agg', HOME=w + '/home')
    sh('timeout -k 10 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60 --continue-on-collection-errors '
       '-W ignore --tb=short -o junit_family=xunit2 --junitxml=%s/junit.xml nephosem/tests' % w, cwd=copy, env=env)
    sh('/usr/bin/python3 /opt/vp/results.py %s/out.json junit:%s/junit.xml' % (w, w))
    res = json.load(open(w + '/out.json'))
    shutil.rmtree(w)
    passed = set(res.get('passed', []))
    return [t for t in STABLE if t not in passed]

def one(seed, tests=True, checks=True):
    d = tempfile.mkdtemp(prefix='seed.')
    os.chmod(d, 0o755)  # the shards run unprivileged
    try:
        copy = d + '/repo'
        sh('cp -a /repo %s' % copy)
        out = os.path.join(ROOT, 'seeded', seed['id'])
        os.makedirs(out, exist_ok=True)
        for f, old, new in seed['edits']:
            p = os.path.join(copy, f)
            t = open(p, encoding='utf-8', newline='').read()
            if t.count(old) != 1:
                return seed['id'], 'EDIT MATCHES %d TIMES: %r' % (t.count(old), old[:60])
            open(p, 'w', encoding='utf-8', newline='').write(t.replace(old, new))
        diff = sh('git -C %s diff' % copy).stdout
        base = sh('git -C %s diff 34e9741 HEAD' % copy).stdout
        added = {l[1:].strip() for l in base.splitlines() if l.startswith('+') and not l.startswith('+++')}
        mine = [l[1:].strip() for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        note = ' (changes only lines of fixes!)' if mine and all(m in added for m in mine if m) else ''
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(seed['demo'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': seed['property'], 'needs': seed['needs'], 'what_it_breaks': seed['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        clean = sh('bash %s/demo.sh' % out, cwd='/repo')
        bad = sh('bash %s/demo.sh' % out, cwd=copy)
        msg = []
        if clean.returncode != 0: msg.append('DEMO FAILS ON CLEAN: ' + (clean.stdout + clean.stderr)[-600:])
        if bad.returncode == 0: msg.append('DEMO PASSES ON PATCHED')
        if tests:
            lost = run_tests(copy)
            if lost: msg.append('TESTS LOST: %s' % lost)
        if checks:
            env = dict(os.environ, PBT_REPO=copy, VERIF_SEED=str(seed.get('seed', 1)))
            for p in [seed['property']] + list(seed.get('also', [])):
                if not os.path.exists(ROOT + '/pbt/checks/%s.py' % p.lower()):
                    msg.append('no check ' + p); continue
                ev = d + '/ev'
                r = sh('timeout 900 python3 %s/pbt/run.py %s 2>&1' % (ROOT, p), env=env)
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                msg.append('%s rc=%d %s' % (p, r.returncode, 'CAUGHT ' + v[0][-90:] if r.returncode == 1 and v else 'MISSED ' + r.stdout[-300:]))
        return seed['id'], ('; '.join(msg) or 'ok') + note + ('' if bad.returncode else '') + ' | demo: ' + (bad.stderr.strip().splitlines() or [''])[-1][:150]
    finally:
        shutil.rmtree(d)

def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    spec = importlib.util.spec_from_file_location('spec', args[0]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    seeds = [s for s in m.SEEDS if len(args) == 1 or s['id'] in args[1:]]
    with ThreadPoolExecutor(2 if '--no-checks' not in sys.argv else 6) as ex:
        for id_, msg in ex.map(lambda s: one(s, '--no-tests' not in sys.argv, '--no-checks' not in sys.argv), seeds):
            print(id_, ':', msg, flush=True)
main()
