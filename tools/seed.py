#!/usr/bin/env python3
"""seed.py FILE: FILE defines CANDS = [dict(id, property, edits=[(file, old, new)...], demo=python text, needs, breaks)].
For each candidate: makes the patch in a scratch copy of /repo, runs the demo on the clean and the patched copy and the
stable tests on the patched copy; keeps it under /verif/seeded/<id> when everything is confirmed."""
import sys, os, subprocess, shutil, tempfile, json, runpy
PY = '/opt/venv/bin/python'
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
only = sys.argv[2:]
notest = os.environ.get('NOTEST')


def demo_sh():
    return '#!/bin/bash\ncd "$(pwd)"\nexport PYTHONPATH="$(pwd)" TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=-1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


for c in runpy.run_path(sys.argv[1])['CANDS']:
    if only and c['id'] not in only:
        continue
    d = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
        R = d + '/repo'
        for i in range(len(c['edits'])):
            f, old, new = c['edits'][i]
            s = open(R + '/' + f).read()
            assert s.count(old) >= 1, (c['id'], 'absent', old)
            if s.count(old) > 1:
                print(c['id'], 'note: %d occurrences, first edited' % s.count(old))
            s = s.replace(old, new, 1)
            compile(s, f, 'exec')
            open(R + '/' + f, 'w').write(s)
        patch = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
        S = d + '/s'
        os.mkdir(S)
        open(S + '/demo.py', 'w').write(c['demo'].lstrip('\n'))
        open(S + '/demo.sh', 'w').write(demo_sh())
        os.chmod(S + '/demo.sh', 0o755)
        open(S + '/patch.diff', 'w').write(patch)
        json.dump(dict(property=c['property'], needs=c['needs'], what_it_breaks=c['breaks']), open(S + '/meta.json', 'w'), indent=1)
        a = subprocess.run(['bash', S + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        b = subprocess.run(['bash', S + '/demo.sh'], cwd=R, capture_output=True, text=True)
        print(c['id'], 'demo clean', a.returncode, 'patched', b.returncode, (a.stderr if a.returncode else b.stderr).strip().splitlines()[-1:], flush=True)
        if a.returncode or not b.returncode:
            print(c['id'], 'DROPPED: demo')
            continue
        if not notest:
            x = d + '/x.xml'
            env = dict(os.environ, PYTHONPATH=R, TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='-1', TF_USE_LEGACY_KERAS='1')
            env = dict(env)
            subprocess.run('. /opt/vp/env.sh; export PYTHONPATH=%s; cd %s; %s -m pytest tests -q -p no:cacheprovider -n 8 --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s' % (R, R, PY, x),
                           shell=True, capture_output=True, text=True, executable='/bin/bash')
            subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', d + '/o.json', 'junit:' + x], capture_output=True)
            o = json.load(open(d + '/o.json'))
            passed = set(o.get('passed') or [k for k, v in o.items() if v == 'passed'])
            bad = sorted(stable - passed)
            if bad:
                print(c['id'], 'DROPPED: tests fail', len(bad), bad[:3], flush=True)
                continue
        T = '/verif/seeded/' + c['id']
        shutil.rmtree(T, ignore_errors=True)
        shutil.copytree(S, T)
        print(c['id'], 'KEPT', flush=True)
    finally:
        shutil.rmtree(d)
