"""usage: seed_validate.py SPEC.py [ID...]   Validate candidate planted bugs and store the good ones in /verif/seeded.

SPEC.py defines SEEDS = [dict(id, property, file, old, new, demo, needs, breaks)].  Scratch copies live under /tmp/seedwork."""
import json, os, runpy, shutil, subprocess, sys
PY = '/opt/venv/bin/python'
WORK = '/tmp/seedwork'
ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
ENV.pop('PYTHONPATH', None)
BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def sh(cmd, cwd, timeout=900):
    try:
        return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, 'timeout', '')


def tests(repo, out):
    os.makedirs(out, exist_ok=True)
    base = [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '4', '--continue-on-collection-errors', '--tb=line', '--show-capture=no', '-W', 'ignore', '-o', 'junit_family=xunit2', '-o', 'junit_logging=no']
    slow = ['tests/test_conjectures_signed.py', 'tests/test_conjectures_operators.py', 'tests/test_conjectures_fpf.py', 'tests/test_crystals.py', 'tests/test_symmetric.py']
    runs = [base + ['--timeout=300', '--junitxml=%s/default.xml' % out, '-m', 'not slow', 'tests'],
            base + ['--timeout=600', '--junitxml=%s/slow.xml' % out, '--runslow', '-m', 'slow'] + slow]
    ps = [subprocess.Popen(r, cwd=repo, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL) for r in runs]
    for p in ps:
        try:
            p.wait(1500)
        except subprocess.TimeoutExpired:
            p.kill()
    r = sh(['/usr/bin/python3', '/opt/vp/results.py', out + '/res.json', 'junit:%s/*.xml' % out], repo)
    res = json.load(open(out + '/res.json'))
    return [t for t in BASE if t not in res['passed']]


def main():
    specs = runpy.run_path(sys.argv[1])['SEEDS']
    only = sys.argv[2:]
    for s in specs:
        if only and s['id'] not in only:
            continue
        dest = os.path.join(os.environ.get('SEED_DEST', '/verif/seeded'), s['id'])
        if os.path.exists(dest):
            continue
        w = os.path.join(WORK, s['id'])
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        repo = w + '/repo'
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        d = w + '/demo'
        os.makedirs(d)
        open(d + '/demo.py', 'w').write('import os\nimport sys\nsys.path.insert(0, os.getcwd())\n' + s['demo'].strip() + '\nprint("ok")\n')
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nexec "$PY" "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        r = sh(['bash', d + '/demo.sh'], repo, 280)
        if r.returncode:
            print(s['id'], 'REJECT demo fails on clean tree', r.stdout[-800:], flush=True)
            shutil.rmtree(w)
            continue
        edits = s.get('edits') or [(s['file'], s['old'], s['new'])]
        ok = True
        for f, old, new in edits:
            p = os.path.join(repo, f)
            text = open(p).read()
            if text.count(old) != 1:
                print(s['id'], 'REJECT pattern occurs %d times in %s' % (text.count(old), f), flush=True)
                ok = False
                break
            open(p, 'w').write(text.replace(old, new))
        if not ok:
            shutil.rmtree(w)
            continue
        diff = subprocess.run(['git', 'diff'], cwd=repo, stdout=subprocess.PIPE, text=True).stdout
        r = sh(['bash', d + '/demo.sh'], repo, 280)
        if r.returncode == 0:
            print(s['id'], 'REJECT demo passes with the patch', flush=True)
            shutil.rmtree(w)
            continue
        tail = r.stdout.strip().splitlines()[-1:] or ['']
        bad = tests(repo, w + '/out')
        if bad:
            print(s['id'], 'REJECT tests fail:', bad[:4], len(bad), flush=True)
            shutil.rmtree(w)
            continue
        shutil.copytree(d, dest)
        shutil.rmtree(dest + '/__pycache__', ignore_errors=True)
        open(dest + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(dest + '/meta.json', 'w'), indent=1)
        print(s['id'], 'ACCEPT', tail[0][:120], flush=True)
        shutil.rmtree(w)


main()
