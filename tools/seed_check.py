"""usage: seed_check.py [ID...]   Run the quick check of each planted bug's property on a patched clone; prints a table row per bug."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = '/tmp/seedcheck'


def main():
    ids = sys.argv[1:] or sorted(os.listdir(ROOT + '/seeded'))
    for i in ids:
        d = ROOT + '/seeded/' + i
        meta = json.load(open(d + '/meta.json'))
        repo = WORK + '/' + i
        shutil.rmtree(repo, ignore_errors=True)
        os.makedirs(WORK, exist_ok=True)
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=repo, check=True)
        ok = original_lines(repo)
        r = subprocess.run(['./check', meta['property'], 'quick'], cwd=ROOT, env=dict(os.environ, VP_REPO=repo), capture_output=True, text=True)
        caught = r.returncode == 1 and 'VIOLATION property=' + meta['property'] in r.stdout
        lines = [l for l in r.stdout.splitlines() if l and not l.startswith(' ') and 'tier=' not in l and 'VIOLATION' not in l and 'KNOWN' not in l]
        print('| %s | %s | %s | %s | %s |' % (i, meta['property'], 'yes' if caught else 'NO', meta['what_it_breaks'], (lines or [''])[0][:110].replace('|', '/')), '' if ok else 'ADDED-LINES', flush=True)
        shutil.rmtree(repo)


def original_lines(repo):
    """True if every changed line was in the original repository."""
    diff = subprocess.run(['git', 'diff', '-U0'], cwd=repo, capture_output=True, text=True).stdout
    name = None
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            name = l[6:]
            base = subprocess.run(['git', 'show', '7f0c4d3:' + name], cwd=repo, capture_output=True, text=True).stdout.splitlines()
        elif l.startswith('-') and l[1:].strip() and l[1:] not in base:
            return False
    return True


main()
