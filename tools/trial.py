#!/usr/bin/env python3
"""Runs the check of each planted bug's property against a scratch copy with the bug applied.
usage: trial.py [--all-props | --prop Cxx] [--seed N] [ids...]   (default: every bug, its own property)"""
import sys, os, json, shutil, subprocess, tempfile, time, argparse
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props_table import PROPS
ap = argparse.ArgumentParser()
ap.add_argument('ids', nargs='*'); ap.add_argument('--all-props', action='store_true'); ap.add_argument('--prop'); ap.add_argument('--seed', default='1')
ap.add_argument('--keep-build', default='/tmp/trial-build')
a = ap.parse_args()
ids = a.ids or sorted(os.listdir(os.path.join(V, 'seeded')))
root = tempfile.mkdtemp(prefix='trial')
try:
    for d in ('harness', 'shim', 'tools'): shutil.copytree(os.path.join(V, d), os.path.join(root, 'v', d))
    shutil.copy(os.path.join(V, 'known_findings.txt'), os.path.join(root, 'v'))
    subprocess.run(['git', 'clone', '-q', '/repo', os.path.join(root, 'repo')], check=True)
    repo = os.path.join(root, 'repo')
    for i in ids:
        d = os.path.join(V, 'seeded', i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        props = sorted(PROPS) if a.all_props else [a.prop or meta['property']]
        if subprocess.run(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')]).returncode: print(i, 'DOES NOT APPLY'); continue
        for p in props:
            if p not in PROPS: print('%-28s %s no check yet' % (i, p)); continue
            t = time.time()
            r = subprocess.run([sys.executable, os.path.join(root, 'v', 'tools', 'check.py'), p, '--seed', a.seed], env=dict(os.environ, VP_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            msg = ''
            if v:
                j = json.load(open(os.path.join(root, 'v', 'evidence', p + '.json')))
                msg = j['coverage'].get('violation', {}).get('message', '').replace('\n', ' ')[:110]
            st = 'caught' if r.returncode == 1 and v and 'property=' + p in v[0] else ('missed' if r.returncode == 0 else 'NO ANSWER %d %s' % (r.returncode, r.stdout[-300:]))
            print('%-28s %s %s %.0fs %s' % (i, p, st, time.time() - t, msg), flush=True)
        subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'])
finally:
    shutil.rmtree(root)
