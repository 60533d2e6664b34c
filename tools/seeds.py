#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions in seeds_spec*.py and confirms each in a scratch copy.
usage: seeds.py [--verify] [ids...]"""
import sys, os, json, shutil, subprocess, tempfile, glob, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
KIT = os.path.join(V, 'tools', 'seedkit')
SPEC = {}
for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeds_spec*.py'))):
    for s in importlib.import_module(os.path.basename(f)[:-3]).SEEDS:
        assert s['id'] not in SPEC, s['id']
        SPEC[s['id']] = s

def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def make(s, scratch):
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    run(['git', '-C', scratch, 'checkout', '-q', '--', '.'])
    for path, old, new in s['edits']:
        p = os.path.join(scratch, path)
        t = open(p).read()
        if t.count(old) != 1:
            return '%s: %s: text found %d times' % (s['id'], path, t.count(old))
        open(p, 'w').write(t.replace(old, new))
    diff = run(['git', '-C', scratch, 'diff']).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    run(['git', '-C', scratch, 'checkout', '-q', '--', '.'])
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.cpp'), 'w').write('#include "demo.hpp"\n' + s['demo'].lstrip('\n') if not s.get('raw') else s['demo'].lstrip('\n'))
    shutil.copy(os.path.join(KIT, 'demo.hpp'), d)
    sh = open(os.path.join(KIT, 'demo.sh')).read().replace(' @EXTRA@', (' ' + s['flags']) if s.get('flags') else '')
    if s.get('san') is not None: sh = sh.replace('-fsanitize=address,undefined -fno-sanitize-recover=all', s['san']).replace('  ', ' ')
    if s.get('pmr'): # a copy in which the compatibility memory resources are selected
        sh = sh.replace('flags=', 'mkdir "$tmp/r" && cp -r "$repo/code" "$tmp/r/" && repo="$tmp/r" || exit 3\nsed -i "s/DYNAMIX_FORCE_PMR_COMPAT 0/DYNAMIX_FORCE_PMR_COMPAT 1/" "$repo/code/dynamix/compat/pmr/pmr.hpp"\nflags=', 1)
    open(os.path.join(d, 'demo.sh'), 'w').write(sh)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    sd = os.path.join(d, 'shim')
    if os.path.exists(sd): shutil.rmtree(sd)
    shutil.copytree(os.path.join(V, 'shim'), sd)
    if s.get('v1'): shutil.copy(os.path.join(V, 'tools', 'v1gen.py'), d)
    return None

def verify(s, scratch):
    d = os.path.join(V, 'seeded', s['id'])
    r = run(['bash', os.path.join(d, 'demo.sh')], cwd=scratch)
    if r.returncode: return 'demo fails on the unchanged tree:\n' + r.stdout[-3000:]
    r = run(['git', '-C', scratch, 'apply', os.path.join(d, 'patch.diff')])
    if r.returncode: return 'does not apply'
    try:
        r = run(['bash', os.path.join(d, 'demo.sh')], cwd=scratch)
        if r.returncode == 0: return 'demo passes with the patch'
        if r.returncode == 3: return 'demo does not build with the patch\n' + r.stdout[-2000:]
        last = [l for l in r.stdout.splitlines() if 'FAILED' in l or 'ERROR' in l or 'Assertion' in l or 'runtime error' in l][:1]
        # the existing tests: those of the baseline build from standalone headers
        blame = run(['git', '-C', scratch, 'diff', '-U0']).stdout
        return ('ok', (last or r.stdout.splitlines()[-1:])[0][:150])
    finally:
        run(['git', '-C', scratch, 'checkout', '-q', '--', '.'])

def main():
    args = sys.argv[1:]
    ver = '--verify' in args
    ids = [a for a in args if not a.startswith('--')] or sorted(SPEC)
    scratch = tempfile.mkdtemp(prefix='seeds')
    try:
        run(['git', 'clone', '-q', '/repo', scratch + '/r'])
        sc = scratch + '/r'
        bad = 0
        for i in ids:
            e = make(SPEC[i], sc)
            if e: print('BAD', e); bad += 1; continue
            if ver:
                r = verify(SPEC[i], sc)
                if isinstance(r, tuple): print('ok ', i, r[1], flush=True)
                else: print('BAD', i, r, flush=True); bad += 1
            else: print('made', i)
        return 1 if bad else 0
    finally:
        shutil.rmtree(scratch)
sys.exit(main())
