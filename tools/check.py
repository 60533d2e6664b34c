#!/usr/bin/env python3
"""Builds the library from /repo's working tree with the harness of one property, runs it, writes the evidence.

usage: check.py <property> [--replay FILE] [--part NAME] [--cases N] [--seed N] [--tier T] [--jobs N]
       check.py --setup
exit 0: held; 1: VIOLATION line printed; 2: the check could not decide (build error, harness error)
"""
import sys, os, json, hashlib, subprocess, time, argparse, shutil, glob
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(V, 'build')
KNOWN = os.path.join(V, 'known_findings.txt')
sys.path.insert(0, os.path.join(V, 'tools'))
from props_table import PROPS, VARIANTS  # noqa

def sha(path):
    h = hashlib.sha256()
    with open(path, 'rb') as f:
        h.update(f.read())
    return h.hexdigest()

def parse_deps(d):
    with open(d) as f:
        t = f.read().replace('\\\n', ' ')
    t = t.split(':', 1)[1]
    out, cur = [], ''
    i = 0
    while i < len(t):
        if t[i] == '\\' and i + 1 < len(t) and t[i + 1] == ' ':
            cur += ' '; i += 2; continue
        if t[i].isspace():
            if cur: out.append(cur); cur = ''
        else:
            cur += t[i]
        i += 1
    if cur: out.append(cur)
    return out

def compile_one(job):
    src, obj, cmd = job
    side = obj + '.json'
    key = ' '.join(cmd)
    if os.path.exists(obj) and os.path.exists(side):
        try:
            j = json.load(open(side))
            if j['cmd'] == key and all(os.path.exists(p) and sha(p) == h for p, h in j['deps'].items()):
                return None
        except Exception:
            pass
    dep = obj + '.d'
    r = subprocess.run(cmd + ['-MD', '-MF', dep, '-c', src, '-o', obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return 'failed: %s\n%s' % (key + ' ' + src, r.stdout[-6000:])
    deps = [p for p in parse_deps(dep) if not p.startswith('/usr/')]
    json.dump({'cmd': key, 'deps': {p: sha(p) for p in deps}}, open(side, 'w'))
    return None

def sync_tree(src, dst, edit=None):
    """a copy of src in dst, touching only what differs"""
    want = {}
    for root, _, files in os.walk(src):
        for f in files:
            p = os.path.join(root, f)
            want[os.path.relpath(p, src)] = p
    for root, _, files in os.walk(dst):
        for f in files:
            if os.path.relpath(os.path.join(root, f), dst) not in want:
                os.unlink(os.path.join(root, f))
    for rel, p in want.items():
        data = open(p, 'rb').read()
        if edit: data = edit(rel, data)
        o = os.path.join(dst, rel)
        if os.path.exists(o) and open(o, 'rb').read() == data: continue
        os.makedirs(os.path.dirname(o), exist_ok=True)
        open(o, 'wb').write(data)

def build(prop):
    P = PROPS[prop]
    var = VARIANTS[P.get('variant', 'san')]
    vname = P.get('variant', 'san')
    vdir = os.path.join(BUILD, vname)
    odir = os.path.join(vdir, 'obj')
    os.makedirs(odir, exist_ok=True)
    code = os.path.join(REPO, 'code')
    if var.get('pmr_compat'):
        # the same sources with the compatibility memory resources selected
        code = os.path.join(vdir, 'code')
        os.makedirs(code, exist_ok=True)
        found = []
        def edit(rel, data):
            a = b'#define DYNAMIX_FORCE_PMR_COMPAT 0'
            if a in data:
                found.append(rel)
                return data.replace(a, b'#define DYNAMIX_FORCE_PMR_COMPAT 1')
            return data
        sync_tree(os.path.join(REPO, 'code'), code, edit)
        extra_def = [] if found else ['-DDYNAMIX_FORCE_PMR_COMPAT=1']
    else:
        extra_def = []
    mods = P.get('modules') or {}
    inc = ['-I' + code, '-I' + os.path.join(V, 'shim'), '-I' + os.path.join(V, 'harness')] + extra_def
    jobs = []
    def add(src, flags, lang):
        cc = ['g++', '-std=c++17'] if lang == 'cpp' else ['gcc', '-std=c11']
        cmd = cc + flags + inc
        obj = os.path.join(odir, os.path.basename(src).rsplit('.', 1)[0] + '-' + hashlib.sha256((src + ' '.join(cmd)).encode()).hexdigest()[:12] + '.o')
        jobs.append((src, obj, cmd))
    v1 = os.path.join(REPO, 'v1compat', 'code')
    if P.get('v1'):
        gen = os.path.join(vdir, 'gen')
        r = subprocess.run([sys.executable, os.path.join(V, 'tools', 'v1gen.py'), os.path.join(REPO, 'v1compat', 'gen'), gen], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return None, 'v1gen failed\n' + r.stdout
        inc += ['-I' + v1, '-I' + gen]
    # slow things first
    for h in P['src']:
        p = os.path.join(V, 'harness', 'props', h)
        fl = var['harness_machine'] if h == 'machine_parts.cpp' else var['harness']
        add(p, fl, 'c' if h.endswith('.c') else 'cpp')
    add(os.path.join(V, 'harness', 'props', 'main.cpp'), var['harness'], 'cpp')
    lib = sorted(glob.glob(os.path.join(code, 'dynamix', '**', '*.cpp'), recursive=True))
    for s in lib: add(s, var['lib'], 'cpp')
    for s in sorted(glob.glob(os.path.join(code, 'dnmx', '**', '*.c'), recursive=True)): add(s, var['lib'], 'c')
    if P.get('v1'):
        for s in sorted(glob.glob(os.path.join(v1, '**', '*.cpp'), recursive=True)): add(s, var['lib'], 'cpp')
    # plugins: name -> (sources, flags, plugins it is linked to)
    main_jobs, mod_jobs = jobs, {}
    if mods:
        for s in P['host']: add(os.path.join(V, 'harness', 'modules', s), var['harness'], 'cpp')
        for name, (srcs, flags, _) in mods.items():
            mod_jobs[name] = jobs = []
            for s in srcs:
                add(os.path.join(V, 'harness', 'modules', s), var['harness'] + ['-fPIC', '-fvisibility=hidden', '-fno-gnu-unique', '-DDYNAMIX_SHARED=1'] + flags, 'cpp')
    jobs = main_jobs
    todo = list({j[1]: j for l in [jobs] + list(mod_jobs.values()) for j in l}.values())
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(compile_one, todo) if e]
    if errs:
        return None, '\n'.join(errs[:3])
    for name, l in mod_jobs.items():
        so = '%s-%s.so' % (prop, name)
        r = subprocess.run(['g++', '-shared', '-Wl,-Bsymbolic', '-Wl,-soname,' + so, '-Wl,-rpath,$ORIGIN'] + var['link'] + [j[1] for j in l]
            + ['-L' + vdir] + ['-l:%s-%s.so' % (prop, d) for d in mods[name][2]] + ['-o', os.path.join(vdir, so)],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return None, 'link failed\n' + r.stdout[-6000:]
    exe = os.path.join(vdir, prop)
    r = subprocess.run(['g++'] + var['link'] + [j[1] for j in jobs] + ['-o', exe, '-lpthread'] + (['-rdynamic', '-ldl'] if mods else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, 'link failed\n' + r.stdout[-6000:]
    return exe, None

def known_for(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                out.append(l[len('known: property=%s ' % prop):])
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--replay'); ap.add_argument('--part'); ap.add_argument('--cases'); ap.add_argument('--jobs')
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--build-only', action='store_true')
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    if a.setup:
        for t in ('g++', 'gcc', 'python3'):
            if not shutil.which(t):
                print('missing tool', t); return 2
        # warms the object cache where the directory is kept; a check builds what it misses itself
        exe, err = build('C01')
        if err: print(err); return 2
        print('ready'); return 0
    prop = a.prop
    if prop not in PROPS:
        print('unknown property', prop); return 2
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    try: seed = int(a.seed)
    except ValueError: seed = int(hashlib.sha256(a.seed.encode()).hexdigest()[:8], 16)
    t0 = time.time()
    exe, err = build(prop)
    if err:
        print(err); return 2
    tb = time.time() - t0
    print('built in %.1f s' % tb, flush=True)
    if a.build_only: return 0
    rdir = os.path.join(V, 'replay')
    os.makedirs(rdir, exist_ok=True)
    env = dict(os.environ)
    if a.cases: env['VP_CASES'] = a.cases
    cmd = [exe, '--prop', prop]
    if a.replay:
        return subprocess.run(cmd + ['--replay', os.path.abspath(a.replay)], env=env).returncode
    out = os.path.join(BUILD, 'out-%s.json' % prop)
    if os.path.exists(out): os.unlink(out)
    cmd += ['--tier', tier, '--seed', str(seed), '--out', out, '--replay-dir', rdir, '--jobs', a.jobs or str(os.cpu_count() or 4)]
    if a.part: cmd += ['--part', a.part]
    known = known_for(prop)
    env['VP_KNOWN'] = ' '.join(k.split()[0] for k in known)
    rc = subprocess.run(cmd, env=env).returncode
    if not os.path.exists(out):
        print('the harness ended with %d and no result' % rc); return 2
    j = json.load(open(out))
    for k in known: print('KNOWN-FINDING: property=%s %s' % (prop, k))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': j['evaluations'], 'distinct_nontrivial': j['distinct_nontrivial'], 'discarded': j['discarded'],
            'rule': j['rule'] + '. Distinct: by the whole sequence of choices that makes the case.',
            'samples': j['samples'], 'parts': j['parts'],
        },
        'assumptions': PROPS[prop].get('assumptions', []) + [
            'compiled with gcc on x86-64 Linux with assertions on, under ' + VARIANTS[PROPS[prop].get('variant', 'san')]['what'],
            'the itlib and splat headers of the build are the stand-ins of /verif/shim',
        ],
        'wall_s': round(time.time() - t0, 2), 'violations': 1 if j['violated'] else 0,
    }
    if j['violated']:
        ev['coverage']['violation'] = {'replay': j['replay'], 'message': j['message']}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    return rc if rc in (0, 1) else 2

if __name__ == '__main__':
    sys.exit(main())
