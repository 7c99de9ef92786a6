#!/usr/bin/env python3
"""Writes /verif/seeded/<id> from the definitions in tools/seeds/*.py.

A definition: S(id, property, needs, breaks, edits=[(file, old, new)...], main=Rust source, kind='lib'|'gen'|'codegen')
"""
import glob, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
SEEDS = {}
def S(id, property, needs, breaks, edits, main=None, kind='lib', files=None):
    assert id not in SEEDS, id
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, main=main, kind=kind, files=files or {})
for f in sorted(glob.glob(HERE + '/seeds/*.py')):
    exec(compile(open(f).read(), f, 'exec'))

PRELUDE = '#![allow(unused_imports)]\nmod msg;\nmod util;\nuse msg::*;\nuse util::*;\nuse grib::*;\n\n'

def write(id):
    s = SEEDS[id]; d = f'{ROOT}/seeded/{id}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = '/tmp/seedwt'
    if not os.path.isdir(w):
        subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-f', '--detach', w, 'HEAD'], check=True, capture_output=True)
    subprocess.run(f'git -C {w} checkout -q --detach $(git -C /repo rev-parse HEAD) && git -C {w} checkout -q -- .', shell=True, check=True)
    for f, old, new in s['edits']:
        p = f'{w}/{f}'; t = open(p).read()
        assert t.count(old) == 1, f'{id}: {t.count(old)} matches in {f} of {old!r}'
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True, check=True).stdout
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    subprocess.run(f'git -C {w} checkout -q -- .', shell=True, check=True)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    kit = d + '/kit'; k = HERE + '/seedkit'
    if s['kind'] == 'lib':
        shutil.copytree(k, kit); os.remove(kit + '/demo.sh')
        if 'GRIBBER' not in s['main'] and 'gribber(' not in s['main']:
            shutil.rmtree(kit + '/cli')
        else:
            s['main'] = '// uses GRIBBER\n' + s['main']
        if '// WASM' not in s['main']:
            os.remove(kit + '/wasm.sh')
        open(kit + '/main.rs', 'w').write(PRELUDE + s['main'])
        shutil.copy(k + '/demo.sh', d + '/demo.sh')
    else:
        os.makedirs(kit)
        shutil.copy(HERE + f'/seedkit-{s["kind"]}/demo.sh', d + '/demo.sh')
        for n in os.listdir(HERE + f'/seedkit-{s["kind"]}'):
            if n != 'demo.sh':
                shutil.copy(HERE + f'/seedkit-{s["kind"]}/' + n, kit)
        open(kit + ('/main.rs.in' if s['kind'] == 'codegen' else '/main.rs'), 'w').write(s['main'])
        for n in {n.split('/')[0] for n in s['files'] if n.endswith('main.rs.in')}:
            os.makedirs(kit + '/' + n)
            for m in ('Cargo.toml.in', 'Cargo.lock.in'):
                t = open(kit + '/' + m).read().replace('name = "demo"', f'name = "{n}"')
                open(f'{kit}/{n}/{m}', 'w').write(t)
    for n, c in s['files'].items():
        os.makedirs(os.path.dirname(kit + '/' + n), exist_ok=True)
        open(kit + '/' + n, 'w').write(c)
    os.chmod(d + '/demo.sh', 0o755)

if __name__ == '__main__':
    ids = sys.argv[1:] or list(SEEDS)
    for i in ids:
        write(i); print('wrote', i)
