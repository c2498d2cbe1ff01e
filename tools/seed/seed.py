#!/usr/bin/env python3
"""Confirms planted bugs and files them in /verif/seeded.

    seed.py FILE.py [ID...]     FILE.py calls S(id, property, [(path, old, new)...], needs, breaks, demo body)

Each one is applied to a scratch copy of /repo, built, run through the existing tests, and demonstrated with and
without the change; then the property's own check is run on the changed tree."""
import json, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
W = '/tmp/seedwt'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def prepare():
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    if not os.path.isdir(W):
        assert sh(f'git clone -q /repo {W}').returncode == 0
        os.makedirs(W + '/_vp')
        for f in ('cases.py', 'results.py', 'build.sh', 'test.sh'):
            s = open('/opt/vp/' + f).read().replace('/repo', W).replace('/opt/vp', W + '/_vp')
            open(W + '/_vp/' + f, 'w').write(s)
        os.makedirs(W + '/_vp/recipe')
        s = open('/opt/vp/recipe/CMakeLists.txt').read().replace('/repo', W)
        open(W + '/_vp/recipe/CMakeLists.txt', 'w').write(s)
        open(W + '/.git/info/exclude', 'a').write('_vp\n_build\n')
    sh(f'git -C {W} checkout -q -f . && git -C {W} fetch -q && git -C {W} checkout -q {head}')
    assert sh(f'git -C {W} rev-parse HEAD').stdout.strip() == head
    r = sh(f'bash {W}/_vp/build.sh')
    assert r.returncode == 0, r.stdout[-3000:]


def stable():
    r = sh(f'bash {W}/_vp/test.sh /tmp/seed_out.json')
    got = json.load(open('/tmp/seed_out.json'))
    return [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in set(got['passed'])], r.stdout


SEEDS = []


def S(id, prop, edits, needs, breaks, body, pre=''):
    SEEDS.append((id, prop, edits, needs, breaks, body, pre))


def one(id, prop, edits, needs, breaks, body, pre):
    sh(f'git -C {W} checkout -q -f .')
    d = f'/tmp/seed_{id}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copy(HERE + '/mock.hpp', d)
    shutil.copy(HERE + '/demo.sh', d)
    os.chmod(d + '/demo.sh', 0o755)
    code = '#include "mock.hpp"\n' + pre + '\nint main()\n{\n\tauto & ctx = mock::context();\n\t(void)ctx;\n' + body.rstrip() + '\n\tDEMO_END\n}\n'
    open(d + '/demo.cpp', 'w').write(code)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    b = sh(f'bash {W}/_vp/build.sh')
    assert b.returncode == 0
    r0 = sh(f'g++ -std=c++17 -fsyntax-only -DCRG_BUILD_STATIC -Iinclude -Itest -I{d} {d}/demo.cpp', cwd=W)
    if r0.returncode:
        print(id, 'DEMO DOES NOT COMPILE\n', r0.stdout[:3000]); return
    r0 = sh(f'bash {d}/demo.sh', cwd=W)
    if r0.returncode:
        print(id, 'DEMO FAILS ON THE UNCHANGED TREE', r0.returncode, '\n', r0.stdout[-3000:]); return
    for path, old, new in edits:
        p = f'{W}/{path}'
        s = open(p, newline='').read()
        crlf = '\r\n' in s
        if crlf:
            s = s.replace('\r\n', '\n')
        if s.count(old) != 1:
            print(id, 'EDIT MATCHES', s.count(old), 'TIMES', repr(old)); return
        s = s.replace(old, new)
        if crlf:
            s = s.replace('\n', '\r\n')
        open(p, 'w', newline='').write(s)
    diff = subprocess.run(['git', '-C', W, 'diff'], stdout=subprocess.PIPE).stdout
    open(d + '/patch.diff', 'wb').write(diff)
    bad, log = stable()
    if bad:
        print(id, 'TESTS FAIL', bad[:4], log[-1500:] if 'build failed' in log else ''); sh(f'git -C {W} checkout -q -f .'); return
    r1 = sh(f'bash {d}/demo.sh', cwd=W)
    if r1.returncode == 0:
        print(id, 'DEMO PASSES WITH THE CHANGE'); sh(f'git -C {W} checkout -q -f .'); return
    c = sh(f'python3 {VERIF}/check.py {prop}', env={**os.environ, 'CRG_REPO': W, 'CRG_EVIDENCE': '/tmp/seed_evidence'})
    caught = c.returncode == 1 and f'VIOLATION property={prop} ' in c.stdout
    dst = f'{VERIF}/seeded/{id}'
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    shutil.rmtree(d)
    print(id, prop, 'CAUGHT' if caught else f'MISSED (exit {c.returncode})', '' if caught else c.stdout[-1500:])
    sh(f'git -C {W} checkout -q -f .')


if __name__ == '__main__':
    exec(open(sys.argv[1]).read())
    prepare()
    for s in SEEDS:
        if len(sys.argv) < 3 or s[0] in sys.argv[2:]:
            one(*s)
    sh(f'git -C {W} checkout -q -f .')
    sh(f'bash {W}/_vp/build.sh')
