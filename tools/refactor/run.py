#!/usr/bin/env python3
"""Applies edits that keep the behaviour to scratch clones of /repo and runs every check on them: none may raise an alarm.

usage: run.py CORPUS.py [name...]     CORPUS.py: E=[(name, [(path, old, new[, occurrence])...])...]
Edits that do not touch each other share a clone; naming edits runs each of them on its own.
"""
import concurrent.futures as cf, fcntl, os, subprocess, sys, threading
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
E = [e for e in ns['E'] if not only or e[0] in only]
SIZE = 1 if only else int(os.environ.get('BUNDLE', '8'))
N = int(os.environ.get('JOBS', '3'))
HERE = os.path.dirname(os.path.abspath(__file__))
free, lock = [], threading.Lock()
held = []
for i in range(24):
    if len(free) == N:
        break
    d = '/tmp/rf%d' % i
    held.append(open(d + '.lock', 'w'))
    try:
        fcntl.flock(held[-1], fcntl.LOCK_EX | fcntl.LOCK_NB)
    except OSError:
        continue     # another run uses it
    if not os.path.isdir(d):
        subprocess.check_call(['git', 'clone', '-q', '/repo', d])
    subprocess.check_call(['git', '-C', d, 'fetch', '-q', '/repo', 'HEAD'])
    subprocess.check_call(['git', '-C', d, 'reset', '-q', '--hard', 'FETCH_HEAD'])
    free.append(d)
orig = {}


def text(path):
    if path not in orig:
        orig[path] = open(free[0] + '/' + path, newline='').read()
    return orig[path]


def apply(files, e):
    """None if an edit does not match."""
    out = dict(files)
    for x in e[1]:
        path, old, new = x[:3]
        idx = x[3] if len(x) > 3 else 0
        raw = out.get(path, text(path))
        crlf = '\r\n' in raw
        s = raw.replace('\r\n', '\n')
        parts = s.split(old)
        if len(parts) <= idx + 1:
            return None
        s = old.join(parts[:idx + 1]) + new + old.join(parts[idx + 1:])
        out[path] = s.replace('\n', '\r\n') if crlf else s
    return out


bundles = []
for e in E:
    if apply({}, e) is None:
        print('%-28s NO MATCH' % e[0])
        continue
    mine = {(x[0], x[2].strip().split('\n')[0]) for x in e[1]}
    for b in bundles:
        f = apply(b[1], e) if len(b[0]) < SIZE and not any(len(x) > 3 for x in e[1]) else None
        if f is not None and not b[2] & {x[1] for x in e[1]}:
            b[0].append(e[0])
            b[1] = f
            b[2] |= {x[1] for x in e[1]}
            break
    else:
        bundles.append([[e[0]], apply({}, e), {x[1] for x in e[1]}])


def run(b):
    names, files, _ = b
    with lock:
        d = free.pop()
    try:
        for path, s in files.items():
            open(d + '/' + path, 'w', newline='').write(s)
        for path in files:
            p = d + '/' + path
            if p.endswith('.cpp'):
                r = subprocess.run(['g++', '-std=c++17', '-fsyntax-only', '-DCRG_BUILD_STATIC', '-DCRG_VERSION_BUILD=1', '-DCRG_VERSION_MAJOR=1', '-DCRG_VERSION_MINOR=4', '-I' + d + '/include', '-I' + d + '/source/RenderGraph', p], capture_output=True, text=True)
                if r.returncode:
                    return names, ['DOES NOT COMPILE ' + '\n'.join(l for l in r.stderr.splitlines() if 'error' in l)[:600]], []
        r = subprocess.run(['python3', HERE + '/all.py'], capture_output=True, text=True, env=dict(os.environ, CRG_REPO=d))
        ls = r.stdout.splitlines()
        bad = [l[6:] for l in ls if l.startswith('alarm ')] + ([r.stderr[-400:]] if r.returncode else [])
        und = [l[10:] for l in ls if l.startswith('undecided ')]
        return names, bad, und
    finally:
        for path in files:
            open(d + '/' + path, 'w', newline='').write(text(path))
        with lock:
            free.append(d)


with cf.ThreadPoolExecutor(N) as ex:
    for names, bad, und in ex.map(run, bundles):
        print('%s: %s' % (' '.join(names), 'ALARM' if bad else 'quiet') + (' (%d undecided)' % len(und) if und else ''), flush=True)
        for b in bad:
            print('      ' + b, flush=True)
        for u in und[:12]:
            print('      ? ' + u, flush=True)
