"""Which mutexes are held at each access to a guarded member: a walk of the syntax tree of each function with the set of acquisitions in force.

Locks are std::unique_lock, lock_guard and scoped_lock variables (or functions returning one) and direct lock()/unlock() calls. A closure handed to a standard algorithm
or called where it stands runs with what is held there; one kept for later runs with nothing. Accesses a private function makes without the lock are those of its callers.
"""
import re
from collections import namedtuple

Access = namedtuple('Access', 'field, line, held, write, through')
LOCK = re.compile(r'^(?:const )?std::(unique_lock|lock_guard|scoped_lock)<')
MUTEX = re.compile(r'^(mutable )?std::(recursive_|shared_|timed_)?mutex$')
WRITES = {'emplace', 'try_emplace', 'insert', 'insert_or_assign', 'erase', 'clear', 'push_back', 'emplace_back', 'swap', 'extract', 'merge', 'pop_back', 'resize', 'operator[]', 'emplace_hint'}


class Fn:
    def __init__(self):
        self.accesses = []       # Access
        self.acquires = []       # (mutex, line, held before)
        self.calls = []          # (usr, line, held)
        self.odd = []            # (line, what): locks this walk does not follow


class Walker:
    def __init__(self, prog, guards):
        self.p = prog
        self.guards = guards                     # (rec, field) -> (rec, mutex)
        self.out = {}

    def fn(self, f):
        r = self.out.get(f['u'])
        if r is None:
            r = self.out[f['u']] = Fn()
            self.F, saved = r, getattr(self, 'F', None)
            self.locks, sl = {}, getattr(self, 'locks', None)
            self.lams, sm = {}, getattr(self, 'lams', None)
            self.iters, si = {}, getattr(self, 'iters', None)
            self.n, sn = 0, getattr(self, 'n', 0)
            self.busy, sb = set(), getattr(self, 'busy', None)
            held = {}
            for i in f.get('inits') or []:
                self.ex(i, held)
            self.st(f.get('body'), held)
            self.F, self.locks, self.lams, self.iters, self.n, self.busy = saved, sl, sm, si, sn, sb
        return r

    # held: {mutex: acquisition number}
    def st(self, s, held):
        if s is None:
            return
        if isinstance(s, list):
            for x in s:
                self.st(x, held)
            return
        k = s.get('k')
        if k == 'block':
            mine = set(self.locks)
            self.st(s.get('s'), held)
            for i in set(self.locks) - mine:
                m, on = self.locks.pop(i)
                if on:
                    held.pop(m, None)
        elif k == 'decls':
            for v in s['s']:
                self.var(v, held)
        elif k == 'var':
            self.var(s, held)
        elif k == 'if':
            mine = set(self.locks)
            for key in ('init', 'v', 'c'):
                self.any(s.get(key), held)
            a, b = dict(held), dict(held)
            self.st(s.get('t'), a)
            self.st(s.get('e'), b)
            for m in list(held):
                if a.get(m) != held[m] and not ends(s.get('t')) or b.get(m) != held[m] and not ends(s.get('e')):
                    del held[m]
            for m in a:
                if m in b and m not in held:
                    held[m] = a[m]
            for i in set(self.locks) - mine:
                m, on = self.locks.pop(i)
                held.pop(m, None)
        elif k in ('for', 'rfor', 'while', 'do'):
            mine = set(self.locks)
            for key in s:
                if key not in ('b', 'k', 'l') and isinstance(s[key], (dict, list)):
                    self.any(s[key], held)
            self.st(s.get('b'), held)
            for i in set(self.locks) - mine:
                m, on = self.locks.pop(i)
                held.pop(m, None)
        elif k == 'try':
            h = dict(held)
            self.st(s.get('b'), held)
            for key in s:
                if key not in ('b', 'k', 'l'):
                    self.any(s[key], dict(h))
        elif k == 'expr':
            e = s.get('e')
            self.ex(e, held)
        elif k in ('case', 'default', 'label'):
            for key in s:
                if key != 's':
                    self.any(s[key], held)
            self.st(s.get('s'), held)
        else:
            for key in s:
                self.any(s[key], held)

    def any(self, x, held):
        if isinstance(x, list):
            for y in x:
                self.any(y, held)
        elif isinstance(x, dict):
            if x.get('k') in ('block', 'decls', 'var', 'if', 'for', 'rfor', 'while', 'do', 'try', 'expr', 'case', 'default', 'return', 'switch'):
                self.st(x, held)
            else:
                self.ex(x, held)

    def take(self, m, line, held):
        self.F.acquires.append((m, line, dict(held)))
        self.n += 1
        held[m] = self.n

    def mutex(self, e):
        while isinstance(e, dict) and e.get('k') in ('cast', 'un', 'ctor', 'expr') and e.get('k') != 'mem':
            e = e.get('e') or (e.get('a') or [None])[0]
        if isinstance(e, dict) and e.get('k') == 'mem' and MUTEX.match(e.get('t', '')):
            return (e.get('rec'), e['n'])
        if isinstance(e, dict) and e.get('k') in ('ref', 'gref') and MUTEX.match(e.get('t', '')):
            return ('', e['n'])
        return None

    def returns_lock(self, e):
        """The mutex a called function returns locked."""
        if isinstance(e, dict) and e.get('k') in ('call', 'mcall') and LOCK.match(e.get('t', '')):
            g = self.p.funcs.get(e.get('u'))
            if g:
                ms = set()
                find(g.get('body'), lambda x: ms.add((x.get('rec'), x['n'])) if x.get('k') == 'mem' and MUTEX.match(x.get('t', '')) else None)
                if len(ms) == 1:
                    return ms.pop()
        return None

    def var(self, v, held):
        t = v.get('t', '')
        e = v.get('e')
        if LOCK.match(t):
            args = (e or {}).get('a') or []
            if isinstance(e, dict) and e.get('k') == 'ctor' and len(args) == 1 and LOCK.match(args[0].get('t', '')):
                e = args[0]
                args = e.get('a') or []
            ms = [self.mutex(a) for a in args]
            ms = [m for m in ms if m]
            tag = ' '.join(str(a.get('t')) for a in args[1:])
            m = self.returns_lock(e)
            if m:
                self.take(m, v['l'], held)
                self.locks[v['id']] = (m, True)
            elif not args and not m:
                pass
            elif 'try_to_lock' in tag or not ms or 'adopt' in tag:
                self.F.odd.append((v['l'], 'lock %s' % v.get('n')))
            elif 'defer_lock' in tag:
                self.locks[v['id']] = (ms[0], False)
            else:
                for i, m in enumerate(ms):
                    self.take(m, v['l'], held)
                    self.locks[(v['id'], i) if i else v['id']] = (m, True)
            return
        if isinstance(e, dict) and e.get('k') == 'lambda':
            self.lams[v['id']] = e
            return
        self.any(e, held)
        for key in v:
            if key not in ('e', 'k', 'l', 'n', 't', 'id', 'dtor') and isinstance(v[key], (dict, list)):
                self.any(v[key], held)
        if e is not None and ('iterator' in t.lower() or t.endswith('&')):
            fs = set()
            if t.endswith('&'):
                r = rooted(e)
                if r and (r[0], r[1]) in self.guards:
                    fs.add((r[0], r[1]))
            else:
                find(e, lambda x: fs.add((x.get('rec'), x['n'])) if x.get('k') == 'mem' and (x.get('rec'), x.get('n')) in self.guards else None)
            if fs:
                f = sorted(fs)[0]
                self.iters[v['id']] = (f, held.get(self.guards[f]))

    def ex(self, e, held, write=False):
        if e is None:
            return
        if isinstance(e, list):
            for x in e:
                self.ex(x, held)
            return
        if not isinstance(e, dict):
            return
        k = e.get('k')
        if k == 'mem':
            f = (e.get('rec'), e.get('n'))
            if f in self.guards:
                self.F.accesses.append(Access(f, e.get('l'), dict(held), write, None))
            self.ex(e.get('b'), held)
            return
        if k == 'ref':
            it = self.iters.get(e.get('id'))
            if it:
                self.F.accesses.append(Access(it[0], e.get('l'), dict(held), write, it))
            return
        if k == 'lambda':
            self.lam(e, {}, e.get('l'))
            return
        if k in ('mcall', 'call', 'op', 'ctor'):
            n = (e.get('q') or '').split('::')[-1]
            b = e.get('b')
            if k == 'mcall' and n in ('lock', 'unlock', 'try_lock', 'release', 'swap', 'lock_shared'):
                i = b.get('id') if isinstance(b, dict) and b.get('k') == 'ref' else None
                m = self.mutex(b)
                if i in self.locks or m:
                    mm = m or self.locks[i][0]
                    if n == 'lock':
                        self.take(mm, e.get('l'), held)
                        if i in self.locks:
                            self.locks[i] = (mm, True)
                    elif n == 'unlock':
                        held.pop(mm, None)
                        if i in self.locks:
                            self.locks[i] = (mm, False)
                    else:
                        self.F.odd.append((e.get('l'), n))
                    return
            if k == 'op' and e.get('op') == '()' and e.get('a') and isinstance(e['a'][0], dict):
                a0 = e['a'][0]
                if a0.get('k') == 'lambda' or a0.get('id') in self.lams:
                    self.ex(e['a'][1:], held)
                    self.lam(self.lams.get(a0.get('id')) or a0, held, e.get('l'))
                    return
            if k == 'mcall':
                self.ex(b, held, n in WRITES)
            u = e.get('u')
            g = self.p.funcs.get(u) if u else None
            std = not g
            for i, a in enumerate(e.get('a') or []):
                aa = a
                while isinstance(aa, dict) and aa.get('k') in ('cast', 'ctor') and (aa.get('e') or aa.get('a')):
                    aa = aa.get('e') or aa['a'][0]
                lam = aa if isinstance(aa, dict) and aa.get('k') == 'lambda' else self.lams.get(aa.get('id')) if isinstance(aa, dict) and aa.get('k') == 'ref' else None
                if lam is not None:
                    now = (e.get('q') or '').startswith('std::') and k == 'call' or g is not None and k != 'ctor'
                    self.lam(lam, held if now else {}, e.get('l'))
                else:
                    self.ex(a, held, write=(k == 'op' and i == 0 and e.get('op') in ('=', '[]', '+=', '-=')))
            if g:
                self.F.calls.append((u, e.get('l'), dict(held)))
            return
        if k == 'bin' and e.get('op', '').endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            self.ex(e.get('b'), held)
            self.ex(e.get('a'), held, True)
            return
        for key in e:
            if isinstance(e[key], (dict, list)) and key not in ('pt', 'ta', 'caps'):
                self.any(e[key], held) if key not in ('specs',) else None

    def lam(self, e, held, line):
        if e.get('id') in self.busy:
            return
        self.busy.add(e.get('id'))
        inner = dict(held)
        for c in e.get('caps') or []:
            if isinstance(c.get('e'), dict):
                self.ex(c['e'], held)
        sl = self.locks
        self.locks = dict(sl)
        for s in e.get('specs') or []:
            self.st(s.get('body'), inner)
        self.locks = sl
        self.busy.discard(e.get('id'))


def ends(s):
    """The statement always leaves."""
    if s is None:
        return False
    if s.get('k') == 'block':
        return bool(s.get('s')) and ends(s['s'][-1])
    return s.get('k') in ('return', 'throw', 'break', 'continue')


def find(s, f):
    if isinstance(s, dict):
        f(s)
        for v in s.values():
            find(v, f)
    elif isinstance(s, list):
        for v in s:
            find(v, f)


def rooted(e):
    """The member an lvalue expression designates a part of."""
    while isinstance(e, dict):
        k = e.get('k')
        if k == 'mem':
            if e.get('rec') and isinstance(e.get('b'), dict) and e['b'].get('k') == 'this':
                return e.get('rec'), e.get('n')
            nxt = e.get('b')
            if nxt is None or nxt.get('k') in ('ref',):
                return (e.get('rec'), e.get('n'))
            e = nxt
        elif k in ('idx', 'mcall'):
            e = e.get('b')
        elif k == 'op':
            e = (e.get('a') or [None])[0]
        elif k in ('un', 'cast'):
            e = e.get('e')
        else:
            return None
    return None
