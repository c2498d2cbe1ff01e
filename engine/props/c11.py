from .runtime import *
from sa.locks import Walker, MUTEX

PROP = prop('C11', 'Shared tables are only touched with their mutex held, and locks are ordered',
  "Outside construction and destruction, every access to the tables of images, views, samplers and vertex buffers of a resource handler, to the tracked objects of a context and to the connections of a signal is made with the mutex of that table held. "
  "One operation looks its table up and changes it under a single acquisition. "
  "Mutexes are taken in one order throughout, and none is taken again by a thread already holding it.",
  ['schedules', 'programs'], 'every interleaving of operations on one handler, context or signal',
  'The tests are single threaded; a lost lock or an inverted order shows only under contention.',
  [I + 'ResourceHandler.hpp', S + 'ResourceHandler.cpp', I + 'GraphContext.hpp', S + 'GraphContext.cpp', I + 'Signal.hpp'],
  [('images', S + 'ResourceHandler.cpp: createImage'), ('views', S + 'ResourceHandler.cpp: createImageView'), ('tracking', S + 'GraphContext.cpp: doRegisterObject')], (), ['data races', 'deadlocks'],
  how='A walk of the syntax tree of every function computes the mutexes held at each access to a guarded table, following lock variables, their scopes, closures, helpers called with the lock held and iterators kept past it; the graph of nested acquisitions, through calls, must have no cycle.', min=30)

TABLE = {
    'crg::ResourceHandler': {'m_imageIds': 'm_imagesMutex', 'm_images': 'm_imagesMutex', 'm_imageViewIds': 'm_viewsMutex', 'm_imageViews': 'm_viewsMutex', 'm_samplers': 'm_samplersMutex', 'm_vertexBuffers': 'm_buffersMutex'},
    'crg::GraphContext': {'m_allocated': 'm_mutex'},
    'crg::Signal': {'m_connections': 'm_mutex'},
    'crg::dot::dotexp::BasicIndentBufferManager': {'m_list': 'm_mutex'},
}


def guards(cx):
    out = {}
    for rec, t in TABLE.items():
        for f, m in t.items():
            out[(rec, f)] = (rec, m)
    return out


def walks(cx):
    w = getattr(cx, 'lockwalk', None)
    if w is None:
        w = cx.lockwalk = Walker(cx.p, guards(cx))
        for f in cx.p.functions():
            if '/witness/' not in f['file'] and f.get('body') is not None:
                w.fn(f)
                cx.analysed.add(f['sq'])
    return w


def exempt(f, rec):
    return (f.get('ctor') or f.get('dtor')) and (f.get('cls') or '').split('<')[0] == rec


def short(f):
    return f['sq'].replace('crg::', '')


def private(f):
    return f.get('acc') in (1, 2) or f.get('internal') or (not f.get('cls') and f.get('static'))


def held(cx):
    """Each access has its mutex, taken here or by every caller."""
    w = walks(cx)
    callers = {}
    for u, r in w.out.items():
        for c, line, h in r.calls:
            callers.setdefault(c, []).append((u, line, h))

    def covered(u, m, rec, seen):
        f = cx.p.funcs[u]
        if not private(f):
            return False, '%s makes it without' % short(f)
        ups = callers.get(u, [])
        if not ups:
            return None, 'nothing calls %s' % short(f)
        for c, line, h in ups:
            if m in h or exempt(cx.p.funcs[c], rec) or c in seen:
                continue
            ok, why = covered(c, m, rec, seen | {c})
            if not ok:
                return ok, '%s, called from %s:%s' % (why, short(cx.p.funcs[c]), line) if ok is False and not why.startswith(short(cx.p.funcs[c])) else why
        return True, ''

    seen_fields = set()
    for u, r in w.out.items():
        f = cx.p.funcs[u]
        for line, what in r.odd:
            cx.undec('%s in %s' % (what, short(f)), 'a lock this check does not follow', '%s:%s' % (f['file'], line))
        for field in sorted({a.field for a in r.accesses}):
            m = w.guards[field]
            if exempt(f, field[0]):
                continue
            subject = '%s in %s' % (field[1], short(f))
            seen_fields.add(field)
            bad = [a for a in r.accesses if a.field == field and m not in a.held]
            if not bad:
                cx.ok(subject, '', '%s:%s' % (f['file'].replace('/repo/', ''), f['line']))
                continue
            where = '%s:%s (%s)' % (f['file'].replace(cx.p_root if hasattr(cx, 'p_root') else '/repo', '').lstrip('/'), bad[0].line, f['sq'])
            if r.odd:
                cx.undec(subject, 'a lock this check does not follow', where)
                continue
            ok, why = covered(u, m, field[0], {u})
            if ok is None:
                cx.undec(subject, why, where)
            else:
                cx.require(ok, subject, '%s is not held%s' % (m[1], '' if not why or why.startswith(short(f)) else ': ' + why), where)
    for g in w.guards:
        rec = cx.p.records.get(g[0]) or next((v for k, v in cx.p.records.items() if k.split('<')[0] == g[0]), None)
        if rec and g not in seen_fields and any(x['n'] == g[1] for x in rec['fields']):
            cx.undec(g[1], 'no access found')


def single(cx):
    """A table is looked up and changed under one acquisition."""
    w = walks(cx)
    for u, r in w.out.items():
        f = cx.p.funcs[u]
        for field in sorted({a.field for a in r.accesses}):
            m = w.guards[field]
            if exempt(f, field[0]):
                continue
            acq = {a.held.get(m) for a in r.accesses if a.field == field and m in a.held}
            if not acq:
                continue
            subject = 'acquisition for %s in %s' % (field[1], short(f))
            stale = [a for a in r.accesses if a.field == field and a.through and a.held.get(m) != a.through[1]]
            where = '%s:%s (%s)' % (f['file'], f['line'], f['sq'])
            if stale:
                cx.viol(subject, 'an iterator or reference obtained under another acquisition is used', '%s:%s (%s)' % (f['file'], stale[0].line, f['sq']))
            elif len(acq) > 1 and any(a.write for a in r.accesses if a.field == field):
                cx.viol(subject, 'looked up and changed under %d separate acquisitions of %s' % (len(acq), m[1]), where)
            else:
                cx.ok(subject, '', where)


def ordered(cx):
    w = walks(cx)
    memo = {}

    def takes(u, stack=()):
        """Mutexes a call may take, with a path to each."""
        if u in memo:
            return memo[u]
        if u in stack or u not in w.out:
            return {}
        r = w.out[u]
        out = {m: short(cx.p.funcs[u]) for m, _, _ in r.acquires}
        for c, _, _ in r.calls:
            for m, path in takes(c, stack + (u,)).items():
                out.setdefault(m, short(cx.p.funcs[u]) + ' > ' + path)
        if not stack:
            memo[u] = out
        return out

    edges = {}
    n = 0
    recursive = set()
    for rec in cx.p.records.values():
        for x in rec.get('fields', []):
            if 'recursive' in x['t']:
                recursive.add((rec.get('q', '').split('<')[0] if rec.get('q') else '', x['n']))
    for u, r in w.out.items():
        f = cx.p.funcs[u]
        where = lambda line: '%s:%s (%s)' % (f['file'], line, f['sq'])
        for m, line, before in r.acquires:
            n += 1
            subject = '%s taken in %s' % (m[1], short(f))
            if m in before and m not in recursive and m[0] != 'crg::Signal':
                cx.viol(subject, 'already held', where(line))
            else:
                cx.ok(subject, '', where(line))
            for b in before:
                if b != m:
                    edges.setdefault((b, m), where(line))
        for c, line, h in r.calls:
            if not h:
                continue
            for m, path in takes(c).items():
                for b in h:
                    if b == m:
                        if m not in recursive and m[0] != 'crg::Signal':
                            cx.viol('%s taken in %s' % (m[1], short(f)), 'already held when %s takes it again' % path, where(line))
                    else:
                        edges.setdefault((b, m), where(line))
    nxt = {}
    for a, b in edges:
        nxt.setdefault(a, set()).add(b)

    def reach(a, b, seen):
        return any(x == b or x not in seen and reach(x, b, seen | {x}) for x in nxt.get(a, ()))
    for (a, b), where in sorted(edges.items()):
        name = lambda m: '%s::%s' % (m[0].replace('crg::', ''), m[1]) if m[0] else m[1]
        cx.require(not reach(b, a, {b}), '%s before %s' % (name(a), name(b)), 'elsewhere they are taken the other way round (%s)' % edges.get((b, a), 'through others'), where)
    if not n:
        cx.undec('locks', 'none found')


RULES = [held, single, ordered]
