"""Queries over effect trees: occurrences with their guards, guard comparison, value comparison,
ordering and pairing.  All comparisons are three-valued: a difference is reported only when it is
established on terms the analysis understands completely; otherwise the answer is 'undecided'."""
import math, random
from .terms import *
from .terms import mk, _lin
from .exists import canonical, searching
from .interp import Ev, If, Loop, Scope, Try, Leaf, catches, quant, base_type


# --------------------------------------------------------------------------------- occurrences
class Occ:
    __slots__ = ('ev', 'guard', 'loops', 'pos', 'scopes', 'intry', 'brk')

    def __init__(self, ev, guard, loops, pos, scopes, intry, brk):
        self.ev, self.guard, self.loops, self.pos, self.scopes, self.intry, self.brk = ev, guard, loops, pos, scopes, intry, brk

    def __repr__(self):
        return '%s [%s] %s' % (self.ev, show(self.guard), ['%s' % show(l.count) if l.count is not None else '?' for l in self.loops])

    @property
    def where(self):
        f, l, fn = (self.ev.loc + (None, None, None))[:3]
        return '%s:%s (%s)' % (short(f), l, fn)

    @property
    def args(self):
        return self.ev.args

    @property
    def vals(self):
        return self.ev.x.get('vals') or self.ev.args


def short(f):
    return f.replace('/repo/', '') if f else '?'


def walk(tree):
    """Yields an Occ for every event and every leaf, in program order."""
    out = []
    cnt = [0]
    tries = [0]
    total = C(count_tries(tree))

    def seq(nodes, pc, loops, scopes, intry, brk):
        """returns exits: {kind: condition under which the list is left abruptly (relative to pc)}"""
        live = TRUE
        exits = {}

        def leave(kind, c):
            exits[kind] = or_(exits.get(kind, FALSE), and_(live, c))
        for n in nodes:
            g = and_(pc, live)
            if isinstance(n, Ev):
                cnt[0] += 1
                out.append(Occ(n, g, loops, cnt[0], scopes, intry, brk))
            elif isinstance(n, Leaf):
                cnt[0] += 1
                out.append(Occ(Ev('leaf', n.kind, [n.value] if n.value is not None else [], n.loc), g, loops, cnt[0], scopes, intry, brk))
                leave(n.kind, TRUE)
                return exits
            elif isinstance(n, If):
                a = seq(n.a, and_(g, n.c), loops, scopes, intry, brk)
                b = seq(n.b, and_(g, not_(n.c)), loops, scopes, intry, brk)
                ex = {}
                for k in set(a) | set(b):
                    ex[k] = or_(and_(n.c, a.get(k, FALSE)), and_(not_(n.c), b.get(k, FALSE)))
                gone = FALSE
                for k, c in ex.items():
                    leave(k, c)
                    if k != 'throw':
                        gone = or_(gone, c)
                if ex.get('throw') is TRUE:
                    gone = TRUE
                live = and_(live, not_(gone))
            elif isinstance(n, Loop):
                hasbrk = _has_brk(n.body)
                e = seq(n.body, g, loops + (n,), scopes, intry, brk or hasbrk)
                gone = FALSE
                for k, c in e.items():
                    if k in ('brk', 'cont'):
                        continue
                    q = quant(n.count if n.count is not None else mk('app', 'niter', C(n.lid)), c, n.lid)
                    leave(k, q)
                    if k != 'throw':
                        gone = or_(gone, q)
                live = and_(live, not_(gone))
            elif isinstance(n, Scope):
                e = seq(n.body, g, loops, scopes + (n,), intry, brk)
                ct = catches(n.fn)
                gone = FALSE
                for k, c in e.items():
                    if k in ct:
                        continue
                    leave(k, c)
                    if k != 'throw':
                        gone = or_(gone, c)
                live = and_(live, not_(gone))
            elif isinstance(n, Try):
                e = seq(n.body, g, loops, scopes, True, brk)
                gone = FALSE
                for k, c in e.items():
                    if k == 'throw':
                        continue
                    leave(k, c)
                    gone = or_(gone, c)
                tries[0] += 1
                exc = e.get('throw') or truth(mk('app', 'thrown', C(tries[0]), total))
                for h in n.handlers:
                    e = seq(h, and_(g, exc), loops, scopes, intry, brk)
                    for k, c in e.items():
                        leave(k, and_(exc, c))
                        if k != 'throw':
                            gone = or_(gone, and_(exc, c))
                live = and_(live, not_(gone))
            if live is FALSE:
                # still number what follows as unreachable
                break
        return exits
    seq(tree, TRUE, (), (), False, False)
    return out


def count_tries(nodes):
    n = 0
    for x in nodes:
        if isinstance(x, If):
            n += count_tries(x.a) + count_tries(x.b)
        elif isinstance(x, Try):
            n += 1 + count_tries(x.body) + sum(count_tries(h) for h in x.handlers)
        elif hasattr(x, 'body'):
            n += count_tries(x.body)
    return n


def _has_brk(nodes):
    for n in nodes:
        if isinstance(n, Leaf) and n.kind in ('brk', 'ret'):
            return True
        if isinstance(n, If) and (_has_brk(n.a) or _has_brk(n.b)):
            return True
        if isinstance(n, Scope):
            ct = catches(n.fn)
            from .interp import has_leaf
            if any(k not in ct and has_leaf(n.body, k) for k in ('brk', 'ret')):
                return True
        if isinstance(n, Try) and (_has_brk(n.body) or any(_has_brk(h) for h in n.handlers)):
            return True
    return False


OPAQUE_APPS = {'find_if', 'find', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count', 'count_if', 'steps', 'fold', 'resized', 'popped', 'range', 'ptrrange', 'after:', 'posoff', 'endoff', 'exception', 'niter', 'itdiff'}
# values described by the closed system of a loop: understood, but only comparable with one another
LOOP_APPS = {'loopval', 'loopphi', 'loopany', 'loopat', 'loopiters'}


@memo
def opaque(t):
    """The term stands for a value the analysis does not understand."""
    for x in subterms(t):
        if x.k in ('unk', 'lphi'):
            return TRUE
        if x.k == 'app' and (x.a[0] in OPAQUE_APPS or isinstance(x.a[0], str) and x.a[0].startswith('after:')):
            return TRUE
        if x.k == 'sym' and isinstance(x.a[0], str) and x.a[0].startswith('uninit:'):
            return TRUE
    return FALSE


@memo
def thrown(t):
    return frozenset(x.a[2] for x in subterms(t) if x.k == 'app' and x.a[0] == 'thrown')


def is_opaque(*ts):
    # the exceptions of differently arranged protected regions do not correspond
    if len({y for t in ts for y in thrown(t)}) > 1:
        return True
    return any(opaque(t) is TRUE for t in ts) or len(ts) == 1 and bool(loop_terms(ts[0])) or len({loop_terms(t) for t in ts}) > 1


@memo
def loop_terms(t):
    """Outermost values described by loop systems."""
    out = set()
    seen = set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.k == 'app' and x.a[0] in LOOP_APPS:
                out.add(x)
            else:
                for y in x.a:
                    go(y)
    go(t)
    return frozenset(out)


def unrolled(x, k):
    """The value a loop gives a variable before its iteration number k, None if the loop may be left before."""
    sys_ = x.a[1]
    if sys_.a[2] is not FALSE or sys_.a[1] is ZERO:
        return None
    rows = [sys_.a[i:i + 3] for i in range(3, len(sys_.a), 3)]
    lev = max((y.a[0] // 1000 for y in subterms(sys_) if y.k == 'bv' and isinstance(y.a[0], int) and 1000 <= y.a[0] < 90000), default=0)
    vals = [r[0] for r in rows]
    for j in range(k):
        m = {mk('bv', 1000 * lev + i): v for i, v in enumerate(vals)}
        m[mk('bv', 1000 * lev + 999)] = C(j)
        vals = [subst(r[1], m) for r in rows]
    return vals[0]


def iterations(g, a, b):
    """A comparison of values that depend on the previous iterations of a loop, in the first iterations."""
    ts = loop_terms(a) | loop_terms(b)
    if not ts or any(x.a[0] != 'loopphi' or x.a[2].k != 'lv' for x in ts) or len({x.a[2] for x in ts}) != 1:
        return
    lv = next(iter(ts)).a[2]
    if any(x.k == 'bv' and isinstance(x.a[0], int) and 1000 <= x.a[0] < 90000 for t in (a, b) for x in unbound(t)):
        return
    ts |= {x for x in loop_terms(g) if x.a[0] == 'loopphi' and x.a[2] is lv}
    for k in range(4):
        m = {}
        more = []
        for x in ts:
            v = unrolled(x, k)
            if v is None:
                return
            m[x] = v
            more.append(gt0(add(x.a[1].a[1], C(-k))))
        at = {lv: C(k)}
        yield and_(*[subst(subst(t, m), at) for t in [g] + more]), subst(subst(a, m), at), subst(subst(b, m), at)


def same_loop(g, a, b, depth, budget):
    """Compares two values described by loop systems, component by component."""
    sa, sb = (a.a[1], b.a[1]) if a.a[0] in ('loopval', 'loopphi', 'loopiters') else (a.a[-1], b.a[-1])
    pairs = []
    if a.a[0] == 'loopphi':
        pairs.append((a.a[2], b.a[2], False))
    elif a.a[0] in ('loopany', 'loopat'):
        pairs += [(p, q, False) for p, q in zip(a.a[1:-1], b.a[1:-1])]
    if len(sa.a) != len(sb.a):
        return ('undecided', 'loops over different variables: %s / %s' % (show(a)[:200], show(b)[:200]))
    pairs += [(p, q, i == 1) for i, (p, q) in enumerate(zip(sa.a[1:], sb.a[1:]))]
    no = None
    for p, q, ex in pairs:
        if p is q:
            continue
        r = same(g, p, q, depth + 1, budget)
        if r[0] == 'yes':
            continue
        if r[0] != 'no' or no is not None:
            return ('undecided', 'loops differ: %s / %s' % (show(p)[:200], show(q)[:200]))
        if ex and bound_vars(p) != bound_vars(q):
            return ('undecided', 'loops end on different variables: %s / %s' % (show(p)[:200], show(q)[:200]))
        no = r
    return no or ('yes', None)


def align(a, b, budget=None):
    """Names the loop values of a after the equal ones of b.  (a, difference found or None)"""
    la, lb = loop_terms(a), loop_terms(b)
    if la == lb or not la or not lb:
        return a, None
    la, lb = sorted(la - lb, key=lambda t: t.n), sorted(lb - la, key=lambda t: t.n)
    m, no = {}, None
    for x in la:
        res = []
        for y in lb:
            if x.a[0] == y.a[0] and y not in m.values():
                r = same_loop(TRUE, x, y, 1, budget or [200])
                res.append((y, r))
                if r[0] == 'yes':
                    m[x] = y
                    break
        else:
            if len(la) == len(lb) and len(res) == 1 and res[0][1][0] == 'no' and no is None:
                m[x], no = res[0][0], res[0][1]
    return (subst(a, m) if m else a), no


def bound_vars(t):
    return frozenset(x for x in subterms(t) if x.k == 'bv' and isinstance(x.a[0], int) and x.a[0] >= 1000)


# -------------------------------------------------------------------------- boolean reasoning
@memo
def atoms(t):
    """Set of boolean atoms of a condition."""
    t = truth(t)
    if t.k in ('and', 'or', 'not'):
        r = frozenset()
        for x in t.a:
            r |= atoms(x)
        return r
    if t.k == 'ite':
        return atoms(t.a[0]) | atoms(t.a[1]) | atoms(t.a[2])
    if t.k == 'c':
        return frozenset()
    return frozenset((t,))


def lits_consistent(lits):
    """lits: {atom: bool}.  Conservative consistency check (False only if surely inconsistent)."""
    # union-find over equalities
    par = {}

    def find(x):
        while par.get(x, x) is not x:
            x = par[x]
        return x
    const = {}
    for a, v in lits.items():
        if a.k == 'eq' and v:
            x, y = find(a.a[0]), find(a.a[1])
            if x is y:
                continue
            if x.k in ('c', 's', 'fn'):
                x, y = y, x
            if x.k in ('c', 's', 'fn') and y.k in ('c', 's', 'fn'):
                return False
            par[x] = y
    rng = {}

    def lim(t, lo=None, hi=None):
        l, h = rng.get(t, (0, None))
        if lo is not None:
            l = lo if l is None else max(l, lo)
        if hi is not None:
            h = hi if h is None else min(h, hi)
        rng[t] = (l, h)
        return h is None or l is None or l <= h
    for a, v in lits.items():
        if a.k == 'nz':
            r = find(a.a[0])
            if r is ZERO and v:
                return False
            if not v and r.k == 'c' and r.a[0] != 0:
                return False
            if not v:
                if r.k in ('agg', 'lam', 'new', 's'):
                    return False
                rng.setdefault(r, (0, None))
                if not lim(r, hi=0):
                    return False
            elif r.k in ('size',) or r.k == 'fld':
                if not lim(r, lo=1):
                    return False
        elif a.k == 'eq' and not v:
            if find(a.a[0]) is find(a.a[1]):
                return False
        elif a.k == 'gt0':
            c, ts = _lin(a.a[0])
            if len(ts) == 1:
                (t, k), = ts.items()
                t = find(t)
                # k*t + c > 0
                if k == 1:
                    ok = lim(t, lo=1 - c) if v else lim(t, hi=-c)
                elif k == -1:
                    ok = lim(t, hi=c - 1) if v else lim(t, lo=c)
                else:
                    ok = True
                if not ok:
                    return False
        elif a.k == 'any' and v:
            if find(a.a[0]) is ZERO:
                return False
            n = truth(a.a[0])
            if lits.get(n) is False:
                return False
    shp = {}
    for a, v in lits.items():
        if a.k == 'gt0':
            c, ts = _lin(a.a[0])
            if len(ts) > 1:
                key = tuple(sorted(((t.n, k) for t, k in ts.items())))
                l, h = shp.get(key, (None, None))
                if v:
                    l = 1 - c if l is None else max(l, 1 - c)
                else:
                    h = -c if h is None else min(h, -c)
                shp[key] = (l, h)
        elif a.k == 'eq' and v and (a.a[0].k == 'lin' or a.a[1].k == 'lin' or True):
            c, ts = _lin(sub(a.a[0], a.a[1]))
            if len(ts) > 1:
                key = tuple(sorted(((t.n, k) for t, k in ts.items())))
                if key[0][1] < 0:
                    key = tuple((n, -k) for n, k in key)
                    c = -c
                l, h = shp.get(key, (None, None))
                shp[key] = (-c if l is None else max(l, -c), -c if h is None else min(h, -c))
    for l, h in shp.values():
        if l is not None and h is not None and l > h:
            return False
    for t, (l, h) in rng.items():
        r = find(t)
        if r.k == 'c' and isinstance(r.a[0], int):
            if (l is not None and r.a[0] < l and l > 0) or (h is not None and r.a[0] > h):
                return False
        if l is not None and h is not None and l == h:
            for a, v in lits.items():
                if a.k == 'eq' and not v and ((find(a.a[0]) is r and a.a[1] is C(l)) or (find(a.a[1]) is r and a.a[0] is C(l))):
                    return False
    # masks: band(x, m) == k
    for a, v in lits.items():
        if a.k == 'eq' and v and a.a[1].k == 'c' and a.a[0].k == 'band':
            m = [x.a[0] for x in a.a[0].a if x.k == 'c']
            if m and isinstance(a.a[1].a[0], int) and a.a[1].a[0] & ~m[0]:
                return False
    known = {}
    for t, r in [(t, find(t)) for t in list(par)]:
        if r.k == 'c' and isinstance(r.a[0], int):
            known[t] = r.a[0]
    bits = {}
    for t, v in list(known.items()):
        if t.k == 'band':
            m = [x.a[0] for x in t.a if x.k == 'c']
            base = tuple(x for x in t.a if x.k != 'c')
            if m:
                o, z = bits.get(base, (0, 0))
                o |= v & m[0]
                z |= ~v & m[0]
                if o & z:
                    return False
                bits[base] = (o, z)
            if len(base) == 1 and base[0] in known and m and known[base[0]] & m[0] != v:
                return False
    for a, v in lits.items():
        t = None
        if a.k == 'nz' and a.a[0].k == 'band':
            t, kk, pol = a.a[0], 0, not v
        elif a.k == 'eq' and a.a[1].k == 'c' and a.a[0].k == 'band' and not v:
            t, kk, pol = a.a[0], a.a[1].a[0], False
        if t is None:
            continue
        m = [x.a[0] for x in t.a if x.k == 'c']
        base = tuple(x for x in t.a if x.k != 'c')
        if not m:
            continue
        m = m[0]
        if pol:      # band == 0
            o, z = bits.get(base, (0, 0))
            z |= m
            if o & z:
                return False
            bits[base] = (o, z)
    for a, v in lits.items():
        t = None
        if a.k == 'nz' and a.a[0].k == 'band' and v:
            t, kk = a.a[0], 0
        elif a.k == 'eq' and a.a[1].k == 'c' and a.a[0].k == 'band' and not v:
            t, kk = a.a[0], a.a[1].a[0]
        if t is None:
            continue
        m = [x.a[0] for x in t.a if x.k == 'c']
        base = tuple(x for x in t.a if x.k != 'c')
        if not m or not isinstance(kk, int):
            continue
        m = m[0]
        o, z = bits.get(base, (0, 0))
        if len(base) == 1 and base[0] in known:
            if known[base[0]] & m == kk:
                return False
        # band != kk : impossible when every bit of m is decided and equals kk
        if (o | z) & m == m and (o & m) == kk:
            return False
    return True


def linear_ok(lits):
    """False only if the numeric comparisons contradict each other (Fourier-Motzkin over the integers, operands non-negative)."""
    cs = []          # each: (constant, {term: coefficient}) meaning  sum + constant >= 0
    n = 0
    for a, v in lits.items():
        if a.k == 'gt0':
            c, ts = _lin(a.a[0])
            n += len(ts) > 1
            cs.append((c - 1, dict(ts)) if v else (-c, {t: -k for t, k in ts.items()}))
        elif a.k == 'eq' and v and a.a[1].k not in ('s', 'agg', 'fn', 'lam') and a.a[0].k not in ('s', 'agg', 'fn', 'lam'):
            c, ts = _lin(sub(a.a[0], a.a[1]))
            if not all(isinstance(k, int) for k in ts.values()) or not isinstance(c, int):
                continue
            cs.append((c, dict(ts)))
            cs.append((-c, {t: -k for t, k in ts.items()}))
        elif a.k == 'nz' and a.a[0].k not in ('app', 'lam'):
            t = a.a[0]
            c, ts = _lin(t)
            if not all(isinstance(k, int) for k in ts.values()) or not isinstance(c, int):
                continue
            if not v:
                cs.append((-c, {x: -k for x, k in ts.items()}))
                if len(ts) > 1 or c:
                    cs.append((c, dict(ts)))
            elif len(ts) == 1 and c == 0:
                cs.append((-1, dict(ts)))
    # the first element that satisfies something comes before the end when there is one
    seen = set()
    for a in lits:
        if a.k in ('gt0', 'nz', 'eq'):
            for t in [t for y in a.a if isinstance(y, T) for t in _lin(y)[1] if t.k == 'first']:
                if t in seen:
                    continue
                seen.add(t)
                q = t.a[0]
                while q.k == 'and':
                    q = next((x for x in q.a if x.k == 'any'), None) or TRUE
                if q.k != 'any':
                    continue
                if lits.get(q) is True:
                    c, ts = _lin(sub(sub(q.a[0], t), ONE))
                    if isinstance(c, int) and all(isinstance(k, int) for k in ts.values()):
                        n += 1
                        cs.append((c, dict(ts)))
                elif lits.get(q) is False and q is t.a[0]:
                    # the search of the first one that is not there gives the end
                    c, ts = _lin(sub(t, q.a[0]))
                    if isinstance(c, int) and all(isinstance(k, int) for k in ts.values()):
                        n += 1
                        cs.append((c, dict(ts)))
    if not n:
        return True
    # only what hangs together with a comparison of several terms
    vs = set()
    for c, ts in cs:
        if len(ts) > 1:
            vs |= set(ts)
    for _ in range(4):
        for c, ts in cs:
            if set(ts) & vs:
                vs |= set(ts)
    cs = [(c, ts) for c, ts in cs if set(ts) & vs]
    if len(vs) > 14 or len(cs) > 50:
        return True
    for t in vs:
        cs.append((0, {t: 1}))
    while vs:
        t = min(vs, key=lambda x: (sum(1 for c, ts in cs if ts.get(x, 0) > 0) * sum(1 for c, ts in cs if ts.get(x, 0) < 0), x.n))
        vs.discard(t)
        pos = [x for x in cs if x[1].get(t, 0) > 0]
        ng = [x for x in cs if x[1].get(t, 0) < 0]
        out = {}
        for c, ts in cs:
            if not ts.get(t, 0):
                out[(c, tuple(sorted((x.n, k) for x, k in ts.items())))] = (c, ts)
        for c1, t1 in pos:
            for c2, t2 in ng:
                p, q = -t2[t], t1[t]
                ts = {}
                for x, k in t1.items():
                    ts[x] = ts.get(x, 0) + p * k
                for x, k in t2.items():
                    ts[x] = ts.get(x, 0) + q * k
                ts = {x: k for x, k in ts.items() if k}
                c = p * c1 + q * c2
                if not ts:
                    if c < 0:
                        return False
                    continue
                g = 0
                for k in ts.values():
                    g = math.gcd(g, k)
                if g > 1:
                    ts = {x: k // g for x, k in ts.items()}
                    c = c // g            # floor: integers only
                out[(c, tuple(sorted((x.n, k) for x, k in ts.items())))] = (c, ts)
        cs = list(out.values())
        if len(cs) > 400:
            return True
    return all(c >= 0 for c, ts in cs if not ts)


HARD = ('mul', 'mod', 'div', 'shr', 'shl', 'bxor', 'bor')
ARITH = HARD + ('lin', 'band', 'c', 'ite', 'gt0', 'eq', 'nz', 'and', 'or', 'not')


@memo
def hard_arith(t):
    """The atom compares results of arithmetic the case splitting treats as opaque."""
    st = [t]
    while st:
        x = st.pop()
        if x.k in HARD or x.k == 'app' and x.a[0] in ('max', 'min') or x.k == 'band' and not (any(y.k == 'c' for y in x.a) and all(y.k not in ARITH or y.k == 'c' for y in x.a)):
            return TRUE
        if x.k in ARITH and x.k != 'c':
            if x.k == 'lin':
                st.extend(y for y, _ in x.a[1])
            else:
                st.extend(y for y in x.a if isinstance(y, T))
    return FALSE


def arith_leaves(t, out):
    if t.k in ARITH or t.k == 'app' and t.a[0] in ('max', 'min'):
        if t.k == 'c':
            return
        if t.k == 'lin':
            for y, _ in t.a[1]:
                arith_leaves(y, out)
        else:
            for y in t.a:
                if isinstance(y, T):
                    arith_leaves(y, out)
    elif t not in out:
        out.append(t)


def arith_eval(t, env):
    k = t.k
    if k == 'c':
        return int(t.a[0])
    if k == 'app' and t.a[0] in ('max', 'min'):
        return (max if t.a[0] == 'max' else min)(arith_eval(y, env) for y in t.a[1:])
    if k not in ARITH:
        return env[t]
    if k == 'lin':
        return t.a[0] + sum(c * arith_eval(y, env) for y, c in t.a[1])
    v = [arith_eval(y, env) for y in t.a]
    if k == 'mul':
        r = 1
        for x in v:
            r *= x
        return r
    if k in ('mod', 'div'):
        return (v[0] % v[1] if k == 'mod' else v[0] // v[1]) if v[1] else 0
    if k in ('shr', 'shl'):
        if not 0 <= v[1] < 64:
            return 0
        return v[0] >> v[1] if k == 'shr' else v[0] << v[1]
    if k in ('band', 'bor', 'bxor'):
        r = v[0]
        for x in v[1:]:
            r = r & x if k == 'band' else r | x if k == 'bor' else r ^ x
        return r
    if k == 'ite':
        return v[1] if v[0] else v[2]
    if k == 'gt0':
        return v[0] > 0
    if k == 'eq':
        return v[0] == v[1]
    if k == 'nz':
        return v[0] != 0
    if k == 'and':
        return all(v)
    if k == 'or':
        return any(v)
    if k == 'not':
        return not v[0]
    raise KeyError(k)


def confirmed(w):
    """The assignment of the atoms that involve non-linear arithmetic is realised by actual numbers."""
    rel = [(a, v) for a, v in w.items() if hard_arith(a) is TRUE]
    if not rel:
        return True
    leaves = []
    for a, _ in rel:
        arith_leaves(a, leaves)
    for a, v in w.items():
        if hard_arith(a) is TRUE or a.k not in ('gt0', 'eq', 'nz'):
            continue
        l = []
        arith_leaves(a, l)
        if l and all(x in leaves for x in l):
            rel.append((a, v))
    if len(leaves) > 12:
        return False
    pool = {0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 31, 63, 100, 255, 256, 1000}
    for a, _ in rel:
        for x in subterms(a):
            if x.k == 'c' and isinstance(x.a[0], int) and 0 <= x.a[0] < 1 << 40:
                pool |= {x.a[0], x.a[0] + 1, max(0, x.a[0] - 1)}
            if x.k == 'lin' and isinstance(x.a[0], int):
                pool |= {abs(x.a[0]), abs(x.a[0]) + 1}
    pool = sorted(pool)
    rng = random.Random(7)
    try:
        for n in range(4000):
            env = {l: rng.choice(pool) if rng.random() < .8 else rng.randrange(1 << 16) for l in leaves}
            if all(bool(arith_eval(a, env)) == v for a, v in rel):
                return True
    except (KeyError, TypeError, ValueError):
        return True
    return False


_satmemo = {}


class TooBig(Exception):
    pass


def sat(f, lits=None, _n=None):
    """A consistent assignment of atoms making f true, or None."""
    f = truth(f)
    if lits is None:
        k = (f, _deep[0], _commons[0])
        if k in _satmemo:
            return _satmemo[k]
        r = _satmemo[k] = _sat(f, {}, [0])
        return r
    return _sat(f, dict(lits), [0])


# whether conditions under the binders of loop systems are split on too
_deep = [False]
_nested = [0]
# searches that are the same on both sides of a comparison: what they look for does not matter
_commons = [frozenset()]


def both_ways(f):
    """Conditions under binders are only looked at when the others do not settle the question."""
    def g(*a, **k):
        if _nested[0]:
            return f(*a, **k)
        _nested[0] = 1
        try:
            r = f(*a, **k)
            if r[0] == 'undecided':
                _deep[0] = True
                try:
                    r = f(*a, **k)
                finally:
                    _deep[0] = False
            if r[0] == 'undecided' and f.__name__ == 'same':
                for gk, ak, bk in iterations(*a[:3]):
                    if satisfiable(gk):
                        rk = f(gk, ak, bk)
                        if rk[0] == 'no':
                            return rk
            return r
        finally:
            _nested[0] = 0
    g.__name__ = f.__name__
    return g


def unbound(t):
    """Sub-terms outside loop systems, whose variables are bound there."""
    if _deep[0]:
        yield from subterms(t)
        return
    st, seen = [t], set()
    common = _commons[0]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            yield x
            if x in common:
                continue
            if x.k == 'app' and x.a[0] in LOOP_APPS:
                # the iteration looked at is not bound
                st.extend(y for y in x.a[1:] if isinstance(y, T) and not (y.k == 'app' and y.a[0] == 'loopsys') and not bound_vars(y))
            else:
                st.extend(x.a)


def has_ite(t):
    """Contains a conditional value, or a conditional element."""
    return _has_ite(t, _deep[0], _commons[0])


@memo
def _has_ite(t, deep, shared):
    for x in unbound(t):
        if x.k == 'ite' or x.k == 'seq' and _seq_if(x.a[2]) is not None:
            return TRUE
    return FALSE


def _sat(f, lits, n):
    if f is FALSE:
        return None
    n[0] += 1
    if n[0] > 6000:
        raise TooBig()
    if f is TRUE:
        return dict(lits) if lits_consistent(lits) and linear_ok(lits) else None
    # unit propagation on conjunctions
    if f.k == 'and':
        new = {}
        for x in f.a:
            a, v = (x.a[0], False) if x.k == 'not' else (x, True)
            if a.k in ('and', 'or', 'ite') or has_ite(a) is TRUE:
                continue
            if lits.get(a, v) is not v:
                # re-normalising brought back a condition that has been settled
                return None
            new[a] = v
        if new:
            l2 = dict(lits)
            l2.update(new)
            if not lits_consistent(l2):
                return None
            return _sat(assign(f, new), l2, n)
    a = pick(f)
    for v in (True, False):
        if lits.get(a, v) is not v:
            continue
        l2 = dict(lits)
        l2[a] = v
        if not lits_consistent(l2):
            continue
        r = _sat(assign(f, {a: v}), l2, n)
        if r is not None:
            return r
    return None


def assign_map(m):
    r = {}
    for a, v in m.items():
        r[a] = TRUE if v else FALSE
        if v and a.k == 'eq' and a.a[1].k in ('c', 's') and a.a[0].k not in ('c', 's'):
            r[a.a[0]] = a.a[1]
        elif v and a.k == 'eq' and a.a[0].k in ('c', 's') and a.a[1].k not in ('c', 's'):
            r[a.a[1]] = a.a[0]
        elif not v and a.k == 'nz' and a.a[0].k != 'app':
            r[a.a[0]] = ZERO
    return r


def assign(f, m):
    return norm_seq(subst(f, assign_map(m)))


def pick(f):
    """Splitting atom: an undecided condition nested in the operands of another atom first."""
    cnt = {}
    st = [f]
    while st:
        x = st.pop()
        if x.k in ('and', 'or', 'not'):
            st.extend(x.a)
        elif x.k == 'ite':
            st.extend(x.a)
        elif x.k != 'c':
            cnt[x] = cnt.get(x, 0) + 1
    nested = [a for a in cnt if has_ite(a) is TRUE]
    if nested:
        c = first_ite(*nested)
        if c is not None:
            return c
    return max(cnt, key=lambda x: (cnt[x], -x.n))


@both_ways
def implies(g, h):
    """'yes' | 'no' (with a witness) | 'undecided'"""
    d = and_(g, not_(h))
    return _verdict(d, g, h)


@both_ways
def equiv(g, h):
    if g is h:
        return ('yes', None)
    g, no = align(g, h)
    d = or_(and_(g, not_(h)), and_(not_(g), h))
    r = _verdict(d, g, h)
    if r[0] != 'yes' and no is None and searching(g) and searching(h):
        cg, ch = canonical(g), canonical(h)
        if cg is not None and ch is not None:
            r = ('yes', None) if cg is ch else _verdict(or_(and_(cg, not_(ch)), and_(not_(cg), ch)), cg, ch)
    return no if no is not None and r[0] == 'yes' else r


FUNS = {'app': 1, 'has': 0, 'at': 0, 'idx': 0}


def calls_of(t):
    return [x for x in unbound(t) if x.k in FUNS and not (x.k == 'app' and x.a[0] in LOOP_APPS)]


def firsts(t):
    return [x for x in unbound(t) if x.k == 'first']


def facts_of_first(f):
    """There is none, or it comes before the end and satisfies the condition."""
    q = f.a[0]
    a = q
    while a.k == 'and':
        a = next((x for x in a.a if x.k == 'any'), None)
        if a is None:
            return TRUE
    if a.k != 'any':
        return TRUE
    bs = {x for x in subterms(a.a[1]) if x.k == 'bv'}
    bs = {b for b in bs if b.a[0] < 90 and not any(b in subterms(x.a[1]) for x in subterms(a.a[1]) if x.k == 'any')}
    if len(bs) != 1:
        return or_(not_(q), gt0(sub(a.a[0], f)))
    return or_(not_(q), and_(gt0(sub(a.a[0], f)), truth(subst(a.a[1], {bs.pop(): f}))))


def settled(t, m):
    """A term under an assignment."""
    t = subst(t, m)
    r = {}
    for x in subterms(t):
        if x.k == 'upd' and all(isinstance(n, str) for n, _ in x.a[1]):
            kept = tuple((n, v) for n, v in x.a[1] if m.get(fld(x.a[0], n)) is not v)
            if len(kept) < len(x.a[1]):
                r[x] = upd(x.a[0], kept)
    return subst(t, r) if r else t


def congruent(d):
    """A satisfying assignment under which a function given the same arguments has the same value."""
    done = set()
    merged = False
    for _ in range(24):
        w = sat(d)
        if w is None:
            return None
        # what the first element that satisfies something does satisfy
        fs = [f for f in firsts(d) if f not in done]
        if fs:
            done.update(fs)
            d = and_(d, *[facts_of_first(f) for f in fs])
            continue
        heads = {}
        for x in calls_of(d):
            heads.setdefault((x.k, x.a[0] if x.k == 'app' else '', len(x.a)), []).append(x)
        m = None
        for (k, _, _), xs in heads.items():
            xs = [x for x in xs if any(isinstance(y, T) and y.k != 'c' for y in x.a)]
            if len(xs) < 2 or len(xs) > 24:
                continue
            if m is None:
                m = assign_map(w)
            ev = {}
            for x in xs:
                ev.setdefault(tuple(alpha(norm_seq(settled(y, m))) if isinstance(y, T) else y for y in x.a[FUNS[k]:]), []).append(x)
            for same_ in ev.values():
                if len(same_) < 2:
                    continue
                ys = sorted(same_, key=lambda t: t.n)
                x, y = next(((p, q) for p in ys for q in ys if p.n < q.n and (p, q) not in done), (None, None))
                if x is None:
                    continue
                done.add((x, y))
                e = and_(*[eq(p, q) for p, q in zip(x.a[FUNS[k]:], y.a[FUNS[k]:]) if isinstance(p, T) and p is not q])
                if e is FALSE:
                    continue
                d2 = or_(and_(not_(e), d), and_(e, subst(d, {y: x})))
                if d2 is d:
                    continue
                d = d2
                break
            else:
                continue
            break
        else:
            if not merged:
                # two searches for the same thing, put differently
                merged = True
                d2 = merge_searches(d)
                if d2 is not d:
                    d = d2
                    continue
            return w
    raise TooBig()


_MERGE = {}


def merge_searches(d):
    groups = {}
    for x in subterms(d):
        if isinstance(x, T) and x.k == 'any':
            groups.setdefault(x.a[0], []).append(x)
    m = {}
    for xs in groups.values():
        if len(xs) < 2 or len(xs) > 8:
            continue
        xs.sort(key=lambda t: t.n)
        for i, y in enumerate(xs):
            for x in xs[:i]:
                if x in m:
                    continue
                r = _MERGE.get((x, y))
                if r is None:
                    p, q = x.a[1], y.a[1]
                    try:
                        r = congruent(or_(and_(p, not_(q)), and_(q, not_(p)))) is None
                    except TooBig:
                        r = False
                    _MERGE[(x, y)] = r
                if r:
                    m[y] = x
                    break
    return subst(d, m) if m else d


def _verdict(d, g, h):
    try:
        w = congruent(d)
    except TooBig:
        return ('undecided', 'too many cases')
    if w is None:
        return ('yes', None)
    if is_opaque(g, h):
        return ('undecided', 'opaque condition')
    if not confirmed(w):
        return ('undecided', 'arithmetic: ' + show_w(w))
    return ('no', w)


def show_w(w):
    if not w:
        return 'always'
    return ', '.join(('' if v else 'not ') + show(a) for a, v in sorted(w.items(), key=lambda x: x[0].n))[:600]


def satisfiable(g):
    try:
        return sat(g) is not None
    except TooBig:
        return True


# ------------------------------------------------------------------------------ value comparison
def strip_ptr(t):
    """Drops the address part of pointer snapshots: only the contents count."""
    m = {}
    for x in subterms(t):
        if x.k == 'ptrto':
            m[x] = None
    if not m:
        return t
    return _strip(t, {})


def _strip(t, memo_):
    r = memo_.get(t)
    if r is not None:
        return r
    if t.k == 'ptrto':
        r = mk('ptr', _strip(t.a[0], memo_))
    else:
        def go(x):
            if isinstance(x, T):
                return _strip(x, memo_)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        a = tuple(go(x) for x in t.a)
        if a == t.a:
            r = t
        else:
            r = rebuild(t.k, a)
    memo_[t] = r
    return r


def inner_atom(t):
    """An ite-free condition some conditional value inside the term depends on."""
    return _inner_atom(t, _deep[0], _commons[0])


@memo
def _inner_atom(t, deep, shared):
    best = None
    for x in unbound(t):
        c = None
        if x.k == 'ite':
            c = x.a[0]
        elif x.k == 'seq':
            c = _seq_if(x.a[2])
        if c is None or has_ite(c) is TRUE:
            continue
        if best is None or c.n < best.n:
            best = c
    if best is None:
        return FALSE
    return min(atoms(best), key=lambda a: a.n)


def first_ite(*ts):
    """A branching condition inside the terms (innermost conditions first)."""
    for t in ts:
        c = inner_atom(t)
        if c is not FALSE:
            return c
    for t in ts:
        for x in unbound(t):
            if x.k in ('and', 'or'):
                return min(atoms(x), key=lambda a: a.n)
    return None


def _seq_if(items):
    for i in items:
        if i[0] == 'if':
            return i[1]
        if i[0] == 'loop':
            c = _seq_if(i[3])
            if c is not None:
                return c
    return None


def slots(items, g, guard=TRUE):
    """The elements a sequence gets, in order: [(guard, kind, payload)], alternatives sharing one slot."""
    out = []

    def put(gd, kind, v):
        if out:
            h, k, w = out[-1]
            if k == kind and (kind == 'item' or w is v or w == v):
                both = and_(g, gd, h)
                try:
                    excl = both is FALSE or sat(both) is None
                except TooBig:
                    excl = False
                if excl:
                    out[-1] = (or_(h, gd), kind, w if w is v or w == v else ite(gd, v, w))
                    return
        out.append((gd, kind, v))

    def go(its, gd):
        for i in its:
            if i[0] == 'if':
                go(i[2], and_(gd, i[1]))
                go(i[3], and_(gd, not_(i[1])))
            elif gd is FALSE:
                continue
            elif i[0] == 'item':
                put(gd, 'item', i[1])
            elif i[0] == 'loop' and not slots(i[3], g, gd):
                continue
            else:
                put(gd, i[0], tuple(i[1:]))
    go(items, guard)
    r = []
    for gd, k, v in out:
        try:
            if gd is FALSE or sat(and_(g, gd)) is None:
                continue
        except TooBig:
            pass
        r.append((gd, k, v))
    return r


def same_items(g, x, y, depth, budget):
    """Compares the elements two sequences get, slot by slot; 'undecided' when the slots do not correspond."""
    x, y = slots(x, g), slots(y, g)
    if not x and not y:
        return ('yes', None)
    sure = all(gd is TRUE and k == 'item' for gd, k, _ in x + y)
    if len(x) != len(y):
        if sure or not x or not y:
            if is_opaque(*[gd for gd, _, _ in x + y]):
                return ('undecided', 'opaque condition')
            return ('no', '%d elements instead of %d' % (len(x), len(y)))
        return ('undecided', 'elements in a different arrangement')
    res = ('yes', None)
    for (gx, kx, vx), (gy, ky, vy) in zip(x, y):
        if kx != ky:
            return ('undecided', 'elements in a different arrangement')
        if gx is not gy:
            r = equiv(and_(g, gx), and_(g, gy))
            if r[0] == 'no' and len(x) == 1:
                return ('no', 'element added under another condition: ' + (show_w(r[1]) if isinstance(r[1], dict) else str(r[1])))
            if r[0] != 'yes':
                return ('undecided', 'condition of an element')
        gg = and_(g, gx)
        if kx == 'item':
            r = same(gg, vx, vy, depth + 1, budget)
        elif kx == 'loop' and len(vx) >= 3 and len(vy) >= 3 and vx[0] == vy[0]:
            r = same(gg, vx[1], vy[1], depth + 1, budget)
            if r[0] == 'yes':
                if vx[3:] != vy[3:]:
                    return ('undecided', 'loops end differently')
                r = same_items(gg, vx[2], vy[2], depth + 1, budget)
        elif vx == vy:
            r = ('yes', None)
        else:
            return ('undecided', 'elements in a different arrangement')
        if r[0] == 'no':
            return r
        if r[0] != 'yes':
            res = r
    return res


def norm_seq(t):
    """Resolves decided conditional items in sequences."""
    def items(its):
        out = []
        for i in its:
            if i[0] == 'if':
                if i[1] is TRUE:
                    out.extend(items(i[2]))
                elif i[1] is FALSE:
                    out.extend(items(i[3]))
                else:
                    x, y = tuple(items(i[2])), tuple(items(i[3]))
                    if not x and not y:
                        continue
                    if not x or (y and i[1].k == 'not'):
                        out.append(('if', not_(i[1]), y, x))
                    else:
                        out.append(('if', i[1], x, y))
            elif i[0] == 'loop':
                out.append(('loop', i[1], i[2], tuple(items(i[3]))) + tuple(i[4:]))
            elif i[0] == 'splice':
                splice(i[1], out)
            else:
                out.append(i)
        return out

    def splice(v, out):
        # appending a range appends its elements in order
        if v.k == 'seq' and v.a[0] == 'vec':
            if v.a[1] is not None:
                splice(v.a[1], out)
            out.extend(items(v.a[2]))
        elif v.k in ('sym', 'fld', 'idx', 'at'):
            n[0] += 1
            out.append(('loop', 900000 + n[0], size(v), (('item', idx(v, mk('lv', 900000 + n[0]))),)))
        else:
            out.append(('splice', v))
    n = [0]
    if not any(x.k == 'seq' for x in subterms(t)):
        return t
    m = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in m:
            return m[x]
        a = tuple(go(y) for y in x.a)
        if x.k == 'seq':
            its = tuple(items(a[2]))
            r = a[1] if a[1] is not None and not its else rebuild('seq', (a[0], a[1], its))
        else:
            r = x if a == x.a else rebuild(x.k, a)
        m[x] = r
        return r
    return go(t)


# small structures whose fields are all set
WHOLE = frozenset(map(frozenset, (('width', 'height'), ('width', 'height', 'depth'), ('x', 'y'), ('x', 'y', 'z'), ('offset', 'extent'), ('access', 'pipelineStage'), ('layout', 'state'))))


@memo
def choosy(t):
    """Searches with a conditional value in what they look for."""
    return frozenset(x for x in subterms(t) if x.k == 'any' and any(y.k == 'ite' for y in subterms(x.a[1])))


@both_ways
def same(g, a, b, depth=0, budget=None):
    """Are a and b the same value whenever g holds?  ('yes'|'no'|'undecided', witness)"""
    if budget is None:
        budget = [400]
    budget[0] -= 1
    if budget[0] < 0:
        return ('undecided', 'too many cases')
    if a is b:
        return ('yes', None)
    a, b = alpha(norm_seq(a)), alpha(norm_seq(b))
    if a is b:
        return ('yes', None)
    if depth == 0 and g is not TRUE:
        r = same(TRUE, a, b, 1, [min(150, budget[0])])
        if r[0] == 'yes':
            return r
    if zeroish(a) and zeroish(b):
        return ('yes', None)
    if a.k == 'nz' and b.k == 'nz' and a.a[0].k == 'app' and b.a[0].k == 'app' and a.a[0].a[0] in LOOP_APPS and b.a[0].a[0] == a.a[0].a[0]:
        a, b = a.a[0], b.a[0]
    if a.k == 'app' and b.k == 'app' and a.a[0] in LOOP_APPS and a.a[0] == b.a[0]:
        return same_loop(g, a, b, depth, budget)
    if is_bool(a) and is_bool(b):
        return equiv(and_(g, a), and_(g, b)) if g is not TRUE else equiv(a, b)
    if a.k == 'ite' and b.k == 'ite':
        ca = ('yes', None) if a.a[0] is b.a[0] else equiv(a.a[0], b.a[0])
        if ca[0] == 'yes':
            res = ('yes', None)
            for x, y, l in ((a.a[1], b.a[1], a.a[0]), (a.a[2], b.a[2], not_(a.a[0]))):
                gg = and_(g, l)
                if gg is FALSE or not satisfiable(gg):
                    continue
                r = same(gg, x, y, depth + 1, budget)
                if r[0] == 'no':
                    return r
                if r[0] != 'yes':
                    res = r
            return res
    if depth < 3 and loop_terms(a) != loop_terms(b):
        a, no = align(a, b, budget)
        if a is b:
            return no or ('yes', None)
        if no is not None:
            return ('undecided', 'loops differ: ' + str(no[1])[:200])
    if a.k == 'seq' and b.k == 'seq' and a.a[0] == b.a[0] and a.a[1] is b.a[1] and a.a[0] == 'vec':
        r = same_items(g, a.a[2], b.a[2], depth, budget)
        if r[0] != 'undecided':
            return r
    for x, y in ((a, b), (b, a)):
        # an element put after those of a container, and before them
        if x.k == 'seq' and y.k == 'seq' and x.a[0] == y.a[0] == 'vec' and x.a[1] is not None and y.a[1] is None and len(x.a[2]) == 1 and len(y.a[2]) == 2 \
                and x.a[2][0][0] == 'item' and y.a[2][0][0] == 'item' and x.a[1].k in ('sym', 'fld') \
                and alpha(norm_seq(mk('seq', 'vec', None, (y.a[2][0], ('splice', x.a[1]))))) is y \
                and not any(s_ is x.a[1] for s_ in subterms(x.a[2][0][1])):
            gg = and_(g, truth(size(x.a[1])))
            if is_opaque(gg):
                return ('undecided', 'opaque condition')
            try:
                w = sat(gg)
            except TooBig:
                return ('undecided', 'too many cases')
            if w is None:
                return same(and_(g, not_(truth(size(x.a[1])))), x.a[2][0][1], y.a[2][0][1], depth + 1, budget)
            return ('no', 'an element comes %s the others' % ('after' if x is a else 'before')) if confirmed(w) else ('undecided', 'order of elements')
    if a.k == 'upd' and b.k == 'upd' and a.a[0] is not b.a[0] and {n for n, _ in a.a[1]} == {n for n, _ in b.a[1]} and frozenset(n for n, _ in a.a[1]) in WHOLE:
        da, db = dict(a.a[1]), dict(b.a[1])
        a, b = (mk('agg', 'whole', tuple((n, d[n]) for n in sorted(d))) for d in (da, db))
    for x, y in ((a, b), (b, a)):
        # a small structure rebuilt from the fields of another one
        if x.k == 'agg' and y.k in ('fld', 'sym', 'at', 'idx') and frozenset(n for n, _ in x.a[1]) in WHOLE:
            rs = [same(g, v, mk('fld', y, n), depth + 1, budget) for n, v in x.a[1]]
            if all(r[0] == 'yes' for r in rs):
                return ('yes', None)
            for r in rs:
                if r[0] == 'no':
                    return r
    if {a.k, b.k} == {'agg', 'upd'}:
        x, y = (a, b) if a.k == 'agg' else (b, a)
        ns = [n for n, _ in x.a[1]]
        if ns and all(isinstance(n, str) for n in ns) and all(n in ns for n, _ in y.a[1]):
            res = ('yes', None)
            for n in ns:
                r = same(g, fld(a, n), fld(b, n), depth + 1, budget)
                if r[0] == 'no':
                    return ('no', '.%s: %s' % (n, r[1]))
                if r[0] != 'yes':
                    res = r
            return res
    # constructors are compared component by component
    if a.k == b.k and a.k in ('agg', 'ptr', 'some', 'upd', 'fld', 'app', 'idx', 'at', 'seq', 'it', 'cat', 'bor', 'eq', 'has'):
        r = decompose(g, a, b, depth, budget)
        if r is not None:
            return r
    # use what the guard says
    lits = list(g.a) if g.k == 'and' else [g] if g is not TRUE else []
    if lits:
        m = {}
        for l in lits:
            m.update(assign_map({l.a[0]: False} if l.k == 'not' else {l: True}))
        a2, b2 = alpha(norm_seq(subst(a, m))), alpha(norm_seq(subst(b, m)))
        if a2 is b2:
            return ('yes', None)
        a, b = a2, b2
    if (a.k == 'ite') != (b.k == 'ite'):
        # a choice against a fixed value: a branch that is plainly another value settles it
        i, o = (a, b) if a.k == 'ite' else (b, a)
        for br, l in ((i.a[1], i.a[0]), (i.a[2], not_(i.a[0]))):
            if {br.k, o.k} <= {'ptr', 'c', 's'} and br.k != o.k and not is_opaque(l):
                try:
                    w = sat(and_(g, l))
                except TooBig:
                    continue
                if w is not None and confirmed(w):
                    return ('no', '%s instead of %s when %s' % (show(a)[:200], show(b)[:200], show_w(w)[:300]))
    common = [x for x in choosy(a) & choosy(b) if x not in _commons[0]]
    if common:
        keep = _commons[0]
        _commons[0] = keep | frozenset(common)
        try:
            return same(g, a, b, depth + 1, budget)
        finally:
            _commons[0] = keep
    c = first_ite(a, b)
    if c is not None:
        res = ('yes', None)
        for lit, v in ((c, TRUE), (not_(c), FALSE)):
            gg = and_(g, lit)
            try:
                if sat(gg) is None:
                    continue
            except TooBig:
                return ('undecided', 'too many cases')
            m = assign_map({c: v is TRUE})
            r = same(gg, subst(a, m), subst(b, m), depth + 1, budget)
            if r[0] == 'no':
                return r
            if r[0] == 'undecided':
                res = r
        return res
    if a.k == 'agg' and b.k == 'agg' and [n for n, _ in a.a[1]] == [n for n, _ in b.a[1]]:
        res = ('yes', None)
        for (n, x), (_, y) in zip(a.a[1], b.a[1]):
            r = same(g, x, y, depth + 1, budget)
            if r[0] == 'no':
                return ('no', '.%s: %s' % (n, r[1]))
            if r[0] != 'yes':
                res = r
        return res
    for x, y in ((a, b), (b, a)):
        if x.k == 'upd' and x.a[0].k == 'sym' and str(x.a[0].a[0]).startswith('uninit:') and all(isinstance(n, str) for n, _ in x.a[1]):
            ns = [n for n, _ in x.a[1]]
            if y.k == 'upd' and any(n not in ns for n, _ in y.a[1]):
                break
            res = ('yes', None)
            for n, v in x.a[1]:
                p, q = (v, fld(y, n)) if x is a else (fld(y, n), v)
                r = same(g, p, q, depth + 1, budget)
                if r[0] == 'no':
                    return ('no', '.%s: %s' % (n, r[1]))
                if r[0] != 'yes':
                    res = r
            return res
    if {a.k, b.k} == {'agg', 'c'} or (a.k == 'agg' and b.k == 'agg'):
        x = a if a.k == 'agg' else b
        y = b if x is a else a
        # zero initialisation spelled differently
        if y is ZERO or y.k == 'agg':
            names = [n for n, _ in x.a[1]] + ([n for n, _ in y.a[1]] if y.k == 'agg' else [])
            for n in names:
                fx = aggf(x, n)
                fy = aggf(y, n)
                if fx is None or fy is None:
                    return ('undecided', 'aggregate shapes %s / %s' % (show(a)[:100], show(b)[:100]))
                r = same(g, fx, fy, depth + 1, budget)
                if r[0] != 'yes':
                    return r
            return ('yes', None)
    za, zb = over_zero(a), over_zero(b)
    if za is not None and zb is not None and (za or zb):
        res = ('yes', None)
        for n in sorted(set(za) | set(zb), key=str):
            r = same(g, za.get(n, ZERO), zb.get(n, ZERO), depth + 1, budget)
            if r[0] == 'no':
                return ('no', '.%s: %s' % (n if isinstance(n, str) else show(n), r[1]))
            if r[0] != 'yes':
                res = r
        return res
    if {a.k, b.k} == {'ptr', 'c'} and opaque(g) is not TRUE:
        return ('no', '%s instead of %s%s' % (show(a)[:300], show(b)[:300], ' when ' + show(g)[:300] if g is not TRUE else ''))
    if is_opaque(a, b) or any(x.k == 'addr' and isinstance(x.a[0], tuple) and len(x.a[0]) > 2 and x.a[0][2] == '?' for x in (a, b)):
        return ('undecided', '%s / %s' % (show(a)[:150], show(b)[:150]))
    if a.k == 'f' or b.k == 'f':
        x, y = num(a), num(b)
        if x is not None and y is not None:
            return ('yes', None) if abs(x - y) < 1e-6 else ('no', '%s instead of %s' % (show(a), show(b)))
    e = eq(a, b)
    if e is TRUE:
        return ('yes', None)
    if a.k == 'lam' and b.k == 'lam':
        return ('yes', None)
    if a.k == 'addr' and b.k == 'addr' and isinstance(a.a[0], tuple) and isinstance(b.a[0], tuple):
        return ('undecided', 'different local objects: %s / %s' % (show(a)[:100], show(b)[:100]))
    if e.k != 'c' or g is not TRUE:
        try:
            w = congruent(and_(g, not_(e)))
            if w is None:
                return ('yes', None)
            if not confirmed(w):
                return ('undecided', 'arithmetic: ' + show_w(w))
        except TooBig:
            return ('undecided', 'too many cases')
    return ('no', '%s instead of %s%s' % (show(a)[:300], show(b)[:300], ' when ' + show(g)[:300] if g is not TRUE else ''))


def zeroish(t):
    """A value-initialised object, however it is written."""
    if t is ZERO:
        return True
    if t.k == 'agg':
        return all(zeroish(v) for _, v in t.a[1])
    if t.k == 'upd':
        return zeroish(t.a[0]) and all(zeroish(v) for _, v in t.a[1])
    return False


def over_zero(t):
    """Fields of an object built by updating a value-initialised one; None when it is not."""
    if t is ZERO or t.k == 'agg' and (t.a[0] == 'zero' or zeroish(t)):
        return {}
    if t.k == 'agg':
        return dict(t.a[1]) if all(isinstance(n, str) for n, _ in t.a[1]) else None
    if t.k == 'upd':
        b = over_zero(t.a[0])
        if b is None or not all(isinstance(n, str) for n, _ in t.a[1]) or not all(isinstance(n, str) for n in b):
            return None
        b = dict(b)
        b.update(dict(t.a[1]))
        return b
    return None


def decompose(g, a, b, depth, budget):
    """Component-wise comparison of terms with the same constructor; None when it settles nothing."""
    inj = a.k in ('agg', 'ptr', 'some')
    if a.k == 'agg':
        if [n for n, _ in a.a[1]] != [n for n, _ in b.a[1]]:
            return None
        pairs = [(x[1], y[1], x[0]) for x, y in zip(a.a[1], b.a[1])]
    else:
        pairs = []
        if not _pairs(a.a, b.a, pairs):
            return None
    if sum(1 for x, y, _ in pairs if x is not y) > 3 and not inj:
        return None
    res = ('yes', None)
    for x, y, n in pairs:
        if x is y:
            continue
        r = same(g, x, y, depth + 1, budget if inj else [min(60, budget[0])])
        if r[0] != 'yes':
            if not inj:
                return None
            if r[0] == 'no':
                return ('no', '%s%s' % ('.%s: ' % n if n is not None else '', r[1]))
            res = r
    return res


def _pairs(x, y, out):
    if len(x) != len(y):
        return False
    for p, q in zip(x, y):
        if isinstance(p, T) and isinstance(q, T):
            out.append((p, q, None))
        elif isinstance(p, tuple) and isinstance(q, tuple):
            if not _pairs(p, q, out):
                return False
        elif p != q:
            return False
    return True


def num(t):
    if t.k == 'f':
        return float(t.a[0])
    if t.k == 'c' and isinstance(t.a[0], int):
        return float(t.a[0])
    return None


def aggf(x, n):
    if x is ZERO:
        return ZERO
    for m, v in x.a[1]:
        if m == n:
            return v
    if x.a[0] == 'zero' or not x.a[1]:
        return ZERO
    return None


@memo
def alpha(t):
    """Renames loop variables of sequence comprehensions canonically."""
    ids = []
    for x in subterms(t):
        if x.k == 'seq':
            _seq_lids(x.a[2], ids)
    if not ids:
        return t
    # canonical order: by nesting occurrence in a deterministic structural walk
    order = []

    def walk_(x):
        if isinstance(x, tuple):
            if x and x[0] in ('loop', 'loopset') and len(x) > 2 and isinstance(x[1], int):
                if x[1] not in order:
                    order.append(x[1])
            for y in x:
                walk_(y)
        elif isinstance(x, T):
            for y in x.a:
                walk_(y)
    walk_(t.a)
    ren = {o: -(i + 1) for i, o in enumerate(order)}

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] in ('loop', 'loopset') and len(x) > 2 and isinstance(x[1], int) and x[1] in ren:
                return (x[0], ren[x[1]]) + tuple(go(y) for y in x[2:])
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = mm.get(x)
        if r is None:
            if x.k == 'lv' and x.a[0] in ren:
                r = mk('lv', ren[x.a[0]])
            else:
                a = tuple(go(y) for y in x.a)
                r = x if a == x.a else rebuild(x.k, a)
            mm[x] = r
        return r
    mm = {}
    return go(t)


def _seq_lids(items, ids):
    for i in items:
        if i[0] in ('loop', 'loopset'):
            ids.append(i[1])


def merge_occs(occs, argn=None):
    """Merges mutually exclusive occurrences into one guarded call: (guard, merged args)."""
    if not occs:
        return FALSE, []
    g = occs[-1].guard
    args = list(occs[-1].vals)
    for o in reversed(occs[:-1]):
        args = [x if x is y else ite(o.guard, x, y) for x, y in zip(o.vals, args)]
        g = or_(o.guard, g)
    return g, args


def exclusive(occs):
    for i, a in enumerate(occs):
        for b in occs[i + 1:]:
            if satisfiable(and_(a.guard, b.guard)):
                return False
    return True
