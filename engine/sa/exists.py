"""Canonical form of conditions made of `there is an element such that ...`.

`there is` distributes over `or`, nested ones can be swapped, and what does not speak of an element can be said outside: a
condition becomes a set of conjunctions, each below its own quantifiers, reduced to the prime implicants of every such set.
"""
from .terms import *

LIMIT = 160
FRESH = 100000     # variables standing for an element while a condition is taken apart
SLOT = 90000       # variables by position among the quantifiers of a conjunction


class TooMuch(Exception):
    pass


def bvs(t):
    return {x.a[0] for x in subterms(t) if x.k == 'bv' and x.a[0] < 90}


def outside(t):
    """Variables that occur in a condition, not counting what other searches look for."""
    r, st, seen = set(), [t], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.k == 'bv' and x.a[0] < 90:
                r.add(x.a[0])
            st.extend(x.a[:1] if x.k == 'any' else x.a)
    return r


def binder(t):
    """The variable bound by a search that is not part of another one, None if what it looks for does not depend on it."""
    m = max(bvs(t.a[1]), default=None)
    if m is None or m in outside(t.a[1]):
        return m
    for x in subterms(t.a[1]):
        if x.k == 'any' and m in bvs(x.a[1]) and len(bvs(x.a[1])) > 1:
            return m
    raise TooMuch()


class Canon:
    def __init__(self):
        self.next = FRESH

    def choice(self, t):
        """The condition of a choice within a literal that can be decided first."""
        for x in subterms(t):
            if x.k == 'ite' and not any(y.k == 'lv' or y.k == 'bv' and y.a[0] < 90 for y in subterms(x.a[0])):
                if not any(y.k == 'ite' for y in subterms(x.a[0])):
                    return x.a[0]
        return None

    def dnf(self, t, pos=True):
        """[(quantifiers {variable: count}, literals frozenset((atom, positive)))]"""
        t = truth(t)
        if t.k == 'not':
            return self.dnf(t.a[0], not pos)
        if t.k == 'c':
            return [({}, frozenset())] if bool(t.a[0]) == pos else []
        if t.k in ('and', 'or'):
            if (t.k == 'and') == pos:
                r = [({}, frozenset())]
                for x in t.a:
                    r = self.product(r, self.dnf(x, pos))
                return r
            r = []
            for x in t.a:
                r += self.dnf(x, pos)
            return self.cap(r)
        if t.k == 'ite':
            return self.cap(self.product(self.dnf(t.a[0]), self.dnf(t.a[1], pos)) + self.product(self.dnf(t.a[0], False), self.dnf(t.a[2], pos)))
        if t.k == 'any':
            if not pos:
                t = self.canon(t)
                return self.dnf(not_(t)) if t.k != 'any' else [({}, frozenset({(t, False)}))]
            v = binder(t)
            cnt = t.a[0]
            c = self.choice(cnt)
            if c is not None:
                r = []
                for l, b in ((c, TRUE), (not_(c), FALSE)):
                    r += self.product(self.dnf(l), self.dnf(mk('any', self.zero(subst(cnt, {c: b})), t.a[1])))
                return self.cap(r)
            cnt = self.zero(cnt)
            if cnt is ZERO:
                return []
            n = self.atleastone(cnt)
            if n is not None:
                return self.cap(self.product(self.dnf(truth(n)), self.dnf(mk('any', n, t.a[1])))
                                + self.product(self.dnf(truth(n), False), self.dnf(mk('any', ONE, t.a[1]))))
            if cnt is ONE and v is not None:
                return self.dnf(subst(t.a[1], {mk('bv', v): ZERO}))
            if v is None:
                return self.product(self.dnf(truth(cnt)), self.dnf(t.a[1]))
            tok = mk('bv', self.next)
            self.next += 1
            return self.cap([({**q, tok: cnt}, ls) for q, ls in self.dnf(subst(t.a[1], {mk('bv', v): tok}))])
        c = self.choice(t)
        if c is not None:
            r = []
            for l, b in ((c, TRUE), (not_(c), FALSE)):
                r += self.product(self.dnf(l), self.dnf(subst(t, {c: b}), pos))
            return self.cap(r)
        if t.k == 'nz' and t.a[0].k == 'size' and t.a[0].a[0] is ZERO:
            return [] if pos else [({}, frozenset())]
        return [({}, frozenset({(t, pos)}))]

    def zero(self, cnt):
        return ZERO if cnt.k == 'size' and cnt.a[0] is ZERO else cnt

    def atleastone(self, cnt):
        """The size n if a count is max(1, n)."""
        if cnt.k == 'app' and cnt.a[0] == 'max' and len(cnt.a) == 3 and ONE in cnt.a[1:]:
            return cnt.a[1] if cnt.a[2] is ONE else cnt.a[2]
        return None

    def cap(self, r):
        if len(r) > LIMIT:
            raise TooMuch()
        return r

    def product(self, x, y):
        r = []
        for qx, lx in x:
            for qy, ly in y:
                ls = lx | ly
                if not any((a, not p) in ls for a, p in ls):
                    r.append(({**qx, **qy}, ls))
        return self.cap(r)

    def place(self, q, ls):
        """Quantifiers by position, literals in terms of these; None if they contradict each other."""
        q = dict(q)
        ls = set(ls)
        used = {x for a, _ in ls for x in subterms(a)}
        while True:
            gone = [v for v in q if v not in used and not any(v in subterms(c) for c in q.values())]
            if not gone:
                break
            for v in gone:
                c = truth(q.pop(v))
                ls.add((c.a[0], False) if c.k == 'not' else (c, True))
        order, m = [], {}
        rest = dict(q)
        while rest:
            best = None
            for v, c in rest.items():
                if any(w in subterms(c) for w in rest if w is not v):
                    continue
                k = subst(c, m)
                hole = {**m, v: mk('bv', SLOT - 1)}
                key = (k.n, sorted((subst(a, hole).n, p) for a, p in ls if v in subterms(a)))
                if best is None or key < best[0]:
                    best = (key, v, k)
            if best is None:
                raise TooMuch()
            _, v, k = best
            m[v] = mk('bv', SLOT + len(order))
            order.append(k)
            del rest[v]
        ls = {(subst(a, m), p) for a, p in ls}
        for c in order:
            c = truth(c)
            if (c, False) in ls:
                return None
            ls.discard((c, True))
        if and_(*[a if p else not_(a) for a, p in ls]) is FALSE:
            return None
        return tuple(order), frozenset(ls)

    def primes(self, cs):
        """Prime implicants of a set of conjunctions."""
        cs = set(cs)
        while True:
            cs = {c for c in cs if not any(d < c for d in cs)}
            new = set()
            for x in cs:
                for y in cs:
                    opp = [(a, p) for a, p in x if (a, not p) in y]
                    if len(opp) == 1:
                        a, p = opp[0]
                        z = (x - {(a, p)}) | (y - {(a, not p)})
                        if not any(d <= z for d in cs):
                            new.add(z)
            if not new:
                return cs
            cs |= new
            if len(cs) > LIMIT:
                raise TooMuch()

    def build(self, order, ls):
        parts = [(a if p else not_(a)) for a, p in ls]
        for i in range(len(order) - 1, -1, -1):
            v = mk('bv', SLOT + i)
            dep = [x for x in parts if v in subterms(x)]
            parts = [x for x in parts if v not in subterms(x)]
            if not dep:
                parts.append(truth(order[i]))
                continue
            body = and_(*dep)
            b = mk('bv', max(bvs(body), default=-1) + 1)
            parts.append(mk('any', order[i], subst(body, {v: b})))
        return and_(*parts)

    def canon(self, t):
        groups = {}
        for q, ls in self.dnf(t):
            r = self.place(q, ls)
            if r is not None:
                groups.setdefault(r[0], set()).add(r[1])
        # a quantified conjunction is part of every longer one that says the same
        for o in list(groups):
            groups[o] = self.primes(groups[o])
        out = []
        for o, cs in groups.items():
            for c in cs:
                if any(len(p) < len(o) and o[:len(p)] == p and any(d <= c for d in ds) for p, ds in groups.items()):
                    continue
                out.append(self.build(o, c))
        return or_(*out)


@memo
def canonical(t):
    """The canonical form of a condition, or None."""
    try:
        return Canon().canon(t)
    except TooMuch:
        return None


@memo
def searching(t):
    """Does a condition contain searches that can be written in several ways?"""
    return any(x.k == 'any' and any(y.k in ('any', 'ite', 'and', 'or') for y in subterms(x.a[1])) for x in subterms(t))
