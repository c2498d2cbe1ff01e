"""Interned value terms.

A term denotes the value an expression has, as a function of the entry state of the analysed
function (gated single assignment form: joins are `ite` on the guarding condition).  Two
expressions that compute the same value in different ways (through a local, a helper, a
different but equivalent condition...) normalise to the same term wherever possible.
"""
import itertools

_tab = {}
_cnt = itertools.count()


def memo(f):
    d = {}

    def g(*a):
        r = d.get(a)
        if r is None:
            r = d[a] = f(*a)
        return r
    g.memo = d
    return g


LV, UNK, RES = 1, 2, 4     # flags: contains a loop variable / an unknown / a call result


class T:
    __slots__ = ('k', 'a', 'n', 'fl', '_s')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n

    def __hash__(self):
        return self.n


def _flags(a):
    f = 0
    for x in a:
        if isinstance(x, T):
            f |= x.fl
        elif isinstance(x, tuple):
            f |= _flags(x)
    return f


def mk(k, *a):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        t.n = next(_cnt)
        t._s = None
        fl = _flags(a)
        if k in ('lv', 'lphi'):
            fl |= LV
        elif k == 'unk':
            fl |= UNK
        elif k == 'res' or k == 'addr' or k == 'sym' and isinstance(a[0], str) and a[0].startswith('uninit:'):
            fl |= RES
        t.fl = fl
        _tab[key] = t
    return t


# ------------------------------------------------------------------------------- constructors
def C(v):
    if v is True:
        v = 1
    elif v is False:
        v = 0
    return mk('c', v)


ZERO = C(0)
ONE = C(1)
TRUE = ONE
FALSE = ZERO


def S(s):
    return mk('s', s)


_unk = itertools.count()


def Unk(why=''):
    return mk('unk', next(_unk), why)


def Sym(name, typ=''):
    return mk('sym', name, typ)


BOOLK = {'not', 'and', 'or', 'eq', 'gt0', 'nz', 'any', 'has', 'flt', 'implies'}


@memo
def is_bool(t):
    if t.k in BOOLK:
        return True
    if t.k == 'c':
        return t.a[0] in (0, 1)
    if t.k == 'ite':
        return is_bool(t.a[1]) and is_bool(t.a[2])
    return False


@memo
def truth(t):
    """The boolean value of t used as a condition."""
    k = t.k
    if k in BOOLK:
        return t
    if k == 'c':
        return C(1 if t.a[0] else 0)
    if k == 's':
        return TRUE
    if k == 'ite':
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if k in ('addr', 'lam', 'agg', 'new', 'fn'):
        return TRUE
    if k == 'it':
        return TRUE
    if k == 'ptrto':
        return TRUE
    if k == 'size':
        return nz_size(t)
    return mk('nz', t)


@memo
def nz_size(t):
    seq = t.a[0]
    if seq.k == 'seq':
        r = seq_nonempty(seq)
        if r is not None:
            return r
    return mk('nz', t)


def seq_nonempty(seq):
    base, items = seq.a[1], seq.a[2]
    out = []
    if base is not None:
        out.append(truth(mk('size', base)))
    for it in items:
        if it[0] == 'item':
            return TRUE
        if it[0] == 'if':
            a = _items_nonempty(it[2])
            b = _items_nonempty(it[3])
            if a is None or b is None:
                return None
            out.append(ite(it[1], a, b))
        else:
            return None
    return or_(*out)


def _items_nonempty(items):
    out = []
    for it in items:
        if it[0] == 'item':
            return TRUE
        if it[0] == 'if':
            a = _items_nonempty(it[2])
            b = _items_nonempty(it[3])
            if a is None or b is None:
                return None
            out.append(ite(it[1], a, b))
        else:
            return None
    return or_(*out)


@memo
def not_(t):
    t = truth(t)
    if t.k == 'c':
        return C(1 - t.a[0])
    if t.k == 'not':
        return t.a[0]
    if t.k == 'and':
        return or_(*[not_(x) for x in t.a])
    if t.k == 'or':
        return and_(*[not_(x) for x in t.a])
    if t.k == 'ite':
        return ite(t.a[0], not_(t.a[1]), not_(t.a[2]))
    return mk('not', t)


def _nary(kind, ts):
    absorb = FALSE if kind == 'and' else TRUE
    neutral = TRUE if kind == 'and' else FALSE
    out = []
    seen = set()
    stack = list(ts)[::-1]
    while stack:
        t = truth(stack.pop())
        if t is neutral:
            continue
        if t is absorb:
            return absorb
        if t.k == kind:
            stack.extend(t.a[::-1])
            continue
        if t in seen:
            continue
        if not_(t) in seen:
            return absorb
        seen.add(t)
        out.append(t)
    # absorption: a and (a or b) = a ; a and (not a or b) = a and b
    other = 'or' if kind == 'and' else 'and'
    if len(out) > 1:
        res = []
        changed = False
        for t in out:
            if t.k == other:
                if any(x in seen for x in t.a):
                    changed = True
                    continue
                keep = [x for x in t.a if not_(x) not in seen]
                if len(keep) != len(t.a):
                    changed = True
                    t = or_(*keep) if other == 'or' else and_(*keep)
            res.append(t)
        if changed:
            return _nary(kind, res)
    if not out:
        return neutral
    if len(out) == 1:
        return out[0]
    return mk(kind, *sorted(out))


def and_(*ts):
    return _nary('and', ts)


def or_(*ts):
    return _nary('or', ts)


def distinct(a, b):
    """a and b can never be equal."""
    if a.k == 'c' and b.k == 'c':
        return a is not b
    if a.k == 's' and b.k == 's':
        return a is not b
    if a.k in ('new', 'addr', 'lam', 'fn') and b.k in ('new', 'addr', 'lam', 'fn'):
        return a is not b
    if a.k == 'c' and b.k in ('new', 'addr', 'lam', 'fn', 's', 'agg'):
        return True
    if b.k == 'c' and a.k in ('new', 'addr', 'lam', 'fn', 's', 'agg'):
        return True
    return False


@memo
def eq(a, b):
    if a is b:
        return TRUE
    if distinct(a, b):
        return FALSE
    if a.k == 'c':
        a, b = b, a
    if b.k == 'c':
        if a.k in BOOLK:
            if b is ONE:
                return a
            if b is ZERO:
                return not_(a)
            return FALSE
        if b is ZERO and a.k != 'lin':
            return not_(truth(a))
        if a.k == 'ite' and (a.a[1].k == 'c' or a.a[2].k == 'c'):
            return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
        if a.k == 'band' and isinstance(b.a[0], int):
            ms = [x.a[0] for x in a.a if x.k == 'c']
            if ms and isinstance(ms[0], int):
                if b.a[0] & ~ms[0]:
                    return FALSE
                if b.a[0] == ms[0] and ms[0] > 0 and ms[0] & (ms[0] - 1) == 0:
                    return truth(a)
        if a.k == 'lin':
            # normalise sign and single terms
            c, ts = a.a
            if len(ts) == 1 and ts[0][1] in (1, -1):
                x, k = ts[0]
                return eq(x, C((b.a[0] - c) * k))
    if a.k == 'agg' and b.k == 'agg' and len(a.a[1]) == len(b.a[1]):
        return and_(*[eq(x[1], y[1]) for x, y in zip(a.a[1], b.a[1])])
    if a.k == 'upd' or b.k == 'upd':
        x, y = (t.a[0] if t.k == 'upd' else t for t in (a, b))
        ns = [n for t in (a, b) if t.k == 'upd' for n, _ in t.a[1]]
        if x is y and all(isinstance(n, str) for n in ns):
            return and_(*[eq(fld(a, n), fld(b, n)) for n in dict.fromkeys(ns)])
    if a.k in BOOLK and b.k in BOOLK:
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.k == 'it' and b.k == 'it' and a.a[0] is b.a[0]:
        return it_eq(a, b)
    if a.k == 'rit' and b.k == 'rit' and a.a[0] is b.a[0]:
        for p, q in ((a.a[1], b.a[1]), (b.a[1], a.a[1])):
            if q is ZERO and p.k == 'ite' and p.a[2] is ZERO and p.a[1].k == 'lin' and any(t.k == 'app' and t.a[0] == 'lastof' for t, _ in p.a[1].a[1]):
                return not_(p.a[0])
            if q is ZERO and p.k == 'end':
                return not_(truth(mk('size', a.a[0])))
        return eq(a.a[1], b.a[1])
    if a.k == 'lin' or b.k == 'lin':
        d = sub(a, b)
        if d.k == 'c':
            return C(d.a[0] == 0)
        if d.k == 'lin':
            # cancel common parts
            c, ts = d.a
            if len(ts) == 1 and abs(ts[0][1]) == 1:
                return eq(ts[0][0], C(-c * ts[0][1]))
            if len(ts) == 2 and c == 0 and ts[0][1] == -ts[1][1]:
                a, b = ts[0][0], ts[1][0]
                return mk('eq', *sorted((a, b)))
            if ts[0][1] < 0:
                d = neg(d)
            return mk('eq', d, ZERO)
    if a.n > b.n:
        a, b = b, a
    if b.k == 'c' or a.k == 'c':
        if a.k == 'c':
            a, b = b, a
        return mk('eq', a, b)
    return mk('eq', a, b)


def it_eq(a, b):
    """equality of two iterators into the same container: positions."""
    x, pa = a.a
    _, pb = b.a
    if pa is pb:
        return TRUE
    for p, q in ((pa, pb), (pb, pa)):
        if p.k == 'first' and q.k == 'end':
            return not_(p.a[0])
        if p.k in ('find', 'sfind') and q.k == 'end':
            return not_(p.a[2]) if len(p.a) > 2 else not_(mk('has', x, p.a[1]))
        if p.k == 'key' and q.k == 'end':
            return not_(mk('has', x, p.a[0]))
        if p.k == 'ite' and q.k == 'end':
            return ite(p.a[0], it_eq(mk('it', x, p.a[1]), mk('it', x, q)), it_eq(mk('it', x, p.a[2]), mk('it', x, q)))
        if p.k == 'c' and q.k == 'end':
            return eq(mk('size', x), p)
        if q.k == 'end' and p.k in ('lv', 'lin', 'lphi', 'size'):
            return not_(gt0(sub(mk('size', x), p)))
    return eq(pa, pb)


@memo
def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.k == 'not':
        return ite(c.a[0], b, a)
    if a.k == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.k == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    ab = a.k in BOOLK or a.k == 'c' and a.a[0] in (0, 1)
    bb = b.k in BOOLK or b.k == 'c' and b.a[0] in (0, 1)
    if ab and bb and (a.k in BOOLK or b.k in BOOLK or {a, b} == {TRUE, FALSE}):
        return or_(and_(c, a), and_(not_(c), b))
    # ite(x != 0, x, 0) = x
    if b is ZERO and c.k == 'nz' and c.a[0] is a:
        return a
    # an optional made again of its own value
    if b is ZERO and c.k == 'nz' and a.k == 'some' and a.a[0].k == 'fld' and a.a[0].a == (c.a[0], '*'):
        return c.a[0]
    # erasing only what is there: the same as erasing
    if a.k == 'app' and a.a[0] == 'erased' and len(a.a) == 3 and a.a[1] is b:
        h = mk('has', b, a.a[2])
        if c is h:
            return a
        if c.k == 'and' and h in c.a:
            return ite(and_(*[x for x in c.a if x is not h]), a, b)
    if b.k == 'c' and c.k == 'eq' and a is b:
        return a
    # ite(x == k, k, x) = x
    if c.k == 'eq' and ((c.a[0] is a and c.a[1] is b) or (c.a[0] is b and c.a[1] is a)):
        return b
    if c.k == 'gt0' and (a.k in NUMK or a.k == 'c') and (b.k in NUMK or b.k == 'c'):
        # a > b ? a : b,  a + 1 > b ? a : b
        d, e = sub(a, b), c.a[0]
        if e is d or e is add(d, ONE):
            return maxmin('max', a, b)
        if e is neg(d) or e is add(neg(d), ONE):
            return maxmin('min', a, b)
    if c.k == 'nz' and b is ONE and c.a[0] is a and a.k in NUMK:
        return maxmin('max', a, b)
    # ite(c1, a, ite(c2, a, b)) = ite(c1 or c2, a, b)
    if b.k == 'ite' and b.a[1] is a:
        return ite(or_(c, b.a[0]), a, b.a[2])
    # ite(c1, ite(c2, a, b), b) = ite(c1 and c2, a, b)
    if a.k == 'ite' and a.a[2] is b:
        return ite(and_(c, a.a[0]), a.a[1], b)
    if a.k == 'ite' and a.a[1] is b:
        return ite(and_(c, not_(a.a[0])), a.a[2], b)
    if b.k == 'ite' and b.a[2] is a:
        return ite(or_(c, not_(b.a[0])), a, b.a[1])
    return mk('ite', c, a, b)


NUMK = frozenset(('lin', 'fld', 'idx', 'at', 'sym', 'shr', 'shl', 'mul', 'div', 'mod', 'band', 'bor', 'size', 'lv', 'app', 'res'))


def maxmin(name, a, b):
    if a.k == 'c' and b.k == 'c':
        return C(max(a.a[0], b.a[0]) if name == 'max' else min(a.a[0], b.a[0]))
    if a is b:
        return a
    if ZERO in (a, b):
        return (b if a is ZERO else a) if name == 'max' else ZERO
    return mk('app', name, *sorted((a, b)))


# ----------------------------------------------------------------------------------- arithmetic
def _lin(t):
    if t.k == 'c' and isinstance(t.a[0], int):
        return t.a[0], {}
    if t.k == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def _mklin(c, d):
    ts = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda x: x[0].n))
    if not ts:
        return C(c)
    if c == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    return mk('lin', c, ts)


def add(a, b):
    if a.k == 's' or b.k == 's' or a.k == 'cat' or b.k == 'cat':
        return cat(a, b)
    ca, da = _lin(a)
    cb, db = _lin(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + k
    return _mklin(ca + cb, d)


def neg(a):
    c, d = _lin(a)
    return _mklin(-c, {t: -k for t, k in d.items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if b.k == 'c' and isinstance(b.a[0], int):
        a, b = b, a
    if a.k == 'c' and isinstance(a.a[0], int):
        k = a.a[0]
        c, d = _lin(b)
        return _mklin(c * k, {t: v * k for t, v in d.items()})
    ts = []
    for x in (a, b):
        ts.extend(x.a if x.k == 'mul' else (x,))
    return mk('mul', *sorted(ts))


def sum_of(n, d):
    """The sum of d over n steps, term by term."""
    c, ts = _lin(d)
    r = mul(C(c), n)
    for t, k in ts.items():
        r = add(r, mul(C(k), mk('app', 'sum', n, t)))
    return r


def gt0(d):
    """d > 0 over the integers (operands of unsigned comparisons are non-negative)."""
    if d.k == 'c':
        return C(d.a[0] > 0)
    if d.k != 'lin':
        return truth(d)
    c, ts = d.a
    if len(ts) == 1:
        t, k = ts[0]
        if k == 1 and c == 0:
            return truth(t)
        if k == -1 and c == 1:
            return not_(truth(t))
        if k == -1 and c <= 0:
            return FALSE       # -t + c > 0 with t >= 0
    # canonical sign: leading coefficient positive
    if ts[0][1] < 0:
        return mk('not', mk('gt0', sub(C(1), d)))
    return mk('gt0', d)


@memo
def lt(a, b):
    if a.k == 'f' or b.k == 'f':
        return mk('flt', a, b)
    if a.k == 'ite' and b.k == 'c':
        return ite(a.a[0], lt(a.a[1], b), lt(a.a[2], b))
    if b.k == 'ite' and a.k == 'c':
        return ite(b.a[0], lt(a, b.a[1]), lt(a, b.a[2]))
    return gt0(sub(b, a))


def bitop(k, a, b):
    """k in bor, band, bxor."""
    ts = []
    for x in (a, b):
        ts.extend(x.a if x.k == k else (x,))
    cs = [x.a[0] for x in ts if x.k == 'c']
    ts = [x for x in ts if x.k != 'c']
    acc = None
    for v in cs:
        acc = v if acc is None else (acc | v if k == 'bor' else acc & v if k == 'band' else acc ^ v)
    if k == 'band' and acc == 0:
        return ZERO
    if k in ('bor', 'bxor') and acc == 0:
        acc = None
    if k == 'band' and acc in (-1, 0xFFFFFFFF, 0xFFFFFFFFFFFFFFFF):
        acc = None
    if k != 'bxor':
        ts = list(dict.fromkeys(ts))
    if acc is not None and k == 'bor' and acc & 1:
        ts = [x for x in ts if not (is_bool(x) or x.k == 'ite' and is_bool(x.a[1]) and is_bool(x.a[2]))]
    if not ts:
        return C(acc if acc is not None else 0)
    if acc is not None:
        # distribute over an ite of constants
        ts.append(C(acc))
    if len(ts) == 1:
        return ts[0]
    if len(ts) == 2 and ts[0].k == 'ite' and ts[1].k == 'c' and (ts[0].a[1].k == 'c' or ts[0].a[2].k == 'c'):
        x = ts[0]
        return ite(x.a[0], bitop(k, x.a[1], ts[1]), bitop(k, x.a[2], ts[1]))
    return mk(k, *sorted(ts))


def div(a, b):
    if a.k == 'c' and b.k == 'c' and b.a[0]:
        return C(a.a[0] // b.a[0])
    if b is ONE or a is ZERO:
        return a
    if b.k == 'c' and isinstance(b.a[0], int) and b.a[0] > 0 and b.a[0] & (b.a[0] - 1) == 0:
        return shr(a, C(b.a[0].bit_length() - 1))
    return mk('div', a, b)


def mod(a, b):
    if a.k == 'c' and b.k == 'c' and b.a[0]:
        return C(a.a[0] % b.a[0])
    if b is ONE or a is ZERO:
        return ZERO
    if b.k == 'c' and isinstance(b.a[0], int) and b.a[0] > 0 and b.a[0] & (b.a[0] - 1) == 0:
        return bitop('band', a, C(b.a[0] - 1))
    return mk('mod', a, b)


def shr(a, b):
    if a.k == 'c' and b.k == 'c':
        return C(a.a[0] >> b.a[0]) if b.a[0] >= 0 else mk('shr', a, b)
    if b is ZERO:
        return a
    if a is ZERO:
        return ZERO
    return mk('shr', a, b)


def shl(a, b):
    if b.k == 'c' and 0 <= b.a[0] < 63:
        return mul(a, C(1 << b.a[0]))
    if a is ZERO:
        return ZERO
    return mk('shl', a, b)


def cat(a, b):
    ts = []
    for x in (a, b):
        ts.extend(x.a if x.k == 'cat' else (x,))
    out = []
    for x in ts:
        if x.k == 's' and out and out[-1].k == 's':
            out[-1] = S(out[-1].a[0] + x.a[0])
        elif x.k == 's' and x.a[0] == '':
            continue
        else:
            out.append(x)
    if not out:
        return S('')
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


def app(f, *a):
    if f == 'lastof' and a[0] is TRUE:
        # the last of the elements that all satisfy it
        return sub(a[1], ONE)
    if f == 'inserted' and a[1] is size(a[0]):
        return mk('seq', 'vec', a[0], tuple(('item', x) for x in a[2:]))
    if f == 'vec==' and a[1] is not None:
        a = (a[0],) + tuple(sorted(a[1:]))
    if f == 'memcmp' and len(a) == 3:
        a = tuple(sorted(a[:2])) + a[2:]
    return mk('app', f, *a)


# --------------------------------------------------------------------------------- projections
def upd(base, entries):
    """An object with some of its members replaced."""
    if base.k == 'seq' and base.a[0] == 'vec' and base.a[2] and all(i[0] == 'item' for i in base.a[2]):
        # elements that were appended, or that were there before
        n = ZERO if base.a[1] is None else size(base.a[1])
        items = list(base.a[2])
        low = []
        ok = True
        for s, v in entries:
            d = sub(s, n) if isinstance(s, T) else None
            if d is not None and d.k == 'c' and 0 <= d.a[0] < len(items):
                items[d.a[0]] = ('item', v)
            elif d is not None and within(s, n):
                low.append((s, v))
            else:
                ok = False
        if ok:
            return mk('seq', 'vec', upd(base.a[1], tuple(low)) if low else base.a[1], tuple(items))
    if base.k == 'upd':
        d = dict(base.a[1])
        d.update(entries)
        base = base.a[0]
    else:
        d = dict(entries)
    if all(isinstance(n, str) for n in d):
        if base.k == 'agg' and all(n in (b := dict(base.a[1])) for n in d):
            b.update(d)
            return mk('agg', base.a[0], tuple(b.items()))
        # in a fixed order, without the members that keep their value
        d = {n: d[n] for n in sorted(d) if d[n] is not fld(base, n)}
        if not d:
            return base
    elif all(isinstance(n, T) for n in d):
        # elements that keep their value
        same = [n for n in d if d[n] is idx(base, n)]
        if len(same) == len(d):
            return base
        for n in same:
            if all(m is n or apart(m, n) for m in d):
                del d[n]
    return mk('upd', base, tuple(d.items()))


@memo
def fld(base, f):
    k = base.k
    if k == 'agg':
        for n, v in base.a[1]:
            if n == f:
                return v
        if base.a[0] == 'zero':
            return ZERO
        if base.a[0] == 'VkClearValue' and f == 'depthStencil' and all(v is ZERO or v.k == 'agg' and not v.a[1] for n, v in base.a[1]):
            # a union whose bytes are all zero
            return mk('agg', 'VkClearDepthStencilValue', (('depth', ZERO), ('stencil', ZERO)))
        return mk('fld', base, f)
    if k == 'upd':
        for n, v in base.a[1]:
            if n == f:
                return v
        return fld(base.a[0], f)
    if k == 'ite':
        return ite(base.a[0], fld(base.a[1], f), fld(base.a[2], f))
    if k == 'unk':
        return mk('fld', base, f)
    if base is ZERO:
        return ZERO
    return mk('fld', base, f)


def apart(a, b):
    """Indices of different elements."""
    return distinct(a, b) or within(a, b) or within(b, a)


def within(key, n):
    """The index is that of the first element of a search over n elements."""
    return key.k == 'first' and key.a[0].k == 'any' and key.a[0].a[0] is n


@memo
def idx(base, key):
    k = base.k
    if k == 'agg' and key.k == 'c':
        for n, v in base.a[1]:
            if n == key.a[0]:
                return v
        if base.a[0] == 'zero' or any(n == 'fill' for n, _ in base.a[1]):
            for n, v in base.a[1]:
                if n == 'fill':
                    return v
            return ZERO
    if k == 'upd':
        for n, v in base.a[1]:
            if n is key:
                return v
        for n, v in base.a[1]:
            if isinstance(n, T) and not apart(n, key):
                return mk('idx', base, key)
        return idx(base.a[0], key)
    if k == 'ite':
        return ite(base.a[0], idx(base.a[1], key), idx(base.a[2], key))
    if k == 'seq':
        b, items = base.a[1], base.a[2]
        if b is None and key.k == 'c' and all(x[0] == 'item' for x in items):
            if 0 <= key.a[0] < len(items):
                return items[key.a[0]][1]
        if b is None and len(items) == 1 and items[0][0] == 'loop' and len(items[0][3]) == 1 and items[0][3][0][0] == 'item':
            # a one-to-one map of a domain: element k is the body at k
            _, lid, cnt, body = items[0]
            return subst(body[0][1], {mk('lv', lid): key})
        if b is None and len(items) == 1 and items[0][0] == 'fill':
            return items[0][1]
        if b is not None and base.a[0] == 'vec' and items and all(x[0] == 'item' for x in items):
            # appended elements, or one that was already there
            n = size(b)
            d = sub(key, n)
            if d.k == 'c' and 0 <= d.a[0] < len(items):
                return items[d.a[0]][1]
            if within(key, n):
                return idx(b, key)
    if base is ZERO:
        return ZERO
    return mk('idx', base, key)


def map_if(it):
    return all(x[0] == 'kv' or x[0] == 'if' and map_if(x) for x in it[2] + it[3])


def only_key(it, k):
    """The item can only write the key k."""
    if it[0] == 'kv':
        return it[1] is k
    if it[0] == 'if':
        return all(only_key(x, k) for x in it[2] + it[3])
    return False


@memo
def at(base, key):
    """element of an associative container for a key."""
    if base.k == 'ite':
        return ite(base.a[0], at(base.a[1], key), at(base.a[2], key))
    if base.k == 'seq':
        b, items = base.a[1], base.a[2]
        for n in range(len(items) - 1, -1, -1):
            it = items[n]
            if it[0] == 'if' and map_if(it):
                pre = items[:n]
                r = ite(it[1], at(mk('seq', base.a[0], b, pre + tuple(it[2])), key), at(mk('seq', base.a[0], b, pre + tuple(it[3])), key))
                return r
            if it[0] == 'kv':
                if it[1] is key and it[3] == 'assign':
                    return it[2]
                if distinct(it[1], key):
                    continue
            return mk('at', base, key)
        if b is not None:
            return at(b, key)
    return mk('at', base, key)


# sizes of what a loop changes without making it longer or shorter
SIZES = {}


def keeps_size(ph, n):
    SIZES[ph] = n
    _size.memo.clear()


def size(base):
    if base.k == 'lphi':
        r = SIZES.get(base)
        if r is not None:
            return r
    return _size(base)


@memo
def _size(base):
    if base.k == 'upd' and all(isinstance(n, T) for n, _ in base.a[1]):
        return size(base.a[0])
    if base.k == 'ite':
        return ite(base.a[0], size(base.a[1]), size(base.a[2]))
    if base.k == 'seq':
        kind, b, items = base.a
        if kind in ('vec', 'arr'):
            n = ZERO if b is None else size(b)
            for it in items:
                if it[0] == 'item':
                    n = add(n, ONE)
                elif it[0] == 'loop' and len(it[3]) == 1 and it[3][0][0] == 'item':
                    n = add(n, it[2])
                elif it[0] == 'fill':
                    n = add(n, it[2])
                elif it[0] == 'splice' and len(it) == 2 and isinstance(it[1], T) and it[1].k in ('sym', 'fld', 'idx', 'at'):
                    n = add(n, size(it[1]))
                else:
                    return mk('size', base)
            return n
        if kind in ('set', 'map') and not items:
            return ZERO if b is None else size(b)
    if base.k == 'agg' and base.a[0].startswith('arr'):
        if all(isinstance(n, int) for n, _ in base.a[1]):
            return C(len(base.a[1]))
    if base.k == 's':
        return C(len(base.a[0]))
    if base.k == 'app' and base.a[0] == 'resized':
        return base.a[2]
    return mk('size', base)


def subst(t, m, _memo=None):
    """Replace terms by others, re-normalising."""
    if _memo is None:
        _memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = _memo.get(t)
    if r is not None:
        return r

    def go(x):
        if isinstance(x, T):
            return subst(x, m, _memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    a = tuple(go(x) for x in t.a)
    if all(x is y for x, y in zip(a, t.a)) or a == t.a:
        r = t
    elif t.k == 'first' and a[0].k == 'c':
        # which element it is does not depend on what is assumed about there being one
        r = t
    else:
        r = rebuild(t.k, a)
    _memo[t] = r
    return r


def rebuild(k, a):
    if k == 'and':
        return and_(*a)
    if k == 'or':
        return or_(*a)
    if k == 'not':
        return not_(a[0])
    if k == 'eq':
        return eq(*a)
    if k == 'nz':
        return truth(a[0])
    if k == 'gt0':
        return gt0(a[0])
    if k == 'ite':
        return ite(*a)
    if k == 'fld':
        return fld(*a)
    if k == 'idx':
        return idx(*a)
    if k == 'at':
        return at(*a)
    if k == 'size':
        return size(*a)
    if k == 'lin':
        r = C(a[0])
        for t, c in a[1]:
            r = add(r, mul(C(c), t))
        return r
    if k == 'mul':
        r = a[0]
        for x in a[1:]:
            r = mul(r, x)
        return r
    if k in ('bor', 'band', 'bxor'):
        r = a[0]
        for x in a[1:]:
            r = bitop(k, r, x)
        return r
    if k == 'app' and a[0] in ('max', 'min') and len(a) == 3:
        return maxmin(*a)
    if k == 'app' and a[0] in ('lastof', 'inserted', 'vec==', 'memcmp'):
        return app(*a)
    if k == 'any' and a[0] is ZERO:
        return FALSE
    if k == 'seq' and isinstance(a[1], T) and a[1].k == 'seq' and a[1].a[1] is None and not a[1].a[2]:
        return mk('seq', a[0], None, a[2])
    if k == 'seq' and isinstance(a[1], T) and a[1].k == 'seq' and a[1].a[0] == a[0]:
        return mk('seq', a[0], a[1].a[1], a[1].a[2] + a[2])
    if k == 'div':
        return div(*a)
    if k == 'mod':
        return mod(*a)
    if k == 'shr':
        return shr(*a)
    if k == 'shl':
        return shl(*a)
    if k == 'cat':
        r = S('')
        for x in a:
            r = cat(r, x)
        return r
    if k == 'upd':
        return upd(*a)
    if k == 'ptrto':
        return a[0] if False else mk(k, *a)
    return mk(k, *a)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        st.extend(x.a)
        yield x


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def assume(t, lits):
    """Simplify a boolean term given literals known true."""
    m = {}
    for l in lits:
        m[l] = TRUE
        m[not_(l)] = FALSE
        if l.k == 'and':
            for x in l.a:
                m[x] = TRUE
                m[not_(x)] = FALSE
        if l.k == 'not' and l.a[0].k == 'or':
            for x in l.a[0].a:
                m[x] = FALSE
                m[not_(x)] = TRUE
        if l.k == 'eq' and l.a[1].k == 'c':
            m[l.a[0]] = l.a[1]
    r = subst(t, m)
    if r.k == 'eq' and r.a[1].k == 'c':
        for l in lits:
            if l.k == 'eq' and l.a[0] is r.a[0] and l.a[1].k == 'c' and l.a[1] is not r.a[1]:
                return FALSE
    return r


# ------------------------------------------------------------------------------------- printing
def show(t, depth=0):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth + 1) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if t._s is not None:
        return t._s
    if depth > 14:
        return '...'
    k, a = t.k, t.a

    def s(x):
        return show(x, depth + 1)
    if k == 'c':
        r = str(a[0])
    elif k == 'f':
        r = str(a[0])
    elif k == 's':
        r = repr(a[0])
    elif k == 'sym':
        r = a[0]
    elif k == 'fld':
        r = f'{s(a[0])}.{a[1]}'
    elif k == 'idx':
        r = f'{s(a[0])}[{s(a[1])}]'
    elif k == 'at':
        r = f'{s(a[0])}{{{s(a[1])}}}'
    elif k == 'lv':
        r = f'i{a[0]}'
    elif k == 'lphi':
        r = f'phi{a[0]}<{show(a[1], depth+1)}>'
    elif k == 'not':
        r = f'!({s(a[0])})'
    elif k in ('and', 'or'):
        r = '(' + (' && ' if k == 'and' else ' || ').join(s(x) for x in a) + ')'
    elif k == 'eq':
        r = f'{s(a[0])}=={s(a[1])}'
    elif k == 'nz':
        r = f'{s(a[0])}'
    elif k == 'gt0':
        r = f'({s(a[0])} > 0)'
    elif k == 'ite':
        r = f'({s(a[0])} ? {s(a[1])} : {s(a[2])})'
    elif k == 'lin':
        r = '(' + ' + '.join([f'{c}*{s(x)}' if c != 1 else s(x) for x, c in a[1]] + ([str(a[0])] if a[0] else [])) + ')'
    elif k == 'res':
        r = f'{a[0]}#{a[1]}' + (f'.{a[2]}' if a[2] != 'ret' else '')
    elif k == 'app':
        r = f'{a[0]}(' + ', '.join(s(x) for x in a[1:]) + ')'
    elif k == 'agg':
        r = f'{a[0].split("::")[-1]}{{' + ', '.join(f'{n}:{show(v, depth+1)}' for n, v in a[1]) + '}'
    elif k == 'upd':
        r = f'{s(a[0])} with {{' + ', '.join(f'{show(n)}:{show(v, depth+1)}' for n, v in a[1]) + '}'
    elif k == 'size':
        r = f'|{s(a[0])}|'
    elif k == 'seq':
        r = f'{a[0]}[' + (s(a[1]) + ' ; ' if a[1] is not None else '') + ', '.join(show(x, depth + 1) for x in a[2]) + ']'
    else:
        r = k + '(' + ', '.join(show(x, depth + 1) for x in a) + ')'
    if depth == 0 and len(r) < 4000:
        t._s = r
    return r
