"""Value-flow and effect analysis over the resolved program.

Every function is abstractly evaluated once per context, with joins at control-flow merges (gated
values), summarised loops and inlined repository callees.  The result is an effect tree: the
events a call produces (Vulkan calls, callbacks, lock operations, state writes, container
updates, throws...) under their guarding conditions, with arguments expressed as terms over the
entry state.  Nothing is executed, no path is enumerated and no solver is used.
"""
import hashlib, itertools, re, sys
from .terms import *
from .terms import mk, _lin
from .program import strip_targs, AnalysisBroken

sys.setrecursionlimit(20000)


class Limit(Exception):
    pass


# ----------------------------------------------------------------------------------------- tree
class Node:
    __slots__ = ()


class Ev(Node):
    __slots__ = ('kind', 'name', 'args', 'res', 'loc', 'x', 'id')

    def __init__(self, kind, name, args, loc, res=None, id=0, **x):
        self.kind, self.name, self.args, self.loc, self.res, self.x, self.id = kind, name, args, loc, res, x, id

    def __repr__(self):
        return '%s %s(%s) @%s' % (self.kind, self.name, ', '.join(map(show, self.args)), self.loc[1])


class If(Node):
    __slots__ = ('c', 'a', 'b', 'loc')

    def __init__(self, c, a, b, loc):
        self.c, self.a, self.b, self.loc = c, a, b, loc


class Loop(Node):
    __slots__ = ('lid', 'count', 'cond', 'body', 'loc', 'over')

    def __init__(self, lid, count, cond, body, loc, over=None):
        self.lid, self.count, self.cond, self.body, self.loc, self.over = lid, count, cond, body, loc, over


class Scope(Node):
    __slots__ = ('fn', 'body', 'loc')

    def __init__(self, fn, body, loc):
        self.fn, self.body, self.loc = fn, body, loc


class Try(Node):
    __slots__ = ('body', 'handlers', 'loc')

    def __init__(self, body, handlers, loc):
        self.body, self.handlers, self.loc = body, handlers, loc


class Leaf(Node):
    __slots__ = ('kind', 'value', 'loc')

    def __init__(self, kind, value, loc):
        self.kind, self.value, self.loc = kind, value, loc


def dump(nodes, ind=0, out=None):
    top = out is None
    if top:
        out = []
    p = '  ' * ind
    for n in nodes:
        if isinstance(n, Ev):
            out.append(p + repr(n))
        elif isinstance(n, If):
            out.append(p + 'if %s' % show(n.c))
            dump(n.a, ind + 1, out)
            if n.b:
                out.append(p + 'else')
                dump(n.b, ind + 1, out)
        elif isinstance(n, Loop):
            out.append(p + 'loop i%d count=%s%s' % (n.lid, show(n.count) if n.count is not None else '?', '' if n.cond is None else ' while ' + show(n.cond)))
            dump(n.body, ind + 1, out)
        elif isinstance(n, Scope):
            out.append(p + '{ ' + n.fn)
            dump(n.body, ind + 1, out)
        elif isinstance(n, Try):
            out.append(p + 'try')
            dump(n.body, ind + 1, out)
            for h in n.handlers:
                out.append(p + 'catch')
                dump(h, ind + 1, out)
        elif isinstance(n, Leaf):
            out.append(p + n.kind + (' ' + show(n.value) if n.value is not None else ''))
    if top:
        return '\n'.join(out)


# ---------------------------------------------------------------------------------------- state
class State:
    __slots__ = ('store', 'pc', 'dead')

    def __init__(self, store=None, pc=(), dead=False):
        self.store = store if store is not None else {}
        self.pc = pc
        self.dead = dead

    def fork(self, c=None):
        s = State(dict(self.store), self.pc, self.dead)
        if c is not None and c is not TRUE:
            if c.k == 'and':
                s.pc = s.pc + tuple(x for x in c.a if x not in s.pc)
            elif c not in s.pc:
                s.pc = s.pc + (c,)
        return s

    def become(self, o):
        self.store, self.pc, self.dead = o.store, o.pc, o.dead


class Outcome:
    __slots__ = ('kind', 'st', 'value', 'lst', 'leaf')

    def __init__(self, kind, st, value, lst, leaf):
        self.kind, self.st, self.value, self.lst, self.leaf = kind, st, value, lst, leaf


class Frame:
    __slots__ = ('fn', 'env', 'this', 'out', 'parent', 'usr', 'retref', 'file')

    def __init__(self, fn, usr, file, this=None, parent=None, retref=False):
        self.fn, self.usr, self.this, self.parent, self.retref, self.file = fn, usr, this, parent, retref, file
        self.env = {}
        self.out = []


class Result:
    def __init__(self, fn, tree, st, value, params, this, outs):
        self.fn, self.tree, self.st, self.value, self.params, self.this, self.outs = fn, tree, st, value, params, this, outs


def is_ref(t):
    return t.endswith('&')


def base_type(t):
    t = t.strip()
    while True:
        if t.endswith('&&'):
            t = t[:-2].strip()
        elif t.endswith('&') or t.endswith('*'):
            t = t[:-1].strip()
        elif t.endswith(' const') or t.endswith('*const'):
            t = t[:-5].strip()
        elif t.startswith('const '):
            t = t[6:]
        else:
            return t


def val_type(t):
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    if t.startswith('const '):
        t = t[6:]
    return t


SEQ_KINDS = (('std::vector<', 'vec'), ('std::deque<', 'vec'), ('std::list<', 'vec'), ('std::map<', 'map'), ('std::unordered_map<', 'map'),
             ('std::set<', 'set'), ('std::unordered_set<', 'set'), ('std::initializer_list<', 'vec'), ('std::multimap<', 'map'),
             ('std::array<', 'arr'), ('std::basic_string<', 'str'), ('std::basic_string_view<', 'str'), ('std::span<', 'vec'))


def seq_kind(t):
    t = val_type(t)
    for p, k in SEQ_KINDS:
        if t.startswith(p):
            return k
    return None


LOCKS = ('std::unique_lock<', 'std::lock_guard<', 'std::scoped_lock<', 'std::shared_lock<')

TOP = '\u22a4'


class Interp:
    def __init__(self, prog, stops=(), budget=400000, max_depth=40, opaque=None, trace_sets=True):
        self.p = prog
        self.stops = stops if callable(stops) else (lambda f, s=frozenset(stops): f['sq'] in s)
        self.budget = budget
        self.max_depth = max_depth
        self.cur = []
        self.vc = itertools.count(1)
        self.ec = itertools.count(1)
        self.lc = itertools.count(1)
        self.stack = []
        self.lamtab = {}
        self.statics = {}
        self.quiet = 0
        self.trace_sets = trace_sets
        self.unknowns = []
        self.sitecnt = {}
        self.loc_types = {}

    # ------------------------------------------------------------------ locations and the store
    def new_loc(self, tag='t'):
        return (('V', next(self.vc), tag), ())

    def to_loc(self, t):
        path = []
        while True:
            if t.k == 'fld':
                path.append(t.a[1])
                t = t.a[0]
            elif t.k == 'idx':
                path.append(t.a[1])
                t = t.a[0]
            elif t.k == 'at':
                path.append(('at', t.a[1]))
                t = t.a[0]
            elif t.k == 'ent':
                path.append(('ent', t.a[1]))
                t = t.a[0]
            elif t.k == 'addr':
                return (t.a[0], t.a[1] + tuple(reversed(path)))
            else:
                return (t, tuple(reversed(path)))

    def addr(self, loc):
        root, path = loc
        if isinstance(root, tuple):
            return mk('addr', root, path)
        t = root
        for s in path:
            t = self.sel(t, s)
        return t

    @staticmethod
    def sel(t, s):
        """raw symbolic selection (no simplification through the store)."""
        if isinstance(s, str):
            return fld(t, s)
        if isinstance(s, tuple):
            if s[0] == 'at':
                return at(t, s[1])
            return mk('ent', t, s[1])
        return idx(t, s)

    def ext(self, loc, s):
        root, path = loc
        if path and isinstance(path[-1], tuple) and path[-1][0] == 'ent':
            if s == 'second':
                return (root, path[:-1] + (('at', path[-1][1]),))
            if s == 'first':
                return self.to_loc(path[-1][1])
        if not path and isinstance(root, T) and root.k not in ("ite",):
            pass
        return (root, path + (s,))

    def proj(self, st, v, s):
        """value-level projection."""
        if v.k == 'addr':
            return self.read(st, self.ext((v.a[0], v.a[1]), s))
        if v.k == 'ite':
            return ite(v.a[0], self.proj(st, v.a[1], s), self.proj(st, v.a[2], s))
        if s == '*':
            if v.k == 'some':
                return v.a[0]
            return fld(v, '*')
        if isinstance(s, str):
            return fld(v, s)
        if isinstance(s, tuple):
            if s[0] == 'at':
                return at(v, s[1])
            return mk('agg', 'pair', (('first', s[1]), ('second', at(v, s[1]))))
        return idx(v, s)

    def read(self, st, loc):
        root, path = loc
        if isinstance(root, T):
            if root.k == 'ite':
                return ite(root.a[0], self.read(st, self.cat(root.a[1], path)), self.read(st, self.cat(root.a[2], path)))
            if root.k in ('agg', 'upd', 'seq', 'c', 's', 'some', 'cat', 'lin'):
                v = root
                for s in path:
                    v = self.proj(st, v, s)
                return v
        inner = st.store.get(root)
        v = None
        if inner:
            for n in range(len(path), -1, -1):
                p = path[:n]
                if p in inner:
                    v = inner[p]
                    for s in path[n:]:
                        v = self.proj(st, v, s)
                    break
        if v is None:
            if isinstance(root, T):
                v = root
                for s in path:
                    v = self.proj(st, v, s) if v.k in ('agg', 'upd', 'seq', 'ite') else self.sel(v, s)
            else:
                v = mk('sym', 'uninit:%s' % (root[2],), str(root[1]))
                for s in path:
                    v = self.sel(v, s)
        if inner and len(inner) > 0:
            n = len(path)
            deeper = [(p, x) for p, x in inner.items() if len(p) > n and p[:n] == path]
            if deeper:
                v = self.overlay(v, [(p[n:], x) for p, x in deeper])
        return v

    def cat(self, t, path):
        loc = self.to_loc(t)
        for s in path:
            loc = self.ext(loc, s)
        return loc

    def overlay(self, base, entries):
        groups = {}
        for p, x in entries:
            groups.setdefault(p[0], []).append((p[1:], x))
        ups = []
        for s, sub_ in groups.items():
            whole = [x for p, x in sub_ if not p]
            rest = [(p, x) for p, x in sub_ if p]
            v = whole[0] if whole else (fld(base, s) if isinstance(s, str) else at(base, s[1]) if isinstance(s, tuple) else idx(base, s))
            if rest:
                v = self.overlay(v, rest)
            ups.append((s, v))
        if base.k == 'agg' and all(isinstance(s, str) for s, _ in ups):
            d = dict(base.a[1])
            if all(s in d for s, _ in ups):
                d.update(ups)
                return mk('agg', base.a[0], tuple(d.items()))
        if base.k == 'agg' and all(isinstance(s, T) and s.k == 'c' for s, _ in ups):
            d = dict(base.a[1])
            for s, v in ups:
                d[s.a[0]] = v
            return mk('agg', base.a[0], tuple(sorted(d.items(), key=lambda kv: (isinstance(kv[0], str), kv[0]))))
        if base.k == 'seq' and base.a[1] is None and all(isinstance(s, T) and s.k == 'c' for s, _ in ups) and all(i[0] == 'item' for i in base.a[2]):
            items = list(base.a[2])
            ok = True
            for s, v in ups:
                if 0 <= s.a[0] < len(items):
                    items[s.a[0]] = ('item', v)
                else:
                    ok = False
            if ok:
                return mk('seq', base.a[0], None, tuple(items))
        kv = [(s, v) for s, v in ups if isinstance(s, tuple)]
        if kv and len(kv) == len(ups):
            items = tuple(('kv', s[1], v, 'assign') for s, v in kv)
            return self.seq_append(base, items, 'map')
        if base.k == 'upd':
            return upd(base, ups)
        if base.k == 'addr':
            return base
        return upd(base, ups)

    @staticmethod
    def seq_append(v, items, kind):
        if v.k == 'seq' and len(items) == 1 and items[0][0] == 'kv' and items[0][3] == 'assign':
            # an unconditional assignment hides earlier ones of the same key
            old = list(v.a[2])
            while old and only_key(old[-1], items[0][1]):
                old.pop()
            return mk('seq', v.a[0], v.a[1], tuple(old) + tuple(items))
        if v.k == 'seq':
            return mk('seq', v.a[0], v.a[1], v.a[2] + tuple(items))
        return mk('seq', kind, v, tuple(items))

    def write(self, st, loc, v, line=None, fr=None, when=TRUE):
        root, path = loc
        if isinstance(root, T) and root.k == 'ite':
            for c, t in ((root.a[0], root.a[1]), (not_(root.a[0]), root.a[2])):
                l = self.cat(t, path)
                self.write(st, l, ite(c, v, self.read(st, l)), when=and_(when, c))
            return
        inner = st.store.get(root)
        n = len(path)
        if inner:
            d = {}
            for p, x in inner.items():
                if len(p) >= n and p[:n] == path:
                    continue
                # writes through a possibly equal index invalidate what we knew of the other element
                if self.may_alias(p, path):
                    d[p] = x if self.nowhere(p, when) else Unk('alias') if when is TRUE else ite(when, Unk('alias'), x)
                    continue
                d[p] = x
            d[path] = v
        else:
            d = {path: v}
        st.store[root] = d

    @staticmethod
    def nowhere(p, when):
        """The path goes through the first element satisfying something nothing satisfies when this happens."""
        if when is TRUE:
            return False
        facts = when.a if when.k == 'and' else (when,)
        facts = set(facts[0]) if len(facts) == 1 and isinstance(facts[0], tuple) else set(facts)
        for s in p:
            if isinstance(s, T) and s.k == 'first' and not_(s.a[0]) in facts:
                return True
        return False

    @staticmethod
    def may_alias(p, q):
        for a, b in zip(p, q):
            if a == b:
                continue
            if isinstance(a, T) and isinstance(b, T):
                return not distinct(a, b) and not (sub(a, b).k == 'c')
            if isinstance(a, tuple) and isinstance(b, tuple):
                return not distinct(a[1], b[1])
            return False
        return False

    # --------------------------------------------------------------------------------- joining
    def join(self, c, a, b):
        if a.dead:
            return b
        if b.dead:
            return a
        r = State()
        sa, sb = a.store, b.store
        for root in (sa.keys() | sb.keys()):
            ia, ib = sa.get(root), sb.get(root)
            if ia is ib:
                r.store[root] = ia
                continue
            if isinstance(root, tuple) and (ia is None or ib is None):
                r.store[root] = ia if ia is not None else ib
                continue
            ia, ib = ia or {}, ib or {}
            # an element written on one side only: the whole map is what differs
            for st, i, j in ((a, ia, ib), (b, ib, ia)):
                for p in [p for p in i if p not in j]:
                    n = next((n for n, s in enumerate(p) if isinstance(s, tuple)), None)
                    if n is not None and p in i:
                        m = self.read(st, (root, p[:n]))
                        i = {q: x for q, x in i.items() if q[:n] != p[:n]}
                        i[p[:n]] = m
                        st.store[root] = i
            ia, ib = sa.get(root) or {}, sb.get(root) or {}
            d = {}
            for p in sorted(set(ia) | set(ib), key=len):
                x, y = ia.get(p), ib.get(p)
                if x is y and x is not None:
                    d[p] = x
                    continue
                if x is None:
                    x = self.read(a, (root, p))
                if y is None:
                    y = self.read(b, (root, p))
                d[p] = self.jval(c, x, y)
            r.store[root] = d
        # path conditions
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        ra, rb = a.pc[n:], b.pc[n:]
        common = a.pc[:n]
        x = or_(and_(*ra), and_(*rb))
        r.pc = common + ((x,) if x is not TRUE else ())
        return r

    def jval(self, c, x, y):
        if x is y:
            return x
        if x.k == 'seq' or y.k == 'seq':
            xs = x.a if x.k == 'seq' else (y.a[0], x, ())
            ys = y.a if y.k == 'seq' else (x.a[0], y, ())
            if xs[1] is ys[1]:
                i = 0
                while i < len(xs[2]) and i < len(ys[2]) and xs[2][i] == ys[2][i]:
                    i += 1
                ra, rb = xs[2][i:], ys[2][i:]
                if c.k == 'not':
                    c, ra, rb = c.a[0], rb, ra
                if not ra and not rb:
                    return x
                # merge nested identical conditions
                return mk('seq', xs[0], xs[1], xs[2][:i] + (('if', c, ra, rb),))
        if x.k == 'it' and y.k == 'it' and x.a[0] is y.a[0]:
            return mk('it', x.a[0], ite(c, x.a[1], y.a[1]))
        return ite(c, x, y)

    def merge(self, outs):
        """outs: [(state, value)] in program order, mutually exclusive."""
        outs = [(s, v) for s, v in outs if s is not None]
        if not outs:
            return None, None
        st, val = outs[-1]
        for s, v in reversed(outs[:-1]):
            n = 0
            while n < len(s.pc) and n < len(st.pc) and s.pc[n] is st.pc[n]:
                n += 1
            c = and_(*s.pc[n:])
            d = and_(*st.pc[n:])
            if d.k in ('eq', 'nz', 'gt0', 'any', 'has') and c.k != d.k and not_(d) is not c:
                pass
            if v is not None and val is not None:
                val = self.jval(c, v, val)
            elif val is None:
                val = v
            st = self.join(c, s, st)
        return st, val

    # ---------------------------------------------------------------------------------- running
    def analyze(self, fn, params=None, this=None, pre=None):
        """Analyses a function with symbolic parameters and receiver."""
        st = State()
        self.cur = tree = []
        fr = Frame(fn['sq'], fn['u'], fn['file'])
        ps = []
        for i, p in enumerate(fn['params']):
            t = (params or {}).get(i)
            if t is None:
                t = Sym('arg%d' % i, base_type(p['t']))
            ps.append(t)
            if is_ref(p['t']):
                fr.env[p['id']] = self.to_loc(t)
            else:
                l = self.new_loc(p['n'])
                self.write(st, l, t)
                fr.env[p['id']] = l
        if fn.get('cls') and not fn.get('static'):
            fr.this = this or Sym('this', fn['cls'])
        if pre:
            pre(self, st, fr)
        fr.retref = is_ref(fn['ret'])
        self.stack = [fn['u']]
        self.run_body(fn, st, fr)
        outs = fr.out
        rets = [(o.st, o.value) for o in outs if o.kind == 'ret']
        if not st.dead:
            rets.append((st, None))
        fst, val = self.merge(rets)
        return Result(fn, tree, fst, val, ps, fr.this, outs)

    def run_body(self, fn, st, fr):
        if fn.get('ctor'):
            self.run_inits(fn, st, fr)
        if fn.get('body') is not None:
            self.exec(fn['body'], st, fr)
        if fn.get('dtor') and not fn.get('skipfields'):
            # members are destroyed after the body on every exit
            rec = self.p.records.get(fn.get('cls'))
            if rec:
                def members(s):
                    self.destroy_members(rec, s, self.to_loc(fr.this), fr)
                self.on_all_exits(st, fr, 0, members)

    def on_all_exits(self, st, fr, start, act):
        for o in fr.out[start:]:
            self.at_leaf(o, act)
        if not st.dead:
            act(st)

    def at_leaf(self, o, act):
        saved = self.cur
        self.cur = tmp = []
        act(o.st)
        self.cur = saved
        if tmp:
            for i, x in enumerate(o.lst):
                if x is o.leaf:
                    o.lst[i:i] = tmp
                    break

    def run_inits(self, fn, st, fr):
        loc = self.to_loc(fr.this)
        for i in fn.get('inits', ()):
            if st.dead:
                return
            if self.opaque_ctor(i['e']) and isinstance(loc[0], T) and ('field' in i or i.get('base', fn.get('cls')) != fn.get('cls')):
                # a part built by a constructor left uninterpreted stays what it is called
                self.rv(i['e'], st, fr)
            elif 'field' in i:
                self.init_into(i['e'], st, fr, self.ext(loc, i['field']), self.field_type(fn.get('cls'), i['field']), i.get('l'))
                if self.trace_sets and isinstance(loc[0], T):
                    v = self.read(st, self.ext(loc, i['field']))
                    self.ev('set', i['field'], [fr.this, v], fr, i.get('l', fn['line']), init=True)
            else:
                self.init_into(i['e'], st, fr, loc, i.get('base', fn.get('cls')), i.get('l'))

    def opaque_ctor(self, e):
        if e is None or e['k'] != 'ctor' or e.get('copy') or e.get('move'):
            return False
        f = self.p.funcs.get(e['u'])
        return f is not None and bool(f.get('ctor')) and bool(self.stops(f))

    def field_type(self, cls, f):
        r = self.p.records.get(cls)
        if r:
            for x in r['fields']:
                if x['n'] == f:
                    return x['t']
        return ''

    # -------------------------------------------------------------------------------- statements
    def step(self):
        self.budget -= 1
        if self.budget < 0:
            raise Limit('budget')

    def loc(self, fr, line):
        return (fr.file, line, fr.fn)

    def ev(self, kind, name, args, fr, line, res=None, **x):
        e = Ev(kind, name, args, self.loc(fr, line), res, next(self.ec), **x)
        self.cur.append(e)
        return e

    def abrupt(self, kind, st, fr, line, value=None):
        leaf = Leaf(kind, value, self.loc(fr, line))
        self.cur.append(leaf)
        o = Outcome(kind, st.fork(), value, self.cur, leaf)
        fr.out.append(o)
        st.dead = True

    def exec(self, s, st, fr):
        if s is None or st.dead:
            return
        self.step()
        k = s['k']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            self.unknowns.append(('stmt', k, fr.file, s.get('l')))
            return
        m(s, st, fr)

    def x_block(self, s, st, fr):
        cleanups = []
        for x in s['s']:
            if st.dead:
                break
            n = len(fr.out)
            if x is not None and x['k'] == 'decls':
                for v in x['s']:
                    n2 = len(fr.out)
                    self.declare(v, st, fr, cleanups_before=None)
                    self.run_cleanups(fr.out[n2:], None, cleanups, fr)
                    if st.dead:
                        break
                    c = self.cleanup_for(v, st, fr)
                    if c:
                        cleanups.append(c)
                continue
            self.exec(x, st, fr)
            if cleanups and len(fr.out) > n:
                self.run_cleanups(fr.out[n:], None, cleanups, fr)
        if not st.dead and cleanups:
            for c in reversed(cleanups):
                c(st)

    def run_cleanups(self, outs, _, cleanups, fr):
        for o in outs:
            for c in reversed(cleanups):
                self.at_leaf(o, c)

    def cleanup_for(self, v, st, fr):
        t = v['t']
        if is_ref(t) or v.get('static'):
            return None
        vt = val_type(t)
        if any(vt.startswith(l) for l in LOCKS):
            loc = fr.env[v['id']]
            line = v['l']

            def unlock(s):
                held = self.read(s, loc)
                if held.k == 'lockobj':
                    self.ev('unlock', 'mutex', [held.a[0]], fr, line, auto=True)
            return unlock
        if v.get('dtor') and vt in self.p.records:
            loc = fr.env[v['id']]

            def dt(s):
                self.destroy(vt, s, loc, fr, v['l'])
            return dt
        return None

    def destroy(self, typ, st, loc, fr, line):
        """Runs the destructor of a repository class."""
        rec = self.p.records.get(typ)
        if rec is None:
            return
        u = None
        for m in rec['methods']:
            if m['n'].startswith('~'):
                u = m['u']
        f = self.p.funcs.get(u) if u else None
        if f is not None and f.get('body') is not None:
            if self.stops(f):
                self.ev('api', f['sq'], [self.addr(loc)], fr, line, fn=f)
                return
            self.call_fn(f, st, fr, line, this=loc, args=[])
        else:
            self.destroy_members(rec, st, loc, fr)

    def destroy_members(self, rec, st, loc, fr):
        for f in reversed(rec['fields']):
            t = f['t']
            if is_ref(t) or t.endswith('*'):
                continue
            bt = val_type(t)
            if bt in self.p.records and self.needs_dtor(bt):
                self.destroy(bt, st, self.ext(loc, f['n']), fr, rec['line'])
            else:
                m = re.match(r'^std::(vector|unique_ptr|list|optional)<([\w:]+)[,>]', bt)
                if m and m.group(2) in self.p.records and self.needs_dtor(m.group(2)):
                    l = self.ext(loc, f['n'])
                    if m.group(1) in ('vector', 'list'):
                        self.each(l, st, fr, rec['line'], lambda s, el: self.destroy(m.group(2), s, el, fr, rec['line']))
                    else:
                        v = self.read(st, l)
                        c = truth(v)
                        tgt = self.to_loc(v)
                        self.branch(c, st, fr, rec['line'], lambda s: self.destroy(m.group(2), s, tgt, fr, rec['line']), None)

    def needs_dtor(self, typ, seen=None):
        seen = seen or set()
        if typ in seen:
            return False
        seen.add(typ)
        rec = self.p.records.get(typ)
        if rec is None:
            return False
        for m in rec['methods']:
            if m['n'].startswith('~'):
                f = self.p.funcs.get(m['u'])
                if f is not None and f.get('body') is not None and f['body'].get('s'):
                    return True
        for f in rec['fields']:
            t = f['t']
            if is_ref(t) or t.endswith('*'):
                continue
            bt = val_type(t)
            m = re.match(r'^std::(vector|unique_ptr|list|optional)<([\w:]+)[,>]', bt)
            if m:
                bt = m.group(2)
            if self.needs_dtor(bt, seen):
                return True
        return False

    def branch(self, c, st, fr, line, then, els):
        """Structured two-way branch; then/els are state transformers."""
        c = truth(c)
        c2 = assume(c, st.pc) if st.pc else c
        if c2.k == 'c':
            f = then if c2.a[0] else els
            if f:
                f(st)
            return
        s1, s2 = st.fork(c), st.fork(not_(c))
        saved = self.cur
        self.cur = a = []
        if then:
            then(s1)
        self.cur = b = []
        if els:
            els(s2)
        self.cur = saved
        if a or b:
            self.cur.append(If(c, a, b, self.loc(fr, line)))
        if s1.dead and s2.dead:
            st.dead = True
            return
        st.become(self.join(c, s1, s2))

    def x_decls(self, s, st, fr):
        for v in s['s']:
            if st.dead:
                return
            self.declare(v, st, fr)

    def declare(self, v, st, fr, cleanups_before=None):
        t = v['t']
        if v.get('static'):
            loc = (Sym('static:%s%s:%s' % ('thread:' if v.get('tls') else '', fr.fn, v['n']), base_type(t)), ())
            fr.env[v['id']] = loc
            self.statics[v['id']] = loc
            if 'e' in v:
                const = val_type(t) != t or t.startswith('const ')
                if const and not is_ref(t):
                    saved = self.cur
                    self.cur = []
                    s2 = st.fork()
                    val = self.ev_init(v['e'], s2, fr, t)
                    self.cur = saved
                    dep = contains(val, lambda x: x.k == 'sym' and (x.a[0].startswith('arg') or x.a[0] == 'this'))
                    if dep:
                        val = app('firstcall', val)
                    self.write(st, loc, val)
                else:
                    self.ev('static', v['n'], [], fr, v['l'])
            return
        if is_ref(t):
            if 'e' in v:
                loc = self.lv(v['e'], st, fr)
                fr.env[v['id']] = loc
            if v.get('binds'):
                self.bind(v, fr.env[v['id']], fr)
            return
        loc = self.new_loc(v['n'])
        self.loc_types[loc[0]] = val_type(t)
        fr.env[v['id']] = loc
        if 'e' in v:
            self.init_into(v['e'], st, fr, loc, t, v['l'])
        if v.get('binds'):
            self.bind(v, loc, fr)

    def bind(self, v, loc, fr):
        t = val_type(v['t'])
        for i, b in enumerate(v['binds']):
            if 'f' in b:
                s = b['f']
            elif t.startswith('std::pair<'):
                s = ('first', 'second')[i]
            elif t.startswith('std::tuple<'):
                s = '_%d' % i
            else:
                s = C(i)
            fr.env[b['id']] = self.ext(loc, s)

    def init_into(self, e, st, fr, loc, t, line=None):
        """Initialises the object at loc with expression e."""
        vt = val_type(t) if t else ''
        if e is None:
            return
        if e['k'] == 'ctor' and not e.get('copy') and not e.get('move'):
            f = self.p.funcs.get(e['u'])
            if f is not None and f.get('ctor') and not self.stops(f) and (f.get('body') is not None or f.get('inits')) and not f.get('copyctor') and not f.get('movector'):
                self.construct(f, e, st, fr, loc)
                return
        if is_ref(t or ''):
            l = self.lv(e, st, fr)
            self.write(st, loc, self.addr(l))
            return
        if any(vt.startswith(l) for l in LOCKS):
            e2 = e
            if e2['k'] == 'ctor' and e2['a']:
                m = self.lv(e2['a'][0], st, fr)
                mt = self.addr(m)
                defer = len(e2['a']) > 1
                self.write(st, loc, mk('lockobj', mt))
                if not defer:
                    self.ev('lock', 'mutex', [mt], fr, line or e.get('l'))
                return
        if e['k'] == 'ilist' and e.get('rec') and vt in self.p.records:
            # aggregate initialisation of a repository record: construct the fields in place
            self.init_agg(e, st, fr, loc, vt)
            return
        v = self.ev_init(e, st, fr, t)
        self.write(st, loc, v)

    def init_agg(self, e, st, fr, loc, vt):
        self.write(st, loc, mk('agg', vt, ()))
        for n, x in zip(e['f'], e['e']):
            if n.startswith('@base:'):
                self.init_into(x, st, fr, loc, n[6:], e.get('l'))
                continue
            self.init_into(x, st, fr, self.ext(loc, n), self.field_type(vt, n), e.get('l'))
        # fold into one value when nothing was constructed in place
        v = self.read(st, loc)
        if v.k == 'upd' and v.a[0].k == 'agg':
            v = mk('agg', vt, tuple((s, x) for s, x in v.a[1]))
            self.write(st, loc, v)

    def ev_init(self, e, st, fr, t):
        return self.rv(e, st, fr)

    def construct(self, f, e, st, fr, loc):
        args = self.bind_args(f, e['a'], st, fr)
        self.call_fn(f, st, fr, e.get('l'), this=loc, args=args, ctor=True)

    def x_expr(self, s, st, fr):
        self.rv(s['e'], st, fr)

    def x_nop(self, s, st, fr):
        pass

    def x_label(self, s, st, fr):
        self.exec(s['s'], st, fr)

    def x_if(self, s, st, fr):
        if s.get('init'):
            self.exec(s['init'], st, fr)
        if s.get('cvar'):
            self.declare(s['cvar'], st, fr)
        if st.dead:
            return
        n = len(fr.out)
        c = truth(self.rv(s['c'], st, fr))
        cl = None
        if s.get('init') and s['init']['k'] == 'decls':
            cl = [x for x in (self.cleanup_for(v, st, fr) for v in s['init']['s']) if x]
        self.branch(c, st, fr, s['l'], lambda x: self.exec(s['t'], x, fr), (lambda x: self.exec(s['e'], x, fr)) if s.get('e') else None)
        if cl:
            self.run_cleanups(fr.out[n:], None, cl, fr)
            if not st.dead:
                for x in reversed(cl):
                    x(st)

    def x_return(self, s, st, fr):
        v = None
        if s.get('e') is not None:
            if fr.retref:
                v = self.addr(self.lv(s['e'], st, fr))
            else:
                v = self.rv(s['e'], st, fr)
        if not st.dead:
            self.abrupt('ret', st, fr, s['l'], v)

    def x_break(self, s, st, fr):
        self.abrupt('brk', st, fr, s['l'])

    def x_continue(self, s, st, fr):
        self.abrupt('cont', st, fr, s['l'])

    def x_goto(self, s, st, fr):
        self.unknowns.append(('stmt', 'goto', fr.file, s.get('l')))

    def x_switch(self, s, st, fr):
        if s.get('init'):
            self.exec(s['init'], st, fr)
        if s.get('cvar'):
            self.declare(s['cvar'], st, fr)
        x = self.rv(s['c'], st, fr)
        if st.dead:
            return
        body = s['b']['s'] if s['b']['k'] == 'block' else [s['b']]
        # flatten labels
        stmts, groups = [], []     # groups: (start index, [case values] or default)
        for b in body:
            labels = []
            while b is not None and b['k'] in ('case', 'default'):
                labels.append(b['v'] if b['k'] == 'case' else None)
                b = b['s']
            if labels:
                if groups and groups[-1][0] == len(stmts):
                    groups[-1][1].extend(labels)
                else:
                    groups.append((len(stmts), labels))
            stmts.append(b)
        conds = []
        default = None
        for i, (start, labels) in enumerate(groups):
            cs = []
            for v in labels:
                if v is None:
                    default = i
                else:
                    cs.append(eq(x, self.rv(v, st, fr)))
            conds.append(or_(*cs))
        order = [i for i in range(len(groups)) if i != default]

        def run(i):
            def f(q):
                n = len(fr.out)
                self.x_block({'k': 'block', 's': stmts[groups[i][0]:]}, q, fr)
                self.catch_local(q, fr, n, 'brk')
            return f

        def chain(j):
            if j == len(order):
                return run(default) if default is not None else None
            i = order[j]

            def f(q):
                c = conds[i]
                if default == i:
                    c = TRUE
                self.branch(c, q, fr, s['l'], run(i), chain(j + 1))
            return f
        # labels sharing the default's group only restrict nothing: they run the default code
        g = chain(0)
        if g:
            saved = self.cur
            self.cur = t = []
            g(st)
            self.cur = saved
            if has_leaf(t, 'brk'):
                self.cur.append(Scope('switch', t, self.loc(fr, s['l'])))
            else:
                self.cur.extend(t)
            # outcomes that live in t keep their lists (nested) or move with the splice
            for o in fr.out:
                if o.lst is t:
                    o.lst = self.cur if not has_leaf(t, 'brk') else t

    def catch_local(self, st, fr, n, kind):
        """Turns break (or continue) outcomes recorded since n into normal completion of st."""
        mine = [o for o in fr.out[n:] if o.kind == kind]
        if not mine:
            return
        fr.out[n:] = [o for o in fr.out[n:] if o.kind != kind]
        outs = [(o.st, None) for o in mine]
        if not st.dead:
            outs.append((st.fork(), None))
        r, _ = self.merge(outs)
        r = r.fork()
        r.dead = False
        st.become(r)

    def x_try(self, s, st, fr):
        n = len(fr.out)
        saved = self.cur
        self.cur = body = []
        self.exec(s['b'], st, fr)
        throws = [o for o in fr.out[n:] if o.kind == 'throw']
        fr.out[n:] = [o for o in fr.out[n:] if o.kind != 'throw']
        handlers = []
        base = st.fork()
        outs = []
        if throws:
            ts, _ = self.merge([(o.st, None) for o in throws])
        else:
            ts = base.fork()
            ts.dead = False
            ts.pc = ts.pc + (truth(Unk('exception')),)
        for h in s['h']:
            self.cur = hb = []
            hs = ts.fork()
            hs.dead = False
            if h.get('id'):
                l = self.new_loc('exc')
                fr.env[h['id']] = l
                self.write(hs, l, mk('sym', 'exception', ''))
            self.exec(h['b'], hs, fr)
            handlers.append(hb)
            if not hs.dead:
                outs.append((hs, None))
        self.cur = saved
        self.cur.append(Try(body, handlers, self.loc(fr, s['l'])))
        if not st.dead:
            outs.append((st.fork(), None))
        if not outs:
            st.dead = True
            return
        r, _ = self.merge(outs)
        st.become(r.fork())

    # ------------------------------------------------------------------------------------- loops
    def x_while(self, s, st, fr):
        def cond(q):
            if s.get('cvar'):
                self.declare(s['cvar'], q, fr)
            return truth(self.rv(s['c'], q, fr))
        self.loop(st, fr, s['l'], cond, lambda q: self.exec(s['b'], q, fr), None)

    def x_do(self, s, st, fr):
        # first iteration, then a while loop
        if s['c']['k'] == 'int' and s['c'].get('v') == 0:
            n = len(fr.out)
            saved = self.cur
            self.cur = t = []
            self.exec(s['b'], st, fr)
            self.catch_local(st, fr, n, 'brk')
            self.catch_local(st, fr, n, 'cont')
            self.cur = saved
            self.cur.append(Scope('do', t, self.loc(fr, s['l'])))
            return
        n = len(fr.out)
        saved = self.cur
        self.cur = t = []
        self.exec(s['b'], st, fr)
        self.catch_local(st, fr, n, 'cont')
        self.cur = saved
        brk = [o for o in fr.out[n:] if o.kind == 'brk']
        if has_leaf(t, 'brk') or has_leaf(t, 'cont'):
            self.cur.append(Scope('do', t, self.loc(fr, s['l'])))
        else:
            self.cur.extend(t)
            for o in fr.out[n:]:
                if o.lst is t:
                    o.lst = self.cur
        fr.out[n:] = [o for o in fr.out[n:] if o.kind != 'brk']
        if not st.dead:
            self.loop(st, fr, s['l'], lambda q: truth(self.rv(s['c'], q, fr)), lambda q: self.exec(s['b'], q, fr), None)
        if brk:
            outs = [(o.st, None) for o in brk]
            if not st.dead:
                outs.append((st.fork(), None))
            r, _ = self.merge(outs)
            r = r.fork()
            r.dead = False
            st.become(r)

    def x_for(self, s, st, fr):
        if s.get('i'):
            self.exec(s['i'], st, fr)
        if st.dead:
            return

        def cond(q):
            if s.get('cvar'):
                self.declare(s['cvar'], q, fr)
            return truth(self.rv(s['c'], q, fr)) if s.get('c') is not None else TRUE
        inc = (lambda q: self.rv(s['n'], q, fr)) if s.get('n') is not None else None
        self.loop(st, fr, s['l'], cond, lambda q: self.exec(s['b'], q, fr), inc)

    def x_rfor(self, s, st, fr):
        if s.get('i'):
            self.exec(s['i'], st, fr)
        loc = self.lv(s['r'], st, fr)
        if st.dead:
            return
        v = s['v']

        def body(q, el):
            if is_ref(v['t']):
                fr.env[v['id']] = el
                if v.get('binds'):
                    self.bind(v, el, fr)
            else:
                l = self.new_loc(v['n'])
                self.write(q, l, self.read(q, el))
                fr.env[v['id']] = l
                if v.get('binds'):
                    self.bind(v, l, fr)
            self.exec(s['b'], q, fr)
        self.each(loc, st, fr, s['l'], body)

    def each(self, loc, st, fr, line, body, allow_break=True):
        """body(state, element location) for every element of the container at loc."""
        x = self.read(st, loc)
        # pointers to containers
        if x.k == 'addr':
            loc = self.to_loc(x)
            x = self.read(st, loc)
        if x.k == 'ite' and (x.a[1].k == 'seq' or x.a[2].k == 'seq'):
            def arm(v):
                def f(q):
                    l = self.new_loc('arm')
                    self.write(q, l, v)
                    self.each(l, q, fr, line, body)
                return f
            self.branch(x.a[0], st, fr, line, arm(x.a[1]), arm(x.a[2]))
            return
        if x.k == 'agg' and all(isinstance(n, int) for n, _ in x.a[1]) and len(x.a[1]) <= 16 and x.a[1]:
            self.unrolled([self.ext(loc, C(n)) for n, _ in x.a[1]], st, fr, line, body)
            return
        if x.k == 'seq':
            self.each_seq(loc, x.a[0], x.a[1], x.a[2], st, fr, line, body)
            return
        self.each_base(loc, x, st, fr, line, body)

    def each_base(self, loc, x, st, fr, line, body):
        self.loop(st, fr, line, None, lambda q, i: body(q, self.ext(loc, i)), None, count=size(x), over=x)

    def unrolled(self, els, st, fr, line, body):
        n = len(fr.out)
        saved = self.cur
        self.cur = t = []
        brk = []
        for el in els:
            if st.dead:
                break
            self.cur = it = []
            n1 = len(fr.out)
            body(st, el)
            self.catch_local(st, fr, n, 'cont')
            self.cur = t
            if has_leaf(it, 'cont'):
                t.append(Scope('iter', it, self.loc(fr, line)))
            else:
                t.extend(it)
                for o in fr.out[n1:]:
                    if o.lst is it:
                        o.lst = t
            b = [o for o in fr.out[n:] if o.kind == 'brk']
            if b:
                fr.out[n:] = [o for o in fr.out[n:] if o.kind != 'brk']
                brk += b
        self.cur = saved
        if has_leaf(t, 'brk'):
            self.cur.append(Scope('unrolled', t, self.loc(fr, line)))
        else:
            self.cur.extend(t)
            for o in fr.out[n:]:
                if o.lst is t:
                    o.lst = self.cur
        if brk:
            outs = [(o.st, None) for o in brk]
            if not st.dead:
                outs.append((st.fork(), None))
            r, _ = self.merge(outs)
            r = r.fork()
            r.dead = False
            st.become(r)

    def each_seq(self, loc, kind, base, items, st, fr, line, body):
        if base is not None:
            bl = self.new_loc('base')
            self.write(st, bl, base)
            if kind != 'map' or not items:
                self.each_base(self.to_loc(base) if base.k in ('fld', 'sym', 'at', 'idx') else bl, base, st, fr, line, body)
        if kind in ('map', 'set') and items:
            # order and duplicates of associative containers are not modelled: one generic loop
            x = mk('seq', kind, base, items)
            self.each_base(loc, x, st, fr, line, body)
            return
        run = []

        def flush():
            if run:
                self.unrolled(list(run), st, fr, line, body)
                run.clear()
        for it in items:
            if st.dead:
                return
            if it[0] == 'item':
                l = self.new_loc('item')
                self.write(st, l, it[1])
                run.append(l)
                continue
            flush()
            if it[0] == 'if':
                self.branch(it[1], st, fr, line,
                            (lambda q, a=it[2]: self.each_seq(loc, kind, None, a, q, fr, line, body)) if it[2] else None,
                            (lambda q, a=it[3]: self.each_seq(loc, kind, None, a, q, fr, line, body)) if it[3] else None)
            elif it[0] == 'loop':
                _, lid, cnt, sub_ = it

                def lb(q, i, lid=lid, sub_=sub_):
                    m = {mk('lv', lid): i}
                    self.each_seq(loc, kind, None, tuple(subst_items(sub_, m)), q, fr, line, body)
                self.loop(st, fr, line, None, lb, None, count=cnt)
            elif it[0] == 'splice':
                l = self.new_loc('splice')
                self.write(st, l, it[1])
                self.each(l, st, fr, line, body)
            elif it[0] == 'fill':
                def fb(q, i, v=it[1]):
                    l = self.new_loc('fill')
                    self.write(q, l, v)
                    body(q, l)
                self.loop(st, fr, line, None, fb, None, count=it[2])
            else:
                def ub(q, i, it=it):
                    l = self.new_loc('elt')
                    self.write(q, l, idx(mk('seq', kind, None, (it,)), i))
                    body(q, l)
                self.loop(st, fr, line, None, ub, None, count=mk('size', mk('seq', kind, None, (it,))))
        flush()

    def loop(self, st, fr, line, cond, body, inc, count=None, over=None):
        """Summarises a loop.  With `count` given, body takes (state, index term)."""
        counted = count is not None
        if counted and count.k == 'c' and 0 <= count.a[0] <= 8:
            els = [C(i) for i in range(count.a[0])]
            self.unrolled(els, st, fr, line, body)
            return
        if not counted and self.try_unroll(st, fr, line, cond, body, inc):
            return
        lid = next(self.lc)
        lv = mk('lv', lid)
        st0 = st.fork()
        n0 = len(fr.out)
        modified = {}

        def phi(loc):
            v0 = self.read(st0, loc)
            a = self.addr(loc)
            ph = mk('lphi', lid, a)
            if v0.k == 'it':
                return mk('it', v0.a[0], mk('lphi', lid, a))
            if v0.k == 'seq' or v0.k == 'lphi' and False:
                return mk('seq', v0.a[0], ph, ())
            return ph

        def trial(vals):
            del fr.out[n0:]
            q = st0.fork()
            for l, v in vals.items():
                self.write(q, l, v)
            saved = self.cur
            self.cur = tree = []
            c = TRUE
            if cond is not None:
                c = cond(q)
            pre = q.fork()
            npre = len(tree)
            b = q.fork(c)
            mark = len(b.pc)
            if counted:
                body(b, lv)
            else:
                body(b)
            self.catch_local(b, fr, n0, 'cont')
            if inc is not None and not b.dead:
                inc(b)
            self.cur = saved
            outs = fr.out[n0:]
            del fr.out[n0:]
            return pre, c, b, outs, tree, mark

        vals = {}
        for _ in range(5):
            pre, c, b, outs, tree, mark = trial(vals)
            new = self.modified_locs(st0, [b] + [o.st for o in outs if o.kind in ('brk',)] + [pre], lid)
            add_ = False
            for l in new:
                if any(l[0] == m[0] and l[1][:len(m[1])] == m[1] for m in vals):
                    continue
                for m in [m for m in vals if m[0] == l[0] and m[1][:len(l[1])] == l[1]]:
                    del vals[m]
                vals[l] = phi(l)
                add_ = True
            if not add_:
                break
        # containers whose elements are replaced only
        kept = False
        if not b.dead:
            for l, pv in vals.items():
                if pv.k == 'lphi' and pv not in SIZES:
                    e = self.read(b, l)
                    v0 = self.read(st0, l)
                    if e.k == 'upd' and size(e) is mk('size', pv) and all(size(self.read(o.st, l)) is mk('size', pv) for o in outs if o.kind in ('brk', 'cont')):
                        keeps_size(pv, size(v0))
                        kept = True
            if kept:
                pre, c, b, outs, tree, mark = trial(vals)
        # induction variables
        ind = {}
        if not b.dead:
            for l, pv in vals.items():
                e = self.read(b, l)
                if pv.k == 'it' and e.k == 'it' and pv.a[0] is e.a[0]:
                    d = sub(e.a[1], pv.a[1])
                    if d.k == 'c' and d.a[0] in (1, -1):
                        ind[l] = d.a[0]
                elif pv.k == 'lphi':
                    d = sub(e, pv)
                    if d.k == 'c' and d.a[0] != 0:
                        ind[l] = d.a[0]
        n = count
        if cond is not None and not counted and not b.dead and len(ind) < len(vals):
            self.linked(st0, vals, ind, trial, cond)
        if ind:
            for l, k in ind.items():
                v0 = self.read(st0, l)
                if v0.k == 'it':
                    vals[l] = mk('it', v0.a[0], add(v0.a[1], mul(C(k), lv)))
                else:
                    vals[l] = add(v0, mul(C(k), lv))
            pre, c, b, outs, tree, mark = trial(vals)
        late = {}
        if not b.dead and (counted or ind):
            # a location that each iteration overwrites with a function of the index: what the previous iteration left
            for l, pv in vals.items():
                if l in ind or pv.k != 'lphi':
                    continue
                e = self.read(b, l)
                if e.k in ('seq', 'it', 'upd', 'agg') or not e.fl & LV or e.fl & (UNK | RES) or contains(e, lambda x: x.k == 'lphi' and x.a[0] == lid):
                    continue
                prev = subst(e, {lv: sub(lv, ONE)})
                v0 = self.read(st0, l)
                late[l] = prev if subst(prev, {lv: ZERO}) is v0 else ite(eq(lv, ZERO), v0, prev)
            if late:
                q = dict(vals)
                q.update(late)
                pre, c, b, outs, tree, mark = trial(q)
        extra = None
        if not counted:
            n, extra = count_of(c, lv)
            if n is None:
                extra = c
        if counted or n is not None:
            # a constant trip count of at most 8: unroll instead
            pass
        node = Loop(lid, n, extra if not counted else None, tree, self.loc(fr, line), over)
        # ---- values after the loop
        brks = [o for o in outs if o.kind == 'brk']
        others = [o for o in outs if o.kind != 'brk']
        base = len(st0.pc)

        def relc(s, frm=mark):
            return and_(*[x for x in s.pc[base:] if x is not c and x not in ((c.a if c.k == 'and' else ()))])
        B = or_(*[relc(o.st) for o in brks]) if brks else FALSE
        if extra is not None and n is not None:
            B = or_(B, not_(extra))
        bad = lambda t: contains(t, lambda x: x.k == 'lphi' and x.a[0] == lid)
        exitc = or_(B, not_(extra)) if extra is not None and n is None else B
        rows, phis = {}, {}
        for l, pv in vals.items():
            if l in ind or l in late:
                continue
            ph = pv.a[1] if pv.k in ('seq', 'it') else pv
            if pv.k != 'lphi':
                phis[ph] = pv
            pos = (lambda x, pv=pv: x.a[1] if x.k == 'it' and x.a[0] is pv.a[0] else None) if pv.k == 'it' else (lambda x: x)
            e = pos(self.read(b, l)) if not b.dead else ph
            vb = None
            for o in reversed(brks):
                x = pos(self.read(o.st, l))
                vb = x if vb is None or x is None else self.jval(relc(o.st), x, vb)
            pre_v = pos(self.read(pre, l))
            if extra is not None:
                vb = pre_v if vb is None else vb if vb is pre_v or pre_v is None else ite(not_(extra), pre_v, vb)
            rows[ph] = (pos(self.read(st0, l)), e, ph if vb is None else vb)
        scnt = n if n is not None else ZERO

        def system(roots, want=None):
            return self.loop_system(lid, lv, scnt, exitc, rows, phis, roots, want)

        def rising(ph):
            v0, e, vb = rows[ph]
            if v0 is None or e is None or vb is None or ph.k != 'lphi' or exitc is not FALSE or any(r is not None and contains(r, lambda x: x is ph) for q, t in rows.items() if q is not ph for r in t[1:]):
                return None
            if vb is not ph:
                return None
            if e.k == 'ite' and e.a[2] is ph and e.a[1] is ONE:
                c = e.a[0]
            elif e.k == 'ite' and e.a[1] is ph and e.a[2] is ONE:
                c = not_(e.a[0])
            elif e.k == 'or' and (ph in e.a or truth(ph) in e.a):
                c = or_(*[x for x in e.a if x is not ph and x is not truth(ph)])
            else:
                return None
            return None if contains(c, lambda x: x is ph) else or_(truth(ph), c)

        def joint(l):
            # the value of l after the loop, from the whole system of the loop's variables
            pv = vals[l]
            ph = pv.a[1] if pv.k in ('seq', 'it') else pv
            if ph not in rows:
                return None
            flag = rising(ph)
            if flag is not None:
                # a flag that is only ever raised: what it was before, or what the loop makes of a lowered one
                keep = rows[ph]
                rows[ph] = (ZERO, flag, ph)
                sys_, m = system([ph], ph)
                rows[ph] = keep
                return None if sys_ is None else or_(truth(keep[0]), truth(mk('app', 'loopval', sys_)))
            sys_, m = system([ph], ph)
            if sys_ is None:
                return None
            r = mk('app', 'loopval', sys_)
            return mk('it', pv.a[0], r) if pv.k == 'it' else r

        def leaving(c):
            # some iteration satisfies c
            sys_, m = system([c])
            if sys_ is None:
                return mk('any', cnt, mk('app', 'cond', C(lid), C(next(self.ec))))
            return truth(mk('app', 'loopany', subst(c, m), sys_))
        cnt = n
        if n is None:
            sys_, m = system([])
            cnt = mk('app', 'loopiters', sys_) if sys_ is not None else mk('app', 'iters', C(lid))
        if B is FALSE:
            anyb = FALSE
        elif bad(B):
            anyb = leaving(B)
        else:
            anyb = quant(cnt, B, lid)
        first = first_at(anyb)
        res = st0.fork()
        done = pre if n is None else None
        for l in vals:
            v0 = self.read(st0, l)
            pv = vals[l]
            e = self.read(b, l) if not b.dead else None
            if l in ind:
                k = ind[l]
                vn = mk('it', v0.a[0], ('end' and add(v0.a[1], mul(C(k), cnt)))) if v0.k == 'it' else add(v0, mul(C(k), cnt))
                if v0.k == 'it' and n is not None and v0.a[1] is ZERO and k == 1:
                    vn = mk('it', v0.a[0], mk('end'))
            else:
                vn = self.after(v0, pv, e, lid, cnt, B is not FALSE)
                if vn is None or B is not FALSE and bad(B):
                    vj = joint(l)
                    if vj is not None:
                        self.write(res, l, vj)
                        continue
                    if vn is None:
                        vn = self.folded(v0, pv, e, lid, cnt)
            if anyb is not FALSE:
                vb = None
                for o in reversed(brks):
                    x = self.read(o.st, l)
                    vb = x if vb is None else self.jval(relc(o.st), x, vb)
                if extra is not None and n is not None:
                    x = pv
                    vb = x if vb is None else vb
                if vb is None:
                    vb = pv
                if bad(vb):
                    # value accumulated up to the exit
                    vj = joint(l)
                    if vj is not None:
                        self.write(res, l, vj)
                        continue
                    if vb is pv or vb is e:
                        vb = vn if vn.k == 'seq' else mk('app', 'upto', vn, anyb) if anyb.k == 'any' else vn
                        fin = vb
                        self.write(res, l, self.cutshort(vb, v0))
                        continue
                    vb = mk('app', 'partial', C(lid), self.addr(l))
                elif first is not None:
                    vb = subst(vb, {lv: first})
                fin = self.jval(anyb, vb, vn)
            else:
                fin = vn
            self.write(res, l, fin)
        # the exit condition holds afterwards when it is not expressed by a count
        if n is None and B is FALSE and not bad(c):
            pass
        # ---- outcomes leaving through the loop
        exitany = []
        for o in others:
            r = relc(o.st)
            if bad(r):
                a = leaving(r)
                o.st.pc = st0.pc + (a,)
                sys_, m = system([r])
                if sys_ is not None:
                    def at_exit(v, r=r):
                        if not isinstance(v, T) or not v.fl & LV or not (bad(v) or contains(v, lambda x: x is lv)):
                            return v
                        sys_, m = system([r, v])
                        return v if sys_ is None else mk('app', 'loopat', subst(v, m), subst(r, m), sys_)
                    for root, inner in list(o.st.store.items()):
                        if st0.store.get(root) is inner:
                            continue
                        if any(v.fl & LV for v in inner.values()):
                            o.st.store[root] = {p_: at_exit(v) for p_, v in inner.items()}
                    if o.value is not None:
                        o.value = at_exit(o.value)
            else:
                a = quant(cnt, r, lid)
                o.st.pc = st0.pc + ((a,) if a is not TRUE else ())
                f = first_at(a)
                if f is not None:
                    m = {lv: f}
                    for root, inner in list(o.st.store.items()):
                        if st0.store.get(root) is inner:
                            continue
                        if any(v.fl & LV for v in inner.values()) or any(isinstance(s, T) and s.fl & LV for p in inner for s in p):
                            o.st.store[root] = {tuple(subst(s, m) if isinstance(s, T) else s for s in p): subst(v, m) for p, v in inner.items()}
                    if o.value is not None:
                        o.value = subst(o.value, m)
            exitany.append(a)
            fr.out.append(o)
        # what the events of the body say about the variables of the loop
        m = {}
        for ph in rows:
            sys_, _ = system([ph], ph)
            if sys_ is not None:
                m[ph] = mk('app', 'loopphi', sys_, lv)
        if m:
            map_tree(node.body, lambda t: subst(t, m) if t.fl & LV else t)
            if node.cond is not None:
                node.cond = subst(node.cond, m)
        self.cur.append(self.search(node, n, extra, lid, lv) or node)
        for a in exitany:
            x = not_(a)
            if x is not TRUE and x not in res.pc:
                res.pc = res.pc + (x,)
        if not counted and cond is not None and c is TRUE and not brks:
            res.dead = True      # endless loop, left only through return or throw
        st.become(res)

    @staticmethod
    def search(node, n, extra, lid, lv):
        """A loop that does something in the one iteration it leaves from, and nothing before, does it for the first element
        that makes it leave."""
        from .query import walk, sat, TooBig
        if n is None or extra is not None or not has_events(node.body):
            return None
        occs = walk(node.body)
        out = [o for o in occs if o.ev.kind == 'leaf' and o.ev.name in ('ret', 'brk', 'throw')]
        if len(out) != 1 or out[0].ev.name == 'throw' or out[0].loops:
            return None
        c = out[0].guard
        if contains(c, lambda x: x.k == 'lphi' and x.a[0] == lid):
            return None
        for o in occs:
            if o.ev.kind != 'leaf':
                d = and_(o.guard, not_(c))
                try:
                    if d is not FALSE and sat(d) is not None:
                        return None
                except TooBig:
                    return None
        a = quant(n, c, lid)
        f = first_at(a)
        if f is None:
            return None
        at_f = {lv: f}
        known = {}
        for x in c.a if c.k == 'and' else (c,):
            x = subst(x, at_f)
            known[x.a[0] if x.k == 'not' else x] = FALSE if x.k == 'not' else TRUE

        def here(t):
            t = subst(t, at_f)
            if t in known:
                return known[t]
            if t.k == 'not' and t.a[0] in known:
                return not_(known[t.a[0]])
            if t.k in ('and', 'or', 'ite'):
                return subst(t, known)
            return t
        map_tree(node.body, here)
        drop_leaves(node.body, ('brk', 'cont'))
        return If(a, node.body, [], node.loc)

    @staticmethod
    def loop_system(lid, lv, cnt, exitc, rows, phis, roots, want=None):
        """Closed description of a loop: trip count (ZERO when only the exit condition ends it), exit condition, and per
        variable its value at entry, after an iteration and on exit.  `rows`: {phi: (init, next, at exit)}; only the
        variables the roots depend on are kept, in a canonical order (the wanted one first).  Returns (system, map)."""
        def deps(t):
            return [x for x in subterms(t) if x.k == 'lphi' and x.a[0] == lid]
        need = []
        todo = list(roots) + [exitc, cnt] + ([want] if want is not None else [])
        while todo:
            t = todo.pop()
            for x in deps(t):
                if x not in need:
                    if x not in rows or None in rows[x]:
                        return None, None
                    need.append(x)
                    todo += rows[x][1:]
        if deps(cnt):
            return None, None
        for x in need:
            if deps(rows[x][0]):
                return None, None
        key = {x: shape(rows[x][0], lid) + '|' + shape(rows[x][1], lid, x) + '|' + shape(rows[x][2], lid, x) for x in need}
        need.sort(key=lambda x: (x is not want, key[x], x.n))
        lev = 0
        for t in [exitc, cnt] + list(roots) + [y for x in need for y in rows[x]]:
            for x in subterms(t):
                if x.k == 'bv' and isinstance(x.a[0], int) and x.a[0] >= 1000:
                    lev = max(lev, x.a[0] // 1000)
        lev += 1
        m = {lv: mk('bv', 1000 * lev + 999)}
        for i, x in enumerate(need):
            m[x] = mk('bv', 1000 * lev + i)
            if x in phis:
                m[phis[x]] = m[x]
        out = []
        for x in need:
            out += [rows[x][0], subst(rows[x][1], m), subst(rows[x][2], m)]
        return mk('app', 'loopsys', cnt, subst(exitc, m), *out), m

    def linked(self, st0, vals, ind, trial, cond):
        """Two counters that keep a constant distance whenever the loop goes on: the second one is expressed by the first."""
        pos = lambda v: v.a[1] if v.k == 'it' else v
        free = [l for l in vals if l not in ind and (vals[l].k == 'it' or vals[l].k == 'lphi')]
        for l1 in free:
            for l2 in free:
                a, b = self.read(st0, l1), self.read(st0, l2)
                if l1 is l2 or l1 in ind or l2 in ind or a.k != b.k or (a.k == 'it' and a.a[0] is not b.a[0]):
                    continue
                d = sub(pos(b), pos(a))
                if d.k != 'c':
                    continue
                save = vals[l2]
                p1 = vals[l1]
                vals[l2] = mk('it', p1.a[0], add(p1.a[1], d)) if p1.k == 'it' else add(p1, d)
                pre, c, q, outs, tree, mark = trial(vals)
                if not q.dead:
                    saved, self.cur = self.cur, []
                    again = cond(q.fork())
                    self.cur = saved
                    e1, e2 = self.read(q, l1), self.read(q, l2)
                    e2 = assume(e2, list(again.a) if again.k == 'and' else [again])
                    k = sub(pos(e1), pos(p1))
                    if e1.k == e2.k and sub(pos(e2), pos(e1)) is d and k.k == 'c' and k.a[0] != 0:
                        ind[l1] = ind[l2] = k.a[0]
                        continue
                vals[l2] = save

    def cutshort(self, v, v0):
        return v

    def try_unroll(self, st, fr, line, cond, body, inc):
        """Concrete small loops (constant trip count)."""
        q = st.fork()
        saved, nout = self.cur, len(fr.out)
        self.cur = []
        try:
            c = cond(q)
        finally:
            tmp = self.cur
            self.cur = saved
            del fr.out[nout:]
        if c.k != 'c' or tmp:
            return False
        if not c.a[0]:
            st.become(q)
            return True
        # probe: does it stay constant?
        iters = 0
        q = st.fork()
        self.cur = probe = []
        ok = True
        try:
            while True:
                c = cond(q)
                if c.k != 'c':
                    ok = False
                    break
                if not c.a[0]:
                    break
                iters += 1
                if iters > 8:
                    ok = False
                    break
                body(q)
                if any(o.kind in ('brk', 'cont', 'ret') for o in fr.out[nout:]) or q.dead:
                    ok = False
                    break
                if inc:
                    inc(q)
        finally:
            self.cur = saved
        outs = fr.out[nout:]
        del fr.out[nout:]
        if not ok:
            return False
        self.cur.extend(probe)
        for o in outs:
            if o.lst is probe:
                o.lst = self.cur
        fr.out.extend(outs)
        st.become(q)
        return True

    def modified_locs(self, st0, states, lid):
        out = []
        seen = set()
        for s in states:
            for root, inner in s.store.items():
                old = st0.store.get(root)
                if inner is old:
                    continue
                if isinstance(root, tuple) and old is None:
                    continue     # declared inside the loop
                old = old or {}
                for p, v in inner.items():
                    if old.get(p) is v:
                        continue
                    if p not in old and self.read(st0, (root, p)) is v:
                        continue
                    # cut the path before a selector that depends on the loop
                    n = len(p)
                    for i, sl in enumerate(p):
                        x = sl[1] if isinstance(sl, tuple) else sl
                        if isinstance(x, T) and x.fl & LV and contains(x, lambda y: y.k in ('lv', 'lphi') and y.a[0] == lid):
                            n = i
                            break
                    if isinstance(root, T) and n == 0:
                        if root.fl & LV and contains(root, lambda y: y.k in ('lv', 'lphi') and y.a[0] == lid):
                            continue
                        if p and n == 0:
                            pass
                    l = (root, p[:n])
                    if l not in seen:
                        seen.add(l)
                        out.append(l)
        # keep minimal prefixes
        res = []
        for l in sorted(out, key=lambda x: len(x[1])):
            if not any(m[0] == l[0] and l[1][:len(m[1])] == m[1] for m in res):
                res.append(l)
        return res

    def after(self, v0, pv, e, lid, cnt, cut):
        """Value after all iterations, from the entry value, the phi and the end-of-body value."""
        if e is None or e is pv:
            return v0
        lv = mk('lv', lid)
        bad = lambda t: contains(t, lambda x: x.k == 'lphi' and x.a[0] == lid)
        # containers
        if pv.k == 'seq' or e.k == 'seq':
            ph = pv.a[1] if pv.k == 'seq' else pv
            if e.k == 'seq' and e.a[1] is ph and not any(bad_item(x, bad) for x in e.a[2]):
                items = e.a[2]
                b0 = v0.a[1] if v0.k == 'seq' else v0
                i0 = v0.a[2] if v0.k == 'seq' else ()
                return mk('seq', e.a[0], b0, i0 + (('loop', lid, cnt, items),))
            if e.k == 'ite':
                pass
        if e.k == 'upd' and (e.a[0] is pv or pv.k == 'seq' and e.a[0] is pv) and len(e.a[1]) == 1:
            s, v = e.a[1][0]
            if isinstance(s, T) and not bad(s) and not bad(v):
                if s is lv and v0.k == 'seq' and v0.a[1] is None and len(v0.a[2]) == 1 and v0.a[2][0][0] == 'fill' and v0.a[2][0][2] is cnt:
                    return mk('seq', v0.a[0], None, (('loop', lid, cnt, (('item', v),)),))
                b0 = v0.a[1] if v0.k == 'seq' else v0
                i0 = v0.a[2] if v0.k == 'seq' else ()
                kind = v0.a[0] if v0.k == 'seq' else 'vec'
                return mk('seq', kind, b0, i0 + (('loopset', lid, cnt, s, v),))
        if pv.k == 'lphi' and not cut or pv.k == 'lphi':
            if e.k == 'or' and pv in [x for x in e.a] or e.k == 'or' and truth(pv) in e.a:
                rest = or_(*[x for x in e.a if x is not pv and x is not truth(pv)])
                if not bad(rest):
                    return or_(truth(v0), quant(cnt, rest, lid))
            if e.k == 'and' and truth(pv) in e.a:
                rest = and_(*[x for x in e.a if x is not truth(pv)])
                if not bad(rest):
                    return and_(truth(v0), not_(quant(cnt, not_(rest), lid)))
            if e.k == 'lin':
                d = sub(e, pv)
                if not bad(d):
                    return add(v0, sum_of(cnt, close(d, lid)))
            if e.k == 'bor' and pv in e.a:
                r = None
                for x in e.a:
                    if x is not pv:
                        r = x if r is None else bitop('bor', r, x)
                if r is not None and not bad(r):
                    return bitop('bor', v0, app('orall', cnt, close(r, lid)))
            if e.k == 'ite':
                cc, x, y = e.a
                if y is pv and not bad(cc) and not bad(x):
                    a = quant(cnt, cc, lid)
                    if not contains(x, lambda z: z is lv):
                        return ite(a, x, v0)
                    return ite(a, subst(x, {lv: mk('last', a)}), v0)
                if x is pv and not bad(cc) and not bad(y):
                    a = quant(cnt, not_(cc), lid)
                    if not contains(y, lambda z: z is lv):
                        return ite(a, y, v0)
                    return ite(a, subst(y, {lv: mk('last', a)}), v0)
            if not bad(e):
                # plain assignment: value of the last iteration
                if not contains(e, lambda z: z is lv):
                    return ite(truth(cnt), e, v0)
                return ite(truth(cnt), subst(e, {lv: sub(cnt, ONE)}), v0)
        return None

    def folded(self, v0, pv, e, lid, cnt):
        return app('fold', cnt, v0, close(subst(e, {pv: mk('bv', 90), (pv.a[1] if pv.k in ('seq', 'it') else pv): mk('bv', 90)}), lid))

    # --------------------------------------------------------------------------- function calls
    def bind_args(self, f, args, st, fr):
        """Evaluates arguments against a callee's parameters: ('loc', Loc) or ('val', T)."""
        out = []
        args = list(args) + [p['d'] for p in f['params'][len(args):] if p.get('d') is not None]
        for p, a in zip(f['params'], args):
            if is_ref(p['t']):
                out.append(('loc', self.lv(a, st, fr)))
            else:
                out.append(('val', self.rv(a, st, fr)))
        return out

    def call_fn(self, f, st, fr, line, this=None, args=(), ctor=False, want='val', body=None):
        """Inlines a repository function.  Returns a term (an address when the function returns a reference)."""
        self.step()
        if st.dead:
            return Unk('dead')
        if len(self.stack) > self.max_depth or self.stack.count(f['u']) >= 2:
            a = [self.addr(this)] if this is not None else []
            a += [self.addr(x) if k == 'loc' else x for k, x in args]
            r = mk('res', f['sq'], next(self.ec), 'ret')
            self.ev('rec', f['sq'], a, fr, line, r)
            self.havoc_outs(f, args, r, st)
            return r
        nf = Frame(f['sq'], f['u'], f['file'], retref=is_ref(f['ret']))
        if this is not None:
            nf.this = self.addr(this)
        for p, (k, x) in zip(f['params'], args):
            if k == 'loc':
                nf.env[p['id']] = x
            else:
                l = self.new_loc(p['n'])
                self.loc_types[l[0]] = val_type(p['t'])
                self.write(st, l, x)
                nf.env[p['id']] = l
        return self.run_inlined(f, st, fr, nf, line)

    def run_inlined(self, f, st, fr, nf, line):
        base = len(st.pc)
        saved = self.cur
        self.cur = tree = []
        self.stack.append(f['u'])
        try:
            self.run_body(f, st, nf)
        finally:
            self.stack.pop()
            self.cur = saved
        # throws leave the caller too
        for o in nf.out:
            if o.kind == 'throw':
                fr.out.append(o)
        rets = [(o.st, o.value) for o in nf.out if o.kind == 'ret']
        if not st.dead:
            rets.append((st.fork(), None))
        if has_leaf(tree, 'ret') and not only_tail_ret(tree):
            if has_events(tree):
                self.cur.append(Scope(f.get('sq', 'lambda'), tree, self.loc(fr, line)))
        else:
            strip_tail_ret(tree)
            self.cur.extend(tree)
            for o in nf.out:
                if o.lst is tree:
                    o.lst = self.cur
        r, v = self.merge(rets)
        if r is None:
            st.dead = True
            return Unk('noreturn')
        r = r.fork()
        r.dead = False
        st.become(r)
        return v if v is not None else mk('sym', 'void', '')

    def call_lambda(self, lam, st, fr, line, args):
        """args: ('loc'|'val', x) list."""
        info = self.lamtab[lam]
        node, env, this, caps, outer = info
        specs = node['specs']
        if not specs:
            return Unk('generic lambda')
        spec = specs[0]
        for s in specs:
            if len(s['params']) == len(args):
                spec = s
        f = {'sq': outer + '::lambda', 'u': 'lambda:%d:%s' % (node['id'], spec['u']), 'file': fr.file, 'ret': spec['ret'], 'body': spec['body'], 'line': node['l'], 'params': spec['params']}
        if len(self.stack) > self.max_depth or self.stack.count(f['u']) >= 2:
            r = mk('res', f['sq'], next(self.ec), 'ret')
            self.ev('rec', f['sq'], [x if k == 'val' else self.addr(x) for k, x in args], fr, line, r)
            return r
        nf = Frame(f['sq'], f['u'], self.lamtab[lam][0].get('file', fr.file), retref=is_ref(spec['ret']))
        nf.env = dict(env)
        nf.this = this
        for cid, v, ref in caps:
            if ref:
                nf.env[cid] = self.to_loc(v)
            else:
                l = self.new_loc('cap')
                self.write(st, l, v)
                nf.env[cid] = l
        for p, (k, x) in zip(spec['params'], args):
            if k == 'loc' and is_ref(p['t']):
                nf.env[p['id']] = x
            else:
                l = self.new_loc(p['n'])
                self.write(st, l, self.read(st, x) if k == 'loc' else x)
                nf.env[p['id']] = l
        return self.run_inlined(f, st, fr, nf, line)

    def call_value(self, fnv, st, fr, line, args, name=None, rtype=''):
        """Calls a std::function / lambda / function pointer value."""
        if fnv.k == 'some':
            fnv = fnv.a[0]
        if fnv.k == 'lam':
            v = self.call_lambda(fnv, st, fr, line, args)
            if is_ref(self.lamtab[fnv][0]['specs'][0]['ret'] if self.lamtab[fnv][0]['specs'] else ''):
                v = self.read(st, self.to_loc(v))
            return v
        if fnv.k == 'fn':
            f = self.p.funcs.get(fnv.a[0])
            if f is not None and f.get('body') is not None:
                a = [(k, x) if is_ref(p['t']) or k == 'val' else ('val', self.read(st, x)) for p, (k, x) in zip(f['params'], args)]
                return self.call_fn(f, st, fr, line, args=a)
        if fnv.k == 'ite' and (fnv.a[1].k in ('lam', 'fn', 'ite') or fnv.a[2].k in ('lam', 'fn', 'ite')):
            res = []

            def arm(v):
                def f(q):
                    r = self.call_value(v, q, fr, line, args, name, rtype)
                    res.append((v, r))
                return f
            self.branch(fnv.a[0], st, fr, line, arm(fnv.a[1]), arm(fnv.a[2]))
            d = dict(res)
            x, y = d.get(fnv.a[1]), d.get(fnv.a[2])
            if x is None:
                return y
            if y is None:
                return x
            return self.jval(fnv.a[0], x, y)
        a = [x if k == 'val' else self.addr(x) for k, x in args]
        av = [x if k == 'val' else self.deep(st, x) for k, x in args]
        r = mk('res', 'cb', self.site(fr, line), 'ret') if rtype != 'void' else mk('sym', 'void', '')
        if rtype != 'void':
            # calls to an unknown functor: the result is identified by functor and arguments
            r = app('cb', fnv, *av)
        self.ev('cb', name or show(fnv), [fnv] + a, fr, line, r, vals=av)
        return r

    def site(self, fr, line):
        return next(self.ec)

    def deep(self, st, loc):
        return self.read(st, loc)

    # expression evaluation lives in model.py (mixed in)


def subst_items(items, m):
    def go(x):
        if isinstance(x, T):
            return subst(x, m)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return [go(x) for x in items]


def bad_item(it, bad):
    def go(x):
        if isinstance(x, T):
            return bad(x)
        if isinstance(x, tuple):
            return any(go(y) for y in x)
        return False
    return go(it)


def shape(t, lid, own=None):
    """A description of a term that does not depend on the order terms were created in."""
    memo_ = {}

    def go(x):
        if isinstance(x, tuple):
            return '(' + ','.join(go(y) for y in x) + ')'
        if not isinstance(x, T):
            return str(x)
        r = memo_.get(x)
        if r is None:
            if x.k == 'lphi' and x.a[0] == lid:
                r = '@' if x is own else '?'
            elif x.k in ('lv', 'lphi', 'lam', 'unk', 'res'):
                r = x.k
            elif x.k == 'addr' and isinstance(x.a[0], tuple):
                r = 'local' + go(x.a[1])
            else:
                a = [go(y) for y in x.a]
                if x.k in ('and', 'or', 'eq', 'bor', 'band', 'bxor', 'mul'):
                    a.sort()
                elif x.k == 'lin':
                    a = [str(x.a[0])] + sorted(go(y) for y in x.a[1])
                r = x.k + '(' + ' '.join(a) + ')'
                if len(r) > 200:
                    r = hashlib.sha1(r.encode()).hexdigest()
            memo_[x] = r
        return r
    return go(t)


def map_tree(nodes, f):
    """Rewrites the terms of an effect tree in place."""
    def g(x):
        return f(x) if isinstance(x, T) else x
    for n in nodes:
        if isinstance(n, Ev):
            n.args = [g(x) for x in n.args]
            n.res = g(n.res)
            for k, v in list(n.x.items()):
                if isinstance(v, (list, tuple)) and any(isinstance(y, T) for y in v):
                    n.x[k] = type(v)(g(y) for y in v)
                elif isinstance(v, T):
                    n.x[k] = g(v)
        elif isinstance(n, If):
            n.c = g(n.c)
            map_tree(n.a, f)
            map_tree(n.b, f)
        elif isinstance(n, Loop):
            n.count = g(n.count)
            n.cond = g(n.cond)
            map_tree(n.body, f)
        elif isinstance(n, Scope):
            map_tree(n.body, f)
        elif isinstance(n, Try):
            map_tree(n.body, f)
            for h in n.handlers:
                map_tree(h, f)
        elif isinstance(n, Leaf):
            n.value = g(n.value)


def first_at(a):
    """Index of the first iteration that makes a condition of the form `exists an iteration` true."""
    return mk('first', a) if a.k == 'any' or a.k == 'and' and any(x.k == 'any' for x in a.a) else None


def has_events(nodes):
    for n in nodes:
        if isinstance(n, Ev):
            return True
        if isinstance(n, If) and (has_events(n.a) or has_events(n.b)) or isinstance(n, (Loop, Scope)) and has_events(n.body) or isinstance(n, Try) and (has_events(n.body) or any(has_events(h) for h in n.handlers)):
            return True
    return False


def drop_leaves(nodes, kinds):
    """Removes jumps within a loop that is no longer one (nested loops keep theirs)."""
    nodes[:] = [n for n in nodes if not (isinstance(n, Leaf) and n.kind in kinds) and not (isinstance(n, If) and n.c is FALSE and not n.b)]
    for n in nodes:
        if isinstance(n, If):
            drop_leaves(n.a, kinds)
            drop_leaves(n.b, kinds)
        elif isinstance(n, Scope):
            drop_leaves(n.body, kinds)
        elif isinstance(n, Try):
            drop_leaves(n.body, kinds)
            for h in n.handlers:
                drop_leaves(h, kinds)


def close(t, lid):
    """Abstracts the loop variable into a bound variable."""
    m = 0
    for x in subterms(t):
        if x.k == 'bv' and x.a[0] < 90:
            m = max(m, x.a[0] + 1)
    return subst(t, {mk('lv', lid): mk('bv', m)})


def quant(cnt, c, lid):
    """exists i < cnt: c(i)"""
    c = truth(c)
    if c is FALSE or cnt is ZERO:
        return FALSE
    lv = mk('lv', lid)
    if not contains(c, lambda x: x is lv):
        return and_(c, truth(cnt))
    # split what does not depend on the index
    if c.k == 'and':
        dep = [x for x in c.a if contains(x, lambda y: y is lv)]
        ind = [x for x in c.a if not contains(x, lambda y: y is lv)]
        if ind:
            return and_(*ind, quant(cnt, and_(*dep), lid))
    if c.k == 'or':
        return or_(*[quant(cnt, x, lid) for x in c.a])
    return mk('any', cnt, close(c, lid))


def count_of(c, lv):
    """Number of iterations of `while (c(lv))`, lv = 0, 1, ...; returns (count, other conjuncts)."""
    if c is TRUE:
        return None, None
    parts = c.a if c.k == 'and' else (c,)
    for i, p in enumerate(parts):
        n = _count1(p, lv)
        if n is not None and not contains(n, lambda x: x is lv):
            rest = [x for j, x in enumerate(parts) if j != i]
            return n, (and_(*rest) if rest else None)
    return None, None


def _count1(p, lv):
    neg_ = False
    q = p
    if q.k == 'not':
        neg_ = True
        q = q.a[0]
    if q.k == 'gt0':
        d = q.a[0]
        if neg_:
            d = sub(ONE, d)       # not (d > 0)  ==  1 - d > 0
        c, ts = _lin(d)
        if ts.get(lv) == -1:
            return add(d, lv)
        if ts.get(lv, 0) < -1:
            k = -ts[lv]
            d = add(d, mul(C(k), lv))
            return C(-(-d.a[0] // k)) if d.k == 'c' else mk('app', 'steps', d, C(k))
        if ts.get(lv) == 1:
            return None
    if q.k == 'eq' and neg_:
        d = sub(q.a[0], q.a[1])
        c, ts = _lin(d)
        if ts.get(lv) == -1:
            return add(d, lv)
        if ts.get(lv) == 1:
            return neg(sub(d, lv))
    if q.k == 'nz' and not neg_ and q.a[0].k == 'lin':
        d = q.a[0]
        c, ts = _lin(d)
        if ts.get(lv) == -1:
            return add(d, lv)
    return None


_CATCH = {'switch': ('brk',), 'do': ('brk', 'cont'), 'unrolled': ('brk',), 'iter': ('cont',)}


def catches(scope):
    """Which abrupt completions end at a scope node."""
    return _CATCH.get(scope, ('ret', 'brk', 'cont'))


def has_leaf(nodes, kind):
    for n in nodes:
        if isinstance(n, Leaf):
            if n.kind == kind:
                return True
        elif isinstance(n, If):
            if has_leaf(n.a, kind) or has_leaf(n.b, kind):
                return True
        elif isinstance(n, Loop):
            if kind in ('ret', 'throw') and has_leaf(n.body, kind):
                return True
        elif isinstance(n, Scope):
            if kind not in catches(n.fn) and has_leaf(n.body, kind):
                return True
        elif isinstance(n, Try):
            if has_leaf(n.body, kind) or any(has_leaf(h, kind) for h in n.handlers):
                return True
    return False


def has_events(nodes):
    for n in nodes:
        if isinstance(n, Ev):
            return True
        if isinstance(n, Leaf):
            if n.kind == 'throw':
                return True
        elif isinstance(n, If):
            if has_events(n.a) or has_events(n.b):
                return True
        elif isinstance(n, Try):
            if has_events(n.body) or any(has_events(h) for h in n.handlers):
                return True
        elif has_events(n.body):
            return True
    return False


def only_tail_ret(nodes):
    """The only 'ret' leaf is the last node of the list."""
    for i, n in enumerate(nodes):
        if isinstance(n, Leaf) and n.kind == 'ret':
            return i == len(nodes) - 1
        if has_leaf([n], 'ret'):
            return False
    return True


def strip_tail_ret(nodes):
    if nodes and isinstance(nodes[-1], Leaf) and nodes[-1].kind == 'ret':
        nodes.pop()
