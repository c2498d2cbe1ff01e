"""Rule support: analysis cache, obligations, refinement against reference models."""
import re, time
from .terms import *
from .terms import mk
from .interp import base_type, Ev, If, Loop, Scope, Try, Leaf, Limit, dump, is_ref
from .model import Analyzer
from .query import *
from .query import _lin
from .program import AnalysisBroken, rel

LOG = ('crg::Logger::logError', 'crg::Logger::logDebug', 'crg::Logger::logInfo', 'crg::Logger::logWarning')
# what a pass or user callback answers does not change within one call of the library
QUERY = ('=crg::GetValueCallbackT::operator()',)


# messages and debug names are not part of any property
TEXTS = {'throw': range(9), 'crg::GraphContext::doRegisterObject': (3, 4), 'crg::GraphContext::doRegisterObjectName': (3,),
         'crg::GraphContext::vkCmdBeginDebugBlock': (2,), 'crg::checkVkResult': (1,)}


class Missing(Exception):
    """An anchor the rule needs is not there (renamed or removed)."""


def pointed(R, v):
    if v.k == 'ite':
        return ite(v.a[0], pointed(R, v.a[1]), pointed(R, v.a[2]))
    return R.an.read(R.st, R.an.to_loc(v)) if v.k == 'addr' else v


class Run:
    def __init__(self, an, res):
        self.an, self.res = an, res
        self.fn = res.fn
        self.tree = res.tree
        self.value = res.value
        self.st = res.st
        self.params = res.params
        self.this = res.this
        self._occs = None

    @property
    def occs(self):
        if self._occs is None:
            self._occs = walk(self.tree)
        return self._occs

    def ev(self, kind=None, name=None, pred=None):
        out = []
        for o in self.occs:
            if kind and o.ev.kind != kind:
                continue
            if name is not None:
                if isinstance(name, str):
                    if o.ev.name != name:
                        continue
                elif o.ev.name not in name:
                    continue
            if pred and not pred(o):
                continue
            out.append(o)
        return out

    def read(self, base, *path):
        """Final value of a persistent location."""
        l = self.an.to_loc(base)
        for s in path:
            l = self.an.ext(l, s)
        return self.an.read(self.st, l)

    @property
    def where(self):
        return '%s:%s (%s)' % (rel(self.fn['file']), self.fn['line'], self.fn['sq'])

    def dump(self):
        return dump(self.tree)


class Ctx:
    given = None

    def __init__(self, prog, prop):
        self.p = prog
        self.prop = prop
        self.obl = []            # (rule, subject, status, detail, where)
        self.runs = {}
        self.agains = {}
        self.rule = ''
        self.analysed = set()

    # ------------------------------------------------------------------------------ obligations
    def ok(self, subject, detail='', where=''):
        self.obl.append((self.rule, subject, 'ok', detail, where))

    def viol(self, subject, detail, where=''):
        self.obl.append((self.rule, subject, 'violated', detail, where))

    def undec(self, subject, detail, where=''):
        self.obl.append((self.rule, subject, 'undecided', detail, where))

    def verdict(self, v, subject, detail='', where=''):
        """v: ('yes'|'no'|'undecided', why)"""
        if v[0] == 'yes':
            self.ok(subject, '', where)
        elif v[0] == 'no':
            self.viol(subject, (detail + ': ' if detail else '') + (show_w(v[1]) if isinstance(v[1], dict) else str(v[1])), where)
        else:
            self.undec(subject, (detail + ': ' if detail else '') + str(v[1]), where)
        return v[0] == 'yes'

    def require(self, cond, subject, detail, where=''):
        if cond:
            self.ok(subject, '', where)
        else:
            self.viol(subject, detail, where)
        return cond

    # --------------------------------------------------------------------------------- analyses
    def fn(self, q, n=None, pred=None):
        r = self.p.find(q, n, pred)
        if len(r) == 0:
            raise Missing('no definition of %s%s' % (q, '' if n is None else '/%d' % n))
        if len(r) > 1:
            raise Missing('%d definitions of %s%s' % (len(r), q, '' if n is None else '/%d' % n))
        return r[0]

    def run(self, q, n=None, pred=None, stops=(), this=None, params=None, log=False, budget=400000, fn=None, twins=()):
        f = fn or self.fn(q, n, pred)
        st = tuple(stops) + (() if log else LOG) + QUERY
        key = (f['u'], st, this, tuple(sorted(params.items())) if params else None, twins)
        r = self.runs.get(key)
        if r is None:
            an = Analyzer(self.p, stops=self.stopper(tuple(x[1:] if isinstance(x, str) and x[0] == '=' else x for x in st) + tuple(y for x in twins for y in x)), budget=budget)
            an.twins = {y: 'twin:' + b for a, b in twins for y in (a, b)}
            an.pure_names = frozenset(x[1:] for x in st if isinstance(x, str) and x[0] == '=')
            try:
                res = an.analyze(f, params=params, this=this)
            except Limit as e:
                raise Missing('%s: analysis budget exhausted' % f['sq'])
            r = self.runs[key] = Run(an, res)
            self.analysed.add(f['sq'])
        return r

    def run_lambda(self, R, lam, args, subject='lambda'):
        """Analyses a closure produced by an analysed function, applied to symbolic arguments."""
        if lam.k == 'some':
            lam = lam.a[0]
        an = R.an
        node = an.lamtab[lam][0]
        spec = node['specs'][0]
        st = R.st.fork()
        st.dead = False
        from .interp import Frame, Result
        fr = Frame(R.fn['sq'] + '::lambda', 'lambda', node.get('file', R.fn['file']))
        saved, sstack = an.cur, an.stack
        an.cur = tree = []
        an.stack = []
        a = []
        for i, p in enumerate(spec['params']):
            t = args[i] if i < len(args) else Sym('arg%d' % i, base_type(p['t']))
            a.append(('loc', an.to_loc(t)) if is_ref(p['t']) else ('val', t))
        v = an.call_lambda(lam, st, fr, node.get('l'), a)
        an.cur, an.stack = saved, sstack
        f = {'sq': R.fn['sq'] + '::lambda', 'file': node.get('file', R.fn['file']), 'line': node['l'], 'ret': spec['ret'], 'params': spec['params'], 'cls': None, 'u': 'lambda'}
        return Run(an, Result(f, tree, st, v, [x for _, x in a], None, fr.out))

    def refine_lambda(self, q, spec, args=(), n=None, pred=None, stops=(), fn=None, subject=None, events=('vk', 'cb', 'api', 'vcall', 'leaf', 'ext', 'rec'), pick=None, specpick=None, order=(), state=True, ignore_state=(), ret=True, ignore_ev=()):
        """The closure a function returns behaves like the closure the reference model returns."""
        f = fn or self.fn(q, n, pred)
        sub_ = subject or f['sq'].replace('crg::', '')
        self.need_stops(stops)
        g = self.p.find('spec::' + spec)
        if len(g) != 1:
            raise (Missing if self.p.broken_models else AnalysisBroken)('reference model spec::%s: %d definitions' % (spec, len(g)))
        A = self.run(q, fn=f, stops=stops)
        ps, off = {}, 0
        if f.get('cls') and not f.get('static'):
            ps[0] = A.this
            off = 1
        for i, t in enumerate(A.params):
            ps[i + off] = t
        B = self.run('', fn=g[0], stops=stops, params=ps)
        la, lb = (pick or (lambda r: r.value))(A), (specpick or pick or (lambda r: r.value))(B)
        if la is None or la.k != 'lam':
            self.undec(sub_, 'the function does not return a closure the analysis can see: ' + (show(la)[:200] if la is not None else 'none'), A.where)
            return False
        return Refine(self, self.run_lambda(A, la, args), self.run_lambda(B, lb, args), sub_).go(ret, state, events, ignore_ev, ignore_state, order, None, {}, None)

    def stopper(self, st):
        names = frozenset(x for x in st if not callable(x))
        preds = [x for x in st if callable(x)]

        def f(fn):
            if fn['sq'] in names:
                return True
            for p in preds:
                r = p(fn)
                if r:
                    return r
            return False
        return f

    def val(self, q, this=None, args=(), n=None, pred=None, stops=()):
        """Value a function returns for given receiver and arguments."""
        f = self.fn(q, n if n is not None else len(args), pred)
        r = self.run(q, fn=f, this=this, params={i: a for i, a in enumerate(args)}, stops=stops)
        v = r.value
        if is_ref(f['ret']):
            v = r.an.read(r.st, r.an.to_loc(v))
        return v

    def enum(self, n):
        return C(self.p.enum(n))

    # ------------------------------------------------------------------------------- refinement
    def refine(self, q, spec, n=None, pred=None, stops=(), log=False, fn=None, this_sym=True, ret=True, state=True, events=('vk', 'cb', 'api', 'vcall', 'leaf', 'ext', 'rec'),
               ignore_ev=(), ignore_state=(), order=(), subject=None, only_names=None, params=None, specstops=None, argmask=None, budget=400000, retmap=None, only_state=None, twins=()):
        """The function does exactly what the reference model does: same guarded calls with the same
        arguments, same exceptional exits, same result, same final persistent state."""
        f = fn or self.fn(q, n, pred)
        sub_ = subject or f['sq'].replace('crg::', '')
        self.need_stops(stops)
        g = self.p.find('spec::' + spec)
        if len(g) != 1:
            raise (Missing if self.p.broken_models else AnalysisBroken)('reference model spec::%s: %d definitions' % (spec, len(g)))
        g = g[0]
        label = f['sq'] + ' (again)'
        again = self.agains.setdefault(f['u'], lambda fn: fn['u'] == f['u'] and label)
        stops = tuple(stops) + (again,)
        if specstops is not None:
            specstops = tuple(specstops) + (again,)
        A = self.run(q, fn=f, stops=stops, log=log, params=params, budget=budget, twins=twins)
        ps = {}
        off = 0
        if f.get('cls') and not f.get('static') and this_sym:
            ps[0] = A.this
            off = 1
        for i, t in enumerate(A.params):
            ps[i + off] = t
        B = self.run('', fn=g, stops=stops if specstops is None else specstops, log=log, params=ps, budget=budget, twins=twins)
        if B.ev(name=label) and not A.ev(name=label):
            raise Missing('%s does not call itself' % f['sq'])
        return Refine(self, A, B, sub_).go(ret, state, events, ignore_ev, ignore_state, order, only_names, argmask or {}, retmap, only_state)

    def need_stops(self, stops):
        """Models calling a function the code no longer has cannot be compared with it."""
        for s in stops:
            if isinstance(s, str) and s.lstrip('=') not in self.p.by_q:
                raise Missing('%s is not there' % s.lstrip('='))

    def attempt(self, q, spec, **kw):
        """refine; a function that is no longer there leaves its obligation undecided."""
        twins = kw.pop('twins', ())
        alts = kw.pop('alts', ())
        at = len(self.obl)
        try:
            if self.refine(q, spec, **kw):
                return True
            for other in alts:
                # the same requirement, put differently
                first, self.obl[at:] = self.obl[at:], []
                try:
                    if self.refine(q, other, **kw):
                        return True
                except Missing:
                    pass
                self.obl[at:] = first
        except Missing as e:
            self.undec(kw.get('subject') or q, str(e))
        if twins and not any(o[2] == 'violated' for o in self.obl[at:]):
            self.by_twins(q, spec, kw, twins, at)
        return all(o[2] == 'ok' for o in self.obl[at:])

    def by_twins(self, q, spec, kw, twins, at):
        """Second try, in pieces: the function with some helpers left uninterpreted on both sides, and each helper
        against its counterpart in the model. Counts only if the function itself is then decided."""
        whole, self.obl[at:] = self.obl[at:], []
        pairs = []
        for a, b in twins:
            f, g = self.p.find(a), self.p.find('spec::' + b)
            if len(f) == 1 and len(g) == 1 and [base_type(p['t']) for p in f[0]['params']] == [base_type(p['t']) for p in g[0]['params']]:
                pairs.append((a, 'spec::' + b))
        try:
            good = bool(pairs) and self.refine(q, spec, twins=tuple(pairs), **kw)
        except Missing:
            good = False
        if not good:
            self.obl[at:] = whole
            return
        for a, b in pairs:
            try:
                rest = tuple(x for x in pairs if x[0] != a)
                self.refine(a, b[6:], stops=kw.get('stops', ()), twins=rest)
            except Missing as e:
                self.undec(a, str(e))

    def attempt_lambda(self, q, spec, args=(), **kw):
        try:
            return self.refine_lambda(q, spec, args, **kw)
        except Missing as e:
            self.undec(kw.get('subject') or q, str(e))
            return False

    def table(self, subject, q, spec, **kw):
        return self.refine(q, spec, subject=subject, **kw)


def has_free(t, depth=0):
    if t.k == 'bv':
        return not isinstance(t.a[0], int) or t.a[0] >= depth
    if t.k == 'lv':
        return True
    if t.k == 'any':
        return has_free(t.a[0], depth) or has_free(t.a[1], depth + 1)
    return any(has_free(x, depth) for x in parts(t))


def parts(t):
    out = []

    def go(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(t.a)
    return out


def defined(t):
    """When a value makes sense: looking at the first element that satisfies something takes one that does."""
    if t.k == 'ite':
        x, y = defined(t.a[1]), defined(t.a[2])
        return TRUE if x is TRUE and y is TRUE else or_(and_(t.a[0], x), and_(not_(t.a[0]), y))
    return and_(*[x.a[0] for x in subterms(t) if x.k == 'first' and x.a[0].k == 'any' and not has_free(x.a[0])]) if any(x.k == 'first' for x in subterms(t)) else TRUE


# commands that each set another piece of the state a later command uses
BINDS = frozenset(('vkCmdBindPipeline', 'vkCmdBindDescriptorSets', 'vkCmdBindVertexBuffers', 'vkCmdBindIndexBuffer'))


class Refine:
    def __init__(self, cx, A, B, subject):
        self.cx, self.A, self.B, self.subject = cx, A, B, subject
        self.ca = Canon(A)
        self.cb = Canon(B)
        # what holds of the objects beforehand
        self.given, self.known = cx.given(A) if cx.given else (TRUE, {})
        self.align_results()
        self.bad = 0
        self.matched = []

    def align_results(self):
        """Results of calls that come in another order are still known by the call that produced them."""
        def calls(c):
            out = {}
            for o in c.R.occs:
                k = c.key(o)
                if k is not None and k in c.m and satisfiable(o.guard):
                    out.setdefault(k[0], []).append((k, o))
            return out
        fa, fb = calls(self.ca), calls(self.cb)
        moved = False
        for f, b in fb.items():
            a = fa.get(f, ())
            if len(b) < 2 or len(a) != len(b) or len(a) > 12:
                continue
            if any(len({c.m[k] for k, _ in x}) != len(x) for c, x in ((self.ca, a), (self.cb, b))):
                continue

            def shape(o, c):
                ren = {mk('lv', l.lid): mk('lv', -(100 + i)) for i, l in enumerate(o.loops)}
                return [alpha(norm_seq(c.loose(strip_ptr(subst(x, ren))))) for x in o.args if isinstance(x, T)]
            sa, sb = [shape(o, self.ca) for _, o in a], [shape(o, self.cb) for _, o in b]
            if all(len(x) == len(y) and all(p is q for p, q in zip(x, y)) for x, y in zip(sa, sb)):
                continue
            left = list(range(len(a)))
            pairs = []
            for j, y in enumerate(sb):
                i = next((i for i in left if len(sa[i]) == len(y) and all(p is q for p, q in zip(sa[i], y))), None)
                if i is None:
                    break
                left.remove(i)
                pairs.append((i, j))
            if left or all(i == j for i, j in pairs):
                continue
            ns = {a[i][0]: self.cb.m[b[j][0]] for i, j in pairs}
            self.ca.m.update(ns)
            self.ca.memo.clear()
            moved = True
        if moved:
            # local objects too, in the order the model uses them
            self.ca.number_locals(sorted(self.ca.R.occs, key=lambda o: (0, self.ca.m[self.ca.key(o)]) if self.ca.key(o) in self.ca.m else (1, 0)))
            self.cb.number_locals(sorted(self.cb.R.occs, key=lambda o: (0, self.cb.m[self.cb.key(o)]) if self.cb.key(o) in self.cb.m else (1, 0)))

    def no(self, what, detail, where=''):
        self.bad += 1
        self.cx.viol('%s: %s' % (self.subject, what), detail, where or self.A.where)

    def unk(self, what, detail, where=''):
        self.bad += 1
        self.cx.undec('%s: %s' % (self.subject, what), detail, where or self.A.where)

    def judge(self, v, what, detail, where=''):
        if v[0] == 'no':
            self.no(what, detail + ': ' + (show_w(v[1]) if isinstance(v[1], dict) else str(v[1])), where)
        elif v[0] != 'yes':
            self.unk(what, detail + ': ' + str(v[1])[:300], where)
        else:
            self.cx.ok('%s: %s' % (self.subject, what), '', where)

    def go(self, ret, state, events, ignore_ev, ignore_state, order, only_names, argmask, retmap, only_state=None):
        A, B = self.A, self.B
        ga, gb = self.group(A, events, ignore_ev, only_names), self.group(B, events, ignore_ev, only_names)
        for key in list(gb) + [k for k in ga if k not in gb]:
            self.compare_group(key, ga.get(key, []), gb.get(key, []), argmask.get(key[1], TEXTS.get(key[1], ())))
        if not self.bad:
            self.command_order()
        for x, y in order:
            self.check_order(x, y)
        if ret and B.value is not None and A.value is not None:
            va, vb = self.ca(strip_ptr(A.value)), self.cb(strip_ptr(B.value))
            if is_ref(A.fn['ret']) and not is_ref(B.fn['ret']):
                va = self.ca(strip_ptr(A.an.read(A.st, A.an.to_loc(A.value))))
            if retmap:
                va, vb = retmap(va), retmap(vb)
            if A.fn['ret'] == 'bool' and B.fn['ret'] == 'bool':
                va, vb = truth(va), truth(vb)
            self.judge(same(and_(self.given, defined(vb)), va, vb), 'result', 'returns a different value')
            if ret == 'content':
                # the object handed out is compared as well
                va, vb = self.ca(strip_ptr(pointed(A, A.value))), self.cb(strip_ptr(pointed(B, B.value)))
                self.judge(same(TRUE, va, vb), 'content of the result', 'the object returned differs from what is required')
        if state:
            self.compare_state(ignore_state, only_state)
        return self.bad == 0

    @staticmethod
    def group(R, events, ignore, only):
        out = {}
        for o in R.occs:
            k = o.ev.kind
            if k not in events:
                continue
            nm = o.ev.name
            if k == 'leaf':
                if nm != 'throw':
                    continue
                if not o.guard.k == 'c' and not satisfiable(o.guard):
                    continue
            if k == 'cb':
                nm = 'callback'
                if o.ev.args:
                    nm = cbname(o.ev.args[0])
            if k == 'ext' and (nm.startswith('std::') and not nm.endswith('_error')):
                continue
            if nm in LOG and not (only and nm in only):
                continue
            if nm in ignore or k in ignore or (only is not None and nm not in only):
                continue
            if o.guard is FALSE:
                continue
            out.setdefault((k, nm), []).append(o)
        return out

    def norm(self, o, canon):
        """Occurrence with canonical result names and loop variables."""
        ren = {}
        counts = []
        for i, l in enumerate(o.loops):
            c = l.count if l.count is not None else mk('app', 'niter', C(i))
            counts.append(canon(subst(c, ren)))
            ren[mk('lv', l.lid)] = mk('lv', -(100 + i))
        # inside a loop there is something to go through
        some = {truth(c): TRUE for c in counts if truth(c).k in ('nz', 'gt0')}
        g = subst(canon(subst(o.guard, ren)), some) if some else canon(subst(o.guard, ren))
        g = and_(g, self.given, *[truth(c) for c in counts if c.k == 'ite'])
        args = [canon(strip_ptr(subst(a, ren))) for a in (o.vals if o.ev.kind in ('cb',) else o.args)]
        if o.ev.kind == 'cb' and o.ev.args and o.ev.args[0].k != 'lam' and o.vals is not o.args:
            # which function it is, after what it is given
            args.append(canon(strip_ptr(subst(o.ev.args[0], ren))))
        return g, args, counts

    def compare_group(self, key, a, b, mask):
        kind, name = key
        label = name.split('::')[-1]
        a = [(o,) + self.norm(o, self.ca) for o in a]
        b = [(o,) + self.norm(o, self.cb) for o in b]
        a = [x for x in a if satisfiable(x[1])]
        b = [x for x in b if satisfiable(x[1])]
        if not a and not b:
            return
        if not b:
            o = a[0]
            self.no(label, 'unexpected %s %s(%s)%s' % (kind, name, ', '.join(show(x)[:80] for x in o[2]), '' if o[1] is TRUE else ' when ' + show(o[1])[:300]), o[0].where)
            return
        if not a:
            o = b[0]
            self.no(label, 'missing %s %s%s' % (kind, name, '' if o[1] is TRUE else ' when ' + show(o[1])[:300]))
            return
        if len(a) == len(b) and all(self.quick(x, y, mask) for x, y in zip(a, b)):
            self.cx.ok('%s: %s' % (self.subject, label), '%d calls' % len(a), a[0][0].where)
            self.matched += [(name, [x[0]], [y[0]]) for x, y in zip(a, b)]
            return
        # split by loop context
        ka, kb = self.by_loops(a), self.by_loops(b)
        if len(ka) != len(kb):
            if all(x[1] is TRUE or True for x in a) and not any(is_opaque(x[1], *x[3]) for x in a + b):
                self.no(label, 'calls of %s happen in %d loop contexts instead of %d' % (name, len(ka), len(kb)), a[0][0].where) if self.loops_differ(a, b) else self.unk(label, 'loop contexts differ', a[0][0].where)
            else:
                self.unk(label, 'loop contexts differ', a[0][0].where)
            return
        used = set()
        for cb_, gb in kb:
            cand = None
            for i, (ca_, ga) in enumerate(ka):
                if i in used or len(ca_) != len(cb_):
                    continue
                if all(same(TRUE, x, y)[0] == 'yes' for x, y in zip(ca_, cb_)):
                    cand = i
                    break
            if cand is None:
                rest = [i for i in range(len(ka)) if i not in used]
                if len(kb) == 1 and len(rest) == 1:
                    ca_ = ka[rest[0]][0]
                    ow = ka[rest[0]][1][0][0].where
                    if len(ca_) != len(cb_):
                        if any(is_opaque(x) for x in ca_):
                            self.unk(label, 'loop nesting', ow)
                        else:
                            self.no(label, '%s is called in %d nested loops instead of %d' % (name, len(ca_), len(cb_)), ow)
                    else:
                        for x, y in zip(ca_, cb_):
                            r = same(TRUE, x, y)
                            if r[0] == 'no':
                                self.no(label, 'loop around %s runs over %s instead of %s' % (name, show(x)[:150], show(y)[:150]), ow)
                            elif r[0] != 'yes':
                                self.unk(label, 'loop count: ' + str(r[1]), ow)
                else:
                    self.unk(label, 'no matching loop for %s' % [show(x)[:80] for x in cb_], a[0][0].where)
                continue
            used.add(cand)
            self.compare_flat(label, name, ka[cand][1], gb, mask)

    def loops_differ(self, a, b):
        """Surely different: straight-line against loop with a satisfiable guard of its own."""
        return False

    def quick(self, x, y, mask):
        if x[1] is not y[1] or len(x[3]) != len(y[3]) or any(p is not q for p, q in zip(x[3], y[3])):
            return False
        return self.args_quick(x[2], y[2], mask)

    @staticmethod
    def args_quick(x, y, mask):
        return len(x) == len(y) and all(p is q or i in mask or alpha(norm_seq(p)) is alpha(norm_seq(q)) for i, (p, q) in enumerate(zip(x, y)))

    @staticmethod
    def by_loops(l):
        out = []
        for x in l:
            for c, g in out:
                if len(c) == len(x[3]) and all(p is q for p, q in zip(c, x[3])):
                    g.append(x)
                    break
            else:
                out.append((x[3], [x]))
        return out

    def compare_flat(self, label, name, a, b, mask):
        ow = a[0][0].where
        # merge everything if the occurrences exclude each other on both sides
        if len(a) == len(b):
            # pairwise in order first
            res = [self.pair(x, y, mask) for x, y in zip(a, b)]
            if all(r[0] == 'yes' for r in res):
                self.cx.ok('%s: %s' % (self.subject, label), '%d calls' % len(a), ow)
                self.matched += [(name, [x[0]], [y[0]]) for x, y in zip(a, b)]
                return
            # the same calls in another order
            if len(a) > 1:
                used, perm = set(), []
                for y in b:
                    i = next((i for i, x in enumerate(a) if i not in used and self.pair(x, y, mask)[0] == 'yes'), None)
                    if i is None:
                        break
                    used.add(i)
                    perm.append((name, [a[i][0]], [y[0]]))
                if len(perm) == len(b):
                    self.cx.ok('%s: %s' % (self.subject, label), '%d calls' % len(a), ow)
                    self.matched += perm
                    return
            if len(a) == 1:
                self.judge(res[0], label, '%s differs from what is required' % name, ow)
                return
        ea, eb = self.excl(a), self.excl(b)
        if ea and eb:
            x, y = self.merge(a), self.merge(b)
            self.matched.append((name, [o[0] for o in a], [o[0] for o in b]))
            self.judge(self.pair(x, y, mask), label, '%s differs from what is required' % name, self.blame(a, b, ow))
            return
        if len(a) != len(b):
            big, small = (a, b) if len(a) > len(b) else (b, a)
            # cluster exclusive neighbours
            ca, cb_ = self.cluster(a), self.cluster(b)
            if len(ca) == len(cb_):
                for (x, xs), (y, ys) in zip(ca, cb_):
                    r = self.pair(x, y, mask)
                    if r[0] == 'yes':
                        self.matched.append((name, [o[0] for o in xs], [o[0] for o in ys]))
                    self.judge(r, label, '%s differs from what is required' % name, x[0].where)
                return
            allg = and_(*[x[1] for x in big])
            if satisfiable(allg) and not is_opaque(allg):
                self.no(label, '%s is called %d times instead of %d' % (name, len(a), len(b)), ow)
            else:
                orr = equiv(or_(*[x[1] for x in a]), or_(*[x[1] for x in b]))
                if orr[0] == 'no':
                    self.judge(orr, label, '%s happens under a different condition' % name, ow)
                else:
                    self.unk(label, '%d calls of %s against %d' % (len(a), name, len(b)), ow)
            return
        for x, y, r in zip(a, b, res):
            if r[0] != 'yes':
                self.judge(r, label, '%s differs from what is required' % name, x[0].where)

    def command_order(self):
        """Calls that receive the same command buffer keep the order they have in the reference model."""
        def cbs(R):
            out = set()
            for i, q in enumerate(R.fn['params']):
                if 'VkCommandBuffer_T' in q['t'] and i < len(R.params):
                    out.add(R.params[i])
            for o in R.occs:
                if o.ev.kind == 'vk' and (o.ev.name.startswith('vkCmd') or o.ev.name in ('vkBeginCommandBuffer', 'vkEndCommandBuffer')) and o.ev.args:
                    out.add(o.ev.args[0])
            return out
        ca, cb_ = cbs(self.A), cbs(self.B)

        def on(o, c):
            return any(x in c for x in o.ev.args) or any(x in c for x in o.vals)
        m = [(n, x, y) for n, x, y in self.matched if all(on(o, ca) for o in x) and all(on(o, cb_) for o in y)]
        n = 0
        for i, (n1, a1, b1) in enumerate(m):
            for n2, a2, b2 in m[i + 1:]:
                if n1 == n2 or n1 in BINDS and n2 in BINDS:
                    continue
                lt = self.before(b1, b2)
                gt = self.before(b2, b1)
                if lt is gt:
                    continue
                n += 1
                x, y, xa, ya = (n1, n2, a1, a2) if lt else (n2, n1, a2, a1)
                if not self.before(xa, ya) and self.before(ya, xa) and any(satisfiable(and_(o.guard, q.guard)) for o in xa for q in ya):
                    self.no('order', '%s is recorded after %s, it has to come before' % (x, y), xa[0].where)
        if n:
            self.cx.ok('%s: order of recorded commands' % self.subject, '%d pairs' % n, self.A.where)

    @staticmethod
    def before(a, b):
        return max(o.pos for o in a) < min(o.pos for o in b)

    def blame(self, a, b, default):
        for x in a:
            return x[0].where
        return default

    @staticmethod
    def excl(l):
        if len(l) < 2:
            return True
        for i, x in enumerate(l):
            for y in l[i + 1:]:
                if satisfiable(and_(x[1], y[1])):
                    return False
        return True

    @staticmethod
    def merge(l):
        g = l[-1][1]
        args = list(l[-1][2])
        for x in reversed(l[:-1]):
            args = [p if p is q else ite(x[1], p, q) for p, q in zip(x[2], args)]
            g = or_(x[1], g)
        return (l[0][0], g, args, l[0][3])

    def cluster(self, l):
        """Calls that exclude each other are one step; the steps in order."""
        steps = []
        for x in l:
            n = 0
            for k, st in enumerate(steps):
                if any(satisfiable(and_(x[1], y[1])) for y in st):
                    n = k + 1
            if n == len(steps):
                steps.append([])
            steps[n].append(x)
        return [(self.merge(st), st) for st in steps]

    def has_arity(self, name, n):
        """The repository has a function of that name with as many arguments, the object it is called on included."""
        try:
            fs = self.cx.p.find(name)
        except Exception:
            return False
        return any(len(f['params']) in (n, n - 1) for f in fs)

    def pair(self, x, y, mask):
        g = equiv(x[1], y[1])
        if g[0] != 'yes':
            if g[0] == 'no':
                w = g[1]
                return ('no', 'happens under a different condition (%s instead of %s), e.g. %s' % (show(x[1])[:400], show(y[1])[:400], show_w(w) if isinstance(w, dict) else w))
            return g
        if len(x[2]) != len(y[2]):
            if x[0].ev.kind == 'api' and not self.has_arity(y[0].ev.name, len(y[2])):
                return ('undecided', '%s takes other parameters here than in the model' % y[0].ev.name)
            return ('no', '%d arguments instead of %d' % (len(x[2]), len(y[2])))
        res = ('yes', None)
        for i, (p, q) in enumerate(zip(x[2], y[2])):
            if i in mask:
                continue
            r = same(x[1], p, q)
            if r[0] == 'no':
                return ('no', 'argument %d: %s' % (i, r[1]))
            if r[0] != 'yes':
                res = ('undecided', 'argument %d: %s' % (i, r[1]))
        return res

    def check_order(self, x, y):
        """In the repository, every x precedes every y (when both happen)."""
        a = [o for o in self.A.occs if o.ev.name == x and o.guard is not FALSE]
        b = [o for o in self.A.occs if o.ev.name == y and o.guard is not FALSE]
        for o in a:
            for q in b:
                if o.pos > q.pos and not (o.loops and q.loops and o.loops[0] is q.loops[0] and False):
                    if satisfiable(and_(o.guard, q.guard)):
                        self.no('order', '%s comes after %s' % (x, y), o.where)
                        return
        if a and b:
            self.cx.ok('%s: %s before %s' % (self.subject, x, y), '', a[0].where)

    def compare_state(self, ignore, only=None):
        A, B = self.A, self.B
        if A.st is None or B.st is None:
            return
        locs = set()
        for st in (A.st, B.st):
            for root, inner in st.store.items():
                if isinstance(root, T):
                    for p in inner:
                        locs.add((root, p))
        seen = set()
        for root, p in sorted(locs, key=lambda x: (len(x[1]), x[0].n)):
            if root.k == 'sym' and isinstance(root.a[0], str) and (root.a[0].startswith('static:') or root.a[0].startswith('global:')):
                continue
            if any(isinstance(s, str) and s in ignore for s in p) or show(root) in ignore:
                continue
            if root.k in ('fld', 'res') and any(x.k == 'fld' and x.a[1] in ignore for x in subterms(root)):
                continue
            if only is not None and not any(isinstance(s, str) and s in only for s in p):
                continue
            va = self.ca(strip_ptr(A.an.read(A.st, (root, p))))
            vb = self.cb(strip_ptr(B.an.read(B.st, (root, p))))
            if va.k != vb.k and any(v.k == 'agg' and v.a[0].startswith('arr') for v in (va, vb)):
                n = max(len(v.a[1]) for v in (va, vb) if v.k == 'agg')
                va, vb = (mk("agg", "arr", tuple((i, idx(v, C(i))) for i in range(n))) for v in (va, vb))
            name = show(A.an.addr((root, p)))
            if name in seen or '=' + name in ignore:
                continue
            seen.add(name)
            if self.known:
                va, vb = subst(va, self.known), subst(vb, self.known)
            self.judge(same(self.given, va, vb), 'state ' + name[:120], 'leaves %s in a different state' % name[:200])


def cbname(t):
    """Name of an unknown functor: the member it is read from."""
    while t.k in ('fld', 'idx', 'at'):
        if t.k == 'fld':
            return t.a[1]
        t = t.a[0]
    return 'callback'


class Canon:
    """Renames call results by their order of appearance per callee."""
    def __init__(self, R):
        self.m = {}
        cnt = {}
        for o in R.occs:
            key = self.key(o)
            if key is None or key in self.m:
                continue
            # calls that exclude each other are the same step
            before = cnt.setdefault(key[0], [])
            n = 0
            for g, k in before:
                if k >= n and and_(g, o.guard) is not FALSE:
                    n = k + 1
            before.append((o.guard, n))
            self.m[key] = n
        self.R = R
        self.memo = {}
        self.number_locals(R.occs)

    @staticmethod
    def key(o):
        r = o.ev.res
        if r is not None and r.k == 'res':
            return (r.a[0], r.a[1])
        return (o.ev.name, o.ev.x.get('rid')) if o.ev.kind == 'vk' else None

    def number_locals(self, occs):
        self.lo, self.seen = {}, {}
        for o in occs:
            for x in o.ev.args:
                if isinstance(x, T) and x.fl & RES:
                    for y in sorted((y for y in subterms(x) if y.k == 'addr' and isinstance(y.a[0], tuple)), key=lambda y: y.n):
                        self.local(self.R, y.a[0], self.seen)

    def loose(self, t):
        """Without telling apart local objects of the same type and results of the same function."""
        t = self(t)
        sub_ = {}
        for x in subterms(t):
            if x.k == 'addr' and isinstance(x.a[0], tuple):
                sub_[x] = mk('addr', ('V', 0, x.a[0][2]) if len(x.a[0]) > 2 else ('V', 0), x.a[1])
            elif x.k == 'res':
                sub_[x] = mk('res', x.a[0], 'n', *x.a[2:])
        return subst(t, sub_) if sub_ else t

    def local(self, R, root, seen):
        """Local objects are told apart by their type and order of use, not by their name."""
        r = self.lo.get(root)
        if r is None:
            t = R.an.loc_types.get(root, '?')
            n = seen[t] = seen.get(t, 0) + 1
            r = self.lo[root] = ('V', -n, t)
        return r

    def __call__(self, t):
        if not isinstance(t, T) or not t.fl & RES:
            return t
        sub_ = {}
        for x in subterms(t):
            if x.k == 'res' and (x.a[0], x.a[1]) in self.m:
                sub_[x] = mk('res', x.a[0], 'n%d' % self.m[(x.a[0], x.a[1])], x.a[2])
            elif x.k == 'addr' and isinstance(x.a[0], tuple) and x.a[0][1] >= 0:
                sub_[x] = mk('addr', self.local(self.R, x.a[0], self.seen), x.a[1])
            elif x.k == 'sym' and isinstance(x.a[0], str) and x.a[0].startswith('uninit:') and not x.a[0].startswith('uninit:#'):
                sub_[x] = mk('sym', 'uninit:#', 'uninit')
        return subst(t, sub_) if sub_ else t
