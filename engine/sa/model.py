"""Expression evaluation and the model of the standard library used by the analysis."""
import re
from .terms import *
from .terms import mk
from .interp import *
from .interp import Interp, is_ref, base_type, val_type, seq_kind, quant, close, LOCKS
from .program import strip_targs

CMP = {'==', '!=', '<', '>', '<=', '>='}
ARITH = {'+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>'}


def split_params(t):
    """Parameter types of a canonical function pointer type."""
    m = re.match(r'^(.*?)\(\*(?:const)?\)\((.*)\)', t)
    if not m:
        return []
    out, d, cur = [], 0, ''
    for c in m.group(2):
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def is_out_param(t):
    if not t.endswith('*') or t.startswith('const '):
        return False
    p = t[:-1].strip()
    return not (p.endswith('_T') or p.endswith('const') or p == '')


PURE_STD = {'std::max', 'std::min', 'std::to_string', 'std::floor', 'std::ceil', 'std::abs', 'std::get', 'std::hash::operator()',
            'std::__hash_enum::operator()', 'std::chrono::system_clock::now', 'std::chrono::operator-', 'std::distance', 'std::clamp', 'std::round', 'std::log2', 'std::pow', 'std::sqrt'}


NUMBERS = frozenset(('bool', 'char', 'int', 'unsigned int', 'long', 'unsigned long', 'float', 'double'))


class Analyzer(Interp):
    pure_names = frozenset()
    twins = {}

    def pure(self, f):
        return f['sq'] in self.pure_names or f['sq'] in self.twins

    # ------------------------------------------------------------------------------- lvalues
    def lv(self, e, st, fr):
        k = e['k']
        if k == 'ref':
            l = self.lookup(e, fr)
            if l is not None:
                return l
            return (Sym('var:' + e['n'], ''), ())
        if k == 'gref':
            g = self.global_value(e, st, fr)
            if g is not None and g.k in ('agg', 'upd', 'seq', 'c', 's'):
                return (g, ())
            return (Sym('global:' + e['n'], e.get('t', '')), ())
        if k == 'this':
            return self.to_loc(fr.this) if fr.this is not None else (Sym('this'), ())
        if k == 'mem':
            return self.lv_mem(e, st, fr)
        if k == 'idx':
            b = self.rv_ptr(e['b'], st, fr)
            i = self.rv(e['i'], st, fr)
            return self.ext(b, i)
        if k == 'un':
            op = e['op']
            if op == '*':
                return self.pointee(self.rv(e['e'], st, fr), e, st)
            if op in ('++', '--'):
                l = self.lv(e['e'], st, fr)
                v = self.read(st, l)
                self.assign(l, self.settle(self.incr(v, 1 if op == '++' else -1), st), st, fr, e.get('l'))
                return l
        if k == 'bin':
            op = e['op']
            if op == '=':
                l = self.lv(e['a'], st, fr)
                v = self.rv(e['b'], st, fr)
                self.assign(l, v, st, fr, e.get('l'))
                return l
            if op.endswith('=') and op not in CMP:
                l = self.lv(e['a'], st, fr)
                v = self.rv(e['b'], st, fr)
                self.assign(l, self.arith(op[:-1], self.read(st, l), v), st, fr, e.get('l'))
                return l
            if op == ',':
                self.rv(e['a'], st, fr)
                return self.lv(e['b'], st, fr)
        if k == 'cond':
            c = truth(self.rv(e['c'], st, fr))
            res = {}

            def arm(n):
                def f(q):
                    res[n] = self.addr(self.lv(e[n], q, fr))
                return f
            self.branch(c, st, fr, e.get('l'), arm('a'), arm('b'))
            if 'a' not in res:
                return self.to_loc(res['b'])
            if 'b' not in res:
                return self.to_loc(res['a'])
            t = ite(c, res['a'], res['b'])
            return self.to_loc(t) if t.k != 'ite' else (t, ())
        if k == 'cast':
            if e.get('ck') in ('NoOp', 'LValueBitCast', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic'):
                return self.lv(e['e'], st, fr)
        if k in ('call', 'mcall', 'op', 'icall'):
            r = self.call(e, st, fr, want='loc')
            if isinstance(r, tuple):
                return r
            return self.temp(r, st)
        if k == 'ctor' and (e.get('copy') or e.get('move')) and len(e['a']) == 1 and not e.get('tmp'):
            return self.temp(self.rv(e, st, fr), st)
        if k == 'ctor':
            f = self.p.funcs.get(e['u'])
            if f is not None and f.get('ctor') and not self.stops(f) and (f.get('body') is not None or f.get('inits')) and not e.get('copy') and not e.get('move'):
                l = self.new_loc('tmp')
                self.construct(f, e, st, fr, l)
                return l
        return self.temp(self.rv(e, st, fr), st)

    def temp(self, v, st):
        if v.k == 'addr' and False:
            return self.to_loc(v)
        l = self.new_loc('tmp')
        self.write(st, l, v)
        return l

    def lookup(self, e, fr):
        f = fr
        while f is not None:
            if e['id'] in f.env:
                return f.env[e['id']]
            f = f.parent
        return self.statics.get(e['id'])

    def lv_mem(self, e, st, fr):
        b = e['b']
        if e.get('arrow'):
            base = self.deref(self.rv(b, st, fr), st)
        else:
            base = self.lv(b, st, fr)
            base = self.chase(base, b, st)
        if not e['n']:
            return base       # anonymous union/struct member
        l = self.ext(base, e['n'])
        if is_ref(e.get('t', '')):
            v = self.read(st, l)
            if v.k == 'addr':
                return (v.a[0], v.a[1])
            return self.to_loc(v)
        return l

    def chase(self, loc, e, st):
        return loc

    def pointee(self, t, e, st):
        # members that are pointers to a number are not confused with what they lead to
        if t.k == 'fld' and t.a[1] in self.p.number_pointers and e.get('t', '').replace('const ', '') in NUMBERS:
            return self.ext(self.to_loc(t), ZERO)
        return self.deref(t, st)

    def deref(self, t, st):
        if t.k == 'it':
            return self.it_loc(t)
        if t.k == 'rit' and t.a[1].k == 'end' and st is not None:
            # the last element
            last = self.settle(mk('it', t.a[0], mk('app', 'endoff', C(-1))), st)
            if last.a[1].k != 'app':
                return self.it_loc(last)
        if t.k == 'some':
            return self.temp(t.a[0], st)
        if t.k == 'ite':
            return (t, ())
        return self.to_loc(t)

    def rv_ptr(self, e, st, fr):
        """Location of the first element designated by an array or pointer expression."""
        if e['k'] in ('mem', 'ref', 'gref', 'idx'):
            l = self.lv(e, st, fr)
            v = self.read(st, l)
            if v.k == 'addr':
                return (v.a[0], v.a[1])
            if v.k in ('ite',) and e['k'] == 'ref':
                return (v, ())
            return l
        v = self.rv(e, st, fr)
        return self.deref(v, st)

    def assign(self, l, v, st, fr, line):
        self.write(st, l, v)
        if self.trace_sets and isinstance(l[0], T) and not self.quiet:
            nm = l[1][-1] if l[1] and isinstance(l[1][-1], str) else '[]'
            par = self.addr((l[0], l[1][:-1])) if l[1] else l[0]
            self.ev('set', nm, [par, v], fr, line, target=self.addr(l))

    # ------------------------------------------------------------------------------- rvalues
    def rv(self, e, st, fr):
        self.step()
        if e is None:
            return mk('sym', 'void', '')
        if st.dead:
            return Unk('dead')
        k = e['k']
        if k == 'int':
            return C(e['v'])
        if k == 'float':
            v = e['v']
            return mk('f', v)
        if k == 'str':
            return S(e['v'])
        if k == 'null':
            return ZERO
        if k == 'zero':
            return self.zero(e.get('t', ''))
        if k in ('ref', 'gref', 'mem', 'idx'):
            if k == 'gref':
                g = self.global_value(e, st, fr)
                if g is not None:
                    return g
            l = self.lv(e, st, fr)
            return self.read(st, l)
        if k == 'this':
            return fr.this if fr.this is not None else Sym('this')
        if k == 'fref':
            return mk('fn', e['u'], e['q'])
        if k == 'tobool':
            return truth(self.rv(e['e'], st, fr))
        if k in ('ncast', 'trunc'):
            return self.rv(e['e'], st, fr)
        if k == 'cast':
            if e.get('dyn'):
                v = self.rv(e['e'], st, fr)
                return mk('app', 'dyncast', v, S(e['t']))
            if e.get('ck') == 'ToVoid':
                self.rv(e['e'], st, fr)
                return mk('sym', 'void', '')
            v = self.rv(e['e'], st, fr)
            if e['t'] == 'bool':
                return truth(v)
            return v
        if k == 'cond':
            if self.is_assert(e):
                return mk('sym', 'void', '')
            c = truth(self.rv(e['c'], st, fr))
            res = {}

            def arm(n):
                def f(q):
                    res[n] = self.rv(e[n], q, fr)
                return f
            c2 = assume(c, st.pc) if st.pc else c
            self.branch(c2 if c2.k == 'c' else c, st, fr, e.get('l'), arm('a'), arm('b'))
            if 'a' not in res:
                return res['b']
            if 'b' not in res:
                return res['a']
            return self.jval(c, res['a'], res['b'])
        if k == 'un':
            return self.rv_un(e, st, fr)
        if k == 'bin':
            return self.rv_bin(e, st, fr)
        if k in ('call', 'mcall', 'op', 'icall'):
            r = self.call(e, st, fr, want='val')
            if isinstance(r, tuple):
                return self.read(st, r)
            return r
        if k == 'ctor':
            return self.rv_ctor(e, st, fr)
        if k == 'ilist':
            return self.rv_ilist(e, st, fr)
        if k == 'lambda':
            return self.rv_lambda(e, st, fr)
        if k == 'throw':
            v = self.rv(e['e'], st, fr) if e.get('e') else None
            self.abrupt('throw', st, fr, e.get('l'), v)
            return Unk('thrown')
        if k == 'new':
            l = self.new_loc('new')
            if e.get('e'):
                self.init_into(e['e'], st, fr, l, e['t'], e.get('l'))
            return mk('addr', l[0], ())
        if k == 'delete':
            v = self.rv(e['e'], st, fr)
            self.ev('delete', 'delete', [v], fr, e.get('l'))
            return mk('sym', 'void', '')
        if k == 'typeid':
            return mk('sym', 'typeid', '')
        if k == 'stmtexpr':
            self.exec(e['s'], st, fr)
            return Unk('stmtexpr')
        self.unknowns.append(('expr', k, e.get('c'), fr.file, e.get('l')))
        return Unk(k)

    def is_assert(self, e):
        for n in ('a', 'b'):
            x = e[n]
            if x and x['k'] == 'call' and x.get('q') == '__assert_fail':
                return True
        return False

    def global_value(self, e, st, fr):
        g = self.p.globals.get(e['n'])
        if g and g.get('const') and 'init' in g:
            l = (Sym('global:' + e['n'], e.get('t', '')), ())
            if l[0] in st.store:
                return self.read(st, l)
            key = ('g', e['n'])
            v = self.statics.get(key)
            if v is None:
                self.statics[key] = Unk('rec global')
                saved = self.cur
                self.cur = []
                q = State()
                tl = self.new_loc('g')
                self.init_into(g['init'], q, fr, tl, g['t'])
                v = self.read(q, tl)
                self.cur = saved
                self.statics[key] = v
            return v
        return None

    def zero(self, t):
        t = val_type(t)
        kd = seq_kind(t)
        if kd == 'arr':
            m = re.match(r'^std::array<(.*), (\d+)(?:UL|U|L)?>$', t)
            if m:
                n = int(m.group(2))
                if n <= 64:
                    return mk('agg', 'arr', tuple((i, self.zero(m.group(1))) for i in range(n)))
        if kd == 'str':
            return S('')
        if kd:
            return mk('seq', kd, None, ())
        if t.startswith('std::optional<') or t.startswith('std::unique_ptr<') or t.startswith('std::function<') or t.startswith('std::shared_ptr<'):
            return ZERO
        m = re.match(r'^(.*)\[(\d+)\]$', t)
        if m:
            n = int(m.group(2))
            if n <= 64:
                return mk('agg', 'arr', tuple((i, self.zero(m.group(1))) for i in range(n)))
        if t.startswith('Vk') and not t.endswith('*') and t not in self.p.enums and not t.endswith('_T'):
            return mk('agg', 'zero', ())
        return ZERO

    def incr(self, v, k):
        if v.k == 'it':
            return mk('it', v.a[0], self.pos_add(v.a[1], k))
        if v.k == 'ite':
            return ite(v.a[0], self.incr(v.a[1], k), self.incr(v.a[2], k))
        return add(v, C(k))

    @staticmethod
    def pos_add(p, k):
        if p.k == 'end':
            return mk('app', 'endoff', C(k))
        if p.k in ('find', 'sfind'):
            return mk('app', 'posoff', p, C(k))
        return add(p, C(k))

    def rv_un(self, e, st, fr):
        op = e['op']
        if op == '&':
            l = self.lv(e['e'], st, fr)
            return self.addr(l)
        if op == '*':
            return self.read(st, self.pointee(self.rv(e['e'], st, fr), e, st))
        if op in ('++', '--'):
            return self.read(st, self.lv(e, st, fr))
        if op in ('post++', 'post--'):
            l = self.lv(e['e'], st, fr)
            v = self.read(st, l)
            self.assign(l, self.settle(self.incr(v, 1 if op == 'post++' else -1), st), st, fr, e.get('l'))
            return v
        v = self.rv(e['e'], st, fr)
        if op == '!':
            return not_(truth(v))
        if op == '-':
            if v.k == 'f':
                return mk('f', -v.a[0])
            return neg(v)
        if op == '~':
            if v.k == 'c':
                return C(~v.a[0] & 0xFFFFFFFF if e.get('t', '').startswith('unsigned int') else ~v.a[0])
            return mk('bnot', v)
        return v

    def arith(self, op, a, b):
        if a.k == 'f' or b.k == 'f':
            if a.k == 'f' and b.k == 'f' and op in '+-*/':
                try:
                    return mk('f', {'+': a.a[0] + b.a[0], '-': a.a[0] - b.a[0], '*': a.a[0] * b.a[0], '/': a.a[0] / b.a[0] if b.a[0] else 0.0}[op])
                except Exception:
                    pass
            return mk('fop', op, *(sorted((a, b)) if op in '+*' else (a, b)))
        if a.k == 'it' and op in '+-':
            if b.k == 'it':
                if b.a[1] is ZERO and a.a[1].k in ('end',):
                    return mk('size', a.a[0])
                return mk('app', 'itdiff', a, b)
            return mk('it', a.a[0], add(a.a[1], b if op == '+' else neg(b)) if a.a[1].k != 'end' else mk('app', 'endoff', b if op == '+' else neg(b)))
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/' and a.k != 'f' and b.k != 'f':
            return div(a, b)
        if op == '/':
            return a if b is ONE else mk('div', a, b)
        if op == '%':
            return mod(a, b)
        if op == '&':
            return bitop('band', a, b)
        if op == '|':
            return bitop('bor', a, b)
        if op == '^':
            return bitop('bxor', a, b)
        if op == '<<':
            return shl(a, b)
        if op == '>>':
            return shr(a, b)
        return Unk('op' + op)

    def compare_in(self, op, a, b, st):
        r = self.compare(op, a, b)
        if a.k == 'it' and b.k == 'it' and a.a[0] is b.a[0]:
            # how many there are is what the container holds by now
            s = mk('size', a.a[0])
            if contains(r, lambda x: x is s):
                try:
                    v = self.read(st, self.to_loc(a.a[0]))
                except Exception:
                    return r
                n = size(v)
                if n is not s:
                    return subst(r, {s: n})
        return r

    def compare(self, op, a, b):
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return not_(eq(a, b))
        if op == '<':
            return lt(a, b)
        if op == '>':
            return lt(b, a)
        if op == '<=':
            return not_(lt(b, a))
        return not_(lt(a, b))

    def rv_bin(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||'):
            a = truth(self.rv(e['a'], st, fr))
            if st.dead:
                return a
            if (op == '&&' and a is FALSE) or (op == '||' and a is TRUE):
                return a
            res = []

            def rhs(q):
                res.append(truth(self.rv(e['b'], q, fr)))
            a2 = assume(a, st.pc) if st.pc else a
            if op == '&&':
                self.branch(a, st, fr, e.get('l'), rhs, None)
            else:
                self.branch(a, st, fr, e.get('l'), None, rhs)
            if not res:
                return a2
            return and_(a, res[0]) if op == '&&' else or_(a, res[0])
        if op == '=' or (op.endswith('=') and op not in CMP):
            return self.read(st, self.lv(e, st, fr))
        if op == ',':
            self.rv(e['a'], st, fr)
            return self.rv(e['b'], st, fr)
        a = self.rv(e['a'], st, fr)
        b = self.rv(e['b'], st, fr)
        if op in CMP:
            return self.compare_in(op, a, b, st)
        return self.settle(self.arith(op, a, b), st)

    def rv_ilist(self, e, st, fr):
        t = e['t']
        if e.get('union'):
            fs = tuple((n, self.rv(x, st, fr)) for n, x in zip(e['f'], e['e']))
            return mk('agg', val_type(t), fs)
        if e.get('rec'):
            vt = val_type(t)
            if vt in self.p.records:
                l = self.new_loc('agg')
                self.init_agg(e, st, fr, l, vt)
                return self.read(st, l)
            if seq_kind(vt) == 'arr':
                if len(e['e']) == 1:
                    v = self.rv(e['e'][0], st, fr)
                    if v.k == 'agg':
                        z = self.zero(vt)
                        if z.k == 'agg' and len(z.a[1]) > len(v.a[1]):
                            d = dict(z.a[1])
                            d.update(dict(v.a[1]))
                            return mk('agg', 'arr', tuple(sorted(d.items())))
                        return mk('agg', 'arr', v.a[1])
                return self.zero(vt)
            fs = []
            for n, x in zip(e['f'], e['e']):
                if n.startswith('@base:'):
                    continue
                fs.append((n, self.rv(x, st, fr)))
            return mk('agg', vt, tuple(fs))
        # arrays
        vs = [self.rv(x, st, fr) for x in e['e']]
        if seq_kind(t) == 'vec':
            return mk('seq', 'vec', None, tuple(('item', v) for v in vs))
        m = re.search(r'\[(\d+)\]$', t)
        n = int(m.group(1)) if m else len(vs)
        if not m and '[' not in t and len(vs) <= 1:
            return vs[0] if vs else self.zero(t)
        fs = [(i, v) for i, v in enumerate(vs)]
        if n > len(vs) and n <= 64:
            et = t[:m.start()].strip()
            fs += [(i, self.zero(et)) for i in range(len(vs), n)]
        return mk('agg', 'arr', tuple(fs))

    def rv_lambda(self, e, st, fr):
        caps = []
        this = fr.this
        for c in e['caps']:
            if c.get('this'):
                continue
            if c.get('init') is not None:
                if c.get('ref'):
                    caps.append((c['id'], self.addr(self.lv(c['init'], st, fr)), True))
                else:
                    caps.append((c['id'], self.rv(c['init'], st, fr), False))
                continue
            l = self.lookup(c, fr)
            if l is None:
                continue
            if c.get('ref'):
                caps.append((c['id'], self.addr(l), True))
            else:
                caps.append((c['id'], self.read(st, l), False))
        t = mk('lam', e['id'], tuple(caps), this if this is not None else ZERO)
        self.lamtab[t] = (dict(e, file=fr.file), dict(fr.env), this, caps, fr.fn)
        return t

    def rv_ctor(self, e, st, fr):
        t = val_type(e['t'])
        a = e['a']
        f = self.p.funcs.get(e['u'])
        if (e.get('copy') or e.get('move')) and len(a) == 1:
            if f is not None and f.get('body') is not None and not f.get('defaulted') and not self.stops(f):
                l = self.new_loc('copy')
                self.construct(f, e, st, fr, l)
                return self.read(st, l)
            l = self.lv(a[0], st, fr)
            v = self.read(st, l)
            self.moved_out(a[0], t, st, fr)
            return v
        if f is not None and f.get('ctor') and (f.get('body') is not None or f.get('inits')):
            if self.stops(f):
                args = [self.rv(x, st, fr) for x in a]
                r = mk('res', f['sq'], next(self.ec), 'ret')
                self.ev('api', f['sq'], args, fr, e.get('l'), r, fn=f)
                return r
            l = self.new_loc('tmp')
            self.construct(f, e, st, fr, l)
            return self.read(st, l)
        if t in self.p.records:
            # implicit default construction
            rec = self.p.records[t]
            if not a:
                l = self.new_loc('def')
                self.write(st, l, mk('agg', t, ()))
                for fd in rec['fields']:
                    if 'init' in fd:
                        self.init_into(fd['init'], st, fr, self.ext(l, fd['n']), fd['t'])
                    else:
                        self.write(st, self.ext(l, fd['n']), self.zero(fd['t']))
                v = self.read(st, l)
                return v
        kd = seq_kind(t)
        if kd:
            return self.ctor_seq(kd, t, e, st, fr)
        if t.startswith('std::optional<') or t.startswith('std::function<') or t.startswith('std::unique_ptr<') or t.startswith('std::shared_ptr<'):
            if not a:
                return ZERO
            if e['pt'] and 'nullopt_t' in e['pt'][0]:
                return ZERO
            v = self.rv(a[0], st, fr)
            if t.startswith('std::optional<'):
                src = e['pt'][0] if e['pt'] else ''
                if 'std::optional<' in val_type(src):
                    return v
                return v if v.k == 'some' else mk('some', v)
            return v
        if t.startswith('std::pair<') or t.startswith('std::tuple<'):
            vs = [self.rv(x, st, fr) for x in a]
            if len(vs) == 2:
                return mk('agg', 'pair', (('first', vs[0]), ('second', vs[1])))
            if len(vs) == 1:
                return vs[0]
            return mk('agg', 'pair', (('first', ZERO), ('second', ZERO))) if not vs else mk('agg', 'tuple', tuple(('_%d' % i, v) for i, v in enumerate(vs)))
        if any(t.startswith(l) for l in LOCKS):
            m = self.addr(self.lv(a[0], st, fr)) if a else ZERO
            self.ev('locktemp', 'mutex', [m], fr, e.get('l'))
            return mk('lockobj', m)
        if t.startswith('std::basic_stringstream') or t.startswith('std::basic_ostringstream'):
            return S('')
        if '__normal_iterator' in t or '_iterator<' in t or '_iterator' in t:
            return self.rv(a[0], st, fr) if a else Unk('iterator')
        vs = [self.rv(x, st, fr) for x in a]
        if not vs:
            return self.zero(t)
        if len(vs) == 1:
            return app('conv:' + strip_targs(t), vs[0]) if 'hash' in t else vs[0]
        return app('new:' + strip_targs(t), *vs)

    def moved_out(self, e, t, st, fr):
        """What an object of the standard library whose content was taken by a move is left with."""
        while e and e['k'] in ('cast', 'tmp') and e.get('e'):
            e = e['e']
        if not e or e['k'] != 'call' or e.get('q') != 'std::move' or st.dead:
            return
        e = e['a'][0]
        x = e
        while x and x['k'] == 'mem':
            x = x.get('b')
        if not x or x['k'] not in ('ref', 'this'):
            return
        l = self.lv(e, st, fr)
        if t.startswith('std::unique_ptr<'):
            self.write(st, l, ZERO)
        elif seq_kind(t) in ('vec', 'map', 'set', 'list'):
            self.write(st, l, mk('seq', seq_kind(t), None, ()))

    def ctor_seq(self, kd, t, e, st, fr):
        a = [x for x in e['a']]
        pts = e['pt']
        # drop allocator / comparator defaults
        n = len([p for p in pts if 'std::allocator<' not in val_type(p)[:16] and not val_type(p).startswith('std::less') and not val_type(p).startswith('std::hash') and not val_type(p).startswith('std::equal_to')])
        a = a[:n]
        if kd == 'str':
            if not a:
                return S('')
            vs = [self.rv(x, st, fr) for x in a]
            return vs[0] if len(vs) == 1 else app('str', *vs)
        if kd == 'arr':
            return self.zero(t)
        if not a:
            return mk('seq', kd, None, ())
        if len(a) == 1:
            v = self.rv(a[0], st, fr)
            p0 = val_type(pts[0]) if pts else ''
            if p0.startswith('std::initializer_list') or seq_kind(p0):
                if v.k == 'agg':
                    v = mk('seq', kd, None, tuple(('item', x) for _, x in v.a[1]))
                if v.k == 'seq':
                    items = v.a[2]
                    if kd == 'map':
                        items = tuple(('kv', fld(i[1], 'first'), fld(i[1], 'second'), 'emplace') if i[0] == 'item' else i for i in items)
                    return mk('seq', kd, v.a[1], items)
                return v
            m = re.match(r'^std::\w+<(.*?)(?:, std::allocator.*)?>$', t)
            return self.fill(kd, v, self.zero(m.group(1) if m else ''))
        if len(a) >= 2:
            x = self.rv(a[0], st, fr)
            y = self.rv(a[1], st, fr)
            if x.k == 'it' and y.k == 'it':
                return self.range_value(kd, x, y, st)
            if 'unsigned long' in pts[0] or 'size_type' in pts[0]:
                return self.fill(kd, x, y)
            if x.k == 'addr' or x.k in ('fld', 'sym'):
                return mk('seq', kd, None, (('splice', app('ptrrange', x, y)),)) if not self.is_ptr_range(x, y) else self.deep(st, self.to_loc(x))
        return Unk('ctor ' + t)

    def is_ptr_range(self, x, y):
        return False

    @staticmethod
    def fill(kd, n, v):
        if n.k == 'c' and 0 <= n.a[0] <= 16:
            return mk('seq', kd, None, tuple(('item', v) for _ in range(n.a[0])))
        return mk('seq', kd, None, (('fill', v, n),))

    def range_value(self, kd, x, y, st):
        if x.a[0] is y.a[0] and x.a[1] is ZERO and y.a[1].k == 'end':
            v = self.read(st, self.to_loc(x.a[0]))
            if v.k == 'seq':
                return mk('seq', kd, v.a[1], v.a[2])
            return v if kd != 'set' else mk('seq', kd, None, (('splice', v),))
        return app('range', x, y)

    # ----------------------------------------------------------------------------- iterators
    def it_loc(self, t):
        h, p = t.a
        if p.k == 'find':
            return self.ext(self.to_loc(h), ('ent', p.a[1]))
        if p.k == 'sfind':
            return (p.a[1], ()) if p.a[1].k != 'addr' else self.to_loc(p.a[1])
        if p.k == 'ite':
            return (ite(p.a[0], self.addr(self.it_loc(mk('it', h, p.a[1]))), self.addr(self.it_loc(mk('it', h, p.a[2])))), ())
        return self.ext(self.to_loc(h), p)

    def contents(self, h, st):
        return self.read(st, self.to_loc(h))

    def has(self, x, key):
        """membership of a key in an associative container value."""
        if x.k == 'ite':
            return ite(x.a[0], self.has(x.a[1], key), self.has(x.a[2], key))
        if x.k == 'seq' and x.a[0] in ('map', 'set'):
            r = [self.has(x.a[1], key)] if x.a[1] is not None else []
            r += [self.item_has(i, key) for i in x.a[2]]
            if all(i is not None for i in r):
                return or_(*r)
        el = key.a[0] if key.k == 'fld' and key.a[1] == 'first' else key
        if el.k == 'idx' and el.a[0] is x:
            # the key of one of its own elements
            return TRUE
        return mk('has', x, key)

    def item_has(self, i, key):
        if i[0] == 'kv' or i[0] == 'item':
            return eq(i[1], key)
        if i[0] == 'if':
            a = [self.item_has(x, key) for x in i[2]]
            b = [self.item_has(x, key) for x in i[3]]
            if None in a or None in b:
                return None
            return ite(i[1], or_(*a), or_(*b))
        if i[0] == 'loop':
            a = [self.item_has(x, key) for x in i[3]]
            if None in a:
                return None
            return quant(i[2], or_(*a), i[1])
        return None

    def any_elem(self, x, loc, st, fr, line, pred):
        """(exists element satisfying pred, term of the first one's position)."""
        if x.k == 'seq' and x.a[0] in ('vec', 'arr'):
            r = []
            if x.a[1] is not None:
                r.append(self.any_elem(x.a[1], None, st, fr, line, pred)[0])
            ok = True
            for i in x.a[2]:
                c = self.any_item(i, st, fr, line, pred)
                if c is None:
                    ok = False
                    break
                r.append(c)
            if ok:
                c = or_(*r)
                return c, mk('first', c)
        if x.k == 'agg' and all(isinstance(n, int) for n, _ in x.a[1]):
            r = [pred(self.temp(v, st)) for _, v in x.a[1]]
            c = or_(*r)
            return c, mk('first', c)
        lid = next(self.lc)
        lvt = mk('lv', lid)
        el = self.ext(loc, lvt) if loc is not None else self.ext(self.to_loc(x), lvt)
        c = quant(size(x), pred(el), lid)
        return c, mk('first', c)

    def any_item(self, i, st, fr, line, pred):
        if i[0] == 'item':
            return pred(self.temp(i[1], st))
        if i[0] == 'if':
            a = [self.any_item(y, st, fr, line, pred) for y in i[2]]
            b = [self.any_item(y, st, fr, line, pred) for y in i[3]]
            if None in a or None in b:
                return None
            return ite(i[1], or_(*a), or_(*b))
        if i[0] == 'loop':
            a = [self.any_item(y, st, fr, line, pred) for y in i[3]]
            if None in a:
                return None
            return quant(i[2], or_(*a), i[1])
        if i[0] == 'splice':
            return self.any_elem(i[1], None, st, fr, line, pred)[0]
        return None

    def pure_pred(self, fnv, st, fr, line):
        """element location -> boolean term (events are dropped)."""
        def f(*els):
            q = st.fork()
            saved = self.cur
            self.cur = []
            n = len(fr.out)
            v = truth(self.call_value(fnv, q, fr, line, [('loc', el) for el in els]))
            del fr.out[n:]
            self.cur = saved
            return v
        return f

    # ---------------------------------------------------------------------------------- calls
    def call(self, e, st, fr, want='val'):
        k = e['k']
        line = e.get('l')
        if k == 'icall':
            return self.call_ptr(e, st, fr)
        q = e.get('q')
        if q is None:
            fn = self.rv(e['fn'], st, fr) if e.get('fn') else Unk('call')
            args = [('val', self.rv(a, st, fr)) for a in e['a']]
            return self.call_value(fn, st, fr, line, args)
        f = self.p.funcs.get(e.get('u'))
        sq = f['sq'] if f is not None else strip_targs(q)
        if k == 'mcall' and e.get('conv') and ('(lambda' in q or '(anonymous class)' in q):
            return self.rv(e['b'], st, fr)
        # calls of lambda objects
        if k == 'op' and e.get('op') == '()' and '(lambda' in (e.get('bt') or '') or '(anonymous class)' in q or '(lambda' in q:
            fnv = self.rv(e['a'][0], st, fr)
            args = [('loc', self.lv(a, st, fr)) for a in e['a'][1:]]
            r = self.call_value(fnv, st, fr, line, args)
            return r
        # repository functions
        if f is not None and (f.get('body') is not None or f.get('defaulted')):
            return self.call_repo(f, e, st, fr, want)
        if sq.startswith('std::') or sq.startswith('__gnu_cxx::'):
            return self.call_std(sq, e, st, fr, want)
        if sq == '__assert_fail':
            return mk('sym', 'void', '')
        if e.get('op') == '=' and k == 'op':
            l = self.lv(e['a'][0], st, fr)
            v = self.rv(e['a'][1], st, fr)
            self.assign(l, v, st, fr, line)
            return l
        if f is None and sq in self.pure_names and k == 'call':
            # a query of the library that the reference model only declares
            return app('q:' + sq, *[self.rv(x, st, fr) for x in e['a']])
        return self.call_unknown(sq, e, st, fr)

    def virtuals(self, e):
        return ()

    def call_repo(self, f, e, st, fr, want):
        line = e.get('l')
        k = e['k']
        method = bool(f.get('cls')) and not f.get('static')
        args = list(e['a'])
        this = None
        if method:
            if k == 'mcall':
                b = e['b']
                this = self.obj_loc(b, st, fr, e.get('bp'))
            else:
                this = self.obj_loc(args[0], st, fr)
                args = args[1:]
        if st.dead:
            return Unk('dead')
        if f.get('defaulted') and (f.get('copyassign') or f.get('moveassign')):
            v = self.rv(args[0], st, fr)
            self.assign(this, v, st, fr, line)
            return this
        if f.get('defaulted') and f.get('body') is None:
            return mk('sym', 'void', '')
        if e.get('virt') and not e.get('qualified'):
            g = self.devirtualise(f, this)
            if g is None:
                a = [self.addr(this)] + [self.rv(x, st, fr) for x in args]
                r = mk('res', f['sq'], next(self.ec), 'ret')
                self.ev('vcall', f['sq'], a, fr, line, r)
                return r
            f = g
        bound = self.bind_args(f, args, st, fr)
        if st.dead:
            return Unk('dead')
        if self.stops(f):
            a = ([self.addr(this)] if this is not None else []) + [self.addr(x) if kk == 'loc' else x for kk, x in bound]
            vals = ([self.read(st, this)] if this is not None else []) + [self.read(st, x) if kk == 'loc' else x for kk, x in bound]
            if self.pure(f):
                # a query: its result only depends on its operands
                r = app('q:' + self.twins.get(f['sq'], f['sq']), *([vals[0] if 'GetValueCallbackT' in f['sq'] else self.addr(this)] if this is not None else []), *(vals if this is None else vals[1:]))
                return self.to_loc(r) if is_ref(f['ret']) else r
            lab = self.stops(f)
            lab = lab if isinstance(lab, str) else f['sq']
            r = mk('res', lab, next(self.ec), 'ret')
            self.ev('api', lab, vals if this is None else [self.addr(this)] + vals[1:], fr, line, r, fn=f, addrs=a)
            self.havoc_outs(f, bound, r, st)
            if is_ref(f['ret']):
                return self.to_loc(r)
            return r
        v = self.call_fn(f, st, fr, line, this=this, args=bound)
        if is_ref(f['ret']):
            return self.deref(v, st) if v.k != 'addr' else (v.a[0], v.a[1])
        return v

    def havoc_outs(self, f, bound, r, st):
        """Local objects an uninterpreted call may have modified are results of that call from then on."""
        for i, (p, (k, x)) in enumerate(zip(f['params'], bound)):
            t = p['t']
            if k == 'loc' and t.endswith('&') and not t.endswith('&&') and not t.startswith('const ') and (isinstance(x[0], tuple) or isinstance(x[0], T) and x[0].k == 'sym' and not x[1] and val_type(t).startswith('std::')):
                self.write(st, x, mk('res', r.a[0], r.a[1], 'out%d' % i))

    def obj_loc(self, b, st, fr, ptr=False):
        """Location of the object a member function is called on."""
        if b['k'] == 'this':
            return self.to_loc(fr.this) if fr.this is not None else (Sym('this'), ())
        if ptr:
            return self.deref(self.rv(b, st, fr), st)
        return self.lv(b, st, fr)

    def devirtualise(self, f, this):
        ov = self.all_overriders(f['u'])
        pure = f.get('body') is None
        cands = [self.p.funcs[u] for u in ov if u in self.p.funcs and self.p.funcs[u].get('body') is not None]
        if not pure:
            cands = [f] + cands
        if len(cands) == 1:
            return cands[0]
        return None

    def all_overriders(self, u):
        out, todo = [], [u]
        while todo:
            x = todo.pop()
            for y in self.p.overriders.get(x, ()):
                if y not in out:
                    out.append(y)
                    todo.append(y)
        return out

    def call_ptr(self, e, st, fr):
        line = e.get('l')
        fn = e['fn']
        while fn['k'] in ('cast',) or fn['k'] == 'un' and fn['op'] == '*':
            fn = fn['e']
        name = fn.get('n') if fn['k'] == 'mem' else None
        if name and name.startswith('vk'):
            obj = self.addr(self.obj_loc(fn['b'], st, fr)) if not fn.get('arrow') else self.rv(fn['b'], st, fr)
            pts = split_params(fn.get('t', ''))
            args, outs = [], []
            for i, a in enumerate(e['a']):
                v = self.rv(a, st, fr)
                pt = pts[i] if i < len(pts) else ''
                if pt.endswith('*') and not re.match(r'^(const )?Vk\w+_T \*$', pt):
                    if is_out_param(pt):
                        outs.append((i, self.deref(v, st) if v is not ZERO else None))
                        args.append(v)
                        continue
                    v = self.snapshot(v, st, a)
                args.append(v)
            if st.dead:
                return Unk('dead')
            rid = next(self.ec)
            rt = e.get('t', 'void')
            r = mk('res', name, rid, 'ret') if rt != 'void' else mk('sym', 'void', '')
            ev = self.ev('vk', name, args, fr, line, r, obj=obj, rid=rid, outs={}, rtype=rt)
            for i, l in outs:
                if l is None:
                    continue
                ov = mk('res', name, rid, 'out%d' % i)
                ev.x['outs'][i] = (self.addr(l), ov)
                self.write(st, l, ov)
                if isinstance(l[0], T):
                    nm = l[1][-1] if l[1] and isinstance(l[1][-1], str) else '[]'
                    self.ev('set', nm, [self.addr((l[0], l[1][:-1])) if l[1] else l[0], ov], fr, line, target=self.addr(l))
            return r
        fnv = self.rv(fn, st, fr)
        args = [('val', self.rv(a, st, fr)) for a in e['a']]
        return self.call_value(fnv, st, fr, line, args, name=name)

    def snapshot(self, v, st, a=None):
        """Contents behind a pointer argument at the time of the call."""
        if v is ZERO or v.k == 'c':
            return v
        if v.k == 'ite':
            return ite(v.a[0], self.snapshot(v.a[1], st), self.snapshot(v.a[2], st))
        if v.k in ('addr', 'fld', 'at', 'idx', 'sym', 'lv'):
            c = self.read(st, self.to_loc(v))
            return mk('ptrto', self.resolve(c, st), v)
        return v

    def resolve(self, c, st, depth=0):
        """Replaces addresses inside an aggregate by what they point to."""
        if depth > 6:
            return c
        if c.k == 'addr':
            return mk('ptrto', self.resolve(self.read(st, self.to_loc(c)), st, depth + 1), c)
        if c.k == 'agg':
            return mk('agg', c.a[0], tuple((n, self.resolve(x, st, depth + 1)) for n, x in c.a[1]))
        if c.k == 'upd':
            return upd(c.a[0], tuple((n, self.resolve(x, st, depth + 1)) for n, x in c.a[1]))
        if c.k == 'ite':
            return ite(c.a[0], self.resolve(c.a[1], st, depth + 1), self.resolve(c.a[2], st, depth + 1))
        if c.k == 'seq':
            def go(i):
                return tuple(self.resolve(x, st, depth + 1) if isinstance(x, T) and x.k in ('addr', 'agg') else
                             tuple(go(y) if isinstance(y, tuple) else y for y in x) if isinstance(x, tuple) else x for x in i)
            return mk('seq', c.a[0], c.a[1], tuple(go(i) for i in c.a[2]))
        return c

    def call_unknown(self, sq, e, st, fr):
        line = e.get('l')
        if sq in ('memcmp', 'std::memcmp') and len(e['a']) == 3:
            x, y, n = [self.rv(a, st, fr) for a in e['a']]
            vx, vy = self.read(st, self.to_loc(x)), self.read(st, self.to_loc(y))
            if vx is vy:
                return ZERO
            # only whether the contents differ is known: both orders are the same question
            return app('memcmp', vx, vy, n)
        if sq in ('memcpy', 'std::memcpy') and len(e['a']) == 3:
            # a whole array from an array of as many elements
            to = self.local_array(e['a'][0], st, fr)
            d = e['a'][1]
            while d['k'] == 'cast':
                d = d['e']
            n = re.match(r'(?:const )?std::array<.*, (\d+)>$', d.get('bt', '')) if d['k'] == 'mcall' and d.get('q', '').endswith('::data') else None
            l = self.obj_loc(d['b'], st, fr, d.get('bp')) if n else None
            if l is None:
                frm = self.local_array(e['a'][1], st, fr)
                l, cnt = frm if frm is not None else (None, None)
            else:
                cnt = int(n.group(1))
            z = self.rv(e['a'][2], st, fr)
            if to is not None and l is not None and cnt == to[1] <= 16 and z.k == 'c' and z.a[0] == cnt * {'float': 4, 'int': 4, 'unsigned int': 4, 'char': 1, 'unsigned char': 1, 'double': 8, 'unsigned long': 8}.get(to[2], 0):
                self.copy_array(to[0], l, cnt, st, fr, line)
                return self.addr(to[0])
        args = []
        f_virtual = e.get('virt')
        if e.get('b') is not None:
            args.append(self.addr(self.obj_loc(e['b'], st, fr, e.get('bp'))))
        pts = e.get('pt', [])
        off = 1 if e['k'] == 'op' and e.get('m') else 0
        for i, a in enumerate(e['a']):
            pt = pts[i - off] if 0 <= i - off < len(pts) else ''
            if is_ref(pt) and not pt.startswith('const '):
                l = self.lv(a, st, fr)
                args.append(self.addr(l))
                if not pt.endswith('&&'):
                    self.write(st, l, mk('res', sq, next(self.ec), 'arg%d' % i))
            else:
                args.append(self.rv(a, st, fr))
        if f_virtual and e.get('b') is not None:
            # pure virtual of a repository class
            g = None
            cands = [self.p.funcs[u] for u in self.all_overriders(e['u']) if u in self.p.funcs and self.p.funcs[u].get('body') is not None]
            if len(cands) == 1:
                g = cands[0]
                b = [('val', x) if not is_ref(p['t']) else ('loc', self.to_loc(x)) for p, x in zip(g['params'], args[1:])]
                v = self.call_fn(g, st, fr, line, this=self.to_loc(args[0]), args=b)
                return self.deref(v, st) if is_ref(g['ret']) else v
        if st.dead:
            return Unk('dead')
        r = mk('res', sq, next(self.ec), 'ret')
        self.ev('vcall' if f_virtual else 'ext', sq, args, fr, line, r)
        if e.get('noret'):
            self.abrupt('throw', st, fr, line, r)
        return r

    # ------------------------------------------------------------------------- standard library
    def call_std(self, sq, e, st, fr, want):
        k = e['k']
        line = e.get('l')
        a = e['a']
        name = sq.split('::')[-1]
        if k == 'op':
            return self.std_op(sq, e, st, fr, want)
        if k == 'mcall':
            bt = val_type(e.get('bt', ''))
            b = e['b']
            kd = seq_kind(bt)
            if bt.startswith('std::optional<'):
                l = self.lv(b, st, fr)
                return self.optional_method(name, l, a, st, fr, line, e)
            if bt.startswith('std::unique_ptr<') or bt.startswith('std::shared_ptr<'):
                l = self.lv(b, st, fr)
                if name == 'get':
                    return self.read(st, l)
                if name == 'reset':
                    v = self.rv(a[0], st, fr) if a else ZERO
                    self.assign(l, v, st, fr, line)
                    return mk('sym', 'void', '')
                if name == 'release':
                    v = self.read(st, l)
                    self.assign(l, ZERO, st, fr, line)
                    return v
                if name == 'operator bool':
                    return truth(self.read(st, l))
            if bt.startswith('std::function<'):
                if name == 'operator bool':
                    return truth(self.rv(b, st, fr))
                if name == 'operator=':
                    l = self.lv(b, st, fr)
                    self.assign(l, self.rv(a[0], st, fr), st, fr, line)
                    return l
            if any(bt.startswith(x) for x in LOCKS):
                l = self.lv(b, st, fr)
                v = self.read(st, l)
                if v.k == 'lockobj' and name in ('lock', 'unlock'):
                    if name == 'lock':
                        self.ev('lock', 'mutex', [v.a[0]], fr, line)
                    else:
                        self.ev('unlock', 'mutex', [v.a[0]], fr, line)
                        self.write(st, l, mk('lockreleased', v.a[0]))
                    return mk('sym', 'void', '')
                if v.k == 'lockreleased' and name == 'lock':
                    self.ev('lock', 'mutex', [v.a[0]], fr, line)
                    self.write(st, l, mk('lockobj', v.a[0]))
                return mk('sym', 'void', '')
            if bt in ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex', '__mutex_base') or 'mutex' in bt:
                l = self.addr(self.lv(b, st, fr))
                if name in ('lock', 'unlock', 'lock_shared', 'unlock_shared'):
                    self.ev('lock' if name.startswith('lock') else 'unlock', 'mutex', [l], fr, line)
                    return mk('sym', 'void', '')
            if kd:
                l = self.obj_loc(b, st, fr, e.get('bp'))
                return self.container(kd, name, l, e, st, fr, want, bt)
            if 'basic_stringstream' in bt or 'ostringstream' in bt or 'basic_ostream' in bt:
                l = self.lv(b, st, fr)
                if name == 'str':
                    return self.read(st, l)
                return l
            if name.startswith('operator ') or 'atomic' in sq:
                v = self.rv(b, st, fr)
                return v
            if 'reverse_iterator' in bt and name == 'base':
                v = self.rv(b, st, fr)
                return mk('it', v.a[0], v.a[1]) if v.k == 'rit' else app('rbase', v)
            if name == 'count' and 'chrono' in bt:
                return app('count', self.rv(b, st, fr))
            args = [self.rv(b, st, fr)] + [self.rv(x, st, fr) for x in a]
            r = mk('res', sq, next(self.ec), 'ret')
            self.ev('ext', sq, args, fr, line, r)
            return r
        # free functions
        if sq in ('std::move', 'std::forward', 'std::as_const', 'std::addressof', 'std::ref', 'std::cref') and len(a) == 1:
            l = self.lv(a[0], st, fr)
            if name == 'addressof':
                return self.addr(l)
            return l
        if sq == 'std::move_if_noexcept':
            return self.lv(a[0], st, fr)
        if sq == 'std::exchange':
            l = self.lv(a[0], st, fr)
            old = self.read(st, l)
            self.assign(l, self.rv(a[1], st, fr), st, fr, line)
            return old
        if sq == 'std::swap':
            x, y = self.lv(a[0], st, fr), self.lv(a[1], st, fr)
            vx, vy = self.read(st, x), self.read(st, y)
            self.assign(x, vy, st, fr, line)
            self.assign(y, vx, st, fr, line)
            return mk('sym', 'void', '')
        if sq in ('std::back_inserter', 'std::inserter'):
            l = self.lv(a[0], st, fr)
            if sq == 'std::inserter' and (seq_kind(e.get('pt', [''])[0]) or 'vec') not in ('map', 'set'):
                w = self.rv(a[1], st, fr)
                if w.k != 'it' or w.a[1].k != 'end':
                    return Unk('inserter')
            elif len(a) > 1:
                self.rv(a[1], st, fr)
            return mk('inserter', self.addr(l), seq_kind(e.get('pt', [''])[0]) or 'vec')
        if sq in ('std::make_unique', 'std::make_shared'):
            return self.make_unique(e, st, fr)
        if sq in ('std::make_pair',):
            return mk('agg', 'pair', (('first', self.rv(a[0], st, fr)), ('second', self.rv(a[1], st, fr))))
        if sq == 'std::make_optional':
            return mk('some', self.rv(a[0], st, fr))
        if sq in ('std::begin', 'std::cbegin', 'std::end', 'std::cend', 'std::size', 'std::empty', 'std::data'):
            l = self.lv(a[0], st, fr)
            nm = name[1:] if name.startswith('c') else name
            return self.container(seq_kind(e.get('pt', [''])[0]) or 'vec', nm, l, dict(e, a=[]), st, fr, want, '')
        if sq in ('std::find_if', 'std::find', 'std::any_of', 'std::all_of', 'std::none_of', 'std::find_if_not', 'std::count_if', 'std::count'):
            return self.algo_find(name, e, st, fr)
        if sq == 'std::for_each' or sq == 'std::for_each_n':
            x, y = self.rv(a[0], st, fr), self.rv(a[1], st, fr)
            fnv = self.rv(a[2], st, fr)
            self.iter_range(x, y, st, fr, line, lambda q, el: self.call_value(fnv, q, fr, line, [('loc', el)]))
            return fnv
        if sq == 'std::copy_n' and len(a) == 3:
            to, x, n = self.local_array(a[2], st, fr), self.rv(a[0], st, fr), self.rv(a[1], st, fr)
            if to is not None and x.k == 'it' and x.a[1] is ZERO and n.k == 'c' and n.a[0] <= min(to[1], 16):
                self.copy_array(to[0], self.to_loc(x.a[0]), n.a[0], st, fr, line)
                return self.addr(self.ext(to[0], n))
        if sq in ('std::transform', 'std::copy', 'std::copy_if'):
            return self.algo_copy(name, e, st, fr)
        if sq == 'std::accumulate':
            x, y = self.rv(a[0], st, fr), self.rv(a[1], st, fr)
            acc = self.new_loc('acc')
            self.write(st, acc, self.rv(a[2], st, fr))
            fnv = self.rv(a[3], st, fr) if len(a) > 3 else None

            def body(q, el):
                if fnv is None:
                    self.write(q, acc, add(self.read(q, acc), self.read(q, el)))
                else:
                    self.write(q, acc, self.call_value(fnv, q, fr, line, [('val', self.read(q, acc)), ('loc', el)]))
            self.iter_range(x, y, st, fr, line, body)
            return self.read(st, acc)
        if sq in ('std::next', 'std::prev'):
            x = self.rv(a[0], st, fr)
            n = self.rv(a[1], st, fr) if len(a) > 1 else ONE
            return self.it_shift(x, n if name == 'next' else neg(n), st)
        if sq == 'std::advance':
            l = self.lv(a[0], st, fr)
            self.write(st, l, self.it_shift(self.read(st, l), self.rv(a[1], st, fr), st))
            return mk('sym', 'void', '')
        if sq == 'std::sort' or sq == 'std::stable_sort' or sq == 'std::reverse':
            x = self.rv(a[0], st, fr)
            for y in a[1:]:
                self.rv(y, st, fr)
            if x.k == 'it':
                l = self.to_loc(x.a[0])
                self.assign(l, app(name, self.read(st, l)), st, fr, line)
            return mk('sym', 'void', '')
        if sq in ('std::remove_if', 'std::remove', 'std::unique'):
            x = self.rv(a[0], st, fr)
            y = self.rv(a[1], st, fr)
            z = self.rv(a[2], st, fr) if len(a) > 2 else ZERO
            if x.k == 'it':
                l = self.to_loc(x.a[0])
                v = self.read(st, l)
                if name == 'remove_if':
                    lid = next(self.lc)
                    lvt = mk('lv', lid)
                    c = self.pure_pred(z, st, fr, line)(self.ext(l, lvt))
                    z = close(c, lid)
                nv = app(name, v, z)
                self.assign(l, nv, st, fr, line)
                return mk('it', x.a[0], mk('app', 'newend'))
            return Unk('remove')
        if sq in ('std::max', 'std::min') and len(a) == 2:
            x, y = self.rv(a[0], st, fr), self.rv(a[1], st, fr)
            if x.k == 'c' and y.k == 'c':
                return C(max(x.a[0], y.a[0]) if name == 'max' else min(x.a[0], y.a[0]))
            if x is y:
                return x
            return maxmin(name, x, y)
        if sq in ('std::max', 'std::min') and len(a) >= 1:
            vs = [self.rv(x, st, fr) for x in a]
            if len(vs) == 1 and vs[0].k == 'agg' and vs[0].a[1]:
                vs = [v for _, v in vs[0].a[1]]
                r = vs[0]
                for y in vs[1:]:
                    r = maxmin(name, r, y)
                return r
            return mk('app', name, *vs)
        if sq == 'std::get':
            l = self.lv(a[0], st, fr)
            ta = e.get('ta') or [0]
            i = ta[0] if isinstance(ta[0], int) else 0
            pt = val_type(e.get('pt', [''])[0])
            return self.ext(l, ('first', 'second')[i] if pt.startswith('std::pair<') and i < 2 else '_%d' % i if pt.startswith('std::tuple') else C(i))
        if sq == 'std::fill_n' or sq == 'std::fill' or sq == 'std::iota':
            vs = [self.rv(x, st, fr) for x in a]
            if vs and vs[0].k == 'it':
                l = self.to_loc(vs[0].a[0])
                self.write(st, l, app(name, self.read(st, l), *vs[1:]))
            return mk('sym', 'void', '')
        if sq == 'std::tie' or sq == 'std::make_tuple' or sq == 'std::forward_as_tuple':
            return mk('agg', 'tuple', tuple(('_%d' % i, self.rv(x, st, fr)) for i, x in enumerate(a)))
        if sq == 'std::lock':
            for x in a:
                m = self.addr(self.lv(x, st, fr))
                self.ev('lock', 'mutex', [m], fr, line)
            return mk('sym', 'void', '')
        args = [self.rv(x, st, fr) for x in a]
        if sq in PURE_STD or sq.startswith('std::chrono') or sq.startswith('std::operator""'):
            if sq.endswith('::now'):
                r = mk('res', sq, next(self.ec), 'ret')
                self.ev('ext', sq, args, fr, line, r)
                return r
            return app(sq, *args)
        r = mk('res', sq, next(self.ec), 'ret')
        self.ev('ext', sq, args, fr, line, r)
        return r

    def settle(self, t, st):
        """A position counted from the end of a container, as an index of the
        element it designates now."""
        if t.k == 'ite':
            return ite(t.a[0], self.settle(t.a[1], st), self.settle(t.a[2], st))
        if t.k == 'it' and t.a[1].k == 'app' and t.a[1].a[0] == 'endoff' and st is not None:
            v = self.read(st, self.to_loc(t.a[0]))
            if self.indexed(v):
                return mk('it', t.a[0], add(size(v), t.a[1].a[1]))
        return t

    def indexed(self, v):
        while v.k == 'upd':
            v = v.a[0]
        if v.k == 'ite':
            return self.indexed(v.a[1]) and self.indexed(v.a[2])
        return v.k == 'seq' and v.a[0] in ('vec', 'arr') or v.k in ('sym', 'fld', 'idx', 'at')

    def it_shift(self, x, n, st=None):
        if x.k == 'ite':
            return ite(x.a[0], self.it_shift(x.a[1], n, st), self.it_shift(x.a[2], n, st))
        if x.k == 'it':
            p = x.a[1]
            if p.k == 'end':
                return self.settle(mk('it', x.a[0], mk('app', 'endoff', n)), st)
            if p.k in ('find', 'sfind'):
                return mk('it', x.a[0], mk('app', 'posoff', p, n))
            return mk('it', x.a[0], add(p, n))
        return app('advance', x, n)

    def make_unique(self, e, st, fr):
        ta = e.get('ta') or ['']
        t = ta[0]
        l = self.new_loc('obj')
        rec = self.p.records.get(t)
        ctor = None
        if rec:
            cands = []
            for m in rec['methods']:
                if m['n'] == rec['name'].split('::')[-1] and not m.get('deleted'):
                    g = self.p.funcs.get(m['u'])
                    cands.append((m, g))
            ats = ta[1:]
            best = None
            for m, g in cands:
                if len(m['params']) < len(e['a']):
                    continue
                score = sum(1 for p, at_ in zip(m['params'], ats) if isinstance(at_, str) and base_type(p['t']) == base_type(at_))
                if g is not None and (best is None or score > best[0]):
                    best = (score, g)
            if best:
                ctor = best[1]
        if ctor is not None and not (ctor.get('copyctor') or ctor.get('movector')):
            if self.stops(ctor):
                args = [self.rv(x, st, fr) for x in e['a']]
                r = mk('res', ctor['sq'], next(self.ec), 'ret')
                self.ev('api', ctor['sq'], args, fr, e.get('l'), r, fn=ctor)
                return r
            if ctor.get('body') is not None or ctor.get('inits'):
                args = self.bind_args(ctor, e['a'], st, fr)
                self.call_fn(ctor, st, fr, e.get('l'), this=l, args=args, ctor=True)
                return mk('addr', l[0], ())
        args = [self.rv(x, st, fr) for x in e['a']]
        if len(args) == 1:
            self.write(st, l, args[0])
        elif rec:
            self.write(st, l, mk('agg', t, tuple((f['n'], v) for f, v in zip(rec['fields'], args))))
        return mk('addr', l[0], ())

    def optional_method(self, name, l, a, st, fr, line, e):
        v = self.read(st, l)
        if name in ('operator bool', 'has_value'):
            return truth(v)
        if name == 'value':
            return self.opt_loc(l, st)
        if name == 'value_or':
            d = self.rv(a[0], st, fr)
            return ite(truth(v), self.proj(st, v, '*'), d)
        if name in ('reset',):
            self.assign(l, ZERO, st, fr, line)
            return mk('sym', 'void', '')
        if name == 'emplace':
            x = self.rv(a[0], st, fr) if a else ZERO
            self.assign(l, mk('some', x), st, fr, line)
            return self.opt_loc(l, st)
        return app('optional::' + name, v)

    def opt_loc(self, l, st):
        v = self.read(st, l)
        if v.k == 'some' and v.a[0].k == 'addr':
            return (v.a[0].a[0], v.a[0].a[1])
        return self.ext(l, '*')

    def iter_range(self, x, y, st, fr, line, body):
        if x.k == 'it' and y.k == 'it' and x.a[0] is y.a[0]:
            l = self.to_loc(x.a[0])
            if x.a[1] is ZERO and y.a[1].k == 'end':
                self.each(l, st, fr, line, body)
                return
            v = self.read(st, l)
            n = size(v) if y.a[1].k == 'end' else y.a[1]
            if x.a[1].k in ('c', 'lin', 'lv') and n.k != 'app':
                b = x.a[1]
                self.loop(st, fr, line, None, lambda q, i: body(q, self.ext(l, add(b, i))), None, count=sub(n, b))
                return
        l = self.new_loc('range')
        self.write(st, l, app('range', x, y))
        self.each(l, st, fr, line, body)

    def algo_find(self, name, e, st, fr):
        a = e['a']
        line = e.get('l')
        x, y = self.rv(a[0], st, fr), self.rv(a[1], st, fr)
        z = self.rv(a[2], st, fr)
        if name in ('find', 'count'):
            pred = self.elem_equals(e, z, st, fr)
        else:
            pred = self.pure_pred(z, st, fr, line)
            if x.k == 'it' and y.k == 'it' and x.a[0] is y.a[0] and x.a[1] is ZERO and y.a[1].k == 'end' and name not in ('count_if',):
                l = self.to_loc(x.a[0])
                if self.has_effects(z, self.ext(l, mk('lv', next(self.lc))), st, fr, line):
                    return self.search_loop(name, z, x.a[0], l, st, fr, line)
        if x.k == 'rit' and y.k == 'rit' and x.a[0] is y.a[0] and x.a[1].k == 'end' and y.a[1] is ZERO:
            # backwards over a whole container: the last element that satisfies the predicate
            l = self.to_loc(x.a[0])
            v = self.read(st, l)
            if name in ('find_if_not', 'all_of'):
                p0 = pred
                pred = lambda el: not_(p0(el))
            c, pos = self.any_elem(v, l, st, fr, line, pred)
            if name == 'any_of':
                return c
            if name in ('none_of', 'all_of'):
                return not_(c)
            if name.startswith('find'):
                return mk('rit', x.a[0], ite(c, add(app('lastof', c, size(v)), ONE), ZERO))
        if x.k in ('sym', 'lin', 'fld') and y.k in ('sym', 'lin', 'fld') and name not in ('count', 'count_if'):
            # between two iterators given from outside
            lid = next(self.lc)
            c = pred(self.to_loc(add(x, mk('lv', lid))))
            if name in ('find_if_not', 'all_of'):
                c = not_(c)
            qn = quant(sub(y, x), c, lid)
            if name == 'any_of':
                return qn
            if name in ('none_of', 'all_of'):
                return not_(qn)
            return ite(qn, add(x, mk('first', qn)), y)
        if x.k != 'it' or y.k != 'it' or x.a[0] is not y.a[0]:
            return app(name, x, y, z)
        h = x.a[0]
        l = self.to_loc(h)
        v = self.read(st, l)
        whole = x.a[1] is ZERO and y.a[1].k == 'end'
        if whole:
            if name in ('find_if_not', 'all_of'):
                p0 = pred
                pred = lambda el: not_(p0(el))
            if name in ('count', 'count_if'):
                lid = next(self.lc)
                c = pred(self.ext(l, mk('lv', lid)))
                return app('countif', size(v), close(c, lid))
            c, pos = self.any_elem(v, l, st, fr, line, pred)
            if name == 'any_of':
                return c
            if name == 'none_of' or name == 'all_of':
                return not_(c)
            if c is FALSE:
                return mk('it', h, mk('end'))
            return mk('it', h, pos)
        lid = next(self.lc)
        lvt = mk('lv', lid)
        n = size(v) if y.a[1].k == 'end' else y.a[1]
        b = x.a[1]
        c = pred(self.ext(l, add(b, lvt)))
        if name in ('find_if_not', 'all_of'):
            c = not_(c)
        qn = quant(sub(n, b), c, lid)
        if name == 'any_of':
            return qn
        if name in ('none_of', 'all_of'):
            return not_(qn)
        return mk('it', h, add(b, mk('first', qn)))

    def has_effects(self, fnv, el, st, fr, line):
        q = st.fork()
        saved = self.cur
        self.cur = tree = []
        n = len(fr.out)
        self.call_value(fnv, q, fr, line, [('loc', el)])
        del fr.out[n:]
        self.cur = saved

        def acts(nodes):
            for x in nodes:
                if isinstance(x, Ev):
                    if x.kind not in ('lock', 'unlock', 'static', 'ext'):
                        return True
                elif any(acts(getattr(x, k)) for k in ('a', 'b', 'body') if isinstance(getattr(x, k, None), list)):
                    return True
            return False
        return acts(tree) or any(q.store.get(r) is not v and q.store.get(r) != v for r, v in st.store.items())

    def search_loop(self, name, fnv, h, l, st, fr, line):
        """A search whose predicate acts on the elements: a loop left at the first that satisfies it."""
        found, pos = self.new_loc('found'), self.new_loc('pos')
        self.write(st, found, FALSE)
        self.write(st, pos, mk('it', h, mk('end')))
        neg = name in ('find_if_not', 'all_of')

        def body(q, i):
            c = truth(self.call_value(fnv, q, fr, line, [('loc', self.ext(l, i))]))
            if neg:
                c = not_(c)

            def hit(s):
                self.write(s, found, TRUE)
                self.write(s, pos, mk('it', h, i))
                self.abrupt('brk', s, fr, line)
            self.branch(c, q, fr, line, hit, None)
        self.loop(st, fr, line, None, body, None, count=size(self.read(st, l)))
        if name == 'any_of':
            return self.read(st, found)
        if name in ('none_of', 'all_of'):
            return not_(truth(self.read(st, found)))
        c = truth(self.read(st, found))
        if c.k == 'c':
            return self.read(st, pos) if c.a[0] else mk('it', h, mk('end'))
        return mk('it', h, mk('first', c))

    def elem_equals(self, e, z, st, fr):
        # operator== of the element type when it is a repository class
        def f(el):
            v = self.read(st, el)
            return self.equal_terms(v, z, st, fr, e.get('l'), (e.get('ta') or ['', ''])[-1])
        return f

    def equal_terms(self, a, b, st, fr, line, t):
        t = val_type(t)
        g = None
        for f in self.p.by_q.get('crg::operator==', ()):
            if len(f['params']) == 2 and base_type(f['params'][0]['t']) == t and f.get('body') is not None:
                g = f
        if g is None:
            return eq(a, b)
        if self.stops(g) and self.pure(g):
            return truth(app('q:' + self.twins.get(g['sq'], g['sq']), a, b))
        q = st.fork()
        saved = self.cur
        self.cur = []
        n = len(fr.out)
        v = truth(self.call_fn(g, q, fr, line, args=[('loc', self.temp(a, q)), ('loc', self.temp(b, q))]))
        del fr.out[n:]
        self.cur = saved
        return v

    def local_array(self, e, st, fr):
        """The place and the length of a built-in array named in an expression."""
        while e['k'] == 'cast':
            e = e['e']
        n = re.search(r'\[(\d+)\]$', e.get('t', ''))
        return (self.lv(e, st, fr), int(n.group(1)), e['t'][:n.start()].strip()) if n and e['k'] in ('ref', 'mem') else None

    def copy_array(self, to, l, n, st, fr, line):
        for i in range(n):
            self.assign(self.ext(to, C(i)), self.read(st, self.ext(l, C(i))), st, fr, line)

    def algo_copy(self, name, e, st, fr):
        a = e['a']
        line = e.get('l')
        x, y = self.rv(a[0], st, fr), self.rv(a[1], st, fr)
        to = self.local_array(a[2], st, fr) if name == 'copy' else None
        n = re.match(r'(?:const )?std::array<.*, (\d+)>$', a[0].get('bt', ''))
        if to is not None and n and int(n.group(1)) <= min(to[1], 16) and x.k == 'it' and y.k == 'it' and x.a[0] is y.a[0] and x.a[1] is ZERO and y.a[1].k == 'end':
            # a fixed number of elements
            self.copy_array(to[0], self.to_loc(x.a[0]), int(n.group(1)), st, fr, line)
            return self.addr(self.ext(to[0], C(int(n.group(1)))))
        d = self.rv(a[2], st, fr)
        fnv = self.rv(a[3], st, fr) if len(a) > 3 else None
        if d.k == 'inserter':
            tgt = self.to_loc(d.a[0])

            def add_to(v, q):
                if d.a[1] == 'map':
                    self.map_put(tgt, fld(v, 'first'), fld(v, 'second'), 'emplace', q, fr, line)
                elif d.a[1] == 'set':
                    c = self.has(self.read(q, tgt), v)
                    self.write(q, tgt, self.seq_append(self.read(q, tgt), (('item', v),), 'set'))
                    if isinstance(tgt[0], T):
                        self.ev('cont', 'insert', [self.addr(tgt), v], fr, line, had=c)
                else:
                    self.push(tgt, v, q, fr, line)

            def body(q, el):
                if name == 'transform':
                    v = self.call_value(fnv, q, fr, line, [('loc', el)])
                    add_to(v, q)
                elif name == 'copy':
                    add_to(self.read(q, el), q)
                else:
                    c = truth(self.call_value(fnv, q, fr, line, [('loc', el)]))
                    self.branch(c, q, fr, line, lambda r: add_to(self.read(r, el), r), None)
            self.iter_range(x, y, st, fr, line, body)
            return d
        if d.k == 'it' and name in ('copy', 'transform') and d.a[1] is ZERO and x.k == 'it':
            tl = self.to_loc(d.a[0])
            v = self.read(st, self.to_loc(x.a[0]))
            if name == 'transform' and len(a) == 4 and y.k == 'it' and x.a[1] is ZERO and y.a[1].k == 'end' and x.a[0] is y.a[0] and size(self.read(st, tl)) is size(v):
                # every element of the target is replaced
                nl = self.new_loc('transformed')
                self.write(st, nl, mk('seq', 'vec', None, ()))
                self.iter_range(x, y, st, fr, line, lambda q, el: self.push(nl, self.call_value(fnv, q, fr, line, [('loc', el)]), q, fr, line))
                self.assign(tl, self.read(st, nl), st, fr, line)
                return d
            if name == 'copy' and x.a[1] is ZERO and y.a[1].k == 'end':
                self.assign(tl, app('copied', v, self.read(st, tl)), st, fr, line)
                return d
        if name == 'copy' and x.k == 'it' and y.k == 'it' and x.a[0] == y.a[0] and x.a[1] is ZERO and y.a[1].k == 'end':
            # what is written is the content of the sequence
            self.ev('ext', 'copy to memory', [self.read(st, self.to_loc(x.a[0])), d], fr, line)
            return d
        self.ev('ext', 'std::' + name, [x, y, d], fr, line)
        return d

    # --------------------------------------------------------------------------- containers
    def push(self, l, v, st, fr, line, kind='vec', op='push_back'):
        old = self.read(st, l)
        self.write(st, l, self.seq_append(old, (('item', v),), kind))
        if isinstance(l[0], T):
            self.ev('cont', op, [self.addr(l), v], fr, line)

    def container(self, kd, name, l, e, st, fr, want, bt):
        a = e['a']
        line = e.get('l')
        h = self.addr(l)
        persistent = isinstance(l[0], T)
        if name in ('begin', 'cbegin'):
            return mk('it', h, ZERO)
        if name in ('end', 'cend'):
            return mk('it', h, mk('end'))
        # a reverse iterator is known by the position of its base
        if name in ('rbegin', 'crbegin'):
            return mk('rit', h, mk('end'))
        if name in ('rend', 'crend'):
            return mk('rit', h, ZERO)
        n_arr = None
        if kd == 'arr':
            m_arr = re.match(r'^(?:const )?std::array<.*, (\d+)(?:UL|U|L)?>', bt or '')
            n_arr = C(int(m_arr.group(1))) if m_arr else None
        if n_arr is not None and name in ('size', 'length', 'max_size'):
            return n_arr
        if n_arr is not None and name == 'back':
            return self.ext(l, sub(n_arr, ONE))
        if name in ('size', 'length'):
            return size(self.read(st, l))
        if name == 'empty':
            return not_(truth(size(self.read(st, l))))
        if name == 'data' or name == 'c_str':
            if kd == 'str':
                return self.read(st, l)
            return h
        if name in ('front', 'at', 'back'):
            if name == 'front':
                return self.ext(l, ZERO)
            if name == 'back':
                return self.ext(l, sub(size(self.read(st, l)), ONE))
            k = self.rv(a[0], st, fr)
            return self.ext(l, ('at', k) if kd == 'map' else k)
        if name == 'find':
            k = self.rv(a[0], st, fr)
            x = self.read(st, l)
            if kd == 'str':
                return app('strfind', x, k)
            c = self.has(x, k)
            if c is FALSE:
                return mk('it', h, mk('end'))
            return mk('it', h, mk('find' if kd == 'map' else 'sfind', x, k, c))
        if name in ('count', 'contains'):
            k = self.rv(a[0], st, fr)
            return self.has(self.read(st, l), k)
        if name == 'clear':
            old = self.read(st, l)
            self.write(st, l, mk('seq', kd, None, ()) if kd != 'str' else S(''))
            if persistent:
                self.ev('cont', 'clear', [h], fr, line, old=old)
            return mk('sym', 'void', '')
        if name in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
            if len(a) == 1 and not (name == 'emplace_back' and self.elem_ctor(bt, e, a)):
                v = self.rv(a[0], st, fr)
            else:
                v = self.emplace_value(bt, e, a, st, fr)
            if st.dead:
                return Unk('dead')
            old = self.read(st, l)
            n = size(old)
            self.push(l, v, st, fr, line, kd, 'push_back' if 'back' in name else 'push_front')
            return self.ext(l, n)
        if kd in ('map', 'set') and name in ('emplace', 'insert', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
            return self.assoc_insert(kd, name, l, e, st, fr, bt)
        if name == 'insert':
            # vector::insert(pos, value | first, last)
            p = self.rv(a[0], st, fr)
            vs = [self.rv(x, st, fr) for x in a[1:]]
            old = self.read(st, l)
            if len(vs) == 1:
                items = (('item', vs[0]),)
                if vs[0].k == 'seq' and 'initializer_list' in (e.get('pt') or ['', ''])[-1]:
                    items = vs[0].a[2]
            elif len(vs) == 2 and vs[0].k == 'it':
                items = (('splice', self.range_value('vec', vs[0], vs[1], st)),)
            else:
                items = (('fill', vs[1], vs[0]),)
            front = p.k == 'it' and p.a[1] is ZERO

            def inserted(at):
                if at.k == 'ite':
                    return ite(at.a[0], inserted(at.a[1]), inserted(at.a[2]))
                if at.k == 'end':
                    return self.seq_append(old, items, kd)
                if old.k == 'seq' and old.a[1] is None and at is ZERO:
                    return mk('seq', kd, None, items + old.a[2])
                if at is ZERO and old.k in ('sym', 'fld', 'idx', 'at') and len(items) == 1 and items[0][0] == 'item':
                    return mk('seq', kd, None, items + (('splice', old),))
                return mk('seq', kd, app('inserted', old, at, *[x for i in items for x in i[1:] if isinstance(x, T)]), ())
            if p.k == 'ite' and all(x.k == 'it' and x.a[0] == p.a[1].a[0] for x in p.a[1:]):
                p = mk('it', p.a[1].a[0], ite(p.a[0], p.a[1].a[1], p.a[2].a[1]))
            self.write(st, l, inserted(p.a[1] if p.k == 'it' else p))
            if persistent:
                self.ev('cont', 'insert', [h] + vs, fr, line, pos='front' if front else 'back' if p.k == 'it' and p.a[1].k == 'end' else p)
            if p.k == 'it' and p.a[1].k == 'end' and kd == 'vec' and self.indexed(old):
                return mk('it', h, size(old))
            return mk('it', h, p.a[1] if p.k == 'it' else Unk('pos'))
        if name == 'erase':
            vs = [self.rv(x, st, fr) for x in a]
            old = self.read(st, l)
            key = vs[0] if vs else ZERO
            if key.k == 'it':
                key_ = key.a[1].a[1] if key.a[1].k in ('find', 'sfind') else None
            else:
                key_ = key if kd in ('map', 'set') else None
            self.write(st, l, app('erased', old, *( [key_] if key_ is not None else [v.a[1] if v.k == 'it' else v for v in vs])))
            if persistent:
                self.ev('cont', 'erase', [h] + ([key_] if key_ is not None else vs), fr, line, pos=vs[0] if vs else None)
            return mk('it', h, vs[0].a[1] if vs and vs[0].k == 'it' else Unk('erase'))
        if name == 'resize':
            n = self.rv(a[0], st, fr)
            m = re.match(r'^std::\w+<(.*?)(?:, std::allocator.*)?>$', bt)
            v = self.rv(a[1], st, fr) if len(a) > 1 else self.zero(m.group(1) if m else '')
            old = self.read(st, l)
            empty = old.k == 'seq' and old.a[1] is None and not old.a[2]
            if empty or n is ZERO:
                nv = self.fill(kd, n, v)
            elif size(old) is n:
                nv = old
            elif old.k == 'seq' and old.a[1] is None and all(i[0] == 'item' for i in old.a[2]) and n.k == 'c':
                its = old.a[2][:n.a[0]] + tuple(('item', v) for _ in range(n.a[0] - len(old.a[2])))
                nv = mk('seq', kd, None, its)
            else:
                nv = app('resized', old, n, v)
            self.write(st, l, nv)
            if persistent:
                self.ev('cont', 'resize', [h, n], fr, line)
            return mk('sym', 'void', '')
        if name in ('reserve', 'shrink_to_fit'):
            for x in a:
                self.rv(x, st, fr)
            return mk('sym', 'void', '')
        if name == 'assign':
            vs = [self.rv(x, st, fr) for x in a]
            if len(vs) == 2 and (vs[0].k == 'it' or (e.get('pt') or [''])[0].rstrip().endswith('*')):
                nv = self.range_value(kd, vs[0], vs[1], st) if vs[0].k == 'it' and vs[1].k == 'it' else mk('seq', kd, None, (('splice', app('ptrrange', vs[0], vs[1])),))
            elif len(vs) == 2:
                nv = self.fill(kd, vs[0], vs[1])
            else:
                nv = vs[0]
            self.assign(l, nv, st, fr, line)
            return mk('sym', 'void', '')
        if name == 'pop_back':
            old = self.read(st, l)
            if old.k == 'seq' and old.a[2] and old.a[2][-1][0] == 'item':
                nv = mk('seq', old.a[0], old.a[1], old.a[2][:-1])
            else:
                nv = app('popped', old)
            self.write(st, l, nv)
            if persistent:
                self.ev('cont', 'pop_back', [h], fr, line)
            return mk('sym', 'void', '')
        if name == 'swap':
            o = self.lv(a[0], st, fr)
            x, y = self.read(st, l), self.read(st, o)
            self.assign(l, y, st, fr, line)
            self.assign(o, x, st, fr, line)
            return mk('sym', 'void', '')
        if name == 'operator=':
            self.assign(l, self.rv(a[0], st, fr), st, fr, line)
            return l
        if name == 'fill' and kd == 'arr':
            v = self.rv(a[0], st, fr)
            old = self.read(st, l)
            if old.k == 'agg':
                self.assign(l, mk('agg', 'arr', tuple((n, v) for n, _ in old.a[1])), st, fr, line)
            return mk('sym', 'void', '')
        if name in ('substr', 'append', 'rfind', 'find_last_of', 'find_first_of', 'compare', 'starts_with', 'capacity', 'max_size', 'lower_bound', 'upper_bound', 'operator basic_string_view'):
            vs = [self.rv(x, st, fr) for x in a]
            x = self.read(st, l)
            if name == 'append':
                self.write(st, l, cat(x, vs[0]))
                return l
            if name.startswith('operator'):
                return x
            if name == 'upper_bound' and kd in ('map', 'set') and len(vs) == 1:
                # what comes after the key of an element is the next element
                el = vs[0]
                if kd == 'map':
                    el = el.a[0] if el.k == 'fld' and el.a[1] == 'first' else None
                if el is not None and el.k == 'idx' and el.a[0] is x:
                    return mk('it', h, add(el.a[1], ONE))
            return app('m:' + name, x, *vs)
        vs = [self.rv(x, st, fr) for x in a]
        r = mk('res', 'cont:' + name, next(self.ec), 'ret')
        self.ev('ext', 'cont:' + name, [h] + vs, fr, line, r)
        if persistent or True:
            self.write(st, l, app('after:' + name, self.read(st, l), *vs))
        return r

    @staticmethod
    def elem_type(bt):
        m = re.match(r'^std::\w+<', bt)
        if not m:
            return ''
        d, cur = 0, ''
        for c in bt[m.end():]:
            if c in '<([':
                d += 1
            elif c in '>)]':
                if d == 0:
                    break
                d -= 1
            if c == ',' and d == 0:
                break
            cur += c
        return cur.strip()

    @staticmethod
    def targs(bt):
        m = re.match(r'^[\w:]+<', bt)
        out, d, cur = [], 0, ''
        for c in bt[m.end():] if m else '':
            if c in '<([':
                d += 1
            elif c in '>)]':
                if d == 0:
                    break
                d -= 1
            if c == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
                continue
            cur += c
        out.append(cur.strip())
        return out

    def elem_ctor(self, bt, e, a):
        et = self.elem_type(bt)
        if et in self.p.records:
            pt = (e.get('pt') or [''])[0]
            return base_type(pt) != et
        return False

    def emplace_value(self, bt, e, a, st, fr):
        et = self.elem_type(bt)
        return self.build_value(et, e, a, e.get('pt') or [], st, fr)

    def build_value(self, et, e, a, pts, st, fr):
        rec = self.p.records.get(et)
        if rec:
            best = None
            for m in rec['methods']:
                if m['n'] != rec['name'].split('::')[-1] or m.get('deleted'):
                    continue
                g = self.p.funcs.get(m['u'])
                if g is None or len(m['params']) < len(a) or not (g.get('body') is not None or g.get('inits')):
                    continue
                if g.get('copyctor') or g.get('movector'):
                    continue
                score = sum(2 if base_type(p['t']) == base_type(x) else 1 if ('int' in p['t']) == ('int' in x) else 0 for p, x in zip(m['params'], pts)) - (len(m['params']) - len(a)) * 3
                if best is None or score > best[0]:
                    best = (score, g)
            if best:
                l = self.new_loc('elt')
                g = best[1]
                args = self.bind_args(g, a, st, fr)
                if self.stops(g):
                    r = mk('res', g['sq'], next(self.ec), 'ret')
                    self.ev('api', g['sq'], [x if k == 'val' else self.read(st, x) for k, x in args], fr, e.get('l'), r, fn=g)
                    return r
                self.call_fn(g, st, fr, e.get('l'), this=l, args=args, ctor=True)
                return self.read(st, l)
        vs = [self.rv(x, st, fr) for x in a]
        if not vs:
            return self.zero(et)
        if len(vs) == 1:
            return vs[0]
        if et.startswith('std::pair<') and len(vs) == 2:
            return mk('agg', 'pair', (('first', vs[0]), ('second', vs[1])))
        return app('new:' + strip_targs(et), *vs)

    def assoc_insert(self, kd, name, l, e, st, fr, bt):
        a = list(e['a'])
        pts = list(e.get('pt') or [])
        line = e.get('l')
        if name == 'emplace_hint':
            self.rv(a[0], st, fr)
            a, pts = a[1:], pts[1:]
            name = 'emplace'
        h = self.addr(l)
        persistent = isinstance(l[0], T)
        if kd == 'set':
            if name == 'insert' and len(a) == 2:
                x, y = self.rv(a[0], st, fr), self.rv(a[1], st, fr)
                v = self.range_value('vec', x, y, st) if x.k == 'it' and y.k == 'it' else Unk('range')
                old = self.read(st, l)
                self.write(st, l, self.seq_append(old, (('splice', v),), kd))
                if persistent:
                    self.ev('cont', 'insert_range', [h, v], fr, line)
                return mk('sym', 'void', '')
            v = self.rv(a[0], st, fr) if len(a) == 1 else self.build_value(self.elem_type(bt), e, a, pts, st, fr)
            old = self.read(st, l)
            c = self.has(old, v)
            self.write(st, l, self.seq_append(old, (('item', v),), kd))
            if persistent:
                self.ev('cont', 'insert', [h, v], fr, line, had=c)
            return mk('agg', 'pair', (('first', mk('it', h, mk('sfind', self.read(st, l), v, TRUE))), ('second', not_(c))))
        mt = self.targs(bt)
        vt = mt[1] if len(mt) > 1 else ''
        if name == 'insert' and len(a) == 2:
            x, y = self.rv(a[0], st, fr), self.rv(a[1], st, fr)
            if x.k == 'it' and y.k == 'it':
                src = self.to_loc(x.a[0])

                def body(q, el):
                    self.map_put(l, self.read(q, self.ext(el, 'first')), self.read(q, self.ext(el, 'second')), 'emplace', q, fr, line)
                self.iter_range(x, y, st, fr, line, body)
                return mk('sym', 'void', '')
        if name == 'insert' or (name == 'emplace' and len(a) == 1):
            p = self.rv(a[0], st, fr)
            if 'initializer_list' in (pts[0] if pts else '') and p.k == 'seq':
                for i in p.a[2]:
                    if i[0] == 'item':
                        self.map_put(l, fld(i[1], 'first'), fld(i[1], 'second'), 'emplace', st, fr, line)
                return mk('sym', 'void', '')
            return self.map_put(l, fld(p, 'first'), fld(p, 'second'), 'emplace', st, fr, line)
        k = self.rv(a[0], st, fr)
        if len(a) == 1:
            v = self.zero(vt)
            if vt in self.p.records:
                v = self.default_value(vt, st, fr)
        elif len(a) == 2 and not (vt in self.p.records and base_type(pts[1] if len(pts) > 1 else '') != vt):
            v = self.rv(a[1], st, fr)
        else:
            v = self.build_value(vt, e, a[1:], pts[1:], st, fr)
        if st.dead:
            return Unk('dead')
        return self.map_put(l, k, v, 'assign' if name == 'insert_or_assign' else 'emplace', st, fr, line)

    def default_value(self, t, st, fr):
        return self.rv_ctor({'k': 'ctor', 't': t, 'a': [], 'u': next((m['u'] for m in self.p.records[t]['methods'] if m['n'] == t.split('::')[-1] and not m['params']), '?'), 'pt': []}, st, fr)

    def map_put(self, l, k, v, mode, st, fr, line):
        h = self.addr(l)
        old = self.read(st, l)
        c = self.has(old, k)
        if c is FALSE:
            mode2 = 'assign'
        elif c is TRUE and mode == 'emplace':
            mode2 = None
        else:
            mode2 = mode
        if mode2 is not None:
            if mode2 == 'emplace':
                self.write(st, l, self.seq_append(old, (('if', not_(c), (('kv', k, v, 'assign'),), ()),), 'map'))
            else:
                self.write(st, l, self.seq_append(old, (('kv', k, v, 'assign'),), 'map'))
        if isinstance(l[0], T):
            self.ev('cont', 'put', [h, k, v], fr, line, mode=mode, had=c)
        return mk('agg', 'pair', (('first', mk('it', h, mk('find', self.read(st, l), k, TRUE))), ('second', not_(c))))

    # ------------------------------------------------------------------------------- operators
    def std_op(self, sq, e, st, fr, want):
        op = e['op']
        a = e['a']
        line = e.get('l')
        bt = val_type(e.get('bt') or '')
        if op == '()' and bt.startswith('std::function<') or op == '()' and sq.startswith('std::function'):
            fl = self.lv(a[0], st, fr)
            fnv = self.read(st, fl)
            nm = None
            if a[0]['k'] == 'mem':
                nm = a[0]['n']
            pts = e.get('pt') or []
            args = []
            for i, x in enumerate(a[1:]):
                if i < len(pts) and is_ref(pts[i]) or x['k'] in ('ref', 'mem', 'this', 'idx', 'un'):
                    args.append(('loc', self.lv(x, st, fr)))
                else:
                    args.append(('val', self.rv(x, st, fr)))
            if st.dead:
                return Unk('dead')
            return self.call_value(fnv, st, fr, line, args, name=nm, rtype=e.get('t', ''))
        if op == '()':
            args = [self.rv(x, st, fr) for x in a]
            return app(sq, *args[1:])
        if op == '=':
            l = self.lv(a[0], st, fr)
            if bt.startswith('std::optional<'):
                pt = (e.get('pt') or [''])[0]
                v = self.rv(a[1], st, fr)
                if 'nullopt_t' in pt:
                    v = ZERO
                elif not val_type(pt).startswith('std::optional<') and v.k != 'some':
                    v = mk('some', v)
                self.assign(l, v, st, fr, line)
                return l
            v = self.rv(a[1], st, fr)
            if v.k == 'agg' and seq_kind(bt) == 'vec':
                v = mk('seq', 'vec', None, tuple(('item', x) for _, x in v.a[1]))
            if (e.get('pt') or [''])[0].endswith('&&'):
                self.moved_out(a[1], bt, st, fr)
            self.assign(l, v, st, fr, line)
            return l
        if op == '*' and len(a) == 1:
            if bt.startswith('std::optional<'):
                return self.opt_loc(self.lv(a[0], st, fr), st)
            return self.deref_op(a[0], st, fr)
        if op == '->':
            # the MemberExpr above dereferences once more: yield the address
            if bt.startswith('std::optional<'):
                return self.addr(self.opt_loc(self.lv(a[0], st, fr), st))
            l = self.deref_op(a[0], st, fr)
            return self.addr(l) if l[0] is None or True else l
        if op == '[]':
            kd = seq_kind(bt)
            l = self.lv(a[0], st, fr)
            v0 = self.read(st, l) if False else None
            i = self.rv(a[1], st, fr)
            if kd == 'map':
                mt = self.targs(bt)
                x = self.read(st, l)
                if self.has(x, i) is not TRUE:
                    vt = mt[1] if len(mt) > 1 else ''
                    d = self.default_value(vt, st, fr) if vt in self.p.records else self.zero(vt)
                    c = self.has(x, i)
                    self.map_put(l, i, d, 'emplace', st, fr, line)
                return self.ext(l, ('at', i))
            if kd == 'str':
                return app('char', self.read(st, l), i)
            return self.ext(l, i)
        if op in ('++', '--'):
            l = self.lv(a[0], st, fr)
            v = self.read(st, l)
            nv = self.settle(self.incr(v, 1 if op == '++' else -1), st)
            if len(a) > 1:       # postfix
                self.assign(l, nv, st, fr, line)
                return v
            self.assign(l, nv, st, fr, line)
            return l
        if op in ('+=', '-='):
            l = self.lv(a[0], st, fr)
            v = self.rv(a[1], st, fr)
            self.assign(l, self.arith(op[0], self.read(st, l), v), st, fr, line)
            return l
        if op == '<<' and ('ostream' in (e.get('pt') or [''])[0] or 'basic_ostream' in sq or 'stream' in bt):
            l = self.lv(a[0], st, fr)
            root = l[0]
            v = self.rv(a[1], st, fr)
            if v.k == 'fn':
                v = S('')
            if isinstance(root, T):
                self.ev('stream', '<<', [self.addr(l), v], fr, line)
            self.write(st, l, cat(self.read(st, l), v))
            return l
        if op in CMP:
            x, y = self.rv(a[0], st, fr), self.rv(a[1], st, fr)
            pt = val_type((e.get('pt') or [''])[0])
            if op in ('==', '!=') and pt.startswith('std::vector<'):
                et = self.elem_type(pt)
                if et in self.p.records:
                    r = app('vec==', S(et), *sorted((x, y)))
                    return truth(r) if op == '==' else not_(truth(r))
            if op in ('==', '!=') and pt.startswith('std::optional<') and (y is ZERO or x is ZERO):
                pass
            return self.compare_in(op, x, y, st)
        if op in ('+', '-', '*', '/', '%', '|', '&', '^', '<<', '>>') and len(a) == 2:
            x, y = self.rv(a[0], st, fr), self.rv(a[1], st, fr)
            if seq_kind(e.get('t', '')) == 'str':
                return cat(x, y)
            return self.settle(self.arith(op, x, y), st)
        args = [self.rv(x, st, fr) for x in a]
        return app('op' + op, *args)

    def deref_op(self, e, st, fr):
        v = self.rv(e, st, fr)
        l = self.deref(v, st)
        return l
