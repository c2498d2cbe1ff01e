from .common import *
from sa.program import rel
from sa.terms import and_, not_, eq, truth, fld, ite, ZERO

PROP = prop('C28', 'A signal calls each connected function once, a connection stands for one',
  "Emitting a signal calls every connected function once, in connection order, with the arguments given; a function can connect or disconnect others or itself meanwhile: the emission neither uses what that removed nor calls one twice. "
  "A new connection takes a number above those in use and stands for the function connected, which is no longer called once the connection is disconnected, destroyed or replaced; disconnecting twice does nothing more. "
  "Moving a connection hands the function over and leaves the source without any, and a signal that ends leaves none of its connections valid.",
  ['histories', 'programs'], 'every sequence of connections, moves, disconnections and emissions, nested ones included',
  'Tests use a handful of sequences; a function that disconnects another during an emission is one of many.',
  [I + 'Signal.hpp'], [('emission', I + 'Signal.hpp: Signal::operator()'), ('connections', I + 'Signal.hpp: SignalConnection')],
  [('slots', 'the functions connected, by number', I + 'Signal.hpp'), ('connections', 'the connection objects to reset at the end', I + 'Signal.hpp')], ['calls of the connected functions'],
  how='Every member of a signal and of a connection, instantiated by a witness, is shown equal to a reference model; in emissions, a data-flow rule follows what designates an element of the signal\'s own containers: no such iterator, pointer or reference is used after a call of a connected function until it is looked up again, and a function is not called in place.', min=14)

SG, SC = 'crg::Signal::', 'crg::SignalConnection::'
K = (SG + 'addConnection', SG + 'remConnection', SG + 'disconnect')

class Handles:
    """What designates an element of the signal's own containers, and whether something that may remove the element happened since it was looked up.
    A handle (iterator, pointer, reference) has a token; a call of a connected function spends every token, ending a connection spends the ones it is reached through."""

    def __init__(self, cx):
        self.cx = cx
        self.bad, self.unknown, self.calls, self.depth = [], [], [], 0
        self.next = 0

    def token(self):
        self.next += 1
        return self.next

    # ------------------------------------------------------------------ expressions: tokens an expression designates an element through
    def use(self, v, S, l, what):
        if v in S['var'] and S['var'][v][0] == 'h' and S['var'][v][1] & S['spent']:
            self.bad.append(('%s is used after %s' % (S['var'][v][2], what), l))

    @staticmethod
    def keeps(t):
        t = t or ''
        return 'iterator' in t.split('<')[0] or t.endswith('&') or t.endswith('*') or t.endswith('*const')

    def spend(self, S, toks):
        S['spent'] |= toks

    def walk(self, e, S):
        """-> tokens through which the value designates something of the containers."""
        if isinstance(e, list):
            r = set()
            for x in e:
                r |= self.walk(x, S)
            return r
        if not isinstance(e, dict):
            return set()
        k = e.get('k')
        if k == 'ref' and e.get('id') in S['var']:
            kind, toks, name = S['var'][e['id']]
            self.use(e['id'], S, e.get('l'), 'a call that may have removed what it designates')
            if kind == 'snap' and S['stale'] and e['id'] in S['stale']:
                return {('stale', e['id'])}
            return set(toks) if kind in ('h', 'p') else set()
        if k == 'mem' and e.get('n') in ('m_slots', 'm_connections'):
            S['stale'] = set()
            return {S['here']} if S['here'] else set()
        if k == 'lambda':
            for sp in e.get('specs', ()):
                inner = copy_state(S)
                n = len(self.calls)
                self.stmt(sp['body'], inner)
                if len(self.calls) > n:
                    self.unknown.append(('a function is called inside a closure', e.get('l')))
            return set()
        if k == 'un' and (e.get('op') or '').endswith(('++', '--')) or k == 'op' and e.get('op') in ('++', '--'):
            o = e.get('e') or (e.get('a') or [None])[0]
            r = self.walk(o, S)
            if isinstance(o, dict) and o.get('k') == 'ref' and o.get('id') in S['var'] and S['var'][o['id']][0] == 'h':
                t = self.token()
                S['var'][o['id']] = ('h', frozenset((t,)), S['var'][o['id']][2])
                return r if len(e.get('a') or ()) == 2 or (e.get('op') or '').startswith('post') else {t}
            return r
        if k in ('bin', 'op') and e.get('op') == '=':
            x, y = (e['a'], e['b']) if k == 'bin' else e['a']
            r = self.value(y, S)
            if isinstance(x, dict) and x.get('k') == 'ref':
                v = x['id']
                if v in S['var'] and S['var'][v][0] == 'h' and not (x.get('t') or '').endswith('&'):
                    S['var'][v] = ('h', frozenset(r or {self.token()}), S['var'][v][2])
                elif v in S['var']:
                    S['var'].pop(v)
            else:
                self.walk(x, S)
            return r
        if k in ('op', 'mcall', 'call', 'icall', 'ctor'):
            return self.called(e, S)
        r = set()
        for n, x in e.items():
            if isinstance(x, (dict, list)) and n not in ('caps',):
                r |= self.walk(x, S)
        return r

    def value(self, e, S):
        """Tokens of a value looked up now: a fresh one when it comes straight from a container."""
        old = S['here']
        S['here'] = self.token()
        r = self.walk(e, S)
        S['here'] = old
        return r

    def called(self, e, S):
        q = e.get('q') or ''
        fn = None
        if e['k'] == 'op' and e.get('op') == '()' and 'std::function<' in (e.get('bt') or q):
            fn, rest = e['a'][0], e['a'][1:]
        elif e['k'] == 'call' and q.split('<')[0] in ('std::invoke', 'std::__invoke') and e.get('a'):
            fn, rest = e['a'][0], e['a'][1:]
        elif e['k'] == 'mcall' and 'std::function<' in (e.get('bt') or '') and q.endswith('::operator()'):
            fn, rest = e['b'], e['a']
        if fn is not None:
            old, S['here'] = S['here'], self.token()
            toks = self.walk(fn, S)
            S['here'] = old
            self.walk(rest, S)
            self.calls.append(e.get('l'))
            if any(isinstance(t, tuple) for t in toks):
                self.bad.append(('a function copied before an earlier call is called without checking that it is still connected', e.get('l')))
            elif toks:
                self.bad.append(('a connected function is called in place: it may be removed while it runs', e.get('l')))
            self.spend(S, ALLTOKENS(S))
            S['stale'] = {v for v, x in S['var'].items() if x[0] == 'snap'}
            return set()
        if e['k'] == 'mcall' and 'SignalConnection' in (e.get('bt') or '') and q.endswith('::disconnect'):
            old, S['here'] = S['here'], None
            toks = self.walk(e['b'], S)
            S['here'] = old
            self.calls.append(e.get('l'))
            self.spend(S, toks)
            return set()
        f = self.cx.p.funcs.get(e.get('u')) if e.get('u') else None
        if f and f.get('body') is not None and f['file'].endswith('Signal.hpp') and self.depth < 4 and e['k'] in ('call', 'mcall') and 'SignalConnection' not in (f.get('cls') or ''):
            inner = dict(var={}, spent=S['spent'], stale=set(), here=None)
            for p, a in zip(f['params'], e.get('a') or ()):
                self.bind(p, a, S, inner)
            self.depth += 1
            before = len(self.calls)
            self.stmt(f['body'], inner)
            self.depth -= 1
            S['spent'] |= inner['spent']
            if len(self.calls) > before:
                self.spend(S, ALLTOKENS(S))
                S['stale'] = {v for v, x in S['var'].items() if x[0] == 'snap'}
            return {S['here']} if S['here'] and self.keeps(e.get('t')) else set()
        r = self.walk([x for n, x in e.items() if n in ('b', 'a', 'fn')], S)
        if e['k'] == 'ctor' or not self.keeps(e.get('t')) and e['k'] != 'op':
            # a value of its own
            return r if 'iterator' in (e.get('t') or '').split('<')[0] else set()
        return r

    def bind(self, v, init, S, into):
        t = v.get('t') or ''
        toks = self.value(init, S) if init is not None else set()
        if 'iterator' in t.split('<')[0] or t.endswith('&') and toks:
            if toks:
                into['var'][v['id']] = ('h', frozenset(toks), v.get('n'))
        elif (t.endswith('*') or t.endswith('*const')) and toks:
            # a pointer read in a container is a value; the address of an element designates it
            into['var'][v['id']] = ('h' if isinstance(init, dict) and init.get('k') == 'un' and init.get('op') == '&' else 'p', frozenset(toks), v.get('n'))
        elif t.split('<')[0].replace('const ', '') in ('std::map', 'std::vector', 'std::set', 'std::deque', 'std::list'):
            into['var'][v['id']] = ('snap', frozenset(), v.get('n'))
        else:
            into['var'].pop(v['id'], None)
        for b in v.get('binds') or ():
            if v['id'] in into['var']:
                into['var'][b['id']] = into['var'][v['id']]

    # ------------------------------------------------------------------ statements
    def stmt(self, s, S):
        if isinstance(s, list):
            for x in s:
                self.stmt(x, S)
            return
        if not isinstance(s, dict):
            return
        k = s.get('k')
        if k in ('block', 'decls'):
            self.stmt(s['s'], S)
        elif k == 'var':
            self.bind(s, s.get('e'), S, S)
        elif k == 'expr':
            self.walk(s['e'], S)
        elif k == 'return':
            self.walk(s.get('e'), S)
        elif k == 'if':
            self.stmt(s.get('init'), S)
            self.stmt(s.get('cvar'), S)
            self.walk(s['c'], S)
            alts = []
            for n in ('t', 'e'):
                T = copy_state(S)
                self.stmt(s.get(n), T)
                if not leaves(s.get(n)):
                    alts.append(T)
            if alts:
                join(S, alts)
        elif k in ('for', 'while', 'do'):
            if isinstance(s.get('i'), dict):
                self.stmt(s['i'], S)
            for _ in (0, 1):
                if k != 'do':
                    self.stmt(s.get('cvar'), S)
                    self.walk(s.get('c'), S)
                self.stmt(s['b'], S)
                self.walk(s.get('n'), S)
                if k == 'do':
                    self.walk(s.get('c'), S)
        elif k == 'rfor':
            toks = self.value(s['r'], S)
            r = s['r']
            own = frozenset(toks)
            snap = isinstance(r, dict) and r.get('k') == 'ref' and S['var'].get(r.get('id'), ('',))[0] == 'snap'
            for _ in (0, 1):
                if own:
                    if own & S['spent']:
                        self.bad.append(('the loop over the container goes on after a call that may have removed the element it is at', s.get('l')))
                    S['var'][s['v']['id']] = ('h' if (s['v'].get('t') or '').endswith('&') else 'p' if (s['v'].get('t') or '').rstrip('const').endswith('*') else 'v', own, s['v'].get('n'))
                    for b in s['v'].get('binds') or ():
                        S['var'][b['id']] = S['var'][s['v']['id']]
                elif snap:
                    for b in [s['v']] + (s['v'].get('binds') or []):
                        S['var'][b['id']] = ('snap', frozenset(), b.get('n'))
                        if r['id'] in S['stale']:
                            S['stale'].add(b['id'])
                self.stmt(s['b'], S)
        elif k in ('switch', 'try', 'label', 'case', 'default'):
            for n in ('c', 'v', 'b', 's'):
                self.stmt(s.get(n), S)
        elif k in ('goto', 'unknown'):
            self.unknown.append(('a statement not followed', s.get('l')))


def ALLTOKENS(S):
    r = set()
    for kind, toks, _ in S['var'].values():
        r |= set(toks)
    return r


def copy_state(S):
    return dict(S, var=dict(S['var']), spent=set(S['spent']), stale=set(S['stale']))


def join(S, alts):
    S0 = alts[0]
    var = dict(S0['var'])
    for A in alts[1:]:
        for v, x in A['var'].items():
            var[v] = x if v not in var or var[v][0] != x[0] else (x[0], var[v][1] | x[1], x[2])
    S['var'], S['spent'], S['stale'] = var, set().union(*(A['spent'] for A in alts)), set().union(*(A['stale'] for A in alts))


def leaves(s):
    while isinstance(s, dict) and s.get('k') == 'block' and s['s']:
        s = s['s'][-1]
    return isinstance(s, dict) and s.get('k') in ('return', 'break', 'continue')


def whole(R):
    """A connection has a signal exactly when it has a number; it is not moved into itself."""
    own = [R.this] if R.fn['sq'].startswith(SC) and not R.fn.get('static') else []
    own += [a for a, p in zip(R.params, R.fn['params']) if 'SignalConnection' in p['t'].split('<')[0]]
    known = {fld(x, 'm_connection'): ite(truth(fld(x, 'm_signal')), fld(x, 'm_connection'), ZERO) for x in own}
    return and_(*[eq(truth(fld(x, 'm_signal')), truth(fld(x, 'm_connection'))) for x in own], *[not_(eq(x, y)) for x, y in zip(own, own[1:])]), known


def connections(cx):
    cx.given = whole
    cx.attempt(SG + 'connect', 'signalConnect', subject='connect', stops=(SC + 'SignalConnection', SC + '~SignalConnection'))
    cx.attempt(SG + 'disconnect', 'signalDisconnect', subject='disconnect')
    cx.attempt(SG + 'addConnection', 'signalAdd', subject='connection added')
    cx.attempt(SG + 'remConnection', 'signalRemove', subject='connection removed')
    cx.attempt(SC + 'SignalConnection', 'connectionOf', pred=lambda f: len(f['params']) == 2 and f['params'][1]['t'].endswith('&'), stops=K, subject='connection of a signal')
    cx.attempt(SC + 'SignalConnection', 'connectionEmpty', n=0, stops=K, subject='connection without signal')
    cx.attempt(SC + 'SignalConnection', 'connectionMoved', n=1, stops=K, subject='connection moved')
    cx.attempt(SC + 'operator=', 'connectionReplacedAfter', stops=tuple('=' + k for k in K[:2]) + (K[2],), subject='connection replaced', alts=('connectionReplaced',), only_names=(SG + 'disconnect',), ret=False)
    cx.attempt(SC + 'disconnect', 'connectionEnded', stops=K, subject='connection ended')
    cx.attempt(SC + '~SignalConnection', 'connectionEnded', stops=K, subject='connection destroyed')
    cx.attempt(SC + 'isValid', 'connectionValid', subject='valid')
    cx.attempt(SC + 'swap', 'connectionSwap', stops=K, subject='connections swapped')
    cx.given = None


def emissions(cx):
    cx.attempt(SG + 'operator()', 'signalEmitPlain', n=0, subject='emission')
    cx.attempt(SG + 'operator()', 'signalEmit', n=1, subject='emission with arguments')


def followed(cx, q, subject, what):
    for f in cx.p.find(q):
        H = Handles(cx)
        H.stmt(f['body'], dict(var={}, spent=set(), stale=set(), here=None))
        src = rel(f['file'])
        at = '%s:%s (%s)' % (src, f['line'], q)
        name = '%s%s' % (subject, ' with arguments' if f['params'] else '')
        if H.bad:
            cx.viol(name, H.bad[0][0], '%s:%s (%s)' % (src, H.bad[0][1] or f['line'], q))
        elif not H.calls or H.unknown:
            cx.undec(name, H.unknown[0][0] if H.unknown else what + ' was not found', at)
        else:
            cx.ok(name, '%d calls, %d lookups followed' % (len(H.calls), H.next), at)


def reentrance(cx):
    followed(cx, SG + 'operator()', 'what a call may remove', 'the call of a function')


def ends(cx):
    followed(cx, SG + '~Signal', 'end of the signal: what a disconnection removes', 'the end of a connection')
    f = cx.p.find(SG + '~Signal')
    if not f:
        return cx.undec('end of the signal', 'no definition', '')
    R = cx.run(SG + '~Signal', fn=f[0], stops=(SC + 'disconnect',))
    ds = R.ev(name=SC + 'disconnect')
    if ds:
        cx.require(any(o.loops for o in ds), 'end of the signal: every connection', 'only one connection is ended', R.where)
    elif f[0].get('defaulted') or not f[0]['body'].get('s'):
        cx.viol('end of the signal: every connection', 'no connection is ended', R.where)
    else:
        cx.undec('end of the signal: every connection', 'no end of a connection found', R.where)


def registered(cx):
    """The signal knows, at the end, the connection that stands for its function."""
    for f in cx.p.find(SC + 'operator='):
        R = cx.run(SC + 'operator=', fn=f, stops=(SG + 'disconnect',))
        own = [o for o in R.occs if o.ev.kind == 'cont' and o.ev.name in ('insert', 'erase', 'emplace') and R.this in o.args]
        cx.require(own and own[-1].ev.name != 'erase', 'connection replaced: known to its signal', 'the signal does not know the connection any more', R.where)


RULES = [connections, registered, emissions, reentrance, ends]
