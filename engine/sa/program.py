"""Loads what the extractor saw: functions, records, enumerations and globals of the repository."""
import hashlib, json, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('CRG_REPO', '/repo')
BUILD = os.environ.get('CRG_SA_BUILD', os.path.join(VERIF, 'build'))
TOOL = os.path.join(BUILD, 'crgextract')
TOOLSRC = os.path.join(VERIF, 'engine', 'extract', 'crgextract.cpp')
WITNESS = os.path.join(VERIF, 'engine', 'witness')


class AnalysisBroken(Exception):
    pass


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    stamp = hashlib.sha256(open(TOOLSRC, 'rb').read()).hexdigest()
    sf = TOOL + '.stamp'
    if os.path.exists(TOOL) and os.path.exists(sf) and open(sf).read() == stamp:
        return
    L = '/usr/lib/llvm-18'
    tmp = TOOL + '.%d.tmp' % os.getpid()
    cmd = ['clang++', '-std=c++17', '-O1', '-fno-rtti', '-fno-exceptions', '-w', '-I' + L + '/include', '-D__STDC_CONSTANT_MACROS',
           '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-D_GNU_SOURCE', TOOLSRC, '-o', tmp,
           L + '/lib/libclang-cpp.so.18.1', '-L' + L + '/lib', '-lLLVM-18', '-Wl,-rpath,' + L + '/lib']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken('extractor does not build: ' + r.stderr[-2000:])
    os.replace(tmp, TOOL)
    with open(sf, 'w') as f:
        f.write(stamp)


def version_flags():
    out = []
    try:
        for m in re.finditer(r'^set\( VERSION_(MAJOR|MINOR|BUILD) ([0-9]+) \)', open(os.path.join(REPO, 'CMakeLists.txt')).read(), re.M):
            out.append('-DCRG_VERSION_%s=%s' % (m.group(1), m.group(2)))
    except OSError:
        pass
    return out


def flags():
    return ['-std=c++17', '-DCRG_BUILD_STATIC', *version_flags(), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'source', 'RenderGraph'),
            '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w', '-ferror-limit=0']


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'source', 'RenderGraph')):
        for f in fs:
            if f.endswith('.cpp'):
                out.append(os.path.join(d, f))
    return sorted(out)


def witnesses():
    if not os.path.isdir(WITNESS):
        return []
    return sorted(os.path.join(WITNESS, f) for f in os.listdir(WITNESS) if f.endswith('.cpp'))


def tree_hash():
    h = hashlib.sha256()
    for base in ('include', 'source'):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    for w in witnesses() + [TOOLSRC, os.path.join(REPO, 'CMakeLists.txt')]:
        if os.path.exists(w):
            h.update(open(w, 'rb').read())
    return h.hexdigest()


def extract():
    """Runs the extractor over every unit the build compiles, in parallel; returns the raw records."""
    build_tool()
    srcs = sources()
    if len(srcs) < 10:
        raise AnalysisBroken('only %d translation units found under %s' % (len(srcs), REPO))
    # biggest first, spread over processes
    srcs.sort(key=lambda p: (-os.path.getsize(p), p))
    n = min(6, len(srcs))
    groups = [srcs[i::n] for i in range(n)]
    ns = n
    # one reference model not compiling against a changed tree must not take the others along
    groups += [[w] for w in witnesses()]
    srcs = srcs + witnesses()
    n = len(groups)
    procs = []
    for i, g in enumerate(groups):
        procs.append(subprocess.Popen([TOOL, REPO.rstrip('/') + '/', str((i + 1) * 10000000), *g, '--', *flags()],
                                      stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=REPO))
    import threading
    outs = [None] * n

    def go(i):
        outs[i] = procs[i].communicate()
    th = [threading.Thread(target=go, args=(i,)) for i in range(n)]
    [t.start() for t in th]
    [t.join() for t in th]
    recs, broken = [], {}
    for i, p in enumerate(procs):
        if p.returncode != 0 and i < ns:
            raise AnalysisBroken('a translation unit does not parse: ' + outs[i][1].decode(errors='replace')[-3000:])
        if p.returncode != 0:
            broken[os.path.basename(groups[i][0])] = outs[i][1].decode(errors='replace')[:1500]
        recs.append(json.loads(outs[i][0]))
    return recs, srcs, broken


def strip_targs(q):
    """std::map<...>::operator[] -> std::map::operator[]"""
    out = []
    d = 0
    i = 0
    n = len(q)
    while i < n:
        if q.startswith('operator', i) and (i == 0 or not (q[i - 1].isalnum() or q[i - 1] == '_')):
            m = re.match(r'operator *(<=>|<<=|>>=|->\*|->|<<|>>|<=|>=|<|>|\(\))', q[i:])
            if m:
                if d == 0:
                    out.append(m.group(0))
                i += len(m.group(0))
                continue
        c = q[i]
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


class Program:
    def __init__(self):
        recs, self.units, self.broken_models = extract()
        self.funcs = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.enumvals = {}
        for grp in recs:
            for d in grp:
                k = d['d']
                if k == 'func':
                    old = self.funcs.get(d['u'])
                    if old is None or (old.get('body') is None and d.get('body') is not None):
                        self.funcs[d['u']] = d
                elif k == 'record':
                    self.records.setdefault(d['name'], d)
                elif k == 'enum':
                    self.enums.setdefault(d['name'], d)
                elif k == 'global':
                    self.globals.setdefault(d['name'], d)
        for e in self.enums.values():
            for n, v in e['vals']:
                self.enumvals[n] = v
        self.by_q = {}
        for f in self.funcs.values():
            f['sq'] = strip_targs(f['q'])
            self.by_q.setdefault(f['sq'], []).append(f)
        if self.broken_models:
            self.drop_partial_models()
        # members that are pointers to a number, whatever the structure
        kinds = {}
        for r in self.records.values():
            for f in r['fields']:
                kinds.setdefault(f['n'], set()).add(f['t'].replace('const ', '').replace(' const', ''))
        self.number_pointers = {n for n, t in kinds.items() if all(re.match(r'^(bool|char|int|unsigned int|long|unsigned long|float|double) \*$', x) for x in t)}
        # virtual overriders
        self.overriders = {}
        self.subclasses = {}
        for r in self.records.values():
            for b in r['bases']:
                self.subclasses.setdefault(b, []).append(r['name'])
            for m in r['methods']:
                for o in m.get('over', ()):
                    self.overriders.setdefault(o, []).append(m['u'])

    def drop_partial_models(self):
        """A model calling one that does not compile any more is not usable either."""
        def callees(x, out):
            if isinstance(x, dict):
                if isinstance(x.get('q'), str) and x['q'].startswith('spec::'):
                    out.add(x.get('u'))
                for v in x.values():
                    callees(v, out)
            elif isinstance(x, list):
                for v in x:
                    callees(v, out)
        specs = {f['u']: f for f in self.funcs.values() if f['sq'].startswith('spec::')}
        calls = {}
        for u, f in specs.items():
            calls[u] = set()
            callees([f.get('body'), f.get('inits')], calls[u])
            calls[u].discard(None)
        while True:
            gone = [u for u in specs if any(c not in specs for c in calls[u])]
            if not gone:
                break
            for u in gone:
                f = specs.pop(u)
                self.funcs.pop(u)
                self.by_q[f['sq']].remove(f)

    def find(self, q, nparams=None, pred=None):
        """Functions by qualified name (template arguments stripped)."""
        r = [f for f in self.by_q.get(q, []) if f.get('body') is not None or f.get('defaulted')]
        if nparams is not None:
            r = [f for f in r if len(f['params']) == nparams]
        if pred:
            r = [f for f in r if pred(f)]
        return sorted(r, key=lambda f: (f['file'], f['line']))

    def one(self, q, nparams=None, pred=None):
        r = self.find(q, nparams, pred)
        if len(r) != 1:
            raise AnalysisBroken('anchor %s (%s parameters): %d definitions found' % (q, nparams, len(r)))
        return r[0]

    def enum(self, name):
        if name not in self.enumvals:
            raise AnalysisBroken('enumerator %s not seen' % name)
        return self.enumvals[name]

    def functions(self, prefix=None):
        for f in self.funcs.values():
            if prefix is None or f['file'].startswith(prefix):
                yield f


def rel(path):
    return os.path.relpath(path, REPO) if path.startswith('/') else path
