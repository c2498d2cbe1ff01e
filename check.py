#!/usr/bin/env python3
"""Decides one property of /repo's current source by static analysis.

usage: check.py <ID> [--all]        exit 0: no violation; 1: violation; 2: the analysis itself is broken
"""
import importlib, json, os, pickle, sys, time, traceback
if os.environ.get('PYTHONHASHSEED') != '0':
    # the same terms in the same order on every run
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get('CRG_EVIDENCE') or os.path.join(HERE, 'evidence')
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)
from sa import program
from sa.program import Program, AnalysisBroken, tree_hash, BUILD
from sa.rules import Ctx, Missing


def load_program():
    """The analysed program; reused only if every source file is byte-identical to the cached one."""
    h = tree_hash()
    f = os.path.join(BUILD, 'program.pkl')
    if os.environ.get('CRG_NO_CACHE') != '1':
        try:
            with open(f, 'rb') as fd:
                if pickle.load(fd) == h:
                    return pickle.load(fd)
        except Exception:
            pass
    p = Program()
    try:
        tmp = f + '.%d' % os.getpid()
        with open(tmp, 'wb') as fd:
            pickle.dump(h, fd)
            pickle.dump(p, fd, protocol=5)
        os.replace(tmp, f)
    except OSError:
        pass
    return p


def known_findings(pid):
    """(key, text) of the findings recorded for a property; 'fixed:' lines suppress nothing."""
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                out.append((key.strip(), text.strip()))
    return out


def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    mod = importlib.import_module('props.' + pid.lower())
    prog = load_program()
    cx = Ctx(prog, pid)
    cx.tier = tier
    missing = []
    for fn in mod.RULES:
        cx.rule = fn.__name__
        try:
            fn(cx)
        except Missing as e:
            missing.append('%s: %s' % (fn.__name__, e))
            cx.undec(fn.__name__, str(e))
        except AnalysisBroken:
            raise
        except Exception as e:
            # code in a shape the engine cannot handle: nothing is decided by this rule
            tb = traceback.extract_tb(e.__traceback__)[-1]
            cx.undec(fn.__name__, 'the analysis failed: %s: %s (%s:%s)' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
    st = {k: [o for o in cx.obl if o[2] == k] for k in ('ok', 'violated', 'undecided')}
    kf = known_findings(pid)
    viol, known = [], {}
    for o in st['violated']:
        hit = [k for k in kf if o[1] == k[0] or (k[0].endswith('*') and o[1].startswith(k[0][:-1]))]
        if hit:
            known.setdefault(hit[0], []).append(o)
        else:
            viol.append(o)
    for (key, text), os_ in known.items():
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, text, os_[0][4]))
    os.makedirs(EVID, exist_ok=True)
    P = mod.PROP
    if not st['ok'] and not viol:
        print('analysis broken: no obligation of %s could be decided' % pid)
        for o in cx.obl[:20]:
            print('  %s | %s | %s' % (o[2], o[1], o[3][:300]))
        rc = 2
    elif len(st['ok']) + len(st['violated']) < P.get('min', 1) and not viol and not st['undecided']:
        print('analysis broken: only %d obligations for %s, %d expected' % (len(cx.obl), pid, P.get('min', 1)))
        rc = 2
    else:
        rc = 1 if viol else 0
    rules = {}
    for o in cx.obl:
        r = rules.setdefault(o[0], {'ok': 0, 'violated': 0, 'undecided': 0})
        r[o[2]] += 1
    nodes = sum(len(r.occs) for r in cx.runs.values())
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': P.get('level', 'other'),
        'coverage': {
            'explanation': P['how'],
            'obligations': len(cx.obl), 'discharged': len(st['ok']),
            'undecided': [{'subject': o[1], 'why': o[3][:300], 'where': o[4]} for o in st['undecided']][:40],
            'translation_units_parsed': len(prog.units), 'function_definitions_seen': sum(1 for f in prog.funcs.values() if f.get('body') is not None),
            'functions_analysed': sorted(cx.analysed), 'functions_reached': len({o.ev.loc[2] for r in cx.runs.values() for o in r.occs if len(o.ev.loc) > 2}),
            'guarded_effects_compared': nodes,
            'rules': rules, 'known_findings': [k[0] for k in known],
            'samples': [{'rule': o[0], 'subject': o[1], 'where': o[4]} for o in st['ok'][:: max(1, len(st['ok']) // 12)]][:14],
        },
        'assumptions': P.get('assumptions', []) + [
            'the unit list and preprocessor configuration are those of the Linux static-library build',
            'Vulkan entry points, std containers and user callbacks behave as specified; distinct containers do not alias',
        ],
        'violations': len(viol), 'wall_s': round(time.time() - t0, 2)}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if viol:
        rd = os.path.join(HERE, 'build', 'reports')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + '.txt')
        with open(rp, 'w') as f:
            f.write('property %s: %s\n\n' % (pid, P['title']))
            for o in viol:
                f.write('rule %s\n  subject: %s\n  where:   %s\n  what:    %s\n\n' % (o[0], o[1], o[4], o[3]))
        for o in viol[:12]:
            print('%s: %s\n    %s' % (o[4] or '?', o[1], o[3][:800]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    if '--all' in sys.argv:
        for o in cx.obl:
            print('%-9s %s | %s | %s' % (o[2], o[1], o[3][:1200], o[4]))
    else:
        for o in st['undecided']:
            print('undecided: %s | %s | %s' % (o[1], o[3][:300], o[4]))
    print('%s: %d obligations discharged of %d, %d undecided, %d violated (%d known), %.1f s' % (
        pid, len(st['ok']), len(cx.obl), len(st['undecided']), len(st['violated']), len(st['violated']) - len(viol), time.time() - t0))
    return rc


if __name__ == '__main__':
    try:
        sys.exit(main())
    except AnalysisBroken as e:
        print('analysis broken: %s' % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
