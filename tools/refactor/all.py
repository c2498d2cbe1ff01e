#!/usr/bin/env python3
"""Every property on the tree of CRG_REPO in one process; prints what is violated or undecided."""
import importlib, os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..')
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)
from sa.program import Program
from sa.rules import Ctx, Missing
import traceback
try:
    prog = Program()
except Exception as e:
    print('alarm ALL the analysis is broken: %s' % str(e)[-500:].replace('\n', ' '))
    sys.exit(0)
props = sys.argv[1:] or sorted('C' + f[1:-3] for f in os.listdir(os.path.join(HERE, 'engine', 'props')) if f[0] == 'c' and f[1:-3].isdigit())
for pid in props:
    mod = importlib.import_module('props.' + pid.lower())
    cx = Ctx(prog, pid)
    for fn in mod.RULES:
        try:
            fn(cx)
        except Missing as e:
            cx.undec(fn.__name__, str(e))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            cx.undec(fn.__name__, 'the analysis failed: %s: %s (%s:%s)' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
    ok = sum(1 for o in cx.obl if o[2] == 'ok')
    bad = [o for o in cx.obl if o[2] == 'violated']
    und = [o for o in cx.obl if o[2] == 'undecided']
    for o in bad:
        print('alarm %s %s | %s | %s' % (pid, o[1], o[3][:700], o[4]))
    for o in und:
        print('undecided %s %s | %s | %s' % (pid, o[1], o[3][:300], o[4]))
    if not bad and not ok or ok + len(bad) < mod.PROP.get('min', 1) and not bad and not und:
        print('alarm %s nothing decided' % pid)
