from .runtime import *
from sa.terms import Sym

PROP = prop('C29', 'Each message goes to the callback of its own level',
  "A message logged at a level is given, with its newline choice, exactly once to the callback of that level and to no other. "
  "Setting the callback of a level replaces that one only, for the whole process. "
  "Unless replaced, trace and debug messages go to the log stream, information and warnings to the output stream and errors to the error stream, followed by a newline exactly when asked.",
  ['histories', 'inputs'], 'every level, message, newline choice and sequence of replacements',
  'The tests replace the callbacks with ones that only print; nothing checks which one runs.',
  [S + 'Log.cpp', I + 'Log.hpp'], [('levels', S + 'Log.cpp')], (), ['callbacks', 'standard streams'],
  how='Each logging function, each setter and each default callback is shown equal to its reference model, on the single logger of the process.', min=20)

L = 'crg::Logger::'


def levels(cx):
    for n in ('Trace', 'Debug', 'Info', 'Warning', 'Error'):
        cx.attempt(L + 'log' + n, 'say' + n, log=True, subject='log' + n)
        r = cx.run(L + 'set%sCallback' % n)
        one(cx, r, n)


def one(cx, r, n):
    """The setter stores its argument as the callback of its level, and changes no other."""
    subject = 'set%sCallback' % n
    stored = {}
    for root, inner in r.st.store.items():
        if not isinstance(root, tuple) and str(root.a[0]).startswith('static:'):
            if str(root.a[0]).startswith('static:thread:'):
                cx.viol(subject, 'replaces the callback for the calling thread only', r.where)
            for p, v in inner.items():
                stored[p] = v
    want = ('m_' + n.lower(),)
    for p, v in stored.items():
        if p and p != want and str(p[0]).startswith('m_'):
            cx.viol(subject, 'replaces %s' % '.'.join(map(str, p)), r.where)
    if want not in stored:
        cx.viol(subject, 'does not replace the callback of its level', r.where) if not stored else None
        if stored:
            cx.viol(subject, 'the callback of its level stays', r.where) if all(p != want for p in stored) else None
    else:
        cx.require(stored[want] is r.params[0], subject, 'stores something else than its argument', r.where)


def streams(cx):
    for n in ('trace', 'debug', 'info', 'warning', 'error'):
        cx.attempt_lambda(L + 'Logger', 'mkLogger', n=0, pick=lambda r, n=n: r.read(r.this if 'Logger' in r.fn['sq'].split('::')[-1] and r.fn['sq'].startswith('crg') else r.params[0], 'm_' + n), events=('stream', 'cb', 'vk'), state=False, subject='default ' + n)


RULES = [levels, streams]
