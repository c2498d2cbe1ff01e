import re
from .runtime import *
from sa.interp import Try
from sa.rules import Missing
from sa.terms import C, TRUE, FALSE, and_, or_, eq, not_, contains
from sa.query import equiv, walk
from .c35 import calls

PROP = prop('C12', 'A failing creation, allocation, binding or mapping throws',
  "Every Vulkan call of the library that creates, allocates, binds or maps an object has its result checked: when it is anything but success, an error is logged and an exception is thrown. "
  "This happens before the object is named or given to another Vulkan call. "
  "On success neither happens.",
  ['fault_sequences', 'inputs'], 'every such call of the library, and every result it can have',
  'The mock device always succeeds unless one call is told to fail, and only a few of the calls are.',
  [S + 'GraphContext.cpp', S + 'ResourceHandler.cpp', S + 'RunnableGraph.cpp', S + 'RunnablePass.cpp', S + 'RunnablePasses/PipelineHolder.cpp', S + 'RunnablePasses/RenderPassHolder.cpp'], [('check', S + 'GraphContext.cpp: checkVkResult')], (), ['exceptions', 'Vulkan calls after a failure'],
  how='Each function of the library making such a call is evaluated, with the check inlined; the call must be followed by an exception and an error message raised exactly when its result is not success, and by no use of its object in between. A result handed back to the caller is followed there.', min=25)

MAKES = re.compile(r'^vk(Create\w+|Allocate\w+|Bind(Image|Buffer)Memory|MapMemory)$')
CHECK = 'crg::checkVkResult'


def members(s):
    if isinstance(s, dict):
        if s.get('k') == 'mem' and MAKES.match(str(s.get('n'))):
            yield s['n']
        for v in s.values():
            yield from members(v)
    elif isinstance(s, list):
        for v in s:
            yield from members(v)


def makers(cx):
    for f in cx.p.functions():
        if '/witness/' in f['file'] or f['sq'].startswith('spec::') or f['sq'] == GC + 'GraphContext':
            continue
        if any(members([f.get('body'), f.get('inits')])):
            yield f


def checked(cx):
    names = {f['sq'] for f in makers(cx)}
    for f in makers(cx):
        at(cx, f, names - {f['sq']}, None, 0)


def at(cx, f, stops, only, depth):
    name = f['sq'].replace('crg::', '')
    try:
        r = cx.run(f['sq'], fn=f, stops=OBJ + ('crg::Fence::wait', R + 'initialise', R + 'recordInto') + tuple(sorted(stops)))
    except Missing as e:
        return cx.undec(name, str(e), f['file'])
    for o in r.occs:
        if o.ev.kind != 'vk' or not MAKES.match(o.ev.name) or (only and o.ev.loc[2] != only):
            continue
        if r.value is not None and contains(r.value, lambda t: t is o.ev.res):
            up = [g for g in cx.p.functions() if f['sq'] in set(calls(g.get('body'))) and g['sq'] != f['sq'] and '/witness/' not in g['file']]
            if not up or depth > 2:
                cx.undec('%s in %s' % (o.ev.name, name), 'its result is handed to an unknown caller', o.where)
            for g in up:
                at(cx, g, stops - {g['sq']}, o.ev.loc[2], depth + 1)
            continue
        judge(cx, r, o, f)
    swallowed(cx, r, name)


def swallowed(cx, r, name):
    """No handler around such a call keeps the exception to itself."""
    def go(nodes):
        for n in nodes:
            if isinstance(n, Try):
                if any(o.ev.kind == 'leaf' and o.ev.name == 'throw' and contains(o.guard, lambda t: t.k == 'res' and MAKES.match(str(t.a[0]))) for o in walk(n.body)):
                    for h in n.handlers:
                        out = [o.guard for o in walk(h) if o.ev.kind == 'leaf' and o.ev.name == 'throw']
                        cx.verdict(equiv(or_(FALSE, *out), TRUE), 'handlers of ' + name, 'the exception is caught and not raised again', r.where)
                go(n.body)
            for k in ('a', 'b', 'body'):
                if not isinstance(n, Try) and isinstance(getattr(n, k, None), list):
                    go(getattr(n, k))
    go(r.tree)


def judge(cx, r, o, f):
    res = o.ev.res
    subject = '%s in %s' % (o.ev.name, f['sq'].replace('crg::', ''))
    bad = not_(eq(res, C(0)))
    want = and_(o.guard, bad)
    here = r.occs.index(o)
    mine = [x for x in r.occs[here + 1:] if x.loops == o.loops and contains(x.guard, lambda t: t is res)]
    throws = [x for x in mine if x.ev.kind == 'leaf' and x.ev.name == 'throw']
    errors = [x for x in mine if x.ev.name == 'crg::Logger::logError']
    if not throws:
        return cx.viol(subject, 'nothing is thrown when it fails', o.where)
    t = throws[0]
    cx.verdict(equiv(t.guard, want), subject, 'an exception is not thrown exactly when it fails', t.where)
    if not errors:
        cx.viol(subject, 'no error is logged when it fails', o.where)
    else:
        cx.verdict(equiv(errors[0].guard, want), 'message of ' + subject, 'an error is not logged exactly when it fails', errors[0].where)
    cx.require(not errors or r.occs.index(errors[0]) < r.occs.index(t), 'order of ' + subject, 'logged after the exception', t.where)
    for x in r.occs[here + 1:r.occs.index(t)]:
        if x.ev.kind in ('vk', 'api') and x.ev.name not in LOGS and any(contains(a, lambda u: u.k == 'res' and u.a[:2] == res.a[:2]) for a in x.args):
            return cx.viol('use of ' + subject, '%s gets the object before the result is known' % x.ev.name.replace('crg::', ''), x.where)
    cx.ok('use of ' + subject, '', o.where)


LOGS = ('crg::Logger::logError',)
RULES = [checked]
