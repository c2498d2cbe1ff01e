import re
from .runtime import *
from sa.terms import Sym, show
from sa.query import implies, equiv, same

PROP = prop('C35', 'Debug names, labels and leak reports describe the right objects',
  "Every object registered with a context is named to the debug layers, when they are there, with its own handle, the object type of its kind and the name given, and stays tracked under its handle, with that kind and name and where it was made, until it is unregistered. "
  "When the context ends, exactly the objects still tracked are reported, each with its kind, name and origin. "
  "A debug label carries the name and colour it is given, and every label opened while recording is closed once on the same command buffer.",
  ['histories', 'inputs'], 'every kind of object, handle, name and registration history; every recorded label',
  'The mock device has no debug layer checking names, and a leak is only printed; a wrong kind or an unclosed label is invisible to the tests.',
  [S + 'GraphContext.cpp', I + 'GraphContext.hpp', S + 'RunnablePass.cpp'], [('kinds', I + 'GraphContext.hpp: DebugTypeTraits'), ('tracking', S + 'GraphContext.cpp: doRegisterObject')], (), ['debug utils calls', 'stderr'],
  how='The table of kinds is read and compared with the names of the handle types; naming, tracking, reporting and labelling are shown equal to reference models; each function opening a label is checked for one matching close under the same condition.', min=60)


def kinds(cx):
    """Each handle type stands for the Vulkan object type of its own name."""
    vk = lambda n: re.sub(r'(?<=[a-z])(?=[A-Z])', '_', n).upper()
    n = 0
    for name, g in cx.p.globals.items():
        m = re.match(r'^crg::DebugTypeTraits<(Vk\w+)_T \*>::(UtilsValue|ReportValue|Name)$', name)
        if not m or 'init' not in g:
            continue
        n += 1
        h, what = m.group(1), m.group(2)
        init = g['init']
        kind = vk(h[2:].replace('KHR', ''))
        kind += '_KHR' if h.endswith('KHR') else ''
        if what == 'Name':
            got = next((a.get('v') for a in init.get('a', []) if a.get('k') == 'str'), None) if init.get('k') != 'str' else init.get('v')
            want = h
        else:
            got = init.get('n')
            want = 'VK_OBJECT_TYPE_' + kind if what == 'UtilsValue' else 'VK_DEBUG_REPORT_OBJECT_TYPE_' + kind + '_EXT'
        subject = '%s of %s' % (what, h)
        where = '%s:%s (%s)' % (g['file'].replace('/repo/', ''), g['line'], name)
        if got is None:
            cx.undec(subject, 'not a plain constant', where)
        else:
            cx.require(got == want, subject, 'is %s instead of %s' % (got, want), where)
    if not n:
        cx.undec('kinds of objects', 'no table found')


def tracking(cx):
    cx.attempt('spec::useRegister', 'defRegister', stops=OBJ + (GC + 'doRegisterObjectName',), argmask={GC + 'doRegisterObject': (), GC + 'doRegisterObjectName': ()}, subject='registration')
    cx.attempt(GC + 'doRegisterObjectName', 'nameObject')
    cx.attempt(GC + 'doRegisterObject', 'trackObject', ignore_ev=('m_trace',))
    cx.attempt(GC + 'doUnregisterObject', 'untrackObject', ignore_ev=('m_trace',))
    cx.attempt(GC + '~GraphContext', 'reportLeaks')


def labels(cx):
    cx.attempt(GC + 'vkCmdBeginDebugBlock', 'beginBlock')
    cx.attempt(GC + 'vkCmdEndDebugBlock', 'endBlock')


def balanced(cx):
    B, E = GC + 'vkCmdBeginDebugBlock', GC + 'vkCmdEndDebugBlock'
    users = [f for f in cx.p.functions() if any(q in (B, E) for q in calls(f.get('body')))]
    for f in users:
        if f['sq'] in (B, E) or '/witness/' in f['file'] or f['sq'].startswith('spec::'):
            continue
        r = cx.run(f['sq'], fn=f, stops=PASS)
        opened, closed = r.ev(name=B), r.ev(name=E)
        name = f['sq'].replace('crg::', '')
        if len(opened) != 1 or len(closed) != 1:
            if opened and not closed:
                cx.viol('labels of ' + name, 'a label is opened and never closed', opened[0].where)
            elif len(opened) != len(closed):
                cx.undec('labels of ' + name, '%d opened, %d closed' % (len(opened), len(closed)), r.where)
            continue
        o, c = opened[0], closed[0]
        cx.verdict(equiv(o.guard, c.guard), 'labels of ' + name, 'opened and closed under different conditions', c.where)
        cx.verdict(same(o.guard, o.ev.args[1], c.ev.args[1]), 'command buffer of the labels of ' + name, 'closed on another command buffer', c.where)
        i, j = r.occs.index(o), r.occs.index(c)
        cx.require(i < j, 'order of the labels of ' + name, 'closed before it is opened', c.where)


def calls(s):
    if isinstance(s, dict):
        if isinstance(s.get('q'), str):
            yield s['q']
        for v in s.values():
            yield from calls(v)
    elif isinstance(s, list):
        for v in s:
            yield from calls(v)


RULES = [kinds, tracking, labels, balanced]
