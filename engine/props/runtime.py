"""Stops shared by the rules about recording and submission."""
from .common import *
T = 'crg::FramePassTimer::'
G = 'crg::RunnableGraph::'
R = 'crg::RunnablePass::'
GC = 'crg::GraphContext::'
FG = 'crg::FrameGraph::'
OBJ = (GC + 'doRegisterObject', GC + 'doUnregisterObject')
FN = (R + 'recordInto', R + 'recordOne', R + 'doCreateCommandBuffer', 'crg::Fence::wait', 'crg::Fence::reset', T + 'notifyPassRender')
PASS = (MB, 'crg::RecordContext::runImplicitTransition', R + 'initialise', T + 'start', T + 'beginPass', T + 'endPass', T + 'stop', '=' + G + 'getCurrentLayoutState', '=' + G + 'createImage',
        '=' + GC + 'getNextRainbowColour', 'crg::checkUndefinedInput', GC + 'vkCmdBeginDebugBlock', GC + 'vkCmdEndDebugBlock')
GRAPH = (T + 'start', T + 'beginPass', T + 'endPass', T + 'stop', T + 'notifyPassRender', 'crg::Fence::wait', 'crg::Fence::reset', R + 'recordCurrentInto', R + 'notifyPassRender',
         'crg::RecordContext::setNextPipelineState', 'crg::RecordContext::addStates', FG + 'registerFinalState', G + 'record', 'crg::convert', 'crg::DeletionQueue::clear')
RUN = ((lambda f: f['sq'] == G + 'run' and len(f['params']) == 2 and 'vector' in f['params'][0]['t'] and G + 'run'),)
STATE = ('=' + FG + 'getInputLayoutState', '=' + FG + 'getFinalLayoutState', '=' + FG + 'getOutputLayoutState', '=crg::RecordContext::getLayoutState', 'crg::RecordContext::setLayoutState',
         '=crg::RecordContext::getNextLayoutState')
DTORS = (T + '~FramePassTimer', 'crg::Fence::~Fence', 'crg::ContextObjectT::~ContextObjectT', 'crg::ContextResourcesCache::~ContextResourcesCache')


def record_into(cx, **k):
    # the state a buffer is said to come from only counts when none is tracked for it: looked at on its own
    cx.attempt(R + 'recordInto', 'recordPass', stops=PASS, ignore_ev=('crg::checkUndefinedInput',), argmask={'crg::bufferBarrier': (4, 5)}, **k)
    buffers_come_from(cx)


def buffers_come_from(cx):
    """What the barriers of buffers are given as the previous state is the tracked one, none, or that of the clear before them."""
    from sa.terms import subterms
    r = cx.run(R + 'recordInto', stops=PASS)
    for o in r.ev(name='crg::bufferBarrier'):
        for i, fixed in ((4, (0, 0x1000)), (5, (0x2000, 0x1000))):
            st, bad = [o.args[i]], []
            while st:
                x = st.pop()
                if x.k == 'ite':
                    st.extend(x.a[1:])
                elif x.k == 'c' and x.a[0] not in fixed:
                    bad.append(x)
                elif x.k != 'c' and not any(y.k in ('fld', 'at', 'idx') and 'm_buffers' in str(y) for y in subterms(x)):
                    bad = None
                    break
            if bad is None:
                cx.undec('previous state of a buffer', 'not of a recognised form', o.where)
            else:
                cx.require(not bad, 'previous state of a buffer', 'the previous state of a buffer is neither tracked nor that of its clear', o.where)


def guarded_by(cx, q, cond, allowed, stops, what):
    """Every call of q not in `allowed` happens only when cond (a predicate on guard atoms) holds."""
    from sa.query import implies, atoms, show
    r = cx.run(q, stops=stops)
    for o in r.occs:
        if o.ev.kind not in ('vk', 'cb', 'api', 'vcall') or o.ev.name in allowed:
            continue
        c = [a for x in r.occs for a in atoms(x.guard) if cond(a)]
        if not c:
            cx.undec('%s: %s' % (what, o.ev.name), 'the condition is not tested in a recognised way', o.where)
            continue
        cx.verdict(implies(o.guard, c[0]), '%s: %s' % (what, o.ev.name.replace('crg::', '')), 'happens although the condition does not hold', o.where)
